package props

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"

	"verifharness/core"
	"verifharness/spec"
)

// randAttribs makes ratings of an imaginary beatmap
func randAttribs(r *core.Rng) osu.Attributes {
	total := core.Pick(r, 1, 2, r.Int(1, 30), r.Int(1, 300), r.Int(100, 2500), r.Int(1900, 6000), 2000, 200, 400)
	if r.P(0.02) {
		total = r.Int(5000, 60000)
	}
	a := osu.Attributes{ObjectCount: total}
	a.Spinners = core.Pick(r, 0, 0, r.Int(0, minI(total, 5)), r.Int(0, total))
	rest := total - a.Spinners
	a.Sliders = core.Pick(r, 0, rest, r.Int(0, rest), r.Int(0, rest))
	a.Circles = rest - a.Sliders
	a.MaxCombo = total + core.Pick(r, a.Sliders, a.Sliders+r.Int(0, 3*a.Sliders+1))
	a.Aim = core.Pick(r, 0, 0.05, 0.0675, r.F(0, 1), r.F(0.5, 5), r.F(0.5, 5), r.F(3, 12))
	a.Speed = core.Pick(r, 0, 0.0675, r.F(0, 1), r.F(0.5, 5), r.F(0.5, 5), r.F(3, 12))
	a.Flashlight = core.Pick(r, 0, r.F(0, 1), r.F(0.2, 4), r.F(1, 8))
	a.SliderFactor = 1
	if a.Sliders > 0 {
		a.SliderFactor = core.Pick(r, 1, r.F(0.8, 1), r.F(0.9, 1), r.F(0, 1))
	}
	a.Total = r.F(0, 12)
	return a
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func randPPDiff(r *core.Rng) *difficulty.Difficulty {
	v := func() float64 { return core.Pick(r, r.F(0, 10), r.F(7, 10), float64(r.Int(0, 10)), 8, 9, 10) }
	d := difficulty.NewDifficulty(v(), v(), v(), v())
	d.SetMods(randMods(r))
	if r.P(0.15) {
		d.SetCustomSpeed(core.Pick(r, 0.5, 0.9, 1.1, 1.3, 2))
	}
	return d
}

// randScore makes a play of a map
func randScore(r *core.Rng, a osu.Attributes) spec.Score {
	s := spec.Score{}
	left := a.ObjectCount
	if left == 0 {
		return s
	}
	if r.P(0.2) { // not played to the end
		left = r.Int(1, left)
	}
	hits := left
	take := func(p float64) int {
		n := 0
		switch {
		case r.P(p):
		case r.P(0.6):
			n = r.Int(0, minI(left, 3+hits/50))
		default:
			n = r.Int(0, left)
		}
		left -= n
		return n
	}
	s.Miss = take(0.5)
	s.N50 = take(0.6)
	s.N100 = take(0.3)
	s.N300 = left
	s.Combo = core.Pick(r, a.MaxCombo, a.MaxCombo, r.Int(0, a.MaxCombo), a.MaxCombo-minI(a.MaxCombo, r.Int(0, 1+a.Sliders/5)), a.MaxCombo-minI(a.MaxCombo, s.Miss), a.MaxCombo/2, a.MaxCombo/3, r.Int(0, minI(3, a.MaxCombo)))
	return s
}

func specAttr(a osu.Attributes) spec.Attribs {
	return spec.Attribs{Aim: a.Aim, SliderFactor: a.SliderFactor, Speed: a.Speed, Flashlight: a.Flashlight, Objects: a.ObjectCount, Circles: a.Circles, Sliders: a.Sliders, Spinners: a.Spinners, Combo: a.MaxCombo}
}

func run(a osu.Attributes, s spec.Score, d *difficulty.Difficulty) osu.PPv2Results {
	return (&osu.PPv2{}).PPv2x(a, s.Combo, s.N300, s.N100, s.N50, s.Miss, d).Results
}

func ppDiff(a, b osu.PPv2Results, rel float64) string {
	for _, f := range []struct {
		n    string
		a, b float64
	}{{"Aim", a.Aim, b.Aim}, {"Speed", a.Speed, b.Speed}, {"Acc", a.Acc, b.Acc}, {"Flashlight", a.Flashlight, b.Flashlight}, {"Total", a.Total, b.Total}} {
		if !near(f.a, f.b, rel, 1e-12) {
			return fmt.Sprintf("%s: %v and %v", f.n, f.a, f.b)
		}
	}
	return ""
}

func init() {
	register(&core.Check{
		ID:    "C25",
		Rule:  "performance of 20 random plays of imaginary and (every 8th case) generated maps under random mods, settings and speeds, against an independently written formula. Non-trivial: a play with a miss, combo loss or imperfect accuracy.",
		Quick: 300000, Thorough: 6000000,
		MinEvents: map[string]int64{"plays": 500000, "combo based misses": 20000, "more than 2000 hits": 20000, "high AR": 20000, "low AR": 20000, "no fail with misses": 5000, "spun out with spinners": 5000, "relax": 20000, "score v2": 20000, "touch": 20000, "flashlight": 50000, "slider ends dropped": 20000, "partial": 50000, "of generated maps": 10000, "combo beyond the map's": 10000, "empty plays": 2000, "300s not given": 10000},
		Run: func(c *core.Case) {
			r := c.R
			var a osu.Attributes
			var d *difficulty.Difficulty
			real := c.Idx%8 == 0
			if real {
				_, b := randMap(c, ratingProfile(r))
				if b == nil {
					return
				}
				d = randDiff(r, b.Difficulty, randMods(r))
				a = osu.CalculateSingle(b.HitObjects, d)
			} else {
				a, d = randAttribs(r), randPPDiff(r)
			}
			sd := specDiff(d)
			for k := 0; k < 20; k++ {
				s := randScore(r, a)
				if s.N300 != a.ObjectCount {
					c.Sig(s, a.ObjectCount, modStr(d.Mods))
				}
				if r.P(0.04) { // combos beyond what is possible count as all of it
					s.Combo = a.MaxCombo + r.Int(1, 1+a.MaxCombo)
					c.Event("combo beyond the map's", 1)
				}
				if r.P(0.01) { // nothing hit yet
					s = spec.Score{Combo: s.Combo}
					c.Event("empty plays", 1)
				}
				want, nearMiss := spec.Performance(specAttr(a), s, sd)
				if nearMiss {
					c.Skip("combo based misses on a rounded integer")
					continue
				}
				c.Event("plays", 1)
				given := s
				if s.Combo == a.MaxCombo && r.P(0.1) { // left to the calculator
					given.Combo = -r.Int(1, 3)
				}
				if s.N300+s.N100+s.N50+s.Miss == a.ObjectCount && r.P(0.1) {
					given.N300 = -r.Int(1, 3)
					c.Event("300s not given", 1)
				}
				got := run(a, given, d)
				if e := ppDiff(got, osu.PPv2Results{Aim: want.Aim, Speed: want.Speed, Acc: want.Acc, Flashlight: want.Flashlight, Total: want.Total}, 1e-9); e != "" {
					c.Failf("formula", "play %+v of %+v, %s, AR %v OD %v: the result and the formula differ in %s", s, a, modStr(d.Mods), sd.ARReal, sd.ODReal, e)
					return
				}
				if a.Sliders > 0 && float64(s.Combo) < float64(a.MaxCombo)-float64(a.Sliders)/10 {
					c.Event("combo based misses", 1)
				}
				hits := s.N300 + s.N100 + s.N50 + s.Miss
				ev := func(cond bool, n string) {
					if cond {
						c.Event(n, 1)
					}
				}
				has := func(m difficulty.Modifier) bool { return d.Mods&m != 0 }
				ev(hits > 2000, "more than 2000 hits")
				ev(sd.ARReal > 10.33, "high AR")
				ev(sd.ARReal < 8, "low AR")
				ev(has(mNF) && s.Miss > 0, "no fail with misses")
				ev(has(mSO) && a.Spinners > 0, "spun out with spinners")
				ev(has(mRX), "relax")
				ev(has(mV2), "score v2")
				ev(has(mTD), "touch")
				ev(has(mFL), "flashlight")
				ev(a.Sliders > 0 && s.Combo < a.MaxCombo && s.N300 < hits, "slider ends dropped")
				ev(hits < a.ObjectCount, "partial")
				ev(real, "of generated maps")
			}
		},
	})

	register(&core.Check{
		ID:    "C26",
		Rule:  "a random complete play and neighbours of it: one hit worse, one combo more, perfect play, No Fail and Spun Out added. Non-trivial: the play is not perfect.",
		Quick: 4000000, Thorough: 60000000,
		MinEvents:   map[string]int64{"plays": 50000, "300 to 100": 20000, "300 to miss": 20000, "100 to miss": 10000, "100 to 50": 10000, "combo": 20000, "perfect": 50000, "no fail": 50000, "spun out": 50000},
		Assumptions: []string{"Plays are complete: hits add up to the number of objects, the combo is not larger than the map's."},
		Run: func(c *core.Case) {
			r := c.R
			a, d := randAttribs(r), randPPDiff(r)
			s := randScore(r, a)
			s.N300 = a.ObjectCount - s.N100 - s.N50 - s.Miss
			c.Event("plays", 1)
			if s.N300 != a.ObjectCount || s.Combo != a.MaxCombo {
				c.Sig(s, a.ObjectCount, modStr(d.Mods))
			}
			base := run(a, s, d)
			desc := func() string {
				return fmt.Sprintf("play %+v of %+v under %s (AR %v OD %v)", s, a, modStr(d.Mods), d.ARReal, d.ODReal)
			}
			for _, v := range []float64{base.Aim, base.Speed, base.Acc, base.Flashlight, base.Total} {
				if math.IsNaN(v) || math.IsInf(v, 0) || v < 0 {
					c.Failf("not-finite", "%s: %+v", desc(), base)
					return
				}
			}
			leq := func(sig string, x, y osu.PPv2Results, what string) {
				c.Event(sig, 1)
				for _, f := range []struct {
					n    string
					x, y float64
				}{{"Total", x.Total, y.Total}, {"Aim", x.Aim, y.Aim}, {"Speed", x.Speed, y.Speed}, {"Acc", x.Acc, y.Acc}, {"Flashlight", x.Flashlight, y.Flashlight}} {
					if f.x > f.y*(1+1e-9)+1e-12 {
						c.Failf(sig, "%s: %s raises %s from %v to %v", desc(), what, f.n, f.y, f.x)
						return
					}
				}
			}
			// the total lies between the largest component and their sum, scaled
			sum := base.Aim + base.Speed + base.Acc + base.Flashlight
			top := math.Max(math.Max(base.Aim, base.Speed), math.Max(base.Acc, base.Flashlight))
			factor := 1.12
			if d.Mods&mRX != 0 {
				factor *= 0.6
			}
			lo := factor
			if d.Mods&mNF != 0 {
				lo *= 0.9
			}
			if d.Mods&mSO != 0 {
				lo *= 1 - math.Pow(float64(a.Spinners)/float64(a.ObjectCount), 0.85)
			}
			if base.Total > sum*factor*(1+1e-9)+1e-12 || base.Total < top*lo*(1-1e-9)-1e-12 {
				c.Failf("bounds", "%s: total %v of %+v", desc(), base.Total, base)
				return
			}

			if s.N300 > 0 {
				x := s
				x.N300--
				x.N100++
				leq("300 to 100", run(a, x, d), base, "a 100 instead of a 300")
				x = s
				x.N300--
				x.Miss++
				leq("300 to miss", run(a, x, d), base, "a miss instead of a 300")
			}
			if s.N100 > 0 {
				x := s
				x.N100--
				x.N50++
				leq("100 to 50", run(a, x, d), base, "a 50 instead of a 100")
				if d.Mods&mRX == 0 {
					x = s
					x.N100--
					x.Miss++
					leq("100 to miss", run(a, x, d), base, "a miss instead of a 100")
				}
			}
			if s.Combo > 0 {
				x := s
				x.Combo -= r.Int(1, minI(s.Combo, 1+s.Combo/4))
				leq("combo", run(a, x, d), base, "losing combo")
			}
			leq("perfect", base, run(a, spec.Score{Combo: a.MaxCombo, N300: a.ObjectCount}, d), "an imperfect play")

			for _, m := range []struct {
				n string
				m difficulty.Modifier
			}{{"no fail", mNF}, {"spun out", mSO}} {
				with, without := *d, *d
				with.SetMods(d.Mods | m.m)
				without.SetMods(d.Mods &^ m.m)
				x, y := run(a, s, &with), run(a, s, &without)
				leq(m.n, x, y, "adding "+m.n)
				if x.Aim != y.Aim || x.Speed != y.Speed || x.Acc != y.Acc || x.Flashlight != y.Flashlight {
					c.Failf(m.n+" parts", "%s: %s changes more than the total: %+v, %+v", desc(), m.n, y, x)
				}
			}
		},
	})

	register(&core.Check{
		ID:    "C27",
		Rule:  "a random play given with defaults (no combo, no count of 300s) against the same play spelled out, calculated by fresh and by much reused calculators; calculators, attributes and difficulty are compared before and after. Non-trivial: every case with a different play.",
		Quick: 2000000, Thorough: 60000000,
		MinEvents: map[string]int64{"default combo": 50000, "default 300s": 50000, "both defaults": 50000, "reused calculators": 100000, "used for nearly the same": 50000, "impossible plays": 50000, "inputs unchanged": 50000},
		Run: func(c *core.Case) {
			r := c.R
			a, d := randAttribs(r), randPPDiff(r)
			if r.P(0.05) {
				a.MaxCombo = 0
			}
			if r.P(0.05) { // only the total is known, or one of the kinds
				a.Circles, a.Spinners = core.Pick(r, 0, a.Circles), 0
			}
			s := randScore(r, a)
			s.N300 = a.ObjectCount - s.N100 - s.N50 - s.Miss
			c.Sig(s, a.ObjectCount, a.MaxCombo)
			a0, d0 := a, diffState(d)
			neg := func() int { return -r.Int(1, 5) }
			pp := &osu.PPv2{}
			calc := func(a osu.Attributes, d *difficulty.Difficulty, combo, n300 int, s spec.Score, p *osu.PPv2) osu.PPv2Results {
				return p.PPv2x(a, combo, n300, s.N100, s.N50, s.Miss, d).Results
			}
			part := s
			if r.P(0.3) { // for the combo alone it does not matter whether the play is complete
				part.N300 = core.Pick(r, 0, r.Int(0, maxInt(s.N300, 0)))
				if r.P(0.3) {
					part = spec.Score{} // nothing played
					c.Event("empty plays", 1)
				}
			}
			for _, t := range []struct {
				n           string
				s           spec.Score
				combo, n300 int
				eqCombo     int
			}{{"default combo", part, neg(), part.N300, a.MaxCombo}, {"default 300s", s, s.Combo, neg(), s.Combo}, {"both defaults", s, neg(), neg(), a.MaxCombo}} {
				s := t.s
				// use the calculator for something else first
				if r.P(0.7) {
					oa, od := randAttribs(r), randPPDiff(r)
					os := randScore(r, oa)
					if r.P(0.5) { // or for nearly the same
						oa, od, os = nearAttribs(r, a), d, s
						if r.P(0.3) {
							od = randPPDiff(r)
						}
						if r.P(0.3) {
							os = randScore(r, oa)
						}
						c.Event("used for nearly the same", 1)
					}
					oc, on := os.Combo, os.N300
					if r.P(0.3) {
						oc = neg()
					}
					if r.P(0.3) {
						on = neg()
					}
					calc(oa, od, oc, on, os, pp)
				}
				got := calc(a, d, t.combo, t.n300, s, pp)
				if got != pp.Results && !(math.IsNaN(got.Total) || math.IsNaN(got.Aim) || math.IsNaN(got.Speed)) {
					c.Failf("results", "returned %+v, but Results are %+v", got, pp.Results)
					return
				}
				combo := t.eqCombo
				if a.MaxCombo == 0 && t.combo < 0 {
					combo = 1
				}
				c.Event(t.n, 1)
				c.Event("reused calculators", 1)
				want := calc(a, d, combo, s.N300, s, &osu.PPv2{})
				if e := ppDiff(got, want, 1e-12); e != "" {
					c.Failf(t.n, "combo %d, %d 300s given, play %+v of %+v under %s: a used calculator with defaults and a fresh one differ in %s", t.combo, t.n300, s, a, modStr(d.Mods), e)
					return
				}
			}
			for k := core.Pick(r, 0, 0, 0, 2); k > 0; k-- { // plays that cannot be, but whose worth must not depend on the past either
				n := func() int { return core.Pick(r, 0, r.Int(0, 5), r.Int(0, 2*a.ObjectCount)) }
				s := spec.Score{N100: n(), N50: n(), Miss: n()}
				combo, n300 := core.Pick(r, s.Combo, a.MaxCombo+r.Int(0, 5), r.Int(0, 3*a.MaxCombo)), core.Pick(r, n(), -1)
				got, want := calc(a, d, combo, n300, s, pp), calc(a, d, combo, n300, s, &osu.PPv2{})
				c.Event("impossible plays", 1)
				if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
					c.Failf("impossible play", "combo %d, %d 300s, play %+v of %+v under %s: a used calculator says %s, a fresh one %s", combo, n300, s, a, modStr(d.Mods), g, w)
					return
				}
			}
			c.Event("inputs unchanged", 1)
			if a != a0 || diffState(d) != d0 {
				c.Failf("inputs", "the calculation changed its inputs: %+v, %+v", a0, a)
			}
		},
	})
}

// nearAttribs are attributes that differ in few of their values
func nearAttribs(r *core.Rng, a osu.Attributes) osu.Attributes {
	o := randAttribs(r)
	for n := r.Int(0, 2); n > 0; n-- {
		switch r.IntN(11) {
		case 0:
			a.Total = o.Total
		case 1:
			a.Aim = o.Aim
		case 2:
			a.Speed = o.Speed
		case 3:
			a.Flashlight = o.Flashlight
		case 4:
			a.SliderFactor = o.SliderFactor
		case 5:
			a.ObjectCount = o.ObjectCount
		case 6:
			a.Circles = o.Circles
		case 7:
			a.Sliders = o.Sliders
		case 8:
			a.Spinners = o.Spinners
		default:
			a.MaxCombo = core.Pick(r, o.MaxCombo, a.MaxCombo*2, a.MaxCombo/2+1)
		}
	}
	return a
}
