package props

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"strings"
	"sync"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/files"
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/spec"
)

// diffState is everything a difficulty shows
func diffState(d *difficulty.Difficulty) string {
	return fmt.Sprintf("%v %v %v %v %v | %v %v %v %v %v %v %v %v %v %v %v", d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), d.Mods,
		d.Preempt, d.CircleRadius, d.Hit300, d.Hit100, d.Hit50, d.HPMod, d.SpinnerRatio, d.Speed, d.ARReal, d.ODReal, d.CustomSpeed)
}

// objState is everything a hit object shows
func objState(o objects.IHitObject) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%d %d %v %v %v %d %d %d %v", o.GetID(), o.GetType(), o.GetStartTime(), o.GetEndTime(), o.GetDuration(), o.GetComboSet(), o.GetComboSetHax(), o.GetColorOffset(), o.IsNewCombo())
	for _, m := range []difficulty.Modifier{none, mEZ, mHR} {
		fmt.Fprintf(&b, " %d %v %v", o.GetStackIndex(m), o.GetStackedStartPositionMod(m), o.GetStackedEndPositionMod(m))
		for k := 0; k <= 4; k++ {
			fmt.Fprintf(&b, " %v", o.GetStackedPositionAtMod(o.GetStartTime()+o.GetDuration()*float64(k)/4, m))
		}
	}
	fmt.Fprintf(&b, " %v %v %v %v", o.GetStartPosition(), o.GetEndPosition(), o.GetStackedStartPosition(), o.GetSounds())
	if s := sliderOf(o); s != nil {
		fmt.Fprintf(&b, " %d %v %v", s.RepeatCount, s.ScorePoints, s.TPoint)
	}
	switch h := o.(type) {
	case *objects.Circle:
		fmt.Fprint(&b, " ", h.ComboNumber)
	case *objects.Slider:
		fmt.Fprint(&b, " ", h.ComboNumber)
	case *objects.Spinner:
		fmt.Fprint(&b, " ", h.ComboNumber)
	}
	return b.String()
}

// mapState is everything a parsed map shows
func mapState(b *beatmap.BeatMap) []string {
	l := []string{fmt.Sprint(b.FileVersion, b.Artist, "|", b.ArtistUnicode, "|", b.Title, "|", b.TitleUnicode, "|", b.Version, "|", b.Creator, "|", b.Source, "|", b.Tags, "|", b.Mode, b.SliderMultiplier, b.StackLeniency, b.Audio, "|", b.Bg, "|", b.SetID, b.MapID, b.PreviewTime, b.Length, b.Circles, b.Sliders, b.Spinners, b.MinBPM, b.MaxBPM, b.Timings.SliderMult, b.Timings.TickRate),
		diffState(b.Difficulty)}
	for _, p := range b.Pauses {
		l = append(l, fmt.Sprint(*p))
	}
	for _, o := range b.HitObjects {
		l = append(l, objState(o))
		if b.Timings.HasPoints() {
			l = append(l, fmt.Sprint(b.Timings.GetPointAt(o.GetStartTime()), b.Timings.GetOriginalPointAt(o.GetEndTime())))
		}
	}
	return l
}

func diffLines(a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d and %d parts", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s\n  and\n%s", clip(a[i], 600), clip(b[i], 600))
		}
	}
	return ""
}

// outputs is everything the library computes from a map, as text
func outputs(objs []objects.IHitObject, d *difficulty.Difficulty, which int) (string, int) {
	h := fnv.New64a()
	n := 1
	p := func(v ...any) { fmt.Fprint(h, v...) }
	switch which % 7 {
	case 0:
		p(osu.CalculateSingle(objs, d))
	case 1:
		p(osu.CalculateSingleWithPeaks(objs, d))
	case 2:
		p(osu.CalculateStep(objs, d))
	case 3:
		p(osu.CalculateStepWithPeaks(objs, d))
	case 4:
		p(osu.CalculateStrainPeaks(objs, d))
	case 5:
		for _, o := range preprocessing.CreateDifficultyObjects(objs, d) {
			p(o.JumpDistance, o.MovementDistance, o.TravelDistance, o.Angle, o.MovementTime, o.TravelTime, o.StrainTime, o.DeltaTime)
		}
		a := osu.CalculateSingle(objs, d)
		pp := &osu.PPv2{}
		for k := 0; k < 3 && k <= a.ObjectCount; k++ {
			r := pp.PPv2x(a, a.MaxCombo-k, -1, k, 0, k/2, d)
			p(r.Results)
		}
	case 6:
		for _, o := range objs {
			p(objState(o))
		}
		p(diffState(d))
	}
	return fmt.Sprintf("%d:%x", which%7, h.Sum64()), n
}

// battery calls the small public functions with inputs drawn from one seed and lists what they return
func battery(seed uint64) (l []string) {
	r := &core.Rng{Rand: rand.New(rand.NewPCG(seed, 22))}
	p := func(v ...any) { l = append(l, fmt.Sprint(v...)) }
	for k := 0; k < 3; k++ {
		mods := difficulty.Modifier(r.Uint64() & (1<<32 - 1))
		if k%2 == 0 {
			mods = randMods(r)
		}
		s := mods.String()
		p("mods ", uint64(mods), s, mods.StringFull(), mods.GetScoreMultiplier(), mods.Compatible(), uint64(difficulty.ParseMods(s)), uint64(difficulty.ParseMods(s+"XXHDq")))
		d := difficulty.NewDifficulty(float64(r.Int(0, 110))/10, float64(r.Int(0, 110))/10, float64(r.Int(0, 110))/10, float64(r.Int(0, 110))/10)
		p("difficulty ", diffState(d))
		d.SetMods(mods)
		p("difficulty with mods ", diffState(d), d.GetModifiedTime(r.F(0, 1000)), d.CheckModActive(mods))
		d.SetCustomSpeed(r.F(0.5, 2))
		p("rates ", diffState(d), difficulty.DifficultyRate(r.F(-5, 12), 1800, 1200, 450), difficulty.DiffFromRate(r.F(300, 2000), 1800, 1200, 450))
		n := int64(r.Int(1, 30))
		p("binomial ", n, curves.BinomialCoefficient(n, int64(r.Int(0, int(n)))))
		pts := make([]vector.Vector2f, r.Int(2, 7))
		for i := range pts {
			pts[i] = vector.NewVec2f(float32(r.Int(0, 512)), float32(r.Int(0, 384)))
		}
		a, b, e := pts[0], pts[1], pts[len(pts)-1]
		for _, typ := range []string{"L", "P", "B", "C"} {
			m := curves.NewMultiCurveT(typ, append([]vector.Vector2f{}, pts...), r.F(10, 500))
			p("path ", typ, m.GetLength(), m.GetStartAngle(), m.GetEndAngle(), m.GetLines())
			for j := 0; j < 4; j++ {
				t := float32(r.Float64())
				p("path point ", typ, t, m.PointAt(t), m.GetStartAngleAt(t), m.GetEndAngleAt(t))
			}
		}
		bz := curves.NewBezier(append([]vector.Vector2f{}, pts...))
		ln := curves.NewLinear(a, b)
		ar := curves.NewCirArc(a, b, e)
		t := float32(r.Float64())
		p("curves ", bz.GetLength(), bz.PointAt(t), bz.GetStartAngle(), bz.GetEndAngle(), ln.PointAt(t), ln.GetLength(), ln.GetStartAngle(), ar.PointAt(t), ar.GetLength(), ar.Unstable)
		p("approximations ", len(curves.ApproximateCircularArc(a, b, e, 0.125)), curves.ApproximateBezier(append([]vector.Vector2f{}, pts...)))
		p("vectors ", a.Dst(b), a.AngleRV(b), a.Rotate(t), a.Nor(), vector.AngleBetween32(a, b, e), vector.IsStraightLine32(a, b, e))
		tim := timing.NewTimings()
		tim.SliderMult, tim.TickRate = 1.4, 1
		for j, at := 0, 0.0; j < 5; j++ {
			at += float64(r.Int(1, 2000))
			if j > 0 && r.P(0.5) {
				tim.AddPoint(at, -float64(r.Int(10, 1000)), 1, 0, 1, 4, true, false, false)
			} else {
				tim.AddPoint(at, float64(r.Int(100, 1200)), 1, 0, 1, 4, false, false, false)
			}
		}
		tim.FinalizePoints()
		for j := 0; j < 4; j++ {
			at := r.F(-100, 8000)
			q := tim.GetPointAt(at)
			p("timing ", at, q, tim.GetOriginalPointAt(at), tim.GetSliderTimeP(q, 100), tim.GetVelocity(q), tim.GetTickDistance(q))
		}
		at := osu.Attributes{Total: r.F(0, 10), Aim: r.F(0, 8), Speed: r.F(0, 8), Flashlight: r.F(0, 4), SliderFactor: r.F(0.5, 1), ObjectCount: 500, Circles: 300, Sliders: 190, Spinners: 10, MaxCombo: 800}
		p("pp ", (&osu.PPv2{}).PPv2x(at, r.Int(0, 800), 480, 12, r.Int(0, 4), r.Int(0, 4), d).Results)
		sc := files.NewScanner(strings.NewReader("[General]\r\nx: " + s + "\nlast"))
		for sc.Scan() {
			p("line ", sc.Text())
		}
	}
	return
}

// allCold does everything from the bytes on: parsing, every calculation, the small functions
func allCold(data []byte, mods []difficulty.Modifier, seed uint64, from int) (l []string, err error) {
	l = append(l, battery(seed)...)
	b, err := beatmap.ParseFromByte(data)
	if err != nil {
		return
	}
	l = append(l, mapState(b)...)
	for _, mod := range mods {
		d := difficulty.NewDifficulty(b.Difficulty.GetHP(), b.Difficulty.GetCS(), b.Difficulty.GetOD(), b.Difficulty.GetAR())
		d.SetMods(mod)
		var o [7]string
		for k := range o {
			which := (k + from) % 7
			o[which], _ = outputs(b.HitObjects, d, which)
		}
		l = append(l, o[:]...)
	}
	return
}

func init() {
	register(&core.Check{
		ID:     "C22",
		Rule:   "one random well-formed map, built with the race detector: first everything (parsing, every calculation, the small public functions of mods, difficulty, curves, vectors, timing, pp and line reading) is done by 4 goroutines at once on bytes nobody has seen yet and compared with doing it alone; then every public calculation is run alone, again in another order with calculations under other mods in between, and then from 8 goroutines at once on the same map and difficulty values while others parse the same bytes and evaluate curves. Results have to be identical every time, the map must look the same afterwards, and the race detector must stay silent. Non-trivial: a map with sliders.",
		Quick:  220,
		Serial: true, Thorough: 5000,
		MinEvents:   map[string]int64{"concurrent calculations": 5000, "concurrent parses": 1000, "snapshots": 400, "changed difficulties": 400, "bytes kept": 200, "lists kept": 200, "calls from nothing": 50000},
		Assumptions: []string{"The race detector sees the races of the executions that happened.", "Concurrent use means concurrent reading calls; SetMods, SetTiming and other setters are not called concurrently with them."},
		Run: func(c *core.Case) {
			p := ratingProfile(c.R)
			p.N = core.Pick(c.R, 5, 12, 20, 30)
			if c.R.P(0.02) {
				p.N = 150
			}
			p.Big = 0 // everything is calculated many times over, under the race detector
			p.PSlider = core.Pick(c.R, 0.2, 0.5)
			p.Curves = "LPBC"
			m := gen.Random(c.R, p)
			if i := c.R.IntN(len(m.Objs)); c.R.P(0.4) && m.Objs[i].Kind == gen.Slider { // a curve of dozens of points
				o := &m.Objs[i]
				o.Curve, o.Pts = "B", nil
				for k := c.R.Int(9, 80); k > 0; k-- {
					o.Pts = append(o.Pts, gen.Vec{X: float32(c.R.Int(0, 512)), Y: float32(c.R.Int(0, 384))})
				}
				c.Event("curves of dozens of points", 1)
			}
			text := m.Plain(c.R)
			c.Artifact("map.osu", text)
			modsA, modsB := randMods(c.R), randMods(c.R)|mFL

			// from nothing, by several goroutines at once: nothing has been calculated, looked up or kept before
			{
				seed := c.R.Uint64()
				const G = 4
				var got [G][]string
				var fail [G]string
				var wg sync.WaitGroup
				start := make(chan struct{})
				for g := 0; g < G; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if p := recover(); p != nil {
								fail[g] = fmt.Sprintf("panic in a concurrent calculation: %v", p)
							}
						}()
						<-start
						l, err := allCold([]byte(text), []difficulty.Modifier{modsA, modsB}, seed, g)
						if err != nil {
							fail[g] = fmt.Sprintf("concurrent parse fails: %v", err)
						}
						got[g] = l
					}()
				}
				close(start)
				wg.Wait()
				alone, err := allCold([]byte(text), []difficulty.Modifier{modsA, modsB}, seed, 0)
				if err != nil {
					c.Failf("parse", "a well-formed map does not parse: %v", err)
					return
				}
				for g := range got {
					if fail[g] != "" {
						c.Failf("concurrent", "%s", fail[g])
						return
					}
					if s := diffLines(alone, got[g]); s != "" {
						c.Failf("concurrent", "the same calls alone and beside others differ: %s", s)
						return
					}
					c.Event("calls from nothing", len(got[g]))
				}
			}

			b := mustParse(c, text)
			if b == nil {
				return
			}
			if b.Sliders > 0 {
				c.Sig(m.Summary(), len(text))
			}
			first := mapState(b)
			mk := func(mods difficulty.Modifier) *difficulty.Difficulty {
				d := difficulty.NewDifficulty(b.Difficulty.GetHP(), b.Difficulty.GetCS(), b.Difficulty.GetOD(), b.Difficulty.GetAR())
				d.SetMods(mods)
				return d
			}
			dA, dB := mk(modsA), mk(modsB)
			sA := diffState(dA)
			var want [7]string
			for k := range want {
				want[k], _ = outputs(b.HitObjects, dA, k)
			}
			for _, k := range c.R.Perm(7) {
				outputs(b.HitObjects, dB, c.R.IntN(7))
				if got, _ := outputs(b.HitObjects, dA, k); got != want[k] {
					c.Failf("repeat", "calculation %d (%s) differs when it is repeated", k, modStr(modsA))
					return
				}
			}
			if s := diffLines(first, mapState(b)); s != "" || diffState(dA) != sA {
				c.Failf("mutated", "calculations changed the map or the difficulty: %s", s)
				return
			}

			// the bytes and the lists given stay as they are, however the text is laid out and the objects are ordered
			{
				st := gen.Style{CRLF: c.R.P(0.5), Spaces: c.R.P(0.7), Blank: c.R.P(0.5), Unknown: c.R.P(0.5), ShuffleKeys: c.R.P(0.5), NoFinalNL: c.R.P(0.5), R: c.R}
				raw := []byte(m.Render(st))
				switch c.R.IntN(6) {
				case 0:
					raw = bytes.ReplaceAll(raw, []byte("\r"), nil)
					raw = bytes.ReplaceAll(raw, []byte("\n"), []byte("\r"))
				case 1:
					raw = bytes.Replace(raw, []byte("\n"), []byte("\r"), c.R.Int(1, 10))
				case 2:
					raw = bytes.ReplaceAll(raw, []byte(": "), []byte("\t:\t"))
				}
				switch enc := c.R.IntN(8); enc {
				case 0:
					raw = append([]byte("\xef\xbb\xbf"), raw...)
				case 1:
					raw = utf16Bytes(string(raw), false, true)
				case 2:
					raw = utf16Bytes(string(raw), true, c.R.P(0.7))
				}
				if c.R.P(0.3) {
					raw = append(raw, core.Pick(c.R, "\x00", "\x00\x00", " \t\r\n", "\x1a", "\n\n\n")...)
				}
				was := append(make([]byte, 0, len(raw)), raw...)
				q, err := beatmap.ParseFromByte(raw)
				if !bytes.Equal(raw, was) {
					c.Artifact("given.osu", string(was))
					c.Failf("input-mutated", "parsing changed the bytes it was given")
					return
				}
				q2, err2 := beatmap.ParseFromByte(raw)
				if (err == nil) != (err2 == nil) {
					c.Failf("parse-differs", "parsed twice the same bytes give %v and %v", err, err2)
					return
				}
				if err == nil {
					if s := diffLines(mapState(q), mapState(q2)); s != "" {
						c.Failf("parse-differs", "two parses of the same bytes differ: %s", s)
						return
					}
				}
				c.Event("bytes kept", 1)

				list := append([]objects.IHitObject{}, b.HitObjects...)
				if c.R.P(0.7) { // not in order of time
					c.R.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
				}
				given := append([]objects.IHitObject{}, list...)
				func() {
					defer func() { recover() }() // what comes out of such a list does not matter here
					for k := 0; k < 6; k++ {
						outputs(list, dA, k)
					}
				}()
				for i := range list {
					if list[i] != given[i] {
						c.Failf("list-mutated", "calculations moved the objects of the list they were given (the one at %d)", i)
						return
					}
				}
				c.Event("lists kept", 1)
				if s := diffLines(first, mapState(b)); s != "" {
					c.Failf("mutated", "calculations of the objects in another order changed the map: %s", s)
					return
				}
			}

			// a difficulty that has been used and changed counts as the settings it has now
			dC := mk(modsA)
			for k := 0; k < 4; k++ {
				lo, hi := 0, len(b.HitObjects)
				if k == 3 { // and a part of the map as that part
					lo = c.R.IntN(hi + 1)
					hi = c.R.Int(lo, hi)
				}
				outputs(b.HitObjects, dC, c.R.IntN(7))
				fresh := difficulty.NewDifficulty(dC.GetHP(), dC.GetCS(), dC.GetOD(), dC.GetAR())
				for n := c.R.Int(1, 3); n > 0; n-- {
					v := float64(c.R.Int(0, 100)) / 10
					switch c.R.IntN(6) {
					case 0:
						dC.SetCS(v)
					case 1:
						dC.SetOD(v)
					case 2:
						dC.SetAR(v)
					case 3:
						dC.SetHP(v)
					case 4:
						dC.SetCustomSpeed(0.5 + v/8)
					case 5:
						dC.SetMods(randMods(c.R))
					}
				}
				fresh.SetHP(dC.GetHP())
				fresh.SetCS(dC.GetCS())
				fresh.SetOD(dC.GetOD())
				fresh.SetAR(dC.GetAR())
				fresh.SetCustomSpeed(dC.CustomSpeed)
				fresh.SetMods(dC.Mods)
				q := mustParse(c, text) // of which nothing has been calculated yet
				if q == nil {
					return
				}
				which := c.R.IntN(7)
				got, _ := outputs(b.HitObjects[lo:hi], dC, which)
				if w, _ := outputs(q.HitObjects[lo:hi], fresh, which); got != w {
					c.Failf("stale", "calculation %d of objects %d to %d of %d with a difficulty changed after use (%s, CS %v, OD %v, speed %v) differs from the one of a new map with a new difficulty of the same settings", which, lo, hi, len(b.HitObjects), modStr(dC.Mods), dC.GetCS(), dC.GetOD(), dC.CustomSpeed)
					return
				}
				c.Event("changed difficulties", 1)
			}
			c.Event("snapshots", 1)

			// everything at once
			var wg sync.WaitGroup
			var mu sync.Mutex
			bad := func(f string, a ...any) {
				mu.Lock()
				c.Failf("concurrent", f, a...)
				mu.Unlock()
			}
			var wantB [7]string
			for k := range wantB {
				wantB[k], _ = outputs(b.HitObjects, dB, k)
			}
			start := make(chan struct{})
			parsed := make([]*beatmap.BeatMap, 2)
			data := []byte(text)
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							bad("panic in a concurrent calculation: %v", p)
						}
					}()
					<-start
					if g < 2 {
						for k := 0; k < 3; k++ {
							q, err := beatmap.ParseFromByte(data)
							if err != nil {
								bad("concurrent parse fails: %v", err)
								return
							}
							parsed[g] = q
							c.Event("concurrent parses", 1)
						}
						return
					}
					if s := diffLines(first, mapState(b)); s != "" { // looking at the map is reading it, too
						bad("the map looks different while calculations run: %s", s)
						return
					}
					for k := 0; k < 7; k++ {
						which := (k*3 + g) % 7
						d, w := dA, want[which]
						if g%2 == 1 {
							d, w = dB, wantB[which]
						}
						if got, _ := outputs(b.HitObjects, d, which); got != w {
							bad("calculation %d differs when it runs concurrently", which)
							return
						}
						c.Event("concurrent calculations", 1)
					}
				}(g)
			}
			close(start)
			wg.Wait()
			for _, q := range parsed {
				if q != nil {
					if s := diffLines(first, mapState(q)); s != "" {
						c.Failf("parse-differs", "two parses of the same bytes differ: %s", s)
						return
					}
				}
			}
			if s := diffLines(first, mapState(b)); s != "" {
				c.Failf("mutated", "concurrent calculations changed the map: %s", s)
			}
			c.Event("snapshots", 1)
			if !bytes.Equal(data, []byte(text)) {
				c.Failf("input-mutated", "parsing changed the bytes it was given")
			}
		},
	})

	register(&core.Check{
		ID:    "C24",
		Rule:  "one random well-formed map and changes to it, its mods or its settings that must not matter: shifting all times by a multiple of 1200 ms, exchanging x and y (no HR), DT/HT against the same custom speed, NC/DC against DT/HT, mods and settings that are not part of the rating, the order of lines in the file, Relax and Flashlight touching their own skill only. Non-trivial: a map with at least 3 objects.",
		Quick: 18000, Thorough: 360000,
		MinEvents:   map[string]int64{"time shifts": 800, "times late": 200, "transpositions": 800, "custom speeds": 1500, "irrelevant mods": 2000, "irrelevant settings": 2000, "file order": 300, "relax and flashlight": 2000},
		Assumptions: []string{"Shifted and transposed maps are compared to 1e-4 relative, the others to 1e-9; maps in which rounding may decide a comparison are left out."},
		Run: func(c *core.Case) {
			p := ratingProfile(c.R)
			p.Shuffle = false
			p.FracTime = false
			p.FracPos = false
			p.DivTimes = true
			p.StartTime = core.Pick(c.R, 0.0, 400, 2400, 4007)
			m := gen.Random(c.R, p)
			text := m.Plain(c.R)
			b := mustParse(c, text)
			if b == nil {
				return
			}
			mods := randMods(c.R)
			if len(b.HitObjects) > 2 {
				c.Sig(m.Summary(), modStr(mods), b.Length)
			}
			mk := func(bm *beatmap.BeatMap, mods difficulty.Modifier) *difficulty.Difficulty {
				d := difficulty.NewDifficulty(bm.Difficulty.GetHP(), bm.Difficulty.GetCS(), bm.Difficulty.GetOD(), bm.Difficulty.GetAR())
				d.SetMods(mods)
				return d
			}
			base := osu.CalculateSingle(b.HitObjects, mk(b, mods))

			// speed mods and custom speed
			plain := mods &^ (mDT | mHT | mNC | mDC)
			for _, s := range []struct {
				m difficulty.Modifier
				v float64
			}{{mDT, 1.5}, {mHT, 0.75}} {
				d := mk(b, plain)
				d.SetCustomSpeed(s.v)
				c.Event("custom speeds", 1)
				x := osu.CalculateSingle(b.HitObjects, mk(b, plain|s.m))
				if e := sameAttr(x, osu.CalculateSingle(b.HitObjects, d), 1e-9); e != "" {
					c.Failf("custom-speed", "%s and a speed of %v differ in %s", modStr(plain|s.m), s.v, e)
					return
				}
				alt := plain | s.m | map[difficulty.Modifier]difficulty.Modifier{mDT: mNC, mHT: mDC}[s.m]
				if e := sameAttr(x, osu.CalculateSingle(b.HitObjects, mk(b, alt)), 1e-9); e != "" {
					c.Failf("nightcore", "%s and %s differ in %s", modStr(plain|s.m), modStr(alt), e)
					return
				}
			}

			// mods that have no part in the rating
			irr := difficulty.Modifier(0)
			for _, k := range []difficulty.Modifier{mNF, mHD, mSD, mPF | mSD, mSO, mV2, mTD, mAP, difficulty.Autoplay, difficulty.FadeIn, difficulty.Random, difficulty.Cinema, difficulty.Key4, difficulty.Key1, difficulty.LastMod, difficulty.Target} {
				if c.R.P(0.4) {
					irr ^= k
				}
			}
			c.Event("irrelevant mods", 1)
			if e := sameAttr(base, osu.CalculateSingle(b.HitObjects, mk(b, mods^irr)), 1e-9); e != "" {
				c.Failf("irrelevant-mod", "%v and %v differ in %s", mods.StringFull(), (mods ^ irr).StringFull(), e)
				return
			}
			for _, m := range []difficulty.Modifier{mods, mods ^ irr} { // what is left by the mask of the mods that matter
				if e := sameAttr(base, osu.CalculateSingle(b.HitObjects, mk(b, m&difficulty.DifficultyAdjustMask)), 1e-9); e != "" {
					c.Failf("mod-mask", "%v and the part of it that is said to matter, %v, differ in %s", m.StringFull(), (m & difficulty.DifficultyAdjustMask).StringFull(), e)
					return
				}
			}
			d := mk(b, mods)
			d.SetHP(c.R.F(0, 10))
			d.SetAR(c.R.F(0, 10))
			c.Event("irrelevant settings", 1)
			if e := sameAttr(base, osu.CalculateSingle(b.HitObjects, d), 1e-9); e != "" {
				c.Failf("irrelevant-setting", "HP or AR change the rating (%s): %s", modStr(mods), e)
				return
			}

			// Relax and Flashlight
			with := func(m difficulty.Modifier) osu.Attributes { return osu.CalculateSingle(b.HitObjects, mk(b, m)) }
			nm := mods &^ (mRX | mFL)
			a0, aR, aF := with(nm), with(nm|mRX), with(nm|mFL)
			c.Event("relax and flashlight", 1)
			if aR.Aim != a0.Aim || aR.Speed != 0 || aR.SliderFactor != a0.SliderFactor || aR.Total > a0.Total || sameCounts(aR, a0) != "" {
				c.Failf("relax", "%s: %+v, with RX: %+v", modStr(nm), a0, aR)
			}
			if aF.Aim != a0.Aim || aF.Speed != a0.Speed || aF.SliderFactor != a0.SliderFactor || aF.Total < a0.Total || a0.Flashlight != 0 || sameCounts(aF, a0) != "" {
				c.Failf("flashlight", "%s: %+v, with FL: %+v", modStr(nm), a0, aF)
			}

			// order of the lines
			distinct := map[float64]bool{}
			for _, o := range m.Objs {
				distinct[o.Time] = true
			}
			noNC := true
			if len(distinct) == len(m.Objs) && noNC && len(m.Objs) > 1 {
				m2 := *m
				m2.Objs = append([]gen.Obj(nil), m.Objs...)
				c.R.Shuffle(len(m2.Objs), func(i, j int) { m2.Objs[i], m2.Objs[j] = m2.Objs[j], m2.Objs[i] })
				if b2 := mustParse(c, m2.Plain(c.R)); b2 != nil {
					c.Event("file order", 1)
					if e := sameAttr(base, osu.CalculateSingle(b2.HitObjects, mk(b2, mods)), 1e-9); e != "" {
						c.Failf("file-order", "shuffled object lines change the rating (%s): %s", modStr(mods), e)
						return
					}
				}
			}

			// from here on rounding is involved
			if _, _, ok := fullModel(b, mk(b, mods)); !ok || stackNear(b) {
				c.Skip("rounding may decide a comparison")
				return
			}
			for _, o := range m.Objs {
				if o.Kind == gen.Slider && (slideOf(m, &o).Unsure || slideOf(m, &o).Tie || o.Curve == "P") {
					// arcs of nearly straight points may flip to lines when coordinates are exchanged
					c.Skip("slider on a rounded threshold or a circular arc")
					return
				}
			}
			// in both directions, so that some maps begin before time 0
			shift := 1200 * float64(core.Pick(c.R, c.R.Int(1, 300), -c.R.Int(1, 12), -c.R.Int(1, 300), c.R.Int(1000, 1000000)))
			if shift > 1e7 {
				c.Event("times late", 1) // where single precision is too coarse for milliseconds
			}
			if shift < 0 {
				c.Event("times before 0", 1)
			}
			m3 := *m
			m3.Objs, m3.TPs = append([]gen.Obj(nil), m.Objs...), append([]gen.TP(nil), m.TPs...)
			for i := range m3.Objs {
				m3.Objs[i].Time += shift
				m3.Objs[i].End += shift
			}
			for i := range m3.TPs {
				m3.TPs[i].Time += shift
			}
			if b3 := mustParse(c, m3.Plain(c.R)); b3 != nil {
				if _, _, ok := fullModel(b3, mk(b3, mods)); ok && !stackNear(b3) {
					c.Event("time shifts", 1)
					if e := sameAttr(base, osu.CalculateSingle(b3.HitObjects, mk(b3, mods)), 1e-4+nodeRounding(b)); e != "" {
						c.Artifact("original.osu", text)
						c.Failf("time-shift", "shifting by %v ms changes the rating (%s): %s", shift, modStr(mods), e)
						return
					}
				}
			}
			if mods&mHR == 0 {
				m4 := *m
				m4.Objs = append([]gen.Obj(nil), m.Objs...)
				for i := range m4.Objs {
					o := &m4.Objs[i]
					o.Pos.X, o.Pos.Y = o.Pos.Y, o.Pos.X
					o.Pts = append([]gen.Vec(nil), o.Pts...)
					for k := range o.Pts {
						o.Pts[k].X, o.Pts[k].Y = o.Pts[k].Y, o.Pts[k].X
					}
				}
				if b4 := mustParse(c, m4.Plain(c.R)); b4 != nil && !stackNear(b4) {
					c.Event("transpositions", 1)
					if e := sameAttr(base, osu.CalculateSingle(b4.HitObjects, mk(b4, mods)), 2e-4+nodeRounding(b)); e != "" {
						c.Artifact("original.osu", text)
						c.Failf("transpose", "exchanging x and y changes the rating (%s): %s", modStr(mods), e)
					}
				}
			}
		},
	})
}

func stackObjs(b *beatmap.BeatMap) (l []spec.StackObj) {
	for _, o := range b.HitObjects {
		s, e := o.GetStartPosition(), o.GetEndPosition()
		l = append(l, spec.StackObj{Start: o.GetStartTime(), End: o.GetEndTime(), Pos: [2]float32{s.X, s.Y}, Tail: [2]float32{e.X, e.Y}, Slider: kindOf(o) == spec.KSlider, Spinner: kindOf(o) == spec.KSpinner})
	}
	return
}

// stackNear tells whether rounding may decide how a map is stacked
func stackNear(b *beatmap.BeatMap) bool {
	l := stackObjs(b)
	for _, mods := range []int64{0, spec.EZ, spec.HR} {
		d := spec.NewDiff(b.Difficulty.GetHP(), b.Difficulty.GetCS(), b.Difficulty.GetOD(), b.Difficulty.GetAR(), mods, 1)
		if _, near := spec.Stack(l, b.FileVersion, d.Preempt, b.StackLeniency); near {
			return true
		}
	}
	return false
}

var _ = math.NaN
var _ = skills.NewSkill
