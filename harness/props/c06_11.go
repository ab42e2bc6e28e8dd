package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/spec"
)

// randPoints makes timing points with ties, out of order ones, extreme and missing beat lengths
func randPoints(r *core.Rng) (l []gen.TP) {
	n := core.Pick(r, 1, 2, 3, 5, 10, 30, 80)
	if r.P(0.004) {
		n = core.Pick(r, 200, 500, 1100, 3000)
	}
	t := core.Pick(r, 0.0, -500, 1234, 999999)
	for i := 0; i < n; i++ {
		p := gen.TP{Time: t, Meter: 4, Index: i, Volume: 100, Fields: 8}
		p.Inherited = i > 0 && r.P(0.6)
		if p.Inherited {
			p.BeatLen = -100 / core.Pick(r, 0.05, 0.1, 0.5, 1, 1.3, 2, 9.9, 10, 12, 50, r.F(0.1, 10))
			if r.P(0.05) {
				p.BeatLen = core.Pick(r, math.NaN(), 50, 0, -10, -1000, -0.5, -5000)
			}
		} else {
			p.BeatLen = core.Pick(r, 333.33, 300, 500, 60000/r.F(30, 400), 6, 60000, 0.5)
		}
		l = append(l, p)
		if !r.P(0.15) {
			t += core.Pick(r, 1, 0.5, 100, math.Round(r.F(1, 5000)), math.Round(r.F(1, 5000)*1000)/1000)
		}
	}
	if r.P(0.4) {
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	for i := range l {
		l[i].Index = i // tells the points apart
	}
	if r.P(0.1) { // inherited points before all others, what those stand on is not defined
		for i := 0; i < len(l) && r.P(0.7); i++ {
			l[i].Inherited, l[i].BeatLen = true, -100/core.Pick(r, 0.5, 1, 1.5, 2)
		}
		return l
	}
	m := &gen.Map{TPs: l}
	m.FixLeading()
	return l
}

// arcRounding is how far rounding may move the points of a perfect curve
func arcRounding(typ string, l []spec.V2) float64 {
	if typ != "P" || len(l) != 3 {
		return 0
	}
	_, r, _, sweep, ok := spec.Arc(l[0], l[1], l[2])
	if !ok {
		return 0
	}
	// the centre comes from single precision products, divided by the double
	// area of the triangle: the flatter it is the further the centre moves
	// (the start stays, so what counts is how far the arc turns)
	m, d := 0.0, 0.0
	for i, p := range l {
		m = math.Max(m, p.Len())
		d = math.Max(d, p.Dist(l[(i+1)%3]))
	}
	const eps = 6e-8
	cross := math.Abs(l[1].Sub(l[0]).Cross(l[2].Sub(l[0])))
	moved := eps * 3 * m * d * (m + r + m) / (2 * cross)
	return r*4e-6 + moved*math.Min(2, math.Abs(sweep))
}

func v2s(pts []vector.Vector2f) (l []spec.V2) {
	for _, p := range pts {
		l = append(l, v2(p))
	}
	return
}

func init() {
	register(&core.Check{
		ID:    "C06",
		Rule:  "one random list of timing points (ties, out of order, inherited, NaN and extreme beat lengths), added directly or through a parsed file and queried on, just before, just after and between the points; what is in effect, the beat it stands on, slider velocity, tick distance and slider time are compared with a search over the unsorted list. Non-trivial: at least two points.",
		Quick: 180000, Thorough: 3600000,
		MinEvents: map[string]int64{"queries": 300000, "queries before all points": 5000, "queries at tied points": 20000, "inherited points in effect": 80000, "parsed": 3000, "queries before all uninherited points": 10000, "lists of hundreds of points": 100},
		Run: func(c *core.Case) {
			l := randPoints(c.R)
			m := gen.Header(c.R)
			m.TPs = l
			var tim *timing.Timings
			sm, tr := val(m.SM, 1.4, 0.4, 3.6), val(m.TR, 1, 0.5, 8)
			tr0 := tr
			if c.R.P(0.4) {
				m.Objs = []gen.Obj{{Kind: gen.Circle, Time: 1000}}
				b := mustParse(c, m.Plain(c.R))
				if b == nil {
					return
				}
				tim = b.Timings
				c.Event("parsed", 1)
			} else {
				tim = timing.NewTimings()
				tim.SliderMult, tim.TickRate = sm, tr
				for _, p := range l {
					tim.AddPoint(p.Time, p.BeatLen, p.Set, p.Index, float64(p.Volume)/100, p.Meter, p.Inherited, false, false)
				}
				tim.FinalizePoints()
				c.Artifact("points", fmt.Sprintf("%+v", l))
			}
			if !tim.HasPoints() {
				c.Failf("has-points", "%d points were added and there are none", len(l))
				return
			}
			tps := specTPs(&gen.Map{TPs: l})
			if len(l) > 1 {
				c.Sig(fmt.Sprint(l))
			}
			c.Sample("%d timing points, the first %+v", len(l), l[0])
			if len(l) >= 200 {
				c.Event("lists of hundreds of points", 1)
			}
			var reds []spec.TPoint
			var redIdx []int
			ties := map[float64]int{}
			first, last := math.Inf(1), math.Inf(-1)
			for i, p := range tps {
				ties[p.Time]++
				first, last = math.Min(first, p.Time), math.Max(last, p.Time)
				if !p.Inherited {
					reds = append(reds, p)
					redIdx = append(redIdx, i)
				}
			}
			firstRed, leading := math.Inf(1), false
			for _, p := range reds {
				firstRed = math.Min(firstRed, p.Time)
			}
			for i, p := range tps {
				if p.Inherited {
					_, ok := spec.Base(tps, i)
					leading = leading || !ok
				}
			}
			var times []float64
			for k := 0; k < 12; k++ {
				p := tps[c.R.IntN(len(tps))].Time
				times = append(times, p, math.Nextafter(p, math.Inf(-1)), math.Nextafter(p, math.Inf(1)), c.R.F(first-100, last+100))
			}
			times = append(times, first-1, first-1e6, last+1, last+1e7, 0)
			for _, t := range times {
				px := core.Pick(c.R, 250, 1, 0.125, 1999.5, math.Round(c.R.F(1, 2000)), c.R.F(0.001, 20000))
				c.Event("queries", 1)
				if t < first {
					c.Event("queries before all points", 1)
				}
				if ties[t] > 1 {
					c.Event("queries at tied points", 1)
				}
				want := spec.At(tps, t)
				g := tim.GetPointAt(t)
				if g.SampleIndex != want || g.Time != tps[want].Time {
					c.Failf("point", "the point in effect at %v is number %d (%v ms), should be number %d (%v ms)", t, g.SampleIndex, g.Time, want, tps[want].Time)
					return
				}
				ro := tim.GetOriginalPointAt(t)
				p := tps[want]
				if len(reds) > 0 && (!leading || t >= firstRed) {
					if w := redIdx[spec.At(reds, t)]; ro.SampleIndex != w {
						c.Failf("original-point", "the uninherited point in effect at %v is number %d, should be number %d", t, ro.SampleIndex, w)
						return
					}
				} else {
					c.Event("queries before all uninherited points", 1)
					if tr := tim.GetTickDistance(g); p.Inherited && !near(tr, 100*sm/tr0/spec.Ratio(p.Beat), 1e-6, 1e-9) {
						c.Failf("value:tick distance", "tick distance at %v ms is %v, should be %v (point %+v)", t, tr, 100*sm/tr0/spec.Ratio(p.Beat), p)
						return
					}
				}
				if p.Inherited {
					c.Event("inherited points in effect", 1)
				}
				base, ok := spec.Base(tps, want)
				if !ok {
					continue
				}
				ratio := spec.Ratio(p.Beat)
				if !p.Inherited {
					ratio = 1
				}
				v := spec.Velocity(sm, base, ratio)
				for _, q := range []struct {
					n         string
					got, want float64
				}{
					{"slider velocity ratio", g.GetRatio(), ratio},
					{"base beat length", g.GetBaseBeatLength(), base},
					{"beat length", g.GetBeatLength(), base * ratio},
					{"beat length as written", g.GetRawBeatLength(), p.Beat},
					{"velocity", tim.GetVelocity(g), v},
					{"scoring distance", tim.GetScoringDistance(), 100 * sm / tr},
					{"tick distance", tim.GetTickDistance(g), 100 * sm / tr / ratio},
					{"slider time", tim.GetSliderTimeP(g, px), px / v * 1000},
				} {
					if !near(q.got, q.want, 1e-6, 1e-9) {
						c.Failf("value:"+q.n, "%s at %v ms is %v, should be %v (point %+v on a beat of %v)", q.n, t, q.got, q.want, p, base)
						return
					}
				}
			}
			if def := tim.GetDefault(); def.GetBaseBeatLength() != 1000 || def.Signature != 4 || def.Inherited {
				c.Failf("default", "the default point is %+v", def)
			}
		},
	})

	register(&core.Check{
		ID:    "C07",
		Rule:  "one random slider path (linear, perfect, Bezier, Catmull; lengths shorter and longer than the drawn curve), walked in small steps: its length is the one asked for, equal steps of the parameter are equal distances along it, it is continuous, begins in the first control point, and out of range parameters stop at the ends. Non-trivial: a path of at least two straight pieces.",
		Quick: 800000, Thorough: 12000000,
		MinEvents: map[string]int64{"points": 1000000, "extended paths": 3000, "shortened paths": 3000, "angles": 30000, "no drawn length": 100, "directions at the ends": 100000},
		Run: func(c *core.Case) {
			typ, pts, length := randPath(c.R)
			c.Artifact("path", fmt.Sprint(typ, pts, length))
			free := curves.NewMultiCurve(typ, pts)
			drawn := float64(free.GetLength())
			if c.R.P(0.05) {
				length = drawn
			}
			if c.R.P(0.02) { // hardly anything, or nothing, asked for
				length = core.Pick(c.R, 0, 0, 0.01, 0.5, 1)
			}
			if drawn > 5000 {
				c.Skip("drawn length over 5000 px")
				return
			}
			checkLines(c, typ, pts, free, drawn, 1e-4)
			mc := curves.NewMultiCurveT(typ, pts, length)
			lines := mc.GetLines()
			L := float64(mc.GetLength())
			if len(lines) > 1 {
				c.Sig(typ, pts, length)
			}
			c.Sample("%s, %d points, drawn %.2f, asked for %.2f: %d pieces", typ, len(pts), drawn, length, len(lines))
			switch {
			case drawn == 0:
				c.Event("no drawn length", 1)
				if L != 0 {
					c.Failf("length", "a path without extent has the length %v", L)
				}
				return
			case length > drawn:
				c.Event("extended paths", 1)
				if fl := free.GetLines(); fl[len(fl)-1].GetLength() < 1e-3 {
					c.Skip("extension of a vanishing last piece")
					return
				}
			default:
				c.Event("shortened paths", 1)
			}
			tol := 2e-3 + 2e-5*math.Max(length, drawn) + extensionRounding(free, length-drawn)
			if beyond(math.Abs(L-length), tol) {
				c.Failf("length", "the %s path has the length %v, %v was asked for (drawn %v)", typ, L, length, drawn)
				return
			}
			checkLines(c, typ, pts, mc, L, tol)
		},
	})

	register(&core.Check{
		ID:    "C08",
		Rule:  "one random slider path compared with the ideal curve its control points define (polyline, circle through three points, Bezier pieces split at repeated points, Catmull-Rom), continued straight beyond its end: every sampled point lies close to the ideal point at the same distance, and no part of the ideal curve is left out. Non-trivial: a curve that is not a straight line.",
		Quick: 400000, Thorough: 6000000,
		MinEvents:   map[string]int64{"points": 300000, "L": 500, "P": 500, "B": 500, "C": 500, "arcs over a half circle": 100, "split Bezier paths": 300, "sliders of hundreds of points": 100},
		Assumptions: []string{"Distance allowed to the ideal curve: rounding (1e-3 relative to the size) for polylines, 8 px chords for arcs, the flattening error for Bezier and Catmull-Rom curves."},
		Run:         runC08,
	})

	register(&core.Check{
		ID:    "C09",
		Rule:  "one random map with sliders under red and green timing points of all kinds: end times, durations, repeats, ticks and tails of all sliders are compared with the published rules. Non-trivial: a slider with nested points beyond its tail.",
		Quick: 40000, Thorough: 1200000,
		MinEvents: map[string]int64{"sliders": 40000, "ticks": 100000, "repeats": 30000, "sliders without ticks because of NaN": 500, "inherited points": 20000, "timing set again": 2000},
		Run: func(c *core.Case) {
			p := gen.DefaultProfile(c.R)
			p.PSlider = core.Pick(c.R, 0.5, 1)
			p.MaxSlides = core.Pick(c.R, 1, 3, 12)
			p.Greens = core.Pick(c.R, 0, 0.3, 0.7)
			p.NaNBeats = c.R.P(0.3)
			p.PPasses, p.PPoints = 0.005, 0.001
			m := gen.Random(c.R, p)
			if c.R.P(0.1) {
				m.SM = nil
			}
			if c.R.P(0.1) {
				m.TR = nil
			}
			b := mustParse(c, m.Plain(c.R))
			if b == nil {
				return
			}
			again := c.R.P(0.5)
			if again {
				c.Event("timing set again", 1)
				for _, o := range b.HitObjects {
					o.SetTiming(b.Timings)
				}
			}
			nested := 0
			for i, o := range m.Sorted() {
				if o.Kind != gen.Slider {
					continue
				}
				s, ok := b.HitObjects[i].(*objects.Slider)
				if !ok {
					c.Failf("kind", "object %d is not a slider", i)
					return
				}
				w := slideOf(m, &o)
				if tp := specTPs(m)[spec.At(specTPs(m), o.Time)]; math.IsNaN(tp.Beat) {
					c.Event("sliders without ticks because of NaN", 1)
				} else if tp.Inherited {
					c.Event("inherited points", 1)
				}
				if !sameSlide(c, i, s, w) {
					return
				}
				nested += len(w.Nodes) - 1
			}
			if nested > 0 {
				c.Sig(m.Summary(), nested)
			}
			c.Sample("%s, %d ticks and repeats", m.Summary(), nested)
		},
	})

	register(&core.Check{
		ID:    "C10",
		Rule:  "one random map: the positions of its objects at times before, during and after them, at and around repeats, raw and stacked, are compared with going back and forth along the path of the slider at constant speed. Non-trivial: a slider with at least two slides.",
		Quick: 60000, Thorough: 1200000,
		MinEvents: map[string]int64{"positions": 1000000, "slides back": 100000, "stacked positions": 1000000, "hard rock": 200000, "no duration": 300, "sliders of many passes": 100, "hard rock with others": 20000},
		Run:       runC10,
	})

	register(&core.Check{
		ID:    "C11",
		Rule:  "one random map dense in stacks (versions below and above 6, sliders, spinners, objects 3 px and one threshold apart): stack heights and offsets without mods, with EZ and with HR are recomputed from positions and times. Non-trivial: a map with a stack.",
		Quick: 90000, Thorough: 1800000,
		MinEvents: map[string]int64{"heights": 500000, "stacked objects": 50000, "negative heights": 1000, "old versions": 2000, "maps where mods stack differently": 500, "towers": 100},
		Run: func(c *core.Case) {
			p := gen.DefaultProfile(c.R)
			p.PStack = core.Pick(c.R, 0.2, 0.5, 0.9)
			p.N = core.Pick(c.R, 2, 5, 12, 30, 60)
			p.PSpinner = core.Pick(c.R, 0, 0, 0.05, 0.2)
			if c.R.P(0.01) { // stacks of more objects than anyone expects
				p.Tower, p.N, p.Big = true, core.Pick(c.R, 70, 130, 260, 300, 520), 0
				p.PSlider, p.PSpinner = core.Pick(c.R, 0, 0, 0.02), core.Pick(c.R, 0, 0, 0.01)
				p.Greens = 0
				c.Event("towers", 1)
			}
			m, b := randMap(c, p)
			if b == nil {
				return
			}
			l := stackObjs(b)
			var all [3][]int
			stacked := 0
			for k, mods := range []difficulty.Modifier{none, mEZ, mHR} {
				d := spec.NewDiff(b.Difficulty.GetHP(), b.Difficulty.GetCS(), b.Difficulty.GetOD(), b.Difficulty.GetAR(), int64(mods), 1)
				if thresholdNear(d, b.StackLeniency) {
					c.Skip("time threshold on a rounded millisecond")
					return
				}
				h, near := spec.Stack(l, m.Version, d.Preempt, b.StackLeniency)
				if near {
					c.Skip("distance or time on a rounded threshold")
					return
				}
				all[k] = h
				for i, o := range b.HitObjects {
					c.Event("heights", 1)
					if h[i] != 0 {
						stacked++
					}
					if h[i] < 0 {
						c.Event("negative heights", 1)
					}
					if g := o.GetStackIndex(mods); g != h[i] {
						c.Failf("height", "object %d of %d (%s, version %d): stack height %d, should be %d; threshold %v", i, len(l), modStr(mods), b.FileVersion, g, h[i], math.Floor(d.Preempt*b.StackLeniency))
						return
					}
					raw := v2(o.GetStartPosition())
					if mods == mHR {
						raw.Y = 384 - raw.Y
					}
					off := -float64(h[i]) * d.Radius / 10
					want := spec.V2{X: raw.X + off, Y: raw.Y + off}
					for _, extra := range []difficulty.Modifier{0, mDT | mHD | mFL} {
						if g := v2(o.GetStackedStartPositionMod(mods | extra)); beyond(g.Dist(want), 1e-3) {
							c.Failf("offset", "object %d (%s) with stack height %d is at %v, should be at %v (radius %v)", i, modStr(mods|extra), h[i], g, want, d.Radius)
							return
						}
					}
					if mods == none {
						if g := v2(o.GetStackedStartPosition()); beyond(g.Dist(want), 1e-3) {
							c.Failf("offset", "object %d with stack height %d is at %v, should be at %v", i, h[i], g, want)
							return
						}
					}
				}
			}
			if b.FileVersion < 6 {
				c.Event("old versions", 1)
			}
			c.Event("stacked objects", stacked)
			if fmt.Sprint(all[0]) != fmt.Sprint(all[1]) || fmt.Sprint(all[0]) != fmt.Sprint(all[2]) {
				c.Event("maps where mods stack differently", 1)
			}
			if stacked > 0 {
				c.Sig(m.Summary(), stacked, fmt.Sprint(all))
			}
			c.Sample("%s, heights %s", m.Summary(), clip(fmt.Sprint(all[0]), 200))
		},
	})
}

// thresholdNear tells whether rounding decides how long the time threshold of stacking is:
// the product is (nearly) whole and not made from an exactly known approach time
func thresholdNear(d *spec.Diff, leniency float64) bool {
	p := d.Preempt * leniency
	if math.Abs(math.Round(p)-p) >= 1e-6 {
		return false
	}
	return p != math.Floor(p) || d.MAR*8 != math.Floor(d.MAR*8)
}

// randPath makes the control points and the length of a slider
func randPath(r *core.Rng) (typ string, pts []vector.Vector2f, length float64) {
	typ = core.Pick(r, "L", "P", "B", "C")
	pos := gen.Vec{X: float32(r.Int(0, 512)), Y: float32(r.Int(0, 384))}
	g, length := gen.NewSlider(r, pos, typ, r.P(0.3))
	pts = append(pts, vector.Vector2f{X: pos.X, Y: pos.Y})
	for _, p := range g {
		pts = append(pts, vector.Vector2f{X: p.X, Y: p.Y})
	}
	if r.P(0.1) { // repeated points: at the start, in threes, at the end
		i := core.Pick(r, 0, 0, 1, len(pts)-1)
		if i < len(pts) {
			for k := core.Pick(r, 1, 1, 1, 2); k > 0; k-- {
				pts = append(pts[:i+1], pts[i:]...)
			}
		}
	}
	if typ == "P" && len(pts) == 3 && r.P(0.1) { // hardly bent
		b := pts[2].Sub(pts[0])
		k := float32(r.F(0.2, 0.8))
		pts[1] = vector.Vector2f{X: float32(math.Round(float64(pts[0].X + b.X*k + float32(r.Int(-4, 4))))), Y: float32(math.Round(float64(pts[0].Y + b.Y*k + float32(r.Int(-4, 4)))))}
	}
	if r.P(0.02) { // everything in one place
		for i := range pts {
			pts[i] = pts[0]
		}
	}
	if r.P(0.05) { // points on a line
		for i := range pts {
			pts[i] = vector.Vector2f{X: pts[0].X + float32(i*i)*7, Y: pts[0].Y + float32(i*i)*3}
		}
	}
	return
}

// checkLines checks that a path is parametrised by its length
func checkLines(c *core.Case, typ string, pts []vector.Vector2f, mc *curves.MultiCurve, L, tol float64) {
	lines := mc.GetLines()
	first := v2(pts[0])
	if d := v2(mc.PointAt(0)).Dist(first); beyond(d, 1e-2+arcRounding(typ, v2s(pts))) {
		c.Failf("start", "the %s path starts %v px from its first point", typ, d)
		return
	}
	if len(lines) == 0 || L == 0 {
		for _, t := range []float32{0, 0.5, 1, -1, 7} {
			if p := mc.PointAt(t); beyond(v2(p).Dist(first), 1e-2) {
				c.Failf("start", "a path without length is at %v", p)
			}
		}
		return
	}
	sum := 0.0
	cum := make([]float64, len(lines)+1)
	for i, l := range lines {
		if i > 0 {
			if d := v2(l.Point1).Dist(v2(lines[i-1].Point2)); beyond(d, 1e-3) {
				c.Failf("gap", "pieces %d and %d of the %s path are %v px apart", i-1, i, typ, d)
				return
			}
		}
		sum += v2(l.Point1).Dist(v2(l.Point2))
		cum[i+1] = sum
	}
	if beyond(math.Abs(sum-L), 1e-3+1e-5*L+6e-8*L*float64(len(lines))/3) {
		c.Failf("length-sum", "the pieces of the %s path add up to %v, its length is %v", typ, sum, L)
		return
	}
	at := func(s float64) (spec.V2, int) {
		i := 0
		for i < len(lines)-1 && cum[i+1] < s {
			i++
		}
		a, b := v2(lines[i].Point1), v2(lines[i].Point2)
		if cum[i+1] == cum[i] {
			return a, i
		}
		return a.Add(b.Sub(a).Mul((s - cum[i]) / (cum[i+1] - cum[i]))), i
	}
	n := 120
	prev, prevT := v2(mc.PointAt(0)), 0.0
	for k := 1; k <= n; k++ {
		t := float64(k) / float64(n)
		if k%7 == 3 {
			t = c.R.F(float64(k-1)/float64(n), t)
		}
		g := v2(mc.PointAt(float32(t)))
		w, i := at(t * sum)
		c.Event("points", 1)
		if d := g.Dist(w); beyond(d, 2e-3+2e-5*L) {
			c.Failf("parametrisation", "%v of the way along the %s path (length %v) is at %v, should be at %v", t, typ, L, g, w)
			return
		}
		if d := g.Dist(prev); beyond(d, L*(t-prevT)+2e-3+2e-5*L) {
			c.Failf("jump", "the %s path (length %v) jumps %v px within %v of its way", typ, L, d, t-prevT)
			return
		}
		prev, prevT = g, t
		// angles away from corners and vanishing pieces
		if cum[i+1]-cum[i] > 0.5 && t*sum-cum[i] > 0.05 && cum[i+1]-t*sum > 0.05 {
			a, b := v2(lines[i].Point1), v2(lines[i].Point2)
			c.Event("angles", 1)
			if !sameAngle(float64(mc.GetStartAngleAt(float32(t))), math.Atan2(a.Y-b.Y, a.X-b.X)) || !sameAngle(float64(mc.GetEndAngleAt(float32(t))), math.Atan2(b.Y-a.Y, b.X-a.X)) {
				c.Failf("angle", "angles at %v of the %s path are %v and %v, its direction there is %v", t, typ, mc.GetStartAngleAt(float32(t)), mc.GetEndAngleAt(float32(t)), math.Atan2(a.Y-b.Y, a.X-b.X))
				return
			}
		}
	}
	if mc.PointAt(-0.5) != mc.PointAt(0) || mc.PointAt(1.5) != mc.PointAt(1) {
		c.Failf("range", "parameters out of range leave the %s path: %v %v, %v %v", typ, mc.PointAt(-0.5), mc.PointAt(0), mc.PointAt(1.5), mc.PointAt(1))
		return
	}
	if d := v2(mc.PointAt(1)).Dist(v2(lines[len(lines)-1].Point2)); beyond(d, 2e-3+2e-5*L) {
		c.Failf("end", "the %s path ends %v px from the end of its last piece", typ, d)
		return
	}
	for _, e := range []struct {
		l        curves.Linear
		got      float32
		from, to spec.V2
	}{{lines[0], mc.GetStartAngle(), v2(lines[0].Point2), v2(lines[0].Point1)}, {lines[len(lines)-1], mc.GetEndAngle(), v2(lines[len(lines)-1].Point1), v2(lines[len(lines)-1].Point2)}} {
		if e.from.Dist(e.to) > 0.5 && !sameAngle(float64(e.got), math.Atan2(e.to.Y-e.from.Y, e.to.X-e.from.X)) {
			c.Failf("end-angle", "the angle at an end of the %s path is %v, should be %v", typ, e.got, math.Atan2(e.to.Y-e.from.Y, e.to.X-e.from.X))
			return
		}
	}
	// at the ends and beyond them directions are those of the first and of the last piece
	for _, t := range []float32{0, -0.5, -100, 1, 1.5, 100} {
		k := lines[0]
		if t > 0.5 {
			k = lines[len(lines)-1]
		}
		a, b := v2(k.Point1), v2(k.Point2)
		if a.Dist(b) <= 0.5 {
			continue
		}
		c.Event("directions at the ends", 1)
		if !sameAngle(float64(mc.GetStartAngleAt(t)), math.Atan2(a.Y-b.Y, a.X-b.X)) || !sameAngle(float64(mc.GetEndAngleAt(t)), math.Atan2(b.Y-a.Y, b.X-a.X)) {
			c.Failf("end-angle-at", "the angles at %v of the %s path are %v and %v, the piece there goes from %v to %v", t, typ, mc.GetStartAngleAt(t), mc.GetEndAngleAt(t), k.Point1, k.Point2)
			return
		}
	}
}

func sameAngle(a, b float64) bool {
	d := math.Mod(a-b, 2*math.Pi)
	if d > math.Pi {
		d -= 2 * math.Pi
	}
	if d < -math.Pi {
		d += 2 * math.Pi
	}
	return math.Abs(d) < 2e-3
}

func sameSlide(c *core.Case, i int, s *objects.Slider, w spec.SliderTiming) bool {
	c.Event("sliders", 1)
	tol := func(v float64) float64 { return 1e-5 + 2e-6*math.Abs(v-w.Start) + 1e-12*math.Abs(v) }
	if beyond(math.Abs(s.GetEndTime()-w.End), tol(w.End)) || s.GetStartTime() != w.Start || beyond(math.Abs(s.GetDuration()-(w.End-w.Start)), tol(w.End)) {
		c.Failf("end", "slider %d lasts from %v to %v, should from %v to %v", i, s.GetStartTime(), s.GetEndTime(), w.Start, w.End)
		return false
	}
	if w.Unsure {
		c.Skip("tick on a rounded cut-off")
		return true
	}
	if len(s.ScorePoints) != len(w.Nodes) {
		c.Failf("nodes", "slider %d (%v to %v ms) has %d nested points, should have %d: %v and %v", i, w.Start, w.End, len(s.ScorePoints), len(w.Nodes), clip(fmt.Sprint(s.ScorePoints), 400), clip(fmt.Sprint(w.Nodes), 400))
		return false
	}
	if w.Tie {
		c.Skip("tail at the time of another nested point")
	}
	for k, n := range w.Nodes {
		g := s.ScorePoints[k]
		if n.Reverse {
			c.Event("repeats", 1)
		} else if !n.Tail {
			c.Event("ticks", 1)
		}
		// a tie may be broken either way
		kind := g.IsReverse == n.Reverse
		if !kind {
			for _, q := range w.Nodes {
				if q.Reverse == g.IsReverse && math.Abs(q.Time-g.Time) <= 1e-3 {
					kind = true
				}
			}
		}
		if beyond(math.Abs(g.Time-n.Time), tol(n.Time)) && !(w.Tie && math.Abs(g.Time-n.Time) < 2e-3) || !kind {
			c.Failf("node", "nested point %d of slider %d (%v to %v ms) is %+v, should be %+v", k, i, w.Start, w.End, g, n)
			return false
		}
	}
	// whatever the length, all passes take the same time
	if passes, n := float64(s.RepeatCount), 0.0; !w.Tie {
		for k, g := range s.ScorePoints {
			if !g.IsReverse {
				continue
			}
			n++
			if at := w.Start + n*(s.GetEndTime()-w.Start)/passes; beyond(math.Abs(g.Time-at), 1e-6+1e-9*(s.GetEndTime()-w.Start)+1e-13*math.Abs(at)) {
				c.Failf("uneven", "nested point %d of slider %d (%v to %v ms in %v passes) is %+v, repeat %v should be at %v", k, i, w.Start, s.GetEndTime(), passes, g, n, at)
				return false
			}
		}
	}
	for k := 1; k < len(s.ScorePoints); k++ {
		if s.ScorePoints[k].Time < s.ScorePoints[k-1].Time {
			c.Failf("node-order", "nested points of slider %d are not in time order", i)
			return false
		}
	}
	return true
}

// runC08Map compares the path of a slider of a map with the path through the control points of its line
func runC08Map(c *core.Case) {
	p := gen.DefaultProfile(c.R)
	p.N, p.Big, p.PSlider, p.MaxSlides, p.NaNBeats, p.PPasses = 3, 0, 1, 1, false, 0
	m := gen.Random(c.R, p)
	for i := range m.Objs {
		o := &m.Objs[i]
		if o.Kind != gen.Slider {
			continue
		}
		o.Curve = core.Pick(c.R, "L", "P", "B", "C")
		for n := core.Pick(c.R, 0, 3, 9, 40, 130, 260, 400, 1100); len(o.Pts) < n; {
			q := o.Pts[len(o.Pts)-1]
			if !c.R.P(0.2) { // or the point again
				q.X, q.Y = q.X+float32(c.R.Int(-30, 30)), q.Y+float32(c.R.Int(-30, 30))
			}
			o.Pts = append(o.Pts, q)
		}
		o.Length = math.Round(c.R.F(1, 16) * float64(len(o.Pts)))
	}
	b := mustParse(c, m.Plain(c.R))
	if b == nil {
		return
	}
	for i, o := range m.Sorted() {
		if o.Kind != gen.Slider {
			continue
		}
		mc := pathOf(&o)
		g := b.HitObjects[i]
		if g.GetDuration() == 0 {
			continue
		}
		c.Event("sliders of maps", 1)
		if len(o.Pts) > 256 {
			c.Event("sliders of hundreds of points", 1)
		}
		L := float64(mc.GetLength())
		for k := 0; k <= 20; k++ {
			q := float64(k) / 20
			if d := v2(g.GetPositionAt(g.GetStartTime() + q*g.GetDuration())).Dist(v2(mc.PointAt(float32(q)))); beyond(d, 2e-3+2e-5*L+arcRounding(o.Curve, v2s(ctrl(&o)))) {
				c.Failf("slider-path", "the slider %s is %v px away from its path at %v of it", clip(strings.Join(o.Fields(), ","), 300), d, q)
				return
			}
		}
	}
}

func runC08(c *core.Case) {
	if c.R.P(0.002) {
		runC08Map(c)
		return
	}
	typ, pts, length := randPath(c.R)
	l := v2s(pts)
	c.Artifact("path", fmt.Sprint(typ, pts, length))
	if typ == "P" && len(l) == 3 {
		// arcs of nearly straight points have their centre far away, where single precision ends
		_, r, ok := spec.Circle(l[0], l[1], l[2])
		cross := math.Abs(l[1].Sub(l[0]).Cross(l[2].Sub(l[0])))
		if cross >= 0.0005 && (!ok || r > 50000) {
			c.Skip("arc with a radius over 50000 px")
			return
		}
	}
	ideal := spec.IdealPath(typ, l)
	mc := curves.NewMultiCurveT(typ, pts, length)
	free := curves.NewMultiCurve(typ, pts)
	if ideal.Len() == 0 {
		c.Skip("no drawn length")
		return
	}
	c.Event(typ, 1)
	if !ideal.Exact {
		c.Sig(typ, pts, length)
	}
	if typ == "P" && len(l) == 3 {
		if _, _, _, sweep, ok := spec.Arc(l[0], l[1], l[2]); ok && math.Abs(sweep) > math.Pi {
			c.Event("arcs over a half circle", 1)
		}
		if _, r, ok := spec.Circle(l[0], l[1], l[2]); ok && r > 3000 {
			c.Event("arcs with a radius over 3000 px", 1)
		}
	}
	if typ == "B" {
		for i := 0; i+2 < len(l); i++ {
			if l[i] == l[i+1] {
				c.Event("split Bezier paths", 1)
				break
			}
		}
	}
	c.Sample("%s through %v, length %.2f", typ, l, length)

	// how far the drawn polyline may be from the ideal curve
	tol := 0.01 + 1e-5*ideal.Len()
	if !ideal.Exact {
		switch {
		case typ == "P" && len(l) == 3:
			_, r, _, sweep, _ := spec.Arc(l[0], l[1], l[2])
			tol = 0.05 + 1.02*r*(1-math.Cos(math.Min(math.Pi, math.Abs(sweep)/arcPieces(l)/2))) + 4*arcRounding(typ, l)
		case typ == "C":
			tol = 0.2
		default:
			// a control polygon is further from its curve the more points it has
			tol = 0.2
			run := 0
			for i := range l {
				if i > 0 && l[i] == l[i-1] {
					run = 0
				}
				if run++; run > 12 {
					tol = math.Max(tol, 0.2+float64(run)/100)
					c.Event("points of high degree curves", 1)
				}
			}
		}
	}
	// the drawn curve as a whole: length and ends
	chord := float64(free.GetLength())
	if chord > ideal.Len()+0.4+2e-3*ideal.Len()+8*arcRounding(typ, l) || chord < ideal.Len()-lengthLoss(typ, ideal, l) {
		c.Failf("drawn-length", "the %s curve is drawn with a length of %v, it is %v long", typ, chord, ideal.Len())
		return
	}
	if d := v2(free.PointAt(1)).Dist(ideal.Pts[len(ideal.Pts)-1]); beyond(d, 0.05+4*arcRounding(typ, l)) {
		c.Failf("drawn-end", "the %s curve is drawn up to %v px from its last point", typ, d)
		return
	}
	// no part left out, none added, in the right order
	n := 60
	for k := 0; k <= n; k++ {
		f := float64(k) / float64(n)
		g := v2(free.PointAt(float32(f)))
		c.Event("points", 1)
		// the ideal point at about the same share of the way
		s := f * ideal.Len()
		w := 6 + 0.02*ideal.Len()
		if d := ideal.Dist(g, math.Max(0, s-w), math.Min(ideal.Len(), s+w)); beyond(d, tol) {
			c.Failf("shape", "%.3f of the way along the %s curve is %v, %v px away from the ideal curve there (allowed %v)", f, typ, g, d, tol)
			return
		}
	}
	// the path of the asked length follows the drawn curve and goes on straight
	L := float64(mc.GetLength())
	extTol := extensionRounding(free, L-chord)
	for k := 0; k <= n; k++ {
		s := float64(k) / float64(n) * L
		g := v2(mc.PointAt(float32(float64(k) / float64(n))))
		var w spec.V2
		if s <= chord {
			w = v2(free.PointAt(float32(s / chord)))
		} else {
			fl := free.GetLines()
			last := fl[len(fl)-1]
			if last.GetLength() < 1e-2 {
				c.Skip("extension of a vanishing last piece")
				break
			}
			a, b := v2(last.Point1), v2(last.Point2)
			w = b.Add(b.Sub(a).Mul((s - chord) / b.Sub(a).Len()))
			c.Event("points beyond the drawn end", 1)
		}
		c.Event("points", 1)
		if d := g.Dist(w); beyond(d, 0.02+1e-4*math.Max(L, chord)+extTol) {
			c.Failf("length-change", "%v px along the %s path of length %v (drawn %v) is %v, should be %v", s, typ, L, chord, g, w)
			return
		}
	}
}

// extensionRounding is how far single precision may carry the end of a path whose last piece is extended: the further the
// shorter that piece is (its ends are only known to 2^-24 of their coordinates)
func extensionRounding(free *curves.MultiCurve, by float64) float64 {
	lines := free.GetLines()
	if by <= 0 || len(lines) == 0 {
		return 0
	}
	a, b := v2(lines[len(lines)-1].Point1), v2(lines[len(lines)-1].Point2)
	size := math.Max(math.Max(math.Abs(a.X), math.Abs(a.Y)), math.Max(math.Abs(b.X), math.Abs(b.Y)))
	return 3e-7 * size * (1 + by/a.Dist(b))
}

// arcPieces is the least number of lines an arc is drawn with, one per 8 px
func arcPieces(l []spec.V2) float64 {
	_, r, _, sweep, _ := spec.Arc(l[0], l[1], l[2])
	return math.Max(1, math.Floor((math.Abs(r*sweep)-8*arcRounding("P", l))/8-1e-3))
}

// lengthLoss is how much shorter than a curve its drawing may be
func lengthLoss(typ string, p *spec.Path, l []spec.V2) float64 {
	if p.Exact {
		return 0.05 + 1e-4*p.Len()
	}
	if typ == "P" && len(l) == 3 {
		_, r, _, sweep, _ := spec.Arc(l[0], l[1], l[2])
		k := arcPieces(l)
		return 0.05 + 1e-4*p.Len() + 8*arcRounding(typ, l) + math.Abs(r*sweep) - 2*r*k*math.Sin(math.Min(math.Pi, math.Abs(sweep)/k/2))
	}
	return 0.05 + 0.005*p.Len()
}

func runC10(c *core.Case) {
	p := gen.DefaultProfile(c.R)
	p.PSlider = core.Pick(c.R, 0.4, 0.8, 1)
	p.PStack = core.Pick(c.R, 0.1, 0.6)
	p.MaxSlides = core.Pick(c.R, 1, 3, 8)
	p.N = core.Pick(c.R, 1, 4, 8, 15)
	p.PPasses, p.PPoints = 0.005, 0.003
	m, b := randMap(c, p)
	if b == nil {
		return
	}
	maxSlides := 0
	for i, o := range m.Sorted() {
		g := b.HitObjects[i]
		start, end := g.GetStartTime(), g.GetEndTime()
		times := []float64{start, end, start - 1, end + 1, start - 1e6, end + 1e6}
		for k := 0; k < 12; k++ {
			times = append(times, c.R.F(start, end))
		}
		var mc *curves.MultiCurve
		var L, span float64
		if o.Kind == gen.Slider {
			mc = pathOf(&o)
			L = float64(mc.GetLength())
			if o.Slides > maxSlides {
				maxSlides = o.Slides
			}
			span = (end - start) / float64(o.Slides)
			if end == start {
				c.Event("no duration", 1)
			}
			step := 1
			if o.Slides > 60 {
				step = o.Slides / 40
				c.Event("sliders of many passes", 1)
			}
			for k := 0; k <= o.Slides; k += step {
				times = append(times, start+span*float64(k), start+span*float64(k)+span/100, start+span*float64(k)-span/100)
			}
		}
		for _, t := range times {
			want := spec.V2{X: float64(o.Pos.X), Y: float64(o.Pos.Y)}
			tol := 1e-4
			if o.Kind == gen.Slider && end > start {
				q := spec.SliderTiming{Start: start, End: end, Span: span}.Progress(t)
				want = v2(mc.PointAt(float32(q)))
				// a rounded time is a rounded way along the path
				tol = 2e-3 + 2e-5*L + L/span*1e-6*float64(o.Slides)
				if math.Mod((t-start)/span, 2) >= 1 && t < end {
					c.Event("slides back", 1)
				}
			}
			c.Event("positions", 1)
			if d := v2(g.GetPositionAt(t)).Dist(want); beyond(d, tol) {
				c.Failf("position", "object %d (%s, %v to %v ms) is at %v at %v ms, should be at %v", i, strings.Join(o.Fields(), ","), start, end, g.GetPositionAt(t), t, want)
				return
			}
			extra := none
			if c.R.P(0.3) {
				extra = randMods(c.R) &^ (mEZ | mHR)
			}
			for _, mods := range []difficulty.Modifier{none, mEZ | extra, mHR | extra, mDT | mHD, extra} {
				rad := spec.NewDiff(b.Difficulty.GetHP(), b.Difficulty.GetCS(), b.Difficulty.GetOD(), b.Difficulty.GetAR(), int64(mods), 1).Radius
				off := -float64(g.GetStackIndex(mods)) * rad / 10
				w := want
				if mods&mHR != 0 {
					w.Y = 384 - w.Y
					c.Event("hard rock", 1)
				}
				w = w.Add(spec.V2{X: off, Y: off})
				c.Event("stacked positions", 1)
				if d := v2(g.GetStackedPositionAtMod(t, mods)).Dist(w); beyond(d, tol+1e-3) {
					c.Failf("stacked-position", "object %d is at %v at %v ms under %s, should be at %v", i, g.GetStackedPositionAtMod(t, mods), t, modStr(mods), w)
					return
				}
				if mods == none && beyond(v2(g.GetStackedPositionAt(t)).Dist(w), tol+1e-3) {
					c.Failf("stacked-position", "object %d is at %v at %v ms, should be at %v", i, g.GetStackedPositionAt(t), t, w)
					return
				}
			}
		}
		// the ends agree with the positions at the ends
		for _, mods := range []difficulty.Modifier{none, mEZ, mHR} {
			if d := v2(g.GetStackedEndPositionMod(mods)).Dist(v2(g.GetStackedPositionAtMod(end, mods))); beyond(d, 1e-3) {
				c.Failf("end-position", "object %d ends at %v under %s, its position then is %v", i, g.GetStackedEndPositionMod(mods), modStr(mods), g.GetStackedPositionAtMod(end, mods))
				return
			}
			if d := v2(g.GetStackedStartPositionMod(mods)).Dist(v2(g.GetStackedPositionAtMod(start, mods))); beyond(d, 1e-2+arcRounding(o.Curve, v2s(ctrl(&o)))) {
				c.Failf("start-position", "object %d starts at %v under %s, its position then is %v", i, g.GetStackedStartPositionMod(mods), modStr(mods), g.GetStackedPositionAtMod(start, mods))
				return
			}
		}
		// Hard Rock mirrors whatever else is on
		for _, mods := range []difficulty.Modifier{mEZ | mHR, mHR | mDT | mFL} {
			if o.Kind == gen.Spinner || g.GetStackIndex(mEZ) != 0 || g.GetStackIndex(mHR) != 0 {
				continue
			}
			raw := v2(g.GetEndPosition())
			c.Event("hard rock with others", 1)
			if d := v2(g.GetStackedEndPositionMod(mods)).Dist(spec.V2{X: raw.X, Y: 384 - raw.Y}); beyond(d, 1e-3) {
				c.Failf("end-position", "object %d ends at %v under %s, its position without mods is %v", i, g.GetStackedEndPositionMod(mods), modStr(mods), raw)
				return
			}
		}
		if g.GetEndPosition() != g.GetPositionAt(end) || beyond(v2(g.GetStackedEndPosition()).Dist(v2(g.GetStackedEndPositionMod(none))), 1e-3) {
			c.Failf("end-position", "object %d ends at %v, its position then is %v", i, g.GetEndPosition(), g.GetPositionAt(end))
			return
		}
	}
	if maxSlides > 1 {
		c.Sig(m.Summary(), maxSlides)
	}
	c.Sample("%s, up to %d slides", m.Summary(), maxSlides)
}
