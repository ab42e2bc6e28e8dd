package props

import (
	"encoding/base64"
	"fmt"
	"math"
	"math/big"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/math32"
	"github.com/Wieku/gosu-pp/math/mutils"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/spec"
)

func init() {
	register(&core.Check{
		ID:    "C23",
		Rule:  "either (a) whatever map a mutated file gives, or (b) a well-formed map, rated by every entry point under random mods and scored with plays: (a) all have to return, (b) all numbers have to be finite, not negative and within their bounds. Non-trivial: a map with at least two objects.",
		Quick: 40000, Thorough: 1200000,
		MinEvents:   map[string]int64{"hostile maps rated": 2000, "well-formed maps rated": 1500, "plays": 4000, "steps": 10000, "empty plays": 300},
		Assumptions: []string{"Hostile maps that last longer than 2e7 ms (5.5 hours) are not rated, as there is one strain section per 400 ms."},
		Run: func(c *core.Case) {
			p := ratingProfile(c.R)
			if p.N > 30 {
				p.N = 30
			}
			m := gen.Random(c.R, p)
			bad := c.R.P(0.6)
			text := m.Plain(c.R)
			if bad {
				for k := 0; k < core.Pick(c.R, 1, 3); k++ {
					text = mutate(c.R, text)
				}
				if tooBig(text) {
					c.Skip("too many nested points asked for")
					return
				}
			}
			c.Artifact("map.base64", base64.StdEncoding.EncodeToString([]byte(text)))
			c.Artifact("map.osu", text)
			b, err := beatmap.ParseFromByte([]byte(text))
			if err != nil {
				if !bad {
					c.Failf("parse-error", "a well-formed map is refused: %v", err)
				}
				return
			}
			objs := b.HitObjects
			if len(objs) > 1 {
				if span := objs[len(objs)-1].GetStartTime() - objs[0].GetStartTime(); span > 2e7 {
					c.Skip("longer than 2e7 ms")
					return
				} else if span > 2e6 && len(objs) > 8 {
					objs = objs[:8]
				}
				c.Sig(text)
			}
			mods := randMods(c.R)
			if c.R.P(0.1) {
				mods = 1<<32 - 1
			}
			d := randDiff(c.R, b.Difficulty, mods)
			sane := func(where string, a osu.Attributes) bool {
				if bad {
					return true
				}
				for _, v := range []float64{a.Total, a.Aim, a.Speed, a.Flashlight, a.SliderFactor} {
					if math.IsNaN(v) || math.IsInf(v, 0) || v < 0 {
						c.Failf("number", "%s under %s gives %+v", where, modStr(mods), a)
						return false
					}
				}
				if a.SliderFactor > 1+1e-9 || a.ObjectCount != a.Circles+a.Sliders+a.Spinners || a.MaxCombo < a.ObjectCount+a.Sliders {
					c.Failf("bound", "%s under %s gives %+v", where, modStr(mods), a)
					return false
				}
				return true
			}
			one, peaks := osu.CalculateSingleWithPeaks(objs, d)
			if !sane("CalculateSingleWithPeaks", one) || !sane("CalculateSingle", osu.CalculateSingle(objs, d)) {
				return
			}
			if !bad {
				for _, l := range [][]float64{peaks.Aim, peaks.Speed, peaks.Flashlight, peaks.Total, osu.CalculateStrainPeaks(objs, d).Total} {
					for _, v := range l {
						if math.IsNaN(v) || math.IsInf(v, 0) || v < 0 {
							c.Failf("peak", "a strain peak under %s is %v", modStr(mods), v)
							return
						}
					}
				}
			} else {
				osu.CalculateStrainPeaks(objs, d)
			}
			steps := osu.CalculateStep(objs, d)
			steps2, _ := osu.CalculateStepWithPeaks(objs, d)
			if len(steps) != len(objs) || len(steps2) != len(objs) {
				c.Failf("steps", "%d and %d steps for %d objects", len(steps), len(steps2), len(objs))
				return
			}
			for _, a := range steps {
				c.Event("steps", 1)
				if !sane("CalculateStep", a) {
					return
				}
			}
			if !bad && c.R.P(0.2) { // nothing rated, nothing played
				empty, _ := osu.CalculateSingleWithPeaks(objs[:0], d)
				if !sane("CalculateSingleWithPeaks of nothing", empty) {
					return
				}
				r := run(empty, spec.Score{Combo: core.Pick(c.R, 0, -1), N300: core.Pick(c.R, 0, -1)}, d)
				c.Event("empty plays", 1)
				for _, v := range []float64{r.Total, r.Aim, r.Speed, r.Acc, r.Flashlight} {
					if math.IsNaN(v) || math.IsInf(v, 0) || v < 0 {
						c.Failf("pp", "the play of no objects under %s is worth %+v", modStr(mods), r)
						return
					}
				}
			}
			for k := 0; k < 2; k++ {
				s := randScore(c.R, one)
				s.N300 = one.ObjectCount - s.N100 - s.N50 - s.Miss // played to the end
				r := run(one, s, d)
				c.Event("plays", 1)
				if bad {
					continue
				}
				for _, v := range []float64{r.Total, r.Aim, r.Speed, r.Acc, r.Flashlight} {
					if math.IsNaN(v) || math.IsInf(v, 0) || v < 0 {
						c.Failf("pp", "the play %+v on %+v under %s is worth %+v", s, one, modStr(mods), r)
						return
					}
				}
			}
			if bad {
				c.Event("hostile maps rated", 1)
			} else {
				c.Event("well-formed maps rated", 1)
			}
			c.Sample("hostile %v, %s, %s: %+v", bad, m.Summary(), modStr(mods), one)
		},
	})

	register(&core.Check{
		ID:    "C28",
		Rule:  "random control points for each kind of curve segment and random vectors: points, ends, lengths and end directions are compared with double precision evaluations (De Casteljau, Hermite form, circumscribed circle), binomial coefficients with Pascal's triangle. Non-trivial: a curve that is not a point.",
		Quick: 400000, Thorough: 6000000,
		MinEvents: map[string]int64{"Bezier points": 200000, "arc points": 150000, "Catmull-Rom points": 200000, "line points": 100000, "binomials": 100000, "lengths": 15000, "directions": 40000, "vector operations": 200000, "straight arcs": 300},
		Run:       runC28,
	})
}

func runC28(c *core.Case) {
	r := c.R
	size := core.Pick(r, 512.0, 512, 100, 20, 2000)
	org := core.Pick(r, 0, 0, size/2, size) // control points may lie anywhere around the origin
	pt := func() vector.Vector2f {
		v := vector.Vector2f{X: float32(r.F(0, size) - org), Y: float32(r.F(0, size) - org)}
		if r.P(0.6) {
			v = vector.Vector2f{X: float32(math.Round(float64(v.X))), Y: float32(math.Round(float64(v.Y)))}
		}
		return v
	}
	pts := func(n int) (l []vector.Vector2f) {
		for i := 0; i < n; i++ {
			l = append(l, pt())
		}
		return
	}
	tol := 1e-3 + 2e-5*size
	params := []float32{0, 1, 0.5}
	for k := 0; k < 8; k++ {
		params = append(params, float32(r.Float64()))
	}
	direction := func(what string, got float32, from, to spec.V2) bool {
		if from.Dist(to) < 0.3 {
			return true
		}
		c.Event("directions", 1)
		if !sameAngle20(float64(got), math.Atan2(from.Y-to.Y, from.X-to.X)) {
			c.Failf("direction:"+what, "%s is %v, should be %v", what, got, math.Atan2(from.Y-to.Y, from.X-to.X))
			return false
		}
		return true
	}
	length := func(what string, got float64, at func(t float64) spec.V2, rel float64) bool {
		c.Event("lengths", 1)
		sum := 0.0
		n := 2000
		prev := at(0)
		for i := 1; i <= n; i++ {
			p := at(float64(i) / float64(n))
			sum += p.Dist(prev)
			prev = p
		}
		if beyond(math.Abs(got-sum), 0.4+rel*sum) {
			c.Failf("length:"+what, "the length of %s is %v, should be %v", what, got, sum)
			return false
		}
		return true
	}

	// Bezier
	{
		n := r.Int(1, 12)
		if r.P(0.05) {
			n = r.Int(13, 25)
		}
		p := pts(n)
		l := v2s(p)
		c.Artifact("bezier", fmt.Sprint(p))
		bz := curves.NewBezierNA(p)
		for _, t := range params {
			c.Event("Bezier points", 1)
			if w := spec.Casteljau(l, float64(t)); beyond(v2(bz.PointAt(t)).Dist(w), tol) {
				c.Failf("bezier", "the Bezier curve through %v is at %v at %v, should be at %v", p, bz.PointAt(t), t, w)
				return
			}
		}
		ctl := 0.0
		for i := 1; i < n; i++ {
			ctl += l[i].Dist(l[i-1])
		}
		if !near(float64(bz.GetLength()), ctl, 1e-4, 1e-3) {
			c.Failf("bezier-length", "the control polygon of %v is %v long, should be %v", p, bz.GetLength(), ctl)
			return
		}
		if r.P(0.1) {
			full := curves.NewBezier(p)
			if !length("a Bezier curve", float64(full.GetLength()), func(t float64) spec.V2 { return spec.Casteljau(l, t) }, 2e-3) {
				return
			}
		}
		if n > 1 && ctl > 2 {
			if !direction("the start of a Bezier curve", bz.GetStartAngle(), l[0], spec.Casteljau(l, 1/ctl)) ||
				!direction("the end of a Bezier curve", bz.GetEndAngle(), l[n-1], spec.Casteljau(l, 1-1/ctl)) {
				return
			}
			c.Sig(p)
		}
		if n > 2 {
			ls := curves.ApproximateBezier(p)
			if beyond(v2(ls[0].Point1).Dist(l[0]), 1e-3) || beyond(v2(ls[len(ls)-1].Point2).Dist(l[n-1]), 1e-3) {
				c.Failf("bezier-ends", "the drawn Bezier curve goes from %v to %v, should from %v to %v", ls[0].Point1, ls[len(ls)-1].Point2, p[0], p[n-1])
				return
			}
		}
		// the points handed in are not touched
		for i, q := range v2s(p) {
			if q != l[i] {
				c.Failf("bezier-input", "evaluating the Bezier curve changes its control points")
				return
			}
		}
	}

	// binomial coefficients
	for k := 0; k < 8; k++ {
		n, i := int64(r.Int(0, 61)), int64(0)
		i = int64(r.Int(-1, int(n)+1))
		if k == 0 { // of any number, as long as they fit with a factor to spare
			n = int64(core.Pick(r, r.Int(62, 66), r.Int(62, 300), r.Int(62, 5000), r.Int(62, 1000000)))
			for i = int64(r.Int(0, 30)); i > 2; i-- {
				if b := new(big.Int).Binomial(n, i); b.Mul(b, big.NewInt(2*i)).IsInt64() {
					break
				}
			}
			if r.P(0.5) {
				i = n - i
			}
		}
		c.Event("binomials", 1)
		want := new(big.Int)
		if i >= 0 && i <= n {
			want.Binomial(n, i)
		}
		if g := curves.BinomialCoefficient(n, i); big.NewInt(g).Cmp(want) != 0 {
			c.Failf("binomial", "%d over %d is %d, should be %v", n, i, g, want)
			return
		}
	}

	// arcs
	{
		p := pts(3)
		l := v2s(p)
		if r.P(0.05) {
			d := p[1].Sub(p[0])
			p[0] = vector.Vector2f{X: float32(math.Round(float64(p[0].X))), Y: float32(math.Round(float64(p[0].Y)))}
			d = vector.Vector2f{X: float32(math.Round(float64(d.X))), Y: float32(math.Round(float64(d.Y)))}
			p[1] = p[0].Add(d)
			p[2] = p[1].Add(d.Scl(float32(r.Int(-3, 3))))
			l = v2s(p)
		}
		if r.P(0.08) { // almost a whole circle, or almost none
			rad, from, end := r.F(0.2, 1)*size, r.F(-math.Pi, math.Pi), core.Pick(r, 1.0, -1)*math.Exp(r.F(-8, -1))
			if r.P(0.2) {
				end = math.Copysign(math.Pi/2, end)
			}
			turn := func(a float64) vector.Vector2f {
				s, k := math.Sincos(from + a)
				return vector.Vector2f{X: p[0].X + float32(rad*k), Y: p[0].Y + float32(rad*s)}
			}
			p = []vector.Vector2f{turn(0), turn(r.F(1, 5)), turn(end)}
			l = v2s(p)
			c.Event("arcs that nearly close", 1)
		}
		if r.P(0.05) { // a very small arc, on exact coordinates
			for i := range p {
				p[i] = vector.Vector2f{X: float32(math.Round(float64(p[0].X)/64)) + float32(r.Int(-8, 8))/16, Y: float32(math.Round(float64(p[0].Y)/64)) + float32(r.Int(-8, 8))/16}
			}
			l = v2s(p)
			c.Event("small arcs", 1)
		}
		c.Artifact("arc", fmt.Sprint(p))
		cross := math.Abs(l[1].Sub(l[0]).Cross(l[2].Sub(l[0])))
		whole, grid := true, true
		for _, q := range l {
			// the products of these are exact in single precision
			whole = whole && q.X == math.Floor(q.X) && q.Y == math.Floor(q.Y) && math.Abs(q.X) < 1000 && math.Abs(q.Y) < 1000
			grid = grid && q.X*16 == math.Floor(q.X*16) && q.Y*16 == math.Floor(q.Y*16) && math.Abs(q.X) < 64 && math.Abs(q.Y) < 64
		}
		if whole || grid || cross > 1+2e-6*size*size {
			c.Event("straightness", 1)
			if g := vector.IsStraightLine32(p[0], p[1], p[2]); g != (cross < 0.002) {
				c.Failf("vector:IsStraightLine32", "three points %v being on a line is %v, they span %v", p, g, cross/2)
				return
			}
		}
		arc := curves.NewCirArc(p[0], p[1], p[2])
		if cross == 0 {
			c.Event("straight arcs", 1)
			if !arc.Unstable {
				c.Failf("arc-straight", "three points on a line %v are not reported as unstable", p)
				return
			}
		}
		if (whole || grid) && cross != 0 && arc.Unstable {
			c.Failf("arc-stable", "the arc over %v is reported as unstable", p)
			return
		}
		o, rad, from, sweep, ok := spec.Arc(l[0], l[1], l[2])
		if ok && rad < 3*size && cross > 0.1*size {
			if arc.Unstable {
				c.Failf("arc-stable", "the arc over %v is reported as unstable", p)
				return
			}
			at := func(t float64) spec.V2 {
				s, k := math.Sincos(from + sweep*t)
				return spec.V2{X: o.X + rad*k, Y: o.Y + rad*s}
			}
			// rounding of the circle is worse for flat triangles
			at2 := tol + 2*arcRounding("P", l) + 1e-5*rad
			if at2 < 1 {
				for _, t := range params {
					c.Event("arc points", 1)
					if w := at(float64(t)); beyond(v2(arc.PointAt(t)).Dist(w), at2) {
						c.Failf("arc", "the arc over %v is at %v at %v, should be at %v", p, arc.PointAt(t), t, w)
						return
					}
				}
				if !near(float64(arc.GetLength()), math.Abs(rad*sweep), 2e-3, at2*8) {
					c.Failf("arc-length", "the length of the arc over %v is %v, should be %v", p, arc.GetLength(), math.Abs(rad*sweep))
					return
				}
				c.Event("lengths", 1)
				if ln := math.Abs(rad * sweep); at2 < 0.02 && ln > 4 {
					if !direction("the start of an arc", arc.GetStartAngle(), l[0], at(1/ln)) || !direction("the end of an arc", arc.GetEndAngle(), l[2], at(1-1/ln)) {
						return
					}
				}
			}
		}
	}

	// Catmull-Rom
	{
		p := pts(4)
		l := v2s(p)
		c.Artifact("catmull", fmt.Sprint(p))
		cm := curves.NewCatmull(p)
		at := func(t float64) spec.V2 { return spec.CatmullAt(l[0], l[1], l[2], l[3], t) }
		for _, t := range params {
			c.Event("Catmull-Rom points", 1)
			if w := at(float64(t)); beyond(v2(cm.PointAt(t)).Dist(w), tol) {
				c.Failf("catmull", "the Catmull-Rom curve through %v is at %v at %v, should be at %v", p, cm.PointAt(t), t, w)
				return
			}
		}
		if l[1].Dist(l[2]) > 20 {
			if r.P(0.1) && !length("a Catmull-Rom curve", float64(cm.GetLength()), at, 0.02) {
				return
			}
			ln := float64(cm.GetLength())
			if !direction("the start of a Catmull-Rom curve", cm.GetStartAngle(), l[1], at(1/ln)) || !direction("the end of a Catmull-Rom curve", cm.GetEndAngle(), l[2], at(1-1/ln)) {
				return
			}
		}
		n := r.Int(1, 80)
		ls := curves.ApproximateCatmullRom(p, n)
		if len(ls) != n || beyond(v2(ls[0].Point1).Dist(l[1]), tol) || beyond(v2(ls[n-1].Point2).Dist(l[2]), tol) {
			c.Failf("catmull-lines", "%d lines drawn for %v, asked for %d", len(ls), p, n)
			return
		}
	}

	// lines and vectors
	a, b := pt(), pt()
	va, vb := v2(a), v2(b)
	ln := curves.NewLinear(a, b)
	for _, t := range params {
		c.Event("line points", 1)
		if w := va.Add(vb.Sub(va).Mul(float64(t))); beyond(v2(ln.PointAt(t)).Dist(w), 1e-3) {
			c.Failf("line", "the line from %v to %v is at %v at %v", a, b, ln.PointAt(t), t)
			return
		}
	}
	if !direction("the start of a line", ln.GetStartAngle(), va, vb) || !direction("the end of a line", ln.GetEndAngle(), vb, va) {
		return
	}
	rad := r.F(-7, 7)
	s, k := math.Sincos(rad)
	x := r.F(-3, 3)
	vecs := []struct {
		n    string
		got  vector.Vector2f
		want spec.V2
	}{
		{"Add", a.Add(b), va.Add(vb)}, {"Sub", a.Sub(b), va.Sub(vb)}, {"AddS", a.AddS(b.X, b.Y), va.Add(vb)}, {"SubS", a.SubS(b.X, b.Y), va.Sub(vb)},
		{"Mid", a.Mid(b), va.Add(vb).Mul(0.5)}, {"Scl", a.Scl(float32(x)), va.Mul(x)}, {"Lerp", a.Lerp(b, float32(x)), va.Add(vb.Sub(va).Mul(x))},
		{"Rotate", a.Rotate(float32(rad)), spec.V2{X: va.X*k - va.Y*s, Y: va.X*s + va.Y*k}},
		{"NewVec2fRad", vector.NewVec2fRad(float32(rad), a.X), spec.V2{X: va.X * k, Y: va.X * s}},
		{"Abs", a.Sub(b).Abs(), spec.V2{X: math.Abs(va.X - vb.X), Y: math.Abs(va.Y - vb.Y)}},
		{"Copy", a.Copy(), va},
	}
	// unit vectors of anything but vanishing vectors, also very short and long ones
	short := a.Scl(float32(math.Exp(r.F(-12, 5))))
	for _, v := range []vector.Vector2f{a, b, short, a.Sub(a), a.Scl(float32(math.Exp(r.F(-60, -12))))} {
		l := v2(v).Len()
		if n := v2(v.Nor()); !(n.Len() <= 1+1e-5) {
			c.Failf("vector:Nor", "%v, normalised, is %v: longer than 1 or not a number", v, v.Nor())
			return
		}
		if l > 0.0033 && l < 1e15 {
			c.Event("unit vectors", 1)
			if d := v2(v.Nor()).Dist(v2(v).Mul(1 / l)); beyond(d, 1e-5) {
				c.Failf("vector:Nor", "the unit vector of %v is %v, %v off", v, v.Nor(), d)
				return
			}
		}
	}
	if ab := v2(vector.NewVec2f(a.X, a.Y).Sub(b)); ab.Len() > 1 {
		c.Event("angles", 1)
		for _, q := range []struct {
			n    string
			got  float32
			want float64
		}{{"AngleRV", a.AngleRV(b), math.Atan2(ab.Y, ab.X)}, {"AngleR", a.Sub(b).AngleR(), math.Atan2(ab.Y, ab.X)}, {"Angle", a.Sub(b).Angle() * math.Pi / 180, math.Atan2(ab.Y, ab.X)}} {
			d := math.Abs(float64(q.got) - q.want)
			if d > math.Pi {
				d = 2*math.Pi - d
			}
			if beyond(d, 1e-4) {
				c.Failf("vector:"+q.n, "%s of %v and %v is %v, should be %v", q.n, a, b, q.got, q.want)
				return
			}
		}
	}
	if !math32.IsNaN(math32.NaN()) || math32.IsNaN(a.X) || math32.IsNaN(math32.Inf(1)) || float64(math32.Inf(1)) != math.Inf(1) || float64(math32.Inf(-1)) != math.Inf(-1) {
		c.Failf("number:special", "infinities or not-a-number of single precision are wrong")
		return
	}
	if p := pt(); p.Dst(a) > 1 && p.Dst(b) > 1 {
		u, v := va.Sub(v2(p)), vb.Sub(v2(p))
		if cs := (u.X*v.X + u.Y*v.Y) / u.Len() / v.Len(); math.Abs(cs) < 0.99 && u.Len() > size/50 && v.Len() > size/50 {
			c.Event("angles", 1)
			if g := float64(vector.AngleBetween32(p, a, b)); beyond(math.Abs(g-math.Acos(cs)), 1e-3) {
				c.Failf("vector:AngleBetween32", "the angle between %v and %v seen from %v is %v, should be %v", a, b, p, g, math.Acos(cs))
				return
			}
		}
	}
	for _, q := range vecs {
		c.Event("vector operations", 1)
		if beyond(v2(q.got).Dist(q.want), 1e-3+2e-6*size*4) {
			c.Failf("vector:"+q.n, "%s of %v and %v is %v, should be %v", q.n, a, b, q.got, q.want)
			return
		}
	}
	for _, q := range []struct {
		n         string
		got, want float64
	}{
		{"Dst", float64(a.Dst(b)), va.Dist(vb)}, {"DstSq", float64(a.DstSq(b)), va.Dist(vb) * va.Dist(vb)}, {"Len", float64(a.Len()), va.Len()}, {"LenSq", float64(a.LenSq()), va.Len() * va.Len()},
		{"ClampF64", mutils.ClampF64(x, -1, 1), math.Max(-1, math.Min(1, x))}, {"ClampF32", float64(mutils.ClampF32(float32(x), -1, 1)), math.Max(-1, math.Min(1, float64(float32(x))))},
		{"LerpF64", mutils.LerpF64(va.X, vb.X, x), va.X + (vb.X-va.X)*x}, {"LerpF32", float64(mutils.LerpF32(a.X, b.X, float32(x))), va.X + (vb.X-va.X)*x},
		{"ClampI", float64(mutils.ClampI(int(va.X), 100, 300)), math.Max(100, math.Min(300, math.Trunc(va.X)))},
		{"ClampI64", float64(mutils.ClampI64(int64(va.X), 100, 300)), math.Max(100, math.Min(300, math.Trunc(va.X)))},
		{"MaxI", float64(mutils.MaxI(int(va.X), int(vb.X))), math.Max(math.Trunc(va.X), math.Trunc(vb.X))}, {"MinI", float64(mutils.MinI(int(va.X), int(vb.X))), math.Min(math.Trunc(va.X), math.Trunc(vb.X))},
		{"MaxI64", float64(mutils.MaxI64(int64(va.X), int64(vb.X))), math.Max(math.Trunc(va.X), math.Trunc(vb.X))}, {"MinI64", float64(mutils.MinI64(int64(va.X), int64(vb.X))), math.Min(math.Trunc(va.X), math.Trunc(vb.X))},
		{"Dot", (float64(a.Dot(b)) - (va.X*vb.X + va.Y*vb.Y)) / (1 + va.Len()*vb.Len()) * 100, 0}, {"Mult", v2(a.Mult(b)).Dist(spec.V2{X: va.X * vb.X, Y: va.Y * vb.Y}) / (1 + va.Len()*vb.Len()), 0},
		{"math32.Abs", float64(math32.Abs(a.X)), math.Abs(va.X)}, {"math32.Min", float64(math32.Min(a.X, b.X)), math.Min(va.X, vb.X)}, {"math32.Max", float64(math32.Max(a.X, b.X)), math.Max(va.X, vb.X)},
		{"math32.Floor", float64(math32.Floor(a.X)), math.Floor(va.X)}, {"math32.Ceil", float64(math32.Ceil(a.X)), math.Ceil(va.X)}, {"math32.Round", float64(math32.Round(a.X)), math.Floor(float64(a.X + 0.5))},
		{"math32.Sqrt", float64(math32.Sqrt(math32.Abs(a.X))), math.Sqrt(math.Abs(va.X))}, {"math32.Sin", float64(math32.Sin(float32(rad))), math.Sin(float64(float32(rad)))}, {"math32.Cos", float64(math32.Cos(float32(rad))), math.Cos(float64(float32(rad)))},
		{"math32.Atan", float64(math32.Atan(float32(x))), math.Atan(float64(float32(x)))}, {"math32.Atan2", float64(math32.Atan2(a.Y, a.X)), math.Atan2(va.Y, va.X)}, {"math32.Acos", float64(math32.Acos(float32(x / 3))), math.Acos(float64(float32(x / 3)))}, {"math32.Asin", float64(math32.Asin(float32(x / 3))), math.Asin(float64(float32(x / 3)))},
		{"math32.Tan", math.Atan(float64(math32.Tan(float32(x / 3)))), math.Atan(math.Tan(float64(float32(x / 3))))}, {"math32.Pow", float64(math32.Pow(math32.Abs(float32(x)), float32(rad/3))), math.Pow(math.Abs(float64(float32(x))), float64(float32(rad/3)))},
		{"math32.Mod", float64(math32.Mod(a.X, float32(x))), math.Mod(va.X, float64(float32(x)))},
	} {
		c.Event("vector operations", 1)
		if !near(q.got, q.want, 1e-5, 1e-3) {
			c.Failf("number:"+q.n, "%s of %v, %v, %v is %v, should be %v", q.n, a, b, x, q.got, q.want)
			return
		}
	}
}

func sameAngle20(a, b float64) bool {
	d := math.Abs(math.Mod(a-b, 2*math.Pi))
	return d < 0.03 || d > 2*math.Pi-0.03
}
