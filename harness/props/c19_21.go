package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/spec"
)

// sameStars compares ratings
func sameStars(a, b osu.Attributes, rel float64) string {
	for _, f := range []struct {
		n    string
		a, b float64
	}{{"Total", a.Total, b.Total}, {"Aim", a.Aim, b.Aim}, {"SliderFactor", a.SliderFactor, b.SliderFactor}, {"Speed", a.Speed, b.Speed}, {"Flashlight", a.Flashlight, b.Flashlight}} {
		if !near(f.a, f.b, rel, 1e-9) {
			return fmt.Sprintf("%s: %v and %v", f.n, f.a, f.b)
		}
	}
	return ""
}

func sameCounts(a, b osu.Attributes) string {
	for _, f := range []struct {
		n    string
		a, b int
	}{{"ObjectCount", a.ObjectCount, b.ObjectCount}, {"Circles", a.Circles, b.Circles}, {"Sliders", a.Sliders, b.Sliders}, {"Spinners", a.Spinners, b.Spinners}, {"MaxCombo", a.MaxCombo, b.MaxCombo}} {
		if f.a != f.b {
			return fmt.Sprintf("%s: %d and %d", f.n, f.a, f.b)
		}
	}
	return ""
}

func sameAttr(a, b osu.Attributes, rel float64) string {
	if s := sameCounts(a, b); s != "" {
		return s
	}
	return sameStars(a, b, rel)
}

func samePeaks(a, b osu.StrainPeaks, rel float64) string {
	for _, f := range []struct {
		n    string
		a, b []float64
	}{{"Aim", a.Aim, b.Aim}, {"Speed", a.Speed, b.Speed}, {"Flashlight", a.Flashlight, b.Flashlight}, {"Total", a.Total, b.Total}} {
		if len(f.a) != len(f.b) {
			return fmt.Sprintf("%d and %d %s peaks", len(f.a), len(f.b), f.n)
		}
		for i := range f.a {
			if !near(f.a[i], f.b[i], rel, 1e-9) {
				return fmt.Sprintf("%s peak %d: %v and %v", f.n, i, f.a[i], f.b[i])
			}
		}
	}
	return ""
}

func init() {
	register(&core.Check{
		ID:    "C19",
		Rule:  "one random well-formed map under random mods: peaks per 400 ms section, difficulty values and ratings are recomputed from the strain levels the skills report, and the ratings of the whole map from its objects by the full model. Non-trivial: at least two sections.",
		Quick: 36000, Thorough: 720000,
		MinEvents:   map[string]int64{"section peaks": 200000, "sections without objects": 5000, "aggregations": 5000, "object on a section limit": 300, "ratings from objects": 2000},
		Assumptions: []string{"Ratings recomputed from hit objects are compared to 2e-4 relative (the library computes distances in single precision)."},
		Run: func(c *core.Case) {
			p := ratingProfile(c.R)
			p.Gap = core.Pick(c.R, 0, 0.03, 0.15, 0.4)
			if c.R.P(0.3) { // objects on section limits
				p.Beats = []float64{400, 800, 200}
				p.Divs = []float64{1, 2, 4}
				p.FracTime = false
				p.StartTime = core.Pick(c.R, 0.0, 400, 1200, -800, 399, 401)
			}
			m, b := randMap(c, p)
			if b == nil {
				return
			}
			mods := randMods(c.R)
			d := randDiff(c.R, b.Difficulty, mods)
			objs := preprocessing.CreateDifficultyObjects(b.HitObjects, d)
			o := dobjsOf(objs, mods)
			sec, firstEnd, _ := spec.Sections(o)
			for i := range sec {
				if o[i].Start == firstEnd+400*float64(sec[i]) {
					c.Event("object on a section limit", 1)
				}
				if i > 0 && sec[i] > sec[i-1]+1 {
					c.Event("sections without objects", sec[i]-sec[i-1]-1)
				}
			}
			if len(sec) > 0 && sec[len(sec)-1] > 0 {
				c.Sig(m.Summary(), modStr(mods), sec[len(sec)-1])
			}
			c.Sample("%s, %s", m.Summary(), modStr(mods))

			aim, aimNS, speed, fl := skills.NewAimSkill(d, true), skills.NewAimSkill(d, false), skills.NewSpeedSkill(d), skills.NewFlashlightSkill(d)
			la, ln, ls, lf, rh := make([]float64, len(o)), make([]float64, len(o)), make([]float64, len(o)), make([]float64, len(o)), make([]float64, len(o))
			for i, do := range objs {
				aim.Process(do)
				aimNS.Process(do)
				speed.Process(do)
				fl.Process(do)
				la[i], ln[i], ls[i], lf[i], rh[i] = aim.CurrentStrain, aimNS.CurrentStrain, speed.CurrentStrain, fl.CurrentStrain, speed.CurrentRhythm
			}
			pa, nearSec := spec.Peaks(o, la, nil, 0.15)
			if nearSec {
				c.Skip("object on a rounded section limit")
				return
			}
			pn, _ := spec.Peaks(o, ln, nil, 0.15)
			ps, _ := spec.Peaks(o, ls, rh, 0.3)
			pf, _ := spec.Peaks(o, lf, nil, 0.15)
			ok := true
			for _, k := range []struct {
				n       string
				got     []float64
				want    []float64
				val     float64
				reduced int
				decay   float64
				mult    float64
			}{
				{"aim", aim.GetCurrentStrainPeaks(), pa, aim.DifficultyValue(), 10, 0.9, 1.06},
				{"aim without sliders", aimNS.GetCurrentStrainPeaks(), pn, aimNS.DifficultyValue(), 10, 0.9, 1.06},
				{"speed", speed.GetCurrentStrainPeaks(), ps, speed.DifficultyValue(), 5, 0.9, 1.04},
				{"flashlight", fl.GetCurrentStrainPeaks(), pf, fl.DifficultyValue(), 10, 1, 1.06},
			} {
				ok = checkPeaks(c, k.n, k.got, k.want, 1e-9) && ok
				if w := spec.Aggregate(k.got, k.reduced, k.decay, k.mult); !near(k.val, w, 1e-9, 1e-9) {
					c.Failf("aggregate:"+k.n, "%s difficulty value is %v, its %d peaks give %v", k.n, k.val, len(k.got), w)
					ok = false
				}
				c.Event("aggregations", 1)
			}
			if !ok {
				return
			}

			// ratings from peaks
			got, peaks := osu.CalculateSingleWithPeaks(b.HitObjects, d)
			isFL, isRX := mods&mFL != 0, mods&mRX != 0
			flv := 0.0
			if isFL {
				flv = spec.Aggregate(peaks.Flashlight, 10, 1, 1.06)
			}
			w := spec.Rate(spec.Aggregate(peaks.Aim, 10, 0.9, 1.06), aimNS.DifficultyValue(), spec.Aggregate(peaks.Speed, 5, 0.9, 1.04), flv, isRX, isFL)
			wa := osu.Attributes{Total: w.Total, Aim: w.Aim, SliderFactor: w.SliderFactor, Speed: w.Speed, Flashlight: w.Flashlight}
			if s := sameStars(got, wa, 1e-9); s != "" {
				c.Failf("rating", "rating (%s) and the one its peaks give differ in %s", modStr(mods), s)
				return
			}
			if (len(peaks.Flashlight) > 0) != isFL || len(peaks.Total) != len(peaks.Aim) || len(peaks.Speed) != len(peaks.Aim) || isFL && len(peaks.Flashlight) != len(peaks.Aim) {
				c.Failf("peak-count", "(%s) %d aim, %d speed, %d flashlight, %d total peaks", modStr(mods), len(peaks.Aim), len(peaks.Speed), len(peaks.Flashlight), len(peaks.Total))
				return
			}
			for i := range peaks.Total {
				f := 0.0
				if isFL {
					f = peaks.Flashlight[i]
				}
				if t := spec.Rate(peaks.Aim[i], peaks.Aim[i], peaks.Speed[i], f, isRX, isFL).Total; !near(t, peaks.Total[i], 1e-9, 1e-9) {
					c.Failf("total-peak", "total peak %d (%s) is %v, the star formula gives %v", i, modStr(mods), peaks.Total[i], t)
					return
				}
			}

			// ratings from the hit objects alone
			if fs, full, ok := fullModel(b, d); ok {
				c.Event("ratings from objects", 1)
				if s := sameStars(got, full, 2e-4+nodeRounding(b)); s != "" {
					c.Failf("rating-model", "rating (%s) and the full model differ in %s", modStr(mods), s)
				}
				_ = fs
			} else {
				c.Skip("full model on a rounded threshold")
			}
		},
	})

	register(&core.Check{
		ID:    "C20",
		Rule:  "one random well-formed map (or an empty or one object list) under random mods: every (up to 40) step of CalculateStep is compared with CalculateSingle of that prefix, and the variants with peaks with those without. Non-trivial: at least two objects.",
		Quick: 10000, Thorough: 600000,
		MinEvents: map[string]int64{"prefixes": 20000, "variants": 3000, "growth": 20000},
		Run: func(c *core.Case) {
			p := ratingProfile(c.R)
			p.N = core.Pick(c.R, 1, 2, 3, 6, 12, 25, 45, 70)
			if c.R.P(0.1) {
				p.Gap = 0.3
			}
			if c.R.P(0.0005) { // as many objects as the longest maps have
				p.N, p.Gap, p.Beats, p.Divs, p.PSlider, p.MaxSlides = c.R.Int(4100, 5500), 0, []float64{240, 300}, []float64{4, 8}, 0.05, 1
				c.Event("maps of thousands of objects", 1)
			}
			m, b := randMap(c, p)
			if b == nil {
				return
			}
			mods := randMods(c.R)
			d := randDiff(c.R, b.Difficulty, mods)
			objs := b.HitObjects
			if c.R.P(0.02) {
				objs = nil
			}
			// rating step by step takes time in proportion to objects times sections
			for cut := false; len(objs) > 500; cut = true {
				span := (objs[len(objs)-1].GetStartTime() - objs[0].GetStartTime()) / d.Speed / 400
				if span*float64(len(objs)) <= 2e7 {
					break
				}
				if !cut {
					c.Skip("end of a long map")
				}
				objs = objs[:len(objs)*9/10]
			}
			if len(objs) > 4096 {
				c.Event("ratings of thousands of objects", 1)
			}
			if len(objs) > 1 {
				c.Sig(m.Summary(), modStr(mods), len(objs))
			}
			steps := osu.CalculateStep(objs, d)
			if len(steps) != len(objs) {
				c.Failf("step-count", "%d steps for %d objects", len(steps), len(objs))
				return
			}
			idx := c.R.Perm(len(objs))
			if len(idx) > 40 {
				idx = append(idx[:40], len(objs)-1)
			}
			for _, i := range idx {
				one := osu.CalculateSingle(objs[:i+1], d)
				c.Event("prefixes", 1)
				if s := sameAttr(steps[i], one, 1e-9); s != "" {
					c.Failf("prefix", "step %d of %d (%s) and the rating of the first %d objects differ in %s", i, len(objs), modStr(mods), i+1, s)
					return
				}
			}
			for i := 1; i < len(steps); i++ {
				a, b := steps[i-1], steps[i]
				c.Event("growth", 1)
				if b.Aim < a.Aim*(1-1e-9) || b.Speed < a.Speed*(1-1e-9) || b.Flashlight < a.Flashlight*(1-1e-9) || b.Total < a.Total*(1-1e-9) || b.MaxCombo <= a.MaxCombo || b.ObjectCount != a.ObjectCount+1 {
					c.Failf("growth", "one more object lowers the rating (%s): %+v then %+v", modStr(mods), a, b)
					return
				}
			}
			single := osu.CalculateSingle(objs, d)
			single2, peaks := osu.CalculateSingleWithPeaks(objs, d)
			steps2, peaks2 := osu.CalculateStepWithPeaks(objs, d)
			peaks3 := osu.CalculateStrainPeaks(objs, d)
			c.Event("variants", 3)
			if s := sameAttr(single, single2, 1e-9); s != "" {
				c.Failf("single-with-peaks", "CalculateSingle and CalculateSingleWithPeaks differ in %s", s)
			}
			if len(steps2) != len(steps) {
				c.Failf("step-with-peaks", "%d and %d steps", len(steps), len(steps2))
				return
			}
			for i := range steps {
				if s := sameAttr(steps[i], steps2[i], 1e-9); s != "" {
					c.Failf("step-with-peaks", "CalculateStep and CalculateStepWithPeaks differ at %d in %s", i, s)
					return
				}
			}
			if s := samePeaks(peaks, peaks2, 1e-9); s != "" {
				c.Failf("peaks-step", "peaks of CalculateSingleWithPeaks and CalculateStepWithPeaks (%s): %s", modStr(mods), s)
			}
			if s := samePeaks(peaks, peaks3, 1e-9); s != "" {
				c.Failf("peaks-only", "peaks of CalculateSingleWithPeaks and CalculateStrainPeaks (%s): %s", modStr(mods), s)
			}
		},
	})

	register(&core.Check{
		ID:    "C21",
		Rule:  "one random well-formed map: the counts and the maximum combo of the ratings and the counts of the parsed map are compared with what the file says. Non-trivial: the map has a slider with nested points beyond its tail.",
		Quick: 40000, Thorough: 1200000,
		MinEvents: map[string]int64{"maps": 3000, "combo": 3000, "ticks and repeats": 20000, "spinners": 1000, "prefixes": 3000, "lines with several types": 1000, "hold notes": 1000},
		Run: func(c *core.Case) {
			p := ratingProfile(c.R)
			p.PSlider = core.Pick(c.R, 0, 0.3, 0.7, 1)
			p.MaxSlides = core.Pick(c.R, 1, 3, 12)
			m := gen.Random(c.R, p)
			if c.R.P(0.0005) {
				p.N, p.PSlider, p.MaxSlides, p.Gap = c.R.Int(4100, 4600), 0.03, 1, 0
				m = gen.Random(c.R, p)
				c.Event("maps of thousands of objects", 1)
			}
			if c.R.P(0.002) { // tens of thousands of nested points
				m.Objs = m.Objs[:minI(len(m.Objs), 12)]
				for i := range m.Objs {
					if o := &m.Objs[i]; o.Kind == gen.Slider {
						o.Slides, o.EdgeSounds, o.Length = core.Pick(c.R, 9000, c.R.Int(5000, 9000)), nil, float64(c.R.Int(2, 20))
					}
				}
			}
			b := mustParse(c, m.Render(gen.Style{CRLF: true, Spaces: c.R.P(0.1), R: c.R}))
			if b == nil {
				return
			}
			sorted := m.Sorted()
			if len(b.HitObjects) != len(sorted) {
				c.Failf("object-count", "%d objects of %d were read", len(b.HitObjects), len(sorted))
				return
			}
			mods := randMods(c.R)
			d := randDiff(c.R, b.Difficulty, mods)
			c.Event("maps", 1)
			tot := [3]int{}
			combo := make([]int, len(sorted)+1)
			unsure := false
			extra := 0
			cnt := make([][3]int, len(sorted)+1)
			for i, o := range sorted {
				tot[o.Kind]++
				cnt[i+1] = tot
				n := 1
				if o.Kind == gen.Slider {
					st := slideOf(m, &o)
					n = 1 + len(st.Nodes)
					extra += len(st.Nodes) - 1
					if st.Unsure {
						unsure = true
					}
				}
				combo[i+1] = combo[i] + n
			}
			if b.Circles != tot[0] || b.Sliders != tot[1] || b.Spinners != tot[2] {
				c.Failf("map-counts", "the file has %v circles, sliders, spinners; the map says %d %d %d", tot, b.Circles, b.Sliders, b.Spinners)
			}
			c.Event("ticks and repeats", extra)
			c.Event("spinners", tot[2])
			if extra > 0 {
				c.Sig(m.Summary(), combo[len(sorted)])
			}
			k := len(sorted)
			if combo[k] > 65535 {
				c.Event("combos beyond 65535", 1)
			}
			for round := 0; round < 2; round++ {
				a := osu.CalculateSingle(b.HitObjects[:k], d)
				w := cnt[k]
				if a.ObjectCount != k || a.Circles != w[0] || a.Sliders != w[1] || a.Spinners != w[2] {
					c.Failf("counts", "the first %d objects are %v circles, sliders, spinners; the rating says %d: %d %d %d", k, w, a.ObjectCount, a.Circles, a.Sliders, a.Spinners)
				}
				if unsure {
					c.Skip("slider tick on a rounded cut-off")
				} else {
					c.Event("combo", 1)
					if a.MaxCombo != combo[k] {
						c.Failf("combo", "the maximum combo of the first %d objects is %d, the rating says %d", k, combo[k], a.MaxCombo)
					}
				}
				k = c.R.IntN(len(sorted) + 1)
				c.Event("prefixes", 1)
			}

			// hold notes are counted as sliders, but they are no objects
			if text := strings.ReplaceAll(m.Plain(c.R), "\r\n", "\n"); c.R.P(0.1) && strings.Contains(text, "[HitObjects]\n") {
				add, n, last := "", c.R.Int(1, 3), b.Length
				for k := 0; k < n; k++ {
					at := c.R.Int(0, 400000)
					add += fmt.Sprintf("%d,192,%d,%d,0,%d:0:0:0:0:\n", c.R.Int(0, 512), at, core.Pick(c.R, 128, 132), at+100)
					if at+100 > last {
						last = at + 100
					}
				}
				text = strings.Replace(text, "[HitObjects]\n", "[HitObjects]\n"+add, 1)
				if q := mustParse(c, text); q != nil {
					c.Event("hold notes", n)
					if q.Circles != b.Circles || q.Sliders != b.Sliders+n || q.Spinners != b.Spinners || len(q.HitObjects) != len(b.HitObjects) || q.Length != last {
						c.Artifact("holds.osu", text)
						c.Failf("hold-counts", "with %d hold notes there are %d %d %d circles, sliders, spinners, %d objects, length %d, without %d %d %d, %d, %d", n, q.Circles, q.Sliders, q.Spinners, len(q.HitObjects), q.Length, b.Circles, b.Sliders, b.Spinners, len(b.HitObjects), b.Length)
					}
				}
			}

			// lines with several type bits are counted as what they become
			if c.R.P(0.2) {
				lines := strings.Split(m.Plain(c.R), "\n")
				in, changed := false, 0
				for i, l := range lines {
					l = strings.TrimSuffix(l, "\r")
					if strings.HasPrefix(l, "[") {
						in = l == "[HitObjects]"
						continue
					}
					if f := strings.Split(l, ","); in && len(f) > 4 && c.R.P(0.3) {
						f[3] = fmt.Sprint(core.Pick(c.R, 3, 7, 9, 10, 11, 14, 15, 26, 42, 129, 130, 136, 138, 0, 4, 64))
						lines[i] = strings.Join(f, ",")
						changed++
					}
				}
				text := strings.Join(lines, "\n")
				if q, err := beatmap.ParseFromByte([]byte(text)); err == nil && changed > 0 {
					var w [3]int
					for _, o := range q.HitObjects {
						switch o.(type) {
						case *objects.Circle:
							w[0]++
						case *objects.Slider:
							w[1]++
						case *objects.Spinner:
							w[2]++
						}
					}
					c.Event("lines with several types", changed)
					if got := [3]int{q.Circles, q.Sliders, q.Spinners}; got != w {
						c.Artifact("types.osu", text)
						c.Failf("type-counts", "the map has %v circles, sliders, spinners and says %v", w, got)
					}
				}
			}
		},
	})
}

// fullModel rates a map from its hit objects
func fullModel(b *beatmap.BeatMap, d *difficulty.Difficulty) (fs []spec.DObj, a osu.Attributes, ok bool) {
	sd := specDiff(d)
	o := spec.DiffObjects(hosOf(b.HitObjects, d.Mods), sd.Rate, sd.Radius)
	lib := preprocessing.CreateDifficultyObjects(b.HitObjects, d)
	if len(lib) != len(o) {
		return
	}
	for i := range o {
		if o[i].Near {
			return
		}
		// angles between nearly equal points depend on rounding
		if o[i].AngleArm < 0.05 && !math.IsNaN(o[i].Angle) {
			o[i].Angle = lib[i].Angle
		}
	}
	aim, ns := spec.Aim(o, true), spec.Aim(o, false)
	sp := spec.Speed(o, sd.Hit300/sd.Rate)
	isFL, isRX := d.Mods&mFL != 0, d.Mods&mRX != 0
	flv := 0.0
	if isFL {
		flv = spec.Flashlight(o, sd.Radius).Value
	}
	if aim.NearAt < len(o) || sp.NearAt < len(o) || ns.NearAt < len(o) || aim.NearSection {
		return
	}
	w := spec.Rate(aim.Value, ns.Value, sp.Value, flv, isRX, isFL)
	return o, osu.Attributes{Total: w.Total, Aim: w.Aim, SliderFactor: w.SliderFactor, Speed: w.Speed, Flashlight: w.Flashlight}, true
}

// nodeRounding is what summing up the travel of the slider with the most nested points in single precision may cost, relatively
func nodeRounding(b *beatmap.BeatMap) float64 {
	most := 0
	for _, o := range b.HitObjects {
		if s, ok := o.(*objects.Slider); ok {
			if len(s.ScorePoints) > most {
				most = len(s.ScorePoints)
			}
		}
	}
	return 2e-7 * float64(most)
}

func specTPs(m *gen.Map) (l []spec.TPoint) {
	for _, p := range m.TPs {
		l = append(l, spec.TPoint{Time: p.Time, Beat: p.BeatLen, Inherited: p.Inherited && p.Fields > 6})
	}
	return
}

func val(p *float64, def, lo, hi float64) float64 {
	if p == nil {
		return def
	}
	return math.Min(hi, math.Max(lo, *p))
}

// pathOf makes the path of a slider with the library's curves (C07 and C08 decide those)
func pathOf(o *gen.Obj) *curves.MultiCurve {
	return curves.NewMultiCurveT(o.Curve, ctrl(o), o.Length)
}

func ctrl(o *gen.Obj) []vector.Vector2f {
	pts := []vector.Vector2f{{X: o.Pos.X, Y: o.Pos.Y}}
	for _, p := range o.Pts {
		pts = append(pts, vector.Vector2f{X: p.X, Y: p.Y})
	}
	return pts
}

// slideOf is the timing a slider of a map should have
func slideOf(m *gen.Map, o *gen.Obj) spec.SliderTiming {
	tps := specTPs(m)
	i := spec.At(tps, o.Time)
	base, _ := spec.Base(tps, i)
	ratio := 1.0
	noTicks := false
	ratio = spec.Ratio(tps[i].Beat)
	noTicks = math.IsNaN(tps[i].Beat)
	sm := val(m.SM, 1.4, 0.4, 3.6)
	tr := val(m.TR, 1, 0.5, 8)
	v := spec.Velocity(sm, base, ratio)
	slides := o.Slides
	if slides < 1 {
		slides = 1
	}
	return spec.Slide(o.Time, float64(pathOf(o).GetLength()), o.Length, slides, v, tr, sm, ratio, noTicks)
}
