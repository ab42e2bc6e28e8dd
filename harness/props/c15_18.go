package props

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/spec"
)

// ratingProfile shapes maps for the difficulty calculation
func ratingProfile(r *core.Rng) gen.Profile {
	p := gen.DefaultProfile(r)
	p.N = core.Pick(r, 3, 6, 12, 25, 45, 70, 110)
	p.Rhythm = core.Pick(r, 0, 0.1, 0.3, 0.6)
	if r.P(0.5) {
		p.PlainTimes = true
		p.FracTime = false
	}
	if r.P(0.5) { // notes as fast as they are in streams
		p.Beats = []float64{240, 300, 320, 340, 400}
		p.Divs = []float64{4, 4, 4, 3, 2, 8, 1, 16.0 / 5}
	}
	p.Jitter = r.P(0.15)
	if r.P(0.5) {
		p.PJump, p.PStack = 0, core.Pick(r, 0, 0.05, 0.2)
	}
	return p
}

func withinAngle(got, want spec.DObj, tol float64) bool {
	return math.IsNaN(got.Angle) == math.IsNaN(want.Angle) && (math.IsNaN(got.Angle) || math.Abs(got.Angle-want.Angle) <= tol)
}

func init() {
	register(&core.Check{
		ID:    "C15",
		Rule:  "one random well-formed map (streams, jumps, stacks, repeating sliders, spinners, overlaps, pauses) under random mods and playback speeds; its difficulty objects are compared field by field with the model. Non-trivial: at least one difficulty object with a distance.",
		Quick: 60000, Thorough: 1200000,
		MinEvents: map[string]int64{"difficulty objects": 50000, "after slider": 5000, "with angle": 10000, "next to spinner": 1000, "small circles": 1000, "moved through slider": 1000, "continued slider": 500},
		Assumptions: []string{"Stacked and flipped positions, slider positions over time and nested points are taken from the library; C10, C09 and C11 decide those.",
			"Distances are compared to 0.01 + 1e-4 relative, angles to what single precision positions allow; sliders with two equally long endings are left out."},
		Run: func(c *core.Case) {
			m, b := randMap(c, ratingProfile(c.R))
			if b == nil {
				return
			}
			if c.R.P(0.3) {
				b.Difficulty.SetCS(c.R.F(4, 10))
			}
			mods := randMods(c.R)
			d := randDiff(c.R, b.Difficulty, mods)
			sd := specDiff(d)
			got := preprocessing.CreateDifficultyObjects(b.HitObjects, d)
			want := spec.DiffObjects(hosOf(b.HitObjects, mods), sd.Rate, sd.Radius)
			c.Sample("%s, %s", m.Summary(), modStr(mods))
			if len(got) != len(want) {
				c.Failf("count", "%d difficulty objects, expected %d", len(got), len(want))
				return
			}
			dist := false
			for i, o := range got {
				w := want[i]
				g := dobjOf(o, mods)
				c.Event("difficulty objects", 1)
				bad := func(f string, a, b float64) {
					c.Failf("field:"+f, "object %d (%s, %s): %s is %v, the model says %v", i+1, []string{"circle", "slider", "spinner"}[w.Kind], modStr(mods), f, a, b)
				}
				if g.Kind != w.Kind || o.BaseObject.GetID() != i+1 {
					c.Failf("object", "difficulty object %d is about object %d", i, o.BaseObject.GetID())
				}
				for _, f := range []struct {
					n    string
					g, w float64
				}{{"DeltaTime", g.Delta, w.Delta}, {"StartTime", g.Start, w.Start}, {"EndTime", g.End, w.End}, {"StrainTime", g.Strain, w.Strain}, {"MovementTime", g.MovementTime, w.MovementTime}, {"TravelTime", g.TravelTime, w.TravelTime}} {
					if !near(f.g, f.w, 1e-9, 1e-7) {
						bad(f.n, f.g, f.w)
					}
				}
				if w.Near {
					c.Skip("slider with two equally long endings")
					continue
				}
				tol := 0.01
				for _, f := range []struct {
					n    string
					g, w float64
				}{{"JumpDistance", g.Jump, w.Jump}, {"MovementDistance", g.Movement, w.Movement}, {"TravelDistance", g.Travel, w.Travel}} {
					rel, abs := 1e-4, tol
					if s, ok := b.HitObjects[i].(*objects.Slider); ok {
						n := float64(len(s.ScorePoints)) // the way is followed and summed up in single precision
						drift := 3e-5 * n * 50 / d.CircleRadius
						if f.n == "TravelDistance" {
							rel += 2e-7 * n
							drift *= math.Pow(1+float64(s.RepeatCount)/2.5, 0.4)
						}
						abs += drift
					}
					if !near(f.g, f.w, rel, abs) {
						bad(f.n, f.g, f.w)
					}
				}
				switch {
				case math.IsNaN(w.Angle) || math.IsNaN(g.Angle):
					if !withinAngle(g, w, 0) {
						bad("Angle", g.Angle, w.Angle)
					}
				case w.AngleArm == 0 && !withinAngle(g, w, 1e-4) && !near(g.Angle+w.Angle, math.Pi, 0, 1e-4):
					bad("Angle", g.Angle, w.Angle) // the sign of a zero decides between 0 and pi
				case w.AngleArm < 0.05:
					c.Skip("angle between nearly equal points")
				case !withinAngle(g, w, 1e-4+4e-3/math.Max(w.AngleArm, 0.05)):
					bad("Angle", g.Angle, w.Angle)
				default:
					c.Event("with angle", 1)
				}
				if w.Jump > 0 {
					dist = true
				}
				if w.TravelTime > 0 {
					c.Event("after slider", 1)
					if w.Travel > 0 {
						c.Event("moved through slider", 1)
					}
					if w.Movement > 0 && w.Movement < w.Jump-30.001 {
						c.Event("continued slider", 1)
					}
				}
				if w.Jump == 0 && (w.Kind == spec.KSpinner || b.HitObjects[i].GetType() == 8) {
					c.Event("next to spinner", 1)
				}
				if sd.Radius < 30 {
					c.Event("small circles", 1)
				}
			}
			if dist {
				c.Sig(m.Summary(), modStr(mods), lg(int(sd.Radius*10)))
			}
		},
	})

	register(&core.Check{
		ID:    "C16",
		Rule:  "one random well-formed map under random mods; the strain of both aim skills after every difficulty object is compared with the model computed from the difficulty objects' own fields. Non-trivial: at least three objects.",
		Quick: 45000, Thorough: 900000,
		MinEvents:   map[string]int64{"strains": 100000, "same rhythm": 5000, "acute bonus": 300, "wide bonus": 3000, "rhythm change": 2000, "slider velocity decides": 500, "125% boundary": 20},
		Assumptions: []string{"Difficulty objects are the library's own (C15 decides those)."},
		Run: func(c *core.Case) {
			_, b := randMap(c, ratingProfile(c.R))
			if b == nil {
				return
			}
			mods := randMods(c.R)
			d := randDiff(c.R, b.Difficulty, mods)
			objs := preprocessing.CreateDifficultyObjects(b.HitObjects, d)
			o := dobjsOf(objs, mods)
			if len(o) > 2 {
				c.Sig(len(o), modStr(mods), o[len(o)-1].Start)
			}
			for _, sliders := range []bool{true, false} {
				w := spec.Aim(o, sliders)
				s := skills.NewAimSkill(d, sliders)
				for i, do := range objs {
					s.Process(do)
					if i >= w.NearAt {
						c.Skip("rhythm ratio on a rounded threshold")
						break
					}
					c.Event("strains", 1)
					if !near(s.CurrentStrain, w.Strains[i], 1e-8, 1e-9) {
						c.Failf("strain", "aim (sliders: %v, %s) strain after object %d is %v, the model says %v", sliders, modStr(mods), i+1, s.CurrentStrain, w.Strains[i])
						return
					}
					if i >= 2 && sliders {
						aimEvents(c, o, i)
					}
				}
			}
		},
	})

	register(&core.Check{
		ID:    "C17",
		Rule:  "one random well-formed map under random mods; speed strain, rhythm multiplier after every difficulty object and section peaks are compared with the model. Non-trivial: a map with a rhythm multiplier above 1.",
		Quick: 60000, Thorough: 1200000,
		MinEvents:   map[string]int64{"strains": 100000, "complex rhythm": 10000, "below 75 ms": 3000, "capped by hit window": 3000, "doubles nerf": 1000, "spinners": 500, "beyond 32 objects": 5000, "accelerations around 10 ms": 500},
		Assumptions: []string{"Difficulty objects are the library's own (C15 decides those)."},
		Run: func(c *core.Case) {
			p := ratingProfile(c.R)
			p.Rhythm = core.Pick(c.R, 0.1, 0.3, 0.6, 0.9)
			if c.R.P(0.4) { // a few rhythms only, with exact ratios
				p.PlainTimes = true
				p.Beats = []float64{core.Pick(c.R, 240.0, 300, 400, 480, 600, 1000)}
				p.Divs = core.Pick(c.R, []float64{4, 2}, []float64{4, 3.2}, []float64{4, 5, 1}, []float64{4, 3, 2, 1, 1.25}, []float64{8, 6, 4})
			}
			if c.R.P(0.3) {
				p.PSlider = core.Pick(c.R, 0, 0.1)
			}
			p.Jitter = c.R.P(0.35)
			_, b := randMap(c, p)
			if b == nil {
				return
			}
			mods := randMods(c.R)
			d := randDiff(c.R, b.Difficulty, mods)
			sd := specDiff(d)
			window := sd.Hit300 / sd.Rate
			objs := preprocessing.CreateDifficultyObjects(b.HitObjects, d)
			o := dobjsOf(objs, mods)
			w := spec.Speed(o, window)
			s := skills.NewSpeedSkill(d)
			complex := false
			for i, do := range objs {
				s.Process(do)
				if !near(s.CurrentStrain, w.Strains[i], 1e-8, 1e-9) {
					c.Failf("strain", "speed (%s) strain after object %d is %v, the model says %v", modStr(mods), i+1, s.CurrentStrain, w.Strains[i])
					return
				}
				if i >= w.NearAt {
					c.Skip("rhythm ratio on a rounded threshold")
					break
				}
				c.Event("strains", 1)
				if !near(s.CurrentRhythm, w.Rhythm[i], 1e-6, 1e-9) {
					c.Failf("rhythm", "rhythm multiplier (%s) at object %d is %v, the model says %v", modStr(mods), i+1, s.CurrentRhythm, w.Rhythm[i])
					return
				}
				if w.Rhythm[i] > 1 {
					complex = true
					c.Event("complex rhythm", 1)
				}
				if i > 2 && o[i-2].Strain > o[i-1].Strain+8 && o[i-1].Strain > o[i].Strain+8 && (o[i-2].Strain < o[i-1].Strain+12 || o[i-1].Strain < o[i].Strain+12) {
					c.Event("accelerations around 10 ms", 1)
				}
				if o[i].Strain < 75 {
					c.Event("below 75 ms", 1)
				}
				if o[i].Strain < 2*window*0.93 {
					c.Event("capped by hit window", 1)
				}
				if i > 0 && o[i].Strain < 2*window && o[i-1].Strain > o[i].Strain {
					c.Event("doubles nerf", 1)
				}
				if o[i].Kind == spec.KSpinner {
					c.Event("spinners", 1)
				}
				if i > 32 {
					c.Event("beyond 32 objects", 1)
				}
			}
			if complex {
				c.Sig(len(o), modStr(mods), o[len(o)-1].Start)
			}
			if w.NearAt == len(o) && !w.NearSection && !checkPeaks(c, "speed", s.GetCurrentStrainPeaks(), w.Peaks, 1e-6) {
				return
			}
		},
	})

	register(&core.Check{
		ID:    "C18",
		Rule:  "one random well-formed map with FL and random other mods; the flashlight strain after every difficulty object is compared with the model. Non-trivial: at least three objects.",
		Quick: 45000, Thorough: 900000,
		MinEvents:   map[string]int64{"strains": 80000, "stacked": 3000, "near": 5000, "spinner in history": 2000, "full history": 10000},
		Assumptions: []string{"Difficulty objects and positions are the library's own (C15, C11 decide those)."},
		Run: func(c *core.Case) {
			_, b := randMap(c, ratingProfile(c.R))
			if b == nil {
				return
			}
			mods := randMods(c.R) | mFL
			d := randDiff(c.R, b.Difficulty, mods)
			sd := specDiff(d)
			objs := preprocessing.CreateDifficultyObjects(b.HitObjects, d)
			o := dobjsOf(objs, mods)
			w := spec.Flashlight(o, sd.Radius)
			s := skills.NewFlashlightSkill(d)
			if len(o) > 2 {
				c.Sig(len(o), modStr(mods), o[len(o)-1].Start)
			}
			for i, do := range objs {
				s.Process(do)
				c.Event("strains", 1)
				if !near(s.CurrentStrain, w.Strains[i], 2e-5, 1e-8) {
					c.Failf("strain", "flashlight (%s) strain after object %d is %v, the model says %v", modStr(mods), i+1, s.CurrentStrain, w.Strains[i])
					return
				}
				if i > 0 && o[i-1].Jump < 25 {
					c.Event("stacked", 1)
				}
				if i > 0 && o[i].Pos.Dist(o[i-1].Tail) < 75 {
					c.Event("near", 1)
				}
				if i >= 10 {
					c.Event("full history", 1)
				}
				for k := 1; k <= 10 && k <= i; k++ {
					if o[i-k].Kind == spec.KSpinner {
						c.Event("spinner in history", 1)
						break
					}
				}
			}
		},
	})
}

func aimEvents(c *core.Case, o []spec.DObj, i int) {
	cur, last := o[i], o[i-1]
	long, short := math.Max(cur.Strain, last.Strain), math.Min(cur.Strain, last.Strain)
	if long == 1.25*short {
		c.Event("125% boundary", 1)
	}
	if long < 1.25*short {
		c.Event("same rhythm", 1)
		if cur.Angle < 1 && last.Angle < 1 && cur.Strain < 100 && cur.Jump > 50 {
			c.Event("acute bonus", 1)
		}
		if cur.Angle > 1.5 {
			c.Event("wide bonus", 1)
		}
	} else {
		c.Event("rhythm change", 1)
	}
	if last.Kind == spec.KSlider && cur.TravelTime > 0 && cur.Movement/cur.MovementTime+cur.Travel/cur.TravelTime > cur.Jump/cur.Strain {
		c.Event("slider velocity decides", 1)
	}
}

// checkPeaks compares section peaks
func checkPeaks(c *core.Case, what string, got, want []float64, rel float64) bool {
	if len(got) != len(want) {
		c.Failf("sections:"+what, "%s has %d section peaks, the model says %d", what, len(got), len(want))
		return false
	}
	for i := range got {
		if !near(got[i], want[i], rel, 1e-9) {
			c.Failf("peak:"+what, "%s peak of section %d is %v, the model says %v", what, i, got[i], want[i])
			return false
		}
		c.Event("section peaks", 1)
	}
	return true
}

var _ = difficulty.None
