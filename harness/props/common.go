// Package props holds the monitors, one per property.
package props

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/spec"
)

var registry = map[string]*core.Check{}

func register(c *core.Check) { registry[c.ID] = c }

// All lists the checks
func All() (l []*core.Check) {
	for _, c := range registry {
		l = append(l, c)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	return
}

// Get finds a check
func Get(id string) *core.Check { return registry[id] }

// close tells whether two numbers agree up to a relative and an absolute tolerance; NaNs agree with each other
func near(a, b, rel, abs float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= abs+rel*math.Max(math.Abs(a), math.Abs(b))
}

// beyond tells whether a deviation is beyond its tolerance or not a number
func beyond(d, tol float64) bool { return !(d <= tol) }

func v2(v vector.Vector2f) spec.V2 { return spec.V2{X: float64(v.X), Y: float64(v.Y)} }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// mustParse parses a map that is well-formed
func mustParse(c *core.Case, text string) *beatmap.BeatMap {
	c.Artifact("map.osu", text)
	b, err := beatmap.ParseFromByte([]byte(text))
	if err != nil || b == nil {
		c.Failf("parse-error", "a well-formed map is refused: %v", err)
		return nil
	}
	return b
}

// randMap makes a random well-formed map and parses it
func randMap(c *core.Case, p gen.Profile) (*gen.Map, *beatmap.BeatMap) {
	m := gen.Random(c.R, p)
	b := mustParse(c, m.Render(gen.Style{CRLF: true, Spaces: c.R.P(0.1), R: c.R}))
	if b != nil && len(b.HitObjects) != len(m.Objs) {
		c.Failf("object-count", "%d objects of %d were read", len(b.HitObjects), len(m.Objs))
		return m, nil
	}
	return m, b
}

const (
	mNF  = difficulty.NoFail
	mEZ  = difficulty.Easy
	mTD  = difficulty.TouchDevice
	mHD  = difficulty.Hidden
	mHR  = difficulty.HardRock
	mSD  = difficulty.SuddenDeath
	mDT  = difficulty.DoubleTime
	mRX  = difficulty.Relax
	mHT  = difficulty.HalfTime
	mNC  = difficulty.Nightcore
	mFL  = difficulty.Flashlight
	mSO  = difficulty.SpunOut
	mV2  = difficulty.ScoreV2
	mDC  = difficulty.Daycore
	mAP  = difficulty.Relax2
	mPF  = difficulty.Perfect
	none = difficulty.None
)

// randMods picks mods a player could pick
// irrelevant are mods that change neither ratings nor performance
const irrelevant = ^(mNF | mEZ | mHD | mHR | mDT | mHT | mNC | mDC | mRX | mFL | mSO | mTD | mV2) & (1<<32 - 1)

func randMods(r *core.Rng) difficulty.Modifier {
	m := core.Pick(r, none, none, mHR, mEZ)
	m |= core.Pick(r, none, none, none, mDT, mHT, mDT|mNC, mHT|mDC)
	m |= core.Pick(r, none, none, mHD)
	m |= core.Pick(r, none, none, mFL)
	m |= core.Pick(r, none, none, none, none, mRX)
	m |= core.Pick(r, none, none, none, mNF)
	m |= core.Pick(r, none, none, none, mSO)
	m |= core.Pick(r, none, none, none, none, mTD)
	m |= core.Pick(r, none, none, none, none, mV2)
	if r.P(0.12) { // and mods that change nothing
		m |= difficulty.Modifier(r.Int64N(1<<32)) & irrelevant
	}
	return m
}

// randDiff puts mods and sometimes another speed on the difficulty of a map
func randDiff(r *core.Rng, d *difficulty.Difficulty, mods difficulty.Modifier) *difficulty.Difficulty {
	d.SetMods(mods)
	if r.P(0.1) {
		d.SetCustomSpeed(core.Pick(r, 1.1, 1.25, 0.8, 2, 0.5))
	}
	return d
}

// specDiff is the model's idea of a difficulty
func specDiff(d *difficulty.Difficulty) *spec.Diff {
	return spec.NewDiff(d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), int64(d.Mods), d.CustomSpeed)
}

// kindOf classifies a hit object
func kindOf(o objects.IHitObject) int {
	switch o.(type) {
	case *objects.Slider, *preprocessing.LazySlider:
		return spec.KSlider
	case *objects.Spinner:
		return spec.KSpinner
	}
	return spec.KCircle
}

// sliderOf returns the slider an object is, or nil
func sliderOf(o objects.IHitObject) *objects.Slider {
	switch s := o.(type) {
	case *objects.Slider:
		return s
	case *preprocessing.LazySlider:
		return s.Slider
	}
	return nil
}

// hoOf shows a hit object to the model the way the difficulty calculation sees it
func hoOf(o objects.IHitObject, mods difficulty.Modifier) *spec.HO {
	h := &spec.HO{Kind: kindOf(o), Start: o.GetStartTime(), End: o.GetEndTime(),
		Pos: v2(o.GetStackedStartPositionMod(mods)), Tail: v2(o.GetStackedEndPositionMod(mods))}
	if s := sliderOf(o); s != nil {
		h.Slides = s.RepeatCount
		for _, p := range s.ScorePoints {
			h.Nodes = append(h.Nodes, spec.Node{Time: p.Time, Reverse: p.IsReverse})
		}
		h.At = func(t float64) spec.V2 { return v2(s.GetStackedPositionAtMod(t, mods)) }
	}
	return h
}

func hosOf(objs []objects.IHitObject, mods difficulty.Modifier) (l []*spec.HO) {
	for _, o := range objs {
		l = append(l, hoOf(o, mods))
	}
	return
}

// dobjOf shows a difficulty object of the library to the model of a skill
func dobjOf(o *preprocessing.DifficultyObject, mods difficulty.Modifier) spec.DObj {
	return spec.DObj{Kind: kindOf(o.BaseObject), Delta: o.DeltaTime, Start: o.StartTime, End: o.EndTime, Strain: o.StrainTime,
		Jump: o.JumpDistance, Movement: o.MovementDistance, Travel: o.TravelDistance, Angle: o.Angle,
		MovementTime: o.MovementTime, TravelTime: o.TravelTime,
		Pos: v2(o.BaseObject.GetStackedStartPositionMod(mods)), Tail: v2(o.BaseObject.GetStackedEndPositionMod(mods))}
}

func dobjsOf(l []*preprocessing.DifficultyObject, mods difficulty.Modifier) (r []spec.DObj) {
	for _, o := range l {
		r = append(r, dobjOf(o, mods))
	}
	return
}

func modStr(m difficulty.Modifier) string {
	var l []string
	for _, i := range spec.ModString(int64(m)) {
		l = append(l, spec.ModNames[i])
	}
	if l == nil {
		return "NM"
	}
	return strings.Join(l, "")
}

func bucket(v float64, limits ...float64) string {
	for i, l := range limits {
		if v < l {
			return fmt.Sprint(i)
		}
	}
	return fmt.Sprint(len(limits))
}

// log2 bucket for signatures
func lg(n int) int { return int(math.Log2(float64(n + 1))) }

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
