package gen

import (
	"math"

	"verifharness/core"
)

// Profile shapes random maps
type Profile struct {
	N          int
	PSlider    float64
	PSpinner   float64
	Curves     string  // curve types used
	PStack     float64 // chance that an object sits on (or near) an earlier one
	PJump      float64 // chance of a large jump rather than a stream step
	Shuffle    bool    // objects are not in time order in the file
	FracTime   bool    // fractional object times
	FracPos    bool
	Overlap    float64 // chance that the next object starts during the previous one
	SameTime   float64
	Rhythm     float64 // chance of changing the rhythm
	Greens     float64 // density of inherited points
	NaNBeats   bool
	MaxSlides  int
	Gap        float64 // chance of a long pause
	StartTime  float64
	PlainTimes bool    // beat lengths are whole milliseconds
	DivTimes   bool    // object times on a grid of 1/16 ms
	Turn       float64 // how much each step of a pattern turns
	TurnVar    float64
	Spacing    float64   // length of the steps, 0: varying
	Beats      []float64 // beat lengths used, nil: usual ones
	Divs       []float64 // beat divisors used, nil: usual ones
	PNoLen     float64   // chance that a slider has all its points in one place
	Big        float64   // chance of hundreds or thousands of objects
	PPasses    float64   // chance that a slider has dozens or hundreds of passes
	PPoints    float64   // chance that a slider has hundreds of control points
	Tower      bool      // most objects follow each other quickly in one place
	Jitter     bool      // gaps change by a few milliseconds instead of keeping to the beat
}

func DefaultProfile(r *core.Rng) Profile {
	p := Profile{
		N:         core.Pick(r, 1, 2, 3, 5, 8, 12, 20, 30, 45),
		PSlider:   core.Pick(r, 0, 0.1, 0.3, 0.6, 1),
		PSpinner:  core.Pick(r, 0, 0, 0.03, 0.15),
		Curves:    core.Pick(r, "L", "LPB", "LPBC", "B", "P"),
		PStack:    core.Pick(r, 0, 0.1, 0.4, 0.8),
		PJump:     core.Pick(r, 0.1, 0.5, 0.9),
		Rhythm:    core.Pick(r, 0, 0.1, 0.5),
		Overlap:   core.Pick(r, 0, 0, 0.05, 0.3),
		SameTime:  core.Pick(r, 0, 0, 0, 0.05),
		Greens:    core.Pick(r, 0, 0.1, 0.5),
		MaxSlides: core.Pick(r, 1, 2, 4, 9),
		Gap:       core.Pick(r, 0, 0.02, 0.1),
		StartTime: core.Pick(r, 0.0, 400, 1040, -230, 99999, 7),
		FracTime:  r.P(0.15),
		FracPos:   r.P(0.2),
		Shuffle:   r.P(0.15),
		NaNBeats:  r.P(0.05),
		Turn:      core.Pick(r, 0.0, 0, 0.5, math.Pi/2, 2.2, math.Pi),
		TurnVar:   core.Pick(r, 0.05, 0.4, 1),
		Spacing:   core.Pick(r, 0.0, 0, 30, 60, 90, 140),
	}
	if r.P(0.1) {
		p.PNoLen = 0.1
	}
	if r.P(0.03) { // hours into the song, where single precision is too coarse for times
		p.StartTime = core.Pick(r, 3600000.0, 1<<23+1, 1<<24+1, 33333333)
	}
	p.Big = 0.003
	if r.P(0.03) { // crawling and racing tempos
		p.Beats = core.Pick(r, []float64{2500, 6000, 1000}, []float64{30, 45, 60}, []float64{7.5, 20, 3000}, []float64{12345.678, 333.333333})
	}
	p.PPasses = 0.001
	return p
}

func rnd2(r *core.Rng, lo, hi float64) float64 {
	switch r.IntN(6) {
	case 0:
		return math.Round(r.F(lo, hi))
	case 1:
		return core.Pick(r, lo, hi, 5, 5.5, 4.5)
	case 2:
		return math.Round(r.F(lo, hi)*10) / 10
	default:
		return math.Round(r.F(lo, hi)*100) / 100
	}
}

var words = []string{"Lost", "Umbrella", "Save: Me", "[tragedy]", "稲葉曇", "ロスト", "Ω≈ç", "a,b;c", "it's", "\"quoted\"", "100%", "e = mc²", "🎵", "x//y", "C:\\dir\\", "no\u00a0break", "l\u2028s", "n\u0085l", "bom\ufeffin", "v\vt\ff", "a\tb"}

func Words(r *core.Rng, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += " "
		}
		s += words[r.IntN(len(words))]
	}
	return s
}

// Header fills everything but timing points and objects
func Header(r *core.Rng) *Map {
	m := &Map{
		Version: core.Pick(r, 3, 4, 5, 5, 6, 7, 8, 9, 10, 12, 13, 14, 14, 14, 128),
		Audio:   core.Pick(r, "audio.mp3", "audio.mp3", "01 - a: b.ogg", "x,y.mp3", "[live] 1.mp3", "a//b.mp3"), PreviewTime: int64(r.Int(-1, 300000)),
		Title: Words(r, r.Int(1, 3)), Artist: Words(r, 1), Creator: Words(r, 1),
		Diff: Words(r, r.Int(1, 2)), MapID: int64(r.Int(-1, 5000000)), SetID: int64(r.Int(-1, 2000000)),
		HP: FP(rnd2(r, 0, 10)), CS: FP(rnd2(r, 0, 7)), OD: FP(rnd2(r, 0, 10)), AR: FP(rnd2(r, 0, 10)),
		SM: FP(core.Pick(r, 0.4, 0.8, 1, 1.4, 1.6, 1.8, 2, 2.4, 3.6, math.Round(r.F(0.4, 3.6)*100)/100)),
		TR: FP(core.Pick(r, 0.5, 1, 1, 1, 2, 2, 3, 4, 8)),
	}
	if r.P(0.8) {
		m.TitleU, m.ArtistU = Words(r, 2), Words(r, 1)
	}
	if r.P(0.5) {
		m.Source, m.Tags = Words(r, 1), Words(r, 5)
	}
	if r.P(0.7) {
		m.Leniency = FP(core.Pick(r, 0, 0.2, 0.5, 0.7, 0.7, 1, math.Round(r.F(0, 1)*10)/10))
		if r.P(0.1) {
			m.Leniency = FP(core.Pick(r, 0.15, 0.333, 1.5, 2, 5))
		}
	}
	if r.P(0.15) {
		m.AR = nil
	}
	if r.P(0.7) {
		m.Bg = core.Pick(r, "bg.jpg", "BG 1.png", "背景.jpg")
	}
	return m
}

func (m *Map) leniency() float64 {
	if m.Leniency == nil {
		return 0.7
	}
	return *m.Leniency
}

// preempt of the map, for timing objects around the stacking threshold
func (m *Map) preempt(scale float64) float64 {
	ar := 5.0
	if m.AR != nil {
		ar = *m.AR
	} else if m.OD != nil {
		ar = *m.OD
	}
	ar = math.Min(10, math.Max(0, ar)*scale)
	if ar > 5 {
		return 1200 - 150*(ar-5)
	}
	return 1200 + 120*(5-ar)
}

func clampPos(v Vec) Vec {
	c := func(x, hi float32) float32 {
		if x < 0 {
			return 0
		}
		if x > hi {
			return hi
		}
		return x
	}
	return Vec{c(v.X, 512), c(v.Y, 384)}
}

func randPos(r *core.Rng, frac bool) Vec {
	if frac {
		return Vec{float32(math.Round(r.F(0, 512)*8) / 8), float32(math.Round(r.F(0, 384)*8) / 8)}
	}
	return Vec{float32(r.Int(0, 512)), float32(r.Int(0, 384))}
}

// NewSlider makes the control points and the length of a slider starting at pos
func NewSlider(r *core.Rng, pos Vec, curve string, frac bool) (pts []Vec, length float64) {
	near := func(p Vec, d float64) Vec {
		a := r.F(0, 2*math.Pi)
		v := clampPos(Vec{p.X + float32(math.Round(math.Cos(a)*d)), p.Y + float32(math.Round(math.Sin(a)*d))})
		if frac && r.P(0.5) {
			v.X += 0.25
		}
		return v
	}
	n := 1
	switch curve {
	case "L":
		n = core.Pick(r, 1, 1, 1, 2, 3, 5)
	case "P":
		n = core.Pick(r, 2, 2, 2, 2, 2, 1, 3)
	case "B":
		n = core.Pick(r, 1, 2, 3, 4, 6, 9)
	case "C":
		n = core.Pick(r, 1, 2, 3, 5)
	}
	if r.P(0.01) && curve != "P" {
		n = core.Pick(r, 13, 20, 40, 70)
	}
	p := pos
	total := 0.0
	straight := 0 // how many points at even distances on a line come first
	if n >= 13 && r.P(0.5) {
		straight = r.Int(n/2, n-2)
	}
	dx, dy := float32(3), float32(2)
	if pos.X > 256 {
		dx = -3
	}
	if pos.Y > 192 {
		dy = -2
	}
	step := core.Pick(r, 20.0, 60, 100, 160)
	for i := 0; i < n; i++ {
		q := near(p, r.F(step/2, step*1.5))
		if q == p {
			q.X = p.X + 7
		}
		if i < straight {
			q = Vec{p.X + dx, p.Y + dy}
		}
		total += math.Hypot(float64(q.X-p.X), float64(q.Y-p.Y))
		pts = append(pts, q)
		if curve == "B" && i < n-1 && i >= straight && r.P(core.Pick(r, 0, 0.3, 0.5)) {
			pts = append(pts, q) // red anchor
		}
		if curve == "L" && i < n-1 && r.P(0.15) {
			pts = append(pts, q)
		}
		p = q
	}
	switch r.IntN(8) {
	case 0:
		length = total * r.F(0.2, 0.8)
	case 1:
		length = total * r.F(1.0, 1.6)
	case 2:
		length = math.Round(total)
	default:
		length = total * r.F(0.7, 1.05)
	}
	switch r.IntN(3) {
	case 0:
		length = math.Round(length)
	case 1:
		length = math.Round(length*1000) / 1000
	}
	if length < 1 {
		length = 1
	}
	return
}

// Random makes a well-formed map whose numbers are in the editor's ranges
func Random(r *core.Rng, p Profile) *Map {
	m := Header(r)
	m.Fill(r, p)
	return m
}

// Fill adds timing points and objects
func (m *Map) Fill(r *core.Rng, p Profile) {
	bpms := []float64{60, 90, 120, 128, 150, 174, 180, 200, 222, 240, 260, 300}
	if p.Beats != nil {
		bpms = nil
		for _, b := range p.Beats {
			bpms = append(bpms, 60000/b)
			if b > 1200 { // many objects or passes would last for hours
				p.Big, p.PPasses, p.N = 0, 0, minInt(p.N, 20)
			}
		}
	}
	beat := 60000 / bpms[r.IntN(len(bpms))]
	if p.PlainTimes || r.P(0.3) {
		beat = math.Round(beat)
	}
	t := p.StartTime
	sv := 1.0
	frac := func(v float64) float64 {
		if p.DivTimes {
			return math.Round(v*16) / 16
		}
		if p.FracTime && r.P(0.5) {
			return math.Round(v*1000) / 1000
		}
		return math.Round(v)
	}
	tp := func(time, bl float64, inh bool) {
		pt := TP{Time: math.Round(time), BeatLen: bl, Meter: core.Pick(r, 4, 4, 3, 6, 7, 1, 0), Set: r.Int(0, 3), Index: r.Int(0, 9), Volume: r.Int(5, 100), Inherited: inh, Effects: core.Pick(r, 0, 0, 1, 8, 9, 2, 5, 12), Fields: 8}
		if !inh {
			pt.Fields = core.Pick(r, 8, 8, 8, 7, 6, 5, 4, 3, 2)
		} else {
			pt.Fields = core.Pick(r, 8, 8, 7)
		}
		// a point with fewer than 7 fields is uninherited
		m.TPs = append(m.TPs, pt)
	}
	off := core.Pick(r, 0.0, 0, -1000, 1500)
	if p.PSlider == 0 || off <= 0 {
		tp(t+off, beat, false)
	} else {
		tp(t, beat, false)
	}

	div := core.Pick(r, 1.0, 2, 2, 4, 4, 3)
	if p.Divs != nil {
		div = core.Pick(r, p.Divs...)
	}
	threshold := func() float64 {
		return math.Floor(m.preempt(core.Pick(r, 1.0, 1.0, 0.5, 1.4))*m.leniency()) + core.Pick(r, 0.0, 0, 1, -1)
	}
	pos := randPos(r, p.FracPos)
	var prevEnd Vec
	gap := core.Pick(r, 80.0, 120, 170, 250)
	lastEnd := t
	dir := r.F(0, 2*math.Pi)
	n := p.N
	if r.P(p.Big) {
		n = core.Pick(r, 200, 350, 600, 1100, 2500)
	}
	for i := 0; i < n; i++ {
		if r.P(p.Rhythm) {
			div = core.Pick(r, 1.0, 2, 4, 3, 6, 8, 1.5, 4.0/3)
			if p.Divs != nil {
				div = core.Pick(r, p.Divs...)
			}
		}
		if r.P(p.Greens) {
			if r.P(0.25) {
				beat = 60000 / bpms[r.IntN(len(bpms))]
				if p.PlainTimes {
					beat = math.Round(beat)
				}
				tp(t, beat, false)
				sv = 1
			} else {
				sv = core.Pick(r, 0.1, 0.5, 0.75, 1, 1.25, 1.5, 2, 4, 10, 12, 0.05, math.Round(r.F(0.2, 3)*100)/100)
				bl := -100 / sv
				if p.NaNBeats && r.P(0.3) {
					bl = math.NaN()
				}
				if r.P(0.05) {
					bl = core.Pick(r, 50, 100.0) // an inherited point with a positive beat length has no effect on velocity
				}
				tp(t+core.Pick(r, 0.0, 0, 0, -1, 1, 2), bl, true)
			}
		}
		o := Obj{Kind: Circle, Pos: pos, Time: frac(t), NewCombo: r.P(0.25), Sound: core.Pick(r, 0, 0, 2, 4, 8, 14), Extras: r.Int(0, 1)}
		if r.P(0.1) {
			o.ColorOff = r.Int(0, 7)
		}
		dur := 0.0
		switch x := r.Float64(); {
		case x < p.PSpinner:
			o.Kind = Spinner
			if !r.P(0.15) { // usually, but not always in the middle
				o.Pos = Vec{256, 192}
			}
			dur = core.Pick(r, 0.0, beat, 4*beat, 8*beat, 333)
			o.End = frac(o.Time + dur)
			dur = o.End - o.Time
		case x < p.PSpinner+p.PSlider:
			o.Kind = Slider
			o.Curve = string(p.Curves[r.IntN(len(p.Curves))])
			o.Slides = 1
			if p.MaxSlides > 1 && r.P(0.4) {
				o.Slides = r.Int(1, p.MaxSlides)
			}
			if r.P(p.PPasses) {
				o.Slides = core.Pick(r, 33, 100, 101, 257)
				if p.PPasses >= 0.005 {
					o.Slides = core.Pick(r, 100, 700, 2001, 5000)
				}
			}
			o.Pts, o.Length = NewSlider(r, o.Pos, o.Curve, p.FracPos)
			if p.PPoints > 0 && r.P(p.PPoints) {
				o.Curve = core.Pick(r, "L", "L", "C")
				for k, n := 0, core.Pick(r, 65, 129, 257, 300, 520, 1100); k < n; k++ {
					q := o.Pts[len(o.Pts)-1]
					o.Pts = append(o.Pts, clampPos(Vec{q.X + float32(r.Int(-30, 30)), q.Y + float32(r.Int(2, 25)*(1-2*(k/8%2)))}))
				}
				o.Length = math.Round(float64(len(o.Pts)) * r.F(8, 14))
			}
			if p.PNoLen > 0 && r.P(p.PNoLen) {
				for k := range o.Pts {
					o.Pts[k] = o.Pos
				}
			}
			if m.SM != nil && r.P(0.4) { // lengths on the tick grid, as editors make them
				snap := 100 * *m.SM * sv / core.Pick(r, 1.0, 2, 4)
				if k := math.Round(o.Length / snap); k >= 1 && k*snap < 800 {
					o.Length = k * snap
				}
			}
			if r.P(0.5) {
				n := o.Slides + 1
				if r.P(0.2) {
					n = r.Int(1, o.Slides+3)
				}
				o.EdgeSounds = make([]int, n)
				for k := range o.EdgeSounds {
					o.EdgeSounds[k] = core.Pick(r, 0, 2, 4, 8)
				}
			}
			sm := 1.4
			if m.SM != nil {
				sm = *m.SM
			}
			dur = o.Length / (100 * sm * math.Min(10, math.Max(0.1, sv))) * beat * float64(o.Slides)
			prevEnd = o.Pts[len(o.Pts)-1]
			if o.Slides%2 == 0 {
				prevEnd = o.Pos
			}
		}
		m.Objs = append(m.Objs, o)
		lastEnd = math.Max(lastEnd, o.Time+dur)

		// next time
		switch {
		case p.Tower && r.P(0.98):
			t = o.Time + dur + core.Pick(r, 10.0, 20, 45)
		case r.P(p.SameTime):
			// stay
		case r.P(p.Overlap):
			t = o.Time + math.Max(1, dur*r.F(0, 1))
		case p.PStack > 0 && r.P(0.15):
			t = o.Time + dur + math.Max(1, threshold())
		case p.Jitter: // gaps that are close to each other but off the beat
			gap += core.Pick(r, 0.0, 0, 0, -1, 1, -9, 9, -10, 10, -11, 11, -12, 13, -25, 30)
			if r.P(0.2) {
				gap = core.Pick(r, 60.0, 100, 150, 200, 320)
			}
			gap = math.Max(28, math.Min(600, gap))
			t = math.Max(o.Time+gap, o.Time+dur)
		case r.P(p.Gap):
			t = o.Time + dur + core.Pick(r, 2000.0, 5001, 12345)
			if n <= 20 && r.P(0.01) { // most of an hour without an object
				t += 2.4e6
			}
		default:
			t = o.Time + dur + beat/div
			if r.P(0.3) { // stay on the whole beat grid
				t = o.Time + math.Round(dur+beat/div)
			}
		}
		if p.DivTimes {
			t = math.Round(t*16) / 16
		}

		// next position
		switch {
		case p.Tower && r.P(0.97):
			pos = m.Objs[0].Pos
		case r.P(p.PStack) && len(m.Objs) > 0:
			q := m.Objs[len(m.Objs)-1-r.IntN(minInt(len(m.Objs), 4))]
			pos = q.Pos
			if q.Kind == Slider && r.P(0.5) {
				pos = q.Pts[len(q.Pts)-1]
			}
			if r.P(0.1) {
				pos = prevEnd
			}
			d := core.Pick(r, Vec{}, Vec{}, Vec{1, 1}, Vec{2, 0}, Vec{2, 2}, Vec{3, 0}, Vec{0, -3}, Vec{-2, -2}, Vec{4, 0})
			pos = Vec{pos.X + d.X, pos.Y + d.Y}
		case r.P(p.PJump):
			pos = randPos(r, p.FracPos)
		default:
			dir += p.Turn*core.Pick(r, 1.0, 1, 1, -1) + r.F(-p.TurnVar, p.TurnVar)
			d := core.Pick(r, 5.0, 20, 40, 80)
			if p.Spacing > 0 && r.P(0.9) {
				d = p.Spacing
			}
			pos = clampPos(Vec{pos.X + float32(math.Round(math.Cos(dir)*d)), pos.Y + float32(math.Round(math.Sin(dir)*d))})
		}
	}

	if r.P(0.5) {
		for k := 0; k < r.Int(1, 3); k++ {
			s := math.Round(r.F(0, lastEnd+1000))
			m.Pauses = append(m.Pauses, Pause{s, s + float64(r.Int(650, 5000))})
		}
	}
	if p.Shuffle {
		r.Shuffle(len(m.Objs), func(i, j int) { m.Objs[i], m.Objs[j] = m.Objs[j], m.Objs[i] })
	}
	if r.P(0.1) {
		r.Shuffle(len(m.TPs), func(i, j int) { m.TPs[i], m.TPs[j] = m.TPs[j], m.TPs[i] })
	}
	m.FixLeading()
}

// FixLeading makes sure that no inherited point precedes all uninherited ones (what those inherit is not defined)
func (m *Map) FixLeading() {
	first := math.Inf(1)
	at := -1
	for i, p := range m.TPs {
		if !p.Inherited && p.Time < first {
			first, at = p.Time, i
		}
	}
	for i := range m.TPs {
		if p := &m.TPs[i]; p.Inherited && (p.Time < first || p.Time == first && i < at) {
			p.Time = first + 1
		}
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
