// Package gen makes abstract beatmaps and renders them as .osu text, so that
// the monitors know what a file says without asking the library.
package gen

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"verifharness/core"
)

type Kind int

const (
	Circle Kind = iota
	Slider
	Spinner
)

type Vec struct{ X, Y float32 }

// Obj is a hit object as the file describes it
type Obj struct {
	Kind     Kind
	Pos      Vec
	Time     float64
	NewCombo bool
	ColorOff int
	Sound    int

	// sliders
	Curve      string
	Pts        []Vec
	Slides     int
	Length     float64
	EdgeSounds []int // nil: not written

	// spinners
	End float64

	Extras int // how many optional trailing fields are written

	File int // position in the file
}

// TP is a timing point
type TP struct {
	Time      float64
	BeatLen   float64
	Meter     int
	Set       int
	Index     int
	Volume    int
	Inherited bool
	Effects   int
	Fields    int // how many of the 8 fields are written
}

type Pause struct{ Start, End float64 }

// Map is a beatmap as the file describes it. nil pointers are keys that are not written.
type Map struct {
	Version int

	Audio       string
	PreviewTime int64
	Leniency    *float64
	Mode        int

	Title, TitleU, Artist, ArtistU, Creator, Diff, Source, Tags string
	MapID, SetID                                                int64

	HP, CS, OD, AR, SM, TR *float64

	Bg     string
	Pauses []Pause
	TPs    []TP
	Objs   []Obj
}

func FP(v float64) *float64 { return &v }

func Num(v float64) string {
	if math.IsNaN(v) {
		return "NaN"
	}
	return strconv.FormatFloat(v, 'f', -1, 64)
}

func num32(v float32) string { return strconv.FormatFloat(float64(v), 'f', -1, 32) }

// TypeBits is the type field of a hit object line
func (o *Obj) TypeBits() int {
	t := map[Kind]int{Circle: 1, Slider: 2, Spinner: 8}[o.Kind]
	if o.NewCombo {
		t |= 4
	}
	return t | o.ColorOff<<4
}

// Fields is the hit object line, split
func (o *Obj) Fields() []string {
	f := []string{num32(o.Pos.X), num32(o.Pos.Y), Num(o.Time), strconv.Itoa(o.TypeBits()), strconv.Itoa(o.Sound)}
	ex := "0:0:0:0:"
	if o.Extras > 1 {
		ex = "2:1:3:70:soft - hit.wav"
	}
	switch o.Kind {
	case Circle:
		if o.Extras > 0 {
			f = append(f, ex)
		}
	case Spinner:
		f = append(f, Num(o.End))
		if o.Extras > 0 {
			f = append(f, ex)
		}
	case Slider:
		s := o.Curve
		for _, p := range o.Pts {
			s += "|" + num32(p.X) + ":" + num32(p.Y)
		}
		f = append(f, s, strconv.Itoa(o.Slides), Num(o.Length))
		if o.EdgeSounds != nil {
			var e []string
			for _, v := range o.EdgeSounds {
				e = append(e, strconv.Itoa(v))
			}
			f = append(f, strings.Join(e, "|"))
			if o.Extras > 0 {
				f = append(f, "0:0|0:0", ex)
			}
		}
	}
	return f
}

// Fields is the timing point line, split
func (p *TP) FieldList() []string {
	u := "1"
	if p.Inherited {
		u = "0"
	}
	f := []string{Num(p.Time), Num(p.BeatLen), strconv.Itoa(p.Meter), strconv.Itoa(p.Set), strconv.Itoa(p.Index), strconv.Itoa(p.Volume), u, strconv.Itoa(p.Effects)}
	return f[:p.Fields]
}

// Style is how a map is written down; every style says the same thing
type Style struct {
	CRLF         bool
	Spaces       bool // whitespace around tokens
	Blank        bool // blank lines and comments
	Unknown      bool // unknown keys, sections, event types
	ShuffleKeys  bool
	ShuffleSects bool
	NoFinalNL    bool
	R            *core.Rng
}

// Section is a named list of lines
type Section struct {
	Name  string
	Lines []string
}

// Sections lists the sections of the file
func (m *Map) Sections(st Style) []Section {
	r := st.R
	sp := func() string {
		if st.Spaces && r.P(0.4) {
			return core.Pick(r, " ", "  ", "\t")
		}
		return ""
	}
	kv := func(k, v string) string { return k + sp() + ":" + sp() + v + sp() }
	list := func(f []string) string {
		var b strings.Builder
		for i, s := range f {
			if i > 0 {
				b.WriteString(sp() + "," + sp())
			}
			b.WriteString(s)
		}
		return b.String() + sp()
	}

	g := []string{kv("AudioFilename", m.Audio), kv("AudioLeadIn", "0"), kv("PreviewTime", strconv.FormatInt(m.PreviewTime, 10)), kv("SampleSet", "Soft"), kv("Mode", strconv.Itoa(m.Mode))}
	if m.Leniency != nil {
		g = append(g, kv("StackLeniency", Num(*m.Leniency)))
	}
	md := []string{}
	str := func(k, v string) {
		if v != "" {
			md = append(md, kv(k, v))
		}
	}
	str("Title", m.Title)
	str("TitleUnicode", m.TitleU)
	str("Artist", m.Artist)
	str("ArtistUnicode", m.ArtistU)
	str("Creator", m.Creator)
	str("Version", m.Diff)
	str("Source", m.Source)
	str("Tags", m.Tags)
	md = append(md, kv("BeatmapID", strconv.FormatInt(m.MapID, 10)), kv("BeatmapSetID", strconv.FormatInt(m.SetID, 10)))

	d := []string{}
	opt := func(k string, v *float64) {
		if v != nil {
			d = append(d, kv(k, Num(*v)))
		}
	}
	opt("HPDrainRate", m.HP)
	opt("CircleSize", m.CS)
	opt("OverallDifficulty", m.OD)
	opt("ApproachRate", m.AR)
	opt("SliderMultiplier", m.SM)
	opt("SliderTickRate", m.TR)

	var ev, tp, ho []string
	if m.Bg != "" {
		ev = append(ev, list([]string{core.Pick(r, "0", "Background"), "0", "\"" + m.Bg + "\"", "0", "0"}))
	}
	for _, p := range m.Pauses {
		ev = append(ev, list([]string{core.Pick(r, "2", "Break"), Num(p.Start), Num(p.End)}))
	}
	for i := range m.TPs {
		tp = append(tp, list(m.TPs[i].FieldList()))
	}
	for i := range m.Objs {
		ho = append(ho, list(m.Objs[i].Fields()))
	}

	if st.Unknown {
		ins := func(l []string, s ...string) []string {
			for _, v := range s {
				k := r.IntN(len(l) + 1)
				l = append(l[:k], append([]string{v}, l[k:]...)...)
			}
			return l
		}
		g = ins(g, "Countdown: 1", "EpilepsyWarning: 1", "NoColonHere")
		md = ins(md, "Romanised:maybe", "junk")
		d = ins(d, "BorderSize:9", "CircleSizes:1", "approachrate:1")
		if len(ev) > 0 {
			ev = ins(ev, "Sprite,Foreground,Centre,\"sb\\a.png\",320,240", "F,0,100,200,0,1", "Sample,1000,0,\"hit.wav\",70", "Video,-100,\"video.avi\"", "1,0,\"clip.mp4\"", "Animation,Fail,Centre,\"sb\\b.png\",320,240,2,100,LoopForever", "5,0,0,\"Title.wav\",50", "3,100,163,162,255")
		}
	}
	if st.ShuffleKeys {
		for _, l := range [][]string{g, md, d} {
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
	}

	secs := []Section{{"General", g}, {"Editor", []string{"DistanceSpacing: 1.2", "BeatDivisor: 4", "GridSize: 8"}}, {"Metadata", md}, {"Difficulty", d}, {"Events", ev}, {"TimingPoints", tp}, {"Colours", []string{"Combo1 : 255,128,64", "Combo2 : 1,2,3"}}, {"HitObjects", ho}}
	if st.Unknown {
		secs = append(secs, Section{"Fonts", []string{"Title:not the title", "1,2,3", "0,100,4,2,0,50,1,0"}})
	}
	if st.ShuffleSects {
		r.Shuffle(len(secs), func(i, j int) { secs[i], secs[j] = secs[j], secs[i] })
	}
	return secs
}

// Render writes the map as .osu text
func (m *Map) Render(st Style) string {
	r := st.R
	nl := "\n"
	if st.CRLF {
		nl = "\r\n"
	}
	var lines []string
	head := "osu file format v" + strconv.Itoa(m.Version)
	if st.Spaces && r.P(0.4) {
		head += core.Pick(r, " ", "  ", "\t")
	}
	lines = append(lines, head, "")
	for _, s := range m.Sections(st) {
		h := "[" + s.Name + "]"
		if st.Spaces && r.P(0.3) {
			h = core.Pick(r, " "+h, h+" ", "\t"+h+"\t")
		}
		lines = append(lines, h)
		for _, l := range s.Lines {
			if st.Blank && r.P(0.15) {
				lines = append(lines, core.Pick(r, "", "", "//Storyboard Layer 0 (Background)", "//Title:commented", "//100,100,100,1,0", "  "))
			}
			lines = append(lines, l)
		}
		lines = append(lines, "")
	}
	text := strings.Join(lines, nl)
	if !st.NoFinalNL {
		text += nl
	}
	return text
}

// Plain renders in the editor's own style
func (m *Map) Plain(r *core.Rng) string { return m.Render(Style{CRLF: true, R: r}) }

func (m *Map) Summary() string {
	k := [3]int{}
	for _, o := range m.Objs {
		k[o.Kind]++
	}
	return fmt.Sprintf("v%d map, %d circles %d sliders %d spinners, %d timing points", m.Version, k[0], k[1], k[2], len(m.TPs))
}

// Sorted returns the objects in the order they are played: by time, ties in file order
func (m *Map) Sorted() []Obj {
	o := append([]Obj(nil), m.Objs...)
	for i := range o {
		o[i].File = i
	}
	// insertion sort keeps ties in place
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && o[j].Time < o[j-1].Time; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
	return o
}
