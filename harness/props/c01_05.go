package props

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"regexp"
	"strconv"
	"strings"
	"testing/iotest"
	"unicode/utf16"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/audio"
	"github.com/Wieku/gosu-pp/beatmap/objects"

	"verifharness/core"
	"verifharness/gen"
)

// hostile values for any field
var hostile = []string{"", " ", "NaN", "nan", "Inf", "-Inf", "+Inf", "0", "-0", "-1", "1", "1e308", "-1e308", "1e-320", "1e400", "0x1p10", "0x10", "1_000", "2147483647", "-2147483648", "2147483648", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "4294967296", "131072", "131073", "-131073", "1.5", "0.0001", "١٢", "abc", "1;2", "1:2", "|", "B|", "L|:", "P|1:1|2:2", "255", "128", "8", "2", "3", "6", "12", "[HitObjects]", "\x00", "\ufeff", "\xff\xfe", "é"}

// tooBig tells whether a slider line asks for more nested points than a test machine wants to make
func tooBig(text string) bool {
	for _, l := range strings.Split(text, "\n") {
		f := strings.Split(l, ",")
		if len(f) < 8 {
			continue
		}
		n := func(s string) float64 {
			v, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
			if err != nil || math.IsNaN(v) {
				return 1
			}
			return math.Min(math.Abs(v), 1e6)
		}
		if n(f[6])*n(f[7]) > 1.5e6 || strings.Count(f[5], "|") > 400 {
			return true
		}
	}
	return false
}

func mutate(r *core.Rng, text string) string {
	sep := "\r\n"
	lines := strings.Split(text, sep)
	n := core.Pick(r, 1, 1, 2, 4, 10)
	for k := 0; k < n && len(lines) > 0; k++ {
		i := r.IntN(len(lines))
		switch r.IntN(12) {
		case 0: // drop a line
			lines = append(lines[:i], lines[i+1:]...)
		case 1: // repeat a line somewhere else
			j := r.IntN(len(lines) + 1)
			lines = append(lines[:j], append([]string{lines[i]}, lines[j:]...)...)
		case 2: // cut a line
			if len(lines[i]) > 0 {
				lines[i] = lines[i][:r.IntN(len(lines[i]))]
			}
		case 3, 4, 5: // replace a comma field
			f := strings.Split(lines[i], ",")
			f[r.IntN(len(f))] = core.Pick(r, hostile...)
			lines[i] = strings.Join(f, ",")
		case 6: // drop or repeat fields
			f := strings.Split(lines[i], ",")
			j := r.IntN(len(f))
			if r.P(0.5) {
				f = f[:j]
			} else {
				f = append(f, f[j])
			}
			lines[i] = strings.Join(f, ",")
		case 7: // replace a value
			if j := strings.IndexByte(lines[i], ':'); j >= 0 {
				lines[i] = lines[i][:j+1] + core.Pick(r, hostile...)
			}
		case 8: // replace a control point part
			f := strings.Split(lines[i], "|")
			f[r.IntN(len(f))] = core.Pick(r, hostile...)
			lines[i] = strings.Join(f, "|")
		case 9: // exchange two lines
			j := r.IntN(len(lines))
			lines[i], lines[j] = lines[j], lines[i]
		case 10: // noise
			b := []byte(lines[i])
			for q := 0; q < 3; q++ {
				j := r.IntN(len(b) + 1)
				b = append(b[:j], append([]byte{byte(r.IntN(256))}, b[j:]...)...)
			}
			lines[i] = string(b)
		case 11: // cut the file
			if r.P(0.3) {
				lines = lines[:i]
			}
		}
	}
	return strings.Join(lines, sep)
}

func utf16Bytes(s string, big, bom bool) []byte {
	var b []byte
	put := func(u uint16) {
		if big {
			b = append(b, byte(u>>8), byte(u))
		} else {
			b = append(b, byte(u), byte(u>>8))
		}
	}
	if bom {
		put(0xfeff)
	}
	for _, u := range utf16.Encode([]rune(s)) {
		put(u)
	}
	return b
}

// malformed object and event lines, none of which describes anything: fields are missing or exceed the limits of the game
func malformedObject(r *core.Rng) string {
	t := r.Int(0, 200000)
	if r.P(0.4) {
		return outOfRange(r, t)
	}
	return core.Pick(r,
		"100,100", "1,2,3,", "100,100,500,1", "5,5,5,2", ",", ",,,",
		fmt.Sprintf("256,192,%d,12,0", t),
		fmt.Sprintf("256,192,%d,8,4", t),
		fmt.Sprintf("100,192,%d,128,0", t), // a hold note without its end
		fmt.Sprintf("100,100,%d,2,0", t),
		fmt.Sprintf("100,100,%d,2,0,B|200:200", t),
		fmt.Sprintf("100,100,%d,6,0,L|200:200,1", t),
		fmt.Sprintf("100,100,%d,2,0,L%s|200,1,100", t, strings.Repeat("|200:200|100:100", 40)),
		fmt.Sprintf("100,100,%d,2,0,B%s|200:131073|100:100,1,100", t, strings.Repeat("|200:200|100:150", 150)),
		fmt.Sprintf("100,100,%d,2,0,L|200,1,100", t),
		fmt.Sprintf("100,100,%d,2,0,P|200:200|30,1,100", t),
		fmt.Sprintf("100,100,%d,2,0,P|30|200:200,1,100", t),
		fmt.Sprintf("100,100,%d,0,0,0:0:0:0:", t),
		fmt.Sprintf("100,100,%d,4,0,0:0:0:0:", t),
		fmt.Sprintf("100,100,%d,16,0,0:0:0:0:", t),
	)
}

// outOfRange gives a complete object line with one value beyond the limits of the game
func outOfRange(r *core.Rng, t int) string {
	coord := core.Pick(r, "131073", "-131073", "131072.5", "1e9", "-1e300", "NaN", "Inf", "-Inf", "1e999")
	tm := core.Pick(r, "2147483648", "-2147483648", "2147483647.5", "1e18", "-1e200", "nan", "+Inf", "-Inf")
	f := []string{"100", "120", fmt.Sprint(t)}
	switch r.IntN(4) {
	case 3: // a hold note, which has its end before its samples
		f = append(f, "128", "0", fmt.Sprint(t+500)+":0:0:0:0:")
		if r.P(0.5) {
			f[5] = tm + ":0:0:0:0:"
			return strings.Join(f, ",")
		}
	case 0:
		f = append(f, "1", "0", "0:0:0:0:")
	case 1:
		f = append(f, "12", "4", fmt.Sprint(t+500), "0:0:0:0:")
	default:
		curve := core.Pick(r, "B", "L", "P", "C")
		f = append(f, "2", "0", curve+"|150:150|180:120|210:130", "1", "100")
		switch r.IntN(5) {
		case 0:
			f[6] = core.Pick(r, "9001", "10000", "-9001", "99999999999999999999", "NaN")
			return strings.Join(f, ",")
		case 1:
			f[7] = coord
			return strings.Join(f, ",")
		case 2, 3:
			pts := []string{"150", "150", "180", "120", "210", "130"}
			pts[r.IntN(6)] = coord
			f[5] = fmt.Sprintf("%s|%s:%s|%s:%s|%s:%s", curve, pts[0], pts[1], pts[2], pts[3], pts[4], pts[5])
			return strings.Join(f, ",")
		}
	}
	if f[3] == "12" && r.P(0.4) {
		f[5] = tm
		return strings.Join(f, ",")
	}
	if k := r.IntN(3); k == 2 {
		f[2] = tm
	} else {
		f[k] = coord
	}
	return strings.Join(f, ",")
}

func malformedEvent(r *core.Rng) string {
	return core.Pick(r, "2,", "2,500", "Break,1000", "0,0", "Background,0", "0,", ",", "5,1", "4,0")
}

func init() {
	register(&core.Check{
		ID:    "C01",
		Rule:  "either (a) mutated .osu text (hostile numbers, cut, repeated, exchanged and noisy lines, cut files, other encodings) or plain random bytes, for which parsing has to end with exactly one of a map and an error, or (b) a well-formed map with malformed object, event and timing lines inserted, which has to read exactly like the map without them. Non-trivial: every case; distinct inputs are counted.",
		Quick: 60000, Thorough: 3000000,
		MinEvents:   map[string]int64{"hostile inputs": 15000, "maps from hostile inputs": 5000, "errors from hostile inputs": 1000, "lines inserted": 10000},
		Assumptions: []string{"Inputs that ask for more than 1.5 million osu! pixels of slider travel on one line are not generated: memory is proportional to the nested points asked for.", "Hanging means more than 60 s of processor time for one input."},
		Run: func(c *core.Case) {
			p := gen.DefaultProfile(c.R)
			p.N = core.Pick(c.R, 1, 3, 8, 15)
			m := gen.Random(c.R, p)
			if c.R.P(0.7) {
				var data []byte
				switch x := c.R.Float64(); {
				case x < 0.03:
					data = make([]byte, c.R.IntN(400))
					for i := range data {
						data[i] = byte(c.R.IntN(256))
					}
				case x < 0.06: // a soup of tokens
					var b strings.Builder
					for i := 0; i < c.R.Int(1, 60); i++ {
						b.WriteString(core.Pick(c.R, "[HitObjects]", "[TimingPoints]", "[Events]", "[General]", "[Difficulty]", "[Metadata]", "\n", "\n", "\n", "\r\n", ",", ",", ",", ":", "|", "Title", "Mode", "1", "2", "8", "100", "//", "[", "]", "osu file format v", "14", "\ufeff", "\x00"))
					}
					data = []byte(b.String())
					if tooBig(b.String()) {
						return
					}
				default:
					t := mutate(c.R, m.Plain(c.R))
					if tooBig(t) {
						c.Skip("too many nested points asked for")
						return
					}
					data = []byte(t)
					if x > 0.92 {
						data = utf16Bytes(t, c.R.P(0.5), c.R.P(0.9))
						if c.R.P(0.3) && len(data) > 0 {
							data = data[:len(data)-1]
						}
					}
				}
				c.Artifact("input.base64", base64.StdEncoding.EncodeToString(data))
				c.Artifact("input.osu", clip(string(data), 20000))
				c.Event("hostile inputs", 1)
				c.Sig(data)
				b, err := beatmap.ParseFromByte(data)
				if (b == nil) == (err == nil) {
					c.Failf("neither", "parsing returned map %v and error %v", b != nil, err)
					return
				}
				if err != nil {
					c.Event("errors from hostile inputs", 1)
					return
				}
				c.Event("maps from hostile inputs", 1)
				for _, o := range b.HitObjects {
					if o == nil {
						c.Failf("nil-object", "a parsed map holds a nil object")
						return
					}
					// everything about a parsed object can be asked for
					objState(o)
				}
				return
			}

			// malformed lines change nothing
			st := gen.Style{CRLF: true, R: c.R}
			text := m.Render(st)
			b := mustParse(c, text)
			if b == nil {
				return
			}
			want := mapState(b)
			var out []string
			sect := ""
			n := 0
			for _, l := range strings.Split(text, "\r\n") {
				out = append(out, l)
				if strings.HasPrefix(l, "[") {
					sect = l
				}
				if l == "" || c.R.P(0.7) {
					continue
				}
				switch sect {
				case "[HitObjects]":
					out = append(out, malformedObject(c.R))
				case "[Events]":
					out = append(out, malformedEvent(c.R))
				case "[TimingPoints]":
					out = append(out, core.Pick(c.R, "1000", "abc", "500 -100"))
				case "[General]", "[Metadata]", "[Difficulty]":
					out = append(out, core.Pick(c.R, "StackLeniency", "Title", "ApproachRate", "CircleSize 3", ",,,"))
				default:
					continue
				}
				n++
			}
			text2 := strings.Join(out, "\r\n")
			c.Event("lines inserted", n)
			c.Sig(text2)
			c.Sample("%s with %d malformed lines", m.Summary(), n)
			if b2 := mustParse(c, text2); b2 != nil {
				if s := diffLines(want, mapState(b2)); s != "" {
					c.Failf("malformed-line", "malformed lines change what is read:\n%s", s)
				}
			}
		},
	})

	register(&core.Check{
		ID:    "C02",
		Rule:  "one random map, rendered with random whitespace, blank lines, comments, unknown keys and sections and with keys and sections in random order; every field of the result is compared with what was written. Non-trivial: the map has at least 3 objects or a style was applied.",
		Quick: 60000, Thorough: 1800000,
		MinEvents: map[string]int64{"fields": 200000, "objects": 100000, "timing points": 20000, "slider sounds": 10000, "settings out of range": 2000, "objects at the limits": 2000, "sliders without a pass": 500, "maps with unusual values": 5000},
		Run: func(c *core.Case) {
			p := gen.DefaultProfile(c.R)
			m := gen.Random(c.R, p)
			if c.R.P(0.001) { // thousands of timing points, the extreme ones among the last
				for n := core.Pick(c.R, 300, 1100, 4200); n > 0; n-- {
					m.TPs = append(m.TPs, gen.TP{Time: float64(100000 + c.R.Int(0, 100000)), BeatLen: 300 + float64(c.R.Int(-20, 20)) - 100/float64(n), Meter: 4, Set: 1, Index: 0, Volume: 50, Fields: 8})
				}
				c.Event("maps of many tempos", 1)
			}
			over := 0
			out := func(v **float64, lo, hi float64) {
				switch x := c.R.Float64(); {
				case x < 0.08:
					*v = nil
				case x < 0.2:
					*v = gen.FP(core.Pick(c.R, lo-1, hi+1, lo-0.25, hi+0.25, -100, 100, lo, hi, hi+1e6))
					over++
				}
			}
			out(&m.HP, 0, 10)
			out(&m.CS, 0, 10)
			out(&m.OD, 0, 10)
			out(&m.AR, 0, 10)
			out(&m.SM, 0.4, 3.6)
			out(&m.TR, 0.5, 8)
			m.Mode = core.Pick(c.R, 0, 0, 0, 1, 2, 3)
			if c.R.P(0.15) {
				atLimits(c, m)
			}
			c.Event("settings out of range", over)
			if c.R.P(0.4) {
				unusual(c, m)
			}
			st := gen.Style{R: c.R, CRLF: c.R.P(0.5), Spaces: c.R.P(0.5), Blank: c.R.P(0.5), Unknown: c.R.P(0.5), ShuffleKeys: c.R.P(0.5), ShuffleSects: c.R.P(0.5), NoFinalNL: c.R.P(0.3)}
			text := m.Render(st)
			if c.R.P(0.2) {
				c.Event("numbers with leading zeros", 1)
				text = wholeNumber.ReplaceAllString(text, "${1}"+core.Pick(c.R, "0", "00")+"${2}")
			}
			b := mustParse(c, text)
			if b == nil {
				return
			}
			c.Sig(text)
			c.Sample("%s, style %+v", m.Summary(), [7]bool{st.CRLF, st.Spaces, st.Blank, st.Unknown, st.ShuffleKeys, st.ShuffleSects, st.NoFinalNL})

			fields := 0
			eq := func(name string, got, want any) bool {
				fields++
				if got != want {
					c.Failf("field:"+name, "%s is %v, the file says %v", name, got, want)
					return false
				}
				return true
			}
			eq("FileVersion", b.FileVersion, m.Version)
			eq("Audio", b.Audio, m.Audio)
			eq("PreviewTime", b.PreviewTime, m.PreviewTime)
			eq("Mode", b.Mode, m.Mode)
			eq("StackLeniency", b.StackLeniency, val(m.Leniency, 0.7, math.Inf(-1), math.Inf(1)))
			eq("Title", b.Title, m.Title)
			eq("TitleUnicode", b.TitleUnicode, m.TitleU)
			eq("Artist", b.Artist, m.Artist)
			eq("ArtistUnicode", b.ArtistUnicode, m.ArtistU)
			eq("Creator", b.Creator, m.Creator)
			eq("Version", b.Version, m.Diff)
			eq("Source", b.Source, m.Source)
			eq("Tags", b.Tags, m.Tags)
			eq("MapID", b.MapID, m.MapID)
			eq("SetID", b.SetID, m.SetID)
			eq("Bg", b.Bg, m.Bg)
			od := val(m.OD, 5, 0, 10)
			ar := od
			if m.AR != nil {
				ar = val(m.AR, 5, 0, 10)
			}
			eq("HP", b.Difficulty.GetHP(), val(m.HP, 5, 0, 10))
			eq("CS", b.Difficulty.GetCS(), val(m.CS, 5, 0, 10))
			eq("OD", b.Difficulty.GetOD(), od)
			eq("AR", b.Difficulty.GetAR(), ar)
			eq("Mods", b.Difficulty.Mods, none)
			eq("Speed", b.Difficulty.Speed, 1.0)
			sm := val(m.SM, 1.4, 0.4, 3.6)
			eq("SliderMultiplier", b.SliderMultiplier, sm)
			eq("Timings.SliderMult", b.Timings.SliderMult, sm)
			eq("Timings.TickRate", b.Timings.TickRate, val(m.TR, 1, 0.5, 8))
			if eq("breaks", len(b.Pauses), len(m.Pauses)) {
				for i, q := range m.Pauses {
					eq("break start", b.Pauses[i].GetStartTime(), q.Start)
					eq("break end", b.Pauses[i].GetEndTime(), q.End)
					eq("break length", b.Pauses[i].Length(), q.End-q.Start)
				}
			}
			lo, hi := math.Inf(1), 0.0
			for i := range m.TPs {
				q := &m.TPs[i]
				if q.BeatLen >= 0 {
					lo, hi = math.Min(lo, 60000/q.BeatLen), math.Max(hi, 60000/q.BeatLen)
				}
				last := true // points at one time replace each other
				for j := range m.TPs[i+1:] {
					last = last && m.TPs[i+1+j].Time != q.Time
				}
				if !last {
					continue
				}
				c.Event("timing points", 1)
				g := b.Timings.GetPointAt(q.Time)
				want := [...]any{q.Time, 4, 0, 1, 1.0, false, false, false}
				if q.Fields > 2 && q.Meter != 0 {
					want[1] = q.Meter
				}
				if q.Fields > 3 {
					want[2] = q.Set
				}
				if q.Fields > 4 {
					want[3] = q.Index
				}
				if q.Fields > 5 {
					want[4] = float64(q.Volume) / 100
				}
				if q.Fields > 6 {
					want[5] = q.Inherited
				}
				if q.Fields > 7 {
					want[6], want[7] = q.Effects&1 != 0, q.Effects&8 != 0
				}
				got := [...]any{g.Time, g.Signature, g.SampleSet, g.SampleIndex, g.SampleVolume, g.Inherited, g.Kiai, g.OmitFirstBarLine}
				if !eq("timing point", fmt.Sprint(got), fmt.Sprint(want)) {
					return
				}
				if raw := g.GetRawBeatLength(); raw != q.BeatLen && !(math.IsNaN(raw) && math.IsNaN(q.BeatLen)) {
					c.Failf("field:beat length", "the beat length is %v, the file says %v", raw, q.BeatLen)
					return
				}
			}
			eq("MinBPM", near(b.MinBPM, lo, 1e-12, 0), true)
			eq("MaxBPM", near(b.MaxBPM, hi, 1e-12, 0), true)

			length := 0
			kinds := [3]int{}
			sorted := m.Sorted()
			if !eq("object count", len(b.HitObjects), len(sorted)) {
				return
			}
			for i := range sorted {
				o := &sorted[i]
				kinds[o.Kind]++
				last := o.Time
				if o.Kind == gen.Spinner {
					last = o.End
				}
				if int(last) > length {
					length = int(last)
				}
				if !sameObject(c, i, b.HitObjects[i], o) {
					return
				}
				c.Event("objects", 1)
				if o.Kind == gen.Slider {
					c.Event("slider sounds", maxInt(o.Slides, 1)+1)
				}
			}
			eq("Length", b.Length, length)
			eq("Circles", b.Circles, kinds[gen.Circle])
			eq("Sliders", b.Sliders, kinds[gen.Slider])
			eq("Spinners", b.Spinners, kinds[gen.Spinner])
			c.Event("fields", fields)
		},
	})

	register(&core.Check{
		ID:    "C03",
		Rule:  "one random map with non-ASCII text written as UTF-8, UTF-8 with a byte order mark, UTF-16LE and UTF-16BE, with LF and CRLF, read from memory and through readers that deliver it in odd pieces; all results have to be the same map. Non-trivial: every case.",
		Quick: 2500, Thorough: 120000,
		MinEvents: map[string]int64{"encodings": 15000, "chunked reads": 15000, "long lines": 200, "lines of megabytes": 4},
		Run: func(c *core.Case) {
			p := gen.DefaultProfile(c.R)
			m := gen.Random(c.R, p)
			m.Title += core.Pick(c.R, "", " 🎵", " 稲葉曇", " ă\u0308", " \U0010ffff", " \u0a0d\u0d0a")
			if c.R.P(0.1) {
				c.Event("long lines", 1)
				m.Tags = strings.Repeat(core.Pick(c.R, "x", "tag ", "長い🎵"), c.R.Int(30000, 300000)/4) + "x"
			}
			huge := 0
			if c.R.P(0.006) {
				// close to the longest line there may be (10 MB), in the shape of a comment, a tag or an object
				c.Event("lines of megabytes", 1)
				huge = core.Pick(c.R, 1<<20, 2<<20, 4<<20, 8<<20, 9900<<10, 10<<20-64)
				if m.Tags = strings.Repeat("x", huge-16); c.R.P(0.4) {
					m.Tags = strings.Repeat("長い", (huge-16)/6) + "x"
				}
			}
			st := gen.Style{R: c.R, Blank: c.R.P(0.3), Unknown: c.R.P(0.3), NoFinalNL: c.R.P(0.5)}
			lf := m.Render(st)
			crlf := strings.ReplaceAll(lf, "\n", "\r\n")
			b := mustParse(c, lf)
			if b == nil {
				return
			}
			if b.Title != m.Title || b.Tags != m.Tags {
				c.Failf("text", "the title or the tags read are not the ones in the file: %q for %q", clip(b.Title, 200), m.Title)
				return
			}
			c.Sig(lf)
			want := mapState(b)
			type enc struct {
				n string
				d []byte
			}
			var l []enc
			for _, t := range []enc{{"LF", []byte(lf)}, {"CRLF", []byte(crlf)}} {
				s := string(t.d)
				l = append(l, enc{"UTF-8 " + t.n, t.d}, enc{"UTF-8 with mark " + t.n, append([]byte{0xef, 0xbb, 0xbf}, t.d...)},
					enc{"UTF-16LE " + t.n, utf16Bytes(s, false, true)}, enc{"UTF-16BE " + t.n, utf16Bytes(s, true, true)})
			}
			if huge > 0 {
				// these cost too much to try them all
				l = []enc{l[c.R.IntN(len(l))], l[c.R.IntN(len(l))]}
			}
			for _, e := range l {
				c.Event("encodings", 1)
				q, err := beatmap.ParseFromByte(e.d)
				if err != nil {
					c.Failf("encoding-error", "%s: %v", e.n, err)
					return
				}
				if s := diffLines(want, mapState(q)); s != "" {
					c.Failf("encoding", "%s reads differently:\n%s", e.n, s)
					return
				}
				r := io.Reader(bytes.NewReader(e.d))
				how := core.Pick(c.R, "one byte", "half", "data with EOF", "random pieces", "pieces with empty reads")
				switch how {
				case "one byte":
					if len(e.d) > 50000 {
						r = iotest.HalfReader(r)
					} else {
						r = iotest.OneByteReader(r)
					}
				case "half":
					r = iotest.HalfReader(r)
				case "data with EOF":
					r = iotest.DataErrReader(r)
				default:
					r = &pieces{r: r, rng: c.R, empty: how == "pieces with empty reads"}
				}
				c.Event("chunked reads", 1)
				q, err = beatmap.ParseFromReader(r)
				if err != nil {
					c.Failf("chunk-error", "%s read by %s: %v", e.n, how, err)
					return
				}
				if s := diffLines(want, mapState(q)); s != "" {
					c.Failf("chunk", "%s read by %s reads differently:\n%s", e.n, how, s)
					return
				}
			}
		},
	})

	register(&core.Check{
		ID:    "C04",
		Rule:  "one random map, read through a reader that fails after a random number of bytes (a fault at every kind of position, all encodings), or with a line beyond the line limit, or without some of title, artist, creator and timing points: what cannot be read as a whole has to be refused with an error and no map, and the rest accepted. Non-trivial: every case.",
		Quick: 16000, Thorough: 400000,
		MinEvents: map[string]int64{"failing readers": 6000, "failures that go away": 1000, "failure after the last byte": 500, "corrupt files": 500, "sparse but complete files": 2000, "only inherited points": 1000, "over-long lines": 20},
		Run: func(c *core.Case) {
			p := gen.DefaultProfile(c.R)
			p.N = core.Pick(c.R, 1, 5, 15)
			m := gen.Random(c.R, p)
			st := gen.Style{R: c.R, CRLF: c.R.P(0.5), ShuffleSects: c.R.P(0.3), NoFinalNL: c.R.P(0.5)}
			encode := func(t string) []byte {
				switch c.R.IntN(4) {
				case 0:
					return utf16Bytes(t, false, true)
				case 1:
					return utf16Bytes(t, true, true)
				case 2:
					return append([]byte{0xef, 0xbb, 0xbf}, t...)
				}
				return []byte(t)
			}
			text := m.Render(st)
			data := encode(text)
			c.Artifact("map.osu", text)
			c.Sig(data)

			// a reader that fails
			for k := 0; k < 2; k++ {
				at := c.R.IntN(len(data) + 1)
				switch {
				case c.R.P(0.15):
					at = len(data)
					c.Event("failure after the last byte", 1)
				case c.R.P(0.05):
					at = 0
				}
				fail := core.Pick(c.R, errors.New("disk on fire"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, fmt.Errorf("connection lost: %w", io.EOF), os.ErrDeadlineExceeded, context.Canceled, bufio.ErrTooLong, io.ErrShortBuffer)
				r := &failing{data: data[:at], err: fail, with: c.R.P(0.3), max: core.Pick(c.R, 1<<20, 4096, 7), once: c.R.P(0.2)}
				if r.once {
					r.rest = data[at:]
					c.Event("failures that go away", 1)
				}
				b, err := beatmap.ParseFromReader(r)
				c.Event("failing readers", 1)
				if err == nil || b != nil {
					c.Failf("read-failure", "the reader fails with %q after %d of %d bytes, parsing says map %v, error %v", fail, at, len(data), b != nil, err)
					return
				}
			}

			// lines beyond the limit
			if c.R.P(0.006) {
				c.Event("over-long lines", 1)
				long := strings.Repeat("a", 11<<20)
				t := core.Pick(c.R, text+"\r\n[Metadata]\r\nTags:"+long+"\r\n", "osu file format v14\r\n//"+long+"\r\n"+text, text+"\r\n"+long)
				b, err := beatmap.ParseFromByte([]byte(t))
				if err == nil || b != nil {
					c.Failf("long-line", "a line of %d bytes: map %v, error %v", len(long), b != nil, err)
				}
			}

			// what makes a file corrupt
			m2 := *m
			empty := 0
			for _, s := range []*string{&m2.Title, &m2.Artist, &m2.Creator} {
				if c.R.P(0.5) {
					*s = ""
					empty++
				}
			}
			noTP := c.R.P(0.15)
			if noTP {
				m2.TPs = nil
			} else if c.R.P(0.4) { // few are enough, of whatever kind
				m2.TPs = append([]gen.TP(nil), m2.TPs[:c.R.Int(1, minI(3, len(m2.TPs)))]...)
				if c.R.P(0.6) {
					for i := range m2.TPs {
						m2.TPs[i].Inherited, m2.TPs[i].BeatLen, m2.TPs[i].Fields = true, -float64(c.R.Int(10, 1000)), 8
					}
					c.Event("only inherited points", 1)
				}
			}
			t := m2.Render(st)
			if empty == 3 && c.R.P(0.5) { // keys without values
				t = strings.Replace(t, "[Metadata]", "[Metadata]\r\nTitle:\r\nArtist: \r\nCreator:", 1)
			}
			c.Artifact("sparse.osu", t)
			b, err := beatmap.ParseFromByte(encode(t))
			if empty == 3 || noTP {
				c.Event("corrupt files", 1)
				if err == nil || b != nil {
					c.Failf("corrupt", "title %q, artist %q, creator %q, %d timing points: map %v, error %v", m2.Title, m2.Artist, m2.Creator, len(m2.TPs), b != nil, err)
				}
			} else {
				c.Event("sparse but complete files", 1)
				if err != nil || b == nil {
					c.Failf("complete", "title %q, artist %q, creator %q, %d timing points: refused with %v", m2.Title, m2.Artist, m2.Creator, len(m2.TPs), err)
				}
			}
		},
	})

	register(&core.Check{
		ID:    "C05",
		Rule:  "one random map whose object lines are in random order, with equal times, spinners and combo colour skips; order, ids, combo starts, combo numbers and sets are compared with a replay of the sorted file. Non-trivial: at least 3 objects with a new combo or spinner among them.",
		Quick: 60000, Thorough: 1800000,
		MinEvents: map[string]int64{"objects": 150000, "new combos": 30000, "combos forced by a spinner": 3000, "equal times": 5000, "objects out of order": 20000},
		Run: func(c *core.Case) {
			p := gen.DefaultProfile(c.R)
			p.PSpinner = core.Pick(c.R, 0, 0.1, 0.4)
			p.Shuffle = c.R.P(0.5)
			p.SameTime = core.Pick(c.R, 0, 0.1, 0.4)
			p.FracTime = c.R.P(0.4)
			m := gen.Random(c.R, p)
			if c.R.P(0.0002) {
				for n := c.R.Int(4100, 9000); len(m.Objs) < n; {
					o := m.Objs[c.R.IntN(len(m.Objs))]
					o.Time = float64(c.R.Int(0, 600000))
					o.End = o.Time
					m.Objs = append(m.Objs, o)
				}
				c.Event("maps of thousands of objects", 1)
			}
			newCombo := core.Pick(c.R, 0.05, 0.3, 0.8)
			if len(m.Objs) > 1000 && c.R.P(0.3) { // one long combo
				newCombo = 0
				for i := range m.Objs {
					if m.Objs[i].Kind == gen.Spinner {
						m.Objs[i].Kind = gen.Circle
					}
				}
				c.Event("combos of a thousand objects", 1)
			}
			for i := range m.Objs {
				o := &m.Objs[i]
				o.Pos = gen.Vec{X: float32(i % 512), Y: float32(i / 512)} // tells the objects apart
				o.NewCombo = c.R.P(newCombo)
				o.ColorOff = core.Pick(c.R, 0, 0, 0, c.R.Int(0, 7))
				if c.R.P(0.05) && i > 0 { // less than a millisecond apart
					o.Time = m.Objs[i-1].Time + core.Pick(c.R, 0, 0.25, -0.25)
				}
			}
			b := mustParse(c, m.Plain(c.R))
			if b == nil {
				return
			}
			sorted := m.Sorted()
			if len(b.HitObjects) != len(sorted) {
				c.Failf("count", "%d objects of %d", len(b.HitObjects), len(sorted))
				return
			}
			starts, forced := 0, 0
			pending := false // a spinner came since the last combo start
			number, set, hax := 1, 0, 0
			for i, o := range sorted {
				g := b.HitObjects[i]
				pos := g.GetStartPosition()
				if pos.X != o.Pos.X || pos.Y != o.Pos.Y || g.GetStartTime() != o.Time {
					c.Failf("order", "object %d is the one at %v (%v ms), line %d (%v, %v ms) comes there", i, pos, g.GetStartTime(), o.File, o.Pos, o.Time)
					return
				}
				if i > 0 && sorted[i-1].Time == o.Time {
					c.Event("equal times", 1)
				}
				if o.File != i {
					c.Event("objects out of order", 1)
				}
				wantNC := o.NewCombo
				if o.Kind == gen.Spinner {
					pending = true
				} else if o.NewCombo || pending {
					starts++
					if !o.NewCombo {
						forced++
					}
					pending = false
					wantNC = true
					number = 1
					set++
					hax += o.ColorOff + 1
				}
				n := 0
				switch x := g.(type) {
				case *objects.Circle:
					n = x.ComboNumber
				case *objects.Slider:
					n = x.ComboNumber
				case *objects.Spinner:
					n = x.ComboNumber
				}
				got := [...]any{g.GetID(), g.IsNewCombo(), n, g.GetComboSet(), g.GetComboSetHax(), g.GetColorOffset()}
				want := [...]any{i, wantNC, number, set, hax, o.ColorOff}
				if got != want {
					c.Failf("combo", "object %d of %d: id, new combo, number, set, colour set, offset are %v, they should be %v", i, len(sorted), got, want)
					return
				}
				number++
			}
			c.Event("objects", len(sorted))
			c.Event("new combos", starts)
			c.Event("combos forced by a spinner", forced)
			if len(sorted) > 2 && starts > 0 {
				c.Sig(m.Summary(), starts, forced, hax)
			}
			c.Sample("%s, %d combos", m.Summary(), starts)
		},
	})
}

// sameObject compares a parsed object with what the file says
// atLimits moves some objects to the limits of what the game reads, which it still has to read
// wholeNumber matches the settings that are whole numbers and not negative
var wholeNumber = regexp.MustCompile(`(?m)^((?:BeatmapID|BeatmapSetID|PreviewTime|Mode)\s*:\s*)(\d)`)

func atLimits(c *core.Case, m *gen.Map) {
	for k := 0; k < 3 && len(m.Objs) > 0; k++ {
		o := &m.Objs[c.R.IntN(len(m.Objs))]
		edge := func() float32 { return core.Pick(c.R, float32(131072), -131072, 0, -1, 512, 384, -0.5) }
		c.Event("objects at the limits", 1)
		switch x := c.R.IntN(6); {
		case x < 2:
			o.Pos = gen.Vec{X: edge(), Y: edge()}
			if o.Kind == gen.Slider {
				o.Curve, o.Pts, o.Length = "L", []gen.Vec{{X: o.Pos.X + 50, Y: o.Pos.Y}}, 40
				if o.Pos.X > 1000 {
					o.Pts[0].X = o.Pos.X - 50
				}
			}
		case x == 2 && o.Kind != gen.Slider:
			o.Time = core.Pick(c.R, 2147483647.0, -2147483647, -1, 0, -1234)
			if o.Kind == gen.Spinner {
				o.End = core.Pick(c.R, 2147483647.0, o.Time)
			}
		case o.Kind == gen.Spinner:
			o.End = 2147483647
		case o.Kind == gen.Slider && x == 3:
			o.Slides = core.Pick(c.R, 0, -1, -9000)
			o.EdgeSounds = nil
			c.Event("sliders without a pass", 1)
		case o.Kind == gen.Slider && x == 4 && c.R.P(0.1):
			o.Slides, o.EdgeSounds = 9000, nil
			o.Curve, o.Pts, o.Length = "L", []gen.Vec{{X: o.Pos.X + 5, Y: o.Pos.Y}}, 4
			if o.Pos.X > 1000 {
				o.Pts[0].X = o.Pos.X - 5
			}
		}
	}
}

// unusual gives the fields values that editors rarely write, all of which still have one meaning
func unusual(c *core.Case, m *gen.Map) {
	r := c.R
	c.Event("maps with unusual values", 1)
	some := func() bool { return r.P(0.5) }
	if some() {
		m.PreviewTime = core.Pick(r, int64(-1), 0, -1, -500, 1<<31-1, 1<<31, -1<<31-1, 1<<40, 1<<62)
	}
	if some() {
		m.Leniency = gen.FP(core.Pick(r, 0.05, 0.15, 0.333, 1.5, 2, 3, 10, 1000, -0.5, -1, math.Round(r.F(-1, 3)*1000)/1000))
	}
	if r.P(0.03) {
		m.Title, m.Tags = gen.Words(r, r.Int(300, 6000)), gen.Words(r, r.Int(1, 6000))
	}
	if r.P(0.1) { // finer times than editors write
		for i := range m.Objs {
			if math.Abs(m.Objs[i].Time) < 1e9 {
				m.Objs[i].Time += core.Pick(r, 0, 1.0/3, 1e-4, 0.0004, -1e-6, r.F(0, 1))
			}
		}
	}
	if some() {
		m.Version = core.Pick(r, 1, 2, 11, 15, 128, 129, 1000)
	}
	if some() {
		m.MapID, m.SetID = core.Pick(r, int64(-2), 0, 1<<31-1, 1<<31, 1<<53+1), core.Pick(r, int64(-1), 0, 1<<31, 1<<53+1, 99)
	}
	if some() {
		for i := range m.Pauses {
			q := &m.Pauses[i]
			q.Start += core.Pick(r, 0, 0.5, -30000, 0.125, -0.75)
			q.End += core.Pick(r, 0, 0.5, 0.001, 1e7)
			if r.P(0.1) {
				q.End = q.Start
			}
			if i > 0 && r.P(0.1) {
				*q = m.Pauses[i-1]
			}
		}
	}
	if some() {
		late := core.Pick(r, 0.0, 0.5, 1e-3, -0.25, -5000.5)
		for i := range m.TPs {
			q := &m.TPs[i]
			q.Time += late
			if r.P(0.5) {
				q.Volume = core.Pick(r, 0, 1, 33, 100, 101, 150, -10)
			}
			if r.P(0.5) {
				q.Meter = core.Pick(r, 2, 8, 12, 16, 100)
			}
			if r.P(0.5) {
				q.Set, q.Index = core.Pick(r, 0, 1, 3, 4, 10), core.Pick(r, 0, 1, 10, 99, 12345)
			}
			if r.P(0.5) {
				q.Effects = r.Int(0, 40)
			}
			if !q.Inherited && r.P(0.5) {
				q.BeatLen = core.Pick(r, 3.0, 20, 49.5, 1234.567, 6000, 60000, 1e6, 333.333333333333, r.F(10, 3000))
			}
		}
	}
	sound := func() int { return core.Pick(r, 1, 0, 3, 15, 16, 31, 64, 255, 256, 257, 1024, r.Int(0, 15)) }
	for i := range m.Objs {
		o := &m.Objs[i]
		if r.P(0.5) {
			o.Sound = sound()
		}
		for k := range o.EdgeSounds {
			if r.P(0.5) {
				o.EdgeSounds[k] = sound()
			}
		}
		if r.P(0.3) {
			o.Extras = 2
		}
	}
}

func sameObject(c *core.Case, i int, g objects.IHitObject, o *gen.Obj) bool {
	bad := func(what string, got, want any) bool {
		c.Failf("object:"+what, "object %d: %s is %v, the file says %v (%s)", i, what, got, want, strings.Join(o.Fields(), ","))
		return false
	}
	var typ objects.Type
	switch g.(type) {
	case *objects.Circle:
		typ = objects.CIRCLE
	case *objects.Slider:
		typ = objects.SLIDER
	case *objects.Spinner:
		typ = objects.SPINNER
	}
	want := [...]objects.Type{objects.CIRCLE, objects.SLIDER, objects.SPINNER}[o.Kind]
	if typ != want || g.GetType() != want {
		return bad("kind", g.GetType(), want)
	}
	if g.GetStartTime() != o.Time {
		return bad("time", g.GetStartTime(), o.Time)
	}
	if p := g.GetStartPosition(); p.X != o.Pos.X || p.Y != o.Pos.Y {
		return bad("position", p, o.Pos)
	}
	if g.GetColorOffset() != o.ColorOff {
		return bad("colour offset", g.GetColorOffset(), o.ColorOff)
	}
	if o.NewCombo && !g.IsNewCombo() {
		return bad("new combo", false, true)
	}
	sounds := []audio.HitSound{audio.HitSound(o.Sound)}
	switch o.Kind {
	case gen.Circle:
		if g.GetEndTime() != o.Time || g.GetEndPosition() != g.GetStartPosition() {
			return bad("end", g.GetEndTime(), o.Time)
		}
	case gen.Spinner:
		if g.GetEndTime() != o.End {
			return bad("end time", g.GetEndTime(), o.End)
		}
	case gen.Slider:
		s := g.(*objects.Slider)
		slides := o.Slides
		if slides < 1 {
			slides = 1
		}
		if s.RepeatCount != int64(slides) {
			return bad("slides", s.RepeatCount, slides)
		}
		sounds = nil
		for k := 0; k <= slides; k++ {
			v := o.Sound
			if k < len(o.EdgeSounds) {
				v = o.EdgeSounds[k]
			}
			sounds = append(sounds, audio.HitSound(v))
		}
	}
	if fmt.Sprint(g.GetSounds()) != fmt.Sprint(sounds) {
		return bad("sounds", g.GetSounds(), sounds)
	}
	if d := g.GetDuration(); d != g.GetEndTime()-g.GetStartTime() {
		return bad("duration", d, g.GetEndTime()-g.GetStartTime())
	}
	return true
}

// pieces delivers data in pieces of random size
type pieces struct {
	r     io.Reader
	rng   *core.Rng
	empty bool
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.empty && p.rng.P(0.2) {
		return 0, nil
	}
	n := core.Pick(p.rng, 1, 2, 3, 100, 4096, 50000)
	if n < len(b) {
		b = b[:n]
	}
	return p.r.Read(b)
}

// failing delivers data and then an error
type failing struct {
	data []byte
	err  error
	with bool // the error comes with the last bytes
	max  int
	once bool   // after the failure it would go on with the rest
	rest []byte // what comes after the failure
}

func (f *failing) Read(b []byte) (int, error) {
	if len(b) > f.max {
		b = b[:f.max]
	}
	n := copy(b, f.data)
	f.data = f.data[n:]
	if len(f.data) == 0 && (n == 0 || f.with) {
		err := f.err
		if f.once {
			f.data, f.err, f.rest = f.rest, io.EOF, nil
		}
		return n, err
	}
	return n, nil
}
