package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"

	"verifharness/core"
	"verifharness/spec"
)

func init() {
	register(&core.Check{
		ID:    "C12",
		Rule:  "one random history of setter calls (settings, mods, custom speed; 1 to 12 calls) on a difficulty: after every call, everything derived is compared with the published formulas for the settings in force, and with a difficulty made afresh. Non-trivial: at least two calls.",
		Quick: 1200000, Thorough: 18000000,
		MinEvents: map[string]int64{"setter calls": 200000, "HR": 40000, "EZ": 40000, "speed changes": 30000, "conversions": 200000, "settings beyond 0 to 10": 20000},
		Run: func(c *core.Case) {
			wide := c.R.P(0.15) // difficulties made by the caller are not limited to what files may say
			if wide {
				c.Event("settings beyond 0 to 10", 1)
			}
			setting := func() float64 {
				if wide && c.R.P(0.4) {
					return core.Pick(c.R, 11, 10.5, 12, c.R.F(10, 12), c.R.F(-4, 0), -1)
				}
				return core.Pick(c.R, 0, 5, 10, math.Round(c.R.F(0, 100))/10, c.R.F(0, 10), c.R.F(4.9, 5.1), 7.142857142857143, c.R.F(7, 8))
			}
			hp, cs, od, ar := setting(), setting(), setting(), setting()
			d := difficulty.NewDifficulty(hp, cs, od, ar)
			mods, speed := difficulty.Modifier(0), 1.0
			n := c.R.Int(0, 12)
			hist := fmt.Sprint("new ", hp, cs, od, ar)
			for k := 0; k <= n; k++ {
				if k > 0 {
					v := setting()
					switch c.R.IntN(7) {
					case 0:
						hp = v
						d.SetHP(v)
						hist += fmt.Sprint("; HP ", v)
					case 1:
						cs = v
						d.SetCS(v)
						hist += fmt.Sprint("; CS ", v)
					case 2:
						od = v
						d.SetOD(v)
						hist += fmt.Sprint("; OD ", v)
					case 3:
						ar = v
						d.SetAR(v)
						hist += fmt.Sprint("; AR ", v)
					case 4:
						speed = core.Pick(c.R, 1, 0.5, 0.75, 1.33, 1.5, 2, c.R.F(0.1, 4))
						d.SetCustomSpeed(speed)
						c.Event("speed changes", 1)
						hist += fmt.Sprint("; speed ", speed)
					default:
						mods = randMods(c.R)
						if c.R.P(0.2) {
							mods = difficulty.Modifier(c.R.Int64N(1 << 32))
						}
						d.SetMods(mods)
						hist += fmt.Sprint("; mods ", modStr(mods))
					}
					c.Event("setter calls", 1)
				}
				c.Artifact("history", hist)
				if mods&mHR != 0 {
					c.Event("HR", 1)
				}
				if mods&mEZ != 0 {
					c.Event("EZ", 1)
				}
				w := spec.NewDiff(hp, cs, od, ar, int64(mods), speed)
				t := c.R.F(-1000, 1000)
				for _, f := range []struct {
					n         string
					got, want float64
				}{
					{"HP", d.GetHP(), hp}, {"CS", d.GetCS(), cs}, {"OD", d.GetOD(), od}, {"AR", d.GetAR(), ar},
					{"HP with mods", d.HPMod, w.MHP},
					{"preempt", d.Preempt, w.Preempt}, {"radius", d.CircleRadius, w.Radius},
					{"300 window", d.Hit300, w.Hit300}, {"100 window", d.Hit100, w.Hit100}, {"50 window", d.Hit50, w.Hit50},
					{"spinner ratio", d.SpinnerRatio, w.SpinnerRatio},
					{"speed", d.Speed, w.Rate}, {"custom speed", d.CustomSpeed, speed},
					{"effective AR", d.ARReal, w.ARReal}, {"effective OD", d.ODReal, w.ODReal},
					{"modified time", d.GetModifiedTime(t), t / w.Rate},
				} {
					if !near(f.got, f.want, 1e-9, 1e-9) {
						c.Failf("derived:"+f.n, "%s is %v, should be %v after %s", f.n, f.got, f.want, hist)
						return
					}
				}
				if d.Mods != mods {
					c.Failf("mods", "mods are %v after %s", d.Mods, hist)
					return
				}
				for _, q := range []difficulty.Modifier{mHR, mEZ | mDT, mHD, mRX | mFL, mNF | mV2} {
					if d.CheckModActive(q) != (mods&q != 0) {
						c.Failf("active", "CheckModActive(%s) is %v with %s", modStr(q), d.CheckModActive(q), modStr(mods))
						return
					}
				}
				fresh := difficulty.NewDifficulty(hp, cs, od, ar)
				fresh.SetCustomSpeed(speed)
				fresh.SetMods(mods)
				if a, b := diffState(d), diffState(fresh); a != b {
					c.Failf("history", "the difficulty depends on the order of calls: %s and %s after %s", a, b, hist)
					return
				}
			}
			if n > 1 {
				c.Sig(hist)
			}
			c.Sample("%s", hist)

			// settings to times and back
			v := setting()
			for _, q := range [][3]float64{{1800, 1200, 450}, {80, 50, 20}, {140, 100, 60}, {200, 150, 100}} {
				c.Event("conversions", 1)
				x := difficulty.DifficultyRate(v, q[0], q[1], q[2])
				if w := spec.NewDiff(v, v, v, v, 0, 1); q[0] == 1800 && !near(x, w.Preempt, 1e-9, 1e-9) {
					c.Failf("rate", "%v on %v is %v", v, q, x)
					return
				}
				if y := difficulty.DiffFromRate(x, q[0], q[1], q[2]); !near(y, v, 1e-9, 1e-9) {
					c.Failf("inverse", "%v on %v is %v, which is %v", v, q, x, y)
					return
				}
				if v2 := v + c.R.F(0.01, 1); difficulty.DifficultyRate(v2, q[0], q[1], q[2]) >= x {
					c.Failf("monotone", "%v on %v is not less than %v", v2, q, v)
					return
				}
			}
		},
	})

	register(&core.Check{
		ID:    "C13",
		Rule:  "one random combination of the 32 mods: its names, short and long, and the combination read back from its short name and from other spellings (any order, repeats, unknown names in between, odd lengths, any text). Non-trivial: at least two mods.",
		Quick: 1600000, Thorough: 48000000,
		MinEvents: map[string]int64{"round trips": 150000, "other spellings": 100000, "arbitrary texts": 50000, "implied mods": 25000, "unknown pairs": 100000},
		Run: func(c *core.Case) {
			m := int64(0)
			switch c.R.IntN(4) {
			case 0:
				m = c.R.Int64N(1 << 32)
			case 1:
				m = int64(randMods(c.R))
			case 2:
				m = 1 << c.R.IntN(32)
			default:
				for k := 0; k < c.R.Int(0, 6); k++ {
					m |= 1 << c.R.IntN(32)
				}
			}
			idx := spec.ModString(m)
			want := ""
			for _, i := range idx {
				want += spec.ModNames[i]
			}
			if len(idx) > 1 {
				c.Sig(m)
			}
			c.Sample("%d: %s", m, want)
			mod := difficulty.Modifier(m)
			if s := mod.String(); s != want {
				c.Failf("string", "the mods %d are called %q, should be %q", m, s, want)
				return
			}
			full := mod.StringFull()
			if len(full) != len(idx) {
				c.Failf("string-full", "the mods %d (%s) have the %d long names %v", m, want, len(full), full)
				return
			}
			for k, i := range idx {
				if full[k] != fullNames[i] {
					c.Failf("string-full", "the long names of %d (%s) are %v", m, want, full)
					return
				}
			}
			for i := range spec.ModNames {
				if mod.Active(1<<i) != (m>>i&1 == 1) {
					c.Failf("active", "Active(%s) is %v for %d", spec.ModNames[i], mod.Active(1<<i), m)
					return
				}
			}
			canon := spec.Canonical(m)
			if canon != m {
				c.Event("implied mods", 1)
			}
			c.Event("round trips", 1)
			if p := int64(difficulty.ParseMods(want)); p != canon {
				c.Failf("parse", "%q is read as %d, should be %d", want, p, canon)
				return
			}
			// other spellings
			l := []string{}
			for _, i := range idx {
				l = append(l, spec.ModNames[i])
				if c.R.P(0.2) {
					l = append(l, spec.ModNames[i])
				}
				if c.R.P(0.2) {
					l = append(l, core.Pick(c.R, "XX", "hd", "  ", "H ", "N1", "--", "nF"))
				}
				if c.R.P(0.3) { // two letters that occur in names but are none
					a, b := spec.ModNames[c.R.IntN(32)], spec.ModNames[c.R.IntN(32)]
					pair := string([]byte{a[c.R.IntN(2)], b[c.R.IntN(2)]})
					if c.R.P(0.5) { // the end of a name and the beginning of the next
						k := c.R.IntN(31)
						pair = spec.ModNames[k][1:] + spec.ModNames[k+1][:1]
					}
					known := false
					for _, n := range spec.ModNames {
						known = known || n == pair
					}
					if !known {
						c.Event("unknown pairs", 1)
						l = append(l, pair)
					}
				}
			}
			c.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			s := strings.Join(l, "") + core.Pick(c.R, "", "", "H", "D", "?")
			c.Event("other spellings", 1)
			if p := int64(difficulty.ParseMods(s)); p != canon {
				c.Failf("parse", "%q is read as %d, should be %d", s, p, canon)
				return
			}
			if c.R.P(0.5) { // any text is read
				b := make([]byte, c.R.IntN(20))
				for i := range b {
					b[i] = byte(c.R.IntN(256))
					if c.R.P(0.7) {
						b[i] = "HDTRNCFLXPS0é稲 "[c.R.IntN(15)]
					}
				}
				c.Artifact("text", fmt.Sprintf("%q", b))
				c.Event("arbitrary texts", 1)
				p := difficulty.ParseMods(string(b))
				if p&^((1<<32)-1) != 0 || int64(p) != spec.Canonical(int64(p)) {
					c.Failf("parse-text", "%q is read as %d", b, p)
				}
			}
		},
	})

	register(&core.Check{
		ID:    "C14",
		Rule:  "the combinations of the 17 mods that matter for compatibility and score multipliers, all 131072 of them (one case: 64 of them, each as it is and with random other mods), compared with tables of conflicts and factors. Non-trivial: every case.",
		Quick: 2048, Thorough: 2048 * 40,
		MinEvents: map[string]int64{"combinations": 262144, "incompatible": 1000, "compatible": 1000},
		Run: func(c *core.Case) {
			bits := []int64{spec.NF, spec.EZ, spec.HD, spec.HR, spec.SD, spec.DT, spec.RX, spec.HT, spec.NC, spec.FL, spec.AT, spec.SO, spec.AP, spec.PF, spec.TG, spec.SV2, spec.DC}
			relevant := int64(0)
			for _, b := range bits {
				relevant |= b
			}
			for k := 0; k < 64; k++ {
				n := (c.Idx*64 + k) % (1 << len(bits))
				m := int64(0)
				for i, b := range bits {
					if n>>i&1 == 1 {
						m |= b
					}
				}
				for _, other := range []int64{0, c.R.Int64N(1<<32) &^ relevant} {
					x := difficulty.Modifier(m | other)
					c.Event("combinations", 1)
					w := spec.Compatible(m)
					if w {
						c.Event("compatible", 1)
					} else {
						c.Event("incompatible", 1)
					}
					if x.Compatible() != w {
						c.Failf("compatible", "%s: compatible is %v, should be %v", modStr(x), x.Compatible(), w)
						return
					}
					if f := spec.ScoreMultiplier(m); !near(f, x.GetScoreMultiplier(), 1e-12, 0) {
						c.Failf("multiplier", "%s multiplies the score by %v, should by %v", modStr(x), x.GetScoreMultiplier(), f)
						return
					}
				}
			}
			c.Sig(c.Idx)
			c.Sample("combinations %d to %d", c.Idx*64, c.Idx*64+63)
		},
	})
}

var fullNames = []string{"NoFail", "Easy", "TouchDevice", "Hidden", "HardRock", "SuddenDeath", "DoubleTime", "Relax", "HalfTime", "Nightcore", "Flashlight", "Autoplay", "SpunOut", "Relax2", "Perfect",
	"Key4", "Key5", "Key6", "Key7", "Key8", "FadeIn", "Random", "Cinema", "Target", "Key9", "KeyCoop", "Key1", "Key3", "Key2", "ScoreV2", "LastMod", "Daycore"}
