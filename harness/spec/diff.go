// Package spec is an independent executable specification of what the library
// computes, written from the published osu! rules in a different shape from the
// library (declarative, non-incremental, double precision where the library
// rounds). The monitors compare executions with it.
package spec

import "math"

// Mod bits, as osu! defines them
const (
	NF  = 1 << 0
	EZ  = 1 << 1
	TD  = 1 << 2
	HD  = 1 << 3
	HR  = 1 << 4
	SD  = 1 << 5
	DT  = 1 << 6
	RX  = 1 << 7
	HT  = 1 << 8
	NC  = 1 << 9
	FL  = 1 << 10
	AT  = 1 << 11
	SO  = 1 << 12
	AP  = 1 << 13
	PF  = 1 << 14
	TG  = 1 << 23
	SV2 = 1 << 29
	DC  = 1 << 31
)

// ModNames is the two letter acronym of each bit
var ModNames = []string{"NF", "EZ", "TD", "HD", "HR", "SD", "DT", "RX", "HT", "NC", "FL", "AT", "SO", "AP", "PF",
	"K4", "K5", "K6", "K7", "K8", "FI", "RN", "CN", "TG", "K9", "K0", "K1", "K3", "K2", "V2", "LM", "DC"}

// Diff is a set of difficulty settings with everything derived from it
type Diff struct {
	HP, CS, OD, AR float64
	Mods           int64
	Custom         float64

	MHP, MCS, MOD, MAR float64 // after HR / EZ

	Rate                   float64 // playback rate
	Preempt, Radius        float64
	Hit300, Hit100, Hit50  float64
	SpinnerRatio           float64
	ARReal, ODReal, HPReal float64
}

// scale maps 0..10 to a piecewise linear range through (0,a) (5,b) (10,c)
func scale(v, a, b, c float64) float64 {
	if v <= 5 {
		return a + (b-a)*v/5
	}
	return b + (c-b)*(v-5)/5
}

// unscale is the inverse of scale for a > b > c
func unscale(x, a, b, c float64) float64 {
	if x > b {
		return 5 * (a - x) / (a - b)
	}
	return 5 + 5*(b-x)/(b-c)
}

func NewDiff(hp, cs, od, ar float64, mods int64, custom float64) *Diff {
	d := &Diff{HP: hp, CS: cs, OD: od, AR: ar, Mods: mods, Custom: custom}
	mod := func(v, hr float64) float64 {
		if mods&HR != 0 {
			v = math.Min(10, v*hr)
		}
		if mods&EZ != 0 {
			v = v / 2
		}
		return v
	}
	d.MHP, d.MCS, d.MOD, d.MAR = mod(hp, 1.4), mod(cs, 1.3), mod(od, 1.4), mod(ar, 1.4)
	d.HPReal = d.MHP
	d.Rate = custom
	switch {
	case mods&DT != 0:
		d.Rate = 1.5 * custom
	case mods&HT != 0:
		d.Rate = 0.75 * custom
	}
	d.Preempt = scale(d.MAR, 1800, 1200, 450)
	d.Radius = scale(d.MCS, 54.4, 32, 9.6)
	d.Hit300 = scale(d.MOD, 80, 50, 20)
	d.Hit100 = scale(d.MOD, 140, 100, 60)
	d.Hit50 = scale(d.MOD, 200, 150, 100)
	d.SpinnerRatio = scale(d.MOD, 3, 5, 7.5)
	d.ARReal = unscale(d.Preempt/d.Rate, 1800, 1200, 450)
	d.ODReal = unscale(d.Hit300/d.Rate, 80, 50, 20)
	return d
}

// ScoreMultiplier of a mod combination
func ScoreMultiplier(m int64) float64 {
	v2 := m&SV2 != 0
	x := 1.0
	for _, t := range []struct {
		bit   int64
		f, f2 float64
	}{{NF, 0.5, 1}, {EZ, 0.5, 0.5}, {HT, 0.3, 0.3}, {HD, 1.06, 1.06}, {HR, 1.06, 1.10}, {DT, 1.12, 1.20}, {FL, 1.12, 1.12}, {SO, 0.9, 0.9}, {RX, 0, 0}, {AP, 0, 0}} {
		if m&t.bit != 0 {
			if v2 {
				x *= t.f2
			} else {
				x *= t.f
			}
		}
	}
	return x
}

// Conflicts are the pairs of mod groups that cannot be used together
var Conflicts = [][2]int64{
	{HR, EZ}, {NC | DT, HT | DC}, {PF | SD, NF}, {RX, AP}, {RX | AP, SD | PF | AT | NF}, {AP, SO},
}

// Compatible tells whether mods may be used together
func Compatible(m int64) bool {
	if m&TG != 0 {
		return false
	}
	for _, c := range Conflicts {
		if m&c[0] != 0 && m&c[1] != 0 {
			return false
		}
	}
	return true
}

// ModString is the canonical written form
func ModString(m int64) (s []int) {
	for i := range ModNames {
		b := int64(1) << i
		if m&b == 0 || b == DT && m&NC != 0 || b == HT && m&DC != 0 || b == SD && m&PF != 0 {
			continue
		}
		s = append(s, i)
	}
	return
}

// Canonical adds the mods that are implied by others
func Canonical(m int64) int64 {
	if m&NC != 0 {
		m |= DT
	}
	if m&DC != 0 {
		m |= HT
	}
	if m&PF != 0 {
		m |= SD
	}
	return m
}
