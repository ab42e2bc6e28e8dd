package spec

import "math"

// Attribs of a beatmap, input of the performance formula
type Attribs struct {
	Aim, SliderFactor, Speed, Flashlight       float64
	Objects, Circles, Sliders, Spinners, Combo int
}

// Score is a play
type Score struct{ Combo, N300, N100, N50, Miss int }

// PP of a play
type PP struct{ Aim, Speed, Acc, Flashlight, Total float64 }

// Performance computes the performance points of a play. near is set when rounding
// of the effective miss count may decide its integer part.
func Performance(a Attribs, s Score, d *Diff) (p PP, near bool) {
	full := math.Max(1, float64(a.Combo))
	combo := float64(s.Combo)
	if s.Combo < 0 {
		combo = full
	}
	n300 := s.N300
	if n300 < 0 {
		n300 = a.Objects - s.N100 - s.N50 - s.Miss
	}
	hits := float64(n300 + s.N100 + s.N50 + s.Miss)

	// misses and slider breaks
	misses := float64(s.Miss)
	if a.Sliders > 0 {
		if limit := full - float64(a.Sliders)/10; combo < limit {
			est := math.Min(hits, limit/math.Max(1, combo))
			if r := math.Round(est); est != r && math.Abs(est-r) < 1e-9*math.Max(1, r) {
				near = true
			}
			misses = math.Max(misses, math.Floor(est))
		} else if limit != combo && math.Abs(limit-combo) < 1e-9*full {
			near = true
		} else if combo == limit && a.Sliders%10 != 0 {
			near = true
		}
	}

	has := func(m int64) bool { return d.Mods&m != 0 }

	acc := 0.0
	if hits != 0 {
		acc = math.Max(0, math.Min(1, (300*float64(n300)+100*float64(s.N100)+50*float64(s.N50))/(300*hits)))
	}
	counted := float64(a.Circles)
	if has(SV2) {
		counted = float64(a.Objects)
	}

	factor := 1.12
	if has(NF) {
		factor *= math.Max(0.9, 1-0.02*misses)
	}
	if has(SO) && hits > 0 {
		factor *= 1 - math.Pow(float64(a.Spinners)/hits, 0.85)
	}
	if has(RX) {
		misses = math.Min(hits, misses+float64(s.N100+s.N50))
		factor *= 0.6
	}

	length := 0.95 + 0.4*math.Min(1, hits/2000)
	if hits > 2000 {
		length += 0.5 * math.Log10(hits/2000)
	}
	comboScale := math.Min(1, math.Pow(combo/full, 0.8))
	missScale := func(e float64) float64 {
		if misses == 0 {
			return 1
		}
		return 0.97 * math.Pow(1-math.Pow(misses/hits, 0.775), e)
	}
	hidden := 1.0
	if has(HD) {
		hidden = 1 + 0.04*(12-d.ARReal)
	}
	high := 0.3 * math.Max(0, d.ARReal-10.33)
	low := 0.1 * math.Max(0, 8-d.ARReal)
	touch := func(v float64) float64 {
		if has(TD) {
			return math.Pow(v, 0.8)
		}
		return v
	}
	od := 0.98 + d.ODReal*d.ODReal/2500

	// aim
	p.Aim = BasePP(touch(a.Aim)) * length * missScale(misses) * comboScale * (1 + (high+low)*length) * hidden
	if a.Sliders > 0 {
		hard := 0.15 * float64(a.Sliders)
		lost := math.Max(0, math.Min(hard, math.Min(float64(s.N100+s.N50+s.Miss), full-combo)))
		p.Aim *= a.SliderFactor + (1-a.SliderFactor)*math.Pow(1-lost/hard, 3)
	}
	p.Aim *= acc * od

	// speed
	meh := math.Max(0, float64(s.N50)-hits/500)
	p.Speed = BasePP(a.Speed) * length * missScale(math.Pow(misses, 0.875)) * comboScale * (1 + high*length) * hidden *
		(0.95 + d.ODReal*d.ODReal/750) * math.Pow(acc, 7.25-math.Max(8, d.ODReal)/2) * math.Pow(0.98, meh)

	// accuracy
	if !has(RX) && counted > 0 {
		better := (6*(float64(n300)-(hits-counted)) + 2*float64(s.N100) + float64(s.N50)) / (6 * counted)
		p.Acc = math.Pow(1.52163, d.ODReal) * math.Pow(math.Max(0, better), 24) * 2.83 * math.Min(1.15, math.Pow(counted/1000, 0.3))
		if has(HD) {
			p.Acc *= 1.08
		}
		if has(FL) {
			p.Acc *= 1.02
		}
	}

	// flashlight
	if has(FL) {
		f := touch(a.Flashlight)
		p.Flashlight = 25 * f * f * missScale(math.Pow(misses, 0.875)) * comboScale *
			(0.7 + 0.1*math.Min(1, hits/200) + 0.2*math.Max(0, math.Min(1, (hits-200)/200))) * (0.5 + acc/2) * od
		if has(HD) {
			p.Flashlight *= 1.3
		}
	}

	p.Total = PNorm(p.Aim, p.Speed, p.Acc, p.Flashlight) * factor
	return
}
