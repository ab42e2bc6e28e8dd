package spec

import (
	"math"
	"sort"
)

// SkillResult is what a skill makes of a list of difficulty objects
type SkillResult struct {
	Strains []float64 // strain level after each object
	Rhythm  []float64 // speed only: rhythm multiplier of each object
	Peaks   []float64 // one per section
	Value   float64   // difficulty value
	// NearAt is the first object at which rounding may decide which way a
	// comparison goes (len(objs) if none), NearSection if it concerns section limits
	NearAt      int
	NearSection bool
}

func grid16(v float64) bool { return v*16 == math.Floor(v*16) }

// cmp125 tells whether a > 1.25 b, and whether rounding may decide that
func cmp125(a, b float64) (bool, bool) {
	near := math.Abs(a-1.25*b) <= 1e-9*(a+b) && !(grid16(a) && grid16(b))
	return a > 1.25*b, near
}

func wide(angle float64) float64 {
	x := math.Max(math.Pi/6, math.Min(5*math.Pi/6, angle))
	s := math.Sin(0.75 * (x - math.Pi/6))
	return s * s
}

func acute(angle float64) float64 { return 1 - wide(angle) }

func sin2(x float64) float64 { // squared sine of x quarter turns
	s := math.Sin(math.Pi / 2 * x)
	return s * s
}

// AimValue is the strain an object adds to the aim skill
func AimValue(o []DObj, i int, sliders bool) (v float64, near bool) {
	if i < 2 || o[i].Kind == KSpinner || o[i-1].Kind == KSpinner {
		return 0, false
	}
	cur, last, ll := &o[i], &o[i-1], &o[i-2]
	vel := func(d, before *DObj) float64 {
		x := d.Jump / d.Strain
		if sliders && before.Kind == KSlider {
			x = math.Max(x, d.Movement/d.MovementTime+d.Travel/d.TravelTime)
		}
		return x
	}
	cv, pv := vel(cur, last), vel(last, ll)
	v = cv

	long, short := math.Max(cur.Strain, last.Strain), math.Min(cur.Strain, last.Strain)
	var wb, ab float64
	lt := long < 1.25*short
	if math.Abs(long-1.25*short) <= 1e-9*long && !(grid16(long) && grid16(short)) {
		near = true
	}
	if lt && cur.Angle == cur.Angle && last.Angle == last.Angle && ll.Angle == ll.Angle {
		m := math.Min(cv, pv)
		w := wide(cur.Angle)
		wb = w * m * (1 - math.Min(w, math.Pow(wide(last.Angle), 3)))
		if cur.Strain <= 100 {
			ab = acute(cur.Angle) * acute(last.Angle) * math.Min(m, 125/cur.Strain) *
				sin2(math.Min(1, (100-cur.Strain)/25)) *
				sin2((math.Min(100, math.Max(50, cur.Jump))-50)/50)
			ab *= 1 - 0.5*math.Min(ab, math.Pow(acute(ll.Angle), 3))
		}
	}

	change := 0.0
	if math.Max(pv, cv) != 0 {
		a := (last.Jump + last.Travel) / last.Strain
		b := (cur.Jump + cur.Travel) / cur.Strain
		diff, top := math.Abs(a-b), math.Max(a, b)
		overlap := math.Min(125/short, diff)
		apart := diff * sin2(math.Min(1, math.Min(cur.Jump, last.Jump)/100))
		change = math.Max(overlap, apart) * sin2(diff/top) * (short / long) * (short / long)
	}
	v += math.Max(2*ab, 1.5*wb+0.75*change)
	if sliders && cur.TravelTime != 0 {
		v += 1.5 * cur.Travel / cur.TravelTime
	}
	return
}

// SpeedValue is the strain an object adds to the speed skill; window is the
// 300 hit window at the playback rate
func SpeedValue(o []DObj, i int, window float64) float64 {
	if o[i].Kind == KSpinner {
		return 0
	}
	full := 2 * window
	t := o[i].Strain
	if i > 0 && t < full && o[i-1].Strain > t {
		p := o[i-1].Strain
		t = p + (t-p)*(t/full)
	}
	t /= math.Max(0.92, math.Min(1, t/full/0.93))
	bonus := 1.0
	if t < 75 {
		bonus += 0.75 * math.Pow((75-t)/40, 2)
	}
	d := math.Min(125, o[i].Travel+o[i].Jump)
	return bonus * (1 + math.Pow(d/125, 3.5)) / t
}

// Rhythm is the rhythm complexity multiplier at an object
func Rhythm(o []DObj, i int, window float64) (mult float64, near bool) {
	if o[i].Kind == KSpinner {
		return 0, false
	}
	h := o[maxInt(0, i-32):i]
	n := len(h)
	sum, start := 0.0, 0.0
	island, prevIsland := 1, 0
	counting := false
	for j := 2; j < n; j++ {
		c, p, l := &h[j], &h[j-1], &h[j-2]
		age := math.Max(0, 5000-(o[i].Start-c.Start)) / 5000
		if math.Abs(o[i].Start-c.Start-5000) < 1e-6 && !(grid16(o[i].Start) && grid16(c.Start)) {
			near = true
		}
		if age == 0 {
			continue
		}
		weight := math.Min(float64(j)/float64(n), age)
		cd, pd, ld := c.Strain, p.Strain, l.Strain
		ratio := 1 + 6*math.Min(0.5, math.Pow(math.Sin(math.Pi*math.Max(pd, cd)/math.Min(pd, cd)), 2))
		ratio *= math.Min(1, math.Max(0, math.Abs(pd-cd)-0.6*window)/(0.6*window))

		faster, n1 := cmp125(pd, cd)
		slower, n2 := cmp125(cd, pd)
		near = near || n1 || n2

		switch {
		case counting && !faster && !slower:
			if island < 7 {
				island++
			}
		case counting:
			if c.Kind == KSlider {
				ratio /= 8
			}
			if p.Kind == KSlider {
				ratio /= 4
			}
			if prevIsland == island {
				ratio /= 4
			}
			if (prevIsland-island)%2 == 0 {
				ratio /= 2
			}
			if g1, g2 := ld-pd, pd-cd; ld > pd+10 && pd > cd+10 {
				ratio /= 8
				if math.Abs(g1-10) < 1e-9*ld && !(grid16(ld) && grid16(pd)) || math.Abs(g2-10) < 1e-9*pd && !(grid16(pd) && grid16(cd)) {
					near = true
				}
			} else if math.Abs(g1-10) < 1e-9*ld && !(grid16(ld) && grid16(pd)) || math.Abs(g2-10) < 1e-9*pd && !(grid16(pd) && grid16(cd)) {
				near = true
			}
			sum += math.Sqrt(ratio*start) * weight * math.Sqrt(4+float64(island)) / 2 * math.Sqrt(4+float64(prevIsland)) / 2
			start = ratio
			prevIsland, island = island, 1
			if slower {
				counting = false
			}
		case faster:
			counting, start, island = true, ratio, 1
		}
	}
	return math.Sqrt(4+0.75*sum) / 2, near
}

// FlashlightValue is the strain an object adds to the flashlight skill
func FlashlightValue(o []DObj, i int, radius float64) float64 {
	if o[i].Kind == KSpinner {
		return 0
	}
	k := 52 / radius
	res, total, nerf := 0.0, 0.0, 1.0
	for back := 1; back <= 10 && back <= i; back++ {
		p := &o[i-back]
		if p.Kind == KSpinner {
			continue
		}
		d := o[i].Pos.Dist(p.Tail)
		total += p.Strain
		if back == 1 {
			nerf = math.Min(1, d/75)
		}
		res += math.Pow(0.8, float64(back-1)) * math.Min(1, p.Jump/k/25) * k * d / total
	}
	return nerf * nerf * res * res
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// Strains accumulates the values of the objects
func Strains(o []DObj, mult, base float64, value func(i int) float64) []float64 {
	s := make([]float64, len(o))
	for i := range o {
		if i > 0 {
			s[i] = s[i-1] * math.Pow(base, o[i].Delta/1000)
		}
		s[i] += mult * value(i)
	}
	return s
}

// Sections numbers the strain sections objects fall into. The first section
// ends at the first multiple of 400 ms not before the first object.
func Sections(o []DObj) (sec []int, firstEnd float64, near bool) {
	if len(o) == 0 {
		return
	}
	firstEnd = math.Ceil(o[0].Start/400) * 400
	if f := o[0].Start / 400; math.Abs(f-math.Round(f)) < 1e-10*math.Max(1, math.Abs(f)) && o[0].Start != math.Round(f)*400 {
		near = true
	}
	for i := range o {
		f := (o[i].Start - firstEnd) / 400
		if math.Abs(f-math.Round(f)) < 1e-10*math.Max(1, math.Abs(o[i].Start)/400) && o[i].Start != firstEnd+math.Round(f)*400 {
			near = true
		}
		sec = append(sec, maxInt(0, int(math.Ceil(f))))
	}
	return
}

// Peaks finds the highest strain of every section: that of its objects, and the
// one left over from before at its beginning
func Peaks(o []DObj, level []float64, rhythm []float64, base float64) (peaks []float64, near bool) {
	if len(o) == 0 {
		return []float64{0}, false
	}
	sec, firstEnd, near := Sections(o)
	peaks = make([]float64, sec[len(sec)-1]+1)
	r := func(i int) float64 {
		if rhythm == nil {
			return level[i]
		}
		return level[i] * rhythm[i]
	}
	for s := 1; s < len(peaks); s++ {
		// the last object of the earlier sections
		k := sort.SearchInts(sec, s) - 1
		peaks[s] = r(k) * math.Pow(base, (firstEnd+float64(s-1)*400-o[k].Start)/1000)
	}
	for i := range o {
		peaks[sec[i]] = math.Max(peaks[sec[i]], r(i))
	}
	return
}

// Aggregate sums up peaks: the highest ones are reduced, then the i-th highest counts decay^i
func Aggregate(peaks []float64, reduced int, decay, mult float64) float64 {
	p := append([]float64(nil), peaks...)
	desc := func() { sort.Sort(sort.Reverse(sort.Float64Slice(p))) }
	desc()
	for i := 0; i < reduced && i < len(p); i++ {
		p[i] *= 0.75 + 0.25*math.Log10(1+9*float64(i)/float64(reduced))
	}
	desc()
	sum := 0.0
	for i, v := range p {
		sum += v * math.Pow(decay, float64(i))
	}
	return sum * mult
}

// Aim runs the aim skill
func Aim(o []DObj, sliders bool) (r SkillResult) {
	r.NearAt = len(o)
	r.Strains = Strains(o, 23.25, 0.15, func(i int) float64 {
		v, near := AimValue(o, i, sliders)
		if near && r.NearAt > i {
			r.NearAt = i
		}
		return v
	})
	r.Peaks, r.NearSection = Peaks(o, r.Strains, nil, 0.15)
	r.Value = Aggregate(r.Peaks, 10, 0.9, 1.06)
	return
}

// Speed runs the speed skill
func Speed(o []DObj, window float64) (r SkillResult) {
	r.NearAt = len(o)
	r.Strains = Strains(o, 1375, 0.3, func(i int) float64 { return SpeedValue(o, i, window) })
	for i := range o {
		m, near := Rhythm(o, i, window)
		if near && r.NearAt > i {
			r.NearAt = i
		}
		r.Rhythm = append(r.Rhythm, m)
	}
	r.Peaks, r.NearSection = Peaks(o, r.Strains, r.Rhythm, 0.3)
	r.Value = Aggregate(r.Peaks, 5, 0.9, 1.04)
	return
}

// Flashlight runs the flashlight skill
func Flashlight(o []DObj, radius float64) (r SkillResult) {
	r.NearAt = len(o)
	r.Strains = Strains(o, 0.15, 0.15, func(i int) float64 { return FlashlightValue(o, i, radius) })
	r.Peaks, r.NearSection = Peaks(o, r.Strains, nil, 0.15)
	r.Value = Aggregate(r.Peaks, 10, 1, 1.06)
	return
}

// Stars are the ratings
type Stars struct{ Total, Aim, SliderFactor, Speed, Flashlight float64 }

// Rate turns difficulty values into ratings
func Rate(aim, aimNoSliders, speed, fl float64, relax, flashlight bool) (s Stars) {
	star := func(v float64) float64 { return 0.0675 * math.Sqrt(v) }
	s.Aim, s.Speed, s.Flashlight = star(aim), star(speed), star(fl)
	s.SliderFactor = 1
	if s.Aim > 1e-5 {
		s.SliderFactor = star(aimNoSliders) / s.Aim
	}
	if relax {
		s.Speed = 0
	}
	f := 0.0
	if flashlight {
		f = 25 * s.Flashlight * s.Flashlight
	}
	p := PNorm(BasePP(s.Aim), BasePP(s.Speed), f)
	if p > 1e-5 {
		s.Total = math.Cbrt(1.12) * 0.027 * (4 + math.Cbrt(1e5*p/math.Pow(2, 1/1.1)))
	}
	return
}

// BasePP is the performance value of a rating
func BasePP(stars float64) float64 {
	return math.Pow(5*math.Max(1, stars/0.0675)-4, 3) / 1e5
}

// PNorm joins values with exponent 1.1
func PNorm(v ...float64) float64 {
	s := 0.0
	for _, x := range v {
		s += math.Pow(x, 1.1)
	}
	return math.Pow(s, 1/1.1)
}
