package spec

import "math"

// TPoint is a control point as written in the file
type TPoint struct {
	Time, Beat float64
	Inherited  bool
}

// At returns the index of the point in effect at a time: the latest one not
// after it (the last written one among equals), or the earliest if all are later
func At(tps []TPoint, t float64) int {
	best, first := -1, -1
	for i, p := range tps {
		if p.Time <= t && (best < 0 || p.Time >= tps[best].Time) {
			best = i
		}
		if first < 0 || p.Time < tps[first].Time {
			first = i
		}
	}
	if best < 0 {
		return first
	}
	return best
}

// before tells whether point a precedes point b (time, then order of writing)
func before(tps []TPoint, a, b int) bool {
	return tps[a].Time < tps[b].Time || tps[a].Time == tps[b].Time && a < b
}

// Base is the beat length a point stands on: its own if it is uninherited,
// otherwise the one of the closest preceding uninherited point. ok is false if there is none.
func Base(tps []TPoint, i int) (beat float64, ok bool) {
	if !tps[i].Inherited {
		return tps[i].Beat, true
	}
	best := -1
	for j, p := range tps {
		if !p.Inherited && before(tps, j, i) && (best < 0 || before(tps, best, j)) {
			best = j
		}
	}
	if best < 0 {
		return 0, false
	}
	return tps[best].Beat, true
}

// Ratio is by how much a point slows sliders down
func Ratio(beat float64) float64 {
	if math.IsNaN(beat) || beat >= 0 {
		return 1
	}
	r := -beat / 100
	return math.Max(0.1, math.Min(10, r))
}

// Velocity in osu! pixels per second
func Velocity(sm, base, ratio float64) float64 {
	v := 100 * sm
	if b := base * ratio; b >= 0 {
		v *= 1000 / b
	}
	return v
}
