package spec

import "math"

// StackObj is what stacking looks at
type StackObj struct {
	Start, End float64
	Pos, Tail  [2]float32
	Slider     bool
	Spinner    bool
}

// Stack computes the stack heights for a preempt time.
// near is set when a distance is so close to the 3 pixel threshold (and not
// exactly computed from whole coordinates) that rounding may decide.
func Stack(objs []StackObj, version int, preempt, leniency float64) (h []int, near bool) {
	threshold := math.Floor(preempt * leniency)
	touch := func(a, b [2]float32) bool {
		dx, dy := float64(a[0])-float64(b[0]), float64(a[1])-float64(b[1])
		d := math.Sqrt(dx*dx + dy*dy)
		if d != 3 && math.Abs(d-3) < 1e-4 {
			near = true
		}
		return d < 3
	}
	late := func(start, end float64) bool { // too far apart in time
		gap := start - end
		if math.Abs(gap-threshold) < 1e-6 && (start*64 != math.Floor(start*64) || end*64 != math.Floor(end*64)) {
			near = true
		}
		return gap > threshold
	}
	h = make([]int, len(objs))

	if version < 6 {
		for i, o := range objs {
			if h[i] != 0 && !o.Slider {
				continue
			}
			end := o.End
			bumped := 0
			for j := i + 1; j < len(objs); j++ {
				n := objs[j]
				if late(n.Start, end) {
					break
				}
				if touch(n.Pos, o.Pos) {
					h[i]++
					end = n.End
				} else if touch(n.Pos, o.Tail) {
					bumped++
					h[j] -= bumped
					end = n.End
				}
			}
		}
	} else {
		for i := len(objs) - 1; i > 0; i-- {
			if h[i] != 0 || objs[i].Spinner {
				continue
			}
			cur := i
			for n := i - 1; n >= 0; n-- {
				o := objs[n]
				if o.Spinner {
					continue
				}
				if objs[i].Slider { // the top of the stack is a slider
					if late(objs[cur].Start, o.Start) {
						break
					}
					if touch(o.Tail, objs[cur].Pos) {
						h[n] = h[cur] + 1
						cur = n
					}
					continue
				}
				if late(objs[cur].Start, o.End) {
					break
				}
				if o.Slider && touch(o.Tail, objs[cur].Pos) {
					off := h[cur] - h[n] + 1
					for j := n + 1; j <= i; j++ {
						if touch(o.Tail, objs[j].Pos) {
							h[j] -= off
						}
					}
					break
				}
				if touch(o.Pos, objs[cur].Pos) {
					h[n] = h[cur] + 1
					cur = n
				}
			}
		}
	}
	for i, o := range objs {
		if o.Spinner {
			h[i] = 0
		}
	}
	return
}
