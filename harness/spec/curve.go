package spec

import "math"

// Path is a densely sampled ideal curve
type Path struct {
	Pts []V2
	Cum []float64
	// Exact paths are polylines, no sampling error
	Exact bool
}

func (p *Path) add(v V2) {
	if n := len(p.Pts); n > 0 {
		p.Cum = append(p.Cum, p.Cum[n-1]+p.Pts[n-1].Dist(v))
	} else {
		p.Cum = append(p.Cum, 0)
	}
	p.Pts = append(p.Pts, v)
}

// Len is the length of the path
func (p *Path) Len() float64 {
	if len(p.Cum) == 0 {
		return 0
	}
	return p.Cum[len(p.Cum)-1]
}

// At is the point at a distance from the start; beyond the end the path goes on straight
func (p *Path) At(s float64) V2 {
	n := len(p.Pts)
	if n == 0 {
		return V2{}
	}
	if s >= p.Len() {
		for i := n - 1; i > 0; i-- {
			if d := p.Pts[i].Sub(p.Pts[i-1]); d.Len() > 0 {
				return p.Pts[n-1].Add(d.Mul((s - p.Len()) / d.Len()))
			}
		}
		return p.Pts[n-1]
	}
	lo, hi := 0, n-1
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if p.Cum[m] <= s {
			lo = m
		} else {
			hi = m
		}
	}
	l := p.Cum[hi] - p.Cum[lo]
	if l == 0 {
		return p.Pts[lo]
	}
	f := (s - p.Cum[lo]) / l
	return p.Pts[lo].Add(p.Pts[hi].Sub(p.Pts[lo]).Mul(f))
}

// Dist is the distance of a point from the part of the path between two lengths
func (p *Path) Dist(v V2, from, to float64) float64 {
	best := math.Min(v.Dist(p.At(from)), v.Dist(p.At(to)))
	for i := 1; i < len(p.Pts); i++ {
		if p.Cum[i] < from || p.Cum[i-1] > to {
			continue
		}
		best = math.Min(best, segDist(v, p.Pts[i-1], p.Pts[i]))
	}
	return best
}

func segDist(v, a, b V2) float64 {
	d := b.Sub(a)
	l := d.Dot(d)
	if l == 0 {
		return v.Dist(a)
	}
	t := math.Max(0, math.Min(1, v.Sub(a).Dot(d)/l))
	return v.Dist(a.Add(d.Mul(t)))
}

// Casteljau evaluates a Bezier curve
func Casteljau(pts []V2, t float64) V2 {
	w := append([]V2(nil), pts...)
	for n := len(w) - 1; n > 0; n-- {
		for i := 0; i < n; i++ {
			w[i] = w[i].Mul(1 - t).Add(w[i+1].Mul(t))
		}
	}
	return w[0]
}

// CatmullAt evaluates a Catmull-Rom segment from b to c
func CatmullAt(a, b, c, d V2, t float64) V2 {
	// Hermite form with tangents (c-a)/2 and (d-b)/2
	m0, m1 := c.Sub(a).Mul(0.5), d.Sub(b).Mul(0.5)
	h00 := (1 + 2*t) * (1 - t) * (1 - t)
	h10 := t * (1 - t) * (1 - t)
	h01 := t * t * (3 - 2*t)
	h11 := t * t * (t - 1)
	return b.Mul(h00).Add(m0.Mul(h10)).Add(c.Mul(h01)).Add(m1.Mul(h11))
}

// Circle is the circle through three points; ok is false if they are on a line
func Circle(a, b, c V2) (centre V2, r float64, ok bool) {
	u, v := b.Sub(a), c.Sub(a)
	k := 2 * u.Cross(v)
	if k == 0 {
		return
	}
	uu, vv := u.Dot(u), v.Dot(v)
	o := V2{(v.Y*uu - u.Y*vv) / k, (u.X*vv - v.X*uu) / k}
	return a.Add(o), o.Len(), true
}

// Arc is the arc from a over b to c
func Arc(a, b, c V2) (centre V2, r, start, sweep float64, ok bool) {
	centre, r, ok = Circle(a, b, c)
	if !ok {
		return
	}
	ang := func(p V2) float64 { return math.Atan2(p.Y-centre.Y, p.X-centre.X) }
	norm := func(x float64) float64 {
		for x < 0 {
			x += 2 * math.Pi
		}
		for x >= 2*math.Pi {
			x -= 2 * math.Pi
		}
		return x
	}
	start = ang(a)
	toB, toC := norm(ang(b)-start), norm(ang(c)-start)
	if toB < toC {
		sweep = toC
	} else {
		sweep = toC - 2*math.Pi // the other way round
	}
	return
}

// IdealPath samples the curve a slider of a type describes, without its length
func IdealPath(typ string, pts []V2) *Path {
	p := &Path{}
	switch typ {
	case "L":
		p.Exact = true
		for _, v := range pts {
			p.add(v)
		}
	case "B":
		p.bezier(pts)
	case "P":
		if len(pts) == 3 && math.Abs(pts[1].Sub(pts[0]).Cross(pts[2].Sub(pts[0]))) >= 0.001 {
			o, r, start, sweep, _ := Arc(pts[0], pts[1], pts[2])
			n := int(math.Abs(r*sweep)) + 8
			if n > 20000 {
				n = 20000
			}
			for i := 0; i <= n; i++ {
				s, c := math.Sincos(start + sweep*float64(i)/float64(n))
				p.add(V2{o.X + r*c, o.Y + r*s})
			}
		} else if len(pts) > 3 {
			p.bezier(pts)
		} else {
			return IdealPath("L", pts)
		}
	case "C":
		for i := 0; i+1 < len(pts); i++ {
			b, c := pts[i], pts[i+1]
			a, d := b, c.Add(c.Sub(b))
			if i > 0 {
				a = pts[i-1]
			}
			if i+2 < len(pts) {
				d = pts[i+2]
			}
			n := 200
			for k := 0; k <= n; k++ {
				p.add(CatmullAt(a, b, c, d, float64(k)/float64(n)))
			}
		}
	}
	return p
}

func (p *Path) bezier(pts []V2) {
	from := 0
	p.Exact = true
	seg := func(s []V2) {
		if len(s) <= 2 {
			for _, v := range s {
				p.add(v)
			}
			return
		}
		p.Exact = false
		n := 0.0
		for i := 1; i < len(s); i++ {
			n += s[i].Dist(s[i-1])
		}
		k := int(math.Min(4000, n)) + 16
		for i := 0; i <= k; i++ {
			p.add(Casteljau(s, float64(i)/float64(k)))
		}
	}
	for i := 0; i < len(pts); i++ {
		if i < len(pts)-2 && pts[i] == pts[i+1] { // a repeated point separates pieces
			seg(pts[from : i+1])
			i++
			from = i
		} else if i == len(pts)-1 {
			seg(pts[from:])
		}
	}
}
