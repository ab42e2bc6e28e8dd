package spec

import (
	"math"
)

// V2 is a point in double precision
type V2 struct{ X, Y float64 }

func (a V2) Sub(b V2) V2        { return V2{a.X - b.X, a.Y - b.Y} }
func (a V2) Add(b V2) V2        { return V2{a.X + b.X, a.Y + b.Y} }
func (a V2) Mul(k float64) V2   { return V2{a.X * k, a.Y * k} }
func (a V2) Len() float64       { return math.Hypot(a.X, a.Y) }
func (a V2) Dist(b V2) float64  { return a.Sub(b).Len() }
func (a V2) Dot(b V2) float64   { return a.X*b.X + a.Y*b.Y }
func (a V2) Cross(b V2) float64 { return a.X*b.Y - a.Y*b.X }

// Kinds of hit objects
const (
	KCircle = iota
	KSlider
	KSpinner
)

// HO is a hit object as seen by the difficulty calculation: positions are the
// ones on screen (stacked, flipped by HR)
type HO struct {
	Kind       int
	Start, End float64
	Pos, Tail  V2
	Nodes      []Node
	Slides     int64
	At         func(t float64) V2
}

// Lazy is how a player who moves the cursor as little as possible follows a slider
type Lazy struct {
	End      V2
	Distance float64
	Time     float64
	// Near: two ways of ending the slider are equally long, rounding decides which is taken
	Near bool
}

// FollowLazily computes the laziest way through a slider
func FollowLazily(s *HO, radius float64) (l Lazy) {
	k := 50 / radius
	n := len(s.Nodes)
	l.Time = s.Nodes[n-1].Time - s.Start
	cursor := s.Pos
	early := s.At(s.Start + l.Time)
	for i, nd := range s.Nodes {
		need := 90.0
		var move V2
		if i < n-1 {
			if nd.Reverse {
				need = 50
			}
			move = s.At(nd.Time).Sub(cursor)
		} else {
			move = s.At(s.End).Sub(cursor)
			alt := early.Sub(cursor)
			if a, b := alt.Len(), move.Len(); math.Abs(a-b) < 1e-3 && alt.Dist(move) > 1e-2 && math.Max(a, b)*k > need-0.01 {
				l.Near = true
			}
			if alt.Len() < move.Len() {
				move = alt
			}
		}
		if d := move.Len() * k; d > need {
			l.Distance += d - need
			cursor = cursor.Add(move.Mul(1 - need/d))
		}
	}
	l.End = cursor
	l.Distance *= math.Pow(1+float64(s.Slides-1)/2.5, 0.4)
	return
}

// DObj is a difficulty object
type DObj struct {
	Kind int

	Delta, Start, End, Strain     float64
	Jump, Movement, Travel, Angle float64
	MovementTime, TravelTime      float64
	Pos, Tail                     V2
	// AngleArm is the length of the shorter leg of the angle, 0 if there is no angle
	AngleArm float64
	Near     bool
}

// DiffObjects derives the difficulty objects; one per hit object but the first
func DiffObjects(objs []*HO, rate, radius float64) (res []DObj) {
	lazy := make([]Lazy, len(objs))
	for i, o := range objs {
		lazy[i].End = o.Pos
		if o.Kind == KSlider {
			lazy[i] = FollowLazily(o, radius)
		}
	}
	k := 50 / radius
	if radius < 30 {
		k *= 1 + math.Min(30-radius, 5)/50
	}
	for i := 1; i < len(objs); i++ {
		o, last := objs[i], objs[i-1]
		d := DObj{Kind: o.Kind, Pos: o.Pos, Tail: o.Tail, Angle: math.NaN()}
		d.Delta = (o.Start - last.Start) / rate
		d.Start, d.End = o.Start/rate, o.End/rate
		d.Strain = math.Max(25, d.Delta)
		if o.Kind != KSpinner && last.Kind != KSpinner {
			from := lazy[i-1].End
			d.Jump = o.Pos.Dist(from) * k
			if last.Kind == KSlider {
				d.Near = lazy[i-1].Near
				d.Travel = lazy[i-1].Distance
				d.TravelTime = math.Max(25, lazy[i-1].Time/rate)
				d.MovementTime = math.Max(25, d.Strain-d.TravelTime)
				tail := last.Tail.Dist(o.Pos) * k
				d.Movement = math.Max(0, math.Min(d.Jump-30, tail-120))
			} else {
				d.Movement, d.MovementTime = d.Jump, d.Strain
			}
			if i > 1 && objs[i-2].Kind != KSpinner {
				v1 := lazy[i-2].End.Sub(last.Pos)
				v2 := o.Pos.Sub(from)
				d.Near = d.Near || lazy[i-2].Near
				d.Angle = math.Abs(math.Atan2(v1.Cross(v2), v1.Dot(v2)))
				d.AngleArm = math.Min(v1.Len(), v2.Len())
			}
		}
		res = append(res, d)
	}
	return
}
