package spec

import (
	"math"
	"sort"
)

// Node is a nested scoring point of a slider
type Node struct {
	Time    float64
	Reverse bool
	Tail    bool
}

// SliderTiming is the timing of a slider
type SliderTiming struct {
	Start, End, Span float64
	Nodes            []Node
	// Unsure is set when a tick is so close to the cut-off at the end of a span
	// that rounding decides whether it exists
	Unsure bool
	// Tie is set when the tail is at (almost) the time of another nested point,
	// so that rounding decides which comes last
	Tie bool
}

// Slide computes when a slider ends and where its nested points are.
// length is the length of its path, pixelLength the one written in the file.
func Slide(start, length, pixelLength float64, spans int, velocity, tickRate, sm, ratio float64, noTicks bool) SliderTiming {
	s := SliderTiming{Start: start}
	s.Span = length / velocity * 1000
	s.End = start + float64(spans)*s.Span

	dist := 100 * sm / tickRate / ratio
	if length > 0 {
		dist = math.Min(dist, pixelLength)
	}
	limit := length - velocity*0.01 // no ticks within 10 ms of the end of a span

	var ticks []float64 // as a fraction of the path
	if !noTicks && dist > 0 {
		for k := 1; ; k++ {
			d := float64(k) * dist
			if math.Abs(d-limit) < 1e-5*(1+length) || math.Abs(d-length) < 1e-5*(1+length) && limit > length {
				s.Unsure = true
			}
			if d >= limit || d > length {
				break
			}
			ticks = append(ticks, d/length)
		}
	}

	for i := 0; i < spans; i++ {
		from := start + float64(i)*s.Span
		for _, f := range ticks {
			if i%2 == 1 {
				f = 1 - f
			}
			s.Nodes = append(s.Nodes, Node{Time: from + f*s.Span})
		}
		if i < spans-1 {
			s.Nodes = append(s.Nodes, Node{Time: from + s.Span, Reverse: true})
		}
	}
	s.Nodes = append(s.Nodes, Node{Time: math.Max(start+(s.End-start)/2, s.End-36), Tail: true})
	tail := s.Nodes[len(s.Nodes)-1].Time
	for _, n := range s.Nodes[:len(s.Nodes)-1] {
		if math.Abs(n.Time-tail) < 1e-3 {
			s.Tie = true
		}
	}
	sort.SliceStable(s.Nodes, func(i, j int) bool { return s.Nodes[i].Time < s.Nodes[j].Time })
	return s
}

// Progress is how far along the path (0..1) the ball is at a time
func (s SliderTiming) Progress(t float64) float64 {
	if s.End == s.Start {
		return 0
	}
	t = math.Min(math.Max(t, s.Start), s.End)
	p := (t - s.Start) / s.Span
	k := math.Floor(p)
	f := p - k
	if int64(k)%2 != 0 {
		f = 1 - f
	}
	return f
}
