# (id, property, [(file, old, new)...], needs, breaks, go body of main, race)
S = []
def seed(id, prop, edits, needs, breaks, body, race=False, nth=None):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, body=body, race=race))

P = 'beatmap/parser.go'
seed('c05-unstable-sort', 'C05', [(P, 'sort.SliceStable(beatMap.HitObjects', 'sort.Slice(beatMap.HitObjects')],
 'more than twelve objects with equal start times among them',
 'objects of equal time are no longer in file order (unstable sort), which also changes combos and stacking', '''
	m := base()
	for i := 0; i < 60; i++ {
		m.Obj = append(m.Obj, circ(i, 100, 1000+i*7%5*300))
	}
	last := m.parse().HitObjects[0]
	for i, o := range m.parse().HitObjects[1:] {
		check(o.GetStartTime() > last.GetStartTime() || o.GetStartPosition().X > last.GetStartPosition().X, "object %d is out of file order", i)
		last = o
	}
''')
seed('c06-sv-floor', 'C06', [('beatmap/timing/timing.go', 'mutils.ClampF64(-t.beatLength, 10, 1000)', 'mutils.ClampF64(-t.beatLength, 10, 400)')],
 'an inherited point slower than a quarter of the base velocity',
 'inherited points below 25 percent scale velocity by 25 percent instead of their own value', '''
	m := base()
	m.TP = append(m.TP, "1000,-800,4,1,0,50,0,0")
	m.Obj = []string{circ(0, 0, 500), slid(100, 100, 2000, "L|300:100", 1, 200)}
	bm := m.parse()
	p := bm.Timings.GetPointAt(1500)
	check(math.Abs(p.GetRatio()-8) < 1e-6, "ratio %v", p.GetRatio())
	check(math.Abs(bm.HitObjects[1].GetDuration()-200/140.0*300*8) < 1, "duration %v", bm.HitObjects[1].GetDuration())
''')
seed('c06-late-original', 'C06', [('beatmap/timing/timing.go', '''		return time < tim.originalPoints[i].Time
''', '''		return time <= tim.originalPoints[i].Time
''')],
 'a lookup of the underlying beat exactly at the time of an uninherited point',
 'the underlying beat at the very time of an uninherited point is that of the one before', '''
	m := base()
	m.TP = append(m.TP, "3000,500,4,1,0,50,1,0")
	m.Obj = []string{circ(0, 0, 500)}
	bm := m.parse()
	check(bm.Timings.GetOriginalPointAt(3000).GetBaseBeatLength() == 500, "wrong beat at 3000")
	check(bm.Timings.GetOriginalPointAt(2999.5).GetBaseBeatLength() == 300, "wrong beat before 3000")
''')
seed('c08-catmull-last', 'C08', [('math/curves/multicurve.go', 'p4 = p3.Add(p3.Sub(p2))', 'p4 = p3')],
 'a Catmull-Rom slider; only its last segment is affected',
 'the last segment of Catmull-Rom paths bends differently because its outer control point is not extrapolated', '''
	m := base()
	m.Obj = []string{slid(0, 0, 1000, "C|100:0|100:100|200:150", 1, 100000)}
	s := m.parse().HitObjects[0]
	_ = s
	c := curves.NewMultiCurve("C", []vector.Vector2f{{X: 0, Y: 0}, {X: 100, Y: 0}, {X: 100, Y: 100}, {X: 200, Y: 150}})
	for i := 0; i <= 40; i++ {
		p := c.PointAt(float32(i) / 40)
		rec("p", float64(p.X), float64(p.Y))
	}
	finish()
''')
seed('c08-bezier-reuse', 'C08', [('math/curves/multicurve.go', 'multi := i < len(points)-2 && points[i] == points[i+1]', 'multi := i > 0 && i < len(points)-2 && points[i] == points[i+1]')],
 'a Bezier slider whose first control point is repeated',
 'a repeated first control point is drawn as part of the curve instead of separating an empty piece from it', '''
	c := curves.NewMultiCurve("B", []vector.Vector2f{{X: 0, Y: 0}, {X: 0, Y: 0}, {X: 100, Y: 0}, {X: 100, Y: 100}})
	d := curves.NewMultiCurve("B", []vector.Vector2f{{X: 0, Y: 0}, {X: 100, Y: 0}, {X: 100, Y: 100}})
	for i := 0; i <= 40; i++ {
		t := float32(i) / 40
		check(c.PointAt(t).Dst(d.PointAt(t)) < 0.5, "at %v: %v instead of %v", t, c.PointAt(t), d.PointAt(t))
	}
''')
seed('c09-fourth-span', 'C09', [('beatmap/objects/slider.go', 'reversed := span%2 == 1', 'reversed := span == 1')],
 'a slider of four or more passes whose ticks are not symmetric along the path',
 'ticks on the fourth, sixth, ... pass are placed as if the ball moved forward', '''
	m := base()
	m.Obj = []string{slid(0, 0, 1000, "L|400:0", 4, 250)}
	s := m.parse().HitObjects[0].(*objects.Slider)
	for _, p := range s.ScorePoints {
		rec("points", p.Time)
	}
	finish()
''')
seed('c09-tail-short', 'C09', [('beatmap/objects/slider.go', 'math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36)', 'math.Max(slider.StartTime+slider.spanDuration/2, slider.EndTime-36)')],
 'a slider with repeats that lasts less than 72 ms',
 'the tail of very short repeating sliders lies before the middle of the slider', '''
	m := base()
	m.Obj = []string{slid(0, 0, 1000, "L|400:0", 4, 5)}
	s := m.parse().HitObjects[0].(*objects.Slider)
	tail := 0.0
	for _, p := range s.ScorePoints {
		if !p.IsReverse {
			tail = p.Time
		}
	}
	want := math.Max((s.StartTime+s.EndTime)/2, s.EndTime-36)
	check(math.Abs(tail-want) < 1e-6, "tail at %v instead of %v", tail, want)
''')
seed('c10-easy-offset', 'C10', [('beatmap/objects/hitobject.go', 'return basePosition.Add(hitObject.StackOffsetEZ)', 'return basePosition.Add(hitObject.StackOffset)')],
 'stacked objects under Easy',
 'with Easy the stack offset of no mods is applied', '''
	m := base()
	m.Obj = []string{circ(100, 100, 1000), circ(100, 100, 1200), circ(100, 100, 1400), circ(300, 100, 1600)}
	o := m.parse().HitObjects[0]
	p := o.GetStackedStartPositionMod(difficulty.Easy)
	r := diffOf(m.parse(), difficulty.Easy).CircleRadius
	want := 100 - 2*r/10
	check(math.Abs(float64(p.X)-want) < 1e-3, "x %v instead of %v", p.X, want)
''')
seed('c10-past-end', 'C10', [('beatmap/objects/slider.go', 't1 := mutils.ClampF64(time, slider.StartTime, slider.EndTime)', 't1 := mutils.ClampF64(time, slider.StartTime, math.Inf(1))')],
 'asking for the position of a slider after its end',
 'a slider keeps moving back after it has ended', '''
	m := base()
	m.Obj = []string{slid(0, 0, 1000, "L|200:0", 1, 200)}
	s := m.parse().HitObjects[0]
	p := s.GetPositionAt(s.GetEndTime() + 100)
	check(math.Abs(float64(p.X)-200) < 0.01, "x %v", p.X)
''')
seed('c11-old-slider', 'C11', [('beatmap/stackleniency.go', '''					objectN.SetStackIndex(objectN.GetStackIndex(modifiers)-sliderStack, modifiers)
					startTime = objectN.GetEndTime()''', '''					objectN.SetStackIndex(objectN.GetStackIndex(modifiers)-sliderStack, modifiers)
					startTime = objectN.GetStartTime()''')],
 'format version below 6, a slider starting on the end of another and a further object just within reach of the end of the second',
 'old stacking measures from the start instead of the end of a slider stacked under another', '''
	m := base()
	m.V = 5
	m.Obj = []string{slid(0, 0, 1000, "L|100:0", 1, 100), slid(100, 0, 1300, "L|100:300", 1, 250), circ(100, 0, 2100), circ(300, 300, 4000)}
	for _, o := range m.parse().HitObjects {
		rec("stack", float64(o.GetStackIndex(difficulty.None)), float64(o.GetStackIndex(difficulty.HardRock)), float64(o.GetStackIndex(difficulty.Easy)))
	}
	finish()
''')
seed('c11-extended-start', 'C11', [('beatmap/stackleniency.go', '''				if isSlider(objectN) && objectN.GetEndPosition().Dst(objectI.GetStartPosition()) < stackDistance {
					offset :=''', '''				if isSlider(objectN) && objectN.GetEndPosition().Dst(hitObjects[i].GetStartPosition()) < stackDistance {
					offset :=''')],
 'a chain of circles drifting by less than the stack distance each, ending on a slider end',
 'the slider end is compared with the top of the stack instead of the object below it', '''
	m := base()
	m.Obj = []string{slid(0, 100, 1000, "L|100:100", 1, 100), circ(102, 100, 1400), circ(104, 100, 1600), circ(106, 100, 1800), circ(300, 300, 4000)}
	for _, o := range m.parse().HitObjects {
		rec("stack", float64(o.GetStackIndex(difficulty.None)), float64(o.GetStackIndex(difficulty.HardRock)), float64(o.GetStackIndex(difficulty.Easy)))
	}
	finish()
''')
seed('c12-cs-cap', 'C12', [('beatmap/difficulty/difficulty.go', 'cs = math.Min(cs*1.3, 10)', 'cs = cs * 1.3')],
 'Hard Rock on a map with circle size above 7.7',
 'circle size under Hard Rock is not limited to 10', '''
	d := difficulty.NewDifficulty(5, 9, 5, 5)
	d.SetMods(difficulty.HardRock)
	check(math.Abs(d.CircleRadius-9.6) < 1e-9, "radius %v", d.CircleRadius)
''')
seed('c12-ht-speed', 'C12', [('beatmap/difficulty/difficulty.go', 'return time / (0.75 * diff.CustomSpeed)', 'return time / 0.75')],
 'Half Time together with a custom speed',
 'a custom speed has no effect under Half Time', '''
	d := difficulty.NewDifficulty(5, 5, 5, 5)
	d.SetMods(difficulty.HalfTime)
	d.SetCustomSpeed(1.2)
	check(math.Abs(d.Speed-0.9) < 1e-9, "speed %v", d.Speed)
''')
seed('c12-stale-od', 'C12', [('beatmap/difficulty/difficulty.go', '''	diff.CustomSpeed = speed
	diff.calculate()''', '''	diff.CustomSpeed = speed
	diff.Speed = 1.0 / diff.GetModifiedTime(1)
	diff.ARReal = DiffFromRate(diff.GetModifiedTime(diff.Preempt), 1800, 1200, 450)''')],
 'setting a custom speed and reading the effective overall difficulty',
 'the effective overall difficulty stays that of the previous speed', '''
	d := difficulty.NewDifficulty(5, 5, 8, 9)
	d.SetCustomSpeed(1.3)
	want := difficulty.DiffFromRate(d.Hit300/1.3, 80, 50, 20)
	check(math.Abs(d.ODReal-want) < 1e-9, "effective OD %v instead of %v", d.ODReal, want)
''')
seed('c13-full-daycore', 'C13', [('beatmap/difficulty/mods.go', '''func (mods Modifier) StringFull() (s []string) {
	if mods.Active(Nightcore) {
		mods &= ^DoubleTime
	}

	if mods.Active(Daycore) {
		mods &= ^HalfTime
	}
''', '''func (mods Modifier) StringFull() (s []string) {
	if mods.Active(Nightcore) {
		mods &= ^DoubleTime
	}
''')],
 'the long name of a combination with Daycore',
 'long names list Half Time besides Daycore', '''
	got := strings.Join((difficulty.Daycore | difficulty.HalfTime | difficulty.Hidden).StringFull(), ",")
	check(got == "Hidden,Daycore", "%s", got)
''')
seed('c13-parse-dup', 'C13', [('beatmap/difficulty/mods.go', '				m |= 1 << uint(index)', '				m ^= 1 << uint(index)')],
 'a mod written twice in a text',
 'a repeated mod cancels itself', '''
	check(difficulty.ParseMods("HDHRHD") == difficulty.Hidden|difficulty.HardRock, "HDHRHD")
''')
seed('c14-autopilot-so', 'C14', [('beatmap/difficulty/mods.go', ''' ||
		(mods.Active(Relax2) && mods.Active(SpunOut)) {''', ''' {''')],
 'Autopilot together with Spun Out',
 'Autopilot and Spun Out are reported as compatible', '''
	check(!(difficulty.Relax2 | difficulty.SpunOut).Compatible(), "AP+SO")
''')
seed('c14-nc-dc', 'C14', [('beatmap/difficulty/mods.go', '((mods.Active(Nightcore) || mods.Active(DoubleTime)) && (mods.Active(HalfTime) || mods.Active(Daycore)))', '(mods.Active(DoubleTime) && (mods.Active(HalfTime) || mods.Active(Daycore)))')],
 'Nightcore given without the Double Time it implies, with Half Time',
 'Nightcore without Double Time is reported as compatible with Half Time', '''
	check(!(difficulty.Nightcore | difficulty.HalfTime).Compatible(), "NC+HT")
	check(!(difficulty.Nightcore | difficulty.Daycore).Compatible(), "NC+DC")
''')
seed('c14-hr-v2', 'C14', [('beatmap/difficulty/mods.go', '			multiplier *= 1.10\n', '			multiplier *= 1.06\n')],
 'the multiplier of Hard Rock with ScoreV2',
 'ScoreV2 does not raise the multiplier of Hard Rock', '''
	got := (difficulty.HardRock | difficulty.ScoreV2).GetScoreMultiplier()
	check(math.Abs(got-1.1) < 1e-12, "%v", got)
''')
