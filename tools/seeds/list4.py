from list1 import seed
from list2 import *
TIM='beatmap/timing/timing.go'; P='beatmap/parser.go'; SL='beatmap/objects/slider.go'; ST='beatmap/stackleniency.go'; PRE='performance/osu/preprocessing/objects.go'

seed('c06-hint', 'C06', [(TIM, '''	points         []ControlPoint
''', '''	points         []ControlPoint
	lastIndex      int
'''), (TIM, '''	tLen := len(tim.originalPoints)
''', '''	tLen := len(tim.originalPoints)

	if i := tim.lastIndex; i+1 < tLen && tim.originalPoints[i].Time <= time && time <= tim.originalPoints[i+1].Time {
		return tim.originalPoints[i]
	}
'''), (TIM, '''	return tim.originalPoints[mutils.MaxI(0, index-1)]
''', '''	tim.lastIndex = mutils.MaxI(0, index-1)

	return tim.originalPoints[tim.lastIndex]
''')],
 'a query of the underlying beat exactly at the time of a point that follows a query in the section before it',
 'the point in effect is remembered between queries and given once too often', '''
	m := base()
	m.TP = append(m.TP, "2000,500,4,1,0,50,1,0", "4000,250,4,1,0,50,1,0")
	m.Obj = []string{circ(0, 0, 500)}
	tim := m.parse().Timings
	tim.GetOriginalPointAt(1000)
	check(tim.GetOriginalPointAt(2000).Time == 2000, "%v", tim.GetOriginalPointAt(2000).Time)
	check(tim.GetOriginalPointAt(4000).Time == 4000, "%v", tim.GetOriginalPointAt(4000).Time)
''')
seed('c11-window', 'C11', [(ST, '''				if n < extendedStartIndex {''', '''				if i-n > 100 {
					break
				}

				if n < extendedStartIndex {''')],
 'more than a hundred objects stacked in one place',
 'stacks of circles end after a hundred objects and start anew', '''
	m := base()
	m.SL = 1
	for i := 0; i < 130; i++ {
		m.Obj = append(m.Obj, circ(100, 100, 1000+i*20))
	}
	check(m.parse().HitObjects[0].GetStackIndex(difficulty.None) == 129, "%v", m.parse().HitObjects[0].GetStackIndex(difficulty.None))
''')
seed('c11-break-order', 'C11', [(ST, '''				if isSlider(objectN) && objectN.GetEndPosition().Dst(objectI.GetStartPosition()) < stackDistance {
					offset''', '''				if isSlider(objectN) && objectN.GetStackIndex(modifiers) == 0 && objectN.GetEndPosition().Dst(objectI.GetStartPosition()) < stackDistance {
					offset''')],
 'circles under the end of a slider that is itself stacked under something later',
 'circles under the end of a slider which is stacked itself do not go down', '''
	m := base()
	m.SL = 1
	m.Obj = []string{slid(0, 0, 1000, "L|100:0", 2, 100), slid(0, 0, 2100, "L|100:0", 1, 100), circ(0, 0, 2200), circ(0, 0, 2300), circ(100, 0, 2400), circ(0, 0, 2500)}
	for _, o := range m.parse().HitObjects {
		rec("stack", float64(o.GetStackIndex(difficulty.None)))
	}
	finish()
''')
seed('c04-cut', 'C04', [(P, '''	if err := scanner.Err(); err != nil {
		return nil, err''', '''	if err := scanner.Err(); err != nil && !(errors.Is(err, io.ErrUnexpectedEOF) && counter > 0) {
		return nil, err''')],
 'a stream that ends too early, after the first timing point',
 'a file whose stream is cut off is read as far as it came', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500), circ(0, 0, 1500)}
	t := m.text()
	r := io.MultiReader(strings.NewReader(t[:len(t)-12]), iotest.ErrReader(io.ErrUnexpectedEOF))
	_, err := beatmap.ParseFromReader(r)
	check(err != nil, "no error")
''')
seed('c19-floor-section', 'C19', [(SK, 'skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength', 'skill.currentSectionEnd = (math.Floor(startTime/sectionLength) + 1) * sectionLength')],
 'a second object exactly at the end of a section',
 'the first section of a map whose second object is on a section boundary is the one after it', '''
	m := base()
	for i := 0; i < 12; i++ {
		m.Obj = append(m.Obj, circ(i%2*150, i%3*90, 1000+i*200))
	}
	bm := m.parse()
	p := osu.CalculateStrainPeaks(bm.HitObjects, diffOf(bm, difficulty.None))
	check(len(p.Aim) == 6, "%d sections", len(p.Aim))
''')
seed('c20-spinner-skip', 'C20', [(D, '''		attr := stars[i]
		addObjectToAttribs(objects[i+1], &attr)
''', '''		attr := stars[i]
		addObjectToAttribs(objects[i+1], &attr)

		if attr.Spinners > stars[i].Spinners {
			aimSkill.Process(o)
			aimNoSlidersSkill.Process(o)
			speedSkill.Process(o)

			if flashlightSkill != nil {
				flashlightSkill.Process(o)
			}

			stars = append(stars, attr)

			continue
		}
''')],
 'a spinner that begins a new section',
 'stepwise ratings are not computed again at spinners although new sections begin there', rnd(5, 60, 8)+'''
	bm := m.parse()
	steps := osu.CalculateStep(bm.HitObjects, diffOf(bm, difficulty.None))
	for i := range steps {
		check(steps[i] == osu.CalculateSingle(bm.HitObjects[:i+1], diffOf(bm, difficulty.None)), "step %d", i)
	}
''')
seed('c15-late-times', 'C15', [(OBJ, '(hitObject.GetStartTime() - lastObject.GetStartTime()) / d.Speed', 'float64(float32(hitObject.GetStartTime())-float32(lastObject.GetStartTime())) / d.Speed')],
 'objects more than four hours into the map, or times with fractions of a millisecond',
 'intervals are computed in single precision', '''
	for _, start := range []int{1000, 16777217} {
		m := base()
		m.Obj = []string{circ(0, 0, start), circ(100, 0, start+101), circ(200, 0, start+202)}
		bm := m.parse()
		for i, o := range preprocessing.CreateDifficultyObjects(bm.HitObjects, diffOf(bm, difficulty.None)) {
			check(o.DeltaTime == 101, "%d: object %d: %v", start, i, o.DeltaTime)
		}
	}
''')
seed('c10-many-passes', 'C10', [(SL, '''	progress := (t1 - slider.StartTime) / slider.spanDuration

	progress = math.Mod(progress, 2)
''', '''	progress := float64(float32(t1-slider.StartTime) / float32(slider.spanDuration))

	progress = math.Mod(progress, 2)
''')],
 'a slider of hundreds of passes',
 'the position on a slider of many passes is computed in single precision', '''
	m := base()
	m.Obj = []string{slid(0, 0, 1000, "L|140:0", 4001, 140)}
	s := m.parse().HitObjects[0]
	p := s.GetPositionAt(1000 + 300*4000 + 100.25)
	check(math.Abs(float64(p.X)-140*100.25/300) < 0.005, "%v", p.X)
''')
seed('c09-tail-order', 'C09', [(SL, '''	sort.Slice(slider.ScorePoints, func(i, j int) bool {
		return slider.ScorePoints[i].Time < slider.ScorePoints[j].Time
	})
''', '''	if slider.RepeatCount > 1 {
		sort.Slice(slider.ScorePoints, func(i, j int) bool {
			return slider.ScorePoints[i].Time < slider.ScorePoints[j].Time
		})
	}
''')],
 'a slider of a single pass with a tick within its last 36 ms',
 'the tail comes after a later tick', '''
	m := base()
	m.Obj = []string{slid(0, 0, 1000, "L|200:0", 1, 150)}
	s := m.parse().HitObjects[0].(*objects.Slider)
	for i, p := range s.ScorePoints[1:] {
		check(p.Time >= s.ScorePoints[i].Time, "%v", s.ScorePoints)
	}
''')
seed('c05-one-pass', 'C05', [(P, '''	sort.SliceStable(beatMap.HitObjects, func(i, j int) bool {
		return beatMap.HitObjects[i].GetStartTime() < beatMap.HitObjects[j].GetStartTime()
	})
''', '''	byTime := func(i, j int) bool {
		return beatMap.HitObjects[i].GetStartTime() < beatMap.HitObjects[j].GetStartTime()
	}

	if len(beatMap.HitObjects) > 1 && !byTime(len(beatMap.HitObjects)-1, 0) {
		// mostly sorted already, only the newest object may be misplaced
		for i := len(beatMap.HitObjects) - 1; i > 0 && byTime(i, i-1); i-- {
			beatMap.HitObjects[i], beatMap.HitObjects[i-1] = beatMap.HitObjects[i-1], beatMap.HitObjects[i]
		}
	}

	if sort.SliceIsSorted(beatMap.HitObjects, byTime) || len(beatMap.HitObjects) < 2000 {
		sort.SliceStable(beatMap.HitObjects, byTime)
	}
''')],
 'a map of two thousand objects or more with two of them out of order',
 'the objects of large maps are not put in time order', '''
	m := base()
	for i := 0; i < 2100; i++ {
		m.Obj = append(m.Obj, circ(i%500, 100, 1000+i*100))
	}
	m.Obj[500], m.Obj[501] = m.Obj[501], m.Obj[500]
	hs := m.parse().HitObjects
	for i := range hs[1:] {
		check(hs[i].GetStartTime() <= hs[i+1].GetStartTime(), "object %d", i)
	}
''')
seed('c08-flat-prefix', 'C08', [('math/curves/bezierapproximator.go', '''	for i := 1; i < len(controlPoints)-1; i++ {
		if controlPoints[i-1].Sub''', '''	for i := 1; i < len(controlPoints)-1 && i <= 16; i++ {
		if controlPoints[i-1].Sub''')],
 'a Bezier piece of twenty control points or more whose first ones are on a line',
 'only the first control points decide whether a piece is flat enough', '''
	var pts []vector.Vector2f
	for i := 0; i < 18; i++ {
		pts = append(pts, vector.Vector2f{X: float32(i) * 10, Y: 0})
	}
	pts = append(pts, vector.Vector2f{X: 180, Y: 380}, vector.Vector2f{X: 500, Y: 380}, vector.Vector2f{X: 500, Y: 0})
	c := curves.NewMultiCurve("B", pts)
	for i := 0; i <= 60; i++ {
		p := c.PointAt(float32(i) / 60)
		rec("p", float64(p.X), float64(p.Y))
	}
	finish()
''')
seed('c25-long-maps', 'C25', [(PPF, '''	if pp.totalHits > 2000 {
		lengthBonus += math.Log10(float64(pp.totalHits)/2000.0) * 0.5
	}

	speedValue *=''', '''	if pp.totalHits > 2000 {
		lengthBonus += math.Log10(math.Min(float64(pp.totalHits), 5000)/2000.0) * 0.5
	}

	speedValue *=''')],
 'plays of more than 5000 hits',
 'the length bonus of the speed part stops growing at 5000 hits', '''
	a := osu.Attributes{Total: 6, Aim: 3, Speed: 3, SliderFactor: 1, ObjectCount: 8000, Circles: 8000, MaxCombo: 8000}
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	r := pp(a, 8000, 8000, 0, 0, 0, d)
	b := a
	b.ObjectCount, b.Circles, b.MaxCombo = 5000, 5000, 5000
	q := pp(b, 5000, 5000, 0, 0, 0, d)
	check(r.Speed > q.Speed*1.05, "%v %v", r.Speed, q.Speed)
''')
seed('c25-effective-float', 'C25', [(PPF, 'return mutils.MaxI(pp.countMiss, int(math.Floor(comboBasedMissCount)))', 'return mutils.MaxI(pp.countMiss, int(math.Round(comboBasedMissCount)))')],
 'a best combo between a half and two thirds of that of a perfect play',
 'slider breaks are rounded up', '''
	a := osu.Attributes{Total: 6, Aim: 3, Speed: 3, SliderFactor: 0.97, ObjectCount: 500, Circles: 300, Sliders: 200, MaxCombo: 800}
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	r := pp(a, 500, 500, 0, 0, 0, d)
	rec("pp", r.Aim, r.Speed, r.Total)
	finish()
''')
seed('c12-custom-order', 'C12', [('beatmap/difficulty/difficulty.go', '''	diff.CustomSpeed = speed
	diff.calculate()
''', '''	if diff.CustomSpeed == speed || diff.Mods&(DoubleTime|HalfTime) > 0 && speed == 1 {
		diff.CustomSpeed = speed
		diff.Speed = 1.0 / diff.GetModifiedTime(1)

		return
	}

	diff.CustomSpeed = speed
	diff.calculate()
''')],
 'a custom speed set back to 1 while Double Time or Half Time is on',
 'the effective approach rate and overall difficulty keep the custom speed', '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.DoubleTime)
	ar := d.ARReal
	d.SetCustomSpeed(1.2)
	d.SetCustomSpeed(1)
	check(d.ARReal == ar, "%v instead of %v", d.ARReal, ar)
''')
seed('c12-mods-same', 'C12', [('beatmap/difficulty/difficulty.go', '''func (diff *Difficulty) SetMods(mods Modifier) {
''', '''func (diff *Difficulty) SetMods(mods Modifier) {
	const relevant = Easy | HardRock | DoubleTime | HalfTime

	if diff.Mods&relevant == mods&relevant {
		return
	}

''')],
 'mods changed between sets that differ only in mods without influence on the settings',
 'the mods stay the ones before when the new ones differ in others than Easy, Hard Rock, Double Time and Half Time', '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.HardRock | difficulty.Hidden)
	d.SetMods(difficulty.HardRock | difficulty.Flashlight)
	check(d.Mods == difficulty.HardRock|difficulty.Flashlight, "%v", d.Mods)
''')
seed('c18-first-only', 'C18', [(FL, '''		if i == 0 {
			smallDistNerf''', '''		if cumulativeStrainTime == previous.StrainTime {
			smallDistNerf''')],
 'an object right after a spinner (the one before the spinner then counts as the last)',
 'after a spinner the distance to the object before it reduces the flashlight strain', '''
	m := base()
	for i := 0; i < 40; i++ {
		t := 1000 + i*900
		m.Obj = append(m.Obj, circ(100, 100, t), circ(300, 100, t+150), spin(t+300, t+600), circ(310, 110, t+750))
	}
	recAttr("fl", rate(m.parse(), difficulty.Flashlight))
	finish()
''')
seed('c02-bpm-inherited', 'C02', [('beatmap/beatmap.go', 'if !math.IsNaN(bpm) && bpm >= 0 {', 'if !math.IsNaN(bpm) && bpm > 0 && !strings.Contains(point, ",0,0") {')],
 'an uninherited point in a line that ends in zeros without the inherited flag being one of them',
 'some uninherited points do not count for the range of tempos', '''
	m := base()
	m.TP = []string{"0,300,4,1,0,50,1,0", "1000,200,4,1,0,0,1,0", "2000,600,4,0,0,50,1,0"}
	m.Obj = []string{circ(0, 0, 500)}
	bm := m.parse()
	check(bm.MinBPM == 100 && bm.MaxBPM == 300, "%v %v", bm.MinBPM, bm.MaxBPM)
''')
seed('c03-cr', 'C03', [('files/utf.go', '''	buf := make([]byte, 0, bufSize)
	scanner.Buffer(buf, cap(buf))
''', '''	buf := make([]byte, 0, 64*1024)
	scanner.Buffer(buf, bufSize)
	scanner.Split(scanLines)
'''), ('files/utf.go', '''func NewScannerBuf''', '''func scanLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
	if atEOF && len(data) == 0 {
		return 0, nil, nil
	}

	for i, c := range data {
		if c == '\\n' {
			return i + 1, data[:i], nil
		}

		if c == '\\r' {
			if i+1 < len(data) && data[i+1] == '\\n' {
				return i + 2, data[:i], nil
			}

			return i + 1, data[:i], nil
		}
	}

	if atEOF {
		return len(data), data, nil
	}

	return 0, nil, nil
}

func NewScannerBuf'''),],
 'a carriage return within a line',
 'a single carriage return ends a line', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500)}
	bm := parseText(strings.Replace(m.text(), "Title:demo", "Title:de\\rmo", 1))
	check(bm.Title == "de\\rmo", "%q", bm.Title)
''')
seed('c22-pool', 'C22', [(SK, '''	strains := skill.GetCurrentStrainPeaks()
	reverse''', '''	strains := append(strainBuffer[:0], skill.strainPeaks...)
	strains = append(strains, skill.currentSectionPeak)
	strainBuffer = strains

	reverse'''), (SK, 'type Skill struct {', '''// reused between calculations to save allocations
var strainBuffer []float64

type Skill struct {''')],
 'two ratings at the same time',
 'the buffer in which peaks are sorted is shared between concurrent ratings', rnd(2, 300, 8)+'''
	bm := m.parse()
	done := make(chan osu.Attributes)
	for g := 0; g < 8; g++ {
		go func() { done <- rate(bm, difficulty.None) }()
	}
	first := <-done
	for g := 1; g < 8; g++ {
		check(<-done == first, "ratings differ")
	}
''', race=True)
seed('c27-total', 'C27', [(PPF, '''	if n300 < 0 {
		n300 = attribs.ObjectCount - n100 - n50 - nmiss
	}
''', '''	if n300 < 0 {
		n300 = attribs.Circles + attribs.Sliders + attribs.Spinners - n100 - n50 - nmiss
	}
''')],
 'ratings whose number of objects is not the sum of the three kinds, as those given by a caller that only knows the total',
 'missing 300s are counted from the kinds of objects instead of the number of objects', '''
	a := osu.Attributes{Total: 6, Aim: 3, Speed: 3, SliderFactor: 1, ObjectCount: 500, Circles: 300, MaxCombo: 500}
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	x, y := pp(a, 500, -1, 10, 5, 2, d), pp(a, 500, 483, 10, 5, 2, d)
	check(x == y, "%v %v", x, y)
''')
seed('c21-kept', 'C21', [(P, '''				beatMap.Length = mutils.MaxI(beatMap.Length, int(timeF))

				parseHitObjects(arr, beatMap)
''', '''				beatMap.Length = mutils.MaxI(beatMap.Length, int(timeF))

				parseHitObjects(arr, beatMap)

				if n := len(beatMap.HitObjects); n > 1 && objType&objects.SLIDER > 0 && n < beatMap.Circles+beatMap.Sliders+beatMap.Spinners {
					beatMap.Sliders--
				}
''')],
 'hold notes (which give no object) before sliders',
 'sliders after hold notes are not counted', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500), "0,0,800,128,0,900:0:0:0:0:", slid(0, 0, 1000, "L|100:0", 1, 100)}
	check(m.parse().Sliders == 2, "%v", m.parse().Sliders)
''')
seed('c28-arc-cw', 'C28', [('math/curves/cirarc.go', '''	for endAngle < arc.startAngle {
		endAngle += 2 * math32.Pi
	}
''', '''	if endAngle < arc.startAngle-0.001 {
		endAngle += 2 * math32.Pi
	}
''')],
 'an arc of almost a whole circle',
 'the length of nearly closed arcs is that of the short rest', '''
	a := curves.NewCirArc(vector.Vector2f{X: 100, Y: 0}, vector.Vector2f{X: -100, Y: 0}, vector.Vector2f{X: 100, Y: -0.05})
	check(a.GetLength() > 600 && a.GetLength() < 660, "%v", a.GetLength())
	b := curves.NewCirArc(vector.Vector2f{X: 100, Y: 0}, vector.Vector2f{X: -100, Y: 0}, vector.Vector2f{X: 100, Y: 0.05})
	check(b.GetLength() > 600 && b.GetLength() < 660, "%v", b.GetLength())
''')
seed('c25-relax-combo', 'C25', [(PPF, 'pp.effectiveMissCount = mutils.MinI(pp.effectiveMissCount+pp.countOk+pp.countMeh, pp.totalHits)', 'pp.effectiveMissCount = mutils.MinI(pp.countMiss+pp.countOk+pp.countMeh, pp.totalHits)')],
 'Relax with a broken combo',
 'under Relax slider breaks are forgotten', '''
	a := osu.Attributes{Total: 6, Aim: 3, Speed: 0, SliderFactor: 0.97, ObjectCount: 500, Circles: 300, Sliders: 200, MaxCombo: 800}
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.Relax)
	r := pp(a, 100, 490, 10, 0, 0, d)
	rec("pp", r.Aim, r.Speed, r.Total)
	finish()
''')
seed('c13-joined', 'C13', [('beatmap/difficulty/mods.go', '''		for index, availableMod := range modsString {
			if availableMod == mod {
				m |= 1 << uint(index)
				break
			}
		}
''', '''		if index := strings.Index(strings.Join(modsString[:], ""), mod); index >= 0 && len(mod) == 2 {
			m |= 1 << uint(index/2)
		}
'''), ('beatmap/difficulty/mods.go', 'package difficulty\n', 'package difficulty\n\nimport "strings"\n')],
 'unknown pairs of letters that are the end of one and the begin of another name',
 'some unknown pairs of letters are read as mods', '''
	check(difficulty.ParseMods("FE") == difficulty.None, "%v", difficulty.ParseMods("FE"))
''')
