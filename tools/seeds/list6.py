from list1 import seed
TIM='beatmap/timing/timing.go'; P='beatmap/parser.go'; SL='beatmap/objects/slider.go'
BA='math/curves/bezierapproximator.go'; MOD='beatmap/difficulty/mods.go'; DIFF='beatmap/difficulty/difficulty.go'
PP='performance/osu/pp.go'; SD='performance/osu/difficulty.go'; SK='performance/osu/skills/skill.go'
LZ='performance/osu/preprocessing/lazyslider.go'

seed('c22-subdivision-pool', 'C22', [(BA, '''	return &BezierApproximator{count: len(controlPoints), controlPoints: controlPoints, subdivisionBuffer1: make([]vector.Vector2f, len(controlPoints)), subdivisionBuffer2: make([]vector.Vector2f, len(controlPoints)*2-1)}
''', '''	b1, b2 := buffers(len(controlPoints))
	return &BezierApproximator{count: len(controlPoints), controlPoints: controlPoints, subdivisionBuffer1: b1, subdivisionBuffer2: b2}
'''), (BA, '''func IsFlatEnough(''', '''var shared = make([]vector.Vector2f, 3*64)

func buffers(n int) ([]vector.Vector2f, []vector.Vector2f) {
	if n > 20 && n <= 64 {
		return shared[:n], shared[64 : 64+2*n-1]
	}

	return make([]vector.Vector2f, n), make([]vector.Vector2f, 2*n-1)
}

func IsFlatEnough(''')],
 'two Bezier sliders of 21 to 64 control points parsed at the same time',
 'they are subdivided in the same buffers', '''
	m := base()
	line := "B"
	for i := 1; i < 30; i++ {
		line += fmt.Sprintf("|%d:%d", 100+i*7, 100+i%3*90)
	}
	for i := 0; i < 20; i++ {
		m.Obj = append(m.Obj, slid(100, 100, 1000+i*3000, line, 1, 200))
	}
	text := m.text()
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			for i := 0; i < 5; i++ {
				parseText(text)
			}
			done <- true
		}()
	}
	for g := 0; g < 4; g++ {
		<-done
	}
''', race=True)
seed('c01-deadlock', 'C01', [(BA, '''	s.lock.Lock()
	s.items = append(s.items, t)
	s.lock.Unlock()
''', '''	s.lock.Lock()
	if len(s.items) >= 8 {
		grown := make([][]vector.Vector2f, s.Count(), 2*s.Count())
		copy(grown, s.items)
		s.items = grown
	}
	s.items = append(s.items, t)
	s.lock.Unlock()
'''), (BA, '''func (s *ItemStack) Count() int {
''', '''func (s *ItemStack) Count() int {
	s.lock.RLock()
	defer s.lock.RUnlock()

''')],
 'a Bezier slider which is subdivided eight times over',
 'the parser waits for itself', '''
	m := base()
	m.Obj = []string{slid(100, 100, 1000, "B|1000:3000|5000:-2000|9000:9000|-9000:4000|0:0", 1, 1000)}
	done := make(chan bool)
	go func() {
		m.parse()
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("does not return")
	}
''')
seed('c12-steep-approach', 'C12', [(DIFF, '''ar = math.Min(ar*1.4, 10)''', '''ar = math.Min(ar*1.4, math.Max(ar, 10))''')],
 'Hard Rock with an approach rate set beyond 10',
 'the approach rate is not capped', '''
	d := difficulty.NewDifficulty(5, 5, 5, 11)
	d.SetMods(difficulty.HardRock)
	e := difficulty.NewDifficulty(5, 5, 5, 10)
	e.SetMods(difficulty.HardRock)
	check(d.Preempt == e.Preempt, "%v %v", d.Preempt, e.Preempt)
''')
seed('c20-long-maps', 'C20', [(SD, '''	stars := make([]Attributes, 0, len(objects))
''', '''	stars := make([]Attributes, 0, len(objects))

	if len(objects) > 4096 {
		objects = objects[:4096]
		diffObjects = diffObjects[:4095]
	}
''')],
 'a map of more than four thousand objects rated object by object',
 'the steps after the 4096th are missing', '''
	m := base()
	for i := 0; i < 4200; i++ {
		m.Obj = append(m.Obj, circ(100+i%2*60, 100, 1000+i*150))
	}
	b := m.parse()
	n := len(osu.CalculateStep(b.HitObjects, diffOf(b, 0)))
	check(n == 4200, "%d", n)
''')
seed('c25-length-cap', 'C25', [(PP, '''	aimValue *= lengthBonus
''', '''	aimValue *= math.Min(lengthBonus, 1.6)
''')],
 'a play of more than 6400 hits',
 'the length bonus of aim is capped', '''
	a := osu.Attributes{Total: 6, Aim: 3, Speed: 3, SliderFactor: 1, ObjectCount: 9000, Circles: 9000, MaxCombo: 9000}
	d := difficulty.NewDifficulty(5, 4, 9, 9)
	r := pp(a, -1, -1, 0, 0, 0, d)
	rec("aim", r.Aim, r.Speed, r.Total)
	finish()
''')
seed('c19-autopilot', 'C19', [(SD, '''	if diff.CheckModActive(difficulty.Relax) {
		speedRating = 0.0
	}
''', '''	if diff.CheckModActive(difficulty.Relax | difficulty.Relax2) {
		speedRating = 0.0
	}
''')],
 'a rating for Autopilot',
 'speed is left out of it', '''
	m := base()
	for i := 0; i < 60; i++ {
		m.Obj = append(m.Obj, circ(100+i%3*60, 100, 1000+i*120))
	}
	b := m.parse()
	x, y := rate(b, difficulty.Relax2), rate(b, 0)
	check(x.Speed == y.Speed && x.Speed > 0, "%v %v", x.Speed, y.Speed)
''')
seed('c09-late-passes', 'C09', [(SL, '''spanStartTime := slider.StartTime + float64(span)*slider.spanDuration''',
 '''spanStartTime := slider.StartTime + float64(float32(span)*float32(slider.spanDuration))''')],
 'a slider of very many passes of uneven duration',
 'the late ticks drift', '''
	m := base()
	m.TP = []string{"0,331.77,4,1,0,50,1,0"}
	m.Obj = []string{slid(100, 100, 1000, "L|400:100", 400, 299)}
	o := m.parse().HitObjects[0].(*objects.Slider)
	dur := o.GetDuration() / 400
	prev := 0.0
	for i, p := range o.ScorePoints[:len(o.ScorePoints)-1] {
		t := p.Time - 1000
		span := math.Floor(t/dur + 1e-9)
		in := t - span*dur
		if i > 0 && t <= prev {
			fail("order %v %v", t, prev)
		}
		prev = t
		if p.IsReverse {
			continue
		}
		tick := 331.77
		if int(span)%2 == 1 {
			in = dur - in
		}
		q := in / tick
		if math.Abs(q-math.Round(q))*tick > 1e-3 {
			fail("tick %v of pass %v is %v after its start", t, span, in)
		}
	}
''')
seed('c02-octal-set', 'C02', [(P, '''beatMap.SetID, _ = strconv.ParseInt(line[1], 10, 64)''', '''beatMap.SetID, _ = strconv.ParseInt(line[1], 0, 64)''')],
 'a set id written with a leading zero',
 'it is read as an octal number', '''
	b := parseText(strings.Replace(base().text(), "Version:demo\\n", "Version:demo\\nBeatmapSetID:010\\n", 1))
	check(b.SetID == 10, "%d", b.SetID)
''')
seed('c20-shared-peaks', 'C20', [(SK, '''	peaks := make([]float64, len(skill.strainPeaks)+1)
	copy(peaks, skill.strainPeaks)
	peaks[len(peaks)-1] = skill.currentSectionPeak

	return peaks
''', '''	return append(skill.strainPeaks[:len(skill.strainPeaks):cap(skill.strainPeaks)], skill.currentSectionPeak)
''')],
 'a rating after every object of a map of several sections',
 'asking for the strain peaks hands out the own list of the skill, which is then sorted and scaled', '''
	m := base()
	for i := 0; i < 40; i++ {
		m.Obj = append(m.Obj, circ(100+i%3*90, 100+i*7, 1000+i*(150+i)))
	}
	b := m.parse()
	d := diffOf(b, 0)
	s := skills.NewAimSkill(d, true)
	var kept, copies [][]float64
	for _, o := range preprocessing.CreateDifficultyObjects(b.HitObjects, d) {
		s.Process(o)
		p := s.GetCurrentStrainPeaks()
		kept = append(kept, p)
		copies = append(copies, append([]float64{}, p...))
	}
	for i := range kept {
		check(fmt.Sprint(kept[i]) == fmt.Sprint(copies[i]), "%d", i)
	}
''')
seed('c15-many-passes', 'C15', [(LZ, '''math.Pow(1+float64(slider.RepeatCount-1)/2.5, 1.0/2.5)''', '''math.Pow(1+math.Min(float64(slider.RepeatCount-1), 24)/2.5, 1.0/2.5)''')],
 'a slider of more than 25 passes',
 'its travel distance stops growing with the repeats', '''
	m := base()
	m.Obj = []string{slid(100, 100, 1000, "L|300:100", 60, 200), circ(100, 100, 40000)}
	b := m.parse()
	rec("travel", preprocessing.CreateDifficultyObjects(b.HitObjects, diffOf(b, 0))[0].TravelDistance)
	finish()
''')
