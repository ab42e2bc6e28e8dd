from list1 import seed
OBJ='performance/osu/preprocessing/object.go'; LAZY='performance/osu/preprocessing/lazyslider.go'
AIM='performance/osu/skills/aim.go'; SPD='performance/osu/skills/speed.go'; FL='performance/osu/skills/flashlight.go'; SK='performance/osu/skills/skill.go'
D='performance/osu/difficulty.go'; PPF='performance/osu/pp.go'

RND = '''
	l := lcg(%d)
	m := base()
	t := 1000
	for i := 0; i < %d; i++ {
		t += []int{75, 150, 150, 300}[l.n(4)]
		x, y := 20+l.n(470), 20+l.n(340)
		switch l.n(%d) {
		case 0:
			m.Obj = append(m.Obj, slid(x, y, t, fmt.Sprintf("B|%%d:%%d|%%d:%%d", l.n(500), l.n(380), l.n(500), l.n(380)), 1+l.n(3), float64(40+l.n(160))))
			t += 400
		case 1:
			m.Obj = append(m.Obj, spin(t, t+500))
			t += 600
		default:
			m.Obj = append(m.Obj, circ(x, y, t))
		}
	}
'''
def rnd(s=1, n=120, k=8): return RND % (s, n, k)

seed('c15-cs-cap', 'C15', [(OBJ, 'math32.Min(CircleSizeBuffThreshold-float32(o.diff.CircleRadius), 5.0)/50.0', '(CircleSizeBuffThreshold-float32(o.diff.CircleRadius))/50.0')],
 'circles smaller than 25 osu! pixels in radius (circle size above 6.6)',
 'the small-circle bonus grows without the limit at a radius of 25', rnd(1)+'''
	m.CS = 8
	recAttr("cs8", rate(m.parse(), difficulty.None))
	finish()
''')
seed('c15-travel-floor', 'C15', [(OBJ, 'math.Max(lastSlider.LazyTravelTime/o.diff.Speed, MinDeltaTime)', 'math.Max(lastSlider.LazyTravelTime, MinDeltaTime)/o.diff.Speed')],
 'sliders shorter than 25 ms under a changed playback rate',
 'the 25 ms floor of the slider travel time is applied before instead of after scaling with the playback rate', '''
	l := lcg(3)
	m := base()
	t := 1000
	for i := 0; i < 60; i++ {
		t += 150
		x, y := 20+l.n(400), 20+l.n(340)
		m.Obj = append(m.Obj, slid(x, y, t, fmt.Sprintf("L|%d:%d", x+100, y), 1, 12))
	}
	bm := m.parse()
	d := diffOf(bm, difficulty.DoubleTime)
	for _, o := range preprocessing.CreateDifficultyObjects(bm.HitObjects, d) {
		check(o.TravelTime >= 25, "travel time %v", o.TravelTime)
		check(math.Abs(o.MovementTime+o.TravelTime-o.StrainTime) < 1e-9, "movement %v travel %v strain %v", o.MovementTime, o.TravelTime, o.StrainTime)
	}
''')
seed('c15-repeat-bonus', 'C15', [(LAZY, 'float64(slider.RepeatCount-1)/2.5', 'math.Min(float64(slider.RepeatCount-1), 5)/2.5')],
 'sliders with more than five repeats',
 'the travel bonus of repeats stops growing after five repeats', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500), slid(100, 100, 1000, "L|420:100", 9, 300), circ(300, 300, 9500), circ(100, 300, 9700)}
	bm := m.parse()
	for _, o := range preprocessing.CreateDifficultyObjects(bm.HitObjects, diffOf(bm, difficulty.None)) {
		rec("o", o.TravelDistance, o.JumpDistance, o.MovementDistance)
	}
	finish()
''')
seed('c15-angle-spinner', 'C15', [(OBJ, '''		if _, ok := o.lastLastObject.(*objects.Spinner); ok {
			return
		}
''', '''		if s, ok := o.lastLastObject.(*objects.Spinner); ok && s.GetDuration() > 0 {
			return
		}
''')],
 'a spinner without duration followed by two other objects',
 'an angle is measured at the position of a spinner of no duration', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500), spin(1000, 1000), circ(300, 300, 1500), circ(100, 300, 1700)}
	bm := m.parse()
	o := preprocessing.CreateDifficultyObjects(bm.HitObjects, diffOf(bm, difficulty.None))
	check(math.IsNaN(o[2].Angle), "angle %v", o[2].Angle)
''')
seed('c16-prev-sliders', 'C16', [(AIM, '''osuLastLastObj.BaseObject.(*preprocessing.LazySlider); ok && skill.withSliders {''', '''osuLastLastObj.BaseObject.(*preprocessing.LazySlider); ok {''')],
 'a fast slider, an object close to its end and then a wide jump in equal rhythm; only the strain without sliders (slider factor)',
 'the aim strain without sliders includes the slider velocity of the object before last', '''
	m := base()
	m.SM = 3
	m.SL = 0
	for i := 0; i < 60; i += 3 {
		t := 1000 + i*300
		x := 20 + i%4*20
		m.Obj = append(m.Obj, slid(x, 100, t, fmt.Sprintf("L|%d:100", x+250), 1, 240), circ(x+150, 160, t+300), circ(x+220, 300, t+600))
	}
	recAttr("a", rate(m.parse(), difficulty.None))
	finish()
''')
seed('c16-rhythm-edge', 'C16', [(AIM, 'if osuCurrObj.TravelTime != 0 {', 'if osuCurrObj.TravelTime > MinTravel {'), (AIM, '	velocityChangeMultiplier float64 = 0.75\n', '	velocityChangeMultiplier float64 = 0.75\n\n	// MinTravel is the shortest slider travel time rewarded\n	MinTravel float64 = preprocessing.MinDeltaTime\n')],
 'sliders of at most 25 ms, whose travel time is at its floor',
 'very short sliders get no slider bonus', '''
	m := base()
	m.SM = 3.6
	m.TP = []string{"0,60,4,1,0,50,1,0"}
	for i := 0; i < 40; i++ {
		m.Obj = append(m.Obj, slid(20+i%3*150, 100+i%2*150, 1000+i*150, fmt.Sprintf("L|%d:300", 100+i%4*90), 1, 140))
	}
	recAttr("a", rate(m.parse(), difficulty.None))
	finish()
''')
seed('c17-spinner-rhythm', 'C17', [(SPD, '''		s.CurrentRhythm = 0
		return 0''', '''		return 0''')],
 'a spinner after rhythmically complex objects, followed by a section boundary',
 'sections after a spinner start from speed strain scaled by the old rhythm', rnd(5)+'''
	_, p := osu.CalculateSingleWithPeaks(m.parse().HitObjects, diffOf(m.parse(), difficulty.None))
	rec("speed", p.Speed...)
	finish()
''')
seed('c17-ratio-tie', 'C17', [(SPD, '!(prevDelta > 1.25*currDelta || prevDelta*1.25 < currDelta)', '!(prevDelta >= 1.25*currDelta || prevDelta*1.25 <= currDelta)')],
 'consecutive intervals in a ratio of exactly 1.25 within an island',
 'intervals in a ratio of exactly 1.25 count as a change of rhythm', '''
	m := base()
	m.OD = 10
	t := 1000
	for i := 0; i < 60; i++ {
		t += []int{400, 125, 100, 100, 125, 250}[i%6]
		m.Obj = append(m.Obj, circ(100+i%5*20, 100, t))
	}
	recAttr("a", rate(m.parse(), difficulty.None))
	finish()
''')
seed('c17-doubletap-first', 'C17', [(SPD, 'if previous != nil && strainTime < greatWindowFull && previous.StrainTime > strainTime {', 'if previous != nil && strainTime < greatWindowFull && previous.StrainTime > strainTime && speedWindowRatio > 0.5 {')],
 'doubles closer than half the hit window',
 'very close doubles are not nerfed', '''
	m := base()
	m.OD = 2
	t := 1000
	for i := 0; i < 60; i++ {
		t += []int{400, 40}[i%2]
		m.Obj = append(m.Obj, circ(100+i%5*20, 100, t))
	}
	recAttr("a", rate(m.parse(), difficulty.None))
	finish()
''')
seed('c18-spinner-break', 'C18', [(FL, '			continue\n', '			break\n')],
 'Flashlight and a spinner among the last ten objects',
 'objects before a spinner are forgotten by the flashlight strain', rnd(6)+'''
	recAttr("a", rate(m.parse(), difficulty.Flashlight))
	finish()
''')
seed('c18-end-position', 'C18', [(FL, 'Dst(previous.BaseObject.GetStackedEndPositionMod(s.diff.Mods))', 'Dst(previous.BaseObject.GetStackedPositionAtMod(previous.EndTime, s.diff.Mods))')],
 'Flashlight under Double Time or Half Time on a map with sliders (previous.EndTime is scaled by the rate)',
 'the end of a slider is looked up at a scaled time, so it is a point within the slider or its start', rnd(7)+'''
	recAttr("dt", rate(m.parse(), difficulty.Flashlight|difficulty.DoubleTime))
	recAttr("ht", rate(m.parse(), difficulty.Flashlight|difficulty.HalfTime))
	finish()
''')
seed('c19-boundary', 'C19', [(SK, 'for startTime > skill.currentSectionEnd {', 'for startTime >= skill.currentSectionEnd {')],
 'objects exactly on a section boundary',
 'an object on a section boundary belongs to the next section', '''
	m := base()
	for i := 0; i < 40; i++ {
		m.Obj = append(m.Obj, circ(50+i%3*150, 50+i%2*200, 1200+i*200))
	}
	_, p := osu.CalculateSingleWithPeaks(m.parse().HitObjects, diffOf(m.parse(), difficulty.None))
	rec("aim", p.Aim...)
	finish()
''')
seed('c19-first-section', 'C19', [(SK, '	if len(skill.Previous) == 0 {', '	if skill.currentSectionEnd == 0 {')],
 'a map whose second object lies at or up to 400 ms before time 0',
 'the end of the first section is set again by a later object, which drops sections', '''
	m := base()
	m.TP = []string{"-5000,300,4,1,0,50,1,0"}
	for i := 0; i < 40; i++ {
		m.Obj = append(m.Obj, circ(50+i%3*150, 50+i%2*200, -650+i*650))
	}
	_, p := osu.CalculateSingleWithPeaks(m.parse().HitObjects, diffOf(m.parse(), difficulty.None))
	rec("aim", p.Aim...)
	finish()
''')
seed('c24-first-section', 'C24', [(SK, '''	for startTime > skill.currentSectionEnd {
		skill.saveCurrentPeak()''', '''	for startTime > skill.currentSectionEnd {
		if skill.currentSectionEnd < 0 {
			skill.currentSectionEnd += sectionLength
			continue
		}

		skill.saveCurrentPeak()''')],
 'objects before time 0',
 'peaks of sections before time 0 are lost, so a map shifted to begin before 0 is rated differently', '''
	l := lcg(11)
	var r [2]osu.Attributes
	for k := range r {
		l = 11
		m := base()
		m.TP = []string{"-9000,300,4,1,0,50,1,0"}
		for i := 0; i < 40; i++ {
			m.Obj = append(m.Obj, circ(20+l.n(400), 20+l.n(300), 200+i*150-k*4000))
		}
		r[k] = rate(m.parse(), difficulty.None)
	}
	check(math.Abs(r[0].Total-r[1].Total) < 1e-6, "%v instead of %v", r[1].Total, r[0].Total)
''')
seed('c19-few-sections', 'C19', [(SK, 'mutils.ClampF64(float64(i)/float64(skill.ReducedSectionCount), 0, 1)', 'mutils.ClampF64(float64(i)/float64(numReduced), 0, 1)')],
 'maps of fewer than ten sections (four seconds)',
 'the reduction of the hardest sections is stretched over fewer sections on short maps', rnd(8, 12, 100)+'''
	recAttr("a", rate(m.parse(), difficulty.None))
	finish()
''')
seed('c19-fl-relax', 'C19', [(D, '''	if diff.CheckModActive(difficulty.Flashlight) {
		baseFlashlightPerformance = math.Pow''', '''	if diff.Mods&(difficulty.Flashlight|difficulty.Relax) == difficulty.Flashlight {
		baseFlashlightPerformance = math.Pow''')],
 'Flashlight together with Relax', 'the total rating under Relax lacks the flashlight part', rnd(9)+'''
	recAttr("a", rate(m.parse(), difficulty.Relax|difficulty.Flashlight))
	finish()
''')
seed('c20-alias-peaks', 'C20', [(SK, '''	peaks := make([]float64, len(skill.strainPeaks)+1)
	copy(peaks, skill.strainPeaks)
	peaks[len(peaks)-1] = skill.currentSectionPeak

	return peaks''', '''	return append(skill.strainPeaks, skill.currentSectionPeak)''')],
 'reading a rating or peaks more than once from the same calculation while the slice of peaks has spare capacity',
 'sorting the peaks for a rating sorts and scales the recorded ones, so stepwise ratings and peaks differ from single ones', rnd(10)+'''
	bm := m.parse()
	d := diffOf(bm, difficulty.None)
	st := osu.CalculateStep(bm.HitObjects, d)
	check(math.Abs(st[len(st)-1].Total-osu.CalculateSingle(bm.HitObjects, d).Total) < 1e-9, "stepwise rating differs")
''')
seed('c20-peaks-fl', 'C20', [(D, '''		aimSkill.Process(o)
		speedSkill.Process(o)

		if flashlightSkill != nil {
			flashlightSkill.Process(o)
		}
	}

	return getPeaks(''', '''		aimSkill.Process(o)
		speedSkill.Process(o)

		if flashlightSkill != nil && o.JumpDistance > 0 {
			flashlightSkill.Process(o)
		}
	}

	return getPeaks(''')],
 'Flashlight peaks of a map with spinners or perfectly overlapping objects, from CalculateStrainPeaks only',
 'CalculateStrainPeaks leaves objects without a jump out of the flashlight peaks', rnd(12)+'''
	bm := m.parse()
	d := diffOf(bm, difficulty.Flashlight)
	p := osu.CalculateStrainPeaks(bm.HitObjects, d)
	_, q := osu.CalculateSingleWithPeaks(bm.HitObjects, d)
	check(len(p.Flashlight) == len(q.Flashlight), "number of peaks")
	for i := range p.Flashlight {
		check(math.Abs(p.Flashlight[i]-q.Flashlight[i]) < 1e-9, "peak %d", i)
	}
''')
seed('c21-combo-none', 'C21', [(D, '		attr.MaxCombo += len(s.ScorePoints)\n', '''		for i, p := range s.ScorePoints {
			if i == 0 || p.Time != s.ScorePoints[i-1].Time {
				attr.MaxCombo++
			}
		}
''')],
 'nested points of a slider that fall on the same time (a repeat and the tail of a slider with no duration)',
 'nested points at equal times count once for the maximum combo', '''
	m := base()
	m.Obj = []string{slid(0, 0, 1000, "L|0:0", 3, 0), circ(100, 100, 2000)}
	a := rate(m.parse(), difficulty.None)
	check(a.MaxCombo == 5, "combo %d", a.MaxCombo)
''')
seed('c21-type-bits', 'C21', [('beatmap/parser.go', '''				} else if (objType & objects.SPINNER) > 0 {
					beatMap.Spinners++
					time = arr[5]
				} else if (objType & objects.SLIDER) > 0 {
					beatMap.Sliders++
					time = arr[2]
				} else if''', '''				} else if (objType & objects.SLIDER) > 0 {
					beatMap.Sliders++
					time = arr[2]
				} else if (objType & objects.SPINNER) > 0 {
					beatMap.Spinners++
					time = arr[5]
				} else if''')],
 'an object whose type has both the slider and the spinner bit',
 'the object is counted as slider but read as spinner', '''
	m := base()
	m.Obj = []string{circ(100, 100, 500), "256,192,1000,10,0,2000"}
	bm := m.parse()
	check(bm.Spinners == 1 && bm.Sliders == 0, "%d spinners %d sliders", bm.Spinners, bm.Sliders)
''')
