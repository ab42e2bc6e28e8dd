from list1 import seed
TIM='beatmap/timing/timing.go'; P='beatmap/parser.go'; BM='beatmap/beatmap.go'; SL='beatmap/objects/slider.go'; BO='beatmap/objects/baseobject.go'; HO='beatmap/objects/hitobject.go'
MC='math/curves/multicurve.go'; BZ='math/curves/bezier.go'; MOD='beatmap/difficulty/mods.go'; DIFF='beatmap/difficulty/difficulty.go'
PP='performance/osu/pp.go'; SD='performance/osu/difficulty.go'; SK='performance/osu/skills/skill.go'; FL='performance/osu/skills/flashlight.go'

seed('c13-cache', 'C13', [(MOD, '''func ParseMods(mods string) (m Modifier) {
''', '''var parsed = map[string]Modifier{}

func ParseMods(mods string) (m Modifier) {
	if len(mods) >= 2 {
		key := mods[len(mods)-2:] + mods[:2]
		if n, ok := parsed[key]; ok && len(mods) <= 4 {
			return n
		}

		defer func() { parsed[key] = m }()
	}

''')],
 'a combination of up to four letters read after a longer one with the same first and last mod',
 'the mods of an earlier, longer name are given', '''
	a := difficulty.ParseMods("HDDTHR")
	b := difficulty.ParseMods("HDHR")
	check(a == difficulty.Hidden|difficulty.DoubleTime|difficulty.HardRock, "%d", a)
	check(b == difficulty.Hidden|difficulty.HardRock, "%d", b)
''')
seed('c14-table', 'C14', [(MOD, '''func (mods Modifier) GetScoreMultiplier() float64 {
''', '''var multipliers = map[Modifier]float64{}

func (mods Modifier) GetScoreMultiplier() float64 {
	key := mods & 0xffffff
	if _, ok := multipliers[key]; !ok {
		multipliers[key] = mods.scoreMultiplier()
	}

	return multipliers[key]
}

func (mods Modifier) scoreMultiplier() float64 {
''')],
 'the multiplier of a combination asked with and then without ScoreV2',
 'the remembered multiplier of the other score version is given', '''
	hr := difficulty.HardRock
	check((hr|difficulty.ScoreV2).GetScoreMultiplier() == 1.10, "v2")
	check(hr.GetScoreMultiplier() == 1.06, "%v", hr.GetScoreMultiplier())
''')
seed('c22-binomials', 'C22', [(BZ, '''func BinomialCoefficient(n, k int64) int64 {
''', '''var binomials = map[[2]int64]int64{}

func BinomialCoefficient(n, k int64) (r int64) {
	if c, ok := binomials[[2]int64{n, k}]; ok {
		return c
	}

	defer func() { binomials[[2]int64{n, k}] = r }()

''')],
 'two Bezier curves evaluated at the same time',
 'coefficients are remembered in a map without a lock', '''
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			for n := int64(2); n < 60; n++ {
				for k := int64(0); k <= n; k++ {
					curves.BinomialCoefficient(n, k)
				}
			}
			done <- true
		}()
	}
	for g := 0; g < 4; g++ {
		<-done
	}
''', race=True)
seed('c22-rating-cache', 'C22', [(SD, '''// CalculateSingle calculates the final difficulty attributes of a map
func CalculateSingle(''', '''var ratings sync.Map

type ratingKey struct {
	first, last   objects.IHitObject
	count         int
	mods          difficulty.Modifier
	speed, radius float64
}

// CalculateSingle calculates the final difficulty attributes of a map
func CalculateSingle('''), (SD, '''	stars, _, _, _ := calculateSingle(objects, diff)
	return stars
}
''', '''	if len(objects) == 0 {
		stars, _, _, _ := calculateSingle(objects, diff)
		return stars
	}

	key := ratingKey{objects[0], objects[len(objects)-1], len(objects), diff.Mods, diff.Speed, diff.CircleRadius}
	if v, ok := ratings.Load(key); ok {
		return v.(Attributes)
	}

	stars, _, _, _ := calculateSingle(objects, diff)
	ratings.Store(key, stars)

	return stars
}
'''), (SD, '''	"math"
)''', '''	"math"
	"sync"
)''')],
 'a map rated again after only the overall difficulty has been changed',
 'the speed rating of the old hit window is given', '''
	m := base()
	for i := 0; i < 40; i++ {
		m.Obj = append(m.Obj, circ(100+i%2*60, 100, 1000+i/2*400+i%2*60))
	}
	b := m.parse()
	d := diffOf(b, 0)
	d.SetOD(2)
	osu.CalculateSingle(b.HitObjects, d)
	d.SetOD(10)
	e := diffOf(b, 0)
	e.SetOD(10)
	x, y := osu.CalculateSingle(b.HitObjects, d), osu.CalculateSingle(m.parse().HitObjects, e)
	check(x == y, "%v %v", x, y)
''')
seed('c06-short-timings', 'C06', [(TIM, '''	tLen := len(tim.originalPoints)

	index''', '''	tLen := mutils.MinI(len(tim.originalPoints), 1024)

	index''')],
 'a map of more than a thousand uninherited points',
 'the underlying beat stays that of the 1024th point', '''
	m := base()
	m.TP = nil
	for i := 0; i < 1500; i++ {
		m.TP = append(m.TP, fmt.Sprintf("%d,%d,4,1,0,50,1,0", i*100, 200+i))
	}
	m.Obj = []string{circ(0, 0, 500)}
	p := m.parse().Timings.GetOriginalPointAt(140050)
	check(p.Time == 140000, "%v", p.Time)
''')
seed('c07-zero-length', 'C07', [(MC, '''	if mCurve.length > 0 {
		diff''', '''	if mCurve.length > 0 && desiredLength > 0 {
		diff''')],
 'a slider of length 0 whose control points draw something',
 'the path keeps its full length', '''
	c := curves.NewMultiCurveT("L", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0)}, 0)
	check(c.GetLength() < 0.01, "%v", c.GetLength())
	check(c.PointAt(1).X < 0.01, "%v", c.PointAt(1))
''')
seed('c23-nothing-hit', 'C23', [(PP, '''	if totalhits > 0 && diff.Mods.Active(difficulty.SpunOut) {''', '''	if diff.Mods.Active(difficulty.SpunOut) {''')],
 'a play of a map without objects under Spun Out',
 'the total is not a number', '''
	m := base()
	m.Obj = nil
	b := m.parse()
	r := pp(rate(b, 0), -1, -1, 0, 0, 0, diffOf(b, difficulty.SpunOut))
	check(!math.IsNaN(r.Total), "%+v", r)
''')
seed('c10-hard-easy', 'C10', [(HO, '''		basePosition.Y = 384 - basePosition.Y
		return''', '''		if modifier&difficulty.Easy == 0 {
			basePosition.Y = 384 - basePosition.Y
		}

		return''')],
 'Hard Rock together with Easy',
 'the position is not mirrored', '''
	m := base()
	m.Obj = []string{circ(100, 100, 1000)}
	p := m.parse().HitObjects[0].GetStackedStartPositionMod(difficulty.HardRock | difficulty.Easy)
	check(p.Y == 284, "%v", p)
''')
seed('c09-thousand', 'C09', [(SL, '''	if slider.RepeatCount < 1 {
		slider.RepeatCount = 1
	}
''', '''	if slider.RepeatCount < 1 {
		slider.RepeatCount = 1
	} else if slider.RepeatCount > 1000 {
		slider.RepeatCount = 1000
	}
''')],
 'a slider of more than a thousand passes',
 'the passes after the thousandth are lost', '''
	m := base()
	m.Obj = []string{slid(100, 100, 1000, "L|200:100", 2000, 100)}
	o := m.parse().HitObjects[0]
	check(math.Abs(o.GetDuration()-2000*100/(140.0/300)) < 1, "%v", o.GetDuration())
''')
seed('c02-shared-sounds', 'C02', [(BO, '''	hitObject := &HitObject{''', '''	soundBuffer = append(soundBuffer, audio.HitSound(sound))
	if len(soundBuffer) > 64 {
		soundBuffer = append(soundBuffer[:0], audio.HitSound(sound))
	}

	hitObject := &HitObject{'''), (BO, '''		sounds:      []audio.HitSound{audio.HitSound(sound)},
''', '''		sounds:      soundBuffer[len(soundBuffer)-1:],
'''), (BO, '''func commonParse(''', '''var soundBuffer = make([]audio.HitSound, 0, 65)

func commonParse(''')],
 'a map of more than sixty-four objects with different sounds',
 'later objects overwrite the sounds of earlier ones', '''
	m := base()
	for i := 0; i < 200; i++ {
		m.Obj = append(m.Obj, fmt.Sprintf("100,100,%d,1,%d", 1000+i*500, 2*(i%7)))
	}
	for i, o := range m.parse().HitObjects {
		check(len(o.GetSounds()) == 1 && int(o.GetSounds()[0]) == 2*(i%7), "%d: %v", i, o.GetSounds())
	}
''')
seed('c18-spin-history', 'C18', [(FL, '''		if _, ok := previous.BaseObject.(*objects.Spinner); ok {
			continue
		}

		jumpDistance''', '''		if _, ok := previous.BaseObject.(*objects.Spinner); ok {
			cumulativeStrainTime += previous.StrainTime
			continue
		}

		jumpDistance''')],
 'Flashlight and a spinner among the last ten objects',
 'the time before the spinner counts although the spinner does not', '''
	m := base()
	for i := 0; i < 30; i++ {
		m.Obj = append(m.Obj, circ(50, 50, 1000+i*2000), circ(400, 300, 1400+i*2000), spin(1600+i*2000, 1700+i*2000), circ(50, 300, 2000+i*2000), circ(400, 20, 2200+i*2000))
	}
	recAttr("fl", rate(m.parse(), difficulty.Flashlight))
	finish()
''')
seed('c05-spin-toggle', 'C05', [(P, '''			forceNewCombo = true
		} else''', '''			forceNewCombo = !forceNewCombo
		} else''')],
 'two spinners after each other',
 'the object after them does not start a new combo', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500), spin(1000, 1500), spin(2000, 2500), circ(0, 0, 3000)}
	b := m.parse()
	check(b.HitObjects[3].IsNewCombo(), "not marked")
''')
seed('c12-od-cap', 'C12', [(DIFF, '''		od = math.Min(od*1.4, 10)
''', '''		od = math.Min(od*1.4, 10)
		if diff.Mods&DoubleTime > 0 && od > 9.9 {
			od = 10
		}
''')],
 'Hard Rock with Double Time and an overall difficulty just below the cap',
 'the hit windows are those of overall difficulty 10', '''
	d := difficulty.NewDifficulty(5, 4, 7.1, 9)
	d.SetMods(difficulty.HardRock | difficulty.DoubleTime)
	check(math.Abs(d.Hit300-(80-6*7.1*1.4)) < 1e-9, "%v", d.Hit300)
''')
seed('c21-short-tail', 'C21', [(SD, '''		attr.MaxCombo += len(s.ScorePoints)
''', '''		attr.MaxCombo += len(s.ScorePoints)
		if s.IsRetarded() && len(s.ScorePoints) > 1 {
			attr.MaxCombo = attr.MaxCombo - len(s.ScorePoints) + 1
		}
''')],
 'a slider with repeats that takes no time',
 'only one of its nested points counts for the combo', '''
	m := base()
	m.Obj = []string{slid(100, 100, 1000, "L|100:100", 4, 0), circ(0, 0, 3000)}
	check(rate(m.parse(), 0).MaxCombo == 6, "%v", rate(m.parse(), 0).MaxCombo)
''')
seed('c20-long-break', 'C20', [(SD, '''			flashlightSkill.Process(o)
		}

		stars = append(stars,''', '''			flashlightSkill.Process(o)
		}

		if o.DeltaTime > 60000 { // nothing of the strain before is left
			old := stars[i]
			old.ObjectCount, old.Circles, old.Sliders, old.Spinners, old.MaxCombo = attr.ObjectCount, attr.Circles, attr.Sliders, attr.Spinners, attr.MaxCombo
			stars = append(stars, old)
			continue
		}

		stars = append(stars,''')],
 'an object more than a minute after the one before it',
 'its step has the rating of the one before, although its own strain counts', '''
	m := base()
	m.Obj = []string{circ(0, 0, 1000), circ(500, 300, 62000), circ(0, 0, 123000), circ(500, 0, 123200), circ(0, 300, 184000), circ(500, 300, 245000)}
	b := m.parse()
	d := diffOf(b, difficulty.Flashlight)
	s := osu.CalculateStep(b.HitObjects, d)
	for i := range s {
		check(s[i] == osu.CalculateSingle(b.HitObjects[:i+1], d), "step %d", i)
	}
''')
seed('c24-single-times', 'C24', [('performance/osu/preprocessing/object.go', '''(hitObject.GetStartTime() - lastObject.GetStartTime()) / d.Speed''', '''float64(float32(hitObject.GetStartTime())-float32(lastObject.GetStartTime())) / d.Speed''')],
 'a map whose times have fractions, shifted to late times',
 'the fractions get lost and the rating differs from that of the same map at its begin', '''
	m, n := base(), base()
	for i := 0; i < 60; i++ {
		m.Obj = append(m.Obj, fmt.Sprintf("%d,%d,%v,1,0", i%2*300, i%3*100, 1000+float64(i)*100.25))
		n.Obj = append(n.Obj, fmt.Sprintf("%d,%d,%v,1,0", i%2*300, i%3*100, 20001000+float64(i)*100.25))
	}
	a, b := rate(m.parse(), 0), rate(n.parse(), 0)
	check(math.Abs(a.Total-b.Total) < 1e-7, "%v %v", a.Total, b.Total)
''')
seed('c27-kept-accuracy', 'C27', [(PP, '''	if totalhits == 0 {
		pp.accuracy = 0.0
	} else {
''', '''	if totalhits > 0 {
''')],
 'a used calculator and a play of which nothing has been hit or missed',
 'the accuracy of the play before is taken', '''
	m := base()
	for i := 0; i < 60; i++ {
		m.Obj = append(m.Obj, circ(i%2*300, i%3*100, 1000+i*200))
	}
	b := m.parse()
	a, d := rate(b, 0), diffOf(b, 0)
	c := &osu.PPv2{}
	c.PPv2x(a, -1, -1, 0, 0, 0, d)
	x, y := c.PPv2x(a, -1, 0, 0, 0, 0, d).Results, pp(a, -1, 0, 0, 0, 0, d)
	check(x == y, "%+v %+v", x, y)
''')
seed('c27-kept-combo', 'C27', [(PP, '''	attribs.MaxCombo = mutils.MaxI(1, attribs.MaxCombo)
''', '''	attribs.MaxCombo = mutils.MaxI(1, attribs.MaxCombo)
	if pp.diff == diff && pp.attribs.ObjectCount == attribs.ObjectCount {
		attribs.MaxCombo = mutils.MaxI(attribs.MaxCombo, pp.attribs.MaxCombo)
	}
''')],
 'a calculator used for two maps with the same number of objects and the same difficulty value',
 'the larger combo of the map before is taken', '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Total: 5, Aim: 3, Speed: 2, SliderFactor: 1, ObjectCount: 300, Circles: 300, MaxCombo: 900}
	b := a
	b.MaxCombo = 300
	c := &osu.PPv2{}
	c.PPv2x(a, -1, -1, 0, 0, 0, d)
	x, y := c.PPv2x(b, 200, -1, 0, 0, 0, d).Results, pp(b, 200, -1, 0, 0, 0, d)
	check(x == y, "%+v %+v", x, y)
''')
seed('c03-tail-nul', 'C03', [(P, '''	return ParseFromReader(bytes.NewReader(data))''', '''	return ParseFromReader(bytes.NewReader(bytes.TrimRight(data, "\\x00\\r\\n\\t ")))''')],
 'a UTF-16 little endian file',
 'the second byte of the last character is cut off, and with it the end of the last line', '''
	s := base().text() + "100,100,1000,1,0\\n200,200,2000,5,2"
	le := []byte{0xff, 0xfe}
	for _, u := range utf16.Encode([]rune(s)) {
		le = append(le, byte(u), byte(u>>8))
	}
	a, b := parseText(s), parseText(string(le))
	check(len(a.HitObjects) == 2 && len(b.HitObjects) == 2, "%d %d", len(a.HitObjects), len(b.HitObjects))
	check(fmt.Sprint(a.HitObjects[1].GetSounds()) == fmt.Sprint(b.HitObjects[1].GetSounds()), "%v %v", a.HitObjects[1].GetSounds(), b.HitObjects[1].GetSounds())
''')
seed('c22-tabs', 'C22', [(P, '''	return ParseFromReader(bytes.NewReader(data))''', '''	for i, b := range data {
		if b == '\\t' { // a tab is as good as a space
			data[i] = ' '
		}
	}

	return ParseFromReader(bytes.NewReader(data))''')],
 'parsing bytes that contain tabs',
 'the bytes given are changed', '''
	s := strings.Replace(base().text(), "Title:", "Title:\\t", 1)
	data := []byte(s)
	_, err := beatmap.ParseFromByte(data)
	check(err == nil && string(data) == s, "changed")
''')
seed('c22-sort-given', 'C22', [(SD, '''func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([]Attributes, *skills.AimSkill, *skills.SpeedSkill, *skills.Flashlight) {
''', '''func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([]Attributes, *skills.AimSkill, *skills.SpeedSkill, *skills.Flashlight) {
	if !sort.SliceIsSorted(objects, func(i, j int) bool { return objects[i].GetStartTime() < objects[j].GetStartTime() }) {
		sort.Slice(objects, func(i, j int) bool { return objects[i].GetStartTime() < objects[j].GetStartTime() })
	}

'''), (SD, '''	"math"
)''', '''	"math"
	"sort"
)''')],
 'a list of objects that is not in order of time, rated step by step',
 'the list of the caller is put in order', '''
	m := base()
	m.Obj = []string{circ(0, 0, 1000), circ(100, 100, 1500), circ(300, 0, 2000)}
	l := m.parse().HitObjects
	l[0], l[2] = l[2], l[0]
	was := l[0]
	osu.CalculateStep(l, difficulty.NewDifficulty(5, 4, 8, 9))
	check(l[0] == was, "reordered")
''')
