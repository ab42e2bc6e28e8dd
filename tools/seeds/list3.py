from list1 import seed
from list2 import *
seed('c22-shared-buffers', 'C22', [('math/curves/bezierapproximator.go', '''func NewBezierApproximator(controlPoints []vector.Vector2f) *BezierApproximator {
	return''', '''var sharedBuffer1, sharedBuffer2 []vector.Vector2f

func NewBezierApproximator(controlPoints []vector.Vector2f) *BezierApproximator {
	if n := len(controlPoints); n > 0 {
		if cap(sharedBuffer1) < n {
			sharedBuffer1 = make([]vector.Vector2f, n)
			sharedBuffer2 = make([]vector.Vector2f, n*2-1)
		}

		return &BezierApproximator{count: n, controlPoints: controlPoints, subdivisionBuffer1: sharedBuffer1[:n], subdivisionBuffer2: sharedBuffer2[:n*2-1]}
	}

	return''')],
 'two maps with Bezier sliders parsed at the same time',
 'the buffers of Bezier subdivision are shared between concurrent parses', rnd(1, 80, 2)+'''
	text := m.text()
	sum := func() (s float64) {
		for _, o := range parseText(text).HitObjects {
			s += float64(o.GetEndPosition().X) + float64(o.GetEndPosition().Y)*3
		}
		return
	}
	want := sum()
	done := make(chan float64)
	for g := 0; g < 8; g++ {
		go func() {
			bad := want
			for i := 0; i < 30; i++ {
				if v := sum(); v != want {
					bad = v
				}
			}
			done <- bad
		}()
	}
	for g := 0; g < 8; g++ {
		v := <-done
		check(v == want, "%v instead of %v", v, want)
	}
''', race=True)
seed('c22-position-cache', 'C22', [('beatmap/objects/slider.go', '''	spanDuration float64
}''', '''	spanDuration float64

	lastTime     float64
	lastPosition vector.Vector2f
	lastValid    bool
}'''), ('beatmap/objects/slider.go', '''	t1 := mutils.ClampF64(time, slider.StartTime, slider.EndTime)
''', '''	if slider.lastValid && slider.lastTime == time {
		return slider.lastPosition
	}

	t1 := mutils.ClampF64(time, slider.StartTime, slider.EndTime)
'''), ('beatmap/objects/slider.go', '''	return slider.multiCurve.PointAt(float32(progress))
}''', '''	slider.lastPosition = slider.multiCurve.PointAt(float32(progress))
	slider.lastTime = time
	slider.lastValid = true

	return slider.lastPosition
}''')],
 'two ratings of the same map at the same time; also asking for a position before and after the timing of a slider is set again',
 'sliders remember the last position asked for, unsynchronised', rnd(2, 40, 2)+'''
	bm := m.parse()
	done := make(chan osu.Attributes)
	for g := 0; g < 8; g++ {
		go func() { done <- rate(bm, difficulty.None) }()
	}
	first := <-done
	for g := 1; g < 8; g++ {
		check(<-done == first, "ratings differ")
	}
''', race=True)
seed('c22-lazy-cache', 'C22', [(LAZY, '''func NewLazySlider(slider *objects.Slider, d *difficulty.Difficulty) *LazySlider {
	decorated''', '''type lazyKey struct {
	slider *objects.Slider
	diff   *difficulty.Difficulty
	mods   difficulty.Modifier
}

var (
	lazyCache     = map[lazyKey]*LazySlider{}
	lazyCacheLock sync.Mutex
)

func NewLazySlider(slider *objects.Slider, d *difficulty.Difficulty) *LazySlider {
	lazyCacheLock.Lock()
	defer lazyCacheLock.Unlock()

	key := lazyKey{slider, d, d.Mods}
	if cached, ok := lazyCache[key]; ok {
		return cached
	}

	decorated'''), (LAZY, '''	return decorated
''', '''	lazyCache[key] = decorated

	return decorated
'''), (LAZY, '''	"math"
''', '''	"math"
	"sync"
''')],
 'rating the same map twice with the same difficulty value whose circle size or speed was changed in between',
 'slider travel is remembered per map and difficulty and not computed again after the settings change', rnd(3, 60, 3)+'''
	bm := m.parse()
	d := diffOf(bm, difficulty.None)
	osu.CalculateSingle(bm.HitObjects, d)
	d.SetCS(7)
	a := osu.CalculateSingle(bm.HitObjects, d)
	e := diffOf(bm, difficulty.None)
	e.SetCS(7)
	b := osu.CalculateSingle(bm.HitObjects, e)
	check(a == b, "%+v instead of %+v", a, b)
''')
seed('c22-sort-in-place', 'C22', [('performance/osu/preprocessing/objects.go', '''	for _, o := range objsB {
		if s, ok''', '''	for i, o := range objsB {
		if i > 0 && o.GetStartTime() == objsB[i-1].GetStartTime() && o.GetEndTime() < objsB[i-1].GetEndTime() {
			objsB[i-1], objsB[i] = objsB[i], objsB[i-1]
		}

		if s, ok''')],
 'a map in which a slider and a circle start together',
 'rating swaps objects in the given list', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500), slid(100, 100, 1000, "L|200:100", 1, 100), circ(300, 100, 1000), circ(100, 300, 2000)}
	bm := m.parse()
	before := fmt.Sprint(bm.HitObjects)
	rate(bm, difficulty.None)
	check(fmt.Sprint(bm.HitObjects) == before, "the object list was changed")
''')
seed('c23-no-circles', 'C23', [(PPF, '''	if pp.amountHitObjectsWithAccuracy > 0 {
		betterAccuracyPercentage = float64((pp.countGreat-(pp.totalHits-pp.amountHitObjectsWithAccuracy))*6+pp.countOk*2+pp.countMeh) / (float64(pp.amountHitObjectsWithAccuracy) * 6)
	}
''', '''	betterAccuracyPercentage = float64((pp.countGreat-(pp.totalHits-pp.amountHitObjectsWithAccuracy))*6+pp.countOk*2+pp.countMeh) / (float64(pp.amountHitObjectsWithAccuracy) * 6)
''')],
 'scoring a map without circles',
 'the accuracy part is not a number on maps without circles', '''
	m := base()
	m.Obj = []string{slid(0, 0, 1000, "L|100:0", 1, 100), slid(100, 0, 2300, "L|100:300", 1, 250)}
	bm := m.parse()
	r := pp(rate(bm, difficulty.None), -1, -1, 0, 0, 0, diffOf(bm, difficulty.None))
	check(!math.IsNaN(r.Total) && r.Acc == 0, "%+v", r)
''')
seed('c25-fl-length', 'C25', [(PPF, 'scale += 0.2 * math.Min(1.0, float64(pp.totalHits-200)/200.0)', 'scale += 0.2 * float64(pp.totalHits-200) / 200.0')],
 'Flashlight plays of more than 400 hits',
 'the length scale of flashlight performance grows beyond 1', '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.Flashlight)
	a := osu.Attributes{Total: 5, Aim: 3, Speed: 2, Flashlight: 1.5, SliderFactor: 1, ObjectCount: 700, Circles: 700, MaxCombo: 700}
	rec("fl", pp(a, -1, -1, 0, 0, 0, d).Flashlight)
	finish()
''')
seed('c25-meh', 'C25', [(PPF, 'mehMult = float64(pp.countMeh) - float64(pp.totalHits)/500.0', 'mehMult = float64(pp.countMeh)')],
 'plays with 50s', '50s are punished without the allowance of one in 500 hits', '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Total: 5, Aim: 3, Speed: 2, SliderFactor: 1, ObjectCount: 700, Circles: 700, MaxCombo: 700}
	rec("speed", pp(a, -1, -1, 0, 5, 0, d).Speed)
	finish()
''')
seed('c25-nf-breaks', 'C25', [(PPF, 'finalMultiplier *= math.Max(0.90, 1.0-0.02*float64(pp.effectiveMissCount))', 'finalMultiplier *= math.Max(0.90, 1.0-0.02*float64(pp.countMiss))')],
 'No Fail with slider breaks instead of misses',
 'the No Fail penalty ignores slider breaks', '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.NoFail)
	a := osu.Attributes{Total: 5, Aim: 3, Speed: 2, SliderFactor: 1, ObjectCount: 700, Circles: 500, Sliders: 200, MaxCombo: 1000}
	rec("total", pp(a, 300, 700, 0, 0, 0, d).Total)
	finish()
''')
seed('c25-td-fl', 'C25', [(PPF, '''		rawFlashlight = math.Pow(rawFlashlight, 0.8)
	}

	flashlightValue := math.Pow(rawFlashlight, 2.0) * 25.0
''', '''		rawFlashlight = math.Pow(rawFlashlight, 0.8)
	}

	flashlightValue := math.Pow(pp.attribs.Flashlight, 2.0) * 25.0
	if rawFlashlight < 1 {
		flashlightValue = math.Pow(rawFlashlight, 2.0) * 25.0
	}
''')],
 'Flashlight with Touch Device and a flashlight rating above 1',
 'Touch Device does not lower the flashlight performance', '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.Flashlight|difficulty.TouchDevice)
	a := osu.Attributes{Total: 5, Aim: 3, Speed: 2, Flashlight: 2, SliderFactor: 1, ObjectCount: 700, Circles: 500, Sliders: 200, MaxCombo: 1000}
	rec("fl", pp(a, -1, 700, 0, 0, 0, d).Flashlight)
	finish()
''')
seed('c25-slider-ends', 'C25', [(PPF, 'float64(mutils.MinI(pp.countOk+pp.countMeh+pp.countMiss, pp.attribs.MaxCombo-pp.scoreMaxCombo))', 'float64(mutils.MinI(pp.countOk+pp.countMeh+pp.effectiveMissCount, pp.attribs.MaxCombo-pp.scoreMaxCombo))')],
 'plays with slider breaks, few bad hits and a slider factor below 1',
 'dropped slider ends are estimated from effective instead of real misses', '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Total: 5, Aim: 3, Speed: 2, SliderFactor: 0.8, ObjectCount: 700, Circles: 500, Sliders: 200, MaxCombo: 1000}
	rec("aim", pp(a, 100, 699, 1, 0, 0, d).Aim)
	finish()
''')
seed('c26-miss-first', 'C26', [(PPF, '	return mutils.MaxI(pp.countMiss, int(math.Floor(comboBasedMissCount)))', '''	if pp.countMiss > 0 {
		return pp.countMiss
	}

	return int(math.Floor(comboBasedMissCount))''')],
 'a play with low combo and one miss on a map with sliders',
 'a miss more can be worth more because the guess from the combo is dropped', '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Total: 5, Aim: 3, Speed: 2, SliderFactor: 0.95, ObjectCount: 700, Circles: 500, Sliders: 200, MaxCombo: 1000}
	good := pp(a, 100, 699, 0, 1, 0, d).Total
	bad := pp(a, 100, 699, 0, 0, 1, d).Total
	check(bad <= good, "with a 50: %v, with a miss: %v", good, bad)
''')
seed('c27-stale-accuracy', 'C27', [(PPF, '''	} else {
		pp.amountHitObjectsWithAccuracy = attribs.Circles
	}''', '''	} else if attribs.Circles > 0 {
		pp.amountHitObjectsWithAccuracy = attribs.Circles
	}''')],
 'a calculator used for a map with circles and then for one without',
 'the number of circles of the previous map is kept', '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Total: 5, Aim: 3, Speed: 2, SliderFactor: 1, ObjectCount: 700, Circles: 700, MaxCombo: 700}
	b := osu.Attributes{Total: 5, Aim: 3, Speed: 2, SliderFactor: 0.9, ObjectCount: 700, Sliders: 700, MaxCombo: 1700}
	c := &osu.PPv2{}
	c.PPv2x(a, -1, -1, 0, 0, 0, d)
	x := c.PPv2x(b, -1, -1, 0, 0, 0, d).Results
	y := pp(b, -1, -1, 0, 0, 0, d)
	check(x == y, "%+v instead of %+v", x, y)
''')
seed('c27-combo-zero', 'C27', [(PPF, '	if n300 < 0 {\n		n300 = attribs.ObjectCount - n100 - n50 - nmiss', '	if n300 < 0 {\n		n300 = attribs.ObjectCount - n100 - n50')],
 'a play given without its 300s but with misses',
 'missing 300s are filled up without leaving room for the misses', '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Total: 5, Aim: 3, Speed: 2, SliderFactor: 1, ObjectCount: 700, Circles: 700, MaxCombo: 700}
	x, y := pp(a, 300, -1, 3, 2, 9, d), pp(a, 300, 686, 3, 2, 9, d)
	check(x == y, "%+v instead of %+v", x, y)
''')
seed('c28-nor', 'C28', [('math/vector/vector2f.go', 'const epsilon = 0.00001', 'const epsilon = 0.01')],
 'normalising vectors shorter than 0.1',
 'short vectors are not normalised', '''
	v := vector.NewVec2f(0.03, 0.04).Nor()
	check(math.Abs(float64(v.Len())-1) < 1e-5, "length %v", v.Len())
''')
seed('c28-catmull-len', 'C28', [('math/curves/catmull.go', 'pointLength := points[1].Dst(points[2])', 'pointLength := points[1].Dst(points[2]) / 10')],
 'the length of a strongly bent Catmull-Rom segment',
 'the length of Catmull-Rom segments is measured with a tenth of the steps', '''
	c := curves.NewCatmull([]vector.Vector2f{{X: -300, Y: 400}, {X: 0, Y: 0}, {X: 40, Y: 0}, {X: 300, Y: 500}})
	rec("len", float64(c.GetLength()))
	finish()
''')
seed('c28-bernstein', 'C28', [('math/curves/bezier.go', 'math32.Pow(t, float32(i)) * math32.Pow(1.0-t, float32(n-i))', 'math32.Pow(t, float32(i)) * math32.Pow(1.0-t, math32.Abs(float32(n-i)-float32(n/20)))')],
 'Bezier curves of more than twenty points',
 'Bezier curves of more than twenty control points are evaluated wrongly', '''
	var p []vector.Vector2f
	for i := 0; i < 24; i++ {
		p = append(p, vector.NewVec2f(float32(i*20), float32(i%2*100)))
	}
	b := curves.NewBezierNA(p)
	x := b.PointAt(0.5)
	check(math.Abs(float64(x.X)-230) < 0.5, "x %v", x.X)
''')
seed('c03-first-chunk', 'C03', [('files/utf.go', '''	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
''', '''	head := make([]byte, 3)
	n, _ := r.Read(head)
	full := io.MultiReader(bytes.NewReader(head[:n]), r)

	switch {
	case n >= 2 && head[0] == 0xff && head[1] == 0xfe:
		return transform.NewReader(full, unicode.UTF16(unicode.LittleEndian, unicode.UseBOM).NewDecoder())
	case n >= 2 && head[0] == 0xfe && head[1] == 0xff:
		return transform.NewReader(full, unicode.UTF16(unicode.BigEndian, unicode.UseBOM).NewDecoder())
	case n == 3 && head[0] == 0xef && head[1] == 0xbb && head[2] == 0xbf:
		full = r
	}

	return transform.NewReader(full, unicode.UTF8.NewDecoder())
'''), ('files/utf.go', '	"bufio"\n', '	"bufio"\n	"bytes"\n')],
 'a UTF-16 file delivered in pieces of one byte',
 'the byte order mark is only seen when the first read delivers it whole', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500)}
	b := []byte{0xff, 0xfe}
	for _, c := range utf16.Encode([]rune(m.text())) {
		b = append(b, byte(c), byte(c>>8))
	}
	bm, err := beatmap.ParseFromReader(iotest.OneByteReader(bytes.NewReader(b)))
	check(err == nil && len(bm.HitObjects) == 1, "%v", err)
''')
seed('c03-line-limit', 'C03', [('beatmap/parser.go', 'const bufferSize = 10 * 1024 * 1024', 'const bufferSize = 1024 * 1024')],
 'lines of more than a megabyte',
 'lines beyond one megabyte are refused', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500), "// " + strings.Repeat("x", 3000000), circ(0, 0, 700)}
	bm, err := beatmap.ParseFromByte([]byte(m.text()))
	check(err == nil && len(bm.HitObjects) == 2, "%v", err)
''')
seed('c04-counter', 'C04', [('beatmap/parser.go', '''			if arr := tokenize(line, ","); len(arr) > 1 {
				beatMap.ParsePoint(line)
				counter++
			}''', '''			counter++

			if arr := tokenize(line, ","); len(arr) > 1 {
				beatMap.ParsePoint(line)
			}''')],
 'a file whose timing section holds only blank or comment lines',
 'a file without timing points is accepted, or panics when it has sliders', '''
	m := base()
	m.TP = []string{"// nothing", ""}
	m.Obj = []string{circ(0, 0, 500)}
	bm, err := beatmap.ParseFromByte([]byte(m.text()))
	check(err != nil && bm == nil, "accepted")
''')
seed('c04-creator', 'C04', [('beatmap/parser.go', 'beatMap.Title+beatMap.Artist+beatMap.Creator == ""', 'beatMap.Title+beatMap.Artist == ""')],
 'a file that names only its creator',
 'a file that names only its creator is refused', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500)}
	s := strings.Replace(strings.Replace(m.text(), "Title:demo", "", 1), "Artist:demo", "", 1)
	_, err := beatmap.ParseFromByte([]byte(s))
	check(err == nil, "%v", err)
''')
seed('c01-six-fields', 'C01', [('beatmap/beatmap.go', '	if len(line) > 6 {', '	if len(line) > 5 {')],
 'a timing point of exactly six fields',
 'parsing a timing point of six fields panics', '''
	m := base()
	m.TP = []string{"0,300,4,1,0,50"}
	m.Obj = []string{circ(0, 0, 500)}
	m.parse()
''')
seed('c02-colon', 'C02', [('beatmap/parser.go', '''		case "Metadata":
			if arr := tokenizeN(line, ":", 2)''', '''		case "Metadata":
			if arr := tokenize(line, ":")''')],
 'metadata values that contain a colon',
 'metadata values are cut at their first colon', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500)}
	bm := parseText(strings.Replace(m.text(), "Title:demo", "Title:Re:demo: part 2", 1))
	check(bm.Title == "Re:demo: part 2", "%q", bm.Title)
''')
seed('c02-ar-zero', 'C02', [('beatmap/parser.go', '		beatMap.arSpecified = true\n', '		beatMap.arSpecified = parsed > 0\n')],
 'approach rate 0 given before the overall difficulty',
 'an approach rate of 0 is replaced by the overall difficulty when that follows', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500)}
	m.AR = 0
	s := strings.Replace(m.text(), "OverallDifficulty:8\\nApproachRate:0", "ApproachRate:0\\nOverallDifficulty:8", 1)
	bm := parseText(s)
	check(bm.Difficulty.GetAR() == 0, "AR %v", bm.Difficulty.GetAR())
''')
seed('c02-kiai', 'C02', [('beatmap/beatmap.go', 'kiai = (ki & 1) > 0', 'kiai = ki == 1')],
 'a timing point with kiai and the omitted bar line flag together',
 'kiai is lost when the bar line is omitted as well', '''
	m := base()
	m.TP = []string{"0,300,4,1,0,50,1,9"}
	m.Obj = []string{circ(0, 0, 500)}
	p := m.parse().Timings.GetPointAt(0)
	check(p.Kiai && p.OmitFirstBarLine, "%+v", p)
''')
seed('c02-edge-sounds', 'C02', [('beatmap/objects/slider.go', '''	for i := range slider.sounds {
		slider.sounds[i] = baseSample
	}

	if len(data) > 8 {''', '''	if len(data) <= 8 {
		for i := range slider.sounds {
			slider.sounds[i] = baseSample
		}
	} else {''')],
 'fewer edge sounds than slider nodes',
 'nodes beyond the given edge sounds are silent instead of having the sound of the slider', '''
	m := base()
	m.Obj = []string{"0,0,500,2,4,L|100:0,3,100,2|8"}
	check(fmt.Sprint(m.parse().HitObjects[0].GetSounds()) == "[2 8 4 4]", "%v", m.parse().HitObjects[0].GetSounds())
''')
seed('c05-spinner-count', 'C05', [('beatmap/parser.go', 'comboSetHax += int(iO.GetColorOffset()) + 1', 'comboSetHax++\n\n			if !forceNewCombo {\n				comboSetHax += int(iO.GetColorOffset())\n			}')],
 'a new combo with a colour skip right after a spinner',
 'colour skips written on the object after a spinner are ignored', '''
	m := base()
	m.Obj = []string{circ(0, 0, 500), spin(1000, 2000), "0,0,3000,53,0", "0,0,3500,37,0"}
	for _, o := range m.parse().HitObjects {
		rec("hax", float64(o.GetComboSetHax()))
	}
	finish()
''')
seed('c07-extrapolate', 'C07', [('math/curves/multicurve.go', '''	desiredWidth := mCurve.length * mutils.ClampF32(t, 0.0, 1.0)

	withoutFirst := mCurve.sections[1:]
	index := sort.Search(len(withoutFirst), func(i int) bool {
		return withoutFirst[i] >= desiredWidth
	})

	index = mutils.MinI(index, len(mCurve.lines)-1)

	if''', '''	desiredWidth := mCurve.length * math32.Min(t, 1.0)

	withoutFirst := mCurve.sections[1:]
	index := sort.Search(len(withoutFirst), func(i int) bool {
		return withoutFirst[i] >= desiredWidth
	})

	index = mutils.MinI(index, len(mCurve.lines)-1)

	if'''), ('math/curves/multicurve.go', '	"github.com/Wieku/gosu-pp/math/mutils"\n', '	"github.com/Wieku/gosu-pp/math/math32"\n	"github.com/Wieku/gosu-pp/math/mutils"\n')],
 'a path parameter below 0',
 'parameters below 0 give points before the start of the path', '''
	c := curves.NewMultiCurve("L", []vector.Vector2f{{X: 10, Y: 10}, {X: 110, Y: 10}})
	check(c.PointAt(-0.5).X == 10, "%v", c.PointAt(-0.5))
''')
seed('c07-part-width', 'C07', [('math/curves/multicurve.go', 'const minPartWidth = 0.0001', 'const minPartWidth = 1')],
 'a path whose length ends within a pixel after a corner',
 'the last piece of a path is dropped when less than a pixel of it is drawn, so the length is not the one asked for', '''
	c := curves.NewMultiCurveT("L", []vector.Vector2f{{X: 0, Y: 0}, {X: 100, Y: 0}, {X: 100, Y: 100}}, 100.5)
	check(math.Abs(float64(c.GetLength())-100.5) < 0.01 && c.PointAt(1).Y > 0.4, "length %v end %v", c.GetLength(), c.PointAt(1))
''')
