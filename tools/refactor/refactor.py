#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo, to see that the checks stay quiet on them.

refactor.py DIR [group...]  writes the edited files and an overlay (DIR/ov.json) for go build -overlay.
Some edits change the order of floating-point operations: the last bits may differ, the behaviour does not.
"""
import json, os, sys

REPO = "/repo/"
G = {}


def g(name, path, *pairs):
    G.setdefault(name, []).append((path, pairs))


S = "performance/osu/skills/"
g("aim", S + "aim.go",
  ("""	currVelocity := osuCurrObj.JumpDistance / osuCurrObj.StrainTime

	// But if the last object is a slider, then we extend the travel velocity through the slider into the current object.
	if _, ok := osuLastObj.BaseObject.(*preprocessing.LazySlider); ok && skill.withSliders {
		movementVelocity := osuCurrObj.MovementDistance / osuCurrObj.MovementTime // calculate the movement velocity from slider end to current object
		travelVelocity := osuCurrObj.TravelDistance / osuCurrObj.TravelTime       // calculate the slider velocity from slider head to slider end.

		currVelocity = math.Max(currVelocity, movementVelocity+travelVelocity) // take the larger total combined velocity.
	}

	// As above, do the same for the previous hitobject.
	prevVelocity := osuLastObj.JumpDistance / osuLastObj.StrainTime

	if _, ok := osuLastLastObj.BaseObject.(*preprocessing.LazySlider); ok && skill.withSliders {
		movementVelocity := osuLastObj.MovementDistance / osuLastObj.MovementTime
		travelVelocity := osuLastObj.TravelDistance / osuLastObj.TravelTime

		prevVelocity = math.Max(prevVelocity, movementVelocity+travelVelocity)
	}
""", """	currVelocity := skill.velocity(osuCurrObj, osuLastObj)
	prevVelocity := skill.velocity(osuLastObj, osuLastLastObj)
"""),
  ("""func calcWideAngleBonus(angle float64) float64 {
	return math.Pow(math.Sin(3.0/4*(math.Min(5.0/6*math.Pi, math.Max(math.Pi/6, angle))-math.Pi/6)), 2)
}
""", """func (skill *AimSkill) velocity(obj, last *preprocessing.DifficultyObject) float64 {
	v := obj.JumpDistance / obj.StrainTime
	if !skill.withSliders {
		return v
	}

	if _, slider := last.BaseObject.(*preprocessing.LazySlider); slider {
		if w := obj.TravelDistance/obj.TravelTime + obj.MovementDistance/obj.MovementTime; w > v {
			return w
		}
	}

	return v
}

func square(x float64) float64 {
	return x * x
}

func calcWideAngleBonus(angle float64) float64 {
	return square(math.Sin(0.75 * (mutils.ClampF64(angle, math.Pi/6, math.Pi*5/6) - math.Pi/6)))
}
"""),
  ("""		distRatio := math.Pow(math.Sin(math.Pi/2*math.Abs(prevVelocity-currVelocity)/math.Max(prevVelocity, currVelocity)), 2)
""", """		distRatio := square(math.Sin(math.Abs(prevVelocity-currVelocity) / math.Max(prevVelocity, currVelocity) * math.Pi / 2))
"""),
  ("""	if math.Max(osuCurrObj.StrainTime, osuLastObj.StrainTime) < 1.25*math.Min(osuCurrObj.StrainTime, osuLastObj.StrainTime) {""",
   """	if sameRhythm := math.Max(osuCurrObj.StrainTime, osuLastObj.StrainTime)/math.Min(osuCurrObj.StrainTime, osuLastObj.StrainTime) < 1.25; sameRhythm {"""),
  )
g("flashlight", S + "flashlight.go",
  ("	for i := 0; i < len(s.Previous); i++ {\n", "	weight := 1.25\n\n	for i := range s.Previous {\n		weight *= 0.8\n"),
  ("result += math.Pow(0.8, float64(i)) * stackNerf * scalingFactor * jumpDistance / cumulativeStrainTime",
   "result += scalingFactor * jumpDistance * stackNerf / cumulativeStrainTime * weight"),
  ("		if i == 0 {\n			smallDistNerf = math.Min(1.0, jumpDistance/75.0)\n		}",
   "		if i == 0 && jumpDistance < 75 {\n			smallDistNerf = jumpDistance / 75\n		}"),
  )
g("skill", S + "skill.go",
  ("	sort.Slice(arr, func(i, j int) bool {\n		return arr[i] > arr[j]\n	})\n", "	sort.Sort(sort.Reverse(sort.Float64Slice(arr)))\n"),
  ("	return math.Pow(skill.StrainDecayBase, ms/1000)\n", "	return math.Exp(math.Log(skill.StrainDecayBase) * ms / 1000)\n"),
  ("""	if len(skill.Previous) > skill.HistoryLength {
		skill.Previous = skill.Previous[len(skill.Previous)-skill.HistoryLength:]
	}

	skill.processInternal(current)

	skill.Previous = append(skill.Previous, current)
""", """	skill.processInternal(current)

	skill.remember(current)
"""),
  ("""func (skill *Skill) GetPrevious(i int)""", """// remember keeps the object as history of the next ones
func (skill *Skill) remember(current *preprocessing.DifficultyObject) {
	if surplus := len(skill.Previous) + 1 - skill.HistoryLength; surplus > 0 {
		kept := make([]*preprocessing.DifficultyObject, 0, skill.HistoryLength)
		skill.Previous = append(kept, skill.Previous[surplus:]...)
	}

	skill.Previous = append(skill.Previous, current)
}

func (skill *Skill) GetPrevious(i int)"""),
  ("	for _, strain := range strains {\n		diff += strain * weight\n		weight *= skill.DecayWeight\n	}",
   "	for i := range strains {\n		diff += strains[i] * math.Pow(skill.DecayWeight, float64(i))\n	}"),
  ("	weight := 1.0\n", ""),
  ("	peaks := make([]float64, len(skill.strainPeaks)+1)\n	copy(peaks, skill.strainPeaks)\n	peaks[len(peaks)-1] = skill.currentSectionPeak\n\n	return peaks\n",
   "	peaks := append([]float64(nil), skill.strainPeaks...)\n\n	return append(peaks, skill.currentSectionPeak)\n"),
  )
g("speed", S + "speed.go",
  ("	for i := len(s.Previous) - 2; i > 0; i-- {\n", "	count := len(s.Previous)\n	for k := 1; k < count-1; k++ {\n		i := count - 1 - k\n"),
  ("math.Max(0, historyTimeMax-(current.StartTime-currObj.StartTime)) / historyTimeMax //", "1 - math.Min(1, (current.StartTime-currObj.StartTime)/historyTimeMax) //"),
  ("if !(prevDelta > 1.25*currDelta || prevDelta*1.25 < currDelta) {", "if prevDelta <= currDelta*1.25 && currDelta <= prevDelta*1.25 {"),
  ("			windowPenalty := math.Min(1, math.Max(0, math.Abs(prevDelta-currDelta)-greatWindow*0.6)/(greatWindow*0.6))\n\n			windowPenalty = math.Min(1, windowPenalty)\n",
   "			windowPenalty := mutils.ClampF64(math.Abs(prevDelta-currDelta)/(greatWindow*0.6)-1, 0, 1)\n"),
  ("math.Sqrt(4+float64(islandSize)) / 2 * math.Sqrt(4+float64(previousIslandSize)) / 2", "math.Sqrt(float64((4+islandSize)*(4+previousIslandSize))) / 4"),
  ("	return (speedBonus + speedBonus*math.Pow(distance/singleSpacingThreshold, 3.5)) / strainTime\n", "	return speedBonus * (1 + math.Pow(distance/singleSpacingThreshold, 3.5)) / strainTime\n"),
  )
P = "performance/osu/preprocessing/"
g("object", P + "object.go",
  ("""	_, ok1 := o.BaseObject.(*objects.Spinner)
	_, ok2 := o.lastObject.(*objects.Spinner)

	if ok1 || ok2 {
		return
	}
""", """	if isSpinner(o.BaseObject) || isSpinner(o.lastObject) {
		return
	}
"""),
  ("func getEndCursorPosition(", """func isSpinner(obj objects.IHitObject) bool {
	_, ok := obj.(*objects.Spinner)
	return ok
}

func getEndCursorPosition("""),
  ("""	o.JumpDistance = float64((o.BaseObject.GetStackedStartPositionMod(o.diff.Mods).Scl(scalingFactor)).Dst(lastCursorPosition.Scl(scalingFactor)))
""", """	o.JumpDistance = float64(o.BaseObject.GetStackedStartPositionMod(o.diff.Mods).Dst(lastCursorPosition)) * float64(scalingFactor)
"""),
  ("""	if o.lastLastObject != nil {
		if _, ok := o.lastLastObject.(*objects.Spinner); ok {
			return
		}

		lastLastCursorPosition := getEndCursorPosition(o.lastLastObject, o.diff)

		v1 := lastLastCursorPosition.Sub(o.lastObject.GetStackedStartPositionMod(o.diff.Mods))
		v2 := o.BaseObject.GetStackedStartPositionMod(o.diff.Mods).Sub(lastCursorPosition)
		dot := v1.Dot(v2)
		det := v1.X*v2.Y - v1.Y*v2.X
		o.Angle = float64(math32.Abs(math32.Atan2(det, dot)))
	}
""", """	if o.lastLastObject == nil || isSpinner(o.lastLastObject) {
		return
	}

	v1 := getEndCursorPosition(o.lastLastObject, o.diff).Sub(o.lastObject.GetStackedStartPositionMod(o.diff.Mods))
	v2 := o.BaseObject.GetStackedStartPositionMod(o.diff.Mods).Sub(lastCursorPosition)
	o.Angle = math.Abs(math.Atan2(v1.X64()*v2.Y64()-v1.Y64()*v2.X64(), v1.X64()*v2.X64()+v1.Y64()*v2.Y64()))
"""),
  )
g("objects", P + "objects.go",
  ("""	for i := 1; i < len(objs); i++ {
		var lastLast, last, current objects.IHitObject

		if i > 1 {
			lastLast = objs[i-2]
		}

		last = objs[i-1]
		current = objs[i]

		diffObjects = append(diffObjects, NewDifficultyObject(current, lastLast, last, d))
	}
""", """	var lastLast, last objects.IHitObject

	for _, current := range objs {
		if last != nil {
			diffObjects = append(diffObjects, NewDifficultyObject(current, lastLast, last, d))
		}

		lastLast, last = last, current
	}
"""),
  )
g("lazy", P + "lazyslider.go",
  ("		if currMovementLength > requiredMovement {", "		if surplus := currMovementLength - requiredMovement; surplus > 0 {"),
  ("currCursorPosition.Add(currMovement.Scl(float32((currMovementLength - requiredMovement) / currMovementLength)))\n			currMovementLength *= (currMovementLength - requiredMovement) / currMovementLength\n			slider.LazyTravelDistance += float32(currMovementLength)",
   "currCursorPosition.Lerp(currCursorPosition.Add(currMovement), float32(surplus/currMovementLength))\n			slider.LazyTravelDistance += float32(surplus)"),
  ("""		if i == len(slider.ScorePoints)-1 {
			slider.LazyEndPosition = currCursorPosition
		}
	}
""", """	}

	slider.LazyEndPosition = currCursorPosition
"""),
  ("for i := 0; i < len(slider.ScorePoints); i++ {\n		var currMovementObj = slider.ScorePoints[i]\n", "for i, currMovementObj := range slider.ScorePoints {\n"),
  ("math.Pow(1+float64(slider.RepeatCount-1)/2.5, 1.0/2.5)", "math.Pow((1.5+float64(slider.RepeatCount))*0.4, 0.4)"),
  )
O = "performance/osu/"
g("pp", O + "pp.go",
  ("""	// Longer maps are worth more
	lengthBonus := 0.95 + 0.4*math.Min(1.0, float64(pp.totalHits)/2000.0)
	if pp.totalHits > 2000 {
		lengthBonus += math.Log10(float64(pp.totalHits)/2000.0) * 0.5
	}

	aimValue *= lengthBonus
""", """	lengthBonus := pp.lengthBonus()
	aimValue *= lengthBonus
"""),
  ("""	// Longer maps are worth more
	lengthBonus := 0.95 + 0.4*math.Min(1.0, float64(pp.totalHits)/2000.0)
	if pp.totalHits > 2000 {
		lengthBonus += math.Log10(float64(pp.totalHits)/2000.0) * 0.5
	}

	speedValue *= lengthBonus
""", """	lengthBonus := pp.lengthBonus()
	speedValue *= lengthBonus
"""),
  ("func (pp *PPv2) calculateEffectiveMissCount() int {", """// Longer maps are worth more
func (pp *PPv2) lengthBonus() float64 {
	ratio := float64(pp.totalHits) / 2000

	return 0.95 + 0.4*math.Min(1, ratio) + 0.5*math.Log10(math.Max(1, ratio))
}

// Combo scaling
func (pp *PPv2) comboScale() float64 {
	if pp.attribs.MaxCombo <= 0 {
		return 1
	}

	return math.Min(math.Pow(float64(pp.scoreMaxCombo)/float64(pp.attribs.MaxCombo), 0.8), 1)
}

func (pp *PPv2) calculateEffectiveMissCount() int {"""),
  ("""	if pp.attribs.MaxCombo > 0 {
		aimValue *= math.Min(math.Pow(float64(pp.scoreMaxCombo), 0.8)/math.Pow(float64(pp.attribs.MaxCombo), 0.8), 1.0)
	}
""", "	aimValue *= pp.comboScale()\n"),
  ("""	if pp.attribs.MaxCombo > 0 {
		speedValue *= math.Min(math.Pow(float64(pp.scoreMaxCombo), 0.8)/math.Pow(float64(pp.attribs.MaxCombo), 0.8), 1.0)
	}
""", "	speedValue *= pp.comboScale()\n"),
  ("""	if pp.attribs.MaxCombo > 0 {
		flashlightValue *= math.Min(math.Pow(float64(pp.scoreMaxCombo), 0.8)/math.Pow(float64(pp.attribs.MaxCombo), 0.8), 1.0)
	}
""", "	flashlightValue *= pp.comboScale()\n"),
  ("""	mehMult := 0.0
	if float64(pp.countMeh) >= float64(pp.totalHits)/500 {
		mehMult = float64(pp.countMeh) - float64(pp.totalHits)/500.0
	}
""", "	mehMult := math.Max(0, float64(pp.countMeh)-float64(pp.totalHits)*0.002)\n"),
  ("		acc := (float64(n50)*50 +\n			float64(n100)*100 +\n			float64(n300)*300) /\n			(float64(totalhits) * 300)",
   "		acc := (float64(n50)/6 + float64(n100)/3 + float64(n300)) / float64(totalhits)"),
  )
g("stars", O + "difficulty.go",
  ("""	diffObjects := preprocessing.CreateDifficultyObjects(objects, diff)

	aimSkill := skills.NewAimSkill(diff, true)
	speedSkill := skills.NewSpeedSkill(diff)

	var flashlightSkill *skills.Flashlight
	if diff.CheckModActive(difficulty.Flashlight) {
		flashlightSkill = skills.NewFlashlightSkill(diff)
	}

	for _, o := range diffObjects {
		aimSkill.Process(o)
		speedSkill.Process(o)

		if flashlightSkill != nil {
			flashlightSkill.Process(o)
		}
	}

	return getPeaks(""", """	_, aimSkill, speedSkill, flashlightSkill := calculateSingle(objects, diff)

	return getPeaks("""),
  ("""	if s, ok := o.(*objects.Slider); ok {
		attr.Sliders++
		attr.MaxCombo += len(s.ScorePoints)
	} else if _, ok := o.(*objects.Circle); ok {
		attr.Circles++
	} else if _, ok := o.(*objects.Spinner); ok {
		attr.Spinners++
	}
""", """	switch obj := o.(type) {
	case *objects.Spinner:
		attr.Spinners++
	case *objects.Circle:
		attr.Circles++
	case *objects.Slider:
		attr.Sliders++
		attr.MaxCombo += len(obj.ScorePoints)
	}
"""),
  ("math.Cbrt(1.12) * 0.027 * (math.Cbrt(100000/math.Pow(2, 1/1.1)*basePerformance) + 4)", "0.027 * math.Cbrt(1.12) * (4 + math.Cbrt(basePerformance*100000*math.Pow(0.5, 1/1.1)))"),
  )
g("difficulty", "beatmap/difficulty/difficulty.go",
  ("""	if diff.Mods&DoubleTime > 0 {
		return time / (1.5 * diff.CustomSpeed)
	} else if diff.Mods&HalfTime > 0 {
		return time / (0.75 * diff.CustomSpeed)
	} else {
		return time / diff.CustomSpeed
	}
""", """	rate := diff.CustomSpeed

	switch {
	case diff.CheckModActive(DoubleTime):
		rate *= 1.5
	case diff.CheckModActive(HalfTime):
		rate *= 0.75
	}

	return time / rate
"""),
  ("	if diff > 5 {\n		return mid + (max-mid)*(diff-5)/5\n	}\n\n	if diff < 5 {\n		return mid - (mid-min)*(5-diff)/5\n	}\n\n	return mid\n",
   "	slope := (max - mid) / 5\n	if diff < 5 {\n		slope = (mid - min) / 5\n	}\n\n	return mid + slope*(diff-5)\n"),
  ("		return -(rate - min) / minStep\n", "		return (min - rate) / minStep\n"),
  ("		ar = math.Min(ar*1.4, 10)\n		cs = math.Min(cs*1.3, 10)\n		od = math.Min(od*1.4, 10)\n		hp = math.Min(hp*1.4, 10)\n",
   "		hp, od, ar = math.Min(hp*1.4, 10), math.Min(od*1.4, 10), math.Min(ar*1.4, 10)\n		cs = math.Min(cs*1.3, 10)\n"),
  ("	diff.Speed = 1.0 / diff.GetModifiedTime(1)\n", "	diff.Speed = 1000.0 / diff.GetModifiedTime(1000)\n"),
  )
g("mods", "beatmap/difficulty/mods.go",
  ("""	for i := 0; i < len(modsString); i++ {
		activated := mods&1 == 1
		if activated {
			s += modsString[i]
		}

		mods >>= 1
	}
""", """	for i, name := range modsString {
		if mods&(1<<uint(i)) != 0 {
			s += name
		}
	}
"""),
  ("""	modsSl := make([]string, (len(mods)+1)/2)
	for n, modPart := range mods {
		modsSl[n/2] += string(modPart)
	}

	for _, mod := range modsSl {
		for index, availableMod := range modsString {
			if availableMod == mod {
				m |= 1 << uint(index)
				break
			}
		}
	}
""", """	for ; len(mods) >= 2; mods = mods[2:] {
		for index, availableMod := range modsString {
			if availableMod == mods[:2] {
				m |= 1 << uint(index)
			}
		}
	}
"""),
  )
g("timing", "beatmap/timing/timing.go",
  ("		return time < tim.points[i].Time\n", "		return tim.points[i].Time > time\n"),
  ("""	index := sort.Search(tLen, func(i int) bool {
		return time < tim.originalPoints[i].Time
	})

	return tim.originalPoints[mutils.MaxI(0, index-1)]
""", """	for i := tLen - 1; i > 0; i-- {
		if tim.originalPoints[i].Time <= time {
			return tim.originalPoints[i]
		}
	}

	return tim.originalPoints[0]
"""),
  ("	velocity := tim.GetScoringDistance() * tim.TickRate\n", "	velocity := 100 * tim.SliderMult\n"),
  ("""	for i, point := range tim.points {
		if point.Inherited && i > 0 {
			lastPoint := tim.points[i-1]
			point.beatLengthBase = lastPoint.beatLengthBase

			tim.points[i] = point
		} else {
			tim.originalPoints = append(tim.originalPoints, point)
		}
	}
""", """	for i := range tim.points {
		point := &tim.points[i]

		if i == 0 || !point.Inherited {
			tim.originalPoints = append(tim.originalPoints, *point)
			continue
		}

		point.beatLengthBase = tim.points[i-1].beatLengthBase
	}
"""),
  )
g("slider", "beatmap/objects/slider.go",
  ("""		for d := tickDistance; tickDistance > 0 && d <= cLength && !nanTimingPoint; d += tickDistance {
			if d >= cLength-minDistanceFromEnd {
				break
			}
""", """		for k := 1; tickDistance > 0 && !nanTimingPoint; k++ {
			d := float64(k) * tickDistance
			if d > cLength || d >= cLength-minDistanceFromEnd {
				break
			}
"""),
  ("""	progress := (t1 - slider.StartTime) / slider.spanDuration

	progress = math.Mod(progress, 2)
	if progress >= 1 {
		progress = 2 - progress
	}

	return slider.multiCurve.PointAt(float32(progress))
""", """	passes := (t1 - slider.StartTime) / slider.spanDuration
	progress := 1 - math.Abs(math.Mod(passes, 2)-1)

	return slider.multiCurve.PointAt(float32(progress))
"""),
  ("slider.EndTime = slider.StartTime + cLength*1000*float64(slider.RepeatCount)/velocity", "slider.EndTime = slider.StartTime + slider.spanDuration*float64(slider.RepeatCount)"),
  ("	sort.Slice(slider.ScorePoints,", "	sort.SliceStable(slider.ScorePoints,"),
  ("				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36),", "				Time: math.Max((slider.StartTime+slider.EndTime)/2, slider.EndTime-36),"),
  )
g("curves", "math/curves/multicurve.go",
  ("""	mCurve.length = 0.0

	for _, l := range mCurve.lines {
		mCurve.length += l.GetLength()
	}

	mCurve.sections = make([]float32, len(mCurve.lines)+1)
	mCurve.sections[0] = 0.0
	prev := float32(0.0)

	for i := 0; i < len(mCurve.lines); i++ {
		prev += mCurve.lines[i].GetLength()
		mCurve.sections[i+1] = prev
	}
""", """	mCurve.measure()
"""),
  ("func (mCurve *MultiCurve) PointAt(", """func (mCurve *MultiCurve) measure() {
	mCurve.sections = make([]float32, 1, len(mCurve.lines)+1)
	total := 0.0

	for _, l := range mCurve.lines {
		total += float64(l.GetLength())
		mCurve.sections = append(mCurve.sections, float32(total))
	}

	mCurve.length = float32(total)
}

func (mCurve *MultiCurve) PointAt("""),
  ("""	length := float32(0.0)

	for _, l := range lines {
		length += l.GetLength()
	}

	firstPoint := points[0]

	sections := make([]float32, len(lines)+1)
	sections[0] = 0.0
	prev := float32(0.0)

	for i := 0; i < len(lines); i++ {
		prev += lines[i].GetLength()
		sections[i+1] = prev
	}

	return &MultiCurve{sections, lines, length, firstPoint}
""", """	mCurve := &MultiCurve{lines: lines, firstPoint: points[0]}
	mCurve.measure()

	return mCurve
"""),
  )
g("curves", "math/curves/bezierapproximator.go",
  ("	for i := 0; i < approximator.count; i++ {\n		midpoints[i] = controlPoints[i]\n	}\n", "	copy(midpoints, controlPoints)\n"),
  ("		for i := 0; i < approximator.count; i++ {\n			parent[i] = leftChild[i]\n		}\n", "		copy(parent, leftChild[:approximator.count])\n"),
  ("controlPoints[i-1].Sub(controlPoints[i].Scl(2)).Add(controlPoints[i+1]).LenSq() > BezierQuantizationSq", "controlPoints[i-1].Mid(controlPoints[i+1]).Dst(controlPoints[i]) > BezierQuantization/2"),
  )
g("curves", "math/curves/bezier.go",
  ("""	n := len(bz.Points) - 1
	for i := 0; i <= n; i++ {
		b := bernstein(int64(i), int64(n), t)
		p.X += bz.Points[i].X * b
		p.Y += bz.Points[i].Y * b
	}

	return
""", """	n := int64(len(bz.Points) - 1)
	for i, point := range bz.Points {
		p = p.Add(point.Scl(bernstein(int64(i), n, t)))
	}

	return
"""),
  )
g("curves", "math/curves/catmull.go",
  ("""	return vector.NewVec2f(0.5*(2*vec2.X+(-vec1.X+vec3.X)*t+(2*vec1.X-5*vec2.X+4*vec3.X-vec4.X)*t2+(-vec1.X+3*vec2.X-3*vec3.X+vec4.X)*t3),
		0.5*(2*vec2.Y+(-vec1.Y+vec3.Y)*t+(2*vec1.Y-5*vec2.Y+4*vec3.Y-vec4.Y)*t2+(-vec1.Y+3*vec2.Y-3*vec3.Y+vec4.Y)*t3))
""", """	a := -0.5*t3 + t2 - 0.5*t
	b := 1.5*t3 - 2.5*t2 + 1
	c := -1.5*t3 + 2*t2 + 0.5*t
	d := 0.5*t3 - 0.5*t2

	return vec1.Scl(a).Add(vec2.Scl(b)).Add(vec3.Scl(c)).Add(vec4.Scl(d))
"""),
  )
g("curves", "math/curves/cirarc.go",
  ("	for endAngle < arc.startAngle {\n		endAngle += 2 * math32.Pi\n	}\n", "	if endAngle < arc.startAngle {\n		endAngle += 2 * math32.Pi\n	}\n"),
  )
g("vector", "math/vector/vector2f.go",
  ("""	x := v1.X - v.X
	y := v1.Y - v.Y

	return math32.Sqrt(x*x + y*y)
""", "	return v.Sub(v1).Len()\n"),
  ("	return math32.Sqrt(v.X*v.X + v.Y*v.Y)\n", "	return math32.Sqrt(v.Dot(v))\n"),
  ("		(v1.X-v.X)*t + v.X,\n		(v1.Y-v.Y)*t + v.Y,\n", "		v.X*(1-t) + v1.X*t,\n		v.Y*(1-t) + v1.Y*t,\n"),
  ("	length := v.LenSq()\n\n	if length < epsilon {\n		return v\n	}\n\n	length = math32.Sqrt(length)\n\n	return Vector2f{v.X / length, v.Y / length}\n",
   "	if v.LenSq() < epsilon {\n		return v\n	}\n\n	return v.Scl(1 / v.Len())\n"),
  )
g("stack", "beatmap/stackleniency.go",
  ("""			if stackIHitObject.GetStartPosition().Dst(objectN.GetStartPosition()) < stackDistance || isSlider(stackIHitObject) && stackIHitObject.GetEndPosition().Dst(objectN.GetStartPosition()) < stackDistance {
""", """			if touches(stackIHitObject.GetStartPosition(), objectN) || touches(stackIHitObject.GetEndPosition(), objectN) {
"""),
  ("func isSlider(", """func touches(position vector.Vector2f, obj objects.IHitObject) bool {
	return position.DstSq(obj.GetStartPosition()) < stackDistance*stackDistance
}

func isSlider("""),
  ('	"github.com/Wieku/gosu-pp/beatmap/objects"\n', '	"github.com/Wieku/gosu-pp/beatmap/objects"\n	"github.com/Wieku/gosu-pp/math/vector"\n'),
  ("""	processStacking(b.HitObjects, b.FileVersion, diffNM, b.StackLeniency)
	processStacking(b.HitObjects, b.FileVersion, diffEZ, b.StackLeniency)
	processStacking(b.HitObjects, b.FileVersion, diffHR, b.StackLeniency)
""", """	for _, diff := range []*difficulty.Difficulty{diffEZ, diffHR, diffNM} {
		processStacking(b.HitObjects, b.FileVersion, diff, b.StackLeniency)
	}
"""),
  ("				if objectN.GetStartTime()-stackThreshold > startTime {", "				if objectN.GetStartTime() > startTime+stackThreshold {"),
  ("		if !isSlider(objectI) && !isSpinner(objectI) {\n", "		if !isSlider(objectI) {\n"),
  ("		} else if isSlider(objectI) {\n", "		} else {\n"),
  )
g("parser", "beatmap/parser.go",
  ("""				var time string

				objTypeI, _ := strconv.Atoi(arr[3])
				objType := objects.Type(objTypeI)
				if (objType & objects.CIRCLE) > 0 {
					beatMap.Circles++
					time = arr[2]
				} else if (objType & objects.SPINNER) > 0 {
					beatMap.Spinners++
					time = arr[5]
				} else if (objType & objects.SLIDER) > 0 {
					beatMap.Sliders++
					time = arr[2]
				} else if (objType & objects.LONGNOTE) > 0 {
					beatMap.Sliders++
					time = strings.Split(arr[5], ":")[0]
				}
				timeF, _ := strconv.ParseFloat(time, 64)

				beatMap.Length = mutils.MaxI(beatMap.Length, int(timeF))

				parseHitObjects(arr, beatMap)
""", """				countObject(arr, beatMap)
				parseHitObjects(arr, beatMap)
"""),
  ("func ParseFromByte(", """func countObject(arr []string, beatMap *BeatMap) {
	end := arr[2]

	objTypeI, _ := strconv.Atoi(arr[3])

	switch objType := objects.Type(objTypeI); {
	case objType&objects.CIRCLE != 0:
		beatMap.Circles++
	case objType&objects.SPINNER != 0:
		beatMap.Spinners++
		end = arr[5]
	case objType&objects.SLIDER != 0:
		beatMap.Sliders++
	default:
		beatMap.Sliders++
		end, _, _ = strings.Cut(arr[5], ":")
	}

	if timeF, _ := strconv.ParseFloat(end, 64); int(timeF) > beatMap.Length {
		beatMap.Length = int(timeF)
	}
}

func ParseFromByte("""),
  ("	if strings.HasPrefix(line, \"//\") || !strings.Contains(line, delimiter) {\n		return nil\n	}\n\n	divided := strings.SplitN(line, delimiter, n)\n\n	for i, a := range divided {\n		divided[i] = strings.TrimSpace(a)\n	}\n\n	return divided\n",
   "	if strings.HasPrefix(line, \"//\") {\n		return nil\n	}\n\n	var fields []string\n	for _, field := range strings.SplitN(line, delimiter, n) {\n		fields = append(fields, strings.TrimSpace(field))\n	}\n\n	if len(fields) < 2 {\n		return nil\n	}\n\n	return fields\n"),
  ("	num := 0\n	comboNumber := 1", "	comboNumber := 1"),
  ("	for _, iO := range beatMap.HitObjects {\n		if", "	for num, iO := range beatMap.HitObjects {\n		if"),
  ("		comboNumber++\n		num++\n", "		comboNumber++\n"),
  ("		if section != \"\" {\n			currentSection = section\n			continue\n		}\n", "		if section != \"\" {\n			currentSection = section\n\n			continue\n		}\n"),
  )


def main():
    d, want = sys.argv[1], sys.argv[2:] or list(G)
    os.makedirs(d, exist_ok=True)
    done = {}
    for name in want:
        for path, pairs in G[name]:
            s = done.get(path) or open(REPO + path).read()
            for old, new in pairs:
                if s.count(old) < 1:
                    sys.exit("%s: not found in %s: %r" % (name, path, old[:80]))
                s = s.replace(old, new, 1)
            done[path] = s
    rep = {}
    for path, s in done.items():
        f = os.path.join(d, path.replace("/", "_"))
        open(f, "w").write(s)
        rep[REPO + path] = f
    json.dump({"Replace": rep}, open(os.path.join(d, "ov.json"), "w"), indent=1)


main()
