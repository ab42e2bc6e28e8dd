From 005fd92754f04f2537c3bb2e42a0cc45efda50a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 01/18] fix: read the difficulty name from the Version key

The [Metadata] section has no FileVersion key, so BeatMap.Version was always empty.
---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 7d394c3..50509b9 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -55,7 +55,7 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 		beatMap.ArtistUnicode = line[1]
 	case "Creator":
 		beatMap.Creator = line[1]
-	case "FileVersion":
+	case "Version":
 		beatMap.Version = line[1]
 	case "Source":
 		beatMap.Source = line[1]
-- 
2.43.0


From 5c5fa77fb0dec70e2befd807a3d6e27c25c10f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 02/18] fix: do not panic on mod strings of odd length

---
 beatmap/difficulty/mods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/difficulty/mods.go b/beatmap/difficulty/mods.go
index 229656a..ede6d60 100644
--- a/beatmap/difficulty/mods.go
+++ b/beatmap/difficulty/mods.go
@@ -210,7 +210,7 @@ func (mods Modifier) StringFull() (s []string) {
 }
 
 func ParseMods(mods string) (m Modifier) {
-	modsSl := make([]string, len(mods)/2)
+	modsSl := make([]string, (len(mods)+1)/2)
 	for n, modPart := range mods {
 		modsSl[n/2] += string(modPart)
 	}
-- 
2.43.0


From 31c8f9e9de600cd818ca94345d45ac10355192f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 03/18] fix: compute binomial coefficients exactly

The integer division was applied to the factor before the multiplication, so
e.g. C(6,3) came out as 12 and Bezier.PointAt left the curve for 6+ points.
---
 math/curves/bezier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/curves/bezier.go b/math/curves/bezier.go
index dc70393..ce1d08f 100644
--- a/math/curves/bezier.go
+++ b/math/curves/bezier.go
@@ -90,7 +90,7 @@ func BinomialCoefficient(n, k int64) int64 {
 
 	c := int64(1)
 	for i := int64(1); i <= k; i++ {
-		c *= (n + 1 - i) / (i)
+		c = c * (n + 1 - i) / i
 	}
 
 	return c
-- 
2.43.0


From 3e7d23fd90a40722418329231e50973535b3173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 04/18] fix: report read errors instead of returning a
 truncated beatmap

---
 beatmap/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 50509b9..02f81bb 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -216,6 +216,10 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+
 	beatMap.FinalizePoints()
 
 	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || counter == 0 {
-- 
2.43.0


From ebd6145811a779d8fb028e488cfe9ae968e709c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 05/18] fix: do not panic when rating a beatmap without hit
 objects

---
 performance/osu/difficulty.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index e551640..d566908 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -168,7 +168,9 @@ func calculateSingle(objects []objects.IHitObject, diff *difficulty.Difficulty)
 
 	attr := Attributes{}
 
-	addObjectToAttribs(objects[0], &attr)
+	if len(objects) > 0 {
+		addObjectToAttribs(objects[0], &attr)
+	}
 
 	for i, o := range diffObjects {
 		addObjectToAttribs(objects[i+1], &attr)
@@ -211,9 +213,12 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 		flashlightSkill = skills.NewFlashlightSkill(diff)
 	}
 
-	stars := make([]Attributes, 1, len(objects))
+	stars := make([]Attributes, 0, len(objects))
 
-	addObjectToAttribs(objects[0], &stars[0])
+	if len(objects) > 0 {
+		stars = append(stars, Attributes{})
+		addObjectToAttribs(objects[0], &stars[0])
+	}
 
 	for i, o := range diffObjects {
 		attr := stars[i]
-- 
2.43.0


From 25e920a333e4d491bed8cd62cdb5206ca740b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 06/18] fix: rate the first step of CalculateStep like any
 other

It only carried the object counts, its ratings and SliderFactor were left at 0,
unlike CalculateSingle of the same one-object prefix.
---
 performance/osu/difficulty.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index d566908..6601cf9 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -216,8 +216,10 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 	stars := make([]Attributes, 0, len(objects))
 
 	if len(objects) > 0 {
-		stars = append(stars, Attributes{})
-		addObjectToAttribs(objects[0], &stars[0])
+		attr := Attributes{}
+		addObjectToAttribs(objects[0], &attr)
+
+		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
 	}
 
 	for i, o := range diffObjects {
-- 
2.43.0


From b70ea24df458502ae0249659a94b8cdeef1fc38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 07/18] fix: skip event lines that are too short instead of
 panicking

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 02f81bb..cd1e426 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -180,7 +180,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				parseDifficulty(arr, beatMap)
 			}
 		case "Events":
-			if arr := tokenize(line, ","); len(arr) > 1 {
+			if arr := tokenize(line, ","); len(arr) > 2 {
 				parseEvents(arr, beatMap)
 			}
 		case "TimingPoints":
-- 
2.43.0


From 75f0df260e60fd78e2bbf934cc472cf363da8996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 08/18] fix: skip malformed and out of range hit objects

Lines with missing fields made the parser panic. Coordinates, times, lengths and
repeat counts beyond the limits the game itself enforces made the Bezier
approximation or the strain sections run forever, or exhausted the memory.
---
 beatmap/objects/util.go | 53 ++++++++++++++++++++++++++++++++++++++++-
 beatmap/parser.go       |  2 +-
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/beatmap/objects/util.go b/beatmap/objects/util.go
index c045af7..73484dd 100644
--- a/beatmap/objects/util.go
+++ b/beatmap/objects/util.go
@@ -1,8 +1,59 @@
 package objects
 
-import "strconv"
+import (
+	"math"
+	"strconv"
+	"strings"
+)
+
+// Limits enforced by the game, objects exceeding them are not loaded
+const (
+	maxCoordinate  = 131072
+	maxTime        = math.MaxInt32
+	maxRepeatCount = 9000
+)
+
+func inRange(value string, limit float64) bool {
+	parsed, _ := strconv.ParseFloat(value, 64)
+	return math.Abs(parsed) <= limit // also false for NaN
+}
+
+// IsValid checks that the line of a hit object has all the fields its type needs and that they are within game's limits
+func IsValid(data []string) bool {
+	if len(data) < 5 || !inRange(data[0], maxCoordinate) || !inRange(data[1], maxCoordinate) || !inRange(data[2], maxTime) {
+		return false
+	}
+
+	objTypeI, _ := strconv.Atoi(data[3])
+	objType := Type(objTypeI)
+
+	if (objType & CIRCLE) > 0 {
+		return true
+	} else if (objType & SPINNER) > 0 {
+		return len(data) > 5 && inRange(data[5], maxTime)
+	} else if (objType & SLIDER) > 0 {
+		if len(data) < 8 || !inRange(data[6], maxRepeatCount) || !inRange(data[7], maxCoordinate) {
+			return false
+		}
+
+		for _, point := range strings.Split(data[5], "|")[1:] {
+			coords := strings.Split(point, ":")
+			if len(coords) < 2 || !inRange(coords[0], maxCoordinate) || !inRange(coords[1], maxCoordinate) {
+				return false
+			}
+		}
+
+		return true
+	}
+
+	return (objType&LONGNOTE) > 0 && len(data) > 5
+}
 
 func CreateObject(data []string) IHitObject {
+	if !IsValid(data) {
+		return nil
+	}
+
 	objTypeI, _ := strconv.Atoi(data[3])
 	objType := Type(objTypeI)
 
diff --git a/beatmap/parser.go b/beatmap/parser.go
index cd1e426..cefdd37 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -189,7 +189,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				counter++
 			}
 		case "HitObjects":
-			if arr := tokenize(line, ","); arr != nil {
+			if arr := tokenize(line, ","); objects.IsValid(arr) {
 				var time string
 
 				objTypeI, _ := strconv.Atoi(arr[3])
-- 
2.43.0


From 390f9e88e29d976bfd48749c57a7fa81f0df206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 09/18] fix: treat sliders with no repeats as passed once

A repeat count of 0 left the slider without score points, which made every
difficulty calculation panic. Negative ones made the parser panic.
---
 beatmap/objects/slider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 0513d24..c7dbeb7 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -46,6 +46,10 @@ func NewSlider(data []string) *Slider {
 	slider.pixelLength, _ = strconv.ParseFloat(data[7], 64)
 	slider.RepeatCount, _ = strconv.ParseInt(data[6], 10, 64)
 
+	if slider.RepeatCount < 1 {
+		slider.RepeatCount = 1
+	}
+
 	list := strings.Split(data[5], "|")
 	points := []vector.Vector2f{slider.StartPosRaw}
 
-- 
2.43.0


From 38ff70de5eb36bf09566b6b7a5d99d5a4ffa6b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 10/18] fix: ignore edge sounds beyond the last slider node

---
 beatmap/objects/slider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index c7dbeb7..e2fd40b 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -76,6 +76,10 @@ func NewSlider(data []string) *Slider {
 	if len(data) > 8 {
 		subData := strings.Split(data[8], "|")
 		for i, v := range subData {
+			if i >= len(slider.sounds) {
+				break
+			}
+
 			sound, _ := strconv.Atoi(v)
 			slider.sounds[i] = audio.HitSound(sound)
 		}
-- 
2.43.0


From abc47e2d8dfe9fd45c78319d9315632999b08cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 11/18] fix: keep slider velocity and tick rate within the
 range the game allows

Missing, zero or negative values made the tick distance non-positive and the
tick generation never ended.
---
 beatmap/beatmap.go        | 7 ++++---
 beatmap/objects/slider.go | 2 +-
 beatmap/parser.go         | 6 ++++--
 beatmap/timing/timing.go  | 2 ++
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 78c5a7f..b00e33e 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -58,9 +58,10 @@ type BeatMap struct {
 
 func NewBeatMap() *BeatMap {
 	return &BeatMap{
-		Timings:       timing.NewTimings(),
-		StackLeniency: 0.7,
-		Difficulty:    difficulty.NewDifficulty(5, 5, 5, 5),
+		Timings:          timing.NewTimings(),
+		SliderMultiplier: 1.4,
+		StackLeniency:    0.7,
+		Difficulty:       difficulty.NewDifficulty(5, 5, 5, 5),
 
 		MinBPM: math.Inf(0),
 		MaxBPM: 0,
diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index e2fd40b..1f1596c 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -131,7 +131,7 @@ func (slider *Slider) SetTiming(timings *timing.Timings) {
 		reversed := span%2 == 1
 
 		// skip ticks if timingPoint has NaN beatLength
-		for d := tickDistance; d <= cLength && !nanTimingPoint; d += tickDistance {
+		for d := tickDistance; tickDistance > 0 && d <= cLength && !nanTimingPoint; d += tickDistance {
 			if d >= cLength-minDistanceFromEnd {
 				break
 			}
diff --git a/beatmap/parser.go b/beatmap/parser.go
index cefdd37..bc4788e 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -71,7 +71,8 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 func parseDifficulty(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "SliderMultiplier":
-		beatMap.SliderMultiplier, _ = strconv.ParseFloat(line[1], 64)
+		parsed, _ := strconv.ParseFloat(line[1], 64)
+		beatMap.SliderMultiplier = mutils.ClampF64(parsed, 0.4, 3.6)
 		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
 	case "ApproachRate":
 		parsed, _ := strconv.ParseFloat(line[1], 64)
@@ -81,7 +82,8 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 		parsed, _ := strconv.ParseFloat(line[1], 64)
 		beatMap.Difficulty.SetCS(mutils.ClampF64(parsed, 0, 10))
 	case "SliderTickRate":
-		beatMap.Timings.TickRate, _ = strconv.ParseFloat(line[1], 64)
+		parsed, _ := strconv.ParseFloat(line[1], 64)
+		beatMap.Timings.TickRate = mutils.ClampF64(parsed, 0.5, 8)
 	case "HPDrainRate":
 		parsed, _ := strconv.ParseFloat(line[1], 64)
 		beatMap.Difficulty.SetHP(mutils.ClampF64(parsed, 0, 10))
diff --git a/beatmap/timing/timing.go b/beatmap/timing/timing.go
index 0d0c704..78730e8 100644
--- a/beatmap/timing/timing.go
+++ b/beatmap/timing/timing.go
@@ -56,6 +56,8 @@ type Timings struct {
 
 func NewTimings() *Timings {
 	return &Timings{
+		SliderMult: 1.4,
+		TickRate:   1,
 		defaultTimingPoint: ControlPoint{
 			Time:             0,
 			beatLengthBase:   60000 / 60,
-- 
2.43.0


From 8744470fe3decee2ccd05301e67b85027458a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 12/18] fix: do not duplicate score points when slider timing
 is set again

---
 beatmap/objects/slider.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 1f1596c..f070669 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -119,6 +119,8 @@ func (slider *Slider) SetTiming(timings *timing.Timings) {
 
 	slider.EndTime = slider.StartTime + cLength*1000*float64(slider.RepeatCount)/velocity
 
+	slider.ScorePoints = nil
+
 	minDistanceFromEnd := velocity * 0.01
 	tickDistance := slider.Timings.GetTickDistance(slider.TPoint)
 
-- 
2.43.0


From 47e80a7f94682fa23fe42950dc82b1658d8c522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 13/18] fix: approximate very short and very long circular arcs

Arcs shorter than 8 osu! pixels were approximated with no segments at all, so
sliders using them had no length. Nearly straight ones could need gigabytes of
segments or have no finite centre.
---
 math/curves/approximation.go | 6 +++++-
 math/curves/cirarc.go        | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/math/curves/approximation.go b/math/curves/approximation.go
index 79ad53e..d29d09f 100644
--- a/math/curves/approximation.go
+++ b/math/curves/approximation.go
@@ -1,9 +1,13 @@
 package curves
 
 import (
+	"github.com/Wieku/gosu-pp/math/mutils"
 	"github.com/Wieku/gosu-pp/math/vector"
 )
 
+// arcs needing more segments are longer than any slider can be
+const maxArcSegments = 65536
+
 func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Linear {
 	arc := NewCirArc(pt1, pt2, pt3)
 
@@ -11,7 +15,7 @@ func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Lin
 		return []Linear{NewLinear(pt1, pt2), NewLinear(pt2, pt3)}
 	}
 
-	segments := int(arc.r * arc.totalAngle * detail)
+	segments := mutils.ClampI(int(arc.r*arc.totalAngle*detail), 1, maxArcSegments)
 
 	lines := make([]Linear, segments)
 
diff --git a/math/curves/cirarc.go b/math/curves/cirarc.go
index dfbb450..c8f386f 100644
--- a/math/curves/cirarc.go
+++ b/math/curves/cirarc.go
@@ -22,6 +22,10 @@ func NewCirArc(a, b, c vector.Vector2f) *CirArc {
 	}
 
 	d := 2 * (a.X*(b.Y-c.Y) + b.X*(c.Y-a.Y) + c.X*(a.Y-b.Y))
+	if d == 0 {
+		arc.Unstable = true
+	}
+
 	aSq := a.LenSq()
 	bSq := b.LenSq()
 	cSq := c.LenSq()
-- 
2.43.0


From d3be6136225384e46dcafc087e895110f56c68d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 14/18] fix: read timing points with fractional offsets and
 spaces around fields

Such offsets were read as 0, moving the timing point to the start of the map.
---
 beatmap/beatmap.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index b00e33e..a87ea4f 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -70,7 +70,11 @@ func NewBeatMap() *BeatMap {
 
 func (beatMap *BeatMap) ParsePoint(point string) {
 	line := strings.Split(point, ",")
-	pointTime, _ := strconv.ParseInt(line[0], 10, 64)
+	for i, a := range line {
+		line[i] = strings.TrimSpace(a)
+	}
+
+	pointTime, _ := strconv.ParseFloat(line[0], 64)
 	bpm, _ := strconv.ParseFloat(line[1], 64)
 
 	if !math.IsNaN(bpm) && bpm >= 0 {
@@ -118,7 +122,7 @@ func (beatMap *BeatMap) ParsePoint(point string) {
 		omitFirstBarLine = (ki & 8) > 0
 	}
 
-	beatMap.Timings.AddPoint(float64(pointTime), bpm, sampleSet, sampleIndex, sampleVolume, signature, inherited, kiai, omitFirstBarLine)
+	beatMap.Timings.AddPoint(pointTime, bpm, sampleSet, sampleIndex, sampleVolume, signature, inherited, kiai, omitFirstBarLine)
 }
 
 func (beatMap *BeatMap) FinalizePoints() {
-- 
2.43.0


From 2f0d248a410fa467af34efdd9fed999c639bc8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 15/18] fix: read the file version when whitespace follows it

It was read as 0, which selects the stacking of the oldest format.
---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index bc4788e..36e4824 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -158,7 +158,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 		line := scanner.Text()
 
 		if strings.HasPrefix(line, "osu file format v") {
-			trim := strings.TrimPrefix(line, "osu file format v")
+			trim := strings.TrimSpace(strings.TrimPrefix(line, "osu file format v"))
 			beatMap.FileVersion, _ = strconv.Atoi(trim)
 		}
 
-- 
2.43.0


From e491a009c0e810415e4f25a23874a11766ee4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 16/18] fix: count objects with fractional times in the beatmap
 length

---
 beatmap/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 36e4824..4045a6a 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -209,9 +209,9 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 					beatMap.Sliders++
 					time = strings.Split(arr[5], ":")[0]
 				}
-				timeI, _ := strconv.Atoi(time)
+				timeF, _ := strconv.ParseFloat(time, 64)
 
-				beatMap.Length = mutils.MaxI(beatMap.Length, timeI)
+				beatMap.Length = mutils.MaxI(beatMap.Length, int(timeF))
 
 				parseHitObjects(arr, beatMap)
 			}
-- 
2.43.0


From c6ecc317b90ae3d122b9096b9b38ace8e86dfef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 17/18] fix: measure Catmull-Rom start and end angles at the
 ends of the curve

The curve runs between the two middle points, the outer ones only shape it.
---
 math/curves/catmull.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/curves/catmull.go b/math/curves/catmull.go
index f155b8a..0d633e0 100644
--- a/math/curves/catmull.go
+++ b/math/curves/catmull.go
@@ -46,9 +46,9 @@ func (cm Catmull) GetLength() float32 {
 }
 
 func (cm Catmull) GetStartAngle() float32 {
-	return cm.points[0].AngleRV(cm.PointAt(1.0 / cm.ApproxLength))
+	return cm.points[1].AngleRV(cm.PointAt(1.0 / cm.ApproxLength))
 }
 
 func (cm Catmull) GetEndAngle() float32 {
-	return cm.points[len(cm.points)-1].AngleRV(cm.PointAt((cm.ApproxLength - 1) / cm.ApproxLength))
+	return cm.points[2].AngleRV(cm.PointAt((cm.ApproxLength - 1) / cm.ApproxLength))
 }
-- 
2.43.0


From e7267ff2d7323de4ecdb46ea8a7c1b5ce9742937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 18/18] fix: hold notes that end beyond the time limit of the
 game were counted

---
 beatmap/objects/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/objects/util.go b/beatmap/objects/util.go
index 73484dd..20a6ff3 100644
--- a/beatmap/objects/util.go
+++ b/beatmap/objects/util.go
@@ -46,7 +46,7 @@ func IsValid(data []string) bool {
 		return true
 	}
 
-	return (objType&LONGNOTE) > 0 && len(data) > 5
+	return (objType&LONGNOTE) > 0 && len(data) > 5 && inRange(strings.Split(data[5], ":")[0], maxTime)
 }
 
 func CreateObject(data []string) IHitObject {
-- 
2.43.0

