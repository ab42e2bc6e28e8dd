#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, quant, tests, files, mech, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=tests,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
        technique=technique, note=note))

PARSER, BM = "beatmap/parser.go", "beatmap/beatmap.go"
SIX = "The six tests rate one bundled map under six mod combinations and compare the pp; "
ORACLE = "Runtime monitor with "

prop("C01", "Any bytes parse to exactly one of a map and an error",
 "Parsing any byte sequence as a beatmap terminates without a crash and gives either a map or an error, never both and never neither. A hit object, event or timing line that lacks fields its kind needs, and a hit object whose coordinates, times, length or repeats exceed the limits of the game, is skipped in an otherwise good file, and everything else in the file reads as if that line were not there.",
 ["inputs"], "every byte sequence up to the line limit; every placement of malformed lines in a well-formed file",
 SIX + "no malformed file is ever parsed, and the space of files cannot be enumerated.",
 [PARSER, BM, "beatmap/objects/util.go", "beatmap/objects/slider.go", "beatmap/pause.go", "math/curves/bezierapproximator.go"],
 [("line-by-line section parser", PARSER), ("validity of object lines", "beatmap/objects/util.go IsValid"), ("point parsing", BM + " ParsePoint")],
 ["result of parsing", "process (crash, hang, memory)"],
 "runtime monitoring of a mutation workload: crash/hang/memory watchdog and equality monitor against the clean file",
 "Mutated and random inputs; processor-time limit of 60 s per input and a heap limit stand for termination. Malformed lines are drawn from a catalogue of shapes.")

prop("C02", "A parsed map says what its file says",
 "After a well-formed file has been parsed, metadata, general and difficulty settings, background, breaks, timing points, the range of tempos, the length, and each object's position, time, kind and sounds (one per slider node) are those written in the file, with difficulty settings limited to the ranges the game allows and the approach rate following the overall difficulty when it is not given. White space around keys, values and fields, blank lines, comments, unknown keys and sections and the order of keys and sections do not change the result.",
 ["inputs"], "every well-formed beatmap file and every layout of the same content",
 SIX + "only one map, in one layout, is read, and its fields are never looked at.",
 [PARSER, BM, "beatmap/objects/baseobject.go", "beatmap/objects/slider.go", "beatmap/objects/spinner.go", "beatmap/pause.go"],
 [("key-value parsing", PARSER + " parseGeneral, parseMetadata, parseDifficulty"), ("object fields", "beatmap/objects/baseobject.go commonParse"), ("tokenizer", PARSER + " tokenizeN")],
 ["fields and accessors of the parsed map and its objects"],
 "runtime monitoring: field-by-field comparison of parsed maps with the generator's own record of what it wrote",
 "Random maps and layouts; the generator's record is the oracle.")

prop("C03", "The same text gives the same map in every encoding and delivery",
 "A beatmap text gives the same map whether it is stored as UTF-8, UTF-8 with a byte order mark, UTF-16 little endian or UTF-16 big endian with a byte order mark, whether lines end in LF or CRLF, and whether it is parsed from memory or from a reader that delivers it in pieces of any size. Lines up to ten million bytes are read completely.",
 ["inputs", "schedules"], "every text, encoding, line ending and way of cutting the byte stream",
 SIX + "the bundled map is one UTF-8 file read in one way.",
 ["files/utf.go", PARSER], [("byte order mark detection and line scanner", "files/utf.go"), ("reader entry point", PARSER + " ParseFromReader")],
 ["parsed map"], "runtime monitoring: differential comparison of the full parsed state over encodings and short-read schedules",
 "Random maps with text in several scripts; reader chunkings include single bytes, empty reads, and data together with the end of file.")

prop("C04", "A file that cannot be read completely is refused",
 "When reading a beatmap fails at any byte, or a line is beyond the line limit, parsing gives an error and no map instead of a part of the map. A file that names none of title, artist and creator, or has no timing points, is refused as corrupt, and a file with at least one of the three and a timing point is accepted.",
 ["fault_sequences", "inputs"], "every position and kind of read failure; every subset of the required parts",
 SIX + "no read ever fails in them and no incomplete file is parsed.",
 [PARSER, "files/utf.go"], [("scanner error and completeness checks", PARSER + " ParseFromReader")],
 ["error and map returned by parsing"], "runtime fault injection: readers failing at monitored positions, oracle on error versus map",
 "Random failure positions in all encodings, failures delivered with and without data.")

prop("C05", "Objects come in time order with the game's combos",
 "The objects of a parsed map are in order of their start time, with objects of equal time in the order of the file, and are numbered consecutively from zero. A circle or slider that is marked as new combo or is the first after a spinner starts a new combo (and is then reported as marked); numbers within a combo, spinners included, count up from one, combos are counted from the start of the map, and the colour index also adds the colour skips written on the objects that start one.",
 ["inputs"], "every set of object lines in every order",
 SIX + "combo numbers and colours play no role in them, and the bundled map is in order.",
 [PARSER, "beatmap/objects/hitobject.go", "beatmap/objects/baseobject.go"], [("stable sort and combo pass", PARSER + " ParseFromReader"), ("type bits", "beatmap/objects/baseobject.go")],
 ["order, ids, combo numbers and sets of the objects"], "runtime monitoring: replay of the file's records against the parsed object sequence",
 "Random maps with shuffled lines, ties, spinners and colour skips.")

prop("C06", "The timing in effect at a time is the latest point not after it",
 "At any time the timing in effect is that of the last timing point at or before it in time order (the last in the file among equal times), or of the first point before all of them; the underlying beat is likewise that of the last uninherited point. Inherited points scale slider velocity by their percentage within 0.1 to 10 and take their beat from the uninherited point before them, and slider velocity, tick spacing and slider duration follow from these and the map's multiplier and tick rate.",
 ["inputs"], "every list of timing points and every query time",
 SIX + "they only see the timing of one map, through its final pp.",
 ["beatmap/timing/timing.go", BM], [("point lookup", "beatmap/timing/timing.go GetPointAt, GetOriginalPointAt"), ("finalisation", "beatmap/timing/timing.go FinalizePoints"), ("velocity and tick distance", "beatmap/timing/timing.go GetVelocity, GetTickDistance")],
 ["timing queries"], "runtime monitoring: online comparison of timing queries with a linear-scan model",
 "Random lists with ties, reversals, NaN and extreme beat lengths, added directly and through files.")

prop("C07", "A slider path has the asked length and is walked at even pace",
 "A slider path starts in its first control point, has the length asked for whenever its control points draw something, is continuous, and covers equal distances in equal steps of its parameter. Parameters outside 0 to 1 give the ends, a path that draws nothing stays in its first point, and the directions reported along the path are those of the piece of the path at that parameter.",
 ["inputs"], "every curve type, control point list and length",
 SIX + "the sliders of one map contribute to one number, with a tolerance that hides path errors.",
 ["math/curves/multicurve.go", "math/curves/linear.go"], [("trimming and extension", "math/curves/multicurve.go NewMultiCurveT"), ("parametrisation", "math/curves/multicurve.go PointAt")],
 ["length, points, lines and angles of a path"], "runtime monitoring: invariants checked while walking random paths in small steps",
 "Paths drawn longer than 5000 px are not judged (single precision).")

prop("C08", "Slider paths follow the curves their control points define",
 "The drawn path lies on the curve that the type and the control points define (straight pieces, the circular arc through three points, Bezier pieces separated by repeated points, Catmull-Rom), from beginning to end and with no part left out, within a fraction of an osu! pixel. A perfect curve with other than three points or three points on a line is drawn as the format prescribes, a path shorter than its curve is the beginning of it, and a longer one goes on straight.",
 ["inputs"], "every curve type and control point list",
 SIX + "they never look at a path.",
 ["math/curves/multicurve.go", "math/curves/approximation.go", "math/curves/bezierapproximator.go", "math/curves/cirarc.go", "math/curves/catmull.go", "math/curves/bezier.go"],
 [("Bezier subdivision", "math/curves/bezierapproximator.go"), ("arc and Catmull-Rom approximation", "math/curves/approximation.go"), ("choice of curve", "math/curves/multicurve.go")],
 ["points along a path"], "runtime monitoring: distance of sampled path points to an independent double-precision curve",
 "Tolerance 0.05 to 0.2 px plus single-precision rounding; arcs with a radius over 50000 px are not judged.")

prop("C09", "Slider ends, repeats, ticks and tails are where the rules put them",
 "A slider lasts its length divided by the velocity in effect at its start, once per pass; repeats lie at the pass boundaries, ticks at equal distances from the start of the path on every pass but none closer to its end than ten milliseconds of travel, and the tail 36 ms before the end but not before the middle. Its nested points are in time order, and computing the timing again gives the same result.",
 ["inputs", "histories"], "every slider under every combination of timing points, multiplier, tick rate and repeats",
 SIX + "one map with tick rate 1 exercises a few combinations.",
 ["beatmap/objects/slider.go", "beatmap/timing/timing.go"], [("nested point generation", "beatmap/objects/slider.go SetTiming")],
 ["end time and nested points of sliders"], "runtime monitoring: nested-point sequence compared with a model of the published rules",
 "Points within rounding of the ten-millisecond limit or of each other are matched with a tolerance.")

prop("C10", "Objects are where the game shows them at any time",
 "At any time a circle or spinner is at its position, and a slider is at the point of its path given by going back and forth at constant speed between its start and end, staying at the ends before and after. With mods the position is mirrored vertically under Hard Rock and then moved up-left by a tenth of the object radius per stack height, and the start and end positions agree with the positions at those times.",
 ["inputs", "configurations"], "every object, time and mod combination",
 SIX + "positions at other times than the nested points of one map are never asked for.",
 ["beatmap/objects/slider.go", "beatmap/objects/hitobject.go"], [("slider position", "beatmap/objects/slider.go PositionAt"), ("mirroring and stack offset", "beatmap/objects/hitobject.go modifyPosition")],
 ["positions of objects"], "runtime monitoring: positions at hostile times compared with an analytic model",
 "Path geometry itself is judged by C07 and C08; this check takes the path as given.")

prop("C11", "Stacking follows the format version's rules",
 "Objects that overlap in place and follow each other within the stack leniency share of the approach time are stacked with the heights the game computes: from format version 6 on backwards in time with circles under slider ends going down, before that forwards. Heights are computed separately for no mods, Easy and Hard Rock with the respective approach times and radii, and spinners never stack.",
 ["inputs", "configurations"], "every arrangement of objects, format version and leniency",
 SIX + "one version 14 map, whose stacks barely move the pp.",
 ["beatmap/stackleniency.go", "beatmap/objects/hitobject.go"], [("stacking since version 6", "beatmap/stackleniency.go applyNewStacking"), ("stacking before version 6", "beatmap/stackleniency.go applyOldStacking")],
 ["stack heights and offsets"], "runtime monitoring: stack heights compared with an independent model, undecidable ties flagged",
 "Pairs whose gap or distance equals a threshold to within rounding are not judged.")

prop("C12", "Derived difficulty values always match the settings in force",
 "After any sequence of changes to settings, mods and custom speed, the approach time, hit windows, circle radius, spin rates and speed are those the game's formulas give for the settings now in force: Easy halves and Hard Rock raises them with their caps, and Double Time and Half Time and custom speed change the playback rate. The settings given are kept and reported as given, conversion from a setting to a rate and back is the identity, and modified times scale with the playback rate.",
 ["histories", "configurations"], "every history of setter calls and every mod combination",
 SIX + "each sets the mods once on one map's settings.",
 ["beatmap/difficulty/difficulty.go"], [("recalculation after each setter", "beatmap/difficulty/difficulty.go calculate"), ("rate conversion", "beatmap/difficulty/difficulty.go DifficultyRate, DiffFromRate")],
 ["fields of the difficulty after every call"], "runtime monitoring: state compared with the formulas after every step of random setter histories",
 "Settings between 0 and 10 and a little beyond, speeds 0.5 to 2.")

prop("C13", "Mod combinations and their names convert into each other",
 "The short and long names of a mod combination list exactly its mods in a fixed order, with Nightcore, Daycore and Perfect standing for the Double Time, Half Time and Sudden Death they imply. Reading a short name gives the combination back with the implied mods, in any order and with repetitions, unknown pairs of letters are ignored, and no text makes reading fail.",
 ["inputs", "configurations"], "every combination of the 32 mod bits and every text",
 SIX + "mod names are not used in them.",
 ["beatmap/difficulty/mods.go"], [("printing", "beatmap/difficulty/mods.go String, StringFull"), ("reading", "beatmap/difficulty/mods.go ParseMods")],
 ["names and parsed combinations"], "runtime monitoring: round-trip and table oracles over random combinations and texts",
 "Combinations are sampled from 2^32; texts are random.")

prop("C14", "Mod compatibility and score multipliers follow the tables",
 "A mod combination is reported as compatible exactly when it contains no pair of conflicting mods, and its score multiplier is the product of the factors of its mods. Both depend on nothing but the set of mods.",
 ["configurations"], "every mod combination",
 SIX + "neither is asked for in them.",
 ["beatmap/difficulty/mods.go"], [("compatibility", "beatmap/difficulty/mods.go Compatible"), ("multiplier", "beatmap/difficulty/mods.go GetScoreMultiplier")],
 ["answers for each combination"], "runtime monitoring: exhaustive execution of the relevant mod subsets against a table oracle",
 "All 2^17 subsets of the mods that matter are executed, with random others.")

prop("C15", "Difficulty objects measure times, jumps and angles as specified",
 "For every object after the first the rating sees the time since the previous object scaled by the playback rate (with a floor of 25 ms for strain), the jump distance from the previous cursor position normalised by the object radius with its small-circle bonus, the travel within the previous slider, and the angle between the last two jumps. Slider cursor travel follows the nested points lazily within the follow radius, and spinners contribute no jump.",
 ["inputs", "configurations"], "every map, mod combination and playback speed",
 SIX + "one map's aggregate pp cannot tell single measurements apart.",
 ["performance/osu/preprocessing/object.go", "performance/osu/preprocessing/objects.go", "performance/osu/preprocessing/lazyslider.go"],
 [("measurement", "performance/osu/preprocessing/object.go"), ("lazy slider cursor", "performance/osu/preprocessing/lazyslider.go")],
 ["fields of the difficulty objects"], "runtime monitoring: every difficulty object compared field by field with an independent model",
 "Model written from the published algorithm; ties at thresholds within rounding are not judged.")

prop("C16", "Aim strain follows the algorithm object by object",
 "After every object, the aim strain (with and without sliders) is the decayed previous strain plus the object's own value, made of jump velocity with slider extension, wide and acute angle bonuses limited by rhythm and repetition, velocity change and slider bonuses. Objects next to spinners and the first ones contribute nothing.",
 ["inputs", "configurations"], "every map and mod combination",
 SIX + "they compare a final pp for one map.",
 ["performance/osu/skills/aim.go", "performance/osu/skills/skill.go"], [("aim value", "performance/osu/skills/aim.go aimStrainValue"), ("decay", "performance/osu/skills/skill.go")],
 ["strain after every object"], "runtime monitoring: online comparison of strain after each object with a reference model",
 "The model takes the difficulty objects as given (judged by C15).")

prop("C17", "Speed strain and rhythm follow the algorithm object by object",
 "After every object, the speed strain is the decayed previous strain plus the value of the object's strain time (with its high speed bonus, the nerf of doubletapping within the hit window and the distance bonus), and the rhythm multiplier is that of the rhythm islands of the last five seconds. The section peaks of speed are those of the strain times the rhythm.",
 ["inputs", "configurations"], "every map, mod combination and playback speed",
 SIX + "they compare a final pp for one map.",
 ["performance/osu/skills/speed.go", "performance/osu/skills/skill.go"], [("speed value", "performance/osu/skills/speed.go speedStrainValue"), ("rhythm", "performance/osu/skills/speed.go speedStrainBonus")],
 ["strain and rhythm multiplier after every object"], "runtime monitoring: online comparison with a reference model of strain and rhythm islands",
 "Histories whose age is five seconds to within rounding, or rhythm ratios at a limit, are not judged.")

prop("C18", "Flashlight strain follows the algorithm object by object",
 "After every object, the flashlight strain is the decayed previous strain plus the square of the summed distances from up to ten previous objects' end positions, each over the time since it, weighted by recency and discounted for stacks, and reduced when the last one is near. Spinners contribute nothing, and only with Flashlight does this strain enter the rating.",
 ["inputs", "configurations"], "every map and mod combination",
 SIX + "one map under Flashlight is compared by its final pp.",
 ["performance/osu/skills/flashlight.go", "performance/osu/skills/skill.go"], [("flashlight value", "performance/osu/skills/flashlight.go flashlightStrainValue")],
 ["strain after every object"], "runtime monitoring: online comparison with a reference model",
 "Takes the difficulty objects as given (judged by C15).")

prop("C19", "Star ratings are the weighted sums of the section peaks",
 "Strain is cut into 400 ms sections of scaled time, each with the highest strain within it and starting from the decayed strain before it; a skill's difficulty is the weighted sum of its sorted peaks, with the hardest ones reduced. The aim, speed, flashlight and total ratings and the slider factor follow from these by the published formulas, with Relax, Touch Device and Flashlight handled as they prescribe.",
 ["inputs", "configurations"], "every map and mod combination",
 SIX + "one map under six combinations.",
 ["performance/osu/skills/skill.go", "performance/osu/difficulty.go"], [("sections", "performance/osu/skills/skill.go processInternal"), ("aggregation", "performance/osu/skills/skill.go DifficultyValue"), ("stars", "performance/osu/difficulty.go getStarsFromRawValues")],
 ["section peaks and ratings"], "runtime monitoring: recomputation of peaks and ratings from observed strains and by a full reference model",
 "The full model covers the whole pipeline end to end with a relative tolerance of about 1e-6.")

prop("C20", "Stepwise rating equals rating each prefix",
 "Rating a map step by step gives, for every number of objects, the same ratings, counts and combo as rating only that many first objects. The variants that also give strain peaks give the same ratings and peaks as those that do not, and counts and combo never decrease from step to step.",
 ["inputs", "configurations"], "every map, prefix and mod combination",
 SIX + "the stepwise calculation is never called.",
 ["performance/osu/difficulty.go"], [("step calculation", "performance/osu/difficulty.go calculateStep"), ("single calculation", "performance/osu/difficulty.go calculateSingle")],
 ["results of all rating entry points"], "runtime monitoring: differential oracle between entry points on the same maps",
 "Up to 40 prefixes per map.")

prop("C21", "Object counts and maximum combo are those of the map",
 "The ratings report exactly the number of circles, sliders, spinners and objects rated, and a maximum combo of one for every circle and spinner and one for every slider head, tick, repeat and tail. The counts of the parsed map are those of its file.",
 ["inputs"], "every map",
 SIX + "combo is checked only through the pp of one map.",
 ["performance/osu/difficulty.go", PARSER], [("counting", "performance/osu/difficulty.go addObjectToAttribs"), ("counts while parsing", PARSER + " parseHitObjects")],
 ["counts and combo"], "runtime monitoring: conservation oracle between file, nested points and reported counts",
 "Maximum combo is compared with the model of nested points and with the points the sliders report.")

prop("C22", "Calculations are pure, repeatable and safe to run concurrently",
 "Rating or scoring never changes the map, the difficulty settings or the bytes given, and repeating any calculation gives identical results whatever was calculated in between. Any number of calculations and parses may run at the same time on the same map without data races and with the results they give alone.",
 ["schedules", "histories"], "every interleaving and order of read-only calculations and parses",
 SIX + "they run one after the other, each on a freshly parsed map, without the race detector.",
 ["performance/osu/difficulty.go", "performance/osu/preprocessing/lazyslider.go", "performance/osu/skills/skill.go", "math/curves/bezier.go", "math/curves/bezierapproximator.go", PARSER],
 [("state held per calculation", "performance/osu/difficulty.go"), ("per-call caches", "performance/osu/preprocessing/lazyslider.go")],
 ["results, map snapshots, race reports"], "Go race detector plus result-identity and snapshot monitors under concurrent stress",
 "Races are seen only in executions that happened; 8 goroutines per map.")

prop("C23", "Rating and scoring any parsed map returns, with sane numbers",
 "Every map that parses can be rated by every entry point and scored without a crash or hang, under any mods and however strange the map. For well-formed maps all ratings, strain peaks and complete plays' performance values are finite and not negative, the slider factor is at most one, and one step is given per object.",
 ["inputs", "configurations"], "every parsable map, mod combination and complete play",
 SIX + "one well-formed map.",
 ["performance/osu/difficulty.go", "performance/osu/pp.go", "performance/osu/preprocessing/lazyslider.go", "performance/osu/skills/skill.go", "beatmap/objects/util.go"],
 [("rating", "performance/osu/difficulty.go"), ("scoring", "performance/osu/pp.go")],
 ["ratings, peaks, pp, process"], "runtime monitoring: crash/hang watchdog and range assertions on hostile and well-formed maps",
 "Maps longer than 5.5 hours or asking for millions of nested points are not rated.")

prop("C24", "Ratings do not depend on what must not matter",
 "Ratings are unchanged when all times of a map shift together by whole sections, when the playfield is transposed, when object lines are reordered, when mods without influence on difficulty are added, or when Nightcore or a custom speed replaces Double Time. Relax removes only the speed part and Flashlight adds only the flashlight part.",
 ["inputs", "configurations"], "every map, mod combination and transformation of these kinds",
 SIX + "no pair of related inputs is ever compared.",
 ["performance/osu/difficulty.go", "performance/osu/preprocessing/object.go", "performance/osu/skills/skill.go", "beatmap/difficulty/mods.go", PARSER],
 [("scaled times", "performance/osu/preprocessing/object.go"), ("mod handling", "performance/osu/difficulty.go")],
 ["ratings of related inputs"], "runtime monitoring: metamorphic oracle over pairs of executions",
 "Shifts keep the phase of the sections; rounding ties are tolerated.")

prop("C25", "Performance points follow the published formula",
 "The aim, speed, accuracy, flashlight and total performance of a play are those of the published formula for the map's ratings, counts and settings, the mods and the hits, misses and combo of the play, including length bonuses, effective misses from dropped slider ends, approach rate and Hidden bonuses, and the penalties of No Fail, Spun Out, Relax and Touch Device.",
 ["inputs", "configurations"], "every rated map, mod combination and play",
 SIX + "only plays without misses or lost combo are scored.",
 ["performance/osu/pp.go"], [("formula", "performance/osu/pp.go"), ("effective misses", "performance/osu/pp.go calculateEffectiveMissCount")],
 ["performance values"], "runtime monitoring: differential oracle against an independently written formula",
 "Ratings are taken as given; imaginary ratings cover corners real maps do not reach.")

prop("C26", "A better play is never worth less",
 "For the same map and mods, no complete play is worth more than the perfect one in total or in any part, making one hit worse (300 to 100 or miss, 100 to 50, and 100 to miss without Relax) never raises the total or a part, and a longer best combo never lowers one. No Fail and Spun Out never raise the total and leave the parts alone, and the total lies between the largest part and their sum, scaled by the mod factors.",
 ["inputs", "configurations"], "every rated map, mod combination and pair of comparable plays",
 SIX + "no two plays are compared.",
 ["performance/osu/pp.go"], [("formula", "performance/osu/pp.go")],
 ["performance values of neighbouring plays"], "runtime monitoring: monotonicity oracle over neighbouring plays",
 "Neighbouring plays only; transitivity extends it to others.")

prop("C27", "Score defaults and calculator reuse do not change the result",
 "A play given without combo or without its number of 300s is worth the same as the full-combo play or the play with all remaining objects as 300s spelled out. A calculator that has been used before gives the same result as a new one, and neither ratings nor difficulty given to it are changed.",
 ["histories", "inputs"], "every play and every history of earlier calculations",
 SIX + "each calculator is used once, always with the defaults.",
 ["performance/osu/pp.go"], [("defaults and reset", "performance/osu/pp.go PPv2x")],
 ["performance values"], "runtime monitoring: differential oracle between spelled-out and defaulted plays, fresh and reused calculators",
 "Sequences of calculations on one reused calculator.")

prop("C28", "Curve segments, binomials and vector operations are exact enough",
 "Points of straight, Bezier, circular-arc and Catmull-Rom segments are those of their mathematical definition at any parameter, their lengths and end directions are those of the curve, and three points on a line are never taken for an arc. Binomial coefficients are exact, and vector operations agree with plane geometry to single precision.",
 ["inputs"], "every set of control points, parameter and vector",
 SIX + "the primitives are not tested.",
 ["math/curves/bezier.go", "math/curves/cirarc.go", "math/curves/catmull.go", "math/curves/linear.go", "math/vector/vector2f.go", "math/math32/math.go", "math/mutils/utils.go"],
 [("evaluation", "math/curves"), ("binomials", "math/curves/bezier.go BinomialCoefficient"), ("vector algebra", "math/vector/vector2f.go")],
 ["values returned"], "runtime monitoring: comparison with double-precision and big-integer evaluations",
 "Tolerances follow single-precision error bounds; badly conditioned arcs get wider ones.")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")

man = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
    notes="No hooks are needed: everything monitored is public API. /repo carries fix: commits only (known_findings.txt). run.sh builds harness/ against /repo's working tree.")
for p in P:
    man["checks"].append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
        level_note="Held on every execution explored, no claim beyond. " + p["note"]))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
