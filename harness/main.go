// Command verifharness runs the runtime monitors of one property against the
// library in /repo and writes the evidence file.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifharness/core"
	"verifharness/props"
)

type replay struct {
	Property string        `json:"property"`
	Seed     uint64        `json:"seed"`
	Tier     string        `json:"tier"`
	Case     int           `json:"case"`
	Failure  *core.Failure `json:"failure,omitempty"`
	Output   string        `json:"output,omitempty"`
	How      string        `json:"how"`
}

var (
	prop     = flag.String("prop", "", "property id")
	tier     = flag.String("tier", "quick", "quick or thorough")
	seed     = flag.Uint64("seed", 1, "seed")
	root     = flag.String("root", "/verif", "where evidence and replay files go")
	worker   = flag.Bool("worker", false, "internal")
	only     = flag.Int("only", -1, "run one case only")
	out      = flag.String("out", "", "internal")
	journal  = flag.String("journal", "", "internal")
	cpu      = flag.Float64("cpu", 60, "processor seconds one case may use")
	memMB    = flag.Uint64("mem", 8192, "heap limit in MB")
	replayF  = flag.String("replay", "", "replay file")
	list     = flag.Bool("list", false, "list the properties")
	scale    = flag.Float64("scale", 0, "scale the number of cases (development)")
	nworkers = flag.Int("workers", 0, "internal")
)

func main() {
	flag.Parse()

	if *list {
		for _, c := range props.All() {
			fmt.Println(c.ID)
		}
		return
	}

	if *replayF != "" {
		b, err := os.ReadFile(*replayF)
		die(err)
		var r replay
		die(json.Unmarshal(b, &r))
		*prop, *seed, *tier, *only = r.Property, r.Seed, r.Tier, r.Case
	}

	ch := props.Get(*prop)
	if ch == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}

	if *worker {
		runWorker(ch)
		return
	}

	os.Exit(supervise(ch))
}

func die(err error) {
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
}

func runWorker(ch *core.Check) {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(int64(*memMB) << 20 * 5 / 10)
	write := func(r core.Result) {
		b, _ := json.Marshal(r)
		os.WriteFile(*out, b, 0o644)
	}
	w := *nworkers
	if w == 0 {
		w = runtime.NumCPU()
	}
	r := core.RunWorker(ch, core.Options{Tier: *tier, Seed: *seed, Only: *only, Workers: w, CPULimit: *cpu, MemLimit: *memMB << 20, Journal: *journal, Scale: *scale}, func(r core.Result) {
		write(r)
		os.Exit(77)
	})
	write(r)
}

type outcome struct {
	res    *core.Result
	code   int
	stderr string
	races  []string
	killed bool
}

func spawn(dir string, n int, extra ...string) outcome {
	outF := filepath.Join(dir, fmt.Sprintf("out%d.json", n))
	jF := filepath.Join(dir, fmt.Sprintf("journal%d", n))
	raceP := filepath.Join(dir, fmt.Sprintf("race%d", n))
	args := []string{"-worker", "-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-out", outF, "-journal", jF, "-scale", fmt.Sprint(*scale)}
	args = append(args, extra...)
	self, err := os.Executable()
	die(err)
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+raceP, "GOTRACEBACK=all")
	var eb bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = &eb
	die(cmd.Start())
	// a generous watchdog, whose firing decides nothing
	limit := 800 * time.Second
	if *tier == "thorough" {
		limit = 6 * time.Hour
	}
	o := outcome{}
	tm := time.AfterFunc(limit, func() { o.killed = true; cmd.Process.Kill() })
	err = cmd.Wait()
	tm.Stop()
	o.code = cmd.ProcessState.ExitCode()
	o.stderr = eb.String()
	if b, err := os.ReadFile(outF); err == nil {
		var r core.Result
		if json.Unmarshal(b, &r) == nil {
			o.res = &r
		}
	}
	if m, _ := filepath.Glob(raceP + ".*"); len(m) > 0 {
		for _, f := range m {
			b, _ := os.ReadFile(f)
			for _, blk := range strings.Split(string(b), "==================") {
				if strings.Contains(blk, "WARNING: DATA RACE") {
					o.races = append(o.races, strings.TrimSpace(blk))
				}
			}
		}
	}
	return o
}

func journalCases(dir string, n int) (r []int) {
	b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal%d", n)))
	for _, f := range strings.Fields(string(b)) {
		if v, err := strconv.Atoi(f); err == nil && v >= 0 {
			r = append(r, v)
		}
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var fatalRe = regexp.MustCompile(`(?m)^(fatal error: .*|panic: .*|runtime: .*|signal: .*)$`)

func supervise(ch *core.Check) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "gosupp-"+ch.ID+"-")
	die(err)
	defer os.RemoveAll(dir)

	var extra []string
	if *only >= 0 {
		extra = append(extra, "-only", fmt.Sprint(*only))
	}
	o := spawn(dir, 0, extra...)

	var failures []core.Failure
	res := core.Result{Events: map[string]int64{}, Skips: map[string]int64{}}
	if o.res != nil {
		res = *o.res
		failures = append(failures, res.Failures...)
	}
	inconclusive := ""

	switch {
	case o.killed:
		inconclusive = "the overall wall-clock watchdog fired"
	case o.code == 0 && res.Done:
	case o.code == 77, o.code != 0:
		// a hang, a memory blow-up or a crash that cannot be recovered: attribute it by running the suspects alone
		suspects := res.Suspects
		why := res.Watchdog
		if o.code != 77 {
			suspects = journalCases(dir, 0)
			why = fmt.Sprintf("the process died with status %d: %s", o.code, fatalRe.FindString(o.stderr))
		}
		fmt.Printf("worker aborted (%s), running %d suspect case(s) alone\n", why, len(suspects))
		confirmed := false
		for k, i := range suspects {
			s := spawn(dir, k+1, "-only", fmt.Sprint(i), "-workers", "1", "-cpu", fmt.Sprint(*cpu), "-mem", fmt.Sprint(*memMB/2))
			if s.code == 0 && s.res != nil && s.res.Done {
				failures = append(failures, s.res.Failures...)
				continue
			}
			msg := fmt.Sprintf("the process died with status %d: %s", s.code, fatalRe.FindString(s.stderr))
			sig := "fatal"
			if s.code == 77 && s.res != nil {
				msg, sig = s.res.Watchdog, "hang"
			}
			failures = append(failures, core.Failure{Case: i, Sig: sig, Message: msg, Artifacts: map[string]string{"stderr": tail(s.stderr, 20000)}})
			confirmed = true
			break
		}
		if !confirmed && len(failures) == 0 && o.code != 77 && *only < 0 {
			// nothing wrong with these cases by themselves, so with running them side by side (for C22 to judge): one after another
			fmt.Println("running all cases one after another")
			if s := spawn(dir, 1000, "-workers", "1"); s.code == 0 && s.res != nil && s.res.Done {
				res, confirmed = *s.res, true
				failures = append(failures, res.Failures...)
			}
		}
		if !confirmed && len(failures) == 0 {
			inconclusive = why + " (not reproduced alone)\n" + tail(o.stderr, 4000)
		}
	}

	seen := map[string]bool{}
	for _, r := range o.races {
		sig := "race:" + raceSig(r)
		if seen[sig] {
			continue
		}
		seen[sig] = true
		failures = append(failures, core.Failure{Case: 0, Sig: sig, Message: "data race: " + raceSig(r), Artifacts: map[string]string{"report": r}})
	}

	known := loadKnown(ch.ID)
	var violations []core.Failure
	printed := map[string]bool{}
	for _, f := range failures {
		if t, ok := known[f.Sig]; ok {
			if !printed[f.Sig] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, t)
				printed[f.Sig] = true
			}
			continue
		}
		violations = append(violations, f)
	}

	if inconclusive == "" && len(violations) == 0 && *only < 0 && *scale == 0 {
		for k, v := range ch.MinEvents {
			if res.Events[k] < v {
				inconclusive = fmt.Sprintf("only %d %q events were observed, %d are needed for a verdict", res.Events[k], k, v)
			}
		}
	}

	if *only < 0 {
		writeEvidence(ch, res, len(violations), time.Since(start), o)
	}

	for k, f := range violations {
		p := filepath.Join(*root, "replay", fmt.Sprintf("%s-%d.json", ch.ID, k))
		if *only >= 0 {
			p = *replayF
		} else {
			os.MkdirAll(filepath.Dir(p), 0o755)
			f := f
			b, _ := json.MarshalIndent(replay{ch.ID, *seed, *tier, f.Case, &f, "", "run.sh " + ch.ID + " -replay FILE"}, "", " ")
			os.WriteFile(p, b, 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  case %d [%s] %s\n", ch.ID, p, f.Case, f.Sig, strings.ReplaceAll(tail(f.Message, 1500), "\n", "\n    "))
		if k >= 4 {
			break
		}
	}
	if len(violations) > 0 {
		return 1
	}
	if inconclusive != "" {
		fmt.Println("INCONCLUSIVE:", inconclusive)
		return 2
	}
	fmt.Printf("%s held: %d cases, %d distinct non-trivial, %.1f s\n", ch.ID, res.Cases, res.Distinct, time.Since(start).Seconds())
	keys := make([]string, 0)
	for k := range res.Events {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %-40s %d\n", k, res.Events[k])
	}
	for k, v := range res.Skips {
		fmt.Printf("  undecided: %-29s %d\n", k, v)
	}
	return 0
}

// raceSig reduces a race report to its pair of outermost library frames
func raceSig(r string) string {
	re := regexp.MustCompile(`github\.com/Wieku/gosu-pp/([\w/.()*]+)\(`)
	set := map[string]bool{}
	for _, m := range re.FindAllStringSubmatch(r, -1) {
		set[m[1]] = true
		if len(set) >= 2 {
			break
		}
	}
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " / ")
}

// loadKnown reads the findings of a property that are recorded and not repaired
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(*root, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "sig=") {
			m[strings.TrimPrefix(f[2], "sig=")] = f[3]
		}
	}
	return m
}

func writeEvidence(ch *core.Check, res core.Result, violations int, wall time.Duration, o outcome) {
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]any{
		"evaluations":         res.Cases,
		"distinct_nontrivial": res.Distinct,
		"rule":                ch.Rule,
		"samples":             samples,
		"observed_events":     res.Events,
		"undecided":           res.Skips,
		"exhaustive":          false,
	}
	if o.races != nil || ch.Serial {
		cov["race_reports"] = len(o.races)
	}
	assumptions := append([]string{"Verdict covers the executions produced by the seeded workload only."}, ch.Assumptions...)
	ev := map[string]any{
		"property": ch.ID, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": cov, "assumptions": assumptions,
		"wall_s": math.Round(wall.Seconds()*100) / 100, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*root, "evidence", ch.ID+".json"), append(b, '\n'), 0o644)
}
