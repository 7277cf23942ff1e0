// Command simrun is the simulator: parent, workers, replay and minimiser in one binary.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/hook"
)

var digest uint64

func main() {
	if f := os.Getenv("SIMRUN_PROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		trouble("usage: simrun check|worker|one|fresh|replay|gen ...")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "worker":
		workerMain(os.Args[2:])
	case "one":
		oneMain()
	case "young":
		youngMain()
	case "fresh":
		freshMain()
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "gen":
		genMain(os.Args[2:])
	default:
		trouble("unknown command")
	}
}

func trouble(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simrun: "+format+"\n", a...)
	os.Exit(2)
}

func genCase(p *property, seed, idx uint64, race, thorough bool) *Case {
	ph := uint64(0)
	if race {
		ph = 1
	}
	c := p.gen(newRng(seed, hashStr(p.id), ph, idx), thorough)
	c.Race = race
	return c
}

// runResult is the outcome of running a case.
type runResult struct {
	Violation *Violation `json:"violation,omitempty"`
	Harness   string     `json:"harness,omitempty"`
	Digest    uint64     `json:"digest"`
	Trace     []Seg      `json:"trace,omitempty"`
}

func runCase(c *Case) (res runResult) {
	p := properties[c.Prop]
	if p == nil {
		return runResult{Harness: "unknown property " + c.Prop}
	}
	digest = 1
	nontrivial = false
	schedHash, curTrace = 0, nil
	withLog(nil, 0)
	defer func() {
		if e := recover(); e != nil {
			hook.Cur = nil
			res.Harness = fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
		res.Digest = digest
		res.Trace = curTrace
	}()
	res.Violation = p.run(c)
	return res
}

// --- worker ----------------------------------------------------------------------------------

type workerResult struct {
	Stats      *stats            `json:"stats"`
	Violation  *Violation        `json:"violation,omitempty"`
	Harness    string            `json:"harness,omitempty"`
	Index      uint64            `json:"index"`
	Digests    map[string]uint64 `json:"digests"`
	Distinct   []uint64          `json:"distinct"`
	Schedules  []uint64          `json:"schedules"`
	Cover      []int             `json:"cover"`
	Last       uint64            `json:"last"`
	DeadlineAt bool              `json:"deadline"`
}

func limits() {
	debug.SetMaxStack(96 << 20)
	debug.SetGCPercent(200)
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Uint64("from", 0, "")
	step := fs.Uint64("step", 1, "")
	to := fs.Uint64("to", 1, "")
	race := fs.Bool("race", false, "")
	thorough := fs.Bool("thorough", false, "")
	secs := fs.Int("secs", 60, "")
	status := fs.String("status", "", "")
	sample := fs.Uint64("sample", 50, "")
	_ = fs.Parse(args)
	limits()
	p := properties[*prop]
	if p == nil {
		trouble("unknown property %s", *prop)
	}
	var sf *os.File
	if *status != "" {
		var err error
		if sf, err = os.OpenFile(*status, os.O_CREATE|os.O_WRONLY, 0o644); err != nil {
			trouble("%v", err)
		}
	}
	res := &workerResult{Digests: map[string]uint64{}}
	end := time.Now().Add(time.Duration(*secs) * time.Second)
	var buf [8]byte
	for i := *from; i < *to; i += *step {
		if sf != nil {
			binary.LittleEndian.PutUint64(buf[:], i+1)
			_, _ = sf.WriteAt(buf[:], 0)
		}
		c := genCase(p, *seed, i, *race, *thorough)
		r := runCase(c)
		st.Runs++
		res.Last = i
		if r.Harness != "" {
			res.Harness, res.Index = r.Harness, i
			break
		}
		if r.Violation != nil {
			res.Violation, res.Index = r.Violation, i
			break
		}
		if nontrivial {
			h := hashCase(c)
			st.Distinct[h] = true
		} else {
			st.Trivial++
		}
		if i%*sample < *step {
			res.Digests[fmt.Sprint(i)] = r.Digest
		}
		if i%8 < *step && time.Now().After(end) {
			res.DeadlineAt = true
			break
		}
	}
	res.Stats = st
	for h := range st.Distinct {
		res.Distinct = append(res.Distinct, h)
	}
	for h := range st.Schedules {
		res.Schedules = append(res.Schedules, h)
	}
	for i, x := range hook.Cover {
		if x != 0 {
			res.Cover = append(res.Cover, i)
		}
	}
	b, err := json.Marshal(res)
	if err != nil {
		trouble("%v", err)
	}
	os.Stdout.Write(b)
}

func hashCase(c *Case) uint64 {
	b, err := json.Marshal(c)
	if err != nil {
		return 0
	}
	return hashStr(string(b))
}

// --- one case in this process -----------------------------------------------------------------

// Replay is the replay file.
type Replay struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Seed      uint64     `json:"seed"`
	Index     uint64     `json:"run"`
	HowTo     string     `json:"how_to_replay"`
	Minimised bool       `json:"minimised"`
	Note      string     `json:"note,omitempty"`
	Prelude   []*Case    `json:"prelude,omitempty"` // runs made before in the same process
	Case      *Case      `json:"case"`
}

type oneInput struct {
	Prelude []*Case `json:"prelude"`
	Case    *Case   `json:"case"`
}

func oneMain() {
	limits()
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		trouble("%v", err)
	}
	var in oneInput
	if err := json.Unmarshal(b, &in); err != nil {
		trouble("%v", err)
	}
	for _, c := range in.Prelude {
		runCase(c)
	}
	r := runCase(in.Case)
	out, _ := json.Marshal(r)
	os.Stdout.Write(out)
}

func freshMain() {
	limits()
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		trouble("%v", err)
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		trouble("%v", err)
	}
	fmt.Print(freshKey(&c))
}

func genMain(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Uint64("i", 0, "")
	race := fs.Bool("race", false, "")
	texts := fs.Bool("texts", false, "")
	_ = fs.Parse(args)
	c := genCase(properties[*prop], *seed, *idx, *race, false)
	if *texts {
		for _, t := range c.Texts {
			fmt.Printf("%s\n------\n", t)
		}
		return
	}
	b, _ := json.MarshalIndent(c, "", " ")
	fmt.Printf("%s\n", b)
}

// --- running a case in a new process -----------------------------------------------------------

type runner struct {
	bin, racebin string
	calls        int
}

var plainEnv = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")

func raceEnv() []string {
	return append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66 history_size=2 atexit_sleep_ms=0")
}

// once runs the case in a new process.
func (r *runner) once(prelude []*Case, c *Case, limit time.Duration) runResult {
	r.calls++
	in, err := json.Marshal(oneInput{prelude, c})
	if err != nil {
		return runResult{Harness: err.Error()}
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	bin, env := r.bin, plainEnv
	if c.Race {
		bin, env = r.racebin, raceEnv()
	}
	cmd := exec.CommandContext(ctx, bin, "one")
	cmd.Env = env
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	if ctx.Err() != nil {
		return runResult{Harness: "timeout"}
	}
	if err != nil {
		v := crashViolation(errb.String(), err)
		if v == nil {
			return runResult{Harness: fmt.Sprintf("%v: %s", err, tailOf(errb.String(), 2000))}
		}
		return runResult{Violation: v}
	}
	var res runResult
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		return runResult{Harness: fmt.Sprintf("bad result: %v: %s", err, tailOf(out.String()+errb.String(), 500))}
	}
	return res
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// crashViolation tells what the end of a process means.
func crashViolation(stderr string, err error) *Violation {
	code := -1
	if x, ok := err.(*exec.ExitError); ok {
		code = x.ExitCode()
	}
	switch {
	case strings.Contains(stderr, "WARNING: DATA RACE") || code == 66:
		return &Violation{"race", "unsynchronised access to shared memory:\n" + raceSummary(stderr)}
	case strings.Contains(stderr, "goroutine stack exceeds"), strings.Contains(stderr, "stack overflow"):
		return &Violation{"stack", "the stack overflows:\n" + tailOf(stderr, 1500)}
	case strings.Contains(stderr, "all goroutines are asleep"):
		return &Violation{"blocked", "all calls wait for ever:\n" + tailOf(stderr, 1500)}
	case strings.Contains(stderr, "concurrent map"):
		return &Violation{"fatal", tailOf(stderr, 1500)}
	case strings.Contains(stderr, "fatal error:") && !strings.Contains(stderr, "out of memory"):
		return &Violation{"fatal", tailOf(stderr, 1500)}
	case strings.Contains(stderr, "panic:") && strings.Contains(stderr, "go-protoparser"):
		return &Violation{"crash", "a panic that nobody can recover:\n" + tailOf(stderr, 1500)}
	}
	return nil
}

var (
	rxAddr = regexp.MustCompile(` ?\+?0x[0-9a-f]+`)
	rxGo   = regexp.MustCompile(`(by|Goroutine|goroutine) (\d+|goroutine \d+|main goroutine)`)
)

// raceSummary keeps the innermost frames of the first report and drops what differs between processes.
func raceSummary(stderr string) string {
	i := strings.Index(stderr, "WARNING: DATA RACE")
	if i < 0 {
		return tailOf(stderr, 1000)
	}
	var out []string
	frames := 0
	for _, l := range strings.Split(stderr[i:], "\n")[1:] {
		if strings.HasPrefix(l, "Goroutine ") || strings.HasPrefix(l, "====") {
			break
		}
		if strings.Contains(l, " at 0x") {
			frames = 0
		} else if frames++; frames > 12 {
			continue
		}
		l = rxGo.ReplaceAllString(rxAddr.ReplaceAllString(l, ""), "$1 a task")
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// --- replay ------------------------------------------------------------------------------------

func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	racebin := fs.String("racebin", "", "")
	_ = fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		trouble("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		trouble("%v", err)
	}
	exe, _ := os.Executable()
	r := &runner{bin: exe, racebin: *racebin}
	if rp.Case.Race && *racebin == "" {
		trouble("this replay needs the race build (-racebin)")
	}
	res := r.once(rp.Prelude, rp.Case, 5*time.Minute)
	if res.Harness != "" {
		trouble("%s", res.Harness)
	}
	if res.Violation == nil {
		fmt.Println("the property holds in this run")
		return 0
	}
	same := "the recorded one"
	if *res.Violation != *rp.Violation {
		same = "NOT the recorded one"
	}
	fmt.Printf("[%s] %s\n(%s)\nVIOLATION property=%s replay=%s\n", res.Violation.Class, res.Violation.Detail, same, rp.Property, fs.Arg(0))
	return 1
}

// --- check -------------------------------------------------------------------------------------

type phase struct {
	race bool
	bin  string
	runs uint64
	secs int
}

type phaseResult struct {
	results []*workerResult
	viol    *Violation
	index   uint64
	harness string
	wall    float64
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func checkMain(args []string) int {
	start := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "")
	out := fs.String("evidence", "", "evidence file")
	replays := fs.String("replays", "", "directory of replay files")
	racebin := fs.String("racebin", "", "race build of simrun")
	sitesFile := fs.String("sites", "", "sites.json")
	scratch := fs.String("scratch", "", "scratch directory")
	scale := fs.Float64("scale", 1, "factor on the number of runs")
	_ = fs.Parse(args)
	p := properties[*prop]
	if p == nil {
		trouble("unknown property %q", *prop)
	}
	thorough := *tier == "thorough"
	exe, err := os.Executable()
	if err != nil {
		trouble("%v", err)
	}
	rn := &runner{bin: exe, racebin: *racebin}
	b := budgetOf(p.id, thorough)
	phases := []phase{{false, exe, uint64(float64(b.runs) * *scale), b.secs}}
	if p.race && *racebin != "" {
		phases = append(phases, phase{true, *racebin, uint64(float64(b.raceRuns) * *scale), b.raceSecs})
	}
	var all []*workerResult
	var raceRuns int64
	for _, ph := range phases {
		pr := runPhase(p, ph, *seed, thorough, *scratch)
		if pr.viol != nil {
			return report(rn, p, ph, pr, *seed, thorough, *replays, *out, *tier, start)
		}
		if pr.harness != "" {
			fmt.Fprintf(os.Stderr, "simrun: run %d of %s: %s\n", pr.index, p.id, pr.harness)
			return 2
		}
		all = append(all, pr.results...)
		if ph.race {
			for _, w := range pr.results {
				raceRuns += w.Stats.Runs
			}
		}
	}
	// determinism: some runs again, in one process with other settings of the Go runtime
	again, same := 0, 0
	var diff []string
	if len(all) > 0 {
		dg := map[string]uint64{}
		for i, w := range all {
			if i < workers {
				for k, v := range w.Digests {
					dg[k] = v
				}
			}
		}
		again, same, diff = determinism(p, exe, *seed, thorough, dg)
	}
	ev := evidence(p, all, raceRuns, *seed, *tier, *sitesFile, start)
	ev["coverage"].(map[string]interface{})["determinism"] = map[string]interface{}{"runs_repeated_in_another_process": again, "identical_step_read_and_schedule_digest": same, "different": diff}
	ev["violations"] = 0
	writeJSON(*out, ev)
	cov := ev["coverage"].(map[string]interface{})
	fmt.Printf("%s %s seed %d: %v runs, %v distinct non-trivial, no violation (%.0f s)\n", p.id, *tier, *seed, cov["evaluations"], cov["distinct_nontrivial"], time.Since(start).Seconds())
	if cov["calls_of_the_library"].(map[string]interface{})["steps"].(int64) == 0 {
		fmt.Fprintln(os.Stderr, "simrun: the build under test has no yield points")
		return 2
	}
	if cov["distinct_nontrivial"].(int) == 0 {
		fmt.Fprintln(os.Stderr, "simrun: no run exercised the property")
		return 2
	}
	return 0
}

const workers = 8

func runPhase(p *property, ph phase, seed uint64, thorough bool, scratch string) *phaseResult {
	t0 := time.Now()
	pr := &phaseResult{}
	type end struct {
		w   int
		res *workerResult
		err error
		out string
	}
	var mu sync.Mutex
	var cmds []*exec.Cmd
	ends := make(chan end, workers)
	stat := func(w int) string { return filepath.Join(scratch, fmt.Sprintf("status-%v-%d", ph.race, w)) }
	for w := 0; w < workers; w++ {
		_ = os.Remove(stat(w))
		args := []string{"worker", "-prop", p.id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(w), "-step", fmt.Sprint(workers), "-to", fmt.Sprint(ph.runs), "-secs", fmt.Sprint(ph.secs), "-status", stat(w)}
		if ph.race {
			args = append(args, "-race")
		}
		if thorough {
			args = append(args, "-thorough")
		}
		cmd := exec.Command(ph.bin, args...)
		cmd.Env = plainEnv
		if ph.race {
			cmd.Env = raceEnv()
		}
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		cmds = append(cmds, cmd)
		if err := cmd.Start(); err != nil {
			trouble("%v", err)
		}
		go func(w int, cmd *exec.Cmd) {
			err := cmd.Wait()
			e := end{w: w, err: err, out: errb.String()}
			if err == nil {
				e.res = &workerResult{}
				if jerr := json.Unmarshal(out.Bytes(), e.res); jerr != nil {
					e.err, e.res = jerr, nil
				}
			}
			ends <- e
		}(w, cmd)
	}
	killAll := func() {
		mu.Lock()
		defer mu.Unlock()
		for _, c := range cmds {
			_ = c.Process.Kill()
		}
	}
	index := func(w int) uint64 {
		b, err := os.ReadFile(stat(w))
		if err != nil || len(b) < 8 {
			return 0
		}
		return binary.LittleEndian.Uint64(b)
	}
	lastIdx := make([]uint64, workers)
	lastAt := make([]time.Time, workers)
	live := map[int]bool{}
	for w := range lastAt {
		lastAt[w] = time.Now()
		live[w] = true
	}
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	stopped := false
	for n := 0; n < workers; {
		select {
		case e := <-ends:
			n++
			delete(live, e.w)
			if stopped && e.err != nil {
				continue
			}
			switch {
			case e.res != nil && e.res.Violation != nil:
				if pr.viol == nil || e.res.Index < pr.index {
					pr.viol, pr.index = e.res.Violation, e.res.Index
				}
				stopped = true
				killAll()
			case e.res != nil && e.res.Harness != "":
				if pr.viol == nil {
					pr.harness, pr.index = e.res.Harness, e.res.Index
				}
				stopped = true
				killAll()
			case e.err != nil:
				i := index(e.w)
				if v := crashViolation(e.out, e.err); v != nil && i > 0 {
					if pr.viol == nil || i-1 < pr.index {
						pr.viol, pr.index = v, i-1
					}
				} else if pr.viol == nil {
					pr.harness, pr.index = fmt.Sprintf("worker %d: %v: %s", e.w, e.err, tailOf(e.out, 2000)), i
				}
				stopped = true
				killAll()
			}
			if e.res != nil {
				pr.results = append(pr.results, e.res)
			}
		case <-tick.C:
			for w := range live {
				if i := index(w); i != lastIdx[w] {
					lastIdx[w], lastAt[w] = i, time.Now()
				} else if time.Since(lastAt[w]) > 180*time.Second {
					if pr.viol == nil {
						pr.harness, pr.index = "no progress for 180 s", i-1
					}
					stopped = true
					killAll()
				}
			}
		}
	}
	sort.Slice(pr.results, func(i, j int) bool { return pr.results[i].Last%workers < pr.results[j].Last%workers })
	pr.wall = time.Since(t0).Seconds()
	return pr
}

// determinism repeats sampled runs in one other process.
func determinism(p *property, exe string, seed uint64, thorough bool, dg map[string]uint64) (again, same int, diff []string) {
	var keys []string
	for k := range dg {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) > 64 {
		keys = keys[:64]
	}
	type r struct {
		k string
		d uint64
		h string
	}
	sem := make(chan bool, workers)
	ch := make(chan r, len(keys))
	for _, k := range keys {
		k := k
		sem <- true
		go func() {
			defer func() { <-sem }()
			args := []string{"worker", "-prop", p.id, "-seed", fmt.Sprint(seed), "-from", k, "-step", "1", "-to", "0", "-sample", "1"}
			var idx uint64
			fmt.Sscan(k, &idx)
			args[10] = fmt.Sprint(idx + 1)
			if thorough {
				args = append(args, "-thorough")
			}
			cmd := exec.Command(exe, args...)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOGC=20")
			out, err := cmd.Output()
			var w workerResult
			if err != nil || json.Unmarshal(out, &w) != nil {
				ch <- r{k, 0, fmt.Sprint(err)}
				return
			}
			ch <- r{k, w.Digests[k], ""}
		}()
	}
	for range keys {
		x := <-ch
		again++
		if x.d == dg[x.k] && x.h == "" {
			same++
		} else {
			diff = append(diff, x.k)
		}
	}
	return again, same, diff
}

// report reproduces, minimises and reports a violation.
func report(rn *runner, p *property, ph phase, pr *phaseResult, seed uint64, thorough bool, dir, evfile, tier string, start time.Time) int {
	c := genCase(p, seed, pr.index, ph.race, thorough)
	rp := &Replay{Property: p.id, Seed: seed, Index: pr.index, Violation: pr.viol, Case: c}
	res := rn.once(nil, c, 4*time.Minute)
	if (pr.viol.Class == "blocked" || res.Violation != nil && res.Violation.Class == "blocked") && c.Sched != nil {
		// a call blocks on something the simulator does not control: it is a violation only
		// if the calls it waits for are stalled outside of the library or have ended
		d := c.clone()
		d.Sched = &Schedule{Policy: "stallonly"}
		if r := rn.once(nil, d, time.Minute); r.Violation == nil {
			fmt.Fprintf(os.Stderr, "simrun: run %d of %s: the code under test blocks on a primitive that the simulator does not control\n", pr.index, p.id)
			return 2
		}
		rp.Case, c = d, d
		res = rn.once(nil, c, time.Minute)
	}
	if res.Violation == nil {
		// does it need what the process did before?
		for k := 1; k <= 4096 && res.Violation == nil; k *= 4 {
			var pre []*Case
			for j := k; j > 0; j-- {
				i := int64(pr.index) - int64(j*workers)
				if i >= 0 {
					pre = append(pre, genCase(p, seed, uint64(i), ph.race, thorough))
				}
			}
			if res = rn.once(pre, c, 4*time.Minute); res.Violation != nil {
				rp.Prelude = pre
			}
			if len(pre) < k {
				break
			}
		}
	}
	if res.Violation == nil {
		for i := 0; i < 30 && res.Violation == nil; i++ {
			res = rn.once(nil, c, time.Minute)
		}
		rp.Note = "the code under test is not deterministic: the replay may have to be repeated"
	}
	if res.Violation != nil {
		rp.Violation = res.Violation
		if rp.Note == "" {
			minimise(rn, rp, time.Now().Add(50*time.Second))
			rp.Minimised = true
		}
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		trouble("%v", err)
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", p.id, seed, pr.index))
	rp.HowTo = "cd /verif && bin/replay.sh " + path
	writeJSON(path, rp)
	ev := evidence(p, pr.results, 0, seed, tier, "", start)
	ev["violations"] = 1
	cov := ev["coverage"].(map[string]interface{})
	cov["samples"] = []interface{}{rp}
	writeJSON(evfile, ev)
	fmt.Printf("[%s] %s\n", rp.Violation.Class, rp.Violation.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
	return 1
}

func writeJSON(path string, v interface{}) {
	if path == "" {
		return
	}
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		trouble("%v", err)
	}
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		trouble("%v", err)
	}
}
