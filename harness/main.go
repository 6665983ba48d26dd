package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var verifDir = "/verif"

// Check decides one property.
type Check struct {
	ID     string
	Stages func(tier string, seed int64) []Stage
	Bin    string // suffix of the worker's executable: "-race", "-asan"
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// more adds stages to a registered check.
func more(id string, quick, thorough func(seed int64) []Stage) {
	c := checks[id]
	base, add := c.Stages, tiers(quick, thorough)
	c.Stages = func(tier string, seed int64) []Stage { return append(base(tier, seed), add(tier, seed)...) }
}

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh check PROPERTY | vh worker JOB | vh replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(supervise(os.Args[2], ""))
	case "worker":
		runWorker(os.Args[2])
	case "solo":
		solo(os.Args[2])
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var f struct{ Property string }
		json.Unmarshal(b, &f)
		os.Exit(supervise(f.Property, os.Args[2]))
	}
}

func envInt(name string, def int64) int64 {
	if n, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return n
	}
	return def
}

type replayFile struct {
	Property string  `json:"property"`
	Tier     string  `json:"tier"`
	Seed     int64   `json:"seed"`
	Failure  Failure `json:"failure"`
}

func supervise(id, replay string) int {
	t0 := time.Now()
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	var rep *replayFile
	if replay != "" {
		b, _ := os.ReadFile(replay)
		rep = &replayFile{}
		if err := json.Unmarshal(b, rep); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		tier, seed = rep.Tier, rep.Seed
	}
	stages := c.Stages(tier, seed)
	dir, err := os.MkdirTemp(filepath.Join(verifDir, ".work"), id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	// 1. explore the specification
	job := &Job{Prop: id, Tier: tier, Seed: seed, Files: make([][]string, len(stages)), Threads: 8, LimitS: 20, MemMB: 8000}
	if m := envInt("VERIF_THREADS", 0); m > 0 {
		job.Threads = int(m)
	}
	var tlcRes []*TLCResult
	if rep != nil {
		job.Only = &CaseID{rep.Failure.Case.Stage, 0, rep.Failure.Case.Variant}
		for si := range stages {
			if stages[si].Gens == nil {
				job.Only.Index = rep.Failure.Case.Index
				continue
			}
			f := filepath.Join(dir, fmt.Sprintf("replay%d", si))
			vec := ""
			if si == rep.Failure.Case.Stage {
				vec = rep.Failure.Vector
				if stages[si].Judge != nil {
					vec = strconv.Quote(vec)
				}
				vec += "\n"
			}
			os.WriteFile(f, []byte(vec), 0o644)
			job.Files[si] = []string{f}
		}
	} else {
		res, err := explore(stages, job, dir, tier)
		tlcRes = res
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			fmt.Println("ERROR: the exploration of the specification failed")
			return 2
		}
	}
	tExplore := time.Since(t0).Seconds()

	// 2. replay against the implementation
	res, err := runJob(job, dir, c)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		fmt.Println("ERROR: the replay failed")
		return 2
	}
	if len(res.Errors) > 0 {
		sort.Strings(res.Errors)
		for i, e := range res.Errors {
			if i < 4 {
				fmt.Fprintln(os.Stderr, "MACHINERY:", e)
			}
		}
		if len(res.Failures) == 0 {
			return 2
		}
	}

	// 3. report
	code := report(id, tier, seed, res, stages, rep == nil)
	if rep == nil {
		if err := evidence(id, tier, seed, res, tlcRes, stages, time.Since(t0).Seconds(), tExplore); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if res.Cases == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "nothing was checked")
		return 2
	}
	states, trans := 0, 0
	for _, t := range tlcRes {
		states += t.States
		trans += t.Transitions
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d cases, %d parses, %.0f s (specification %.0f s), %d violations\n",
		id, tier, states, trans, res.Cases, res.Counts["parses"], time.Since(t0).Seconds(), tExplore, len(res.Failures))
	return code
}

func explore(stages []Stage, job *Job, dir, tier string) ([]*TLCResult, error) {
	type item struct {
		si int
		g  *Gen
	}
	var items []item
	for si := range stages {
		for _, g := range stages[si].Gens {
			items = append(items, item{si, g})
		}
	}
	results := make([]*TLCResult, len(items))
	errs := make([]error, len(items))
	// cores are shared out by the number of workers
	cores := make(chan struct{}, 8)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := range items {
		w := items[i].g.Workers
		items[i].g.Short = tier != "thorough"
		if items[i].g.Sim > 0 {
			w = 1
		} else if w == 0 {
			w = 2 // (short runs: most of their time goes into starting up, on one core)
			items[i].g.Workers = 4
			if tier == "thorough" {
				w = 4
			}
		}
		mu.Lock()
		for k := 0; k < w; k++ {
			cores <- struct{}{}
		}
		mu.Unlock()
		wg.Add(1)
		go func(i, w int) {
			defer wg.Done()
			results[i], errs[i] = items[i].g.run(dir, 1500*time.Second)
			for k := 0; k < w; k++ {
				<-cores
			}
		}(i, w)
	}
	wg.Wait()
	for i := range items {
		if errs[i] != nil {
			return nil, errs[i]
		}
		job.Files[items[i].si] = append(job.Files[items[i].si], results[i].File)
	}
	return results, nil
}

func workerCmd(c *Check, jobFile string) *exec.Cmd {
	bin, _ := os.Executable()
	if c.Bin != "" {
		if _, err := os.Stat(bin + c.Bin); err == nil {
			bin += c.Bin
		}
	}
	return exec.Command(bin, "worker", jobFile)
}

type runOut struct {
	res    *Result
	code   int
	signal string
	out    string
	err    string
	slots  []CaseID
}

func execJob(job *Job, dir string, c *Check) (*runOut, error) {
	d, err := os.MkdirTemp(dir, "job")
	if err != nil {
		return nil, err
	}
	job.Result, job.Slots = filepath.Join(d, "result.json"), filepath.Join(d, "slots")
	b, _ := json.Marshal(job)
	jf := filepath.Join(d, "job.json")
	if err := os.WriteFile(jf, b, 0o644); err != nil {
		return nil, err
	}
	so, _ := os.Create(filepath.Join(d, "out"))
	se, _ := os.Create(filepath.Join(d, "err"))
	cmd := workerCmd(c, jf)
	cmd.Stdout, cmd.Stderr = so, se
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66", "ASAN_OPTIONS=detect_leaks=0")
	rerr := cmd.Run()
	so.Close()
	se.Close()
	o := &runOut{}
	ob, _ := os.ReadFile(so.Name())
	eb, _ := os.ReadFile(se.Name())
	o.out, o.err = string(ob), string(eb)
	if rerr != nil {
		o.code = 1
		if ee, ok := rerr.(*exec.ExitError); ok {
			o.code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				o.signal = ws.Signal().String()
			}
		} else {
			return nil, rerr
		}
	}
	if rb, err := os.ReadFile(job.Result); err == nil {
		o.res = &Result{}
		if json.Unmarshal(rb, o.res) != nil {
			o.res = nil
		}
	}
	if o.res != nil && len(o.res.Hung) > 0 {
		o.slots = o.res.Hung
	} else if sb, err := os.ReadFile(job.Slots); err == nil {
		for off := 0; off+64 <= len(sb); off += 64 {
			g := func(i int) int64 {
				var n int64
				for k := 7; k >= 0; k-- {
					n = n<<8 | int64(sb[off+i*8+k])
				}
				return n
			}
			if g(3) != 0 {
				o.slots = append(o.slots, CaseID{int(g(0)), int(g(1)), int(g(2))})
			}
		}
	}
	return o, nil
}

// runJob runs the worker; when it dies, the cases in flight are run again one by one.
func runJob(job *Job, dir string, c *Check) (*Result, error) {
	o, err := execJob(job, dir, c)
	if err != nil {
		return nil, err
	}
	if o.code == 0 && o.res != nil && o.res.Done {
		checkSilence(job, o, o.res)
		return o.res, nil
	}
	res := o.res
	if res == nil {
		res = &Result{Counts: map[string]int{}}
	}
	first := o
	if job.Only == nil {
		for _, id := range o.slots {
			j2 := *job
			idc := id
			j2.Only = &idc
			j2.LimitS, j2.MemMB = 60, 6000
			o2, err := execJob(&j2, dir, c)
			if err != nil {
				return nil, err
			}
			if o2.code != 0 || o2.res == nil || !o2.res.Done {
				res.Failures = append(res.Failures, Failure{Case: id, Stage: stageName(c, job, id), Vector: vectorOf(job, c, id), Msg: describeDeath(o2)})
				return res, nil
			}
			res.Failures = append(res.Failures, o2.res.Failures...)
		}
		if c.Bin == "-race" && strings.Contains(first.err, "DATA RACE") {
			res.Failures = append(res.Failures, Failure{Msg: "data race\n" + trunc(first.err, 4000)})
			return res, nil
		}
		if strings.Contains(first.err, "fatal error: concurrent map") {
			res.Failures = append(res.Failures, Failure{Msg: "independent parses interfere: " + trunc(first.err, 3000)})
			return res, nil
		}
		if len(res.Failures) > 0 {
			return res, nil
		}
		// not reproduced in isolation: once more with a single thread
		j3 := *job
		j3.Threads, j3.LimitS = 1, 60
		o3, err := execJob(&j3, dir, c)
		if err != nil {
			return nil, err
		}
		if o3.code == 0 && o3.res != nil && o3.res.Done {
			return o3.res, nil
		}
		// it dies again: what was processed before the case in flight matters
		f := Failure{Msg: "depends on what was processed before: " + describeDeath(o3)}
		if len(o3.slots) > 0 {
			f.Case, f.Stage, f.Vector = o3.slots[0], stageName(c, job, o3.slots[0]), vectorOf(job, c, o3.slots[0])
		}
		if o3.res != nil {
			res = o3.res
		}
		res.Failures = append(res.Failures, f)
		return res, nil
	}
	res.Failures = append(res.Failures, Failure{Case: *job.Only, Msg: describeDeath(o)})
	return res, nil
}

func describeDeath(o *runOut) string {
	if o.res != nil && o.res.Memory {
		return "memory exhausted while processing the case"
	}
	if o.res != nil && len(o.res.Hung) > 0 {
		return "no end within the time limit"
	}
	return fmt.Sprintf("the process died (exit %d %s): %s", o.code, o.signal, trunc(o.err, 2500))
}

func stageName(c *Check, job *Job, id CaseID) string {
	st := c.Stages(job.Tier, job.Seed)
	if id.Stage < len(st) {
		return st[id.Stage].Name
	}
	return ""
}

func vectorOf(job *Job, c *Check, id CaseID) string {
	if id.Stage >= len(job.Files) || len(job.Files[id.Stage]) == 0 {
		return ""
	}
	l := readLines(job.Files[id.Stage])
	if id.Index < 0 || id.Index >= len(l) {
		return ""
	}
	if c.Stages(job.Tier, job.Seed)[id.Stage].Judge == nil {
		return l[id.Index]
	}
	if v, err := parseVec(l[id.Index]); err == nil {
		return v.raw
	}
	return l[id.Index]
}

// Parsing, printing and walking write nothing to the standard streams (part of C23).
func checkSilence(job *Job, o *runOut, res *Result) {
	if job.Prop != "C23" {
		return
	}
	if o.out != "" {
		res.Failures = append(res.Failures, Failure{Msg: "written to standard output: " + strconv.Quote(trunc(o.out, 300))})
	}
	if o.err != "" {
		res.Failures = append(res.Failures, Failure{Msg: "written to standard error: " + strconv.Quote(trunc(o.err, 300))})
	}
}

// known reads the findings that are recorded and not repaired.
func known(id string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+id+" ") {
			r = append(r, strings.TrimPrefix(l, "known: property="+id+" "))
		}
	}
	return r
}

func report(id, tier string, seed int64, res *Result, stages []Stage, keep bool) int {
	for _, k := range known(id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(res.Failures) == 0 {
		return 0
	}
	sort.SliceStable(res.Failures, func(i, j int) bool {
		a, b := res.Failures[i], res.Failures[j]
		if len(a.Source) != len(b.Source) {
			return len(a.Source) < len(b.Source)
		}
		return a.Source < b.Source
	})
	dir := filepath.Join(verifDir, "replay")
	os.MkdirAll(dir, 0o755)
	for i, f := range res.Failures {
		if i >= 3 {
			break
		}
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i+1))
		if keep {
			b, _ := json.MarshalIndent(&replayFile{id, tier, seed, f}, "", " ")
			os.WriteFile(p, b, 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		fmt.Printf("  stage: %s\n  source: %s\n  %s\n", f.Stage, strconv.Quote(trunc(f.Source, 600)), strings.ReplaceAll(trunc(f.Msg, 1500), "\n", "\n  "))
	}
	return 1
}

func evidence(id, tier string, seed int64, res *Result, tl []*TLCResult, stages []Stage, wall, tSpec float64) error {
	states, trans := 0, 0
	exhaustive := true
	for _, t := range tl {
		states += t.States
		trans += t.Transitions
		if t.Mode != "exhaustive" {
			exhaustive = false
		}
	}
	counts := map[string]int{}
	for k, v := range res.Counts {
		counts[k] = v
	}
	samples := res.Samples
	if len(samples) == 0 {
		samples = []any{map[string]any{"note": "no sample"}}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": res.Cases,
			"samples": samples, "explorations": tl, "counts": counts,
			"model_exhaustive_within_bounds": exhaustive, "specification_s": tSpec,
			"truncated": res.Truncated,
		},
		"wall_s":     wall,
		"violations": len(res.Failures),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	return os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)
}
