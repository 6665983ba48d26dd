package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

// Stage is one exploration with its conformance check.
type Stage struct {
	Name     string
	Gens     []*Gen                              // runs of TLC that supply the vectors
	Variants int                                 // concretisations per vector
	Judge    func(w *W, v *Vec, variant int)     // for vectors of the language machine
	JudgeRaw func(w *W, raw string, variant int) // for vectors of the other modules
	N        int                                 // number of built-in cases (no TLC)
	Built    func(w *W, i int)
	After    func(w *W) // once, after all cases of the stage (global counts)
	Single   bool       // one goroutine
	NoCheck  bool       // the case may not be replayed concurrently
}

// Job is what a worker process is asked to do.
type Job struct {
	Prop    string     `json:"prop"`
	Tier    string     `json:"tier"`
	Seed    int64      `json:"seed"`
	Files   [][]string `json:"files"` // per stage
	Only    *CaseID    `json:"only,omitempty"`
	Result  string     `json:"result"`
	Slots   string     `json:"slots"`
	Threads int        `json:"threads"`
	LimitS  int        `json:"limit_s"`
	MemMB   int        `json:"mem_mb"`
	Budget  float64    `json:"budget_s"`
}

type CaseID struct {
	Stage   int `json:"stage"`
	Index   int `json:"index"`
	Variant int `json:"variant"`
}

type Failure struct {
	Case   CaseID `json:"case"`
	Stage  string `json:"stage_name"`
	Vector string `json:"vector"`
	Source string `json:"source"`
	Msg    string `json:"message"`
	Known  string `json:"known,omitempty"`
}

type Result struct {
	Failures  []Failure      `json:"failures"`
	Errors    []string       `json:"errors"` // defects of the machinery
	Cases     int            `json:"cases"`
	Counts    map[string]int `json:"counts"`
	Samples   []any          `json:"samples"`
	Hung      []CaseID       `json:"hung"`
	Memory    bool           `json:"memory"`
	Done      bool           `json:"done"`
	Truncated bool           `json:"truncated"`
}

// W is the context of one case.
type W struct {
	job   *Job
	stage *Stage
	id    CaseID
	vec   string
	rng   *rand.Rand
	src   string
	note  string
	r     *runner
	count map[string]int
}

type failure struct{ msg string }

func (w *W) fail(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

func (w *W) inc(name string) { w.count[name]++ }

// machinery defect
type defect struct{ msg string }

func (w *W) defect(format string, args ...any) { panic(defect{fmt.Sprintf(format, args...)}) }

type slot struct {
	stage, index, variant, start int64
	_                            [4]int64
}

type runner struct {
	job    *Job
	stages []Stage
	res    Result
	mu     sync.Mutex
	slots  []slot
	stop   atomic.Bool
}

func caseSeed(seed int64, id CaseID) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d/%d/%d", seed, id.Stage, id.Index, id.Variant)
	return int64(h.Sum64() >> 1)
}

func (r *runner) one(slotNo int, st *Stage, id CaseID, raw string, v *Vec, counts map[string]int) {
	w := &W{job: r.job, stage: st, id: id, vec: raw, r: r, count: counts, rng: rand.New(rand.NewSource(caseSeed(r.job.Seed, id)))}
	s := &r.slots[slotNo]
	atomic.StoreInt64(&s.stage, int64(id.Stage))
	atomic.StoreInt64(&s.index, int64(id.Index))
	atomic.StoreInt64(&s.variant, int64(id.Variant))
	atomic.StoreInt64(&s.start, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&s.start, 0)
		if e := recover(); e != nil {
			switch f := e.(type) {
			case failure:
				r.fail(w, f.msg)
			case defect:
				r.defect(fmt.Sprintf("stage %s case %+v: %s\nsource: %q\nvector: %.600s", st.Name, id, f.msg, w.src, raw))
			default:
				stack := string(debug.Stack())
				if i := strings.Index(stack, "panic("); i >= 0 {
					stack = stack[i:]
				}
				if strings.Contains(stack, "1c-language-parser/ast") {
					r.fail(w, fmt.Sprintf("panic: %v\n%.1500s", e, stack))
				} else {
					r.defect(fmt.Sprintf("stage %s case %+v: panic %v\n%s\nsource: %q\nvector: %.600s", st.Name, id, e, stack, w.src, raw))
				}
			}
		}
	}()
	switch {
	case st.Built != nil:
		st.Built(w, id.Index)
	case st.JudgeRaw != nil:
		st.JudgeRaw(w, raw, id.Variant)
	default:
		st.Judge(w, v, id.Variant)
	}
	if w.src == "" {
		return // nothing to decide for this vector
	}
	counts["\x00cases"]++
	if w.src != "" && (id.Index*31+id.Variant)%977 == 5 {
		r.sample(w)
	}
}

func (r *runner) sample(w *W) {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, s := range r.res.Samples {
		if s.(map[string]any)["stage"] == w.stage.Name {
			n++
		}
	}
	if n >= 2 || len(r.res.Samples) >= 12 {
		return
	}
	m := map[string]any{"stage": w.stage.Name, "source": trunc(w.src, 400)}
	if w.note != "" {
		m["expected"] = trunc(w.note, 400)
	}
	r.res.Samples = append(r.res.Samples, m)
}

func trunc(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

func (r *runner) fail(w *W, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Failures) < 40 {
		r.res.Failures = append(r.res.Failures, Failure{Case: w.id, Stage: w.stage.Name, Vector: w.vec, Source: w.src, Msg: msg})
	}
	if len(r.res.Failures) >= 25 {
		r.stop.Store(true)
	}
}

func (r *runner) defect(msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Errors = append(r.res.Errors, msg)
	if len(r.res.Errors) > 5 {
		r.stop.Store(true)
	}
}

func (r *runner) write() {
	r.mu.Lock()
	defer r.mu.Unlock()
	b, err := json.Marshal(&r.res)
	if err == nil {
		os.WriteFile(r.job.Result, b, 0o644)
	}
}

func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, rss int
	fmt.Sscanf(string(b), "%d %d", &size, &rss)
	return rss * os.Getpagesize() / (1 << 20)
}

func (r *runner) watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		now := time.Now().UnixNano()
		hung := false
		for i := range r.slots {
			s := &r.slots[i]
			st := atomic.LoadInt64(&s.start)
			if st != 0 && now-st > int64(r.job.LimitS)*1e9 {
				hung = true
				r.mu.Lock()
				r.res.Hung = append(r.res.Hung, CaseID{int(s.stage), int(s.index), int(s.variant)})
				r.mu.Unlock()
			}
		}
		mem := r.job.MemMB > 0 && rssMB() > r.job.MemMB
		if mem {
			debug.FreeOSMemory()
			mem = rssMB() > r.job.MemMB
		}
		if mem {
			r.res.Memory = true
			for i := range r.slots {
				s := &r.slots[i]
				if atomic.LoadInt64(&s.start) != 0 {
					r.mu.Lock()
					r.res.Hung = append(r.res.Hung, CaseID{int(s.stage), int(s.index), int(s.variant)})
					r.mu.Unlock()
				}
			}
			hung = true
		}
		if hung {
			r.write()
			os.Exit(3)
		}
	}
}

func mapSlots(file string, n int) []slot {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		panic(err)
	}
	size := n * int(unsafe.Sizeof(slot{}))
	f.Truncate(int64(size))
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return unsafe.Slice((*slot)(unsafe.Pointer(&b[0])), n)
}

func readLines(files []string) []string {
	var lines []string
	for _, f := range files {
		fh, err := os.Open(f)
		if err != nil {
			panic(err)
		}
		rd := bufio.NewReaderSize(fh, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if s := strings.TrimRight(l, "\r\n"); s != "" {
				lines = append(lines, s)
			}
			if err != nil {
				break
			}
		}
		fh.Close()
	}
	// the order in which TLC's workers print is not fixed
	sortStrings(lines)
	return lines
}

func runWorker(jobFile string) {
	b, err := os.ReadFile(jobFile)
	if err != nil {
		panic(err)
	}
	job := &Job{}
	if err := json.Unmarshal(b, job); err != nil {
		panic(err)
	}
	r := &runner{job: job, stages: checks[job.Prop].Stages(job.Tier, job.Seed)}
	r.res.Counts = map[string]int{}
	n := job.Threads
	r.slots = mapSlots(job.Slots, n)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.res.Counts["probe_panics"]++
			}
		}()
		probeFlags()
	}()
	go r.watchdog()
	t0 := time.Now()
	for si := range r.stages {
		st := &r.stages[si]
		var lines []string
		if st.Gens != nil {
			lines = readLines(job.Files[si])
			st.N = len(lines)
		}
		if st.Variants == 0 {
			st.Variants = 1
		}
		if job.Only != nil {
			if job.Only.Stage != si {
				continue
			}
		}
		var next atomic.Int64
		var wg sync.WaitGroup
		threads := n
		if st.Single || job.Only != nil {
			threads = 1
		}
		for g := 0; g < threads; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				counts := map[string]int{}
				defer func() {
					r.mu.Lock()
					for k, c := range counts {
						if k == "\x00cases" {
							r.res.Cases += c
							r.res.Counts["cases: "+st.Name] += c
						} else {
							r.res.Counts[k] += c
						}
					}
					r.mu.Unlock()
				}()
				for !r.stop.Load() {
					i := int(next.Add(1) - 1)
					if i >= st.N {
						return
					}
					if job.Only != nil && job.Only.Index != i {
						continue
					}
					if job.Budget > 0 && time.Since(t0).Seconds() > job.Budget {
						r.mu.Lock()
						r.res.Truncated = true
						r.mu.Unlock()
						return
					}
					var v *Vec
					raw := ""
					if st.Gens != nil {
						raw = lines[i]
						if st.Judge != nil {
							var err error
							if v, err = parseVec(raw); err != nil {
								r.defect(err.Error())
								return
							}
							raw = v.raw
						}
					}
					for k := 0; k < st.Variants; k++ {
						if job.Only != nil && job.Only.Variant != k {
							continue
						}
						r.one(g, st, CaseID{si, i, k}, raw, v, counts)
					}
				}
			}(g)
		}
		wg.Wait()
		if st.After != nil && job.Only == nil && !r.stop.Load() {
			w := &W{job: job, stage: st, id: CaseID{si, -1, 0}, r: r, count: r.res.Counts, rng: rand.New(rand.NewSource(job.Seed))}
			func() {
				defer func() {
					if e := recover(); e != nil {
						if f, ok := e.(failure); ok {
							r.fail(w, f.msg)
							return
						}
						r.defect(fmt.Sprint(e))
					}
				}()
				st.After(w)
			}()
		}
		runtime.GC()
	}
	r.res.Done = true
	r.write()
}

// parse runs the real parser on text.
func (w *W) parse(text string) (*ast.AstNode, error) {
	w.src = text
	w.inc("parses")
	a := ast.NewAST(text)
	err := a.Parse()
	return a, err
}
