package main

import (
	"bufio"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// Gen is one run of TLC over the specification.
type Gen struct {
	Module  string   // module under spec/
	Consts  []string // lines of the CONSTANTS section
	Invs    []string
	Props   []string // temporal properties
	Workers int
	Short   bool // a run of seconds: the fast compiler of the JVM alone
	Sim     int  // number of random behaviours (0: exhaustive, breadth first)
	Depth   int
	Seed    int64
	Name    string
	Expect  bool // vectors must equal distinct states
	View    string
	Init    string // Init and Next when empty
	Next    string
}

// TLCResult is what a run explored.
type TLCResult struct {
	Name        string  `json:"name"`
	Module      string  `json:"module"`
	Mode        string  `json:"mode"`
	States      int     `json:"states"`      // distinct states (exhaustive) or states visited (simulation)
	Transitions int     `json:"transitions"` // states generated
	Vectors     int     `json:"vectors"`
	Secs        float64 `json:"secs"`
	File        string  `json:"-"`
}

var (
	reStates = regexp.MustCompile(`(\d+) states generated, (\d+) distinct states found`)
	reSim    = regexp.MustCompile(`The number of states generated: (\d+)`)
)

func (g *Gen) cfg() string {
	or := func(a, b string) string {
		if a == "" {
			return b
		}
		return a
	}
	s := "INIT " + or(g.Init, "Init") + "\nNEXT " + or(g.Next, "Next") + "\nCHECK_DEADLOCK FALSE\n"
	if len(g.Props) > 0 {
		s = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
	}
	if len(g.Consts) > 0 {
		s += "CONSTANTS\n " + strings.Join(g.Consts, "\n ") + "\n"
	}
	for _, i := range g.Invs {
		s += "INVARIANT " + i + "\n"
	}
	if g.View != "" {
		s += "VIEW " + g.View + "\n"
	}
	for _, i := range g.Props {
		s += "PROPERTY " + i + "\n"
	}
	return s
}

// run executes TLC; the vectors go to a file in dir.
func (g *Gen) run(dir string, timeout time.Duration) (*TLCResult, error) {
	t0 := time.Now()
	d, err := os.MkdirTemp(dir, "tlc")
	if err != nil {
		return nil, err
	}
	// the modules are copied so that TLC writes nothing next to the committed ones
	mods, _ := filepath.Glob(filepath.Join(verifDir, "spec", "*.tla"))
	if g.Module == "Corpus" {
		mods = append(mods, filepath.Join(verifDir, "corpus", "modules.json"))
	}
	for _, m := range mods {
		b, err := os.ReadFile(m)
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(d, filepath.Base(m)), b, 0o644); err != nil {
			return nil, err
		}
	}
	if err := os.WriteFile(filepath.Join(d, "run.cfg"), []byte(g.cfg()), 0o644); err != nil {
		return nil, err
	}
	w := g.Workers
	if w == 0 {
		w = 4
	}
	args := []string{"-config", "run.cfg", "-metadir", filepath.Join(d, "meta"), "-noGenerateSpecTE"}
	mode := "exhaustive"
	if g.Sim > 0 {
		args = append(args, "-simulate", "num="+strconv.Itoa(g.Sim), "-depth", strconv.Itoa(g.Depth), "-seed", strconv.FormatInt(g.Seed, 10), "-workers", "1")
		mode = "simulation"
	} else {
		args = append(args, "-workers", strconv.Itoa(w))
		if g.Seed != 0 {
			args = append(args, "-seed", strconv.FormatInt(g.Seed, 10))
		}
	}
	args = append(args, g.Module+".tla")
	bin, err := exec.LookPath("tlc")
	if err != nil {
		bin = "/usr/local/bin/tlc"
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = d
	heap := "3g"
	if w >= 8 {
		heap = "6g"
	}
	jit := "4"
	if g.Short {
		jit = "1"
	}
	// (the main thread, which evaluates the constants, takes its stack size from JDK_JAVA_OPTIONS only)
	cmd.Env = append(os.Environ(), "JDK_JAVA_OPTIONS=-Xss256m", "JAVA_TOOL_OPTIONS=-Dfile.encoding=UTF-8 -Xmx"+heap+" -Xss64m -XX:ParallelGCThreads=2 -XX:TieredStopAtLevel="+jit)
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	errFile, _ := os.Create(filepath.Join(d, "stderr"))
	cmd.Stderr = errFile
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	defer timer.Stop()
	res := &TLCResult{Name: g.Name, Module: g.Module, Mode: mode, File: filepath.Join(d, "vectors")}
	vf, err := os.Create(res.File)
	if err != nil {
		return nil, err
	}
	vw := bufio.NewWriterSize(vf, 1<<20)
	var log []string
	rd := bufio.NewReaderSize(out, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		if strings.HasPrefix(line, `"{`) {
			vw.WriteString(line)
			res.Vectors++
		} else if strings.TrimSpace(line) != "" {
			log = append(log, strings.TrimRight(line, "\n"))
			if len(log) > 400 {
				log = log[len(log)-400:]
			}
			if m := reStates.FindStringSubmatch(line); m != nil {
				res.Transitions, _ = strconv.Atoi(m[1])
				res.States, _ = strconv.Atoi(m[2])
			} else if m := reSim.FindStringSubmatch(line); m != nil {
				res.Transitions, _ = strconv.Atoi(m[1])
				res.States = res.Transitions
			}
		}
		if err != nil {
			break
		}
	}
	werr := cmd.Wait()
	vw.Flush()
	vf.Close()
	errFile.Close()
	res.Secs = time.Since(t0).Seconds()
	if werr != nil {
		if len(log) > 60 {
			log = log[len(log)-60:]
		}
		return res, fmt.Errorf("TLC on %s (%s) failed: %v\n%s", g.Module, g.Name, werr, strings.Join(log, "\n"))
	}
	if res.States == 0 {
		return res, fmt.Errorf("TLC on %s (%s) explored nothing\n%s", g.Module, g.Name, strings.Join(log, "\n"))
	}
	if g.Expect && res.Vectors != res.States {
		return res, fmt.Errorf("TLC on %s (%s): %d states but %d vectors", g.Module, g.Name, res.States, res.Vectors)
	}
	os.RemoveAll(filepath.Join(d, "meta"))
	return res, nil
}
