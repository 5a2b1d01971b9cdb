// Package common is the exploration engine and the reference models shared by the checks.
//
// A property is a generator of cases (the bounded space) and a check of one case (the oracle).
// The parent process starts workers, each of which runs the same deterministic generator and
// checks the cases that fall to it, so that a crash of the code under test ends one worker only:
// the case it was working on is in a shared file and becomes the counterexample.
package common

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Case is one replayable case.
type Case struct {
	Kind string   `json:"kind"`
	Args []string `json:"args"`
}

// Failure describes a case on which the property does not hold.
type Failure struct {
	Case Case   `json:"case"`
	Msg  string `json:"msg"`
	// Sig classifies the failure, to match it with the known findings.
	Sig string `json:"sig,omitempty"`
	// Of is set when the failure needs all the cases of worker Worker of Of.
	Worker int `json:"worker,omitempty"`
	Of     int `json:"of,omitempty"`
}

// Prop is a property that can be explored.
type Prop struct {
	ID    string
	Gen   func(c *Ctx)
	Check func(c *Ctx, cs Case) *Failure
}

// Stage reports how far one part of the space was explored.
type Stage struct {
	Name     string `json:"name"`
	Cases    int64  `json:"cases"`
	Complete bool   `json:"complete"`
}

// Result is what a worker reports.
type Result struct {
	States      int64             `json:"states"`
	Transitions int64             `json:"transitions"`
	Traces      int64             `json:"traces"`
	Cases       int64             `json:"cases"`
	Outcomes    map[string]int64  `json:"outcomes"`
	Stages      []Stage           `json:"stages"`
	Samples     []string          `json:"samples"`
	Fail        *Failure          `json:"fail,omitempty"`
	Known       map[string]string `json:"known,omitempty"`
	Capped      bool              `json:"capped"`
	Error       string            `json:"error,omitempty"`

	hashes []uint64
}

// Ctx is the state of a worker.
type Ctx struct {
	Prop     string
	Thorough bool
	Shard, N int

	idx      int64
	res      Result
	states   map[uint64]struct{}
	stage    *Stage
	deadline time.Time
	cut      bool
	ticks    int
	mm       []byte
	known    map[string]bool
	check    func(c *Ctx, cs Case) *Failure
	Replay   bool
	// Map is called for every case of the generator instead of the check, to make other cases of it.
	Map func(cs Case)
}

const maxStates = 1500000
const mmSize = 1 << 20

// D is a bound: q in a quick run, t in a thorough run.
func (c *Ctx) D(q, t int) int {
	if c.Thorough {
		return t
	}
	return q
}

// Stage starts a part of the space.
func (c *Ctx) Stage(name string) {
	c.endStage()
	c.stage = &Stage{Name: name}
}

func (c *Ctx) endStage() {
	if c.stage != nil {
		c.stage.Complete = !c.cut
		c.res.Stages = append(c.res.Stages, *c.stage)
	}
	c.stage = nil
}

// Stopped reports that the exploration was cut short.
func (c *Ctx) Stopped() bool { return c.cut || c.res.Fail != nil }

// Next counts a case of the space and reports if it is of this worker.
func (c *Ctx) Next() bool {
	if c.cut || c.res.Fail != nil {
		return false
	}
	c.idx++
	if c.N > 1 && int(c.idx%int64(c.N)) != c.Shard {
		return false
	}
	c.ticks++
	if c.ticks&63 == 0 && time.Now().After(c.deadline) {
		c.cut = true
		return false
	}
	return true
}

// Late cuts the exploration short when its time is over, for loops that do not use Next.
func (c *Ctx) Late() bool {
	c.ticks++
	if c.ticks&63 == 0 && time.Now().After(c.deadline) {
		c.cut = true
	}
	return c.Stopped()
}

// State records a state of the model that was reached.
func (c *Ctx) State(s string) {
	if len(c.states) >= maxStates {
		c.res.Capped = true
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	c.states[h.Sum64()] = struct{}{}
}

// Trans counts steps of the model.
func (c *Ctx) Trans(n int) { c.res.Transitions += int64(n) }

// Trace counts runs of the implementation that were compared with the model.
func (c *Ctx) Trace() { c.res.Traces++ }

// Outcome counts an observed outcome.
func (c *Ctx) Outcome(s string) {
	if len(c.res.Outcomes) < 200 {
		c.res.Outcomes[s]++
	} else if _, ok := c.res.Outcomes[s]; ok {
		c.res.Outcomes[s]++
	}
}

// Emit counts a case and checks it when it is of this worker.
func (c *Ctx) Emit(kind string, args ...string) {
	if c.Next() {
		c.Do(Case{kind, args})
	}
}

// Do checks a case.
func (c *Ctx) Do(cs Case) {
	if m := c.Map; m != nil {
		c.Map = nil
		defer func() { c.Map = m }()
		m(cs)
		return
	}
	if c.res.Fail != nil {
		return
	}
	c.res.Cases++
	if c.stage != nil {
		c.stage.Cases++
	}
	if c.mm != nil {
		c.note(cs)
	}
	if n := c.res.Cases; n <= 2 || (n&(n-1)) == 0 && len(c.res.Samples) < 12 {
		c.res.Samples = append(c.res.Samples, trunc(cs.Kind+": "+strings.Join(cs.Args, " | "), 300))
	}
	f := c.Run(cs)
	if f == nil {
		return
	}
	f.Case = cs
	if f.Sig != "" && c.known[f.Sig] {
		if _, ok := c.res.Known[f.Sig]; !ok {
			c.res.Known[f.Sig] = trunc(cs.Kind+": "+strings.Join(cs.Args, " | ")+": "+f.Msg, 600)
		}
		c.Outcome("known finding " + f.Sig)
		return
	}
	c.res.Fail = f
}

// Run checks a case, a panic is a failure.
func (c *Ctx) Run(cs Case) (f *Failure) {
	defer func() {
		if r := recover(); r != nil {
			f = &Failure{Case: cs, Msg: fmt.Sprintf("panic: %v\n%s", r, trunc(string(debug.Stack()), 3000))}
		}
	}()
	return c.check(c, cs)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// note writes the case in the shared file: counter, length, JSON.
func (c *Ctx) note(cs Case) {
	b := c.mm[16:16]
	b = append(b, cs.Kind...)
	for _, a := range cs.Args {
		b = append(b, 0xff)
		if len(b)+len(a) > mmSize-64 {
			a = a[:mmSize-64-len(b)]
		}
		b = append(b, a...)
	}
	binary.LittleEndian.PutUint64(c.mm[8:], uint64(len(b)))
	binary.LittleEndian.PutUint64(c.mm[0:], binary.LittleEndian.Uint64(c.mm[0:])+1)
}

func readNote(mm []byte) (Case, bool) {
	n := binary.LittleEndian.Uint64(mm[8:])
	if n == 0 || n > mmSize-16 {
		return Case{}, false
	}
	p := strings.Split(string(mm[16:16+n]), "\xff")
	return Case{p[0], p[1:]}, true
}

func mapFile(path string, create bool) ([]byte, error) {
	fl := os.O_RDWR
	if create {
		fl |= os.O_CREATE | os.O_TRUNC
	}
	f, err := os.OpenFile(path, fl, 0644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if create {
		if err := f.Truncate(mmSize); err != nil {
			return nil, err
		}
	}
	return syscall.Mmap(int(f.Fd()), 0, mmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
}

// Env of the run, set by the driver.
func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func loadKnown(prop string) map[string]bool {
	known := map[string]bool{}
	b, err := ioutil.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return known
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> sig=<sig> <text>
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "sig=") {
			known[strings.TrimPrefix(f[2], "sig=")] = true
		}
	}
	return known
}

func newCtx(p *Prop) *Ctx {
	return &Ctx{Prop: p.ID, Thorough: thorough(), N: 1, states: map[uint64]struct{}{}, check: p.Check,
		known: loadKnown(p.ID), deadline: time.Now().Add(time.Hour),
		res: Result{Outcomes: map[string]int64{}, Known: map[string]string{}}}
}

// Main runs a harness binary.
//
//	run PROP OUT        explore, write the merged result to OUT
//	work PROP DIR I N   (internal) one worker
//	replay PROP FILE    check the case of a file once
func Main(props []*Prop) {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: run|work|replay PROP ...")
		os.Exit(3)
	}
	var p *Prop
	for _, q := range props {
		if q.ID == os.Args[2] {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[2])
		os.Exit(3)
	}
	switch os.Args[1] {
	case "run":
		run(p, os.Args[3])
	case "work":
		i, _ := strconv.Atoi(os.Args[4])
		n, _ := strconv.Atoi(os.Args[5])
		work(p, os.Args[3], i, n)
	case "replay":
		b, err := ioutil.ReadFile(os.Args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var f Failure
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		f.Case = decodeCase(f.Case)
		c := newCtx(p)
		if f.Of > 0 {
			// The cases of a whole worker.
			c.Shard, c.N = f.Worker, f.Of
			c.deadline = time.Now().Add(10 * time.Minute)
			p.Gen(c)
			if r := c.res.Fail; r != nil {
				fmt.Println("REPRODUCED", r.Sig)
				fmt.Printf("%s: %s\n%s\n", r.Case.Kind, strings.Join(r.Case.Args, " | "), r.Msg)
				os.Exit(1)
			}
			fmt.Println("holds")
			os.Exit(0)
		}
		c.Replay = true
		if r := c.Run(f.Case); r != nil {
			fmt.Println("REPRODUCED", r.Sig)
			fmt.Println(r.Msg)
			os.Exit(1)
		}
		fmt.Println("holds")
		os.Exit(0)
	}
}

// Cases can hold any bytes, JSON strings can not: they are quoted.
func encodeCase(cs Case) Case {
	out := Case{Kind: cs.Kind}
	for _, a := range cs.Args {
		out.Args = append(out.Args, strconv.QuoteToASCII(a))
	}
	return out
}

func decodeCase(cs Case) Case {
	out := Case{Kind: cs.Kind}
	for _, a := range cs.Args {
		if s, err := strconv.Unquote(a); err == nil {
			a = s
		}
		out.Args = append(out.Args, a)
	}
	return out
}

func work(p *Prop, dir string, i, n int) {
	debug.SetGCPercent(200)
	c := newCtx(p)
	c.Shard, c.N = i, n
	secs, _ := strconv.ParseFloat(os.Getenv("VERIF_DEADLINE"), 64)
	if secs <= 0 {
		secs = 120
	}
	c.deadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
	mm, err := mapFile(filepath.Join(dir, fmt.Sprintf("note%d", i)), false)
	if err == nil {
		c.mm = mm
	}
	p.Gen(c)
	c.endStage()
	c.res.States = int64(len(c.states))
	hs := make([]byte, 0, 8*len(c.states))
	for h := range c.states {
		hs = append(hs, byte(h), byte(h>>8), byte(h>>16), byte(h>>24), byte(h>>32), byte(h>>40), byte(h>>48), byte(h>>56))
	}
	ioutil.WriteFile(filepath.Join(dir, fmt.Sprintf("states%d", i)), hs, 0644)
	if c.res.Fail != nil {
		c.res.Fail.Case = encodeCase(c.res.Fail.Case)
	}
	b, err := json.Marshal(c.res)
	if err != nil {
		b, _ = json.Marshal(Result{Error: err.Error()})
	}
	ioutil.WriteFile(filepath.Join(dir, fmt.Sprintf("res%d", i)), b, 0644)
	os.Exit(0)
}

func numWorkers() int {
	if n, _ := strconv.Atoi(os.Getenv("VERIF_WORKERS")); n > 0 {
		return n
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

// HangSecs is the time without progress after which a case is suspected not to end.
var HangSecs = 90.0

// worker is a process that checks its share of the cases.
type worker struct {
	i      int
	dir    string
	note   []byte
	cmd    *exec.Cmd
	stderr tailWriter
	err    error
	hung   bool
	res    *Result
}

// tailWriter keeps the end of what is written to it.
type tailWriter struct{ b []byte }

const tailSize = 32 << 10

func (w *tailWriter) Write(p []byte) (int, error) {
	if len(p) > tailSize {
		w.b = append(w.b[:0], p[len(p)-tailSize:]...)
	} else {
		w.b = append(w.b, p...)
	}
	if len(w.b) > 4*tailSize {
		w.b = append(w.b[:0], w.b[len(w.b)-tailSize:]...)
	}
	return len(p), nil
}

// report is the part that tells why a process ended.
func (w *tailWriter) report() string {
	s := string(w.b)
	for _, x := range []string{"ERROR: AddressSanitizer", "WARNING: MemorySanitizer", "WARNING: DATA RACE", "panic:", "fatal error:", "SIG"} {
		if i := strings.Index(s, x); i >= 0 {
			return trunc(s[i:], 3000)
		}
	}
	if len(s) > 1000 {
		s = s[len(s)-1000:]
	}
	return s
}

// runWorkers runs some workers of n and waits for all of them.
func runWorkers(p *Prop, which []int, n int) ([]*worker, error) {
	dir, err := ioutil.TempDir("", "tslverif")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	var ws []*worker
	ends := make(chan int, len(which))
	for k, i := range which {
		w := &worker{i: i, dir: dir}
		w.note, err = mapFile(filepath.Join(dir, fmt.Sprintf("note%d", i)), true)
		if err != nil {
			return nil, err
		}
		w.cmd = exec.Command(os.Args[0], "work", p.ID, dir, strconv.Itoa(i), strconv.Itoa(n))
		w.cmd.Stderr = &w.stderr
		w.cmd.WaitDelay = 5 * time.Second
		w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		if err := w.cmd.Start(); err != nil {
			return nil, err
		}
		ws = append(ws, w)
		go func(k int) { w.err = w.cmd.Wait(); ends <- k }(k)
	}
	last := make([]uint64, len(ws))
	since := make([]time.Time, len(ws))
	for i := range since {
		since[i] = time.Now()
	}
	done := make([]bool, len(ws))
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for left := len(ws); left > 0; {
		select {
		case k := <-ends:
			left--
			done[k] = true
		case <-tick.C:
			for i, w := range ws {
				k := binary.LittleEndian.Uint64(w.note)
				if k != last[i] {
					last[i], since[i] = k, time.Now()
				} else if !done[i] && !w.hung && k > 0 && time.Since(since[i]).Seconds() > HangSecs {
					w.hung = true
					w.cmd.Process.Signal(syscall.SIGQUIT) // tells where it is
					go func(p *os.Process) { time.Sleep(5 * time.Second); p.Kill() }(w.cmd.Process)
				}
			}
		}
	}
	for _, w := range ws {
		if _, ok := w.err.(*exec.ExitError); w.err != nil && !ok && w.cmd.ProcessState != nil && w.cmd.ProcessState.Success() {
			w.err = nil // what the worker started kept its output open
		}
		b, err := ioutil.ReadFile(filepath.Join(dir, fmt.Sprintf("res%d", w.i)))
		var r Result
		if err == nil && json.Unmarshal(b, &r) == nil {
			w.res = &r
		}
	}
	for _, w := range ws {
		if w.res != nil {
			hs, _ := ioutil.ReadFile(filepath.Join(dir, fmt.Sprintf("states%d", w.i)))
			for k := 0; k+8 <= len(hs); k += 8 {
				w.res.hashes = append(w.res.hashes, binary.LittleEndian.Uint64(hs[k:]))
			}
		}
	}
	return ws, nil
}

// failure is what a worker failed on.
func (w *worker) failure() (Failure, bool) {
	if w.err != nil {
		cs, ok := readNote(w.note)
		if !ok {
			return Failure{}, false
		}
		msg := "the process of the code under test ended abnormally"
		if w.hung {
			msg = "the code under test did not return"
			if len(w.stderr.b) > 0 {
				msg += "\n" + w.stderr.report()
			}
		} else if len(w.stderr.b) > 0 {
			msg += ": " + w.err.Error() + "\n" + w.stderr.report()
		}
		return Failure{Case: encodeCase(cs), Msg: msg}, true
	}
	if w.res != nil && w.res.Fail != nil {
		return *w.res.Fail, true
	}
	return Failure{}, false
}

// died tells if the worker was ended by the code under test, and not by its surroundings.
func (w *worker) died() bool {
	if w.err == nil || w.hung {
		return false
	}
	if e, ok := w.err.(*exec.ExitError); ok {
		if s, ok := e.Sys().(syscall.WaitStatus); ok && s.Signaled() && (s.Signal() == syscall.SIGKILL || s.Signal() == syscall.SIGTERM || s.Signal() == syscall.SIGINT) {
			return false
		}
	}
	text := strings.ToLower(w.stderr.report())
	for _, x := range []string{"out of memory", "cannot allocate memory", "can't allocate", "temporarily unavailable", "new os thread", "failed to reserve", "no space left", "too many open files"} {
		if strings.Contains(text, x) {
			return false
		}
	}
	return true
}

func run(p *Prop, out string) {
	dir, err := ioutil.TempDir("", "tslverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	n := numWorkers()
	var which []int
	for i := 0; i < n; i++ {
		which = append(which, i)
	}
	ws, err := runWorkers(p, which, n)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	tot := Result{Outcomes: map[string]int64{}, Known: map[string]string{}}
	var fails []Failure
	failed := map[int]bool{}
	for _, w := range ws {
		f, ok := w.failure()
		switch {
		case ok:
			f.Worker = w.i
			fails = append(fails, f)
			failed[w.i] = true
		case w.err != nil:
			tot.Error = fmt.Sprintf("worker %d failed before its first case: %v %s", w.i, w.err, trunc(w.stderr.report(), 500))
		case w.res == nil:
			tot.Error = fmt.Sprintf("worker %d has no result", w.i)
		}
	}
	// The shortest counterexample first. One that fails only sometimes is one too (the checks are
	// deterministic, so the code under test is not), but not one that was seen once and never again.
	sort.SliceStable(fails, func(a, b int) bool {
		return len(strings.Join(fails[a].Case.Args, "")) < len(strings.Join(fails[b].Case.Args, ""))
	})
	known := loadKnown(p.ID)
	for k := range fails {
		f := fails[k]
		msg, times, replays := "", 0, 0
		hang := strings.Contains(f.Msg, "did not return")
		for ; replays < 5 || times > 0 && times < 5 && replays < 25 && !hang; replays++ {
			if m, bad := replayOnce(p, dir, f); bad {
				times++
				msg = m
			}
		}
		if times < 3 || times < 5 && (hang || strings.Contains(msg, "did not return")) {
			tot.Outcomes[fmt.Sprintf("unconfirmed failure (%d of %d replays)", times, replays)]++
			fmt.Fprintln(os.Stderr, "not confirmed:", trunc(strings.Join(f.Case.Args, " | ")+": "+f.Msg, 2000))
			tot.Samples = append(tot.Samples, "unconfirmed: "+trunc(strings.Join(f.Case.Args, " | ")+": "+f.Msg, 1000))
			continue
		}
		if f.Sig != "" && known[f.Sig] {
			continue
		}
		if times >= 3 && replays > 5 {
			msg = fmt.Sprintf("(fails in %d of %d replays) %s", times, replays, msg)
		}
		if msg != "" {
			f.Msg = msg
		}
		f.Worker = 0
		tot.Fail = &f
		break
	}
	// Failures that a case alone does not show: the cases before it in the same process may be needed, or
	// something the code under test does at times of its own. The whole workers are run again.
	for round := 0; round < 2 && tot.Fail == nil && len(fails) > 0 && len(failed) > 0; round++ {
		which = nil
		for i := range failed {
			which = append(which, i)
		}
		sort.Ints(which)
		again, err := runWorkers(p, which, n)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, w := range again {
			var f *Failure
			for k := range fails {
				if fails[k].Worker == w.i {
					f = &fails[k]
				}
			}
			g, bad := w.failure()
			same := bad && caseKey(g.Case) == caseKey(f.Case)
			hang := strings.Contains(f.Msg, "did not return")
			if !bad || w.err != nil && !w.died() && !(hang && same && w.hung) {
				// It holds this time, or what ended the worker is not the code.
				delete(failed, w.i)
				if w.err == nil && w.res != nil {
					ws[w.i] = w
				}
				continue
			}
			if hang && !same || !w.died() && round == 0 {
				continue
			}
			if tot.Fail == nil {
				text := "at cases that differ"
				if same {
					text = "always at this case, but only after the earlier ones"
				}
				g.Msg = fmt.Sprintf("(fails every time all the cases of worker %d of %d are checked in one process, %s) %s", w.i, n, text, g.Msg)
				g.Worker, g.Of = w.i, n
				tot.Fail = &g
			}
		}
	}
	all := map[uint64]struct{}{}
	stages := map[string]*Stage{}
	var order []string
	partial := false
	for i, w := range ws {
		r := w.res
		if r == nil {
			partial = true
			continue
		}
		if r.Error != "" {
			tot.Error = r.Error
		}
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Cases += r.Cases
		tot.Capped = tot.Capped || r.Capped
		for k, v := range r.Outcomes {
			tot.Outcomes[k] += v
		}
		for k, v := range r.Known {
			tot.Known[k] = v
		}
		for _, s := range r.Stages {
			if stages[s.Name] == nil {
				stages[s.Name] = &Stage{Name: s.Name, Complete: true}
				order = append(order, s.Name)
			}
			stages[s.Name].Cases += s.Cases
			stages[s.Name].Complete = stages[s.Name].Complete && s.Complete && r.Fail == nil
		}
		if i == 0 {
			tot.Samples = append(r.Samples, tot.Samples...)
		}
		for _, h := range r.hashes {
			all[h] = struct{}{}
		}
	}
	tot.States = int64(len(all))
	for _, s := range order {
		st := *stages[s]
		st.Complete = st.Complete && !partial
		tot.Stages = append(tot.Stages, st)
	}
	if len(order) == 0 && tot.Fail == nil && tot.Error == "" {
		tot.Error = "no worker came to an end"
	}
	b, _ := json.Marshal(tot)
	if err := ioutil.WriteFile(out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func caseKey(cs Case) string { return cs.Kind + "\x00" + strings.Join(cs.Args, "\x00") }

func replayOnce(p *Prop, dir string, f Failure) (string, bool) {
	b, _ := json.Marshal(f)
	file := filepath.Join(dir, "replay.json")
	ioutil.WriteFile(file, b, 0644)
	cmd := exec.Command(os.Args[0], "replay", p.ID, file)
	var sb, se strings.Builder
	cmd.Stdout, cmd.Stderr = &sb, &se
	if cmd.Start() != nil {
		return "", false
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case err := <-ch:
		if err == nil {
			return "", false
		}
		if strings.HasPrefix(sb.String(), "REPRODUCED") {
			return trunc(sb.String(), 4000), true
		}
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
			return "", false
		}
		return trunc("the process of the code under test ended abnormally: "+err.Error()+"\n"+se.String(), 4000), true
	case <-time.After(time.Duration(HangSecs/2) * time.Second):
		cmd.Process.Signal(syscall.SIGQUIT) // tells where it is
		select {
		case <-ch:
		case <-time.After(5 * time.Second):
			cmd.Process.Kill()
		}
		return trunc("the code under test did not return\n"+se.String(), 4000), true
	}
}
