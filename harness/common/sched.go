package common

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
)

// A Body makes the work of one thread: setup prepares it alone, and gives what the thread runs. The thread
// returns a description of its result.
type Body struct {
	Name  string
	Setup func(shared *Shared) func() string
}

// Shared is what the threads of one run share.
type Shared struct {
	Get   map[string]interface{}
	Clean []func()
}

// Scenarios describes a concurrent system.
type Scenarios struct {
	Bodies map[string]Body
	// Run runs bodies under the scheduler, see sched.Run.
	Run func(bodies []func(), first, mask int, at, target []int) (points, steps, switches int)
	// Race describes the accesses of the last run that nothing keeps apart, when they are watched.
	Race func() string
	// alone has the results of every body when it runs alone.
	alone map[string]string
	warm  map[string]bool
}

func (s *Scenarios) once(names []string, order bool, first, mask int, at, target []int) (got []string, points, steps, switches int) {
	sh := &Shared{Get: map[string]interface{}{}}
	fs := make([]func() string, len(names))
	for i, n := range names {
		b, ok := s.Bodies[n]
		if !ok {
			panic("no body " + n)
		}
		fs[i] = b.Setup(sh)
	}
	got = make([]string, len(names))
	safe := func(i int) {
		defer func() {
			if r := recover(); r != nil {
				got[i] = fmt.Sprintf("panic: %v", r)
			}
		}()
		got[i] = fs[i]()
	}
	if order {
		for i := range fs {
			safe(i)
		}
	} else {
		bodies := make([]func(), len(names))
		for i := range fs {
			i := i
			bodies[i] = func() { safe(i) }
		}
		points, steps, switches = s.Run(bodies, first, mask, at, target)
	}
	for _, f := range sh.Clean {
		f()
	}
	return
}

func (s *Scenarios) want(name string) string {
	if s.alone == nil {
		s.alone = map[string]string{}
		runtime.GOMAXPROCS(6)
	}
	if w, ok := s.alone[name]; ok {
		return w
	}
	r, _, _, _ := s.once([]string{name}, true, 0, 0, nil, nil)
	r2, _, _, _ := s.once([]string{name}, true, 0, 0, nil, nil)
	if r[0] != r2[0] {
		r[0] = "two different results alone: " + r[0] + " / " + r2[0]
	}
	s.alone[name] = r[0]
	return r[0]
}

// Points is the number of choice points of a run.
func (s *Scenarios) Points(names []string, first, mask int, at, target []int) int {
	s.ready(names, mask)
	_, p, _, _ := s.once(names, false, first, mask, at, target)
	return p
}

// ready runs the bodies twice without preemptions: caches that are filled on first use are filled.
func (s *Scenarios) ready(names []string, mask int) {
	if s.warm == nil {
		s.warm = map[string]bool{}
	}
	for _, n := range names {
		s.want(n)
	}
	k := strings.Join(names, " ")
	if !s.warm[k] {
		s.warm[k] = true
		s.once(names, false, 0, mask, nil, nil)
		s.once(names, false, len(names)-1, mask, nil, nil)
	}
}

// Check runs one schedule. Args: the bodies, the first thread, the mask, and at:target for every preemption.
func (s *Scenarios) Check(c *Ctx, cs Case) *Failure {
	names := strings.Fields(cs.Args[0])
	first, _ := strconv.Atoi(cs.Args[1])
	mask, _ := strconv.Atoi(cs.Args[2])
	var at, target []int
	for _, a := range cs.Args[3:] {
		f := strings.Split(a, ":")
		x, _ := strconv.Atoi(f[0])
		y, _ := strconv.Atoi(f[1])
		at, target = append(at, x), append(target, y)
	}
	s.ready(names, mask)
	got, _, steps, switches := s.once(names, false, first, mask, at, target)
	c.Trace()
	c.Trans(steps)
	c.Outcome(fmt.Sprintf("%d preemptions asked, %d switches", len(at), switches))
	c.State(strings.Join(cs.Args, " ") + " " + strconv.Itoa(steps))
	if s.Race != nil {
		if r := s.Race(); r != "" {
			return &Failure{Msg: fmt.Sprintf("threads %v: %s\nfirst thread %d, preemptions (point:thread) %v", names, r, first, cs.Args[3:])}
		}
	}
	for i, n := range names {
		if w := s.want(n); got[i] != w {
			return &Failure{Msg: fmt.Sprintf("thread %d (%s) of %v gives %s\nalone it gives %s\nfirst thread %d, preemptions (point:thread) %v", i, n, names, got[i], w, first, cs.Args[3:])}
		}
	}
	// What was done together has no effect on what is done afterwards.
	for _, n := range names {
		r, _, _, _ := s.once([]string{n}, true, 0, 0, nil, nil)
		if w := s.want(n); r[0] != w {
			return &Failure{Msg: fmt.Sprintf("after %v ran together %s gives %s\nbefore it gave %s\nfirst thread %d, preemptions (point:thread) %v", names, n, r[0], w, first, cs.Args[3:])}
		}
	}
	return nil
}

// Explore emits every schedule of the bodies with up to bound preemptions, at the points of the mask.
func (s *Scenarios) Explore(c *Ctx, names []string, mask, bound int) {
	k := strings.Join(names, " ")
	args := func(first int, at, target []int) []string {
		a := []string{k, strconv.Itoa(first), strconv.Itoa(mask)}
		for i := range at {
			a = append(a, fmt.Sprintf("%d:%d", at[i], target[i]))
		}
		return a
	}
	for first := range names {
		if c.Stopped() {
			return
		}
		c.Emit("schedule", args(first, nil, nil)...)
		if bound == 0 {
			continue
		}
		points := s.Points(names, first, mask, nil, nil)
		for p := 0; p < points && !c.Stopped(); p++ {
			for _, t := range targets(names) {
				if !c.Next() {
					continue
				}
				at, target := []int{p}, []int{t}
				c.Do(Case{"schedule", args(first, at, target)})
				if bound > 1 {
					s.extend(c, names, mask, first, bound-1, at, target, args)
				}
			}
		}
	}
}

func (s *Scenarios) extend(c *Ctx, names []string, mask, first, bound int, at, target []int, args func(int, []int, []int) []string) {
	points := s.Points(names, first, mask, at, target)
	for p := at[len(at)-1] + 1; p < points && !c.Stopped(); p++ {
		for _, t := range targets(names) {
			at2, target2 := append(append([]int{}, at...), p), append(append([]int{}, target...), t)
			c.Do(Case{"schedule", args(first, at2, target2)})
			if bound > 1 {
				s.extend(c, names, mask, first, bound-1, at2, target2, args)
			}
			if c.Late() {
				return
			}
		}
	}
}

// targets are the threads a preemption can hand over to: with two threads there is only the other one.
func targets(names []string) []int {
	if len(names) <= 2 {
		return []int{9}
	}
	t := make([]int, len(names))
	for i := range t {
		t[i] = i
	}
	return t
}

// CanonDot writes a graph without the names of its nodes.
func CanonDot(s, root string) string {
	nodes, err := ParseDot("digraph {\n" + s + "\n}\n")
	if err != nil {
		return "not DOT: " + err.Error() + "\n" + s
	}
	seen := map[string]bool{}
	var b strings.Builder
	var walk func(id string)
	walk = func(id string) {
		n := nodes[id]
		if n == nil || seen[id] || n.Declared != 1 {
			fmt.Fprintf(&b, "!%v", n)
			return
		}
		seen[id] = true
		fmt.Fprintf(&b, "(%q", n.Label)
		for _, k := range n.Children {
			walk(k)
		}
		b.WriteByte(')')
	}
	walk(root)
	return fmt.Sprintf("%s %d", b.String(), len(nodes))
}

// CheckRace lets the bodies run freely at the same time, some rounds. It is for a build with the race
// detector, which ends the process at the first race, and compares the results too.
// Args: the bodies, the rounds.
func (s *Scenarios) CheckRace(c *Ctx, cs Case) *Failure {
	names := strings.Fields(cs.Args[0])
	rounds, _ := strconv.Atoi(cs.Args[1])
	for _, n := range names {
		s.want(n)
	}
	for k := 0; k < rounds; k++ {
		run := s.Run
		s.Run = func(bodies []func(), first, mask int, at, target []int) (int, int, int) {
			start, done := make(chan bool), make(chan bool, len(bodies))
			for _, b := range bodies {
				b := b
				go func() { <-start; b(); done <- true }()
			}
			close(start)
			for range bodies {
				<-done
			}
			return 0, 0, 0
		}
		got, _, _, _ := s.once(names, false, 0, 0, nil, nil)
		s.Run = run
		c.Trace()
		c.Trans(len(names))
		for i, n := range names {
			if w := s.want(n); got[i] != w {
				return &Failure{Msg: fmt.Sprintf("thread %d (%s) of %v gives %s\nalone it gives %s", i, n, names, got[i], w)}
			}
		}
	}
	c.Outcome("no race")
	c.State("race " + cs.Args[0])
	return nil
}

// Pairs emits every pair of bodies for CheckRace.
func (s *Scenarios) Pairs(c *Ctx, names []string, rounds int) {
	for i, a := range names {
		for _, b := range names[i:] {
			c.Emit("race", a+" "+b, strconv.Itoa(rounds))
		}
	}
}
