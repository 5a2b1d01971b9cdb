package main

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

// The filters of the histories: accepted ones of several shapes, and rejected ones that stop in different
// states of the scanner and of the parser.
var histTexts = []string{
	"a = 1",
	"",
	"a = 'x",
	"a in (1, 2, b",
	"(a = 1 and (b = 2 or",
	"b ; a = 1",
	"a = 'q''r' and b like 'z%'",
	"not a = 1 and not (b in ('x', 'y') or c is null)",
	"a = 1)",
	"a = 1 b = 2",
	both("t between 2020-01-02 and 2020-01-03T04:05:06Z", "b between 1 and 2"),
	both("b + 1 * 2 > 2Ki - -3", "b > -3"),
	"a in (1, 2, 3) and b not in (4, 5)",
	"a not between 1 and",
	"a",
	both("a = 2020-13-45", "a = 'x' 'y'"),
	strings.Repeat("(", 12) + "a = '" + strings.Repeat("y", 300) + "'" + strings.Repeat(")", 12),
	"a = '" + strings.Repeat("z", 20000) + "'",
	strings.Repeat("a = 1 and ", 60) + "?",
	"a in (1, 2) or " + strings.Repeat("a like 'x' or ", 60) + "a in ('x')",
}

func allOf(s string) string {
	n, err := tsl.ParseTSL(s)
	if err != nil {
		return ""
	}
	return all(n)
}

type result struct{ parse, all string }

var aloneResults = map[int]result{}

// alone is the result of a parse and its uses in a fresh process.
func alone(i int) result {
	if r, ok := aloneResults[i]; ok {
		return r
	}
	b, err := exec.Command(os.Args[0], "alone", strconv.Itoa(i)).Output()
	p := strings.SplitN(string(b), "\x00", 2)
	r := result{parse: p[0]}
	if err != nil || len(p) < 2 {
		r.parse = fmt.Sprintf("the process ended: %v", err)
	} else {
		r.all = p[1]
	}
	aloneResults[i] = r
	return r
}

// scribble changes all of a tree that other trees could share: the elements of its lists.
func scribble(v interface{}) {
	switch n := v.(type) {
	case tsl.Node:
		scribble(n.Left)
		scribble(n.Right)
	case []tsl.Node:
		for i := range n {
			scribble(n[i])
			n[i] = tsl.Node{Func: "$string", Left: "changed"}
		}
		n = n[:cap(n)]
		for i := range n {
			n[i] = tsl.Node{Func: "$string", Left: "changed"}
		}
	}
}

// checkHistory runs a sequence of actions:
//
//	p<i> parse filter i and keep the tree; x<i> parse it and drop it; P<i> parse it in a fresh goroutine
//	w use all the kept trees; m change the lists of the newest kept tree and drop it; o drop the oldest
//
// Every parse and use must give what it gives in a fresh process, and the kept trees stay as they were.
func checkHistory(c *Ctx, cs Case) *Failure {
	type kept struct {
		i int
		n tsl.Node
	}
	var live []kept
	c.Trace()
	if cs.Kind == "cold" {
		b, err := exec.Command(os.Args[0], append([]string{"alone"}, cs.Args...)...).Output()
		i, _ := strconv.Atoi(cs.Args[len(cs.Args)-1])
		c.Trans(len(cs.Args))
		c.State("cold " + strings.Join(cs.Args, " "))
		c.Outcome("cold")
		if w := alone(i); err != nil || string(b) != w.parse+"\x00"+w.all {
			return failf("v%d: after the filters %v a new process gives %s %v\nat first it gives %s\n%s", version, cs.Args, strings.Replace(string(b), "\x00", "\n", 1), err, w.parse, w.all)
		}
		return nil
	}
	for _, act := range strings.Fields(cs.Args[0]) {
		c.Trans(1)
		switch act[0] {
		case 'p', 'x', 'P':
			i, _ := strconv.Atoi(act[1:])
			var n tsl.Node
			var err error
			if act[0] == 'P' {
				done := make(chan bool)
				go func() { n, err = tsl.ParseTSL(histTexts[i]); close(done) }()
				<-done
			} else {
				n, err = tsl.ParseTSL(histTexts[i])
			}
			got := ""
			if err != nil {
				got = fmt.Sprintf("error %T %q", err, err.Error())
			} else {
				got = show(n)
			}
			if want := alone(i).parse; got != want {
				return failf("v%d: %s gives %s\nin a fresh process it gives %s\nactions: %s", version, act, got, want, cs.Args[0])
			}
			if err == nil && act[0] != 'x' {
				live = append(live, kept{i, n})
			}
		case 'w':
			for _, k := range live {
				if g, w := all(k.n), alone(k.i).all; g != w {
					return failf("v%d: the uses of the tree of %q give\n%s\nin a fresh process\n%s\nactions: %s", version, histTexts[k.i], g, w, cs.Args[0])
				}
			}
		case 'm':
			if len(live) > 0 {
				scribble(live[len(live)-1].n)
				live = live[:len(live)-1]
			}
		case 'o':
			if len(live) > 0 {
				live = live[1:]
			}
		}
		key := act
		for _, k := range live {
			key += " " + strconv.Itoa(k.i)
			if g, w := show(k.n), alone(k.i).parse; g != w {
				return failf("v%d: a tree changed after %s\ngot:  %s\nwant: %s\nactions: %s", version, act, g, w, cs.Args[0])
			}
		}
		c.State(key)
	}
	c.Outcome(fmt.Sprintf("%d trees kept", len(live)))
	return nil
}

func genHistory(c *Ctx) {
	seqs := func(alpha []string, n int) {
		var rec func(p string, left int)
		rec = func(p string, left int) {
			for _, a := range alpha {
				if c.Stopped() {
					return
				}
				c.Emit("acts", p+a)
				if left > 1 {
					rec(p+a+" ", left-1)
				}
			}
		}
		rec("", n)
	}
	var ps, xs []string
	for i := range histTexts {
		ps = append(ps, "p"+strconv.Itoa(i))
		xs = append(xs, "x"+strconv.Itoa(i))
	}
	c.Stage("every two parses in a process of their own")
	for i := range histTexts {
		for j := range histTexts {
			c.Emit("cold", strconv.Itoa(i), strconv.Itoa(j))
		}
	}
	c.Stage("every sequence of 3 parses")
	seqs(ps[:16], c.D(3, 4))
	c.Stage("every sequence of actions on four filters and three failures")
	seqs([]string{"p7", "p12", "p6", "x2", "x5", "P0", "w", "m", "o"}, c.D(5, 6))
	c.Stage("long histories of every pair of parses")
	for i := range histTexts {
		for j := range histTexts {
			n := 20
			if i > 16 || j > 16 {
				n = 5
			}
			c.Emit("acts", strings.Repeat(fmt.Sprintf("x%d x%d ", i, j), n)+ps[i]+" "+ps[j]+" w")
			c.Emit("acts", strings.Repeat(fmt.Sprintf("p%d P%d o ", i, j), n)+"w m "+ps[i]+" "+ps[j]+" w")
		}
	}
	c.Stage("very long histories of one parse")
	for i := range histTexts {
		n := 1500
		if i > 15 {
			n = 60
		}
		c.Emit("acts", strings.Repeat(xs[i]+" ", n)+"p0 "+ps[i]+" w")
	}
}
