// Command s6 explores the schedules of concurrent uses of version 6.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	. "tslverif/common"
	"tslverif/sched"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
	"gopkg.in/yaml.v3"
)

func show(n *tsl.TSLNode) string {
	if n == nil {
		return "nothing"
	}
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		if n.Type() == tsl.KindUnaryExpr {
			return fmt.Sprintf("(%v %s)", v.Operator, show(v.Right))
		}
		return fmt.Sprintf("(%v %s %s)", v.Operator, show(v.Left), show(v.Right))
	case tsl.TSLArrayLiteral:
		s := "["
		for _, e := range v.Values {
			s += show(e) + ";"
		}
		return s + "]"
	default:
		return fmt.Sprintf("%v:%q", n.Type(), fmt.Sprint(v))
	}
}

func parse(s string) string {
	n, err := tsl.ParseTSL(s)
	if err != nil {
		var se *tsl.SyntaxError
		if errors.As(err, &se) {
			return fmt.Sprintf("error %q at %d context %q input %q, tree %v", se.Message, se.Position, se.Context, se.Input, n != nil)
		}
		return "error " + err.Error()
	}
	r := show(n)
	n.Free()
	return r
}

var record = map[string]interface{}{"a": "q", "b": 3, "c": nil, "d": []interface{}{1, "x"}, "t": "2020-01-02T03:04:05Z"}

func eval(n *tsl.TSLNode) string {
	v, err := semantics.Walk(n, func(k string) (interface{}, bool) { v, ok := record[k]; return v, ok })
	return fmt.Sprint(v, err)
}

const sharedText = "a = 'q' and b in [1, 3] or not (a ~= 'z|q' and c is null) or any (d = 'x') or t > 2020-01-01 and a like 'Q%'"
const likeText = "a like 'q%' and a ilike 'Q_' or a ~= '^q' and b % 2 = 1"

// The uses of a tree.
var uses = map[string]func(n *tsl.TSLNode) string{
	"show": show,
	"eval": eval,
	"sql": func(n *tsl.TSLNode) string {
		f, err := sql.Walk(n)
		if err != nil {
			return "error " + err.Error()
		}
		s, args, err := f.ToSql()
		return fmt.Sprint(s, args, err)
	},
	"dot": func(n *tsl.TSLNode) string {
		s, err := graphviz.Walk("", n, "root")
		if err != nil {
			return "error " + err.Error()
		}
		return CanonDot(s, "root")
	},
	"json": func(n *tsl.TSLNode) string { b, err := json.Marshal(n); return fmt.Sprint(string(b), err) },
	"yaml": func(n *tsl.TSLNode) string { b, err := yaml.Marshal(n); return fmt.Sprint(string(b), err) },
	"clone": func(n *tsl.TSLNode) string {
		x := n.Clone()
		s := show(x)
		x.Free()
		return s
	},
	"ident": func(n *tsl.TSLNode) string {
		x, err := ident.Walk(n, func(s string) (string, error) { return "x." + s, nil })
		if err != nil {
			return "error " + err.Error()
		}
		s := show(x)
		x.Free()
		return s
	},
	"identerr": func(n *tsl.TSLNode) string {
		x, err := ident.Walk(n, func(s string) (string, error) {
			if s == "b" {
				return "b (", nil
			}
			return s, nil
		})
		return fmt.Sprint(x != nil, err)
	},
}

func sharedTree(sh *Shared, text string) *tsl.TSLNode {
	if n, ok := sh.Get[text]; ok {
		return n.(*tsl.TSLNode)
	}
	n, err := tsl.ParseTSL(text)
	if err != nil {
		panic(err)
	}
	sh.Get[text] = n
	sh.Clean = append(sh.Clean, func() { n.Free() })
	return n
}

var texts = map[string]string{
	"a":     "a",
	"eq":    "a = 1",
	"str":   "a = \"q\\\"r\"",
	"str2":  "'x\\ny' != b",
	"arr":   "a in [1, 'x', [b]]",
	"date":  "t > 2020-01-02",
	"and":   "a = 1 and not b < 2Ki",
	"e0":    "",
	"eend":  "a =",
	"elex":  "b ; a",
	"estr":  "c = 'xy",
	"earr":  "a in [1, b",
	"eopen": "(a = 'x' or (",
	"etwo":  "a b",
}

// Filters of each kind of operator that give different results on the same record.
var opposite = [][2]string{
	{"a ~= '^q'", "a ~= 'z'"}, {"a like 'q%'", "a like 'z%'"}, {"a ilike 'Q'", "a ilike 'Z'"}, {"t = '2020-01-02T04:04:05+01:00'", "t = 2020-01-02"},
	{"b in [1, 3]", "b in [1, 4, 'x']"}, {"b between 1 and 5", "b between 5 and 9"}, {"b + 2 = 5", "b * 2 - 1 = 6"}, {"d = 'x'", "d != 1"}, {"any (d = 1)", "all (d = 1)"},
	{"len d", "sum [b, 4]"}, {"c is null", "a is null"}, {"zz = 1", "yy = 1"}, {"not (b = 3)", "-b"}, {"t > '2020-01-01'", "t > '2021-01-01T00:00:00Z'"},
}

var counter = 100000

// fresh gives a text that was never used before, of the same length every time.
func fresh(s string) (string, string) {
	counter++
	if counter == 1000000 {
		counter = 100000
	}
	k := strconv.Itoa(counter)
	return strings.Replace(s, "@", k, -1), k
}

// News are filters with a part that is new in every run: what the code keeps of one is not yet there.
var news = map[string]string{
	"re": "a ~= '^q|@'", "re2": "a ~= 'z@'", "like": "a like 'q%' or a like '@'", "like2": "a like 'z@'", "num": "b = 3 and b != @", "str": "a = 'q' and a != \"@\"",
	"id": "x@ = 1", "in": "b in [@, 3]", "date": "t > '2020-01-01T00:00:00.@7Z'", "err": "a = @ b", "arr": "[@, [x@, '@']]", "estr": "a = '@",
}

// The trees the threads own before they start, and free.
func bodies() map[string]Body {
	m := map[string]Body{}
	for name, text := range texts {
		name, text := name, text
		m["parse:"+name] = Body{Setup: func(*Shared) func() string { return func() string { return parse(text) } }}
		m["twice:"+name] = Body{Setup: func(*Shared) func() string { return func() string { return parse(text) + parse(text) } }}
		m["free:"+name] = Body{Setup: func(*Shared) func() string {
			n, err := tsl.ParseTSL(text)
			if err != nil {
				panic(err)
			}
			return func() string {
				x := n.Clone()
				n.Free()
				s := show(x)
				x.Free()
				return s
			}
		}}
		m["cycle:"+name] = Body{Setup: func(*Shared) func() string {
			n, err := tsl.ParseTSL(text)
			if err != nil {
				panic(err)
			}
			return func() string {
				// Releases and makes trees in turn.
				x := n.Clone()
				n.Free()
				y := x.Clone()
				x.Free()
				z := y.Clone()
				r := show(y) + show(z)
				y.Free()
				r += show(z)
				z.Free()
				return r
			}
		}}
		for u, f := range uses {
			f := f
			m[u+":"+name] = Body{Setup: func(sh *Shared) func() string {
				n, err := tsl.ParseTSL(text)
				if err != nil {
					panic(err)
				}
				sh.Clean = append(sh.Clean, func() { n.Free() })
				return func() string { return f(n) }
			}}
		}
	}
	for i, p := range opposite {
		for j, text := range p {
			text := text
			m[fmt.Sprintf("op:%d:%d", i, j)] = Body{Setup: func(sh *Shared) func() string {
				n, err := tsl.ParseTSL(text)
				if err != nil {
					panic(err)
				}
				sh.Clean = append(sh.Clean, func() { n.Free() })
				return func() string { return eval(n) }
			}}
		}
	}
	for k, s := range news {
		s := s
		m["new:parse:"+k] = Body{Setup: func(*Shared) func() string {
			text, key := fresh(s)
			return func() string { return strings.Replace(parse(text), key, "@", -1) }
		}}
		if k == "err" || k == "estr" {
			continue
		}
		for u, f := range uses {
			if u == "identerr" {
				continue
			}
			f := f
			m["new:"+u+":"+k] = Body{Setup: func(sh *Shared) func() string {
				text, key := fresh(s)
				n, err := tsl.ParseTSL(text)
				if err != nil {
					panic(err)
				}
				sh.Clean = append(sh.Clean, func() { n.Free() })
				return func() string { return strings.Replace(f(n), key, "@", -1) }
			}}
		}
	}
	for u, f := range uses {
		f := f
		m["shared:"+u] = Body{Setup: func(sh *Shared) func() string {
			n := sharedTree(sh, sharedText)
			return func() string { return f(n) }
		}}
		m["like:"+u] = Body{Setup: func(sh *Shared) func() string {
			n := sharedTree(sh, likeText)
			return func() string { return f(n) }
		}}
	}
	return m
}

var sys = &Scenarios{Bodies: bodies(), Run: func(bodies []func(), first, mask int, at, target []int) (int, int, int) {
	pre := make([]sched.Preempt, len(at))
	for i := range at {
		pre[i] = sched.Preempt{At: at[i], Target: target[i]}
	}
	return sched.Run(bodies, first, mask, pre)
}}

func newBodies() []string {
	var out []string
	for k := range news {
		out = append(out, "new:parse:"+k)
		if k != "err" && k != "estr" {
			out = append(out, "new:eval:"+k)
		}
	}
	for _, u := range []string{"sql", "dot", "json", "yaml", "clone", "ident"} {
		out = append(out, "new:"+u+":arr", "new:"+u+":str")
	}
	sort.Strings(out)
	return out
}

func gen(c *Ctx) {
	ok := []string{"parse:eq", "parse:str", "parse:arr", "parse:and", "parse:date", "parse:a"}
	bad := []string{"parse:eend", "parse:elex", "parse:estr", "parse:earr", "parse:eopen", "parse:etwo", "parse:e0"}
	all := append(append([]string{}, ok...), bad...)
	c.Stage("2 threads, 1 preemption anywhere: every pair of parses")
	for i, a := range all {
		for _, b := range all[i:] {
			sys.Explore(c, []string{a, b}, sched.Fine, 1)
		}
	}
	reads := []string{"eval", "sql", "dot", "json", "yaml", "clone", "ident", "identerr", "show"}
	c.Stage("2 threads, 1 preemption anywhere: every pair of uses of a shared tree")
	for i, a := range reads {
		for _, b := range reads[i:] {
			sys.Explore(c, []string{"shared:" + a, "shared:" + b}, sched.Fine, 1)
		}
	}
	sys.Explore(c, []string{"like:eval", "like:eval"}, sched.Fine, 1)
	sys.Explore(c, []string{"like:eval", "shared:eval"}, sched.Fine, 1)
	c.Stage("2 threads, 1 preemption anywhere: a parse and a use, a parse and a free")
	for _, a := range []string{"parse:str", "parse:elex", "parse:earr"} {
		for _, b := range reads {
			sys.Explore(c, []string{a, "shared:" + b}, sched.Fine, 1)
		}
		sys.Explore(c, []string{a, "free:arr"}, sched.Fine, 1)
	}
	sys.Explore(c, []string{"free:arr", "free:str"}, sched.Fine, 1)
	c.Stage("2 threads, 1 preemption anywhere: evaluations with opposite results")
	for i := range opposite {
		for _, x := range []string{"0", "1"} {
			a := fmt.Sprintf("op:%d:%s", i, x)
			sys.Explore(c, []string{a, a}, sched.Fine, 1)
		}
		sys.Explore(c, []string{fmt.Sprintf("op:%d:0", i), fmt.Sprintf("op:%d:1", i)}, sched.Fine, 1)
		for j := range opposite[:i] {
			sys.Explore(c, []string{fmt.Sprintf("op:%d:0", i), fmt.Sprintf("op:%d:1", j)}, sched.Fine, 1)
			sys.Explore(c, []string{fmt.Sprintf("op:%d:1", i), fmt.Sprintf("op:%d:0", j)}, sched.Fine, 1)
		}
	}
	c.Stage("2 threads, 1 preemption anywhere: filters never seen before")
	nb := newBodies()
	for i, a := range nb {
		for j, b := range nb[:i+1] {
			if c.Thorough || i == j || strings.Contains(a, "eval") && strings.Contains(b, "eval") {
				sys.Explore(c, []string{a, b}, sched.Fine, 1)
			}
		}
	}
	c.Stage("3 threads, 1 preemption at functions and locks")
	for _, a := range [][]string{{"parse:eq", "parse:elex", "parse:str"}, {"parse:estr", "parse:arr", "shared:ident"}, {"twice:eq", "twice:elex", "shared:eval"}, {"parse:e0", "parse:etwo", "free:arr"}} {
		sys.Explore(c, a, sched.Coarse, 1)
	}
	c.Stage("2 threads, 2 preemptions at functions and locks")
	pairs := [][]string{{"parse:a", "parse:e0"}, {"parse:eend", "parse:a"}, {"parse:elex", "parse:etwo"}, {"eval:eq", "eval:str2"}, {"ident:eq", "parse:a"}, {"parse:str", "parse:a"}, {"sql:eq", "sql:arr"}, {"dot:eq", "dot:str"}, {"json:eq", "json:arr"}, {"free:eq", "free:str"}}
	if c.Thorough {
		for i, a := range all {
			for _, b := range all[i:] {
				pairs = append(pairs, []string{a, b})
			}
		}
	}
	for _, p := range pairs {
		sys.Explore(c, p, sched.Coarse, 2)
	}
	if c.Thorough {
		c.Stage("2 threads, 2 preemptions anywhere: the shortest parses")
		for _, p := range [][]string{{"parse:a", "parse:e0"}, {"parse:a", "parse:elex"}, {"parse:a", "parse:a"}, {"parse:eend", "parse:a"}} {
			sys.Explore(c, p, sched.Fine, 2)
		}
		c.Stage("3 threads, 2 preemptions at functions and locks")
		sys.Explore(c, []string{"parse:a", "parse:elex", "parse:e0"}, sched.Coarse, 2)
	}
}

// genMem explores preemptions at every access of the C code to memory.
func genMem(c *Ctx) {
	ok := []string{"parse:eq", "parse:str", "parse:arr", "parse:date"}
	bad := []string{"parse:eend", "parse:elex", "parse:estr", "parse:earr"}
	all := append(append([]string{}, ok...), bad...)
	c.Stage("2 threads, 1 preemption at any memory access of C: every pair of parses")
	for i, a := range all {
		for _, b := range all[i:] {
			sys.Explore(c, []string{a, b}, sched.Mem, 1)
		}
	}
	reads := []string{"eval", "sql", "dot", "json", "yaml", "clone", "ident", "identerr", "show"}
	c.Stage("2 threads, 1 preemption at any memory access of C: every pair of uses of a shared tree")
	for i, a := range reads {
		for _, b := range reads[i:] {
			sys.Explore(c, []string{"shared:" + a, "shared:" + b}, sched.Mem, 1)
		}
	}
	c.Stage("2 threads, 1 preemption at any memory access of C: parses, uses and releases of own trees")
	own := []string{"free:arr", "free:str", "cycle:arr", "cycle:and", "twice:eq", "twice:elex"}
	for i, a := range own {
		for _, b := range own[i:] {
			sys.Explore(c, []string{a, b}, sched.Mem, 1)
		}
		for _, b := range reads {
			sys.Explore(c, []string{a, "shared:" + b}, sched.Mem, 1)
		}
	}
}

func main() {
	sys.Race = sched.Race
	Main([]*Prop{{ID: "T05", Gen: gen, Check: sys.Check}, {ID: "T05C", Gen: genMem, Check: sys.Check}, {ID: "T05R", Gen: func(c *Ctx) {
		c.Stage("free running, race detector: every pair of parses and uses")
		var names []string
		for n := range texts {
			names = append(names, "parse:"+n)
		}
		for u := range uses {
			names = append(names, "shared:"+u, "like:"+u)
		}
		names = append(names, newBodies()...)
		for i := range opposite {
			names = append(names, fmt.Sprintf("op:%d:0", i), fmt.Sprintf("op:%d:1", i))
		}
		names = append(names, "free:arr", "free:str", "twice:eq", "cycle:arr")
		sort.Strings(names)
		sys.Pairs(c, names, c.D(8, 100))
	}, Check: sys.CheckRace}})
}
