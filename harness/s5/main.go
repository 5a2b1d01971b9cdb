// Command s5 explores the histories and the schedules of uses of version 5. The build makes the one of
// version 4 from the same sources.
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	. "tslverif/common"
	"tslverif/sched"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
	"go.mongodb.org/mongo-driver/bson"
)

func failf(f string, a ...interface{}) *Failure { return &Failure{Msg: fmt.Sprintf(f, a...)} }

// show writes everything of a tree.
func show(v interface{}) string {
	switch n := v.(type) {
	case nil:
		return "nothing"
	case tsl.Node:
		return fmt.Sprintf("(%s %s %s)", n.Func, show(n.Left), show(n.Right))
	case []tsl.Node:
		s := "["
		for _, e := range n {
			s += show(e) + ";"
		}
		return s + "]"
	case time.Time:
		return "time " + n.Format(time.RFC3339Nano)
	default:
		return fmt.Sprintf("%T %q", v, fmt.Sprint(v))
	}
}

func parse(s string) string {
	n, err := tsl.ParseTSL(s)
	if err != nil {
		return fmt.Sprintf("error %T %q", err, err.Error())
	}
	return show(n)
}

var record = map[string]interface{}{"a": "q", "b": 3, "c": nil, "d": []string{"x", "y"}, "t": time.Unix(1577934245, 0).UTC()}

func get(k string) (interface{}, bool) { v, ok := record[k]; return v, ok }

// The uses of a tree.
var uses = map[string]func(n tsl.Node) string{
	"show": func(n tsl.Node) string { return show(n) },
	"eval": func(n tsl.Node) string { v, err := semantics.Walk(n, get); return fmt.Sprint(v, err) },
	"sql": func(n tsl.Node) string {
		f, err := sql.Walk(n)
		if err != nil {
			return "error " + err.Error()
		}
		s, args, err := f.ToSql()
		return fmt.Sprint(s, args, err)
	},
	"mongo": func(n tsl.Node) string {
		d, err := mongo.Walk(n)
		if err != nil {
			return "error " + err.Error()
		}
		b, err := bson.MarshalExtJSON(d, true, false)
		return fmt.Sprint(string(b), err)
	},
	"dot": func(n tsl.Node) string {
		s, err := graphviz.Walk("", n, "root")
		if err != nil {
			return "error " + err.Error()
		}
		return CanonDot(s, "root")
	},
	"ident": func(n tsl.Node) string {
		x, err := ident.Walk(n, func(s string) (string, error) { return "x." + s, nil })
		if err != nil {
			return "error " + err.Error()
		}
		return show(x)
	},
	"identerr": func(n tsl.Node) string {
		_, err := ident.Walk(n, func(s string) (string, error) {
			if s == "b" {
				return s, fmt.Errorf("no %s", s)
			}
			return s, nil
		})
		return fmt.Sprint(err)
	},
}

var useNames = []string{"show", "eval", "sql", "mongo", "dot", "ident", "identerr"}

func all(n tsl.Node) string {
	var b strings.Builder
	for _, u := range useNames {
		b.WriteString(u + ": " + uses[u](n) + "\n")
	}
	return b.String()
}

func both(v5, v4 string) string {
	if version == 5 {
		return v5
	}
	return v4
}

var sharedText = both("a = 'q' and b in (1, 3) or not (a ~= 'z|q' and c is null) and d = 'x' or t > 2020-01-01 and a like 'Q%' and b + 1 * 2 > 4",
	"a = 'q' and b in (1, 3) or not (a ~= 'z|q' and c is null) or a like 'Q%' and b > 2")

const likeText = "a like 'q%' and a ilike 'Q_' or a ~= '^q' and b between 1 and 4"

var texts = map[string]string{
	"eq":    "a = 1",
	"str":   "a = 'q''r' or c != ''",
	"like":  "a not like 'x%' and b ilike '_y'",
	"arr":   "a in (1, 2, 3) or b not in ('x', 'y')",
	"btw":   "b between 1 and 5",
	"null":  "c is null or not a is not null",
	"date":  both("t > 2020-01-02", "a > 'x'"),
	"num":   both("b = 2Ki - 1 * -3", "b = -2.5e3"),
	"and":   "a = 'q' and not b < 2 or c is null",
	"deep":  "((a = 'q' and (b < 2)) or not (c is null and (a ~= 'z')))",
	"e0":    "",
	"eend":  "a =",
	"elex":  "b ; a = 1",
	"estr":  "c = 'xy",
	"earr":  "a in (1, b",
	"eopen": "(a = 'x' or (",
	"etwo":  "a = 1 b = 2",
}

var opposite = [][2]string{
	{"a ~= '^q'", "a ~= 'z'"}, {"a like 'q%'", "a like 'z%'"}, {"a ilike 'Q'", "a ilike 'Z'"}, {"b in (1, 3)", "b in (1, 4)"},
	{"b between 1 and 5", "b between 5 and 9"}, {"c is null", "a is null"}, {"zz = 1", "b = 3"}, {"not (b = 3)", "b > 2"}, {"a = 'q'", "a in ('x', 'y')"},
	{both("b + 2 = 5", "b = 3"), both("b * 2 - 1 = 6", "b = 4")}, {both("d = 'x'", "a = 'q'"), both("d in ('z', 'w')", "a = 'z'")}, {both("t > 2020-01-01", "a > 'a'"), both("t > 2021-01-01", "a > 'z'")}, {"a ~! 'q'", "a ~! '^z'"},
}

var counter = 100000

// fresh gives a text that was never used before, of the same length every time.
func fresh(s string) (string, string) {
	counter++
	if counter == 1000000 {
		counter = 100000
	}
	k := strconv.Itoa(counter)
	return strings.Replace(s, "@", k, -1), k
}

// news are filters with a part that is new in every run.
var news = map[string]string{
	"re": "a ~= '^q|@'", "re2": "a ~= 'z@'", "like": "a like 'q%' or a like '@'", "like2": "a like 'z@'", "num": "b = 3 and b != @", "str": "a = 'q' and a != '@'",
	"id": "x@ = 1", "in": "b in (@, 3)", "err": "a = @ b", "estr": "a = '@",
}

func must(text string) tsl.Node {
	n, err := tsl.ParseTSL(text)
	if err != nil {
		panic(err)
	}
	return n
}

func shared(sh *Shared, text string) tsl.Node {
	if n, ok := sh.Get[text]; ok {
		return n.(tsl.Node)
	}
	n := must(text)
	sh.Get[text] = n
	return n
}

func bodies() map[string]Body {
	m := map[string]Body{}
	add := func(name string, setup func(sh *Shared) func() string) { m[name] = Body{Setup: setup} }
	for name, text := range texts {
		text := text
		add("parse:"+name, func(*Shared) func() string { return func() string { return parse(text) } })
		add("twice:"+name, func(*Shared) func() string { return func() string { return parse(text) + parse(text) } })
		if name[0] == 'e' && name != "eq" {
			continue
		}
		for u, f := range uses {
			f := f
			add(u+":"+name, func(sh *Shared) func() string {
				n := must(text)
				return func() string { return f(n) }
			})
		}
	}
	for i, p := range opposite {
		for j, text := range p {
			text := text
			add(fmt.Sprintf("op:%d:%d", i, j), func(sh *Shared) func() string {
				n := must(text)
				return func() string { return uses["eval"](n) }
			})
		}
	}
	for k, s := range news {
		s := s
		add("new:parse:"+k, func(*Shared) func() string {
			text, key := fresh(s)
			return func() string { return strings.Replace(parse(text), key, "@", -1) }
		})
		if k[0] == 'e' {
			continue
		}
		for u, f := range uses {
			f := f
			add("new:"+u+":"+k, func(sh *Shared) func() string {
				text, key := fresh(s)
				n := must(text)
				return func() string { return strings.Replace(f(n), key, "@", -1) }
			})
		}
	}
	for u, f := range uses {
		f := f
		add("shared:"+u, func(sh *Shared) func() string {
			n := shared(sh, sharedText)
			return func() string { return f(n) }
		})
		add("like:"+u, func(sh *Shared) func() string {
			n := shared(sh, likeText)
			return func() string { return f(n) }
		})
	}
	return m
}

var sys = &Scenarios{Bodies: bodies(), Run: func(bodies []func(), first, mask int, at, target []int) (int, int, int) {
	pre := make([]sched.Preempt, len(at))
	for i := range at {
		pre[i] = sched.Preempt{At: at[i], Target: target[i]}
	}
	return sched.Run(bodies, first, mask, pre)
}}

func newBodies() []string {
	var out []string
	for k := range news {
		out = append(out, "new:parse:"+k)
		if k[0] != 'e' {
			out = append(out, "new:eval:"+k)
		}
	}
	for _, u := range []string{"sql", "dot", "mongo", "ident"} {
		out = append(out, "new:"+u+":in", "new:"+u+":str")
	}
	sort.Strings(out)
	return out
}

func parses() []string {
	var out []string
	for n := range texts {
		out = append(out, "parse:"+n)
	}
	sort.Strings(out)
	return out
}

func genSchedules(c *Ctx) {
	ps := parses()
	c.Stage("2 threads, 1 preemption anywhere: every pair of parses")
	for i, a := range ps {
		for j, b := range ps[i:] {
			if c.Thorough || (i+j)%2 == 0 {
				sys.Explore(c, []string{a, b}, sched.Fine, 1)
			}
		}
	}
	c.Stage("2 threads, 1 preemption anywhere: every pair of uses of a shared tree")
	for i, a := range useNames {
		for _, b := range useNames[i:] {
			sys.Explore(c, []string{"shared:" + a, "shared:" + b}, sched.Fine, 1)
			sys.Explore(c, []string{"like:" + a, "like:" + b}, sched.Fine, 1)
		}
	}
	c.Stage("2 threads, 1 preemption anywhere: a parse and a use")
	for _, a := range []string{"parse:str", "parse:elex", "parse:arr", "parse:deep", "new:parse:str"} {
		for _, b := range useNames {
			sys.Explore(c, []string{a, "shared:" + b}, sched.Fine, 1)
		}
	}
	c.Stage("2 threads, 1 preemption anywhere: evaluations with opposite results")
	for i := range opposite {
		for _, x := range []string{"0", "1"} {
			a := fmt.Sprintf("op:%d:%s", i, x)
			sys.Explore(c, []string{a, a}, sched.Fine, 1)
			for j := range opposite[:i+1] {
				sys.Explore(c, []string{a, fmt.Sprintf("op:%d:0", j)}, sched.Fine, 1)
				sys.Explore(c, []string{a, fmt.Sprintf("op:%d:1", j)}, sched.Fine, 1)
			}
		}
	}
	c.Stage("2 threads, 1 preemption anywhere: filters never seen before")
	nb := newBodies()
	for i, a := range nb {
		for j, b := range nb[:i+1] {
			if c.Thorough || i == j || strings.Contains(a, "eval") && strings.Contains(b, "eval") {
				sys.Explore(c, []string{a, b}, sched.Fine, 1)
			}
		}
	}
	c.Stage("3 threads, 1 preemption at functions and locks")
	for _, a := range [][]string{{"parse:eq", "parse:elex", "parse:str"}, {"parse:estr", "parse:arr", "shared:ident"}, {"twice:eq", "twice:elex", "shared:eval"}, {"shared:sql", "shared:mongo", "shared:eval"}} {
		sys.Explore(c, a, sched.Coarse, 1)
	}
	c.Stage("2 threads, 2 preemptions at functions and locks")
	for _, a := range []string{"parse:eq", "parse:eend", "parse:elex", "parse:e0"} {
		for _, b := range []string{"parse:etwo", "eval:eq", "sql:eq", "mongo:eq", "ident:eq"} {
			sys.Explore(c, []string{a, b}, sched.Coarse, 2)
		}
	}
	for _, p := range [][]string{{"eval:deep", "eval:arr"}, {"sql:arr", "sql:and"}, {"dot:eq", "dot:str"}, {"mongo:arr", "mongo:btw"}, {"ident:and", "ident:arr"}} {
		sys.Explore(c, p, sched.Coarse, 2)
	}
	if c.Thorough {
		c.Stage("2 threads, 2 preemptions anywhere: short uses")
		for _, p := range [][]string{{"eval:eq", "eval:btw"}, {"sql:eq", "sql:btw"}, {"mongo:eq", "mongo:btw"}, {"ident:eq", "ident:btw"}, {"parse:eq", "eval:eq"}, {"op:0:0", "op:0:1"}, {"op:1:0", "op:1:1"}, {"op:3:0", "op:3:1"}} {
			sys.Explore(c, p, sched.Fine, 2)
		}
		c.Stage("3 threads, 2 preemptions at functions and locks")
		sys.Explore(c, []string{"eval:eq", "sql:eq", "mongo:eq"}, sched.Coarse, 2)
		sys.Explore(c, []string{"parse:eq", "parse:elex", "eval:eq"}, sched.Coarse, 2)
	}
}

func genRace(c *Ctx) {
	c.Stage("free running, race detector: every pair of parses and uses")
	names := parses()
	for u := range uses {
		names = append(names, "shared:"+u, "like:"+u)
	}
	names = append(names, newBodies()...)
	for i := range opposite {
		names = append(names, fmt.Sprintf("op:%d:0", i), fmt.Sprintf("op:%d:1", i))
	}
	names = append(names, "twice:eq")
	sort.Strings(names)
	sys.Pairs(c, names, c.D(5, 100))
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "alone" {
		for _, a := range os.Args[2 : len(os.Args)-1] {
			i, _ := strconv.Atoi(a)
			if n, err := tsl.ParseTSL(histTexts[i]); err == nil {
				all(n)
			}
		}
		i, _ := strconv.Atoi(os.Args[len(os.Args)-1])
		fmt.Print(parse(histTexts[i]) + "\x00" + allOf(histTexts[i]))
		return
	}
	Main([]*Prop{{ID: "L09", Gen: genSchedules, Check: sys.Check}, {ID: "L09R", Gen: genRace, Check: sys.CheckRace}, {ID: "L09H", Gen: genHistory, Check: checkHistory}})
}
