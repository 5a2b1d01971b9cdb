package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	. "tslverif/common"

	sq "github.com/Masterminds/squirrel"
	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
)

func init() {
	register("L04", genFilters, checkSQL)
	register("L06", genIdent, checkIdent)
	register("L07", genGraph, checkDot)
}

// literal texts of every kind and shape.
func allLiterals() []string {
	l := []string{"0", "1", "-1", "2.5", "1e300", "0.1", "9007199254740993", "123456789.25", "1e-7", "''", "'s'", "'it''s'", "'?'", "'%s'", "'a\\b'", "'1'", "'null'", "'é'", "'a\"b'", "'$ne'", "'x.y'"}
	if version == 5 {
		l = append(l, "1Ki", "2.5M", "true", "false", "2020-01-02", "2020-01-02T03:04:05Z", "2019-12-31T23:59:59.123456789+05:30", "2020-06-01T00:00:00.5-11:00")
	}
	return l
}

// genFilters makes filters with every operator, operand, nesting and size.
func genFilters(c *Ctx) {
	emit := func(s string) { c.Emit("text", s) }
	lits := allLiterals()
	c.Stage("every operator on every literal and list")
	names := []string{"a", "a.b", "Ab_9"}
	for _, l := range lits {
		for _, op := range append([]string{"is", "is not", "<>"}, cmpText...) {
			for _, n := range names {
				emit(n + " " + op + " " + l)
				emit("not " + n + " " + op + " " + l)
			}
		}
		for _, m := range lits {
			for _, f := range []string{"a in (@, #)", "a not in (@, #)", "a between @ and #", "a not between @ and #", "b.c in (#, @, #, 7)", "a = @ and b = #", "a != @ or b < #", "not (a >= @ and not b <= #)", "a between @ and # and c = @ or d not between # and @"} {
				emit(strings.NewReplacer("@", l, "#", m).Replace(f))
			}
		}
		emit("a in (" + l + ")")
		emit("a not in (" + l + ")")
	}
	for _, n := range names {
		for _, f := range []string{" is null", " is not null", " in ()", " not in ()"} {
			emit(n + f)
			emit("not " + n + f)
			emit("not (" + n + f + ") or b = 1 and not c" + f)
		}
	}
	c.Stage("every condition joined with every other in every way with up to 2 operators")
	conds := []string{"a = 1", "b != 's'", "c < 2", "d <= 3.5", "e > -1", "f >= 0", "g in (1, 's')", "h not in ('u')", "i between 1 and 2", "j not between 's' and 't'", "k is null", "l is not null", "m like 'x%'", "n ilike '_y'", "o not like 'z'", "p ~= 'r.*'", "q ~! '^r'", "s in ()", "t + 1 = 2"}
	if version == 5 {
		conds = append(conds, "u = v", "w != x * 2", "y = true", "z > 2020-01-01T00:00:00+01:00", "(u - 1) in (3)", "u < (v)")
	}
	joins(conds, []string{"and", "or"}, []string{"not"}, c.D(1, 1), true, emit)
	joins(conds, []string{"and", "or"}, nil, 2, false, emit)
	c.Stage("every expression with up to 4 operators")
	joins([]string{"a = 1", "b in (2, 3)"}, []string{"and", "or"}, []string{"not"}, 2, true, emit)
	joins([]string{"a = 1"}, []string{"and", "or"}, nil, c.D(4, 5), true, emit)
	joins([]string{"a = 1", "b < 2"}, []string{"and", "or"}, nil, 3, true, emit)
	joins([]string{"a = 1"}, []string{"and"}, []string{"not"}, 3, true, emit)
	c.Stage("arithmetic with up to 3 operators")
	ops := []string{"+", "-", "*", "/", "%"}
	// The first operand is a name.
	wrong := func(s string) bool {
		s = "( " + s
		return strings.Contains(s, "( 1") || strings.Contains(s, "( 2")
	}
	joins([]string{"a", "b.c", "1"}, ops, nil, 2, true, func(s string) {
		if wrong(s) {
			return
		}
		emit(s + " = 3")
		emit("not (" + s + ") is null")
		if version == 5 {
			emit("d >= " + s)
			emit(s + " != " + s)
		}
	})
	joins([]string{"a", "2"}, ops, nil, 3, true, func(s string) {
		if !wrong(s) {
			emit(s + " between 0 and 9")
		}
	})
	mlits := []string{"0", "-1", "1.5", "1e300", "-2.5e-9", "0.1"}
	if version == 5 {
		mlits = append(mlits, "1Ki", "true", "false", "2020-01-02", "2019-12-31T23:59:59.123456789+05:30")
	}
	for _, l := range mlits {
		for _, m := range mlits {
			for _, op := range ops {
				emit("a " + op + " " + l + " = " + m)
				emit("(a " + op + " " + l + ") * " + m + " in (" + m + ", " + l + ")")
				if version == 5 {
					emit("a = b " + op + " " + l)
					emit("c < (a " + op + " " + l + ") " + op + " " + m)
				}
			}
		}
	}
	c.Stage("lists of every length")
	for n := 0; n <= c.D(130, 300); n++ {
		num := make([]string, n)
		str := make([]string, n)
		for i := range num {
			num[i] = strconv.Itoa((i*37)%101 - 50)
			str[i] = "'k" + strconv.Itoa((i*37)%101) + "'"
		}
		emit("a in (" + strings.Join(num, ", ") + ")")
		emit("a not in (" + strings.Join(str, ", ") + ") and b = 1")
	}
	c.Stage("repetitions of one construct")
	genPumps(c)
	c.Stage("long texts")
	for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097} {
		s := strings.Repeat("abcdefghi ", n/10+1)[:n]
		w := strings.Replace(s, " ", "_", -1)
		for _, f := range []string{"a = '@'", "a like '@%'", "a = 1 and b in ('@', '@')", "# = 1", "# is null and # in ('@') or not #.# = 's'"} {
			emit(strings.NewReplacer("@", s, "#", w).Replace(f))
		}
	}
	if c.Thorough {
		c.Stage("every three conditions, with a NOT anywhere")
		joins(conds, []string{"and", "or"}, []string{"not"}, 1, true, func(s string) {
			for _, d := range conds {
				emit(s + " or " + d)
				emit("not (" + d + " and " + s + ")")
			}
		})
	}
}

func unchanged(p *loaded) *Failure {
	if s := fromImpl(p.node).String(); s != p.canon {
		last = nil
		return failf("v%d: the tree changed\nfilter: %s\nbefore: %s\nafter:  %s", version, q(p.text), q(p.canon), q(s))
	}
	return nil
}

// ---- SQL

var sqlNames = map[string]string{"$and": "AND", "$or": "OR", "$eq": "EQ", "$ne": "NE", "$lt": "LT", "$lte": "LE", "$gt": "GT", "$gte": "GE", "$like": "LIKE", "$ilike": "ILIKE", "$in": "IN", "$between": "BETWEEN",
	"$add": "ADD", "$subtract": "SUB", "$multiply": "MUL", "$divide": "DIV", "$modulo": "MOD"}

// sqlTree is the tree that the condition must denote.
func sqlTree(t *T) *T {
	switch t.K {
	case "BOOLEAN":
		if t.B {
			return Num(1)
		}
		return Num(0)
	case "UN":
		x := sqlTree(t.C[0])
		switch t.Op {
		case "$not":
			return Un("NOT", x)
		case "$exists":
			return Un("NOT", Bin("IS", x, Null()))
		}
		return Bin("IS", x, Null())
	case "BIN":
		switch t.Op {
		case "$in", "$nin":
			if len(t.C[1].C) == 0 {
				if t.Op == "$in" {
					return &T{K: "FALSE"}
				}
				return Un("NOT", &T{K: "FALSE"})
			}
		}
		l, r := sqlTree(t.C[0]), sqlTree(t.C[1])
		switch t.Op {
		case "$nin":
			return Un("NOT", Bin("IN", l, r))
		case "$nbetween":
			return Un("NOT", Bin("BETWEEN", l, r))
		}
		return Bin(sqlNames[t.Op], l, r)
	case "ARRAY":
		a := Arr()
		for _, x := range t.C {
			a.C = append(a.C, sqlTree(x))
		}
		return a
	}
	return t
}

// sqlArg is the leaf of an argument; a text that is a timestamp may be one.
func sqlArg(v interface{}) *T {
	switch x := v.(type) {
	case string:
		return Str(x)
	case float64:
		return Num(x)
	case int:
		return Num(float64(x))
	case time.Time:
		return Date5(x)
	}
	return &T{K: fmt.Sprintf("ARG-%T", v)}
}

// fixSQL folds constants, and negated numbers.
func fixSQL(t *T) *T {
	u := *t
	u.C = make([]*T, len(t.C))
	for i, c := range t.C {
		u.C[i] = fixSQL(c)
	}
	if u.K == "BIN" && u.Op == "EQ" && u.C[0].K == "TEXTNUM" && u.C[1].K == "TEXTNUM" {
		if u.C[0].N != u.C[1].N {
			return &T{K: "FALSE"}
		}
		return Un("NOT", &T{K: "FALSE"})
	}
	if u.K == "UN" && u.Op == "NEG" && u.C[0].K == "TEXTNUM" {
		return &T{K: "TEXTNUM", N: -u.C[0].N}
	}
	return &u
}

func mathName(op string) bool {
	switch op {
	case "ADD", "SUB", "MUL", "DIV", "MOD":
		return true
	}
	return false
}

// sameSQL compares the expression of a condition with the one wanted. Literals are in the text only inside
// arithmetic.
func sameSQL(got, want *T, math bool) bool {
	switch want.K {
	case "NUMBER":
		if got.K == "TEXTNUM" && math || got.K == "NUMBER" {
			return CanonNum(got.N) == CanonNum(want.N)
		}
		return false
	case "TIMESTAMP":
		if got.K == "TEXTSTR" && math || got.K == "STRING" || got.K == "TIMESTAMP" {
			x, err := time.Parse(time.RFC3339Nano, got.S)
			y, _ := time.Parse(time.RFC3339Nano, want.S)
			return err == nil && x.Equal(y)
		}
		return false
	}
	if got.K != want.K || got.Op != want.Op || got.S != want.S || len(got.C) != len(want.C) {
		return false
	}
	for i := range got.C {
		if !sameSQL(got.C[i], want.C[i], mathName(want.Op)) {
			return false
		}
	}
	return true
}

func plainNames(t *T) bool {
	ok := true
	t.Walk(func(n *T) {
		if n.K == "IDENTIFIER" {
			toks, err := LexSQL(n.S)
			ok = ok && err == nil && len(toks) == 1 && toks[0].K == "id"
			for i := 0; i < len(n.S); i++ {
				c := n.S[i]
				ok = ok && (c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '.')
			}
		}
	})
	return ok
}

func has(t *T, ops ...string) bool {
	found := false
	t.Walk(func(n *T) {
		for _, op := range ops {
			found = found || n.Op == op
		}
	})
	return found
}

func checkSQL(c *Ctx, cs Case) *Failure {
	p := load(expand(cs))
	if !p.ok || !plainNames(p.model) {
		c.Outcome("not in the language")
		return nil
	}
	f, err := sql.Walk(p.node)
	var s string
	var args []interface{}
	if err == nil {
		s, args, err = f.ToSql()
	}
	c.Trace()
	c.Trans(p.model.Size())
	if bad := unchanged(p); bad != nil {
		return bad
	}
	if has(p.model, "$regex", "$nregex") {
		c.Outcome("no SQL form")
		c.State("error " + p.canon)
		if err == nil {
			return failf("v%d: converted, but it has no SQL form\nfilter: %s\nsql: %s\nargs: %v", version, q(p.text), q(s), args)
		}
		return nil
	}
	if err != nil {
		return failf("v%d: error %v\nfilter: %s", version, err, q(p.text))
	}
	got, err := ParseSQL(s, args, sqlArg, func(t SQLTok) *T {
		if t.K == "num" {
			x, err := strconv.ParseFloat(t.S, 64)
			if err != nil {
				return nil
			}
			return &T{K: "TEXTNUM", N: x}
		}
		return &T{K: "TEXTSTR", S: t.S}
	})
	if err != nil {
		return failf("v%d: the condition is not SQL: %v\nfilter: %s\nsql: %s\nargs: %v", version, err, q(p.text), q(s), args)
	}
	g, w := NormSQL(fixSQL(got)), NormSQL(sqlTree(p.model))
	if !sameSQL(g, w, false) {
		return failf("v%d: the condition means another expression\nfilter: %s\nsql: %s\nargs: %#v\nmeans: %s\nwant:  %s", version, q(p.text), q(s), args, g.String(), w.String())
	}
	c.State(s)
	c.Outcome("converted " + p.model.Op)
	s2, args2, err := sq.Select("*").From("t").Where(f).PlaceholderFormat(sq.Dollar).ToSql()
	if err != nil || len(args2) != len(args) || !strings.HasPrefix(s2, "SELECT * FROM t WHERE ") || strings.Count(s2, "$") != len(args) {
		return failf("v%d: in a query: %v, %d arguments\nfilter: %s\nsql: %s", version, err, len(args2), q(p.text), q(s2))
	}
	return nil
}

// ---- identifiers

// rename makes the function of a mapping, and the tree it must give.
func rename(t *T, f func(string) (string, bool)) (*T, bool) {
	if t.K == "IDENTIFIER" {
		s, ok := f(t.S)
		return Id(s), ok
	}
	u := *t
	u.C = make([]*T, len(t.C))
	all := true
	for i, c := range t.C {
		var ok bool
		u.C[i], ok = rename(c, f)
		all = all && ok
	}
	return &u, all
}

var mappings = map[string]func(s string) string{
	"keep":   func(s string) string { return s },
	"upper":  strings.ToUpper,
	"prefix": func(s string) string { return "t." + s },
	"twice":  func(s string) string { return s + s },
	"one":    func(s string) string { return "z" },
	"swap": func(s string) string {
		switch s {
		case "a":
			return "b"
		case "b":
			return "a"
		}
		return s
	},
	"odd": func(s string) string { return "'" + s + "' or 1 = 1 --" },
	"":    func(s string) string { return "" },
}

// Args: filter, mapping, number of the call that fails (-1: none, -2: all).
func checkIdent(c *Ctx, cs Case) *Failure {
	text := cs.Args[0]
	p := load(text)
	if !p.ok {
		c.Outcome("not in the language")
		return nil
	}
	m := mappings[cs.Args[1]]
	fails, _ := strconv.Atoi(cs.Args[2])
	refused := fmt.Errorf("refused %s", text)
	var calls []string
	inner := ""
	got, err := ident.Walk(p.node, func(s string) (string, error) {
		calls = append(calls, s)
		if cs.Kind == "reenter" && len(calls) <= 2 {
			// A function that uses the library itself, also on the same tree.
			x, e := ident.Walk(p.node, func(s string) (string, error) { return m(s), nil })
			if w, _ := rename(p.model, func(s string) (string, bool) { return m(s), true }); e != nil || fromImpl(x).String() != w.String() {
				inner = "another tree"
				if e != nil {
					inner = e.Error()
				}
			}
			if y, e := tsl.ParseTSL("not " + s + " in (1, 2) or " + s + " like 'x'"); e == nil {
				ident.Walk(y, func(s string) (string, error) { return "n" + s, refused })
				sql.Walk(y)
			}
			ident.Walk(p.node, func(s string) (string, error) { return "n" + s, nil })
		}
		if fails == -2 || fails == len(calls)-1 {
			return "bad", refused
		}
		return m(s), nil
	})
	c.Trace()
	c.Trans(len(calls))
	if bad := unchanged(p); bad != nil {
		return bad
	}
	if inner != "" {
		return failf("v%d: while the names are mapped, mapping them gives %s\nfilter: %s", version, inner, q(text))
	}
	var names []string
	p.model.Walk(func(t *T) {
		if t.K == "IDENTIFIER" {
			names = append(names, t.S)
		}
	})
	if fails == -2 && len(names) > 0 || fails >= 0 && fails < len(names) {
		c.Outcome("refused")
		c.State("refused " + cs.Args[2] + p.canon)
		if err == nil {
			return failf("v%d: a name was refused, and there is no error\nfilter: %s", version, q(text))
		}
		if !errors.Is(err, refused) && !strings.Contains(err.Error(), refused.Error()) {
			return failf("v%d: the error is %v, want %v\nfilter: %s", version, err, refused, q(text))
		}
		return nil
	}
	if err != nil {
		return failf("v%d: error %v\nfilter: %s", version, err, q(text))
	}
	want, _ := rename(p.model, func(s string) (string, bool) { return m(s), true })
	w := want.String()
	if g := fromImpl(got).String(); g != w {
		return failf("v%d: another tree\nfilter: %s\nmapping: %s\ngot:  %s\nwant: %s", version, q(text), cs.Args[1], q(g), q(w))
	}
	a := append([]string{}, calls...)
	sort.Strings(a)
	sort.Strings(names)
	if strings.Join(a, "\n") != strings.Join(names, "\n") {
		return failf("v%d: the function is called for %q, the names are %q\nfilter: %s", version, calls, names, q(text))
	}
	c.Outcome("mapping " + cs.Args[1])
	c.State(w)
	return nil
}

// collect runs a generator of filters and keeps those of this worker.
func genIdent(c *Ctx) {
	genWith(c, func(s string) {
		for _, m := range mapNames {
			c.Do(Case{map[bool]string{true: "reenter", false: "ident"}[m == "upper"], []string{s, m, "-1"}})
		}
		for k := -2; k < 5; k++ {
			if k != -1 {
				c.Do(Case{"ident", []string{s, "prefix", strconv.Itoa(k)}})
			}
		}
	})
	c.Stage("every call refused in long filters")
	n := c.D(20, 60)
	for i := 0; i <= n; i++ {
		for k := 0; k <= i; k++ {
			var b strings.Builder
			for j := 0; j <= i; j++ {
				if j > 0 {
					b.WriteString([]string{" and ", " or "}[j%2])
				}
				b.WriteString("a" + strconv.Itoa(j) + " = 1")
			}
			c.Emit("ident", b.String(), "upper", strconv.Itoa(k))
		}
	}
}

var mapNames = []string{"keep", "upper", "prefix", "twice", "one", "swap", "odd", ""}

// genWith gives the filters of genFilters to f.
func genWith(c *Ctx, f func(s string)) {
	c.Map = func(cs Case) { f(expand(cs)) }
	genFilters(c)
	c.Map = nil
}

// ---- graphs

func labelOK(t *T, label string) bool {
	switch t.K {
	case "BIN", "UN":
		return label == t.Op
	case "ARRAY":
		return label == "$array"
	}
	f := strings.SplitN(label, "\x01", 2)
	kind := map[string]string{"IDENTIFIER": "$ident", "STRING": "$string", "NUMBER": "$number", "BOOLEAN": "$boolean", "TIMESTAMP": "$date"}[t.K]
	if len(f) != 2 || strings.TrimSpace(f[0]) != kind {
		return false
	}
	v := strings.TrimPrefix(f[1], " ")
	switch t.K {
	case "STRING", "IDENTIFIER":
		return v == "'"+t.S+"'"
	case "NUMBER":
		x, err := strconv.ParseFloat(v, 64)
		return err == nil && CanonNum(x) == CanonNum(t.N)
	case "BOOLEAN":
		return v == strconv.FormatBool(t.B)
	}
	w, _ := time.Parse(time.RFC3339Nano, t.S)
	for _, l := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999 -0700 MST", "2006-01-02 15:04:05.999999999 -0700 -0700"} {
		if d, err := time.Parse(l, v); err == nil && d.Equal(w) {
			return true
		}
	}
	return false
}

// sameGraph compares the graph below a node with a tree. Every node is reached once.
func sameGraph(nodes map[string]*DotNode, id string, t *T, seen map[string]bool) *Failure {
	n := nodes[id]
	if n == nil || n.Declared != 1 {
		return failf("node %s is declared %d times", id, map[bool]int{true: 0}[n == nil])
	}
	if seen[id] {
		return failf("node %s has two parents", id)
	}
	seen[id] = true
	if !labelOK(t, n.Label) {
		return failf("label %q for %s", n.Label, t.String())
	}
	if len(n.Children) != len(t.C) {
		return failf("%d edges for %d children of %s", len(n.Children), len(t.C), t.String())
	}
	for i, c := range t.C {
		if f := sameGraph(nodes, n.Children[i], c, seen); f != nil {
			return f
		}
	}
	return nil
}

// Args: filter, root name ("" for none), text before.
func checkDot(c *Ctx, cs Case) *Failure {
	text, root, in := cs.Args[0], cs.Args[1], cs.Args[2]
	p := load(text)
	if !p.ok {
		c.Outcome("not in the language")
		return nil
	}
	rand.Seed(int64(len(text)))
	out, err := graphviz.Walk(in, p.node, root)
	c.Trace()
	c.Trans(p.model.Size())
	if bad := unchanged(p); bad != nil {
		return bad
	}
	where := "\nfilter: " + q(text) + "\nout: " + q(out)
	if err != nil {
		return failf("v%d: error %v%s", version, err, where)
	}
	nodes, err := ParseDot("digraph {\n" + out + "\n}\n")
	if err != nil {
		return failf("v%d: not DOT: %v%s", version, err, where)
	}
	if in != "" {
		if !strings.HasPrefix(out, in) {
			return failf("v%d: the text before is lost%s", version, where)
		}
		if n := nodes["before"]; n == nil || n.Declared != 1 || n.Label != "x" {
			return failf("v%d: the node before is not there once%s", version, where)
		}
		delete(nodes, "before")
	}
	if len(nodes) != p.model.Size() {
		return failf("v%d: %d nodes for %d%s", version, len(nodes), p.model.Size(), where)
	}
	top := root
	if top == "" {
		to := map[string]bool{}
		for _, n := range nodes {
			for _, x := range n.Children {
				to[x] = true
			}
		}
		for id := range nodes {
			if !to[id] {
				top = id
			}
		}
	}
	if f := sameGraph(nodes, top, p.model, map[string]bool{}); f != nil {
		return failf("v%d: %s%s", version, f.Msg, where)
	}
	c.State(p.canon)
	c.Outcome("graph " + p.model.Op)
	return nil
}

func genGraph(c *Ctx) {
	genWith(c, func(s string) { c.Do(Case{"dot", []string{s, "", ""}}) })
	c.Stage("names and text given by the caller")
	for _, s := range []string{"a = 1", "a = 1 and b in ('s', 2) or not c is null", "a + 1 = 2", "a in ()"} {
		for _, root := range []string{"", "root", "XVlBzgbaiCMRAjWw"} {
			for _, in := range []string{"", "before [label=\"x\"]", "before [shape=record label=\"x\"]\n"} {
				c.Emit("dot", s, root, in)
			}
		}
	}
	c.Stage("every string and name of up to 3 special characters")
	Strings(c, "a'\"\\|{}<> \n[]&;%é", 3, func(s string) {
		c.Emit("dot", "a = '"+strings.Replace(s, "'", "''", -1)+"'", "", "")
		if version == 5 && s != "" {
			c.Emit("dot", "\""+s+"\" = 1", "", "")
		}
	})
}
