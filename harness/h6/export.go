package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"gopkg.in/yaml.v3"
)

func init() {
	register("T08", genT08, checkExport)
	register("G01", genG01, checkDot)
	register("I01", genI01, checkIdentAny)
}

// fromData reads the tree of a decoded export. Keys that do not belong there are errors.
func fromData(v interface{}) (*T, error) {
	m, ok := v.(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("%T instead of a node", v)
	}
	allow := func(keys ...string) error {
		for k, v := range m {
			found := false
			for _, a := range keys {
				found = found || a == k
			}
			if !found && v != nil {
				return fmt.Errorf("a %q in a %v", k, m["type"])
			}
		}
		return nil
	}
	kind, _ := m["type"].(string)
	switch kind {
	case "BINARY_EXP", "UNARY_EXP":
		if err := allow("type", "operator", "left", "right"); err != nil {
			return nil, err
		}
		op, _ := m["operator"].(string)
		r, err := fromData(m["right"])
		if err != nil {
			return nil, err
		}
		if kind == "UNARY_EXP" {
			if m["left"] != nil {
				return nil, fmt.Errorf("left of a prefix operator")
			}
			return Un(op, r), nil
		}
		l, err := fromData(m["left"])
		if err != nil {
			return nil, err
		}
		return Bin(op, l, r), nil
	case "ARRAY":
		if err := allow("type", "values"); err != nil {
			return nil, err
		}
		list, ok := m["values"].([]interface{})
		if !ok {
			return nil, fmt.Errorf("values is a %T", m["values"])
		}
		a := Arr()
		for _, e := range list {
			t, err := fromData(e)
			if err != nil {
				return nil, err
			}
			a.C = append(a.C, t)
		}
		return a, nil
	}
	if err := allow("type", "value"); err != nil {
		return nil, err
	}
	val := m["value"]
	switch kind {
	case "NUMBER":
		switch x := val.(type) {
		case json.Number:
			f, err := strconv.ParseFloat(string(x), 64)
			return Num(f), err
		case float64:
			return Num(x), nil
		case int:
			return Num(float64(x)), nil
		case int64:
			return Num(float64(x)), nil
		case uint64:
			return Num(float64(x)), nil
		}
	case "STRING", "IDENTIFIER":
		if s, ok := val.(string); ok {
			return &T{K: kind, S: s}, nil
		}
	case "BOOLEAN":
		if b, ok := val.(bool); ok {
			return Bool(b), nil
		}
	case "NULL":
		return Null(), nil
	case "DATE":
		if s, ok := val.(string); ok {
			return Date(s), nil
		}
	case "TIMESTAMP":
		if s, ok := val.(string); ok {
			return Stamp(s), nil
		}
		if t, ok := val.(time.Time); ok {
			return Stamp(t.Format(time.RFC3339Nano)), nil
		}
	}
	return nil, fmt.Errorf("a %s with the value %T %v", kind, val, val)
}

// validStamps tells if the timestamps of a tree are in the range of the exports, and the numbers finite.
func exportable(t *T) bool {
	ok := true
	t.Walk(func(n *T) {
		if n.K == "NUMBER" && (math.IsInf(n.N, 0) || math.IsNaN(n.N)) {
			ok = false
		}
		if n.K == "TIMESTAMP" {
			// time.Time refuses zones of 24 hours and more.
			if d, err := time.Parse(time.RFC3339, n.S); err == nil {
				if _, err := d.MarshalJSON(); err != nil {
					ok = false
				}
			}
		}
	})
	return ok
}

// oneZero drops the sign of zeros: -0 is the integer 0 to a reader of YAML.
func oneZero(t *T) *T {
	t = t.Copy()
	t.Walk(func(n *T) {
		if n.K == "NUMBER" && n.N == 0 {
			n.N = 0
		}
	})
	return t
}

func checkExport(c *Ctx, cs Case) *Failure {
	p := load(expand(cs))
	if !p.ok || !exportable(p.model) {
		c.Outcome("not in the language")
		return nil
	}
	if p.err != nil {
		return failf("the filter is rejected: %s: %v", q(p.text), p.err)
	}
	c.Trans(p.model.Size())
	c.State(p.canon)
	c.Trace()
	want := oneZero(p.model).String()
	b, err := json.Marshal(p.node)
	if err != nil {
		return failf("no JSON: %v\nfilter: %s", err, q(p.text))
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return failf("the JSON is not valid: %v\nfilter: %s\njson: %s", err, q(p.text), q(string(b)))
	}
	if _, err := d.Token(); err != io.EOF {
		return failf("more than one JSON document\nfilter: %s\njson: %s", q(p.text), q(string(b)))
	}
	t, err := fromData(v)
	if err != nil {
		return failf("the JSON is not of the tree: %v\nfilter: %s\njson: %s", err, q(p.text), q(string(b)))
	}
	if g := oneZero(t).String(); g != want {
		return failf("the JSON is of another tree\nfilter: %s\ngot:  %s\nwant: %s\njson: %s", q(p.text), q(g), q(want), q(string(b)))
	}
	c.Outcome("JSON " + p.model.K)
	// Indented, as the tools do, it decodes to the same.
	if cs.Kind == "json" {
		return nil
	}
	c.Trace()
	y, err := yaml.Marshal(p.node)
	if err != nil {
		return failf("no YAML: %v\nfilter: %s", err, q(p.text))
	}
	var w interface{}
	if err := yaml.Unmarshal(y, &w); err != nil {
		return failf("the YAML is not valid: %v\nfilter: %s\nyaml: %s", err, q(p.text), q(string(y)))
	}
	t, err = fromData(w)
	if err != nil {
		return failf("the YAML is not of the tree: %v\nfilter: %s\nyaml: %s", err, q(p.text), q(string(y)))
	}
	if g := oneZero(t).String(); g != want {
		return failf("the YAML is of another tree\nfilter: %s\ngot:  %s\nwant: %s\nyaml: %s", q(p.text), q(g), q(want), q(string(y)))
	}
	c.Outcome("YAML " + p.model.K)
	return nil
}

var textAlphabet = "a'\"\\\n\t<>&{}|:#- ,[]%@`!*?0é\u2028\u0085"

func genT08(c *Ctx) {
	c.Stage("every tree with up to 2 operators")
	EnumTrees(c, Space{N: 2, Leaves: []*T{Id("a"), Num(1), Str("s")}, Bin: AllBin6, Un: AllUn6, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("text", Text6(t, false))
	})
	c.Stage("every operator on subtrees of every form")
	GenRich6(c, c.D(14, 35), func(t *T) { c.Emit("text", Text6(t, false)) })
	c.Stage("every string of 2 special characters")
	Strings(c, textAlphabet, 2, func(s string) {
		c.Emit("text", Quote6(s))
		c.Emit("text", "a = "+Quote6("x"+s))
	})
	c.Stage("strings that YAML or JSON could take for something else")
	for _, s := range []string{"", " ", "  a", "a ", "true", "false", "null", "~", "yes", "no", "on", "off", "NULL", "1", "-1", "1.5", "1e3", "0x10", "0o7", "010", ".5", ".inf", ".nan", "1_000", "2020-01-02", "2020-01-02T03:04:05Z", "2020-1-2", "2020-01-02 03:04:05", "- a", "? a", ": a", "a: b", "# a", "a #b",
		"&a", "*a", "!a", "!!str a", "|", ">", "%a", "@a", "`a", "{}", "[]", "a\nb", "\na", "a\n", "a\n\nb", "\ta", "---", "...", "a\rb", "\r\n", "\x01", "\x07", "\x1f", "\x7f", "\u0080", "\u00a0", "\ufeff", "\ufffd", "\u2029", "😀", "<<", "=", "12:30:45", "1:1", "\\", "\\n", "\"", "'", "''", "a'b", "\u200b", "é", "<script>", "&amp;", strings.Repeat("x", 200), strings.Repeat("x ", 200), strings.Repeat("a\n", 50), "\n" + strings.Repeat("word  x ", 60) + "\n\n", strings.Repeat("\n ", 70)} {
		c.Emit("text", Quote6(s))
		c.Emit("text", "a in ["+Quote6(s)+", 1]")
		c.Emit("text", "not "+Quote6(s)+" like "+Quote6(s))
	}
	c.Stage("names, numbers, dates and timestamps")
	for _, s := range []string{"a", "true1", "yes", "no", "n", "y", "on", "a.b", "a/b", "a[0]", "a[*].b", "_", "e1", "x1e3", "nan", "inf", "Inf", "NaN"} {
		c.Emit("text", s+" = 1")
	}
	for _, m := range []string{"0", "1", "-1", "0.1", "1.5", "9007199254740991", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1e15", "1e16", "1e20", "1e21", "1e22", "123456789012345678901234567890", "1e-5", "1e-6", "1e-7", "1e300", "1e-300", "5e-324", "1.7976931348623157e308", "0.30000000000000004", "1k", "1Ki", "1P", "1Pi", "2.5Mi", "1000000", "123456.789", "33554432.1"} {
		for _, sg := range []string{"", "-"} {
			c.Emit("text", sg+m)
			c.Emit("text", "["+sg+m+", a]")
		}
	}
	for e := -320; e <= 308; e++ {
		c.Emit("text", "1.2345678901234567e"+strconv.Itoa(e))
		c.Emit("text", "1e"+strconv.Itoa(e))
	}
	for i := -300; i <= 300; i++ {
		c.Emit("text", strconv.Itoa(i))
		c.Emit("text", strconv.FormatFloat(float64(i)/8, 'f', -1, 64))
	}
	for h := 0; h < 25; h++ {
		for _, d := range []string{"2020-01-01", "0001-01-01", "9999-12-31", "2021-02-29"} {
			c.Emit("text", d)
			for _, z := range []string{"Z", "+00:00", "-00:00", "+01:00", "-23:59", "+05:45"} {
				for _, fr := range []string{"", ".0", ".5", ".123", ".000001", ".999999999", ".1234567891"} {
					c.Emit("text", fmt.Sprintf("%sT%02d:59:59%s%s", d, h, fr, z))
					c.Emit("text", fmt.Sprintf("a > '%sT%02d:59:59%s%s'", d, h, fr, z))
				}
			}
		}
	}
	c.Stage("wide and deep trees")
	for n := 0; n <= c.D(60, 200); n++ {
		for _, p := range pumpTrees {
			c.Emit("pump", append([]string{strconv.Itoa(n)}, p...)...)
		}
	}
	c.Stage("long texts")
	GenLong6(c)
	GenWide6(c)
	c.Stage("every tree with 3 operators, one operator per class")
	EnumTrees(c, Space{N: 3, Leaves: []*T{Id("a"), Null2()}, Bin: []string{"AND", "EQ", "IN"}, Un: []string{"NOT", "SUM"}, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("text", Text6(t, false))
	})
	if c.Thorough {
		c.Stage("every string of 3 special characters")
		Strings(c, textAlphabet, 3, func(s string) { c.Emit("text", Quote6(s)) })
	}
}

// Null2 is a second leaf.
func Null2() *T { return Bool(false) }

var pumpTrees = [][]string{{"a in [1", ", 'x'", "", "", "]"}, {"", "a = 1 and ", "b", "", ""}, {"", "not ", "a", "", ""}, {"", "(a - ", "1", ")", " = 2"}, {"", "[", "", "]", ""}, {"", "[1, ", "2", "]", ""}, {"'", "x", "'", "", ""}, {"", "- ", "a", "", ""},
	{"a", ".b", "", "", " is not null"}, {"", "a or not (b and ", "c", ")", ""}, {"", "a between 1 and ", "2", "", ""}, {"", "len [a, ", "true", "]", ""}}

// ---- graphs

func isOpNode(t *T) bool { return t.K == "BIN" || t.K == "UN" || t.K == "ARRAY" }

// labelOK tells if a label describes a node.
func labelOK(t *T, label string) bool {
	switch t.K {
	case "BIN", "UN":
		return label == t.Op
	case "ARRAY":
		return label == "ARRAY"
	}
	f := strings.SplitN(label, "\x01", 2)
	if len(f) != 2 || strings.TrimSpace(f[0]) != t.K {
		return false
	}
	// One space around the separator is layout.
	v := strings.TrimPrefix(f[1], " ")
	switch t.K {
	case "STRING", "IDENTIFIER":
		return v == "'"+t.S+"'"
	case "NUMBER":
		x, err := strconv.ParseFloat(v, 64)
		return err == nil && CanonNum(x) == CanonNum(t.N)
	case "BOOLEAN":
		return v == strconv.FormatBool(t.B)
	case "NULL":
		return strings.EqualFold(v, "null")
	case "DATE":
		return v == t.S
	case "TIMESTAMP":
		if CanonStamp(v) == CanonStamp(t.S) {
			return true
		}
		for _, l := range []string{"2006-01-02 15:04:05.999999999 -0700 MST", "2006-01-02 15:04:05.999999999 -0700 -0700", "2006-01-02 15:04:05.999999999 -0700"} {
			if d, err := time.Parse(l, v); err == nil {
				w, err := time.Parse(time.RFC3339, t.S)
				return err == nil && w.Equal(d)
			}
		}
	}
	return false
}

func checkDotTree(t *T, nodes map[string]*DotNode, root string) error {
	seen := map[string]bool{}
	var walk func(t *T, id string) error
	walk = func(t *T, id string) error {
		n := nodes[id]
		if n == nil {
			return fmt.Errorf("no node %s for %s", id, t.String())
		}
		if seen[id] {
			return fmt.Errorf("node %s for two nodes of the tree", id)
		}
		seen[id] = true
		if n.Declared != 1 {
			return fmt.Errorf("node %s is declared %d times", id, n.Declared)
		}
		if !labelOK(t, n.Label) {
			return fmt.Errorf("label %q for %s", n.Label, t.String())
		}
		if len(n.Children) != len(t.C) {
			return fmt.Errorf("%d edges for the %d children of %s", len(n.Children), len(t.C), t.String())
		}
		for i, c := range t.C {
			if err := walk(c, n.Children[i]); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(t, root); err != nil {
		return err
	}
	if len(seen) != len(nodes) {
		return fmt.Errorf("%d nodes for a tree of %d", len(nodes), len(seen))
	}
	return nil
}

func rootOf(nodes map[string]*DotNode) (string, error) {
	to := map[string]bool{}
	for _, n := range nodes {
		for _, k := range n.Children {
			to[k] = true
		}
	}
	var roots []string
	for id := range nodes {
		if !to[id] {
			roots = append(roots, id)
		}
	}
	if len(roots) != 1 {
		sort.Strings(roots)
		return "", fmt.Errorf("roots %v", roots)
	}
	return roots[0], nil
}

// checkDot: cases text and pump, with the root named and not named, and with a text before.
func checkDot(c *Ctx, cs Case) *Failure {
	p := load(expand(cs))
	if !p.ok {
		c.Outcome("not in the language")
		return nil
	}
	if p.err != nil {
		return failf("the filter is rejected: %s: %v", q(p.text), p.err)
	}
	c.State(p.canon)
	type variant struct{ in, root string }
	vs := []variant{{"", "root"}, {"", ""}, {"first [shape=box label=\"x\"]", "top"}}
	if len(p.text) > 400 {
		vs = vs[:1]
	}
	for _, v := range vs {
		s, err := graphviz.Walk(v.in, p.node, v.root)
		c.Trace()
		c.Trans(p.model.Size())
		if err != nil {
			return failf("error %v\nfilter: %s", err, q(p.text))
		}
		nodes, err := ParseDot("digraph {\n" + s + "\n}\n")
		if err != nil {
			return failf("not DOT: %v\nfilter: %s\ndot: %s", err, q(p.text), q(s))
		}
		if v.in != "" {
			if n := nodes["first"]; n == nil || n.Label != "x" || n.Declared != 1 || len(n.Children) != 0 {
				return failf("the given text is not kept\nfilter: %s\ndot: %s", q(p.text), q(s))
			}
			delete(nodes, "first")
		}
		root := v.root
		if root == "" {
			if root, err = rootOf(nodes); err != nil {
				return failf("%v\nfilter: %s\ndot: %s", err, q(p.text), q(s))
			}
		}
		if err := checkDotTree(p.model, nodes, root); err != nil {
			return failf("%v\nfilter: %s\ndot: %s", err, q(p.text), q(s))
		}
		c.Outcome("graph of " + p.model.K)
	}
	return nil
}

func genG01(c *Ctx) {
	c.Stage("every tree with up to 2 operators")
	EnumTrees(c, Space{N: 2, Leaves: []*T{Id("a"), Num(1), Str("s")}, Bin: AllBin6, Un: AllUn6, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("text", Text6(t, false))
	})
	c.Stage("every operator on subtrees of every form")
	GenRich6(c, c.D(12, 35), func(t *T) { c.Emit("text", Text6(t, false)) })
	c.Stage("every string of up to 2 characters that mean something in DOT")
	Strings(c, "\"\\{}|<>[]nlrNG;,=->&#%'/*\n\t\r 1a:é", 2, func(s string) {
		c.Emit("text", Quote6(s))
		c.Emit("text", "a in [x, "+Quote6("a"+s)+", 1]")
	})
	c.Stage("every literal")
	for _, s := range []string{"a", "a.b", "a/b", "a[0]", "a[*].b", "node", "edge", "graph", "0", "1.5", "-1", "1e300", "5e-324", "9007199254740993", "123456789", "0.1", "1Ki", "true", "false", "2020-01-02", "2020-13-01", "2020-01-02T03:04:05Z",
		"2020-01-02T03:04:05.123456789Z", "'2020-01-02T03:04:05+05:45'", "2020-01-02T03:04:05.1-11:00", "2020-01-02T30:04:05Z", "''", "' '", "'%s'", "'%!d'", "'%'", "'" + strings.Repeat("x", 300) + "'", "[]", "[[]]", "[[], [1]]", "' '", "'a  b'"} {
		for _, f := range []string{"@", "@ = @", "[@, 1, @]", "a in [@]", "not @", "@ between @ and @", "@ is null"} {
			c.Emit("text", strings.Replace(f, "@", s, -1))
		}
	}
	c.Stage("wide and deep trees")
	for n := 0; n <= c.D(50, 150); n++ {
		for _, p := range pumpTrees {
			c.Emit("pump", append([]string{strconv.Itoa(n)}, p...)...)
		}
	}
	c.Stage("long texts")
	GenLong6(c)
	GenWide6(c)
	c.Stage("every tree with 3 operators, one operator per class")
	EnumTrees(c, Space{N: 3, Leaves: []*T{Id("a"), Str("|")}, Bin: []string{"AND", "EQ"}, Un: []string{"NOT"}, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("text", Text6(t, false))
	})
}

// ---- identifiers

// The texts a mapping can give for an identifier, "!" is an error.
var targets = []string{"x", "a", "b", "x.y", "n.m[0]", "1", "'s'", "x = 1", "not x", "[x, 1]", "a + b", "2020-01-02", "!", "", "x y", "'", "x =", "_z"}

// substitute is the tree with every identifier replaced. It returns the name that fails, if one does.
func substitute(t *T, m map[string]string, asked map[string]int) (*T, bool) {
	if t.K == "IDENTIFIER" {
		asked[t.S]++
		to, ok := m[t.S]
		if !ok {
			return t.Copy(), true
		}
		if to == "!" {
			return nil, false
		}
		r, _, ok := Parse6(to)
		return r, ok
	}
	u := *t
	u.C = make([]*T, len(t.C))
	good := true
	for i, c := range t.C {
		s, ok := substitute(c, m, asked)
		good = good && ok
		u.C[i] = s
	}
	return &u, good
}

func checkIdentAny(c *Ctx, cs Case) *Failure {
	if collected(&cs) {
		defer func() { collectEach = false }()
	}
	if cs.Kind == "each" {
		return checkIdentEach(c, cs)
	}
	return checkIdent(c, cs)
}

// checkIdentEach: args filter, then the texts the function returns, one after the other. It gives another answer
// at each call, also for the same name, and uses the library itself.
func checkIdentEach(c *Ctx, cs Case) *Failure {
	in, texts := cs.Args[0], cs.Args[1:]
	model, _, ok := Parse6(in)
	if !ok {
		return nil
	}
	node, err := tsl.ParseTSL(in)
	if err != nil {
		return failf("the filter is rejected: %s: %v", q(in), err)
	}
	defer func() { node.Free() }()
	where := fmt.Sprintf("filter: %s\nanswers: %q", q(in), texts)
	boom := fmt.Errorf("unknown name")
	given := map[string][]string{}
	good, k := true, 0
	got, err := ident.Walk(node, func(s string) (string, error) {
		collect()
		to := texts[k%len(texts)]
		k++
		// The library is used inside of the function.
		if x, err := tsl.ParseTSL("not " + s); err == nil {
			if y, err := ident.Walk(x, func(string) (string, error) { return to, nil }); err == nil {
				y.Free()
			}
			semantics.Walk(x, evalFunc(nil))
			x.Free()
		}
		tsl.ParseTSL("a = 'x" + s)
		if to == "!" {
			good = false
			return to, boom
		}
		t, _, ok := Parse6(to)
		if !ok {
			good = false
			return to, nil
		}
		given[s] = append(given[s], t.String())
		return to, nil
	})
	c.Trace()
	c.Trans(model.Size())
	collect()
	if g := fromImpl(node).String(); g != model.String() {
		return failf("the given tree changed\nbefore: %s\nafter:  %s\n%s", model.String(), g, where)
	}
	if !good {
		if err == nil || got != nil {
			return failf("no error, or a tree\n%s", where)
		}
		c.Outcome("error at one of the calls")
		c.State("error " + where)
		return nil
	}
	if err != nil {
		return failf("error %v\n%s", err, where)
	}
	found := map[string][]string{}
	var match func(m, g *T) bool
	match = func(m, g *T) bool {
		if m.K == "IDENTIFIER" {
			found[m.S] = append(found[m.S], g.String())
			return true
		}
		if m.K != g.K || m.Op != g.Op || m.S != g.S || len(m.C) != len(g.C) {
			return false
		}
		if len(m.C) == 0 {
			return m.String() == g.String()
		}
		for i := range m.C {
			if !match(m.C[i], g.C[i]) {
				return false
			}
		}
		return true
	}
	res := fromImpl(got)
	if !match(model, res) {
		got.Free()
		return failf("wrong tree %s\n%s", q(res.String()), where)
	}
	for _, l := range []map[string][]string{found, given} {
		for _, x := range l {
			sort.Strings(x)
		}
	}
	if fmt.Sprint(found) != fmt.Sprint(given) {
		got.Free()
		return failf("returned for the names: %q\nin the tree: %q\n%s", given, found, where)
	}
	c.Outcome("replaced, another answer at each call")
	c.State(res.String())
	if len(in)%2 == 0 {
		got.Free()
		return nil
	}
	node.Free()
	collect()
	if g := fromImpl(got).String(); g != res.String() {
		return failf("releasing the given tree changed the result\nbefore: %s\nafter:  %s\n%s", res.String(), g, where)
	}
	got.Free()
	return nil
}

// checkIdent: args filter, then name, text, name, text...
func checkIdent(c *Ctx, cs Case) *Failure {
	in := cs.Args[0]
	if cs.Kind == "pump" {
		in = Pump(cs.Args[1:6], atoi(cs.Args[0]))
		cs.Args = append([]string{in}, cs.Args[6:]...)
	}
	model, _, ok := Parse6(in)
	if !ok {
		c.Outcome("not in the language")
		return nil
	}
	m := map[string]string{}
	for i := 1; i+1 < len(cs.Args); i += 2 {
		m[cs.Args[i]] = cs.Args[i+1]
	}
	node, err := tsl.ParseTSL(in)
	if err != nil {
		return failf("the filter is rejected: %s: %v", q(in), err)
	}
	defer node.Free()
	before := fromImpl(node).String()
	wantAsked := map[string]int{}
	want, good := substitute(model, m, wantAsked)
	asked := map[string]int{}
	boom := fmt.Errorf("unknown name")
	got, err := ident.Walk(node, func(s string) (string, error) {
		asked[s]++
		collect()
		to, ok := m[s]
		if !ok {
			return s, nil
		}
		if to == "!" {
			return to, boom
		}
		return to, nil
	})
	c.Trace()
	c.Trans(model.Size())
	collect()
	where := fmt.Sprintf("filter: %s\nmapping: %q", q(in), cs.Args[1:])
	if after := fromImpl(node).String(); after != before {
		return failf("the given tree changed\nbefore: %s\nafter:  %s\n%s", before, after, where)
	}
	if !good {
		if err == nil {
			return failf("no error, tree %s\n%s", fromImpl(got).String(), where)
		}
		if got != nil {
			return failf("a tree with an error\n%s", where)
		}
		c.Outcome("error")
		c.State("error " + where)
		return nil
	}
	if err != nil {
		return failf("error %v\n%s", err, where)
	}
	w := want.String()
	if g := fromImpl(got).String(); g != w {
		return failf("wrong tree\ngot:  %s\nwant: %s\n%s", q(g), q(w), where)
	}
	for k, n := range wantAsked {
		if asked[k] != n {
			return failf("asked %d times for %q, which is there %d times\n%s", asked[k], k, n, where)
		}
	}
	for k := range asked {
		if wantAsked[k] == 0 {
			return failf("asked for %q, which is not there\n%s", k, where)
		}
	}
	c.Outcome("replaced")
	c.State(w)
	// Both trees are independent: release one, use and change the other.
	if len(in)%2 == 0 {
		got.Free()
		if after := fromImpl(node).String(); after != before {
			return failf("releasing the result changed the given tree\nbefore: %s\nafter:  %s\n%s", before, after, where)
		}
		return nil
	}
	cl := node.Clone()
	node.Free()
	if g := fromImpl(got).String(); g != w {
		got.Free()
		return failf("releasing the given tree changed the result\nbefore: %s\nafter:  %s\n%s", w, g, where)
	}
	got.Free()
	cl.Free()
	return nil
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

func genI01(c *Ctx) {
	c.Stage("every tree with up to 2 operators, several mappings")
	maps := [][]string{{}, {"a", "x"}, {"a", "b", "b", "a"}, {"a", "x = 1 or a", "b", "[b, 2]"}, {"b", "!"}, {"a", "x y"}, {"b", ""}}
	EnumTrees(c, Space{N: 2, Leaves: []*T{Id("a"), Id("b"), Num(1)}, Bin: []string{"OR", "EQ", "RNE", "LIKE", "IN", "ADD"}, Un: []string{"NOT", "NEG", "LEN"}, Is: true, Between: true, Array: true}, func(t *T) {
		s := Text6(t, false)
		for _, m := range maps {
			c.Emit("ident", append([]string{s}, m...)...)
		}
	})
	c.Stage("every operator on subtrees of every form")
	GenRich6(c, c.D(12, 35), func(t *T) {
		c.Emit("ident", Text6(t, false), "a", "[x, x]")
		c.Emit("ident", Text6(t, false), "b", "!", "b.c[0]/d", "y")
	})
	c.Stage("every pair of target texts, identifiers in every place")
	fs := []string{"a", "a = b", "b = a", "not a", "[a, b]", "a in [b, 1, a]", "a between b and a", "1 between a and b", "[[a], [1, [b]]] = a", "a is null", "len a + - b", "a and b or a and b", "a not in [a] and not (b like a)", "any (a = b)", "'a' = a and \"b\" = b", "a.b = a and b.a = b", "1 in [1, [a, b]]", "1", "'a'", "[]"}
	for _, f := range fs {
		for _, x := range targets {
			for _, y := range targets {
				c.Emit("ident", f, "a", x, "b", y)
			}
		}
	}
	c.Stage("target texts and names that are almost the same")
	near := []string{"x", "X", " x", "x ", "(x)", "x.y", "X.y", "x/y", "xy", "x x", "'x'", "'X'", "\"x\"", "`x`", "'x '", "' x'", "'x\ny'", "'x y'", "'x  y'", "x = 1", "x  =  1", "X = 1", "x = 1.0", "x = '1'", "x = 2", "y = 1", "1 = x", "1", "1.0", "'1'", "1K", "1000", "1024", "1Ki", "-1", "- 1", "- x", "-x", "not x", "not X", "[x, 1]", "[1, x]", "[x,1]", "[x 1]", "true", "TRUE", "'true'", "null", "2020-01-02", "'2020-01-02'", "2020-01-02T00:00:00Z", "x is null", "x is not null", "x like 'a'", "x ilike 'a'", "x not like 'a'", "x in [1]", "x in (1)", "x + 1", "x - 1", "len x", "any x", "!"}
	for _, x := range near {
		for _, y := range near {
			for _, f := range []string{"a = b", "[b, a, b]", "not a and b in [a]"} {
				c.Emit("ident", f, "a", x, "b", y)
				c.Emit("each", f, x, y)
			}
			c.Emit("each", "a = a and a.b != a", x, y)
			c.Emit("ident", "a = A and a.b = a.B", "a", x, "A", y)
			c.Emit("ident", "a = A and a.b = a.B", "a.b", x, "a.B", y)
		}
	}
	c.Stage("another answer at each call")
	EnumTrees(c, Space{N: 2, Leaves: []*T{Id("a"), Id("b"), Num(1)}, Bin: []string{"OR", "EQ", "IN", "ADD"}, Un: []string{"NOT", "LEN"}, Is: true, Between: true, Array: true}, func(t *T) {
		s := Text6(t, false)
		for _, x := range [][]string{{"x1", "x2", "x3", "x4", "x5"}, {"a", "b = 1"}, {"b", "a", "[a, b]"}, {"!"}, {"x", "!"}, {"x", "y", "!"}, {"x", "y z"}, {"x", "y", "'"}} {
			c.Emit("each", append([]string{s}, x...)...)
		}
	})
	c.Stage("garbage collected in every call and after it")
	EnumTrees(c, Space{N: 1, Leaves: []*T{Id("a"), Id("b"), Num(1)}, Bin: []string{"OR", "EQ", "IN"}, Un: []string{"NOT"}, Is: true, Between: true, Array: true}, func(t *T) {
		s := Text6(t, false)
		for _, x := range [][]string{{"x", "y"}, {"a", "[a, b]"}, {"x", "!"}} {
			c.Emit("gceach", append([]string{s}, x...)...)
			c.Emit("gcident", s, "a", x[0], "b", x[1])
		}
	})
	c.Stage("names of every form")
	for _, n := range []string{"a.b.c", "a/b", "a[0]", "a[*].b", "A", "_a", "a1", "a.b[x-y]/z", strings.Repeat("n", 300), strings.Repeat("n.", 200) + "n"} {
		for _, f := range []string{"@", "@ = 1", "1 = @", "not @", "[@]", "a between @ and 2", "@ in [@, a]", "@ = a and a.@ = 1"} {
			for _, x := range targets {
				c.Emit("ident", strings.Replace(f, "@", n, -1), n, x)
			}
		}
	}
	c.Stage("wide and deep trees")
	for n := 0; n <= c.D(100, 400); n++ {
		for _, p := range [][]string{{"a in [1", ", a", "", "", "]"}, {"", "a = 1 and ", "b", "", ""}, {"", "not ", "a", "", ""}, {"", "[", "a", "]", ""}, {"", "[1, b, ", "a", "]", ""}, {"", "(a - ", "b", ")", " = 2"}} {
			for _, m := range [][]string{{"a", "x"}, {"a", "[a, b]", "b", "c = 1"}, {"b", "!"}} {
				c.Emit("pump", append(append([]string{strconv.Itoa(n)}, p...), m...)...)
			}
		}
	}
	c.Stage("long texts")
	GenLong6(c)
	GenWide6(c)
	c.Stage("every tree with 3 operators, one operator per class")
	EnumTrees(c, Space{N: 3, Leaves: []*T{Id("a"), Id("b")}, Bin: []string{"EQ"}, Un: []string{"NOT"}, Is: true, Between: true, Array: true}, func(t *T) {
		s := Text6(t, false)
		for _, m := range [][]string{{"a", "x"}, {"a", "b", "b", "a and 1"}, {"b", "!"}} {
			c.Emit("ident", append([]string{s}, m...)...)
		}
	})
}
