package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"gopkg.in/yaml.v3"
)

func init() { register("X01", genX01, checkTool) }

// The demo collection, as its documentation shows it: a missing number is -1.
type book struct {
	title, author string
	pages, rating int
	loan          bool
}

var demoBooks = []book{
	{"Book", "Joe", 100, 4, true}, {"Other Book", "Jane", 200, 3, true}, {"Some Book", "Jane", 50, 5, true},
	{"Some Other Book", "Jane", 50, -1, false}, {"Good Book", "Joe", 150, 4, true}, {"Some Great Book", "Jane", 550, 2, true},
	{"Other Great Book", "Jane", 250, -1, false}, {"My Big Book", "Joe", 15, 5, false},
}

// record is the record of the filters, with the names of the user.
func (b book) record() map[string]interface{} {
	r := map[string]interface{}{"title": b.title, "author": b.author, "on_loan": b.loan, "pages": nil, "rating": nil}
	if b.pages >= 0 {
		r["pages"] = b.pages
	}
	if b.rating >= 0 {
		r["rating"] = b.rating
	}
	return r
}

// document is what the tool shows of a book.
func (b book) document() map[string]interface{} {
	d := map[string]interface{}{"title": b.title, "author": b.author, "onloan": b.loan}
	if b.pages >= 0 {
		d["spec.pages"] = float64(b.pages)
	}
	if b.rating >= 0 {
		d["spec.rating"] = float64(b.rating)
	}
	return d
}

var bookRecords []map[string]interface{}

// The last runs are kept while one case is checked only.
func runTool(args ...string) (stdout, stderr string, ok bool, f *Failure) {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_TOOLS6"), args[0]), args[1:]...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		return "", "", false, failf("the tool does not start: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		s := e.String()
		if strings.Contains(s, "goroutine ") && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "SIG")) {
			return "", "", false, failf("%s crashed: %s", q(strings.Join(args, " ")), trunc(s, 1500))
		}
		return o.String(), s, err == nil, nil
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return "", "", false, failf("%s did not end", q(strings.Join(args, " ")))
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// readTree reads the indented text of a tree.
func readTree(s string) (*T, error) {
	type line struct {
		level int
		text  string
	}
	var ls []line
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		n := len(l) - len(strings.TrimLeft(l, " "))
		ls = append(ls, line{n, l[n:]})
	}
	var read func(level int) (*T, error)
	read = func(level int) (*T, error) {
		if len(ls) == 0 {
			return nil, fmt.Errorf("the text ends before the tree")
		}
		l := ls[0]
		ls = ls[1:]
		if l.level != level {
			return nil, fmt.Errorf("indentation of %q", l.text)
		}
		if !strings.HasPrefix(l.text, "[") || !strings.Contains(l.text, "]") {
			return nil, fmt.Errorf("line %q", l.text)
		}
		k := strings.Index(l.text, "]")
		name, rest := l.text[1:k], l.text[k+1:]
		var kids []*T
		for len(ls) > 0 && ls[0].level > level {
			t, err := read(ls[0].level)
			if err != nil {
				return nil, err
			}
			kids = append(kids, t)
		}
		if rest == "" {
			switch len(kids) {
			case 1:
				return Un(name, kids[0]), nil
			case 2:
				return Bin(name, kids[0], kids[1]), nil
			}
			return nil, fmt.Errorf("%d operands of %s", len(kids), name)
		}
		if name == "ARRAY" {
			return Arr(kids...), nil
		}
		if len(kids) > 0 || !strings.HasPrefix(rest, ": ") {
			return nil, fmt.Errorf("line %q", l.text)
		}
		v := rest[2:]
		switch name {
		case "NUMBER":
			f, err := strconv.ParseFloat(v, 64)
			return Num(f), err
		case "STRING":
			u, err := strconv.Unquote(`"` + v + `"`)
			return Str(u), err
		case "IDENTIFIER":
			return Id(v), nil
		case "BOOLEAN":
			b, err := strconv.ParseBool(v)
			return Bool(b), err
		case "DATE":
			return Date(v), nil
		case "TIMESTAMP":
			return Stamp(v), nil
		case "NULL":
			return Null(), nil
		}
		return nil, fmt.Errorf("line %q", l.text)
	}
	t, err := read(0)
	if err == nil && len(ls) > 0 {
		err = fmt.Errorf("text after the tree: %q", ls[0].text)
	}
	return t, err
}

// columns tells if every name of a filter is a field of the demo collection.
func columns(t *T) bool {
	ok := true
	t.Walk(func(n *T) {
		if n.K == "IDENTIFIER" {
			switch n.S {
			case "title", "author", "pages", "rating", "on_loan":
			default:
				ok = false
			}
		}
	})
	return ok
}

// checkTool: kind is the tool and the format: "tsl", "parser json|yaml|dot|sql TABLE", "mem json|yaml".
func checkTool(c *Ctx, cs Case) *Failure {
	s := cs.Args[0]
	kind := strings.Fields(cs.Kind)
	if strings.ContainsRune(s, 0) || !utf8.ValidString(s) {
		c.Outcome("not an argument")
		return nil
	}
	want, _, accepted := Parse6(s)
	var args []string
	switch kind[0] {
	case "tsl":
		args = []string{"tsl", s}
		if strings.HasPrefix(s, "-") {
			args = []string{"tsl", "--", s}
		}
	case "parser":
		args = []string{"tsl_parser", "-i", s, "-o", kind[1]}
		if len(kind) > 2 {
			args = append(args, "-t", kind[2])
		}
	case "mem":
		args = []string{"tsl_mem", "-i", s, "-o", kind[1]}
	case "args":
		args = cs.Args
	}
	out, errs, ok, f := runTool(args...)
	if f != nil {
		return f
	}
	c.Trace()
	show := fmt.Sprintf("\ncommand: %s\nstdout: %s\nstderr: %s", q(strings.Join(args, " ")), q(out), q(errs))
	mustFail := func(why string) *Failure {
		c.Outcome(kind[0] + " fails: " + why)
		c.Trans(1)
		c.State(kind[0] + " " + why)
		if ok {
			return failf("ends with success, but %s%s", why, show)
		}
		if strings.TrimSpace(errs) == "" {
			return failf("fails without a reason%s", show)
		}
		return nil
	}
	if kind[0] == "args" {
		return mustFail("the arguments are not usable")
	}
	if !accepted {
		return mustFail("the filter is not in the language")
	}
	if s == "" {
		return mustFail("there is no filter")
	}
	c.Trans(want.Size())
	c.State(strings.Join(kind, " ") + " " + want.String())
	mustPass := func() *Failure {
		if !ok {
			return failf("fails, but the library can do this%s", show)
		}
		c.Outcome(strings.Join(kind, " ") + " passes")
		return nil
	}
	same := func(got *T, err error) *Failure {
		if err != nil {
			return failf("the output is not the tree: %v%s", err, show)
		}
		if g, w := oneZero(got).String(), oneZero(want).String(); g != w {
			return failf("the output is of another tree\ngot:  %s\nwant: %s%s", q(g), q(w), show)
		}
		return nil
	}
	switch kind[0] {
	case "tsl":
		if f := mustPass(); f != nil {
			return f
		}
		return same(readTree(strings.TrimPrefix(out, "Parsing: "+s+"\n")))
	case "parser":
		switch kind[1] {
		case "json", "yaml":
			if !exportable(want) {
				return nil
			}
			if f := mustPass(); f != nil {
				return f
			}
			v, err := decode(kind[1], out)
			if err != nil {
				return failf("the output is not %s: %v%s", kind[1], err, show)
			}
			return same(fromData(v))
		case "dot":
			if f := mustPass(); f != nil {
				return f
			}
			nodes, err := ParseDot(out)
			if err != nil {
				return failf("the output is not DOT: %v%s", err, show)
			}
			root, err := rootOf(nodes)
			if err == nil {
				err = checkDotTree(want, nodes, root)
			}
			if err != nil {
				return failf("the graph is not of the tree: %v%s", err, show)
			}
			return nil
		case "sql":
			if !hasSQL(want) {
				return mustFail("the filter has no SQL form")
			}
			if f := mustPass(); f != nil {
				return f
			}
			n, err := tsl.ParseTSL(s)
			if err != nil {
				return nil // T01
			}
			defer n.Free()
			cond, vals, err, _ := toSQL(n)
			if err != nil {
				return nil // Q01
			}
			table := "table_name"
			if len(kind) > 2 {
				table = kind[2]
			}
			k := strings.LastIndex(out, "args:")
			l := strings.Index(out, "SELECT")
			if k < 0 || l < 0 || l > k {
				return failf("no SQL and arguments%s", show)
			}
			if g, w := strings.TrimSpace(out[l:k]), "SELECT * FROM "+table+" WHERE "+cond; g != w {
				// An argument can hold the text args: too.
				if !strings.HasPrefix(out[l:], w+"\nargs:") {
					return failf("the SQL is %s\nwant %s%s", q(g), q(w), show)
				}
				k = l + len(w) + 1
			}
			if g, w := strings.TrimSpace(out[k+5:]), strings.TrimSpace(fmt.Sprintf("%v", vals)); g != w {
				return failf("the arguments are %s\nwant %s%s", q(g), q(w), show)
			}
			return nil
		}
		return mustFail("the format is unknown")
	case "mem":
		if !columns(want) {
			return mustFail("a name is not a field")
		}
		if bookRecords == nil {
			for _, b := range demoBooks {
				bookRecords = append(bookRecords, NormRecord(b.record()))
			}
		}
		sel := []interface{}{}
		for i, r := range bookRecords {
			if DatesMatched(want, r) || ModUnclear(want, r) {
				c.Outcome("not defined")
				return nil
			}
			v, e := Eval6(want, r)
			if e != nil {
				return mustFail("the evaluation fails")
			}
			if v == true {
				sel = append(sel, demoBooks[i].document())
			}
		}
		if kind[1] != "json" && kind[1] != "yaml" {
			return mustFail("the format is unknown")
		}
		if f := mustPass(); f != nil {
			return f
		}
		v, err := decode(kind[1], out)
		if err != nil {
			return failf("the output is not %s: %v%s", kind[1], err, show)
		}
		if v == nil {
			v = []interface{}{}
		}
		g, _ := json.Marshal(v)
		w, _ := json.Marshal(sel)
		if string(g) != string(w) {
			return failf("the books are %s\nwant %s%s", g, w, show)
		}
		c.Outcome(fmt.Sprintf("%d books", len(sel)))
	}
	return nil
}

func decode(format, s string) (interface{}, error) {
	var v interface{}
	if format == "yaml" {
		err := yaml.Unmarshal([]byte(s), &v)
		return v, err
	}
	d := json.NewDecoder(strings.NewReader(s))
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one document")
	}
	return v, nil
}

func genX01(c *Ctx) {
	tools := func(s string) {
		c.Emit("tsl", s)
		for _, f := range []string{"json", "yaml", "dot", "sql"} {
			c.Emit("parser "+f, s)
		}
		c.Emit("mem json", s)
	}
	c.Stage("arguments")
	for _, a := range [][]string{{"tsl"}, {"tsl", "a", "b"}, {"tsl", "a", "=", "1"}, {"tsl_parser"}, {"tsl_parser", "-i", ""}, {"tsl_parser", "-o", "json"}, {"tsl_parser", "-i", "a", "-o", ""}, {"tsl_parser", "-i", "a", "-o", "JSON5"}, {"tsl_parser", "-i", "a", "-o", "mongo"},
		{"tsl_parser", "-x"}, {"tsl_mem"}, {"tsl_mem", "-i", ""}, {"tsl_mem", "-o", "json"}, {"tsl_mem", "-i", "pages = 1", "-o", "sql"}, {"tsl_mem", "-i", "pages = 1", "-o", ""}, {"tsl_mem", "-x"}} {
		c.Emit("args", a...)
	}
	c.Stage("every tree with up to 1 operator, all tools and formats")
	leaves := []*T{Id("pages"), Num(50), Str("Jane"), Bool(true), Date("2020-01-02"), Stamp("2020-01-02T03:04:05+01:00"), Stamp("2020-01-02T03:04:05Z"), Stamp("2020-13-02T03:04:05Z")}
	EnumTrees(c, Space{N: 1, Leaves: leaves, Bin: AllBin6, Un: AllUn6, Is: true, Between: true, Array: true}, func(t *T) { tools(Text6(t, false)) })
	c.Stage("every tree with up to 2 operators of each class, all tools and formats")
	EnumTrees(c, Space{N: 2, Leaves: []*T{Id("rating"), Num(4)}, Bin: []string{"AND", "EQ", "LT", "IN", "SUB", "MOD"}, Un: []string{"NOT", "NEG", "SUM"}, Is: true, Between: true, Array: true}, func(t *T) {
		tools(Text6(t, false))
	})
	c.Stage("every sequence of up to 3 tokens, and tables and texts")
	Sequences6(c, TokenClasses6, c.D(3, 4), func(s string, ok bool) {
		c.Emit("tsl", s)
		if c.Thorough || !ok {
			c.Emit("parser json", s)
			c.Emit("mem json", s)
		}
	})
	Strings(c, textAlphabet, c.D(1, 2), func(s string) {
		tools(Quote6(s))
		tools("title = " + Quote6("x"+s))
		tools("title != " + Quote6(s+"args:"))
		tools("title " + s)
	})
	for _, t := range []string{"books", "a.b", "t1"} {
		for _, s := range []string{"a = 1", "a", "len a", "a in []", "a = 'args: [1]' and b is null"} {
			c.Emit("parser sql "+t, s)
			c.Emit("parser json "+t, s)
		}
	}
	for n := 0; n <= c.D(30, 150); n++ {
		for _, p := range pumpTrees {
			s := Pump(p, n)
			c.Emit("tsl", s)
			c.Emit("parser "+[]string{"json", "yaml", "dot", "sql"}[n%4], s)
		}
	}
	c.Stage("filters on the demo collection")
	var atoms []string
	vals := map[string][]string{
		"title":   {"'Book'", "'Other Book'", "'book'", "'%Book'", "'Some%'", "'Some _reat Book'", "''", "1", "null"},
		"author":  {"'Joe'", "'Jane'", "'JOE'", "'J__'", "'J[ao]'", "author", "title"},
		"pages":   {"50", "100", "150.5", "15", "550", "-1", "0.1k", "'50'", "rating", "rating * 10"},
		"rating":  {"4", "5", "2", "0", "pages", "'4'"},
		"on_loan": {"true", "false", "1", "'true'"},
	}
	for _, f := range []string{"title", "author", "pages", "rating", "on_loan"} {
		for _, v := range vals[f] {
			for _, op := range []string{"=", "!=", "<", "<=", ">", ">=", "~=", "~!", "like", "ilike", "not like", "not ilike"} {
				atoms = append(atoms, f+" "+op+" "+v)
			}
			for _, w := range vals[f] {
				atoms = append(atoms, f+" between "+v+" and "+w, f+" not between "+v+" and "+w, f+" in ["+v+", "+w+"]", f+" not in ["+v+", "+w+"]")
			}
		}
		atoms = append(atoms, f, f+" is null", f+" is not null", "not "+f, "len "+f, "any "+f, f+" in []", "nothing = "+f, f+" + 1 > 50", f+" % 100 = 50", "any ["+f+" = 50, rating = 4]", "all [pages > 49, "+f+"]")
	}
	for _, a := range atoms {
		c.Emit("mem json", a)
		c.Emit("mem yaml", a)
	}
	short := []string{"title = 'Book'", "author = 'Joe'", "pages > 100", "pages between 50 and 150", "rating = 4", "rating is null", "on_loan", "title like '%Other%'", "rating in [2, 5]", "not on_loan", "pages - 50 = rating", "nothing", "rating + 1 > 4", "title ~= '^S'"}
	for _, a := range short {
		for _, b := range short {
			for _, x := range []string{"@ and #", "@ or #", "not (@) and #", "not (@ or #)", "any [@, #]", "all [@, #]", "(@) = (#)"} {
				c.Emit("mem json", strings.Replace(strings.Replace(x, "@", a, 1), "#", b, 1))
			}
			if c.Thorough {
				for _, d := range short {
					c.Emit("mem json", a+" and "+b+" or "+d)
					c.Emit("mem json", a+" or not ("+b+" and "+d+")")
				}
			}
		}
	}
}
