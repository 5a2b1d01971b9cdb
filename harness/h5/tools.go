package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	. "tslverif/common"

	sq "github.com/Masterminds/squirrel"
	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
	yaml "gopkg.in/yaml.v2"
)

func init() { register("L08", genTools, checkTool) }

// book is a book of the demo collection, as its documentation shows it.
type book struct {
	title, author string
	pages, rating int
	loan          bool
}

var demoBooks = []book{
	{"Book", "Joe", 100, 4, true}, {"Other Book", "Jane", 200, 3, true}, {"Some Book", "Jane", 50, 5, true},
	{"Some Other Book", "Jane", 50, 0, false}, {"Good Book", "Joe", 150, 4, true}, {"Some Great Book", "Jane", 550, 2, true},
	{"Other Great Book", "Jane", 250, 0, false}, {"My Big Book", "Joe", 15, 5, false},
}

// record is the record of a book with the names of the user. A rating of 0 is missing in documents.
func (b book) record(documents bool) map[string]interface{} {
	r := map[string]interface{}{"title": b.title, "author": b.author, "spec.pages": b.pages, "spec.rating": b.rating}
	if version == 5 {
		r["on_loan"] = b.loan
	}
	if documents && b.rating == 0 {
		delete(r, "spec.rating")
	}
	return r
}

// shown is a book as the data base tools show it.
func (b book) shown() map[string]interface{} {
	spec := map[string]interface{}{"pages": float64(b.pages)}
	if b.rating != 0 {
		spec["rating"] = float64(b.rating)
	}
	r := map[string]interface{}{"title": b.title, "author": b.author, "spec": spec}
	if version == 5 {
		r["on-loan"] = b.loan
	}
	return r
}

// memory is a book as tsl_mem shows it.
func (b book) memory() map[string]interface{} {
	r := map[string]interface{}{"title": b.title, "author": b.author, "spec.pages": float64(b.pages)}
	if b.rating != 0 {
		r["spec.rating"] = float64(b.rating)
	}
	if version == 5 {
		r["onloan"] = b.loan
	}
	return r
}

// graphql is a book as tsl_graphql shows it.
func (b book) graphql() map[string]interface{} {
	r := map[string]interface{}{"title": b.title, "author": b.author, "spec": map[string]interface{}{"pages": float64(b.pages), "rating": float64(b.rating)}}
	if version == 5 {
		r["onloan"] = b.loan
	}
	return r
}

// columns tells if every name of a filter is a field of the demo collection.
func columns(t *T) bool {
	ok := true
	t.Walk(func(n *T) {
		if n.K == "IDENTIFIER" {
			_, is := demoBooks[0].record(false)[n.S]
			ok = ok && is
		}
	})
	return ok
}

var columnKind = map[string]string{"title": "STRING", "author": "STRING", "spec.pages": "NUMBER", "spec.rating": "NUMBER", "on_loan": "BOOLEAN"}

// sqlKind is the kind of an operand, "" when SQL would compute something else with it.
func sqlKind(t *T) string {
	switch t.K {
	case "IDENTIFIER":
		return columnKind[t.S]
	case "STRING", "NUMBER", "BOOLEAN":
		return t.K
	case "ARRAY":
		k := ""
		for i, c := range t.C {
			if x := sqlKind(c); i > 0 && x != k || x == "" || x == "BOOLEAN" {
				return ""
			} else {
				k = x
			}
		}
		return k
	case "BIN":
		if sqlKind(t.C[0]) == "NUMBER" && sqlKind(t.C[1]) == "NUMBER" {
			return "NUMBER"
		}
	}
	return ""
}

// sqlSupports tells if SQLite compares only values of one type in a filter.
func sqlSupports(t *T) bool {
	switch t.Op {
	case "$and", "$or":
		return sqlSupports(t.C[0]) && sqlSupports(t.C[1])
	case "$not":
		return sqlSupports(t.C[0])
	case "$ilike":
		return false
	case "$exists", "$nexists":
		return sqlKind(t.C[0]) != ""
	}
	l := sqlKind(t.C[0])
	if t.C[1].K == "ARRAY" && len(t.C[1].C) == 0 {
		return l == "STRING" || l == "NUMBER"
	}
	if l == "" || l != sqlKind(t.C[1]) {
		return false
	}
	if l == "BOOLEAN" {
		return t.Op == "$eq" || t.Op == "$ne"
	}
	if t.Op == "$like" {
		for i := 0; i < len(t.C[1].S); i++ {
			if t.C[1].S[i] >= 0x80 {
				return false
			}
		}
		return l == "STRING"
	}
	return true
}

// sqlExact tells if SQLite computes the arithmetic of a filter on a record as it is on numbers: integers are
// divided without a fraction.
func sqlExact(t *T, rec map[string]interface{}) bool {
	ok := true
	var num func(t *T) float64
	num = func(t *T) float64 {
		switch t.K {
		case "NUMBER":
			return t.N
		case "IDENTIFIER":
			n, _ := rec[t.S].(int)
			return float64(n)
		}
		x, y := num(t.C[0]), num(t.C[1])
		isInt := func(f float64) bool { return f == math.Trunc(f) && math.Abs(f) < 1<<52 }
		switch t.Op {
		case "$add":
			return x + y
		case "$subtract":
			return x - y
		case "$multiply":
			return x * y
		case "$divide":
			if y == 0 || isInt(x) && isInt(y) && math.Mod(x, y) != 0 {
				ok = false
			}
			return x / y
		}
		if y == 0 || !isInt(x) || !isInt(y) {
			ok = false
		}
		return math.Mod(x, y)
	}
	t.Walk(func(n *T) {
		switch n.Op {
		case "$add", "$subtract", "$multiply", "$divide", "$modulo":
			num(n)
		}
	})
	return ok
}

// sqlLike is a filter with LIKE as SQLite has it, without regard to case.
func sqlLike(t *T) *T {
	u := t.Copy()
	u.Walk(func(n *T) {
		if n.Op == "$like" {
			n.Op = "$ilike"
		}
	})
	return u
}

// mixedBool tells if on_loan is compared with a value of another type.
func mixedBool(t *T) bool {
	mixed := false
	t.Walk(func(n *T) {
		if len(n.C) == 2 && n.Op != "$and" && n.Op != "$or" && sqlKind(n.C[0]) == "BOOLEAN" && sqlKind(n.C[1]) != "BOOLEAN" {
			mixed = true
		}
	})
	return mixed
}

func runTool(args ...string) (stdout, stderr string, ok bool, f *Failure) {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_TOOLS"), args[0]), args[1:]...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		return "", "", false, failf("the tool does not start: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		s := e.String()
		if strings.Contains(s, "goroutine ") && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "SIG")) {
			return "", "", false, failf("v%d: %s crashed: %s", version, q(strings.Join(args, " ")), q(s))
		}
		return o.String(), s, err == nil, nil
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return "", "", false, failf("v%d: %s did not end", version, q(strings.Join(args, " ")))
	}
}

// fromData reads the tree of a decoded export.
func fromData(v interface{}) (*T, error) {
	if m, ok := v.(map[interface{}]interface{}); ok {
		x := map[string]interface{}{}
		for k, e := range m {
			x[fmt.Sprint(k)] = e
		}
		v = x
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("%T instead of a node", v)
	}
	for k, v := range m {
		if k != "func" && k != "left" && k != "right" && v != nil {
			return nil, fmt.Errorf("a %q in a node", k)
		}
	}
	op, _ := m["func"].(string)
	l, r := m["left"], m["right"]
	if strings.Contains("$ident $string $number $boolean $date", op) && r != nil {
		return nil, fmt.Errorf("a leaf with two values")
	}
	switch op {
	case "$ident", "$string":
		if s, ok := l.(string); ok {
			if op == "$ident" {
				return Id(s), nil
			}
			return Str(s), nil
		}
	case "$number":
		switch x := l.(type) {
		case float64:
			return Num(x), nil
		case int:
			return Num(float64(x)), nil
		case int64:
			return Num(float64(x)), nil
		case uint64:
			return Num(float64(x)), nil
		}
	case "$boolean":
		if b, ok := l.(bool); ok {
			return Bool(b), nil
		}
	case "$date":
		if s, ok := l.(string); ok {
			d, err := time.Parse(time.RFC3339Nano, s)
			return Date5(d), err
		}
		if d, ok := l.(time.Time); ok {
			return Date5(d), nil
		}
	case "$array":
		list, ok := r.([]interface{})
		if !ok && r != nil || l != nil {
			return nil, fmt.Errorf("values is a %T", r)
		}
		a := Arr()
		for _, e := range list {
			t, err := fromData(e)
			if err != nil {
				return nil, err
			}
			a.C = append(a.C, t)
		}
		return a, nil
	default:
		x, err := fromData(l)
		if err != nil {
			return nil, err
		}
		if r == nil && (op == "$not" || op == "$exists" || op == "$nexists") {
			return Un(op, x), nil
		}
		y, err := fromData(r)
		return Bin(op, x, y), err
	}
	return nil, fmt.Errorf("a %s with the value %T %v", op, l, l)
}

func oneZero(t *T) *T {
	t = t.Copy()
	t.Walk(func(n *T) {
		if n.K == "NUMBER" && n.N == 0 {
			n.N = 0
		}
	})
	return t
}

// dates tells if a filter has a date, and if JSON has a form for them.
func dates(t *T) (any, ok bool) {
	ok = true
	t.Walk(func(n *T) {
		if n.K == "TIMESTAMP" {
			any = true
			d, err := time.Parse(time.RFC3339Nano, n.S)
			if err == nil {
				_, err = d.MarshalJSON()
			}
			ok = ok && err == nil
		}
	})
	return
}

// world is what the tools of a worker work on.
type world struct {
	dir    string
	mongo  *mongod
	graph  *graphqlServer
	primed map[string]bool
	fresh  int
}

var theWorld *world

func newWorld() (*world, error) {
	dir, err := ioutil.TempDir(os.Getenv("VERIF_TMP"), "tools")
	if err != nil {
		return nil, err
	}
	m, err := startMongod()
	return &world{dir: dir, mongo: m, primed: map[string]bool{}}, err
}

func lines(s string) []string {
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

func canon(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// checkTool: kind is the tool, the format and if the collection is made anew.
func checkTool(c *Ctx, cs Case) *Failure {
	s := cs.Args[0]
	kind := strings.Fields(cs.Kind)
	if kind[0] == "requests" {
		// A history of requests to one tool that keeps running: each is answered as if it were alone.
		for i, a := range cs.Args {
			if f := checkTool(c, Case{kind[1], []string{a}}); f != nil {
				f.Msg = fmt.Sprintf("request %d of %q: %s", i+1, cs.Args, f.Msg)
				return f
			}
		}
		return nil
	}
	if strings.ContainsRune(s, 0) || !utf8.ValidString(s) {
		c.Outcome("not an argument")
		return nil
	}
	if theWorld == nil {
		w, err := newWorld()
		if err != nil {
			return failf("no place for the tools: %v", err)
		}
		theWorld = w
	}
	w := theWorld
	want, accepted := lang.Parse(s)
	tool := kind[0]
	var args []string
	switch tool {
	case "args":
		args = cs.Args
	case "tsl_parser", "tsl_mem":
		args = []string{tool, "-i", s, "-o", kind[1]}
	case "tsl_sqlite", "tsl_gorm":
		db := filepath.Join(w.dir, tool+".db")
		if len(kind) > 1 {
			// A collection of its own, made twice.
			w.fresh++
			db = filepath.Join(w.dir, tool+strconv.Itoa(w.fresh)+".db")
			defer os.Remove(db)
			if _, e, ok, f := runTool(tool, "-p", "-f", db); f != nil || !ok {
				return failf("v%d: %s does not make its collection: %s", version, tool, e)
			}
			args = []string{tool, "-p", "-f", db, "-i", s}
			break
		}
		if !w.primed[tool] {
			if _, e, ok, f := runTool(tool, "-p", "-f", db); f != nil || !ok {
				return failf("v%d: %s does not make its collection: %s", version, tool, e)
			}
			w.primed[tool] = true
		}
		args = []string{tool, "-f", db, "-i", s}
	case "tsl_mongo":
		url := "mongodb://" + w.mongo.addr
		args = []string{tool, "-u", url, "-i", s}
		if len(kind) > 1 {
			args = append(args, "-p", "-d", "other", "-c", "things")
		} else if !w.primed[tool] {
			if _, e, ok, f := runTool(tool, "-p", "-u", url); f != nil || !ok {
				return failf("v%d: %s does not make its collection: %s", version, tool, e)
			}
			w.primed[tool] = true
		}
	case "tsl_graphql":
		args = []string{tool, s}
	}
	var out, errs string
	var ok bool
	if tool == "tsl_graphql" {
		if w.graph == nil {
			g, err := startGraphql(filepath.Join(os.Getenv("VERIF_TOOLS"), tool), filepath.Join(w.dir, "graphql.db"))
			if err != nil {
				c.Outcome("no port for the GraphQL server")
				return nil
			}
			w.graph = g
		}
		fields := "title author spec{pages rating}"
		if version == 5 {
			fields += " onloan"
		}
		b, _ := json.Marshal(s)
		reply, err := w.graph.query("{books(filter:" + string(b) + "){" + fields + "}}")
		if err != nil {
			w.graph = nil
			return failf("v%d: no reply to %s: %v", version, q(s), err)
		}
		var r struct {
			Data   map[string]interface{}
			Errors []interface{}
		}
		if err := json.Unmarshal([]byte(reply), &r); err != nil {
			return failf("v%d: the reply to %s is not JSON: %s", version, q(s), q(reply))
		}
		ok = len(r.Errors) == 0
		errs = canon(r.Errors)
		if ok {
			list, is := r.Data["books"].([]interface{})
			if !is && r.Data["books"] != nil {
				return failf("v%d: the reply to %s is %s", version, q(s), q(reply))
			}
			for _, x := range list {
				out += canon(x) + "\n"
			}
		}
	} else {
		var f *Failure
		if out, errs, ok, f = runTool(args...); f != nil {
			return f
		}
	}
	c.Trace()
	show := fmt.Sprintf("\nversion %d, command: %s\nstdout: %s\nstderr: %s", version, q(strings.Join(args, " ")), q(out), q(errs))
	mustFail := func(why string) *Failure {
		c.Outcome(tool + " fails: " + why)
		c.Trans(1)
		c.State(tool + " " + why)
		if ok {
			return failf("ends with success, but %s%s", why, show)
		}
		if strings.TrimSpace(errs) == "" {
			return failf("fails without a reason%s", show)
		}
		if strings.Contains(out, "{") {
			return failf("shows a result, but %s%s", why, show)
		}
		return nil
	}
	switch {
	case tool == "args":
		return mustFail("the arguments are not usable")
	case !accepted:
		return mustFail("the filter is not in the language")
	}
	if g, err := tsl.ParseTSL(s); err != nil || fromImpl(g).String() != want.String() {
		// L01
		c.Outcome("another tree")
		return nil
	}
	c.Trans(want.Size())
	c.State(strings.Join(kind, " ") + " " + want.String())
	mustPass := func() *Failure {
		if !ok {
			return failf("fails, but the library can do this%s", show)
		}
		c.Outcome(strings.Join(kind, " ") + " passes")
		return nil
	}
	if tool == "tsl_parser" {
		any, fine := dates(want)
		if !fine {
			return nil
		}
		switch kind[1] {
		case "json", "prettyjson", "yaml":
			if any && kind[1] == "prettyjson" {
				// Its dates are texts without quotes.
				return nil
			}
			if f := mustPass(); f != nil {
				return f
			}
			v, err := decode(kind[1], out)
			if err != nil {
				return failf("the output is not %s: %v%s", kind[1], err, show)
			}
			t, err := fromData(v)
			if err != nil {
				return failf("the output is not the tree: %v%s", err, show)
			}
			if g, w := oneZero(t).String(), oneZero(want).String(); g != w {
				return failf("the output is of another tree\ngot:  %s\nwant: %s%s", q(g), q(w), show)
			}
		case "dot":
			if f := mustPass(); f != nil {
				return f
			}
			nodes, err := ParseDot(out)
			if err != nil {
				return failf("the output is not DOT: %v%s", err, show)
			}
			if len(nodes) != want.Size() {
				return failf("%d nodes for %d%s", len(nodes), want.Size(), show)
			}
			if f := sameGraph(nodes, "root", want, map[string]bool{}); f != nil {
				return failf("%s%s", f.Msg, show)
			}
		case "sql":
			if has(want, "$regex", "$nregex") {
				return mustFail("the filter has no SQL form")
			}
			if f := mustPass(); f != nil {
				return f
			}
			f, err := sql.Walk(toImpl(want))
			if err != nil {
				return nil // L04
			}
			text, vals, err := sq.Select("*").From("table_name").Where(f).ToSql()
			if err != nil {
				return nil
			}
			if w := fmt.Sprintf("sql:  %s\nargs: %v\n", text, vals); strings.TrimSpace(out) != strings.TrimSpace(w) {
				return failf("want %s%s", q(w), show)
			}
		}
		return nil
	}
	if !columns(want) {
		return mustFail("a name is not a field")
	}
	if strings.Contains(strings.ToLower(s), "\"title\"") {
		return nil
	}
	// The books that are selected, and those for which that is not defined.
	model := want
	documents := tool == "tsl_mem" || tool == "tsl_mongo"
	if !documents {
		if has(want, "$regex", "$nregex") {
			return mustFail("the filter has no SQL form")
		}
		if !sqlSupports(want) {
			c.Outcome(tool + " does not compare these")
			return nil
		}
		model = sqlLike(want)
	}
	if tool == "tsl_mongo" {
		can, must := hasMongo(want)
		if !can {
			return mustFail("MongoDB can not do this")
		}
		if !must {
			c.Outcome("lists that MongoDB may refuse")
			return nil
		}
		if mixedBool(want) {
			// A boolean is never equal to a number or a text in MongoDB.
			c.Outcome(tool + " does not compare these")
			return nil
		}
	}
	var sel []string
	skip := map[string]bool{}
	for _, b := range demoBooks {
		r := b.record(documents)
		t, why := lang.Truth(model, r)
		form := b.shown()
		switch tool {
		case "tsl_mem":
			form = b.memory()
		case "tsl_graphql":
			form = b.graphql()
		}
		f := canon(form)
		if why == NotDefined || !documents && !sqlExact(want, r) {
			c.Outcome("not defined")
			return nil
		}
		if why != "" {
			if tool == "tsl_mem" {
				return mustFail("the evaluation fails")
			}
			c.Outcome(tool + " does not compare these")
			return nil
		}
		if tool == "tsl_mongo" && b.rating == 0 && has(want, "$ne", "$nin", "$nbetween", "$nregex") {
			// A missing field is different from everything.
			skip[f] = true
			continue
		}
		if t {
			sel = append(sel, f)
		}
	}
	if tool == "tsl_mem" && kind[1] != "json" && kind[1] != "yaml" && kind[1] != "prettyjson" {
		return mustFail("the format is unknown")
	}
	if f := mustPass(); f != nil {
		return f
	}
	var got []string
	if tool == "tsl_mem" {
		v, err := decode(kind[1], out)
		if err != nil {
			return failf("the output is not %s: %v%s", kind[1], err, show)
		}
		list, is := v.([]interface{})
		if !is && v != nil {
			return failf("the output is no list%s", show)
		}
		for _, x := range list {
			got = append(got, canon(x))
		}
	} else {
		for _, l := range lines(out) {
			var v interface{}
			if err := json.Unmarshal([]byte(l), &v); err != nil {
				return failf("the output is not JSON: %v%s", err, show)
			}
			if x := canon(v); !skip[x] {
				got = append(got, x)
			}
		}
	}
	if g, w := strings.Join(got, "\n"), strings.Join(sel, "\n"); g != w {
		return failf("the books are\n%s\nwant\n%s%s", g, w, show)
	}
	c.Outcome(fmt.Sprintf("%s: %d books", tool, len(sel)))
	return nil
}

// plain makes the maps of YAML those of JSON.
func plain(v interface{}) interface{} {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[fmt.Sprint(k)] = plain(e)
		}
		return m
	case []interface{}:
		for i := range x {
			x[i] = plain(x[i])
		}
	case int:
		return float64(x)
	}
	return v
}

func decode(format, s string) (interface{}, error) {
	var v interface{}
	if format == "yaml" {
		err := yaml.Unmarshal([]byte(s), &v)
		return plain(v), err
	}
	d := json.NewDecoder(strings.NewReader(s))
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one document")
	}
	return v, nil
}

var backEnds = []string{"tsl_mem json", "tsl_sqlite", "tsl_gorm", "tsl_mongo", "tsl_graphql"}
var parserForms = []string{"tsl_parser json", "tsl_parser yaml", "tsl_parser prettyjson", "tsl_parser dot", "tsl_parser sql"}

func genTools(c *Ctx) {
	every := func(s string) {
		for _, k := range parserForms {
			c.Emit(k, s)
		}
		for _, k := range backEnds {
			c.Emit(k, s)
		}
	}
	books := func(s string) {
		for _, k := range backEnds {
			c.Emit(k, s)
		}
	}
	c.Stage("arguments")
	for _, a := range [][]string{{"tsl_parser"}, {"tsl_parser", "-i", ""}, {"tsl_parser", "-x"}, {"tsl_mem"}, {"tsl_mem", "-i", ""}, {"tsl_mem", "-o", "json"}, {"tsl_mem", "-i", "title = 'x'", "-o", "sql"}, {"tsl_mem", "-x"}, {"tsl_sqlite", "-x"}, {"tsl_gorm", "-x"}, {"tsl_mongo", "-x"},
		{"tsl_mongo", "-u", "nothing://127.0.0.1"}, {"tsl_sqlite", "-f", "/nowhere/x.db"}, {"tsl_gorm", "-f", "/nowhere/x.db"}} {
		c.Emit("args", a...)
	}
	c.Stage("every field with every operator and value")
	vals := map[string][]string{
		"title":       {"'Book'", "'Other Book'", "'book'", "'%Book'", "'Some%'", "'Some _reat Book'", "''", "1", "author", "title"},
		"author":      {"'Joe'", "'Jane'", "'JOE'", "'J__'", "'J[ao]'", "title"},
		"spec.pages":  {"50", "100", "150.5", "15", "550", "-1", "'50'", "spec.rating", "spec.rating * 10"},
		"spec.rating": {"4", "5", "2", "0", "3.0", "'4'", "spec.pages / 50"},
		"on_loan":     {"true", "false", "1", "'true'", "on_loan"},
	}
	var atoms []string
	for _, f := range []string{"title", "author", "spec.pages", "spec.rating", "on_loan"} {
		for _, v := range vals[f] {
			for _, op := range cmpText {
				atoms = append(atoms, f+" "+op+" "+v)
			}
			for _, w := range vals[f] {
				atoms = append(atoms, f+" between "+v+" and "+w, f+" not between "+v+" and "+w, f+" in ("+v+", "+w+")", f+" not in ("+v+", "+w+")")
			}
		}
		atoms = append(atoms, f, f+" is null", f+" is not null", "not "+f+" is null", f+" in ()", f+" not in ()", "nothing = "+f, f+" = nothing", f+" + 1 > 50", f+" % 100 = 50", f+" * 2 = 200", f+" - 50 = "+f+" * 0", f+" / 2 >= 50", f+" > 2020-01-01", "\""+f+"\" = 1", "["+f+"] = 'Joe'")
	}
	for _, a := range atoms {
		books(a)
		c.Emit("tsl_mem yaml", a)
		for _, k := range parserForms {
			c.Emit(k, a)
		}
	}
	for _, f := range []string{"pages = 50", "rating = 4", "Title = 'Book'", "onloan = true", "id = 1", "name is null", "spec = 1", "spec.page = 1", "deleted_at is null", "spec.pages.x = 1", "title = 'Book' or pages = 1", "not rating is null", "_id = 1", "on-loan = true"} {
		books(f)
	}
	c.Stage("every two conditions in every way")
	short := []string{"title = 'Book'", "author = 'Joe'", "spec.pages > 100", "spec.pages between 50 and 150", "spec.rating = 4", "spec.rating is null", "title like '%Other%'", "spec.rating in (2, 5)", "title ~= '^S'", "author != 'Joe'", "spec.pages not in (50, 100)", "spec.rating not between 3 and 4", "spec.pages + 1 = 101", "nothing = 1", "author ilike 'j%'"}
	if version == 5 {
		short = append(short, "on_loan = true", "spec.pages > spec.rating * 30", "on_loan != true", "title > author")
	}
	for _, a := range short {
		for _, b := range short {
			for _, x := range []string{"@ and #", "@ or #", "not (@) and #", "not (@ or #)"} {
				books(strings.Replace(strings.Replace(x, "@", a, 1), "#", b, 1))
			}
		}
	}
	for i, a := range short {
		for j, b := range short {
			for k, d := range short {
				if c.Thorough || (i+j+k)%7 == 0 {
					books(a + " and " + b + " or " + d)
					books(a + " or not (" + b + " and " + d + ")")
				}
			}
		}
	}
	c.Stage("collections made again")
	for _, s := range short {
		for _, k := range []string{"tsl_sqlite -p", "tsl_gorm -p", "tsl_mongo -p"} {
			c.Emit(k, s)
			c.Emit(k, "not ("+s+")")
		}
	}
	c.Stage("every two and three requests to one GraphQL server, with filters that are almost the same")
	near := []string{
		"title = 'Other Book'", "title = 'Other  Book'", "title = ' Other Book'", "title = 'other book'", "title='Other Book'", "TITLE = 'Other Book'",
		"title = 'OTHER BOOK'", "title\n=\n'Other Book'", "title = 'Other\nBook'", "title != 'Other Book'", "author = 'Other Book'", "title = 'OtherBook'", "title = \"Other Book\"",
		"author like 'J%'", "author like 'j%'", "author ilike 'j%'", "author not like 'J%'", "author like 'J_'",
		"spec.pages = 50", "spec.pages = 50.0", "spec.pages = 5", "spec.pages = 500", "spec.pages = '50'", "spec.pages != 50",
		"spec.rating in (5, 4)", "spec.rating in (4, 5)", "spec.rating in (54)", "spec.rating in (5 , 4 )", "spec.rating not in (5, 4)", "spec.rating = 5", "spec.rating = 4",
		"spec.pages between 50 and 150", "spec.pages between 150 and 50", "spec.pages not between 50 and 150",
		"title = 'a' or author = 'Joe'", "title = 'a or author = ''Joe'''", "title = 'a' and author = 'Joe'",
		"not author = 'Joe' and spec.rating = 5", "not (author = 'Joe' and spec.rating = 5)", "author = 'Joe' or author = 'Jane' and spec.rating = 5", "(author = 'Joe' or author = 'Jane') and spec.rating = 5",
		"spec.rating is null", "spec.rating is not null", "title is null",
		"", "title", "title = ", "title = 'Other Book", "nothing = 'Other Book'", "title ~= 'Other Book'", "title ~! 'Other Book'", "spec.pages + 1 = 51", "spec.pages - 1 = 51",
	}
	if version == 5 {
		near = append(near, "on_loan = true", "on_loan = false", "on_loan != true", "spec.pages > spec.rating", "spec.pages < spec.rating", "title = 2020-01-02")
	}
	for i, a := range near {
		for j, b := range near {
			c.Emit("requests tsl_graphql", a, b, a)
			for _, d := range near {
				if c.Thorough {
					c.Emit("requests tsl_graphql", a, b, d)
				}
			}
			if !c.Thorough && (i+j)%5 == 0 {
				c.Emit("requests tsl_graphql", a, b, near[(i*7+j*3+1)%len(near)])
			}
		}
	}
	c.Stage("every sequence of up to 3 tokens")
	sequences(c, tokenClasses, c.D(3, 4), func(s string) {
		c.Emit("tsl_parser json", s)
		if _, ok := lang.Parse(s); !ok {
			books(strings.Replace(s, "a", "title", -1))
		} else {
			every(s)
		}
	})
	c.Stage("texts")
	Strings(c, "a'\"\\\n\t<>&{}|:#- ,[]%@`!*?0é\u2028\u0085", c.D(1, 2), func(s string) {
		s = strings.Replace(s, "'", "''", -1)
		every("title = '" + s + "'")
		every("title != 'x" + s + "'")
		every("author in ('Joe', '" + s + "') or title like '" + s + "%'")
		every("title " + s)
	})
	for _, s := range []string{"", " ", "true", "null", "~", "yes", "1", "-1", "1.5", "0x10", ".inf", "2020-01-02", "- a", "a: b", "# a", "&a", "*a", "!a", "|", ">", "{}", "[]", "a\nb", "\na", "a\n", "\n\n a\n", "  a\n b", "---", "...", "\r\n", "\x01", "\x7f", "\u00a0", "\ufeff", "😀", "<<", "=", strings.Repeat("x ", 200), strings.Repeat("a\n", 50)} {
		for _, k := range parserForms {
			c.Emit(k, "a = '"+strings.Replace(s, "'", "''", -1)+"'")
			c.Emit(k, "a in ('"+s+"', 1) and b like '"+s+"'")
		}
	}
	for _, m := range allLiterals() {
		for _, k := range parserForms {
			c.Emit(k, "a = "+m)
			c.Emit(k, "b in ("+m+", "+m+") or c between "+m+" and 1")
		}
	}
	for n := 0; n <= c.D(30, 100); n++ {
		for i, p := range pumps {
			if strings.Contains(p[1], "(") && n > 20 {
				continue
			}
			s := Pump(p, n)
			c.Emit(parserForms[(n+i)%len(parserForms)], s)
		}
	}
}
