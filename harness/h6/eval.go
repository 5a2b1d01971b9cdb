package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
)

func init() {
	register("E01", genE01, checkEval)
	register("E02", genE02, checkEval)
	register("E03", genE03, checkEval)
	register("E04", genE04, checkEval)
	register("E05", genE05, checkEval)
	register("E06", genE06, checkTotal)
}

func evalFunc(rec map[string]interface{}) semantics.EvalFunc {
	return func(k string) (interface{}, bool) {
		v, ok := rec[k]
		return v, ok
	}
}

// The last filters are kept: the cases of one filter follow one another.
type parsed struct {
	text  string
	node  *tsl.TSLNode
	err   error
	model *T
	ok    bool
	canon string
}

var last parsed

func load(s string) *parsed {
	if last.text == s && last.canon != "" {
		return &last
	}
	if last.node != nil {
		last.node.Free()
	}
	last = parsed{text: s, canon: "x"}
	last.node, last.err = tsl.ParseTSL(s)
	last.model, _, last.ok = Parse6(s)
	if last.ok && last.err == nil {
		last.canon = last.model.String()
	}
	return &last
}

type record struct {
	rec, norm map[string]interface{}
	snap      string
}

var records = map[string]*record{}

func loadRecord(s string) *record {
	r := records[s]
	if r == nil {
		if len(records) > 5000 {
			records = map[string]*record{}
		}
		rec := ReadRecord(s)
		r = &record{rec, NormRecord(rec), Snapshot(rec)}
		records[s] = r
	}
	return r
}

// checkEval compares an evaluation with the model. Args: filter, record.
func checkEval(c *Ctx, cs Case) *Failure {
	p := load(cs.Args[0])
	if !p.ok {
		c.Outcome("not in the language")
		return nil
	}
	if p.err != nil {
		return failf("the filter is rejected: %s: %v", q(cs.Args[0]), p.err)
	}
	r := loadRecord(cs.Args[1])
	if DatesMatched(p.model, r.norm) || ModUnclear(p.model, r.norm) {
		c.Outcome("not defined")
		return nil
	}
	want, werr := Eval6(p.model, r.norm)
	got, err := semantics.Walk(p.node, evalFunc(r.rec))
	c.Trace()
	c.Trans(p.model.Size())
	return compare(c, cs, p, want, werr, got, err)
}

func compare(c *Ctx, cs Case, p *parsed, want interface{}, werr *Errs, got interface{}, err error) *Failure {
	where := "filter: " + cs.Args[0] + "\nrecord: " + cs.Args[1]
	if werr != nil {
		if err == nil {
			return failf("value %s, want an error (%s)\n%s", CanonValue(got), reason(werr), where)
		}
		var k tsl.KeyNotFoundError
		var kp *tsl.KeyNotFoundError
		key, isKey := "", false
		if errors.As(err, &k) {
			key, isKey = k.Key, true
		} else if errors.As(err, &kp) {
			key, isKey = kp.Key, true
		}
		if werr.Other == "" || isKey {
			// The error of a missing field names it.
			found := false
			for _, m := range werr.Missing {
				found = found || isKey && m == key || !isKey && strings.Contains(err.Error(), m)
			}
			if !found {
				return failf("the error does not name a missing field %v: %v\n%s", werr.Missing, err, where)
			}
			c.Outcome("missing field")
			c.State(p.canon + " missing")
			return nil
		}
		c.Outcome("error: " + reason(werr))
		c.State(p.canon + " " + reason(werr))
		return nil
	}
	w := CanonValue(want)
	if err != nil {
		return failf("error %v, want %s\n%s", err, w, where)
	}
	if g := CanonValue(got); g != w {
		return failf("value %s, want %s\n%s", g, w, where)
	}
	c.State(p.canon + " " + w)
	switch want.(type) {
	case bool, nil:
		c.Outcome(w)
	case float64:
		c.Outcome("number")
	case []interface{}:
		c.Outcome("array")
	default:
		c.Outcome("other value")
	}
	return nil
}

func reason(e *Errs) string {
	if e.Other != "" {
		return e.Other
	}
	return "missing"
}

// checkReenter evaluates with a function that uses the library itself, also on the same tree, whenever it is
// asked for a field: the result is the one of a plain function. Args: filter, records.
func checkReenter(c *Ctx, cs Case) *Failure {
	p := load(cs.Args[0])
	if !p.ok || p.err != nil {
		return checkTotal(c, cs)
	}
	show := func(v interface{}, err error) string {
		if err != nil {
			return "error " + err.Error()
		}
		return "value " + CanonValue(v)
	}
	for _, rs := range cs.Args[1:] {
		r := loadRecord(rs)
		plain := evalFunc(r.rec)
		want := show(semantics.Walk(p.node, plain))
		inner := ""
		got := show(semantics.Walk(p.node, func(k string) (interface{}, bool) {
			if g := show(semantics.Walk(p.node, plain)); g != want {
				inner = g
			}
			if x, err := tsl.ParseTSL("not any [" + k + " like 'x%', 2 in [1, " + k + "]]"); err == nil {
				semantics.Walk(x, plain)
				toSQL(x)
				y := x.Clone()
				x.Free()
				y.Free()
			}
			return plain(k)
		}))
		c.Trace()
		c.Trans(p.model.Size())
		where := "\nfilter: " + cs.Args[0] + "\nrecord: " + rs
		if inner != "" {
			return failf("evaluated while it is evaluated: %s, want %s%s", inner, want, where)
		}
		if got != want {
			return failf("with a function that uses the library: %s, want %s%s", got, want, where)
		}
		c.Outcome("reentered")
		c.State(p.canon + " reentered " + want)
	}
	return nil
}

// checkTotal evaluates a tree on records in several orders: no panic, the same results, and nothing
// changes. Args: filter, records.
func checkTotal(c *Ctx, cs Case) *Failure {
	if cs.Kind == "reenter" {
		cs.Kind = "total"
		return checkReenter(c, cs)
	}
	p := load(cs.Args[0])
	if !p.ok {
		c.Outcome("not in the language")
		return nil
	}
	if p.err != nil {
		return failf("the filter is rejected: %s: %v", q(cs.Args[0]), p.err)
	}
	recs := cs.Args[1:]
	var first []string
	res := func(i int) string {
		r := loadRecord(recs[i])
		v, err := semantics.Walk(p.node, evalFunc(r.rec))
		c.Trace()
		c.Trans(1)
		if err != nil {
			c.Outcome("error")
			return "error " + err.Error()
		}
		c.Outcome("value")
		return "value " + CanonValue(v)
	}
	for i := range recs {
		first = append(first, res(i))
	}
	order := make([]int, 0, 2*len(recs))
	for i := range recs {
		order = append(order, len(recs)-1-i)
	}
	for i := range recs {
		order = append(order, i, i)
	}
	for _, i := range order {
		if g := res(i); g != first[i] {
			return failf("evaluated again: %s, the first time: %s\nfilter: %s\nrecord: %s", g, first[i], cs.Args[0], recs[i])
		}
	}
	for i := range recs {
		r := loadRecord(recs[i])
		if s := Snapshot(r.rec); s != r.snap {
			delete(records, recs[i])
			return failf("the record changed\nfilter: %s\nbefore: %s\nafter:  %s", cs.Args[0], r.snap, s)
		}
		c.State(p.canon + " " + first[i])
	}
	if t := fromImpl(p.node).String(); t != p.canon {
		return failf("the tree changed\nfilter: %s\nbefore: %s\nafter:  %s", cs.Args[0], p.canon, t)
	}
	// A clone evaluates the same.
	cl := p.node.Clone()
	defer cl.Free()
	for i := range recs {
		r := loadRecord(recs[i])
		v, err := semantics.Walk(cl, evalFunc(r.rec))
		g := "value " + CanonValue(v)
		if err != nil {
			g = "error " + err.Error()
		}
		if g != first[i] {
			return failf("a clone evaluates to %s, the tree to %s\nfilter: %s\nrecord: %s", g, first[i], cs.Args[0], recs[i])
		}
	}
	return nil
}

// Values of records, of every type.
var scalars = []string{"nil", "true", "false", "f:0", "f:1", "f:-1", "f:1.5", "f:2", "f:-2.5", "f:9007199254740993", "f:1e300", "f:NaN", "f:Inf", "f:-Inf",
	"f32:1.5", "f32:0.1", "i:1", "i:0", "i:-3", "i8:1", "i8:-128", "i16:1", "i16:-300", "i32:2", "i32:-70000", "i64:1", "i64:9007199254740993",
	"u:1", "u8:1", "u8:255", "u16:65535", "u32:4294967295", "u64:18446744073709551615", "u64:2",
	"s:", "s:s", "s:S", "s:1", "s:true", "s:s t", "s:2020-01-01", "s:2020-01-02T00:00:00Z", "s:2020-13-01", "t:2020-01-01T00:00:00Z", "t:2020-01-02T01:00:00+01:00"}

var others = []string{"map", "map2", "ints", "strs", "bytes", "struct", "slices", "func", "nilptr", "cplx", "dur", "jsonum", "error", "arr0"}

var arrays = []string{"[]", "[f:1]", "[true]", "[false]", "[true,false]", "[true,true]", "[s:s]", "[nil]", "[f:1,s:s]", "[f:1,true]", "[f:1,f:2,f:3]", "[i:1,u8:2,f32:1.5]",
	"[[f:1],f:2]", "[[f:1,f:2],[f:3]]", "[[]]", "[[true]]", "[s:2020-01-01,s:s]", "[t:2020-01-01T00:00:00Z]", "[s:s,s:S,s:s]", "[map]", "[f:1,nil]", "[f:0,f:-2.5]", "[true,nil]", "[false,f:1]",
	"[[[f:1]]]", "[f:NaN]", "[false,false,true]", "[true,true,false]", "[f:1,f:2,s:s]", "nilarr"}

var binText = []string{"=", "!=", "<", "<=", ">", ">=", "~=", "~!", "like", "ilike", "in", "+", "-", "*", "/", "%", "and", "or", "not like", "not ilike", "not in"}

var literals = []string{"0", "1", "1.5", "-1", "1k", "'s'", "'S'", "''", "'1'", "true", "false", "2020-01-01", "'2020-01-01'", "2020-01-02T00:00:00Z", "'2020-01-02T00:00:00Z'", "2020-13-01", "'2020-13-01'",
	"[]", "[1]", "[1, 's']", "[1, 2, 's', true, '2020-01-01']", "[true, false]", "[a]", "[0, 1]", "[[1], 2]", "- a", "not true", "[2020-01-01, 's']"}

func genE01(c *Ctx) {
	vals := append(append([]string{}, scalars...), others[:9]...)
	c.Stage("every binary operator on every pair of values of every type")
	for _, op := range binText {
		f := "a " + op + " b"
		for _, x := range vals {
			for _, y := range append(vals[:len(vals):len(vals)], "[]", "[f:1]", "[s:s,f:2,true]", "[s:2020-01-01,nil]") {
				c.Emit("eval", f, "a="+x+";b="+y)
			}
		}
	}
	c.Stage("every operator on every value and every literal")
	for _, l := range literals {
		for _, op := range binText {
			for _, x := range vals {
				c.Emit("eval", "a "+op+" "+l, "a="+x)
				c.Emit("eval", l+" "+op+" a", "a="+x)
			}
		}
		for _, m := range literals {
			for _, op := range binText {
				c.Emit("eval", l+" "+op+" "+m, "a=f:1")
			}
			c.Emit("eval", "a between "+l+" and "+m, "a=f:1")
			c.Emit("eval", "a not between "+l+" and "+m, "a=s:2020-01-01")
			c.Emit("eval", "a not between "+l+" and "+m, "a=nil")
			c.Emit("eval", "a between "+l+" and "+m, "a=s:s")
		}
		for _, op := range []string{"not ", "- ", "len ", "any ", "all ", "sum "} {
			c.Emit("eval", op+l, "a=f:1")
			c.Emit("eval", "not "+op+l, "a=f:1")
		}
	}
	for _, op := range []string{"", "not ", "- ", "- - ", "not not ", "not - ", "len ", "any ", "all ", "sum "} {
		for _, x := range vals {
			c.Emit("eval", op+"a", "a="+x)
		}
	}
	c.Stage("every range and list over every triple of values")
	trip := []string{"nil", "true", "f:0", "f:1", "i:1", "i32:2", "u8:3", "f32:1.5", "f:-1", "f:NaN", "s:s", "s:t", "s:", "s:2020-01-01", "s:2020-01-02T00:00:00Z", "t:2020-01-01T00:00:00Z", "t:2020-01-03T00:00:00+05:00", "map", "strs", "[f:1]"}
	for _, f := range []string{"a between b and c", "a not between b and c", "a in [b, c]", "a not in [b, c]", "a in [b, c, 1, 's']", "a in [b] or a in [c]"} {
		for _, x := range trip {
			for _, y := range trip {
				for _, z := range trip {
					c.Emit("eval", f, "a="+x+";b="+y+";c="+z)
				}
			}
		}
	}
	c.Stage("every expression of boolean fields with up to 3 operators on every assignment")
	exprs(c, 3, []string{"p", "q", "r"}, []string{"and", "or"}, []string{"not "}, func(f string) {
		for m := 0; m < 8; m++ {
			if c.Next() {
				bit := func(k int) string { return strconv.FormatBool(m>>uint(k)&1 == 1) }
				c.Do(Case{"eval", []string{f, "p=" + bit(0) + ";q=" + bit(1) + ";r=" + bit(2)}})
			}
		}
	})
	c.Stage("every arithmetic expression with up to 2 operators on numbers")
	nums := []string{"i:0", "i:7", "f:-2.5", "u8:3", "f:0.5", "f32:1.5"}
	exprs(c, 2, []string{"n", "m", "2"}, []string{"+", "-", "*", "/", "%"}, []string{"- "}, func(f string) {
		for _, x := range nums {
			for _, y := range nums {
				c.Emit("eval", f, "n="+x+";m="+y)
			}
		}
	})
	c.Stage("every comparison of arithmetic and logic of comparisons, with up to 3 operators")
	exprs(c, 2, []string{"n", "s", "true", "2", "d"}, binText[:18], []string{"not ", "- "}, func(f string) {
		for _, r := range []string{"n=i:2;s=s:s;d=s:2020-01-01", "n=f:-1.5;s=s:2;d=nil", "n=nil;s=true;d=t:2020-01-01T00:00:00Z"} {
			c.Emit("eval", f, r)
		}
	})
	c.Stage("lists of every length with the value in every place")
	genLists(c, c.D(40, 120), []string{"number", "descending", "string", "boolean", "mixed"})
	c.Stage("lists of every length with a literal that differs from the value in the type or in the spelling only")
	genTwins(c, upTo(c.D(80, 300)), twins)
	c.Stage("every arithmetic expression with 3 operators on numbers")
	exprs(c, 3, []string{"n", "3"}, []string{"+", "-", "*", "/", "%"}, nil, func(f string) {
		for _, x := range nums {
			c.Emit("eval", f, "n="+x)
		}
	})
	if c.Thorough {
		c.Stage("every expression of boolean fields with 4 operators on every assignment")
		exprs(c, 4, []string{"p", "q"}, []string{"and", "or"}, []string{"not "}, func(f string) {
			for m := 0; m < 4; m++ {
				c.Emit("eval", f, "p="+strconv.FormatBool(m&1 == 1)+";q="+strconv.FormatBool(m&2 == 2))
			}
		})
	}
}

// exprs visits every expression, fully parenthesized, with up to n operators over the leaves.
func exprs(c *Ctx, n int, leaves, bin, un []string, f func(string)) {
	by := make([][]string, n+1)
	by[0] = leaves
	for k := 0; k <= n; k++ {
		if k > 0 {
			for _, u := range un {
				for _, x := range by[k-1] {
					by[k] = append(by[k], u+"("+x+")")
				}
			}
			for i := 0; i < k; i++ {
				for _, l := range by[i] {
					for _, r := range by[k-1-i] {
						for _, op := range bin {
							by[k] = append(by[k], "("+l+") "+op+" ("+r+")")
						}
					}
				}
			}
		}
		for _, x := range by[k] {
			if c.Stopped() {
				return
			}
			f(x)
		}
	}
}

// upTo has every length from 1 to n.
func upTo(n int) (l []int) {
	for i := 1; i <= n; i++ {
		l = append(l, i)
	}
	return l
}

// genLists emits lists of every length with the value in every place, or not at all.
func genLists(c *Ctx, max int, kinds []string) {
	elem := func(kind string, i int) (lit, val string) {
		switch kind {
		case "number":
			return strconv.Itoa(i * 2), "i:" + strconv.Itoa(i*2)
		case "descending":
			return strconv.Itoa(1000 - i), "f:" + strconv.Itoa(1000-i)
		case "string":
			return "'s" + strconv.Itoa(i) + "'", "s:s" + strconv.Itoa(i)
		case "date":
			d := fmt.Sprintf("20%02d-01-02", i%100)
			return d, "s:" + d + "T00:00:00Z"
		case "boolean":
			if i%7 == 6 {
				return "true", "true"
			}
			return "false", "true"
		}
		switch i % 5 {
		case 0:
			return strconv.Itoa(i), "f:" + strconv.Itoa(i)
		case 1:
			return "'" + strconv.Itoa(i) + "'", "s:" + strconv.Itoa(i)
		case 2:
			return fmt.Sprintf("'20%02d-03-04'", i%100), fmt.Sprintf("t:20%02d-03-04T00:00:00Z", i%100)
		case 3:
			return "a", "true"
		}
		return "[" + strconv.Itoa(i) + "]", "f:" + strconv.Itoa(i)
	}
	for n := 0; n <= max; n++ {
		for _, k := range kinds {
			var lits, vals []string
			for i := 0; i < n; i++ {
				l, v := elem(k, i)
				lits, vals = append(lits, l), append(vals, v)
			}
			list, arr := strings.Join(lits, ", "), strings.Join(vals, ",")
			for i := 0; i <= n; i++ {
				_, v := elem(k, i)
				c.Emit("eval", "a in ["+list+"]", "a="+v)
				c.Emit("eval", "a not in ["+list+"]", "a="+v)
				c.Emit("eval", "a in b", "a="+v+";b=["+arr+"]")
				c.Emit("eval", "any (b = a)", "a="+v+";b=["+arr+"]")
				c.Emit("eval", "len (b != a) + 1", "a="+v+";b=["+arr+"]")
			}
		}
	}
}

// Values next to literals that differ from them in the type, in the case, in the last digit or in the
// spelling only.
var twins = [][2]string{{"'1'", "f:1"}, {"'1'", "i:1"}, {"1", "s:1"}, {"1", "true"}, {"true", "f:1"}, {"'true'", "true"}, {"true", "s:true"}, {"'false'", "false"}, {"'2020-01-02'", "t:2020-01-02T00:00:00Z"}, {"2020-01-02", "s:2020-01-02T00:00:00Z"},
	{"2020-01-02T00:00:00Z", "s:2020-01-02"}, {"'2020-01-02 00:00:00 +0000 UTC'", "s:2020-01-02"}, {"'2020-01-02T00:00:00Z'", "t:2020-01-02T05:00:00+05:00"}, {"2020-01-02T00:00:00.5Z", "t:2020-01-02T00:00:00Z"}, {"'<nil>'", "nil"}, {"'nil'", "nil"}, {"''", "nil"}, {"'null'", "nil"}, {"0", "nil"}, {"0", "false"}, {"0", "s:"},
	{"'[1]'", "[f:1]"}, {"[1]", "s:[1]"}, {"[1]", "[f:1]"}, {"'A'", "s:a"}, {"'a '", "s:a"}, {"'a'", "s:a "}, {"' a'", "s:a"}, {"'é'", "s:É"}, {"1.0000000000000002", "f:1"}, {"0.1", "f32:0.1"}, {"16777217", "f32:16777216"}, {"9007199254740992", "i64:9007199254740993"},
	{"18446744073709551615", "u64:18446744073709551615"}, {"-1", "u64:18446744073709551615"}, {"255", "u8:255"}, {"-1", "u8:255"}, {"-1", "i8:-1"}, {"1e300", "f:1e300"}, {"0", "f:-0"}, {"1", "f32:1"}, {"'1e+06'", "f:1000000"}, {"1000000", "s:1e+06"}, {"'01'", "f:1"}, {"1", "s:01"}, {"'a%'", "s:ab"}, {"'a|b'", "s:a|b"}, {"'a,b'", "s:a"}, {"'NaN'", "f:NaN"}}

// genTwins emits lists of every length with a literal that is close to the value in some places.
func genTwins(c *Ctx, lengths []int, tw [][2]string) {
	for _, n := range lengths {
		for _, w := range tw {
			if strings.HasPrefix(w[1], "s:") {
				w[1] = SText(w[1][2:])
			}
			for _, fill := range []string{"'zz'", "77", "true", "2001-01-01", ""} {
				for _, at := range []int{0, n / 2, n - 1} {
					lits, vals := make([]string, n), make([]string, n)
					for i := range lits {
						f := fill
						switch {
						case fill == "" && i%2 == 0 || fill == "'zz'":
							f = "'zz" + strconv.Itoa(i) + "'"
						case fill == "" || fill == "77":
							f = strconv.Itoa(77 + i)
						}
						lits[i] = f
						vals[i] = "s:zz"
						if f[0] != '\'' && f != "true" {
							vals[i] = "f:" + strconv.Itoa(77+i)
						}
					}
					lits[at] = w[0]
					vals[at] = w[1]
					list := "[" + strings.Join(lits, ", ") + "]"
					c.Emit("eval", "a in "+list, "a="+w[1])
					c.Emit("eval", "a not in "+list, "a="+w[1])
					if fill == "'zz'" || fill == "77" {
						c.Emit("eval", w[0]+" in b", "b=["+strings.Join(vals, ",")+"]")
						c.Emit("eval", "any (b = "+w[0]+")", "b=["+strings.Join(vals, ",")+"]")
					}
				}
				if n == 0 {
					break
				}
			}
		}
	}
}

func genE02(c *Ctx) {
	c.Stage("every binary operator on every array and every value")
	vals := append(append(append([]string{}, scalars...), others[:6]...), arrays...)
	for _, op := range binText {
		f := "a " + op + " b"
		for _, x := range arrays {
			for _, y := range vals {
				c.Emit("eval", f, "a="+x+";b="+y)
			}
		}
		for _, y := range []string{"f:1", "s:s", "true", "nil"} {
			for _, x := range arrays {
				c.Emit("eval", f, "a="+y+";b="+x)
			}
		}
	}
	c.Stage("reductions of comparisons of arrays")
	reds := []string{"any ", "all ", "len ", "sum ", "not ", "- ", "any not ", "all not ", "not any ", "not all ", "len not ", "sum - ", "len - ", "- sum ", "any any ", "sum len "}
	for _, red := range reds {
		for _, x := range arrays {
			c.Emit("eval", red+"a", "a="+x)
			for _, y := range []string{"f:1", "f:2", "f:0", "s:s", "nil", "true", "s:2020-01-01", "[f:1]"} {
				for _, op := range binText {
					c.Emit("eval", red+"(a "+op+" b)", "a="+x+";b="+y)
				}
				c.Emit("eval", red+"(a between b and 2)", "a="+x+";b="+y)
				c.Emit("eval", red+"(a is null)", "a="+x+";b="+y)
				c.Emit("eval", red+"(a is not null)", "a="+x+";b="+y)
				c.Emit("eval", red+"[a, b]", "a="+x+";b="+y)
				c.Emit("eval", red+"([a, b] = 1)", "a="+x+";b="+y)
				c.Emit("eval", red+"(a in [b, 2])", "a="+x+";b="+y)
			}
		}
	}
	c.Stage("every operator on subtrees of every form")
	GenRich6(c, c.D(14, 35), func(t *T) {
		if c.Next() {
			s := Text6(t, false)
			for _, r := range []string{"a=f:1;b=true;b.c[0]/d=s:s", "a=[f:1,s:s];b=false;b.c[0]/d=[]", "a=nil;b=true;b.c[0]/d=s:2020-01-02"} {
				c.Do(Case{"eval", []string{s, r}})
			}
		}
	})
	c.Stage("every array of up to 4 elements of every kind")
	elems := []string{"true", "false", "f:1", "i:-2", "s:s", "nil", "[f:1]"}
	n := c.D(4, 6)
	var rec func(a []string)
	fs := []string{"any a", "all a", "len a", "sum a", "not a", "- a", "a = 1", "a + 1", "a != 's'", "any (a = 1)", "all (a > 0)", "sum (a * 2)", "len (a = 1)", "a is null", "any (a is null)",
		"a and true", "true and any a", "any (not a)", "a like 's'", "any (a in [1, 's'])", "1 in a", "'s' in a", "a > 0 and a < 2", "a in [a]", "[a] = 1", "a between 0 and 1", "not (a = 1)", "sum [1, sum a]"}
	rec = func(a []string) {
		if c.Stopped() {
			return
		}
		r := "a=[" + strings.Join(a, ",") + "]"
		for _, f := range fs {
			c.Emit("eval", f, r)
		}
		if len(a) < n {
			for _, e := range elems {
				rec(append(a[:len(a):len(a)], e))
			}
		}
	}
	rec(nil)
	c.Stage("arrays of every length, with one different element in every place")
	for n := 1; n <= c.D(70, 300); n++ {
		for i := 0; i <= n; i++ {
			b, x := make([]string, n), make([]string, n)
			for k := range b {
				b[k], x[k] = "true", "f:"+strconv.Itoa(k)
			}
			if i < n {
				b[i], x[i] = "false", "f:0.5"
			}
			r := "b=[" + strings.Join(b, ",") + "];x=[" + strings.Join(x, ",") + "]"
			for _, f := range []string{"all b", "any not b", "any (x = 0.5)", "sum x", "len x", "x * 2"} {
				c.Emit("eval", f, r)
			}
		}
	}
	for n := 0; n <= c.D(100, 400); n++ {
		c.Emit("eval", "x = 1", "x="+strings.Repeat("[", n)+"f:1"+strings.Repeat("]", n))
		c.Emit("eval", "1 + 1 = "+strings.Repeat("[", n)+"2"+strings.Repeat("]", n), "")
		c.Emit("eval", "("+strings.Repeat("[", n)+"2"+strings.Repeat("]", n)+") * 2", "")
	}
	c.Stage("expressions over arrays with up to 2 operators")
	exprs(c, 2, []string{"x", "n", "2", "[n, 2]"}, binText[:18], []string{"not ", "- ", "any ", "all ", "len ", "sum "}, func(f string) {
		for _, r := range []string{"x=[f:1,f:2];n=i:2", "x=[true,false];n=true", "x=[[f:2],f:1];n=[f:3]"} {
			c.Emit("eval", f, r)
		}
	})
}

func genE03(c *Ctx) {
	d := c.D(1, 2)
	lk := []string{"like", "ilike"}
	c.Stage("every text and pattern over a b %, pattern <= 6")
	Strings(c, "ab%", 5+d, func(p string) {
		for _, op := range lk {
			f := "s " + op + " " + Quote6(p)
			Strings(c, "ab", 4, func(s string) { c.Emit("eval", f, "s="+SText(s)) })
		}
	})
	c.Stage("every text and pattern over a A % _ . \\n, pattern <= 3")
	Strings(c, "aA%_.\n", 3+d-1, func(p string) {
		for _, op := range lk {
			f := "s " + op + " " + Quote6(p)
			Strings(c, "aA%_.\n", 3, func(s string) { c.Emit("eval", f, "s="+SText(s)) })
		}
	})
	c.Stage("special characters in texts and patterns, length <= 2")
	sp := "\\^$*+?()[]{}|-/&#~'\"`,;:é😀Éß1 \t\r\n%_a"
	Strings(c, sp, 2, func(p string) {
		for _, op := range []string{"like", "not ilike"} {
			f := "s " + op + " " + Quote6(p)
			for _, s := range []string{p, strings.ToUpper(p), p + "a", "a" + p, strings.Replace(p, "%", "xyz", -1), strings.Replace(p, "_", "é", -1), "", "a", "ab"} {
				c.Emit("eval", f, "s="+SText(s))
			}
		}
	})
	c.Stage("every text and pattern over special characters, length 1 and 2")
	Strings(c, "\\.*[(^$|?+é\n%_", 2, func(p string) {
		f := "s like " + Quote6(p)
		Strings(c, "\\.*[(^$|?+é\n%_", 2, func(s string) { c.Emit("eval", f, "s="+SText(s)) })
	})
	c.Stage("regular expressions over a b . * ^ $ | ( ) [ ] + ?, length <= 4")
	Strings(c, "ab.*^$|()[]+?\\", 3+d, func(p string) {
		for _, op := range []string{"~=", "~!"} {
			f := "s " + op + " " + Quote6(p)
			for _, s := range []string{"", "a", "b", "ab", "ba", "aa", "abab", "a\nb", "x", "AB", ".", "b*"} {
				c.Emit("eval", f, "s="+SText(s))
			}
		}
	})
	c.Stage("regular expressions with classes, flags and anchors")
	for _, p := range []string{"(?i)ab", "^a", "b$", "^$", "a{2}", "a{1,2}$", "[^a]", "\\\\d+", "\\d", "\\bab\\b", "(a|b)*", "(?s)a.b", "a.b", "(?m)^b", "\\pL", "é", "[[:alpha:]]", "a**", "(", "[", "x*", "(?=a)", "\\1", "a\\", "\\Aab\\z", "ab%", "%", "_", "a|^b", "(?i)É"} {
		for _, s := range []string{"", "a", "ab", "aab", "AB", "a\nb", "b", "é", "É", "1", "12", "a b", "xaby", "\\d", "%", "_", "a%", "ab%"} {
			for _, op := range []string{"~=", "~!"} {
				c.Emit("eval", "s "+op+" "+Quote6(p), "s="+SText(s))
			}
		}
	}
	c.Stage("long texts and patterns")
	for _, n := range []int{1, 10, 100, 255, 256, 257, 1000, 1024, 4096, 5000} {
		for _, k := range []int{n - 1, n, n + 1} {
			c.Emit("eval", "s like "+Quote6(strings.Repeat("a", n)), "s="+SText(strings.Repeat("a", k)))
			c.Emit("eval", "s like "+Quote6("%"+strings.Repeat("a", n)), "s="+SText("b"+strings.Repeat("a", k)))
			if n <= 1000 {
				c.Emit("eval", "s like "+Quote6(strings.Repeat("_", n)), "s="+SText(strings.Repeat("é", k)))
				c.Emit("eval", "s like "+Quote6(strings.Repeat("_", n)+"%"), "s="+SText(strings.Repeat("\n", k)))
			}
		}
	}
	c.Stage("many wildcards, long regular expressions")
	for _, n := range []int{1, 2, 3, 5, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129} {
		for _, u := range [][2]string{{"%a", "a"}, {"a%", "ab"}, {"_%", "b"}, {"%_", "é"}, {"%ab%", "aab"}, {"%%", "x"}, {"a_", "ab"}, {"a.%", "a.b"}} {
			p := strings.Repeat(u[0], n)
			for _, k := range []int{n - 1, n, n + 1} {
				t := strings.Repeat(u[1], k)
				for _, end := range [][2]string{{"", ""}, {"c", "c"}, {"", "c"}, {"c%", "cab"}} {
					for _, op := range lk {
						c.Emit("eval", "s "+op+" "+Quote6(p+end[0]), "s="+SText(t+end[1]))
						c.Emit("eval", "s "+op+" "+Quote6(end[0]+p), "s="+SText(end[1]+t))
					}
				}
			}
		}
		for _, k := range []int{n - 1, n, n + 1} {
			for _, p := range []string{strings.Repeat("a", n), "^" + strings.Repeat("a", n) + "$", "^(ab){" + strconv.Itoa(n) + "}$", strings.Repeat("(a|b)", n), strings.Repeat("a?", n) + "$", strings.Repeat("(", n) + "a" + strings.Repeat(")", k)} {
				for _, s := range []string{strings.Repeat("a", k), strings.Repeat("ab", k), "x" + strings.Repeat("a", k) + "x"} {
					c.Emit("eval", "s ~= "+Quote6(p), "s="+SText(s))
					c.Emit("eval", "s ~! "+Quote6(p), "s="+SText(s))
				}
			}
		}
	}
	c.Stage("values and patterns that are not strings, and patterns from fields")
	for _, op := range []string{"like", "ilike", "not like", "not ilike", "~=", "~!"} {
		for _, x := range append(append(append([]string{}, scalars...), others...), arrays...) {
			for _, y := range append(append([]string{"s:%", "s:s%", "s:_", "s:.", "s:("}, scalars...), others[:6]...) {
				c.Emit("eval", "a "+op+" b", "a="+x+";b="+y)
			}
			c.Emit("eval", "a "+op+" 's'", "a="+x)
			c.Emit("eval", "'s' "+op+" a", "a="+x)
		}
		for _, x := range []string{"a + b", "[a]", "a = b", "not true", "1"} {
			c.Emit("eval", "("+x+") "+op+" 's'", "a=s:s;b=f:1")
			c.Emit("eval", "'s' "+op+" ("+x+")", "a=s:s;b=f:1")
		}
	}
}

func genE04(c *Ctx) {
	texts := []string{"2020-01-01", "2020-01-02", "2019-12-31", "2020-02-29", "2021-02-29", "2020-13-01", "2020-00-10", "1969-12-31", "0001-01-01", "9999-12-31",
		"2020-01-01T00:00:00Z", "2020-01-01T01:00:00+01:00", "2019-12-31T23:00:00-01:00", "2020-01-01T00:00:00.0Z", "2020-01-01T00:00:00.000000001Z", "2020-01-01T00:00:00.1Z",
		"2020-01-01T00:00:00.10Z", "2020-01-01T05:30:00.1+05:30", "2020-01-01T24:00:00Z", "2020-01-01T23:59:59.999999999Z", "2020-01-01T23:59:60Z", "2020-01-02T00:00:00+00:00", "2020-01-01T12:00:00-12:00",
		"2020-06-01T12:00:00+14:00", "2020-01-01T00:00:00.123456789123Z", "2020-01-01T00:00:00.123456789Z", "2020-01-01T00:00:00.1234567Z"}
	// Texts for records: also those that are not a literal of the language.
	extra := []string{"2020-1-1", "2020-01-01 ", " 2020-01-01", "2020-01-01T00:00Z", "2020-01-01T00:00:00", "2020-01-01 00:00:00Z", "20200101", "2020/01/01", "s", "", "2020-01-01T00:00:00z", "2020-01-01t00:00:00Z", "2020-01"}
	rel := []string{"=", "!=", "<", "<=", ">", ">="}
	var recs []string
	for _, t := range append(append([]string{}, texts...), extra...) {
		recs = append(recs, "s:"+t)
	}
	for _, t := range texts {
		if d, ok := ReadDate(t); ok {
			recs = append(recs, "t:"+d.Format("2006-01-02T15:04:05.999999999Z07:00"), "t:"+d.Add(1).Format("2006-01-02T15:04:05.999999999Z07:00"))
			if len(t) > 10 {
				recs = append(recs, "t:"+t)
			}
		}
	}
	recs = append(recs, "nil", "f:1", "true", "map")
	c.Stage("every pair of spellings of dates as literal and record value, every operator")
	for _, t := range texts {
		for _, lit := range []string{t, "'" + t + "'"} {
			for _, op := range rel {
				for _, r := range recs {
					c.Emit("eval", "d "+op+" "+lit, "d="+r)
					c.Emit("eval", lit+" "+op+" d", "d="+r)
				}
			}
			for _, r := range recs {
				c.Emit("eval", "d in ["+lit+"]", "d="+r)
				c.Emit("eval", "d not in ['x', "+lit+", 1]", "d="+r)
				c.Emit("eval", lit+" in [1, d]", "d="+r)
			}
		}
	}
	c.Stage("every pair of record values, every operator")
	for _, op := range append(append([]string{}, rel...), "in [1,'s',", "not in [") {
		end := ""
		if strings.Contains(op, "[") {
			end = "]"
		}
		for _, x := range recs {
			for _, y := range recs {
				c.Emit("eval", "d "+op+" e"+end, "d="+x+";e="+y)
			}
		}
	}
	c.Stage("every pair of literals")
	for _, t := range texts {
		for _, u := range texts {
			for _, op := range rel {
				c.Emit("eval", t+" "+op+" '"+u+"'", "")
				c.Emit("eval", "\""+t+"\" "+op+" '"+u+"'", "")
			}
			c.Emit("eval", t+" in ['"+u+"']", "")
			c.Emit("eval", "'"+t+"' in [1, "+u+"]", "")
		}
	}
	c.Stage("ranges of dates")
	rt := []string{"2020-01-01", "2020-01-02", "'2019-12-31'", "2020-01-01T00:00:00.1Z", "'2020-01-01T01:00:00+01:00'", "2020-13-01", "'s'", "1", "2020-01-01T23:59:59.999999999Z"}
	for _, lo := range rt {
		for _, hi := range rt {
			for _, not := range []string{"", "not "} {
				for _, r := range recs {
					c.Emit("eval", "d "+not+"between "+lo+" and "+hi, "d="+r)
				}
			}
		}
	}
	c.Stage("lists of every length with the date in every place")
	genLists(c, c.D(30, 90), []string{"date", "mixed"})
	var dates [][2]string
	for _, x := range []string{"2020-01-02", "'2020-01-02'", "2020-01-02T00:00:00Z", "'2020-01-02T01:00:00+01:00'", "2020-01-02T00:00:00.0Z", "2020-01-02T00:00:00.5Z", "'2020-01-02T00:00:00.000000001Z'", "2020-01-01T23:59:59Z", "'s'", "20200102", "'2020-01-02 '"} {
		for _, y := range []string{"s:2020-01-02", "s:2020-01-02T00:00:00Z", "t:2020-01-02T00:00:00Z", "t:2020-01-02T01:00:00+01:00", "t:2020-01-02T00:00:00.5Z", "s:2020-01-02T00:00:00.0Z", "s:2020-01-02 ", "f:20200102"} {
			dates = append(dates, [2]string{x, y})
		}
	}
	c.Stage("lists of every length with a date of another spelling")
	genTwins(c, upTo(c.D(40, 120)), dates)
	c.Stage("dates in arrays, in and out of lists")
	for _, r := range recs {
		for _, s := range recs {
			c.Emit("eval", "any (d = 2020-01-01)", "d=["+r+","+s+"]")
			c.Emit("eval", "d < '2020-01-02'", "d=["+r+","+s+"]")
			c.Emit("eval", "2020-01-01 in d", "d=["+r+","+s+"]")
			c.Emit("eval", "e in d", "d=["+r+"];e="+s)
		}
	}
	if c.Thorough {
		c.Stage("every triple in a range from record values")
		for _, x := range recs {
			for _, y := range recs {
				for _, z := range recs {
					c.Emit("eval", "d between e and f", "d="+x+";e="+y+";f="+z)
				}
			}
		}
	}
}

func genE05(c *Ctx) {
	vals := append(append(append([]string{}, scalars...), others[:8]...), arrays...)
	c.Stage("null tests of every value")
	for _, f := range []string{"a is null", "a is not null", "not (a is null)", "a is null or true", "a is null and a = 1", "a is null is null", "[a] is null", "- a is null", "a is null = true", "any (a is null)", "(a = a) is null", "(a < a) is null", "(a in [1]) is null", "(a between 1 and 2) is null"} {
		for _, x := range vals {
			c.Emit("eval", f, "a="+x)
		}
		c.Emit("eval", f, "")
	}
	c.Stage("null on every side of every operator")
	for _, op := range binText {
		for _, x := range vals {
			c.Emit("eval", "a "+op+" n", "n=nil;a="+x)
			c.Emit("eval", "n "+op+" a", "n=nil;a="+x)
			c.Emit("eval", "n "+op+" [a]", "n=nil;a="+x)
			c.Emit("eval", "a "+op+" [n]", "n=nil;a="+x)
		}
		for _, l := range literals {
			c.Emit("eval", "n "+op+" "+l, "n=nil;a=f:1")
			c.Emit("eval", l+" "+op+" n", "n=nil;a=nil")
		}
	}
	for _, f := range []string{"n between a and b", "a between n and b", "a between b and n", "n in [a, b]", "a in [n, b]", "n not in [n, a]", "not (n = a)", "n = n", "n != n", "n < n", "n between n and n", "not n", "- n", "len n", "sum [n]", "len [n]", "any [n]", "all [n]", "any [n, true]"} {
		for _, x := range scalars {
			for _, y := range []string{"nil", "f:1", "s:s", "s:2020-01-01"} {
				c.Emit("eval", f, "n=nil;a="+x+";b="+y)
			}
		}
	}
	c.Stage("one or more missing fields in every place of every expression with up to 2 operators")
	exprs(c, c.D(2, 3), []string{"a", "b", "true", "1"}, []string{"and", "or", "=", "<", "in", "like", "+", "is null or", "~="}, []string{"not ", "- ", "any "}, func(f string) {
		for _, r := range []string{"", "a=true", "b=true", "a=f:1;b=s:s", "a=nil;b=nil", "b=nil"} {
			c.Emit("eval", f, r)
		}
	})
	c.Stage("missing fields in lists and ranges, and names that are close")
	for _, f := range []string{"a in [b, c]", "a in [1, b]", "a between b and c", "a between 1 and c", "[a, b, c]", "any [a, b]", "len [a, [b, [c]]]", "a is null", "a is not null", "not a is null or b is null", "a = 1 or b = 1 or c = 1",
		"true or a", "false and a", "a.b = 1", "a = 1 and a.b = 2", "A = 1", "aa = 1 or a = 1", "a[0] = 1", "a/b = 1", "- a", "not a", "len a", "sum a", "all a", "a", "1 + a", "(a + b) * c", "a ~= b", "a like 'x'", "'x' like a", "a = [b]", "1 in [1, a]", "false and (1 / a = 1)"} {
		for m := 0; m < 8; m++ {
			for _, v := range []string{"f:1", "nil", "true", "[true]", "s:x"} {
				var r []string
				for k, n := range []string{"a", "b", "c"} {
					if m>>uint(k)&1 == 1 {
						r = append(r, n+"="+v)
					}
				}
				c.Emit("eval", f, strings.Join(r, ";"))
			}
		}
	}
}

func genE06(c *Ctx) {
	var recs []string
	add := func(r string) { recs = append(recs, r) }
	vals := append(append(append([]string{}, scalars...), others...), arrays...)
	c.Stage("every operator on every pair of values of every type")
	for _, op := range binText {
		for _, x := range vals {
			recs = nil
			for _, y := range vals {
				add("a=" + x + ";b=" + y)
			}
			c.Emit("total", append([]string{"a " + op + " b"}, recs...)...)
			c.Emit("total", append([]string{"[a, b] " + op + " [b]"}, recs...)...)
		}
	}
	c.Stage("ranges and prefix operators on every value")
	for _, x := range vals {
		recs = nil
		for _, y := range vals {
			add("a=" + y + ";b=" + x)
		}
		for _, f := range []string{"a between b and 2", "a between 1 and b", "b between a and 's'", "a not between b and 2020-01-01", "a in [b, [a]]", "b in a", "not a", "- a", "len a", "any a", "all a", "sum a", "a is null", "any (a = b)", "sum (a * b)", "all not (a in [b])"} {
			c.Emit("total", append([]string{f}, recs...)...)
		}
	}
	c.Stage("every expression with up to 2 operators on several records")
	all := []string{"a=f:1;b=s:s", "a=nil;b=true", "a=[f:1,[s:s]];b=[]", "a=map;b=ints", "", "a=s:2020-01-01;b=func", "a=slices;b=slices", "a=f:NaN;b=u64:18446744073709551615", "a=true"}
	d := 1
	leaves := []string{"a", "b", "1", "'s'", "2020-01-01", "[a]"}
	if d == 1 {
		exprs(c, 2, leaves, binText[:18], []string{"not ", "- ", "len ", "any ", "all ", "sum "}, func(f string) {
			c.Emit("total", append([]string{f}, all...)...)
		})
	}
	exprs(c, 2, leaves[:3+d], binText[:18], []string{"not ", "- ", "len ", "any ", "all ", "sum "}, func(f string) {
		c.Emit("total", append([]string{f}, all...)...)
	})
	c.Stage("the function that gives the fields uses the library itself")
	exprs(c, 1, leaves, binText, []string{"not ", "- ", "len ", "any ", "all ", "sum "}, func(f string) {
		c.Emit("reenter", append([]string{f}, all...)...)
	})
	exprs(c, 2, leaves[:3], []string{"and", "=", "in", "like", "+"}, []string{"not ", "any "}, func(f string) {
		c.Emit("reenter", append([]string{f}, all...)...)
	})
	for _, f := range []string{"a between b and a", "a in [b, a, 's']", "[a, [b, a]] = b", "sum [a, b, 1]", "a ~= 's' or b ~= 's'", "a = 2020-01-01 or b = '2020-01-01'", "a is null and b is not null", "a is null or b is null"} {
		c.Emit("reenter", append([]string{f}, all...)...)
	}
	c.Stage("deep and wide trees")
	for _, p := range [][]string{{"", "not (", "a", ")", ""}, {"", "(a + ", "1", ")", ""}, {"", "a and ", "a", "", ""}, {"a in [", "b, ", "1", "", "]"}, {"", "[", "a", "]", ""}, {"", "- ", "1", "", ""}, {"", "any [", "a", "]", ""}} {
		for _, n := range []int{1, 2, 10, 100, 500} {
			c.Emit("total", append([]string{Pump(p, n)}, all...)...)
		}
	}
}
