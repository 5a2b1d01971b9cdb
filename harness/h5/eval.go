package main

import (
	"strconv"
	"strings"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
)

func init() { register("L03", genL03, checkEval) }

type record struct {
	rec  map[string]interface{}
	snap string
}

var records = map[string]*record{}

func loadRecord(s string) *record {
	r := records[s]
	if r == nil {
		if len(records) > 5000 {
			records = map[string]*record{}
		}
		rec := ReadRecord(s)
		r = &record{rec, Snapshot(rec)}
		records[s] = r
	}
	return r
}

// checkEval compares an evaluation with the model, and that it leaves everything as it was.
// Args: filter, record.
func checkEval(c *Ctx, cs Case) *Failure {
	p := load(cs.Args[0])
	if !p.ok {
		c.Outcome("not in the language")
		return nil
	}
	r := loadRecord(cs.Args[1])
	eval := func(k string) (interface{}, bool) {
		v, ok := r.rec[k]
		return v, ok
	}
	want, why := lang.Truth(p.model, r.rec)
	got, err := semantics.Walk(p.node, eval)
	c.Trace()
	c.Trans(p.model.Size())
	where := "\nfilter: " + p.text + "\nrecord: " + cs.Args[1]
	switch {
	case why == NotDefined:
		c.Outcome(why)
	case why != "":
		c.Outcome("error: " + why)
		c.State(p.canon + why)
		if err == nil {
			return failf("v%d gives %v, want an error: %s%s", version, got, why, where)
		}
	default:
		c.Outcome(strconv.FormatBool(want))
		c.State(p.canon + strconv.FormatBool(want))
		if err != nil {
			return failf("v%d gives error %v, want %v%s", version, err, want, where)
		}
		if got != want {
			return failf("v%d gives %v, want %v%s", version, got, want, where)
		}
	}
	if s := Snapshot(r.rec); s != r.snap {
		delete(records, cs.Args[1])
		return failf("v%d: the record changed\nbefore: %s\nafter:  %s%s", version, r.snap, s, where)
	}
	if s := fromImpl(p.node).String(); s != p.canon {
		last = nil
		return failf("v%d: the tree changed\nbefore: %s\nafter:  %s%s", version, p.canon, s, where)
	}
	if cs.Kind == "reenter" {
		// A function that uses the library itself, also on the same tree.
		inner := ""
		in, e := semantics.Walk(p.node, func(k string) (interface{}, bool) {
			g, err3 := semantics.Walk(p.node, eval)
			if g != got || (err == nil) != (err3 == nil) {
				inner = strconv.FormatBool(g)
			}
			if x, err := tsl.ParseTSL(k + " like 'x%' or not " + k + " in (1, 's')"); err == nil {
				semantics.Walk(x, eval)
				sql.Walk(x)
			}
			return eval(k)
		})
		if inner != "" || in != got || (e == nil) != (err == nil) {
			return failf("v%d evaluates to %v %v, with a function that uses the library to %v %v %s%s", version, got, err, in, e, inner, where)
		}
	}
	again, err2 := semantics.Walk(p.node, eval)
	if again != got || (err == nil) != (err2 == nil) {
		return failf("v%d evaluates to %v %v, and again to %v %v%s", version, got, err, again, err2, where)
	}
	return nil
}

var scalars = []string{"nil", "true", "false", "f:0", "f:1", "f:-1", "f:1.5", "f:2", "f:-2.5", "f:9007199254740993", "f:1e300", "f:NaN", "f:Inf", "f:-Inf",
	"f32:1.5", "f32:0.1", "i:1", "i:0", "i:-3", "i32:2", "i32:-70000", "i64:1", "i64:9007199254740993", "u:1", "u32:4294967295", "u64:18446744073709551615", "u64:2",
	"s:", "s:s", "s:S", "s:1", "s:true", "s:t", "s:F", "s:s t", "s:2020-01-01", "t:2020-01-01T00:00:00Z", "t:2020-01-01T01:00:00+01:00", "t:2020-01-01T00:00:00.000000001Z", "t:2019-12-31T23:59:59Z",
	"strs", "strs0", "strs1", "strst"}

// Types that are not supported: an error and no panic.
var others = []string{"map", "ints", "bytes", "struct", "func", "nilptr", "cplx", "error", "[]", "[s:s]"}

func literals() []string {
	l := []string{"0", "1", "-1", "1.5", "2", "'s'", "'S'", "''", "'1'", "'t'", "'TRUE'", "'%'", "'^[a-s]$'", "'['"}
	if version == 5 {
		l = append(l, "1Ki", "true", "false", "2020-01-01", "2020-01-01T00:00:00Z", "2019-12-31T19:00:00-05:00", "2020-01-01T00:00:00.000000001Z")
	}
	return l
}

var cmpText = []string{"=", "!=", "<", "<=", ">", ">=", "~=", "~!", "like", "not like", "ilike", "not ilike"}

func genL03(c *Ctx) {
	vals := append(append([]string{}, scalars...), others...)
	lits := literals()
	c.Stage("every operator on every value and every literal")
	for _, op := range append([]string{"is", "is not"}, cmpText...) {
		for _, l := range lits {
			for _, v := range vals {
				c.Emit("eval", "a "+op+" "+l, "a="+v)
				c.Emit("eval", "not a "+op+" "+l, "a="+v)
			}
			c.Emit("eval", "a "+op+" "+l, "b=f:1")
		}
	}
	for _, v := range append(vals, "") {
		r := "a=" + v
		if v == "" {
			r = ""
		}
		for _, f := range []string{"a is null", "a is not null", "a in ()", "a not in ()", "not a is null", "not a in ()"} {
			c.Emit("eval", f, r)
		}
		if version == 5 {
			for _, f := range []string{"a + 1 is null", "(a * 2) is not null", "a + b is null", "a % 2 = 1"} {
				c.Emit("eval", f, r)
				c.Emit("eval", f, r+";b=f:2")
			}
		}
	}
	c.Stage("every list and range of up to two literals on every value")
	for _, l := range lits {
		for _, v := range vals {
			c.Emit("eval", "a in ("+l+")", "a="+v)
			c.Emit("eval", "a not in ("+l+")", "a="+v)
		}
		for _, m := range lits {
			for _, v := range vals {
				if !c.Next() {
					continue
				}
				for _, f := range []string{"a in (@, #)", "a not in (@, #)", "a between @ and #", "a not between @ and #"} {
					c.Do(Case{"eval", []string{strings.NewReplacer("@", l, "#", m).Replace(f), "a=" + v}})
				}
			}
		}
	}
	if version == 5 {
		c.Stage("every operator on every pair of values of every type")
		for _, op := range cmpText[:8] {
			for _, x := range vals {
				for _, y := range vals {
					c.Emit("eval", "a "+op+" b", "a="+x+";b="+y)
				}
			}
			c.Emit("eval", "a "+op+" b", "a=f:1")
			c.Emit("eval", "a "+op+" b", "b=f:1")
			c.Emit("eval", "a "+op+" b", "")
		}
	} else {
		c.Stage("arithmetic is an error")
		for _, f := range []string{"a + 1 = 2", "a * b < 2", "(a - 1) in (1, 2)", "a % 2 between 0 and 1", "a + 1 = 1 or a = 1"} {
			for _, v := range scalars {
				c.Emit("eval", f, "a="+v+";b=f:1")
			}
		}
	}
	c.Stage("every expression of comparisons with up to 3 operators on every assignment")
	logic := func(leaves []string, n int, paren bool) {
		joins(leaves, []string{"and", "or"}, []string{"not"}, n, paren, func(f string) {
			for m := 0; m < 8; m++ {
				if c.Next() {
					r := ""
					for k, name := range []string{"p", "q", "r"} {
						r += ";" + name + "=" + map[int]string{0: "f:0", 1: "f:1"}[m>>uint(k)&1]
					}
					c.Do(Case{"eval", []string{f, r[1:]}})
				}
			}
		})
	}
	logic([]string{"p = 1", "q = 1", "r = 1"}, 2, true)
	logic([]string{"p = 1", "q = 1"}, 3, false)
	logic([]string{"p = 1"}, 4, false)
	c.Stage("errors, nulls and truth values in every expression with 2 operators")
	joins([]string{"p = 1", "n = 1", "e = 1", "n is null", "missing != 2"}, []string{"and", "or"}, []string{"not"}, 2, true, func(f string) {
		c.Emit("eval", f, "p=f:1;n=nil;e=map")
		c.Emit("eval", f, "p=f:0;n=i:1;e=s:s")
		c.Emit("eval", f, "p=s:1;n=nil;e=i:1")
	})
	c.Stage("the function that gives the fields uses the library itself")
	reenter := []string{"p = 1", "n is null", "e like 's%'", "p in (1, 's')", "p not in (0, 2)", "n between 1 and 2", "e not between 'a' and 'z'", "missing != 2", "e ~= '^s'"}
	if version == 5 {
		reenter = append(reenter, "p = n", "p + n > 1", "e >= p")
	}
	joins(reenter, []string{"and", "or"}, []string{"not"}, 1, true, func(f string) {
		for _, r := range []string{"p=f:1;n=nil;e=s:s", "p=f:0;n=i:1;e=s:t", "p=s:1;n=nil;e=map"} {
			c.Emit("reenter", f, r)
		}
	})
	c.Stage("patterns")
	pats := "a%_.A"
	np := c.D(3, 4)
	var subjects []string
	Strings(c, "aA.\n", 3, func(s string) { subjects = append(subjects, s) })
	subjects = append(subjects, "a%_", "%", "_", "é", "éa", "\\", "a\\", "aaaa", "AaAa", "\n\n", "漢", "ſ", "K", "K", "ß", "É", "é漢", "a(b", "[a]", "^a$", "a|b", "a+", "a*", "?", "{1}", "\u2028")
	Strings(c, pats, np, func(p string) {
		for _, s := range subjects {
			if c.Next() {
				c.Do(Case{"eval", []string{"a like '" + p + "'", "a=" + SText(s)}})
				c.Do(Case{"eval", []string{"a ilike '" + p + "'", "a=" + SText(s)}})
			}
		}
	})
	for _, p := range subjects {
		for _, s := range subjects {
			for _, op := range []string{"like", "ilike", "~=", "~!", "not like", "=", "<", "<="} {
				for _, w := range []string{p, p + "%", "%" + p, "_" + p, p + "_"} {
					c.Emit("eval", "a "+op+" '"+w+"'", "a="+SText(s))
				}
			}
		}
	}
	for _, p := range []string{"a.*b", "^$", "a|b", "(", "[", "a{2}", "(?i)A", "\\d+", ".", "a\\", "*", "^a", "b$", "[^a]", "(a)(b)?", "\\", ""} {
		for _, s := range []string{"", "a", "b", "ab", "aab", "A", "1", "x\ny", "(", "a\\"} {
			for _, op := range []string{"~=", "~!"} {
				c.Emit("eval", "a "+op+" '"+p+"'", "a="+SText(s))
				if version == 5 {
					c.Emit("eval", "a "+op+" b", "a="+SText(s)+";b="+SText(p))
				}
			}
		}
	}
	c.Stage("many wildcards, long texts and long regular expressions")
	for _, n := range []int{2, 3, 5, 8, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1000} {
		for _, u := range [][2]string{{"%a", "a"}, {"_%", "b"}, {"%_", "é"}, {"%ab%", "aab"}, {"a.%", "a.b"}, {"a_", "ab"}, {"a", "a"}} {
			if n > 300 && u[0] != "a" {
				continue
			}
			p := strings.Repeat(u[0], n)
			for _, k := range []int{n - 1, n, n + 1} {
				t := strings.Repeat(u[1], k)
				for _, end := range [][2]string{{"", ""}, {"c", "c"}, {"", "c"}, {"c%", "cab"}} {
					for _, op := range []string{"like", "ilike"} {
						c.Emit("eval", "a "+op+" '"+p+end[0]+"'", "a="+SText(t+end[1]))
						c.Emit("eval", "a "+op+" '"+end[0]+p+"'", "a="+SText(end[1]+t))
					}
				}
				if !strings.ContainsAny(u[0], "%_") {
					c.Emit("eval", "a ~= '^"+p+"$'", "a="+SText(t))
					c.Emit("eval", "a ~! '"+p+"'", "a="+SText("x"+t))
					c.Emit("eval", "a ~= '^("+p+"){"+strconv.Itoa(n%200)+"}'", "a="+SText(t))
					c.Emit("eval", "a = '"+p+"'", "a="+SText(t))
					c.Emit("eval", "a < '"+p+"'", "a="+SText(t))
					c.Emit("eval", "a in ('"+p+"', 'b')", "a="+SText(t))
				}
			}
		}
	}
	c.Stage("lists of every length with the value in every place")
	max := c.D(40, 130)
	for n := 1; n <= max; n++ {
		for at := 0; at <= n; at++ {
			if !c.Next() {
				continue
			}
			list := func(f func(i int) string) string {
				p := make([]string, n)
				for i := range p {
					p[i] = f(i)
				}
				return "(" + strings.Join(p, ", ") + ")"
			}
			num := list(func(i int) string { return strconv.Itoa((i*7)%131 + 1000) })
			str := list(func(i int) string { return "'k" + strconv.Itoa((i*7)%131) + "'" })
			for _, op := range []string{" in ", " not in "} {
				c.Do(Case{"eval", []string{"a" + op + num, "a=i:" + strconv.Itoa((at*7)%131+1000)}})
				c.Do(Case{"eval", []string{"a" + op + str, "a=s:k" + strconv.Itoa((at*7)%131)}})
				bad := list(func(i int) string {
					if i == at {
						return "'x'"
					}
					return strconv.Itoa(i)
				})
				c.Do(Case{"eval", []string{"a" + op + bad, "a=i:0"}})
			}
		}
	}
	c.Stage("lists of every length with a literal that is close to the value")
	tw := [][2]string{{"'1'", "f:1"}, {"1", "s:1"}, {"1", "i:1"}, {"1", "u8:1"}, {"1", "f32:1"}, {"1", "f:1.0000000000000002"}, {"1", "true"}, {"'true'", "true"}, {"''", "nil"}, {"'<nil>'", "nil"}, {"0", "nil"}, {"'A'", "s:a"}, {"'a '", "s:a"}, {"' a'", "s:a"}, {"'a'", "s:A"}, {"'a'", "s:a "}, {"'é'", "s:É"},
		{"0.1", "f32:0.1"}, {"16777217", "f32:16777216"}, {"9007199254740992", "i64:9007199254740993"}, {"0", "f:-0"}, {"-1", "i8:-1"}, {"255", "u8:255"}, {"-1", "u64:18446744073709551615"}, {"1000000", "s:1e+06"}, {"'01'", "f:1"}, {"'a%'", "s:ab"}, {"'2020-01-02'", "s:2020-01-02"}, {"'a'", "map"}, {"1", "strs"}}
	if version == 5 {
		for _, x := range []string{"2020-01-02", "2020-01-02T00:00:00Z", "2020-01-02T01:00:00+01:00", "2020-01-02T00:00:00.5Z"} {
			for _, y := range []string{"t:2020-01-02T00:00:00Z", "t:2020-01-02T01:00:00+01:00", "t:2020-01-02T00:00:00.5Z", "s:2020-01-02"} {
				tw = append(tw, [2]string{x, y})
			}
		}
	}
	for n := 1; n <= max; n++ {
		for _, w := range tw {
			for _, fill := range []string{"'zz", "77", "2001-01-"} {
				if fill == "2001-01-" && version != 5 {
					continue
				}
				for _, at := range []int{0, n / 2, n - 1} {
					if !c.Next() {
						continue
					}
					lits := make([]string, n)
					for i := range lits {
						switch fill {
						case "77":
							lits[i] = strconv.Itoa(77 + i)
						case "'zz":
							lits[i] = "'zz" + strconv.Itoa(i) + "'"
						default:
							lits[i] = fill + strconv.Itoa(10+i%20)
						}
					}
					lits[at] = w[0]
					v := w[1]
					if strings.HasPrefix(v, "s:") {
						v = SText(v[2:])
					}
					for _, op := range []string{" in ", " not in "} {
						c.Do(Case{"eval", []string{"a" + op + "(" + strings.Join(lits, ", ") + ")", "a=" + v}})
					}
				}
			}
		}
	}
	if version == 5 {
		c.Stage("dates")
		var ts []string
		for _, d := range []string{"2020-01-01T00:00:00", "2020-01-01T05:30:00", "2019-12-31T18:30:00", "2020-01-01T00:00:00.5", "2020-01-01T00:00:00.000000001", "2020-02-29T23:59:59.999999999", "1969-12-31T23:59:59", "0001-01-01T00:00:00", "9999-12-31T23:59:59"} {
			for _, z := range []string{"Z", "+05:30", "-05:30", "+00:00"} {
				ts = append(ts, d+z)
			}
		}
		for _, x := range ts {
			for _, y := range append([]string{"2020-01-01", "1970-01-01"}, ts...) {
				for _, op := range cmpText[:6] {
					c.Emit("eval", "a "+op+" "+y, "a=t:"+x)
				}
				c.Emit("eval", "a in ("+y+", 2001-02-03)", "a=t:"+x)
				c.Emit("eval", "a not in (2001-02-03, "+y+")", "a=t:"+x)
				c.Emit("eval", "a between "+y+" and 2020-01-01T05:30:00+05:30", "a=t:"+x)
				c.Emit("eval", "a not between 2020-01-01T05:30:00+05:30 and "+y, "a=t:"+x)
				if len(y) > 10 {
					c.Emit("eval", "a < b or a = b", "a=t:"+x+";b=t:"+y)
				}
			}
		}
		c.Stage("every arithmetic expression with up to 2 operators")
		nums := []string{"i:0", "i:7", "f:-2.5", "u64:3", "f32:1.5", "nil", "s:s", "true", "strs", "map"}
		joins([]string{"n", "m", "2"}, []string{"+", "-", "*", "/", "%"}, nil, 2, true, func(f string) {
			for _, x := range nums {
				for _, y := range nums[:c.D(5, 10)] {
					if c.Next() {
						for _, s := range []string{f + " = 7", "x < " + f, f + " != 1.5", f + " in (2, 7, -5)", f + " between -1 and 7", f + " is null"} {
							c.Do(Case{"eval", []string{s, "n=" + x + ";m=" + y + ";x=f:2"}})
						}
					}
				}
			}
		})
		joins([]string{"n", "m"}, []string{"+", "-", "*", "/", "%"}, nil, 3, false, func(f string) {
			c.Emit("eval", f+" >= 2 * k", "n=i:7;m=f:-2.5;k=i:1")
			c.Emit("eval", f+" <= 2 * k", "n=f:0.5;m=u64:3;k=f:0.5")
		})
	}
}
