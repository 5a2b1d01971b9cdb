package main

import (
	"fmt"
	"strings"
	"time"

	. "tslverif/common"

	sq "github.com/Masterminds/squirrel"
	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
)

func init() {
	register("Q01", genQ01, checkSQL)
	register("Q02", genQ02, checkSQLText)
}

// hasSQL tells if a tree has an SQL form.
func hasSQL(t *T) bool {
	switch t.K {
	case "ARRAY":
		return false
	case "UN":
		return (t.Op == "NOT" || t.Op == "NEG") && hasSQL(t.C[0])
	case "BIN":
		if !hasSQL(t.C[0]) {
			return false
		}
		if t.Op == "IN" || t.Op == "BETWEEN" {
			if t.C[1].K != "ARRAY" {
				return false
			}
			for _, e := range t.C[1].C {
				if !hasSQL(e) {
					return false
				}
			}
			return true
		}
		return hasSQL(t.C[1])
	}
	return true
}

// sqlTree is the tree that the condition must denote: with the values that SQL gets, and a contradiction
// for a test against an empty list.
func sqlTree(t *T) *T {
	switch t.K {
	case "BOOLEAN":
		if t.B {
			return Num(1)
		}
		return Num(0)
	case "DATE":
		return Str(t.S)
	case "TIMESTAMP":
		if d, err := time.Parse(time.RFC3339Nano, t.S); err == nil {
			return Str(d.UTC().Format("2006-01-02 15:04:05.999999999"))
		}
		return Str(t.S)
	case "BIN":
		if t.Op == "IN" && len(t.C[1].C) == 0 {
			return &T{K: "FALSE"}
		}
	}
	u := *t
	u.C = make([]*T, len(t.C))
	for i, c := range t.C {
		u.C[i] = sqlTree(c)
	}
	return &u
}

// sqlArg is the leaf of an argument.
func sqlArg(v interface{}) *T {
	switch x := v.(type) {
	case string:
		return Str(x)
	case float64:
		return Num(x)
	case int:
		return Num(float64(x))
	case int64:
		return Num(float64(x))
	}
	return &T{K: fmt.Sprintf("ARG-%T", v)}
}

// falseSQL turns a comparison of two different constant numbers into the contradiction it is.
func falseSQL(t *T) *T {
	u := *t
	u.C = make([]*T, len(t.C))
	for i, c := range t.C {
		u.C[i] = falseSQL(c)
	}
	if u.K == "BIN" && u.Op == "EQ" && u.C[0].K == "TEXTNUM" && u.C[1].K == "TEXTNUM" && u.C[0].S != u.C[1].S {
		return &T{K: "FALSE"}
	}
	return &u
}

func toSQL(n *tsl.TSLNode) (string, []interface{}, error, bool) {
	f, err := sql.Walk(n)
	if err != nil {
		return "", nil, err, f != nil
	}
	s, args, err := f.ToSql()
	return s, args, err, false
}

func checkSQL(c *Ctx, cs Case) *Failure {
	p := load(expand(cs))
	if !p.ok {
		c.Outcome("not in the language")
		return nil
	}
	if p.err != nil {
		return failf("the filter is rejected: %s: %v", q(p.text), p.err)
	}
	if !hasSQL(p.model) {
		c.Outcome("no SQL form")
		return nil
	}
	plain := true
	p.model.Walk(func(t *T) {
		plain = plain && !(t.K == "IDENTIFIER" && strings.ContainsAny(t.S, "/[]*"))
	})
	if !plain {
		c.Outcome("names that SQL does not have")
		return nil
	}
	s, args, err, _ := toSQL(p.node)
	c.Trace()
	c.Trans(p.model.Size())
	if err != nil {
		return failf("error %v\nfilter: %s", err, q(p.text))
	}
	got, err := ParseSQL(s, args, sqlArg, func(t SQLTok) *T {
		if t.K == "num" {
			return &T{K: "TEXTNUM", S: t.S}
		}
		return nil
	})
	if err != nil {
		return failf("the condition is not SQL: %v\nfilter: %s\nsql: %s\nargs: %v", err, q(p.text), q(s), args)
	}
	w := NormSQL(sqlTree(p.model)).String()
	if g := NormSQL(falseSQL(got)).String(); g != w {
		return failf("the condition means another expression\nfilter: %s\nsql: %s\nargs: %#v\nmeans: %s\nwant:  %s", q(p.text), q(s), args, g, w)
	}
	c.State(w)
	c.Outcome("converted " + p.model.K + " " + p.model.Op)
	return nil
}

func leavesOf(t *T, out *[]*T) {
	switch t.K {
	case "IDENTIFIER", "NULL":
		return
	case "NUMBER", "STRING", "BOOLEAN", "DATE", "TIMESTAMP":
		*out = append(*out, sqlTree(t))
		return
	case "BIN":
		if t.Op == "IN" && len(t.C[1].C) == 0 {
			return
		}
	}
	for _, x := range t.C {
		leavesOf(x, out)
	}
}

var sqlWords = map[string]bool{"AND": true, "OR": true, "NOT": true, "IN": true, "BETWEEN": true, "IS": true, "NULL": true, "LIKE": true, "ILIKE": true, "REGEXP": true}

func checkSQLText(c *Ctx, cs Case) *Failure {
	p := load(expand(cs))
	if !p.ok {
		c.Outcome("not in the language")
		return nil
	}
	if p.err != nil {
		return failf("the filter is rejected: %s: %v", q(p.text), p.err)
	}
	s, args, err, cond := toSQL(p.node)
	c.Trace()
	c.Trans(p.model.Size())
	if !hasSQL(p.model) {
		c.Outcome("no SQL form")
		if err == nil {
			return failf("converted, but it has no SQL form\nfilter: %s\nsql: %s\nargs: %v", q(p.text), q(s), args)
		}
		if cond {
			return failf("a condition with an error\nfilter: %s\nerror: %v", q(p.text), err)
		}
		c.State("error " + p.canon)
		return nil
	}
	if err != nil {
		return failf("error %v\nfilter: %s", err, q(p.text))
	}
	c.State(s)
	c.Outcome("converted")
	if n := strings.Count(s, "?"); n != len(args) {
		return failf("%d placeholders for %d arguments\nfilter: %s\nsql: %s\nargs: %v", n, len(args), q(p.text), q(s), args)
	}
	var want []*T
	leavesOf(p.model, &want)
	if len(want) != len(args) {
		return failf("%d arguments for %d literals\nfilter: %s\nsql: %s\nargs: %#v", len(args), len(want), q(p.text), q(s), args)
	}
	for i, w := range want {
		if g := sqlArg(args[i]); g.String() != w.String() {
			return failf("argument %d is %s, want %s\nfilter: %s\nsql: %s", i, g.String(), w.String(), q(p.text), q(s))
		}
	}
	// Only identifiers of the filter, keywords, operators, placeholders and the empty list.
	ids := map[string]bool{}
	p.model.Walk(func(n *T) {
		if n.K == "IDENTIFIER" {
			ids[n.S] = true
		}
	})
	plain := strings.Replace(s, "(1=0)", " ", -1)
	for _, w := range strings.FieldsFunc(plain, func(r rune) bool { return strings.ContainsRune(" ()?+-*%=<>!,", r) || r == '/' && len(ids) == 0 }) {
		if !ids[w] && !sqlWords[w] && w != "/" && !exotic(w, ids) {
			return failf("%s in the text of the condition\nfilter: %s\nsql: %s", q(w), q(p.text), q(s))
		}
	}
	// In a query, with the placeholders of another dialect.
	f, _ := sql.Walk(p.node)
	s2, args2, err := sq.Select("*").From("t").Where(f).PlaceholderFormat(sq.Dollar).ToSql()
	if err != nil || len(args2) != len(args) || strings.Count(s2, "$") != len(args) {
		return failf("in a query: %v, %d arguments\nfilter: %s\nsql: %s", err, len(args2), q(p.text), q(s2))
	}
	if len(s) > 0 && !strings.HasPrefix(s2, "SELECT * FROM t WHERE ") {
		return failf("not a condition of the query\nfilter: %s\nsql: %s", q(p.text), q(s2))
	}
	return nil
}

// exotic tells if a word is a piece of an identifier with operator characters.
func exotic(w string, ids map[string]bool) bool {
	for k := range ids {
		if strings.ContainsAny(k, "[]/*-") && strings.Contains(k, w) {
			return true
		}
	}
	return false
}

func genQ01(c *Ctx) {
	leaves := []*T{Id("a"), Num(2), Str("s")}
	c.Stage("every tree with up to 2 operators, every operator")
	EnumTrees(c, Space{N: 2, Leaves: leaves, Bin: AllBin6, Un: AllUn6, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("text", Text6(t, false))
	})
	c.Stage("every operator on subtrees of every form")
	GenRich6(c, c.D(14, 35), func(t *T) { c.Emit("text", Text6(t, false)) })
	c.Stage("every literal in every place")
	lits := []string{"a", "a.b_c", "A1", "0", "1", "-1", "1.5", "1Ki", "1e300", "9007199254740993", "0.1", "''", "'s'", "'it\\'s'", "'?'", "'a\\nb'", "'é'", "true", "false", "2020-01-02", "'2020-01-02'", "2020-13-01",
		"2020-01-02T03:04:05Z", "'2020-01-02T03:04:05.120Z'", "2020-01-02T03:04:05.123456789+05:30", "2020-01-02T25:04:05Z", "2020-01-01T00:30:00+01:00"}
	for _, x := range lits {
		c.Emit("text", x)
		for _, y := range lits {
			for _, f := range []string{"@ = #", "@ + #", "@ like #", "@ in [#]", "@ not in [a, #, 1]", "a between @ and #", "not (@ and #)", "@ or # or a", "@ ~! #", "# is null and @", "- (@ - #)", "@ in [1, #, 2, @]"} {
				c.Emit("text", strings.NewReplacer("@", x, "#", y).Replace(f))
			}
		}
	}
	c.Stage("every timestamp")
	for h := 0; h < 24; h++ {
		for _, z := range []string{"Z", "+00:00", "-00:00", "+01:00", "-23:59", "+05:45"} {
			for _, fr := range []string{"", ".0", ".5", ".123", ".000001", ".999999999", ".1234567891"} {
				for _, d := range []string{"2020-01-01", "2020-02-29", "2019-12-31", "2021-02-29"} {
					c.Emit("text", fmt.Sprintf("a > %sT%02d:59:59%s%s", d, h, fr, z))
				}
			}
		}
	}
	c.Stage("empty lists, long lists, deep trees")
	for _, f := range []string{"a in []", "not a in []", "a not in []", "a in [] and b", "b or a in [1] and a in []", "(a in []) = b", "1 in []", "a + 1 in []", "(a in []) is null"} {
		c.Emit("text", f)
	}
	for n := 0; n <= c.D(80, 300); n++ {
		sn := fmt.Sprint(n)
		for _, p := range [][]string{{"a in [1", ", 'x'", "", "", "]"}, {"", "a = 1 and ", "b", "", ""}, {"", "a = 1 and b or ", "c", "", ""}, {"", "not ", "a", "", ""}, {"", "(a - ", "1", ")", " = 2"}, {"", "not (a or ", "b = 1", ")", ""}, {"", "a - ", "1", "", ""},
			{"", "- ", "a", "", ""}, {"", "(", "a = 1", ") = b", ""}, {"", "b = (", "a", ")", ""}, {"", "(a = 1 and b) or (", "c", ")", ""}} {
			c.Emit("pump", append([]string{sn}, p...)...)
		}
	}
	c.Stage("long texts")
	GenLong6(c)
	GenWide6(c)
	c.Stage("every tree with 3 operators, one operator per class")
	EnumTrees(c, Space{N: 3, Leaves: []*T{Id("a"), Num(2)}, Bin: []string{"OR", "AND", "EQ", "RNE", "IN", "SUB", "DIV"}, Un: []string{"NOT", "NEG"}, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("text", Text6(t, false))
	})
	if c.Thorough {
		c.Stage("every tree with 3 operators, every operator, one leaf")
		EnumTrees(c, Space{N: 3, Leaves: []*T{Id("a")}, Bin: AllBin6, Un: AllUn6, Is: true, Between: true, Array: true}, func(t *T) {
			c.Emit("text", Text6(t, false))
		})
		c.Stage("every tree with 4 operators, one operator per class, one leaf")
		EnumTrees(c, Space{N: 4, Leaves: []*T{Id("a")}, Bin: []string{"OR", "AND", "EQ", "SUB", "DIV"}, Un: []string{"NOT", "NEG"}, Between: true}, func(t *T) {
			c.Emit("text", Text6(t, false))
		})
	}
}

func genQ02(c *Ctx) {
	c.Stage("every string of 2 characters that mean something in SQL, as a value")
	Strings(c, "'\"`;?$:-/*\\%_()x1=#@\n \x01é,[]{}|&!~<>", 2, func(s string) {
		for _, f := range []string{"a = @", "@", "a like @ or b = @", "a in [@, 1, @]", "a not between @ and @", "@ ~= a"} {
			c.Emit("text", strings.Replace(f, "@", Quote6(s), -1))
		}
	})
	for _, s := range []string{"' OR 1=1 --", "x'; DROP TABLE t; --", "?", "??", "$1", ":name", "@p", "%s", "%d%!", "(1=0)", "NULL", "null", "1=0", "a AND b", "\\' or 1", "\u2019", strings.Repeat("?", 300), strings.Repeat("'", 1000)} {
		for _, f := range []string{"a = @", "@", "a like @ or b = @", "a in [@, 1, @]", "a not between @ and @", "@ ~= a", "[@]", "len @"} {
			c.Emit("text", strings.Replace(f, "@", Quote6(s), -1))
		}
	}
	c.Stage("every tree with up to 2 operators, with and without an SQL form")
	EnumTrees(c, Space{N: 2, Leaves: []*T{Id("a"), Num(2), Str("?'")}, Bin: AllBin6, Un: AllUn6, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("text", Text6(t, false))
	})
	c.Stage("every operator on subtrees of every form")
	GenRich6(c, c.D(14, 35), func(t *T) { c.Emit("text", Text6(t, false)) })
	c.Stage("every literal next to every other")
	lits := []string{"a", "a.b", "a/b", "a[0]", "a[*].b", "1", "-1.5", "'s'", "'?'", "true", "false", "2020-01-02", "'2020-01-02T03:04:05Z'", "2020-13-01", "[]", "[1]", "[[1]]", "[a, '?']", "len a", "any a", "all a", "sum a", "not a", "- a", "a in [len b]", "a is null"}
	for _, x := range lits {
		for _, y := range lits {
			for _, f := range []string{"@ = #", "@ + #", "@ in #", "@ not in #", "@ in [#]", "a in [@, #]", "@ between # and 1", "@ and #", "not (@ or #)", "(@) is null or #", "@ like #", "@ ~! #", "[@, #]", "@ in [] or #"} {
				c.Emit("text", strings.NewReplacer("@", x, "#", y).Replace(f))
			}
		}
	}
	c.Stage("every tree with 3 operators, one operator per class")
	EnumTrees(c, Space{N: 3, Leaves: []*T{Id("a"), Str("?")}, Bin: []string{"AND", "EQ", "IN", "SUB"}, Un: []string{"NOT", "LEN"}, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("text", Text6(t, false))
	})
	c.Stage("long lists and texts")
	for n := 0; n <= c.D(100, 500); n++ {
		sn := fmt.Sprint(n)
		for _, p := range [][]string{{"a in [1", ", '?'", "", "", "]"}, {"", "a = '?' and ", "b", "", ""}, {"a = '", "?", "'", "", ""}, {"a in [1", ", '?'", ", []", "", "]"}, {"", "a = 1 or ", "len b", "", ""}, {"", "(", "[a]", ")", " = 1"}} {
			c.Emit("pump", append([]string{sn}, p...)...)
		}
	}
}
