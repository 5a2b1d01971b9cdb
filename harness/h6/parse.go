package main

import (
	"errors"
	"strconv"
	"strings"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

func init() {
	register("T01", genT01, checkTree)
	register("T02", genT02, checkTree)
	register("T03", genT03, checkError)
}

// checkTree: what the model accepts is accepted, with the tree of the model, and nothing else is.
func checkTree(c *Ctx, cs Case) *Failure {
	s := expand(cs)
	steps := Steps6
	want, _, ok := Parse6(s)
	got, err := parse(s)
	c.Trace()
	c.Trans(1 + Steps6 - steps)
	if !ok {
		c.Outcome("rejected")
		if err == nil {
			return failf("accepted, but it is not in the language\ninput: %s\ntree: %s", q(s), q(got.String()))
		}
		return nil
	}
	w := want.String()
	c.State(w)
	if err != nil {
		return failf("rejected, but it is in the language\ninput: %s\nerror: %v\nwant tree: %s", q(s), err, q(w))
	}
	c.Outcome("root " + want.K + " " + want.Op)
	if g := got.String(); g != w {
		return failf("wrong tree\ninput: %s\ngot:  %s\nwant: %s", q(s), q(g), q(w))
	}
	return nil
}

// checkError: what the model rejects is rejected with a usable error.
func checkError(c *Ctx, cs Case) *Failure {
	s := expand(cs)
	steps := Steps6
	_, at, ok := Parse6(s)
	n, err := tsl.ParseTSL(s)
	c.Trace()
	c.Trans(1 + Steps6 - steps)
	if ok {
		// Acceptance is the subject of T01 and T02, here only the shape of the result.
		c.Outcome("accepted")
		if err == nil {
			if n == nil {
				return failf("neither a tree nor an error\ninput: %s", q(s))
			}
			n.Free()
		}
		return nil
	}
	c.State(at.K + "@" + strconv.Itoa(at.Start) + "/" + strconv.Itoa(len(s)))
	if err == nil {
		n.Free()
		return failf("accepted, but it is not in the language\ninput: %s", q(s))
	}
	if n != nil {
		return failf("a tree with an error\ninput: %s", q(s))
	}
	var se *tsl.SyntaxError
	if !errors.As(err, &se) {
		return failf("the error is a %T, not a *SyntaxError\ninput: %s", err, q(s))
	}
	c.Outcome("rejected at " + at.K)
	if se.Input != s {
		return failf("the error does not carry the input\ninput: %s\nerror has: %s", q(s), q(se.Input))
	}
	if se.Message == "" {
		return failf("the error has no message\ninput: %s", q(s))
	}
	if se.Position < 0 || se.Position > len(s) {
		return failf("position %d is outside the input\ninput: %s", se.Position, q(s))
	}
	want := ErrorPos6(s, at)
	nul := strings.IndexByte(s, 0)
	if nul >= 0 {
		want = nul
	}
	if se.Position != want {
		return failf("position %d, want %d\ninput: %s", se.Position, want, q(s))
	}
	if nul < 0 {
		if f := checkContext(s, at, se.Context); f != "" {
			return failf("the context is %s, %s\ninput: %s", q(se.Context), f, q(s))
		}
	}
	lines := strings.Split(err.Error(), "\n")
	if end := lines[len(lines)-1]; end != strings.Repeat(" ", se.Position)+"^" || !strings.Contains(lines[0], strconv.Itoa(se.Position)) {
		return failf("the text of the error does not point at position %d\ninput: %s\ntext: %s", se.Position, q(s), q(err.Error()))
	}
	if txt := err.Error(); !strings.Contains(txt, s) || !strings.Contains(txt, se.Message) {
		return failf("the text of the error does not show the input and the message\ninput: %s\ntext: %s", q(s), q(txt))
	}
	return nil
}

// checkContext: the context is the text between white space that the offending token starts in. When the
// input ends too early, it is such a text of the last token.
func checkContext(s string, at Tok, got string) string {
	space := func(i int) bool { return strings.IndexByte(" \t\n\r\f\v", s[i]) >= 0 }
	word := func(i int) string {
		a, b := i, i
		for a > 0 && !space(a-1) {
			a--
		}
		for b < len(s) && !space(b) {
			b++
		}
		return s[a:b]
	}
	is := func(w string) bool {
		g := strings.Trim(got, " \t\n\r\f\v")
		return g == w || len(w) > 500 && len(g) > 100 && strings.HasPrefix(w, g)
	}
	if at.K != "" {
		if w := word(at.Start); !is(w) {
			return "want " + q(w)
		}
		return ""
	}
	var last Tok
	for i := 0; ; {
		t := Lex6(s, i)
		if t.K == "" {
			break
		}
		last, i = t, t.End
	}
	for i := last.Start; i < last.End; i++ {
		if !space(i) && is(word(i)) {
			return ""
		}
	}
	if last.End == 0 && is("") {
		return ""
	}
	return "want a text of the last token"
}

func q(s string) string {
	s = strconv.Quote(s)
	if len(s) > 1500 {
		s = s[:700] + " ... " + s[len(s)-700:]
	}
	return s
}

// expand makes the filter of a case. Kinds: text, and pump prefix unit infix suffix n.
func expand(cs Case) string {
	switch cs.Kind {
	case "pump":
		n, _ := strconv.Atoi(cs.Args[0])
		return Pump(cs.Args[1:], n)
	}
	return cs.Args[0]
}

func genT01(c *Ctx) {
	d := c.D(1, 2)
	c.Stage("token sequences, all tokens, length <= " + strconv.Itoa(4+d))
	Sequences6(c, Tokens6, 4+d, func(s string, ok bool) { c.Emit("text", s) })
	c.Stage("token sequences, one token per class, length <= " + strconv.Itoa(6+d))
	Sequences6(c, TokenClasses6, 6+d, func(s string, ok bool) { c.Emit("text", s) })
	c.Stage("repetitions of one construct")
	GenPumps6(c)
	c.Stage("trees written with needed, all and redundant parentheses, white space and case variants")
	variants := func(t *T) {
		for v := 0; v < 4; v++ {
			if c.Next() {
				c.Do(Case{Kind: "text", Args: []string{Variant6(t, v)}})
			}
		}
	}
	EnumTrees(c, Space{N: 2, Leaves: []*T{Id("a"), Num(1), Str("s")}, Bin: AllBin6, Un: AllUn6, Is: true, Between: true, Array: true}, variants)
	EnumTrees(c, Space{N: 3, Leaves: []*T{Id("a")}, Bin: []string{"OR", "AND", "LT", "LIKE", "IN", "SUB", "MUL"}, Un: []string{"NOT", "NEG", "SUM"}, Is: true, Between: true, Array: true}, variants)
	GenRich6(c, c.D(20, 35), func(t *T) {
		c.Emit("text", Text6(t, false))
		c.Emit("text", Text6(t, true))
	})
	c.Stage("token sequences, two tokens per class, length <= " + strconv.Itoa(7+d))
	Sequences6(c, TokenCore6, 7+d, func(s string, ok bool) { c.Emit("text", s) })
}

func genT02(c *Ctx) {
	d := c.D(1, 2)
	for _, a := range CharSpaces6 {
		n := a.Len + d
		c.Stage(a.Name + " strings over " + a.Chars + ", length <= " + strconv.Itoa(n))
		for _, ctx := range a.Contexts {
			Strings(c, a.Chars, n, func(s string) { c.Emit("text", strings.Replace(ctx, "@", s, 1)) })
		}
	}
	c.Stage("every byte in every context")
	GenBytes6(c)
	c.Stage("dates with one and two changed characters")
	GenDates6(c)
	c.Stage("numbers")
	GenNumbers6(c)
	c.Stage("long texts")
	GenLong6(c)
	GenWide6(c)
}

func genT03(c *Ctx) {
	d := c.D(1, 2)
	c.Stage("token sequences, all tokens, length <= " + strconv.Itoa(4+d))
	Sequences6(c, Tokens6, 4+d, func(s string, ok bool) {
		if !ok {
			c.Emit("text", s)
		}
	})
	c.Stage("malformed token followed by more text")
	Sequences6(c, TokenClasses6, 4+d, func(s string, ok bool) {
		if !ok {
			for _, tail := range []string{" = 1", " a", ")", " 'x", " ;", "   "} {
				c.Emit("text", s+tail)
			}
		}
	})
	c.Stage("tokens on several lines")
	Sequences6(c, TokenClasses6, 3+d, func(s string, ok bool) {
		if !ok {
			for _, sep := range []string{"\n", "\r\n", " \n  ", "\n\n", "\t\f\v"} {
				c.Emit("text", strings.Replace(s, " ", sep, -1))
				c.Emit("text", sep+s+sep)
				if i := strings.LastIndex(s, " "); i > 0 {
					c.Emit("text", s[:i]+sep+s[i+1:])
				}
			}
		}
	})
	for _, a := range CharSpaces6 {
		n := a.Len - 1 + d
		c.Stage(a.Name + " strings over " + a.Chars + ", length <= " + strconv.Itoa(n))
		for _, ctx := range a.Contexts {
			Strings(c, a.Chars, n, func(s string) { c.Emit("text", strings.Replace(ctx, "@", s, 1)) })
		}
	}
	c.Stage("every byte in every context")
	GenBytes6(c)
	c.Stage("errors after text of every kind")
	before := []string{"'éé'", `"日本"`, `'\n\''`, `"\"\\"`, "'😀\t\n'", "'\xff\x80'", "'a''b'", "1Ki", "-1.50e3", "b.c[0]/d", "'2020-01-02'", "2020-01-02T03:04:05+01:00", "[\n]", "- 'é'", "len 'é'"}
	Sequences6(c, TokenClasses6, 2+d, func(s string, ok bool) {
		for _, x := range before {
			c.Emit("text", x+" = b and "+s)
			c.Emit("text", "(b in ["+x+", "+x+"] or "+s)
			c.Emit("text", x+" "+s+" "+x)
		}
	})
	c.Stage("errors after long correct text")
	GenLongErrors6(c)
	c.Stage("token sequences, two tokens per class, length <= " + strconv.Itoa(6+d))
	Sequences6(c, TokenCore6, 6+d, func(s string, ok bool) {
		if !ok {
			c.Emit("text", s)
		}
	})
}
