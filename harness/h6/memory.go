package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"gopkg.in/yaml.v3"
)

func init() {
	register("T06", genT06, checkMemory)
	// Built with the memory sanitizer: nothing that a result depends on is read before it is written.
	register("T04M", genT04M, func(c *Ctx, cs Case) *Failure {
		c.Trace()
		c.Trans(1)
		memoryRun(c, cs)
		c.Outcome(cs.Kind)
		return nil
	})
}

// use parses a filter, uses the tree in every way there is, and releases what it owns. The first error of
// the address sanitizer ends the process.
func use(s string, full bool) string {
	n, err := tsl.ParseTSL(s)
	if err != nil {
		_ = err.Error()
		return "rejected"
	}
	cl := n.Clone()
	w := fromImpl(n).String()
	if full {
		n.Free()
		n, cl = cl, cl.Clone()
		rec := map[string]interface{}{"a": 1, "b": "x", "c": nil}
		semantics.Walk(n, evalFunc(rec))
		toSQL(n)
		graphviz.Walk("", n, "root")
		json.Marshal(n)
		yaml.Marshal(n)
		_ = fmt.Sprint(n.Type())
	}
	n.Free()
	if g := fromImpl(cl).String(); g != w {
		w = "changed"
	}
	cl.Free()
	return w
}

func memoryRun(c *Ctx, cs Case) {
	// What is computed is the subject of other properties.
	defer func() { recover() }()
	if collected(&cs) {
		defer func() { collectEach = false }()
	}
	switch cs.Kind {
	case "text":
		c.State(use(cs.Args[0], false))
	case "full":
		c.State(use(cs.Args[0], true))
	case "pump":
		c.State(use(expand(cs), false))
	case "ops":
		checkOps(c, cs)
	case "ident", "ipump":
		if cs.Kind == "ipump" {
			cs.Kind = "pump"
		}
		checkIdent(c, cs)
	case "each":
		checkIdentEach(c, cs)
	case "acts":
		checkHistory(c, cs)
	}
}

// checkMemory: after a case the memory in use is what it was before it. Some libraries keep memory after
// their first use, so a growth counts when every one of several repetitions grows.
func checkMemory(c *Ctx, cs Case) *Failure {
	if !withASan {
		return failf("the harness is not built with the address sanitizer")
	}
	c.Trace()
	c.Trans(1)
	before := allocated()
	memoryRun(c, cs)
	d := allocated() - before
	if d == 0 {
		c.Outcome("balanced")
		return nil
	}
	c.Outcome("repeated")
	var ds []int64
	for i := 0; i < 6; i++ {
		before = allocated()
		memoryRun(c, cs)
		d = allocated() - before
		if d <= 0 {
			return nil
		}
		ds = append(ds, d)
	}
	return failf("every repetition leaves more memory in use: %v bytes\ncase: %s %s", ds, cs.Kind, q(strings.Join(cs.Args, " | ")))
}

func genT04M(c *Ctx) {
	c.Stage("uninitialised memory: every tree with up to 2 operators, used in every way")
	EnumTrees(c, Space{N: 2, Leaves: []*T{Id("a"), Num(1), Str("s")}, Bin: []string{"AND", "EQ", "IN", "ADD"}, Un: []string{"NOT", "NEG", "SUM"}, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("full", Text6(t, false))
	})
	c.Stage("uninitialised memory: every operator on subtrees of every form")
	GenRich6(c, c.D(7, 20), func(t *T) { c.Emit("full", Text6(t, false)) })
	c.Stage(fmt.Sprintf("uninitialised memory: every sequence of up to %d tokens", c.D(4, 5)))
	Sequences6(c, TokenClasses6, c.D(4, 5), func(s string, ok bool) { c.Emit("text", s) })
	c.Stage("uninitialised memory: every sequence of up to 3 tokens, all tokens")
	Sequences6(c, Tokens6, 3, func(s string, ok bool) { c.Emit("text", s) })
	c.Stage("uninitialised memory: every string of characters of the scanner, long literals and deep trees")
	for _, sp := range CharSpaces6 {
		for _, x := range sp.Contexts {
			Strings(c, sp.Chars, c.D(3, 4), func(s string) { c.Emit("text", strings.Replace(x, "@", s, -1)) })
		}
	}
	GenPumps6(c)
	GenLong6(c)
	GenWide6(c)
	c.Stage("uninitialised memory: every transition from every state of the slots that 3 operations reach")
	bfsOps(c, c.D(4, 5), 14, func(h string) { c.Emit("ops", h) })
}

func genT06(c *Ctx) {
	c.Stage("every tree with up to 1 operator, used in every way")
	EnumTrees(c, Space{N: 1, Leaves: []*T{Id("a"), Id("b"), Num(1), Str("s"), Str(""), Bool(true), Date("2020-01-02"), Stamp("2020-01-02T03:04:05Z"), Null()}, Bin: AllBin6, Un: AllUn6, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("full", Text6(t, false))
	})
	c.Stage(fmt.Sprintf("every sequence of up to %d tokens", c.D(5, 6)))
	Sequences6(c, TokenClasses6, c.D(5, 6), func(s string, ok bool) { c.Emit("text", s) })
	c.Stage(fmt.Sprintf("every sequence of up to %d tokens, all tokens", c.D(3, 4)))
	Sequences6(c, Tokens6, c.D(3, 4), func(s string, ok bool) { c.Emit("text", s) })
	c.Stage("every tree with up to 2 operators, used in every way")
	EnumTrees(c, Space{N: 2, Leaves: []*T{Id("a"), Num(1), Str("s")}, Bin: []string{"AND", "EQ", "IN", "ADD"}, Un: []string{"NOT", "NEG", "SUM"}, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("full", Text6(t, false))
	})
	c.Stage("every operator on subtrees of every form, used in every way")
	GenRich6(c, c.D(7, 20), func(t *T) { c.Emit("full", Text6(t, false)) })
	c.Stage("every string of characters of the scanner")
	for _, sp := range CharSpaces6 {
		for _, x := range sp.Contexts {
			Strings(c, sp.Chars, c.D(sp.Len-2, sp.Len-1), func(s string) { c.Emit("text", strings.Replace(x, "@", s, -1)) })
		}
	}
	c.Stage("every byte in every context, long literals and deep trees")
	GenBytes6(c)
	GenPumps6(c)
	GenLong6(c)
	GenWide6(c)
	GenLongErrors6(c)
	c.Stage("truncated and broken filters")
	for _, s := range histTexts {
		if len(s) > 1000 {
			continue
		}
		for i := 0; i <= len(s); i++ {
			c.Emit("text", s[:i])
			c.Emit("text", s[i:])
			for _, x := range []string{";", ")", "]", "'", " and ", ",", "(", "\\"} {
				c.Emit("text", s[:i]+x+s[i:])
			}
		}
	}
	c.Stage("every sequence of 3 operations on trees")
	ops := allOps()
	var rec func(s slotState, h string, left int)
	rec = func(s slotState, h string, left int) {
		for _, op := range ops {
			if c.Stopped() {
				return
			}
			n, _, ok := modelOp(s, op)
			if !ok {
				continue
			}
			x := op
			if h != "" {
				x = h + " " + op
			}
			c.Emit("ops", x)
			if left > 1 {
				rec(n, x, left-1)
			}
		}
	}
	rec(slotState{}, "", 3)
	c.Stage(fmt.Sprintf("every transition from every state of the slots that %d operations reach", c.D(3, 4)))
	bfsOps(c, c.D(4, 5), 14, func(h string) { c.Emit("ops", h) })
	c.Stage("the same with the garbage collected after each operation")
	bfsOps(c, c.D(3, 4), 14, func(h string) { c.Emit("gcops", h) })
	c.Stage("every identifier rewriting")
	maps := [][]string{{}, {"a", "x"}, {"a", "b", "b", "a"}, {"a", "x = 1 or a", "b", "[b, 2]"}, {"b", "!"}, {"a", "x y"}, {"b", ""}, {"a", "x ;"}, {"b", "'"}}
	EnumTrees(c, Space{N: 2, Leaves: []*T{Id("a"), Id("b"), Num(1)}, Bin: []string{"OR", "EQ", "IN"}, Un: []string{"NOT", "LEN"}, Is: true, Between: true, Array: true}, func(t *T) {
		s := Text6(t, false)
		for _, m := range maps {
			c.Emit("ident", append([]string{s}, m...)...)
			if len(m) > 0 {
				c.Emit("each", s, m[1], "x", m[len(m)-1])
				c.Emit("each", s, m[1], m[len(m)-1])
			}
		}
	})
	for n := 0; n <= c.D(60, 300); n++ {
		for _, p := range [][]string{{"a in [1", ", a", "", "", "]"}, {"", "a = 1 and ", "b", "", ""}, {"", "not ", "a", "", ""}, {"", "[", "a", "]", ""}, {"", "[1, b, ", "a", "]", ""}} {
			for _, m := range [][]string{{"a", "x"}, {"a", "[a, b]", "b", "c = 1"}, {"b", "!"}} {
				c.Emit("ipump", append(append([]string{strconv.Itoa(n)}, p...), m...)...)
			}
		}
	}
	c.Stage("every sequence of 4 actions on filters")
	acts := []string{"p0", "p14", "x3", "x4", "x16", "p9", "w", "c", "o", "n"}
	var hist func(p string, left int)
	hist = func(p string, left int) {
		for _, a := range acts {
			if c.Stopped() {
				return
			}
			c.Emit("acts", p+a)
			if left > 1 {
				hist(p+a+" ", left-1)
			}
		}
	}
	hist("", c.D(4, 5))
}
