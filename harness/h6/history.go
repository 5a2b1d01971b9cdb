package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
)

func init() {
	register("T04", genT04, func(c *Ctx, cs Case) *Failure {
		if collected(&cs) {
			defer func() { collectEach = false }()
		}
		return checkHistory(c, cs)
	})
	register("T07", genT07, func(c *Ctx, cs Case) *Failure {
		if collected(&cs) {
			defer func() { collectEach = false }()
		}
		return checkOps(c, cs)
	})
	if len(os.Args) > 2 && os.Args[1] == "alone" {
		// Internal: the result of one parse in a fresh process.
		fmt.Print(result(histTexts[atoi(os.Args[2])]))
		os.Exit(0)
	}
}

// collectEach: the garbage is collected after every step, and finalizers, if there are any, are run. Without it
// that happens at times of its own.
var collectEach bool

// collected tells if a case is of this kind ("gc" and the kind proper).
func collected(cs *Case) bool {
	collectEach = strings.HasPrefix(cs.Kind, "gc")
	cs.Kind = strings.TrimPrefix(cs.Kind, "gc")
	return collectEach
}

func collect() {
	if !collectEach {
		return
	}
	// The finalizers run one after the other: those of the first collection are done when one of the second is.
	for i := 0; i < 2; i++ {
		done := make(chan bool)
		runtime.SetFinalizer(&struct{ p *int }{new(int)}, func(interface{}) { close(done) })
		runtime.GC()
		<-done
	}
}

// The filters of the histories: accepted ones of several shapes, and rejected ones that stop in different
// states of the scanner and of the parser.
var histTexts = []string{
	"a = 1",
	"a",
	"",
	"a = 'x",
	"a in [1, 'two', b",
	"(a = 1 and (b = 2 or",
	"a ; b",
	"a = \"q\\\"r\" and b like `z%`",
	"x between 2020-01-02 and '2020-01-03T04:05:06Z'",
	"not not len [a, [b, []]] is not null",
	"a = 1)",
	"a = 1 b = 2",
	"'a\\",
	"a = 1\x00 and b",
	"a in [1, 2, c] and not (d ~= 'e' or f.g[0] is null) and 2Ki + -x * 3 > 4",
	"a not between 1 and",
	strings.Repeat("(", 120) + "a = '" + strings.Repeat("y", 300) + "'" + strings.Repeat(")", 120),
	strings.Repeat("[", 120) + "a = '" + strings.Repeat("y", 300),
	"a = '" + strings.Repeat("z", 20000) + "'",
	strings.Repeat("a = 1 and ", 700) + "?",
}

func result(s string) string {
	n, err := tsl.ParseTSL(s)
	if err != nil {
		var se *tsl.SyntaxError
		if errors.As(err, &se) {
			return fmt.Sprintf("error %q at %d context %q input %q tree %v", se.Message, se.Position, se.Context, se.Input, n != nil)
		}
		return "error " + err.Error()
	}
	defer n.Free()
	return fromImpl(n).String()
}

var aloneResults = map[int]string{}

// alone is the result of a parse in a fresh process.
func alone(i int) string {
	if r, ok := aloneResults[i]; ok {
		return r
	}
	b, err := exec.Command(os.Args[0], "alone", strconv.Itoa(i)).Output()
	r := string(b)
	if err != nil {
		r = "the process ended: " + err.Error()
	}
	aloneResults[i] = r
	return r
}

// checkHistory runs a sequence of actions, separated by spaces:
//
//	p<i> parse filter i, keep the tree; f parse and free at once is x<i>
//	w walk, evaluate, convert and export all the kept trees; c clone the last kept tree
//	o free the oldest, n free the newest kept tree
//	s keep a part of the newest kept tree in its place
//
// Every parse must give what it gives in a fresh process, and the kept trees must keep their content.
func checkHistory(c *Ctx, cs Case) *Failure {
	type kept struct {
		n    *tsl.TSLNode
		want string
		part bool // of a tree that nobody frees
	}
	var live []kept
	defer func() {
		for _, k := range live {
			if !k.part {
				k.n.Free()
			}
		}
	}()
	rec := map[string]interface{}{"a": 1, "b": nil, "c": "x", "x": "2020-01-02"}
	verify := func(when string) *Failure {
		for _, k := range live {
			if g := fromImpl(k.n).String(); g != k.want {
				return failf("a tree changed after %s\ngot:  %s\nwant: %s\nactions: %s", when, q(g), q(k.want), cs.Args[0])
			}
		}
		return nil
	}
	for _, act := range strings.Fields(cs.Args[0]) {
		c.Trans(1)
		switch act[0] {
		case 'p', 'x':
			i := atoi(act[1:])
			want := alone(i)
			s := histTexts[i]
			n, err := tsl.ParseTSL(s)
			c.Trace()
			var got string
			if err != nil {
				var se *tsl.SyntaxError
				if errors.As(err, &se) {
					got = fmt.Sprintf("error %q at %d context %q input %q tree %v", se.Message, se.Position, se.Context, se.Input, n != nil)
				} else {
					got = "error " + err.Error()
				}
			} else {
				got = fromImpl(n).String()
			}
			if got != want {
				return failf("%s gives %s, in a fresh process %s\nactions: %s", act, q(got), q(want), cs.Args[0])
			}
			if err == nil {
				if act[0] == 'x' {
					n.Free()
				} else {
					live = append(live, kept{n, want, false})
				}
			}
		case 'w':
			for _, k := range live {
				v1, e1 := semantics.Walk(k.n, evalFunc(rec))
				v2, e2 := semantics.Walk(k.n, evalFunc(rec))
				if CanonValue(v1) != CanonValue(v2) || fmt.Sprint(e1) != fmt.Sprint(e2) {
					return failf("two evaluations differ: %v %v, %v %v\nactions: %s", v1, e1, v2, e2, cs.Args[0])
				}
				if f, err := sql.Walk(k.n); err == nil {
					f.ToSql()
				}
				graphviz.Walk("", k.n, "root")
				if _, err := json.Marshal(k.n); err != nil {
					return failf("no JSON: %v\nactions: %s", err, cs.Args[0])
				}
				t, err := ident.Walk(k.n, func(s string) (string, error) {
					if s == "b" {
						return "b ;", nil
					}
					return s, nil
				})
				if err == nil {
					t.Free()
				}
			}
		case 'c':
			if len(live) > 0 {
				k := live[len(live)-1]
				live = append(live, kept{k.n.Clone(), k.want, false})
			}
		case 's':
			if len(live) > 0 {
				k := &live[len(live)-1]
				var part *tsl.TSLNode
				switch v := k.n.Value().(type) {
				case tsl.TSLExpressionOp:
					part = v.Right
				case tsl.TSLArrayLiteral:
					if len(v.Values) > 0 {
						part = v.Values[len(v.Values)-1]
					}
				}
				if part != nil {
					*k = kept{part, fromImpl(part).String(), true}
				}
			}
		case 'o':
			if len(live) > 0 {
				if !live[0].part {
					live[0].n.Free()
				}
				live = live[1:]
			}
		case 'n':
			if len(live) > 0 {
				if k := live[len(live)-1]; !k.part {
					k.n.Free()
				}
				live = live[:len(live)-1]
			}
		}
		var b strings.Builder
		for _, k := range live {
			b.WriteString(k.want)
			b.WriteByte(';')
		}
		c.State(b.String() + act)
		collect()
		if f := verify(act); f != nil {
			return f
		}
	}
	c.Outcome(fmt.Sprintf("%d trees kept", len(live)))
	return nil
}

func genT04(c *Ctx) {
	emit := "acts"
	seqs := func(alpha []string, n int) {
		var rec func(p string, left int)
		rec = func(p string, left int) {
			for _, a := range alpha {
				if c.Stopped() {
					return
				}
				c.Emit(emit, p+a)
				if left > 1 {
					rec(p+a+" ", left-1)
				}
			}
		}
		rec("", n)
	}
	var ps, xs []string
	for i := range histTexts {
		ps = append(ps, "p"+strconv.Itoa(i))
		xs = append(xs, "x"+strconv.Itoa(i))
	}
	c.Stage("every sequence of 3 parses, trees kept")
	seqs(ps, 3)
	c.Stage("every sequence of 3 parses, trees freed")
	seqs(xs[:18], 3)
	c.Stage("every sequence of actions on two filters and four failures")
	seqs([]string{"p0", "p14", "x3", "x4", "x16", "p9", "w", "c", "o", "n"}, c.D(5, 6))
	c.Stage("every sequence of 5 of the parses that stop in different states")
	seqs([]string{"p0", "p7", "x2", "x3", "x4", "x5", "x6", "x12", "x13", "p14"}, c.D(5, 6))
	c.Stage("every sequence of actions with the garbage collected after each")
	emit = "gcacts"
	seqs([]string{"p0", "p14", "x3", "p9", "w", "c", "s", "n"}, c.D(4, 5))
	emit = "acts"
	seqs([]string{"p0", "p14", "x3", "p9", "w", "c", "s", "n"}, c.D(5, 6))
	c.Stage("long histories of every pair of parses")
	for i := range histTexts[:18] {
		for j := range histTexts[:18] {
			c.Emit("acts", strings.Repeat(fmt.Sprintf("x%d x%d ", i, j), 40)+ps[i]+" "+ps[j]+" w")
			c.Emit("acts", strings.Repeat(fmt.Sprintf("p%d x%d o ", i, j), 30)+"w")
		}
	}
	c.Stage("very long histories of one parse")
	for i := range histTexts {
		n := 3000
		if len(histTexts[i]) > 2000 {
			n = 150
		}
		c.Emit("acts", strings.Repeat(xs[i]+" ", n)+"p0 "+ps[i]+" w")
	}
}

// ---- operations on trees

// A state of the model: slots with owned trees, holes are nil children.
type slotState [3]*T

var slotTexts = []string{"a = 1", "not a", "[1, b]", "x", "-y in ['s', [2]]"}

func holeCanon(t *T) string {
	if t == nil {
		return "_"
	}
	if len(t.C) == 0 {
		return t.String()
	}
	p := make([]string, len(t.C))
	for i, c := range t.C {
		p[i] = holeCanon(c)
	}
	return "(" + t.K + t.Op + " " + strings.Join(p, " ") + ")"
}

func (s slotState) key() string {
	return holeCanon(s[0]) + "|" + holeCanon(s[1]) + "|" + holeCanon(s[2])
}

func copyHoles(t *T) *T {
	if t == nil {
		return nil
	}
	u := *t
	u.C = make([]*T, len(t.C))
	for i, c := range t.C {
		u.C[i] = copyHoles(c)
	}
	return &u
}

func (s slotState) copy() slotState {
	return slotState{copyHoles(s[0]), copyHoles(s[1]), copyHoles(s[2])}
}

// An operation is written as:
//
//	P<s><k>    parse text k into the empty slot s
//	C<s><t>    clone slot s into the empty slot t
//	F<s>       free slot s
//	D<s><path><l|r|c><t>   detach from the node at the path in slot s into the empty slot t
//	A<s><path><l|r|c|0|1|9><t>  attach slot t at the node at the path in slot s
//
// A path is - for the root, l r c for its children, and 0 1 for elements.
func child(t *T, k byte) (*T, bool) {
	switch {
	case t == nil:
		return nil, false
	case t.K == "BIN" && k == 'l':
		return t.C[0], true
	case t.K == "BIN" && k == 'r':
		return t.C[1], true
	case t.K == "UN" && k == 'c':
		return t.C[0], true
	case t.K == "ARRAY" && (k == '0' || k == '1') && int(k-'0') < len(t.C):
		return t.C[k-'0'], true
	}
	return nil, false
}

func setChild(t *T, k byte, x *T) {
	switch k {
	case 'l', 'c', '0':
		t.C[0] = x
	default:
		t.C[1] = x
	}
}

// modelOp applies an operation, enabled tells if it is a correct use of the API in this state. ret is the
// result the operation must report.
func modelOp(s slotState, op string) (next slotState, ret bool, enabled bool) {
	n := s.copy()
	a := int(op[1] - '0')
	switch op[0] {
	case 'P':
		if n[a] != nil {
			return s, false, false
		}
		n[a], _, _ = Parse6(slotTexts[op[2]-'0'])
		return n, true, true
	case 'C':
		b := int(op[2] - '0')
		if n[a] == nil || n[b] != nil {
			return s, false, false
		}
		n[b] = copyHoles(n[a])
		return n, true, true
	case 'F':
		if n[a] == nil {
			return s, false, false
		}
		n[a] = nil
		return n, true, true
	}
	b := int(op[4] - '0')
	at := n[a]
	if op[2] != '-' {
		at, _ = child(at, op[2])
	}
	if at == nil || a == b {
		return s, false, false
	}
	x, fits := child(at, op[3])
	if op[0] == 'D' {
		if n[b] != nil {
			return s, false, false
		}
		if !fits || x == nil || op[3] == '0' || op[3] == '1' {
			return n, false, true
		}
		n[b] = x
		setChild(at, op[3], nil)
		return n, true, true
	}
	if n[b] == nil {
		return s, false, false
	}
	if !fits {
		return n, false, true
	}
	setChild(at, op[3], n[b])
	n[b] = nil
	return n, true, true
}

func allOps() []string {
	var ops []string
	for s := 0; s < 3; s++ {
		for k := range slotTexts {
			ops = append(ops, fmt.Sprintf("P%d%d", s, k))
		}
		ops = append(ops, fmt.Sprintf("F%d", s))
		for t := 0; t < 3; t++ {
			if s == t {
				continue
			}
			ops = append(ops, fmt.Sprintf("C%d%d", s, t))
			for _, p := range "-lrc01" {
				for _, w := range "lrc" {
					ops = append(ops, fmt.Sprintf("D%d%c%c%d", s, p, w, t))
				}
				for _, w := range "lrc019" {
					ops = append(ops, fmt.Sprintf("A%d%c%c%d", s, p, w, t))
				}
			}
		}
	}
	return ops
}

// implChild gives the handle of a child, as the API gives it.
func implChild(n *tsl.TSLNode, k byte) *tsl.TSLNode {
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		if k == 'l' {
			return v.Left
		}
		return v.Right
	case tsl.TSLArrayLiteral:
		return v.Values[k-'0']
	}
	return nil
}

// holeImpl reads a tree that can have holes, guided by the model.
func holeImpl(n *tsl.TSLNode, t *T) string {
	if t == nil {
		if n != nil && !isHole(n) {
			return "something"
		}
		return "_"
	}
	if n == nil || isHole(n) {
		return "MISSING"
	}
	if len(t.C) == 0 {
		return fromImpl(n).String()
	}
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		k := map[tsl.Kind]string{tsl.KindBinaryExpr: "BIN", tsl.KindUnaryExpr: "UN"}[n.Type()]
		if k == "BIN" && len(t.C) == 2 {
			return "(" + k + opName[v.Operator] + " " + holeImpl(v.Left, t.C[0]) + " " + holeImpl(v.Right, t.C[1]) + ")"
		}
		if k == "UN" && len(t.C) == 1 {
			return "(" + k + opName[v.Operator] + " " + holeImpl(v.Right, t.C[0]) + ")"
		}
		return "another kind"
	case tsl.TSLArrayLiteral:
		if len(v.Values) != len(t.C) {
			return "another length"
		}
		p := make([]string, len(t.C))
		for i := range t.C {
			p[i] = holeImpl(v.Values[i], t.C[i])
		}
		return "(ARRAY " + strings.Join(p, " ") + ")"
	}
	return "another kind"
}

// isHole tells if a handle is of no node: reading the kind of it panics, and cloning gives an empty handle.
func isHole(n *tsl.TSLNode) (hole bool) {
	x := n.Clone()
	if x == nil {
		return true
	}
	x.Free()
	return false
}

func hasHole(t *T) bool {
	if t == nil {
		return true
	}
	for _, c := range t.C {
		if hasHole(c) {
			return true
		}
	}
	return false
}

// checkOps runs a sequence of operations and compares all the slots with the model.
func checkOps(c *Ctx, cs Case) *Failure {
	if cs.Kind != "ops" {
		return checkClone(c, cs)
	}
	var st slotState
	var impl [3]*tsl.TSLNode
	defer func() {
		for _, n := range impl {
			if n != nil {
				n.Free()
			}
		}
	}()
	ops := strings.Fields(cs.Args[0])
	for i, op := range ops {
		next, ret, enabled := modelOp(st, op)
		if !enabled {
			return nil
		}
		a := int(op[1] - '0')
		got := true
		switch op[0] {
		case 'P':
			n, err := tsl.ParseTSL(slotTexts[op[2]-'0'])
			if err != nil {
				return failf("rejected: %v", err)
			}
			impl[a] = n
		case 'C':
			impl[op[2]-'0'] = impl[a].Clone()
		case 'F':
			impl[a].Free()
			impl[a] = nil
		default:
			b := int(op[4] - '0')
			at := impl[a]
			if op[2] != '-' {
				at = implChild(at, op[2])
			}
			if op[0] == 'D' {
				var x *tsl.TSLNode
				switch op[3] {
				case 'l':
					x = at.DetachLeft()
				case 'r':
					x = at.DetachRight()
				case 'c':
					x = at.DetachChild()
				}
				got = x != nil
				impl[b] = x
			} else {
				switch op[3] {
				case 'l':
					got = at.AttachLeft(impl[b])
				case 'r':
					got = at.AttachRight(impl[b])
				case 'c':
					got = at.AttachChild(impl[b])
				default:
					got = at.AttachElement(int(op[3]-'0'), impl[b])
				}
				if got && ret {
					impl[b] = nil
				}
			}
		}
		if got != ret {
			if got {
				// Who owns the node is not known.
				impl = [3]*tsl.TSLNode{}
			}
			return failf("operation %d (%s) reports %v, want %v\noperations: %s", i, op, got, ret, cs.Args[0])
		}
		st = next
		c.Trans(1)
		collect()
		for k := range st {
			w := holeCanon(st[k])
			g := "_"
			if impl[k] != nil {
				g = holeImpl(impl[k], st[k])
			}
			if g != w {
				return failf("slot %d after operation %d (%s): %s, want %s\noperations: %s", k, i, op, g, w, cs.Args[0])
			}
		}
	}
	c.Trace()
	c.State(st.key())
	// Complete trees are as good as parsed ones.
	for k := range st {
		if st[k] == nil || hasHole(st[k]) || st[k].Size() > 12 {
			continue
		}
		text := Text6(st[k], false)
		if m, _, ok := Parse6(text); !ok || m.String() != st[k].String() {
			continue
		}
		n, err := tsl.ParseTSL(text)
		if err != nil {
			return failf("rejected: %s: %v", text, err)
		}
		f := sameUse(impl[k], n)
		n.Free()
		if f != "" {
			return failf("%s\nfilter: %s\noperations: %s", f, text, cs.Args[0])
		}
	}
	c.Outcome("slots " + shape(st))
	return nil
}

func shape(s slotState) string {
	out := ""
	for _, t := range s {
		switch {
		case t == nil:
			out += "-"
		case hasHole(t):
			out += "h"
		default:
			out += "t"
		}
	}
	return out
}

// sameUse compares what two trees give.
func sameUse(a, b *tsl.TSLNode) string {
	rec := map[string]interface{}{"a": 1, "b": 2.0, "x": true, "y": "s"}
	v1, e1 := semantics.Walk(a, evalFunc(rec))
	v2, e2 := semantics.Walk(b, evalFunc(rec))
	if CanonValue(v1) != CanonValue(v2) || fmt.Sprint(e1) != fmt.Sprint(e2) {
		return fmt.Sprintf("evaluates to %v %v, parsed %v %v", v1, e1, v2, e2)
	}
	j1, e1 := json.Marshal(a)
	j2, e2 := json.Marshal(b)
	if string(j1) != string(j2) || (e1 == nil) != (e2 == nil) {
		return fmt.Sprintf("exports %s %v, parsed %s %v", j1, e1, j2, e2)
	}
	s1, a1, e1, _ := toSQL(a)
	s2, a2, e2, _ := toSQL(b)
	if s1 != s2 || fmt.Sprint(a1) != fmt.Sprint(a2) || (e1 == nil) != (e2 == nil) {
		return fmt.Sprintf("converts to %s %v %v, parsed %s %v %v", s1, a1, e1, s2, a2, e2)
	}
	return ""
}

// bfsOps visits the states of the model up to a depth, and emits one history for every transition.
func bfsOps(c *Ctx, depth, maxSize int, emit func(string)) {
	ops := allOps()
	type node struct {
		s slotState
		h string
	}
	seen := map[string]bool{slotState{}.key(): true}
	level := []node{{}}
	for d := 0; d < depth; d++ {
		var next []node
		for _, x := range level {
			for _, op := range ops {
				if c.Stopped() {
					return
				}
				n, _, ok := modelOp(x.s, op)
				if !ok {
					continue
				}
				h := op
				if x.h != "" {
					h = x.h + " " + op
				}
				emit(h)
				if d+1 == depth {
					continue
				}
				size := 0
				for _, t := range n {
					if t != nil {
						size += countNodes(t)
					}
				}
				if k := n.key(); !seen[k] && size <= maxSize {
					seen[k] = true
					next = append(next, node{n, h})
				}
			}
		}
		level = next
	}
}

func countNodes(t *T) int {
	if t == nil {
		return 0
	}
	n := 1
	for _, c := range t.C {
		n += countNodes(c)
	}
	return n
}

// checkClone compares the clone of a parsed tree with the tree, while and after the other one exists.
func checkClone(c *Ctx, cs Case) *Failure {
	s := expand(cs)
	want, _, ok := Parse6(s)
	if !ok {
		return nil
	}
	w := want.String()
	for _, first := range []string{"source", "clone"} {
		n, err := tsl.ParseTSL(s)
		if err != nil {
			return nil // T01 decides what is accepted
		}
		x := n.Clone()
		both := map[string]*tsl.TSLNode{"source": n, "clone": x}
		f := ""
		for _, k := range []string{"source", "clone"} {
			if g := fromImpl(both[k]).String(); g != w {
				f = fmt.Sprintf("the %s is %s, want %s", k, q(g), q(w))
			}
		}
		if f == "" {
			f = sameUse(n, x)
		}
		both[first].Free()
		delete(both, first)
		for k, y := range both {
			if g := fromImpl(y).String(); f == "" && g != w {
				f = fmt.Sprintf("the %s is %s after the release of the other one, want %s", k, q(g), q(w))
			}
			y.Free()
		}
		if f != "" {
			return failf("%s\nfilter: %s", f, q(s))
		}
		c.Trans(4)
	}
	c.Trace()
	c.State(w)
	c.Outcome("clone of a " + want.K)
	return nil
}

func genT07(c *Ctx) {
	c.Stage("the clone of every tree with up to 2 operators")
	EnumTrees(c, Space{N: 2, Leaves: []*T{Id("a"), Num(1.5), Str("s"), Bool(true), Date("2020-01-02"), Stamp("2020-01-02T03:04:05Z")}, Bin: []string{"AND", "EQ", "IN", "ADD", "LIKE"}, Un: []string{"NOT", "NEG", "SUM"}, Is: true, Between: true, Array: true}, func(t *T) {
		c.Emit("text", Text6(t, false))
	})
	c.Stage("every operator on subtrees of every form")
	GenRich6(c, c.D(14, 35), func(t *T) { c.Emit("text", Text6(t, false)) })
	c.Stage("the clone of long texts and of wide and deep trees")
	GenLong6(c)
	GenWide6(c)
	GenPumps6(c)
	c.Stage("every sequence of 3 operations")
	ops := allOps()
	var rec func(s slotState, h string, left int)
	rec = func(s slotState, h string, left int) {
		for _, op := range ops {
			if c.Stopped() {
				return
			}
			n, _, ok := modelOp(s, op)
			if !ok {
				continue
			}
			x := op
			if h != "" {
				x = h + " " + op
			}
			c.Emit("ops", x)
			if left > 1 {
				rec(n, x, left-1)
			}
		}
	}
	rec(slotState{}, "", 3)
	c.Stage(fmt.Sprintf("every transition from every state of the slots that %d operations reach", c.D(4, 5)))
	bfsOps(c, c.D(5, 6), 14, func(h string) { c.Emit("ops", h) })
	c.Stage("the same with the garbage collected after each operation")
	bfsOps(c, c.D(3, 4), 14, func(h string) { c.Emit("gcops", h) })
	if c.Thorough {
		c.Stage("every sequence of 4 operations")
		rec(slotState{}, "", 4)
	}
}
