// Command h5 checks the properties of version 5 against the reference models. The build makes h4 from the
// same sources.
package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

var props []*Prop

func register(id string, gen func(c *Ctx), check func(c *Ctx, cs Case) *Failure) {
	props = append(props, &Prop{ID: id, Gen: gen, Check: check})
}

func main() {
	if len(os.Args) == 4 && os.Args[1] == "graphql" {
		graphqlHelper(os.Args[2], os.Args[3])
		return
	}
	Main(props)
}

var lang = map[bool]*Lang{true: Lang5, false: Lang4}[version == 5]

func failf(f string, a ...interface{}) *Failure { return &Failure{Msg: fmt.Sprintf(f, a...)} }

func q(s string) string {
	s = strconv.Quote(s)
	if len(s) > 1500 {
		s = s[:700] + " ... " + s[len(s)-700:]
	}
	return s
}

// fromImpl reads a tree of the library.
func fromImpl(n tsl.Node) *T {
	leaf := n.Right == nil
	switch n.Func {
	case "$ident":
		if s, ok := n.Left.(string); ok && leaf {
			return Id(s)
		}
	case "$string":
		if s, ok := n.Left.(string); ok && leaf {
			return Str(s)
		}
	case "$number":
		if f, ok := n.Left.(float64); ok && leaf {
			return Num(f)
		}
	case "$boolean":
		if b, ok := n.Left.(bool); ok && leaf {
			return Bool(b)
		}
	case "$date":
		if d, ok := n.Left.(time.Time); ok && leaf {
			return Date5(d)
		}
	case "$array":
		if n.Left != nil {
			break
		}
		list, ok := n.Right.([]tsl.Node)
		if !ok && n.Right != nil {
			break
		}
		a := Arr()
		for _, e := range list {
			a.C = append(a.C, fromImpl(e))
		}
		return a
	case "$not", "$exists", "$nexists":
		if l, ok := n.Left.(tsl.Node); ok && leaf {
			return Un(n.Func, fromImpl(l))
		}
	default:
		l, ok1 := n.Left.(tsl.Node)
		r, ok2 := n.Right.(tsl.Node)
		if ok1 && ok2 {
			return Bin(n.Func, fromImpl(l), fromImpl(r))
		}
	}
	return &T{K: fmt.Sprintf("node %s %T %T", n.Func, n.Left, n.Right)}
}

// toImpl makes a tree of the library.
func toImpl(t *T) tsl.Node {
	switch t.K {
	case "IDENTIFIER":
		return tsl.Node{Func: "$ident", Left: t.S}
	case "STRING":
		return tsl.Node{Func: "$string", Left: t.S}
	case "NUMBER":
		return tsl.Node{Func: "$number", Left: t.N}
	case "BOOLEAN":
		return tsl.Node{Func: "$boolean", Left: t.B}
	case "TIMESTAMP":
		d, err := time.Parse(time.RFC3339Nano, t.S)
		if err != nil {
			panic(err)
		}
		return tsl.Node{Func: "$date", Left: d}
	case "ARRAY":
		list := []tsl.Node{}
		for _, c := range t.C {
			list = append(list, toImpl(c))
		}
		return tsl.Node{Func: "$array", Right: list}
	case "UN":
		return tsl.Node{Func: t.Op, Left: toImpl(t.C[0])}
	}
	return tsl.Node{Func: t.Op, Left: toImpl(t.C[0]), Right: toImpl(t.C[1])}
}

// The last filter is kept: the cases of one filter follow one another.
type loaded struct {
	text  string
	model *T
	ok    bool
	node  tsl.Node
	canon string
}

var last *loaded

// load makes the tree of a filter: the one of the parser when it is as the model wants, which is the subject
// of other properties, and one made by hand otherwise.
func load(s string) *loaded {
	if last != nil && last.text == s {
		return last
	}
	p := &loaded{text: s}
	last = p
	p.model, p.ok = lang.Parse(s)
	if !p.ok {
		return p
	}
	p.canon = p.model.String()
	p.node = toImpl(p.model)
	func() {
		defer func() { recover() }()
		if n, err := tsl.ParseTSL(s); err == nil && fromImpl(n).String() == p.canon {
			p.node = n
		}
	}()
	return p
}

// expand makes the filter of a case.
func expand(cs Case) string {
	if cs.Kind == "pump" {
		n, _ := strconv.Atoi(cs.Args[0])
		return Pump(cs.Args[1:], n)
	}
	return cs.Args[0]
}

// pick is for texts that only version 5 has.
func pick(v5 string, v4 string) []string {
	s := v4
	if version == 5 {
		s = v5 + " " + v4
	}
	return strings.Fields(s)
}
