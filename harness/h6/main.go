// Command h6 checks the properties of version 6 against the reference models.
package main

import (
	"fmt"
	"time"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

var props []*Prop

func register(id string, gen func(c *Ctx), check func(c *Ctx, cs Case) *Failure) {
	props = append(props, &Prop{ID: id, Gen: gen, Check: check})
}

func main() { Main(props) }

func failf(f string, a ...interface{}) *Failure { return &Failure{Msg: fmt.Sprintf(f, a...)} }

var opName = map[tsl.Operator]string{
	tsl.OpEQ: "EQ", tsl.OpNE: "NE", tsl.OpLT: "LT", tsl.OpLE: "LE", tsl.OpGT: "GT", tsl.OpGE: "GE",
	tsl.OpREQ: "REQ", tsl.OpRNE: "RNE", tsl.OpAnd: "AND", tsl.OpOr: "OR", tsl.OpNot: "NOT",
	tsl.OpLike: "LIKE", tsl.OpILike: "ILIKE", tsl.OpIn: "IN", tsl.OpBetween: "BETWEEN", tsl.OpIs: "IS",
	tsl.OpPlus: "ADD", tsl.OpMinus: "SUB", tsl.OpStar: "MUL", tsl.OpSlash: "DIV", tsl.OpPercent: "MOD",
	tsl.OpUMinus: "NEG", tsl.OpLen: "LEN", tsl.OpAny: "ANY", tsl.OpAll: "ALL", tsl.OpSum: "SUM",
}

// fromImpl reads a tree through the API.
func fromImpl(n *tsl.TSLNode) *T {
	if n == nil {
		return &T{K: "MISSING"}
	}
	switch n.Type() {
	case tsl.KindNumericLiteral:
		if f, ok := n.Value().(float64); ok {
			return Num(f)
		}
	case tsl.KindStringLiteral:
		if s, ok := n.Value().(string); ok {
			return Str(s)
		}
	case tsl.KindIdentifier:
		if s, ok := n.Value().(string); ok {
			return Id(s)
		}
	case tsl.KindBooleanLiteral:
		if b, ok := n.Value().(bool); ok {
			return Bool(b)
		}
	case tsl.KindNullLiteral:
		return Null()
	case tsl.KindDateLiteral:
		switch v := n.Value().(type) {
		case string:
			return Date(v)
		case time.Time:
			return &T{K: "DATE-as-time", S: CanonTime(v)}
		}
	case tsl.KindTimestampLiteral:
		switch v := n.Value().(type) {
		case time.Time:
			return Stamp(v.Format(time.RFC3339Nano))
		case string:
			if _, err := time.Parse(time.RFC3339, v); err == nil {
				return &T{K: "TIMESTAMP-as-text", S: v}
			}
			return Stamp(v)
		}
	case tsl.KindArrayLiteral:
		if v, ok := n.Value().(tsl.TSLArrayLiteral); ok {
			a := Arr()
			for _, e := range v.Values {
				a.C = append(a.C, fromImpl(e))
			}
			return a
		}
	case tsl.KindBinaryExpr:
		if v, ok := n.Value().(tsl.TSLExpressionOp); ok {
			return Bin(opName[v.Operator], fromImpl(v.Left), fromImpl(v.Right))
		}
	case tsl.KindUnaryExpr:
		if v, ok := n.Value().(tsl.TSLExpressionOp); ok {
			if v.Left != nil {
				return &T{K: "UNARY-with-left"}
			}
			return Un(opName[v.Operator], fromImpl(v.Right))
		}
	}
	return &T{K: fmt.Sprintf("kind %v value %T", n.Type(), n.Value())}
}

// parse parses a filter with the code under test and reads the tree.
func parse(s string) (*T, error) {
	n, err := tsl.ParseTSL(s)
	if err != nil {
		return nil, err
	}
	defer n.Free()
	return fromImpl(n), nil
}
