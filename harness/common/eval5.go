package common

import (
	"math"
	"strings"
	"time"
	"unicode"
)

// Reference evaluator of versions 4 and 5.

// strList is a field that is a list of strings.
type strList []string

// field5 reads a field of a record: nil, float64, string, bool, time.Time, strList; false for other types.
func (g *Lang) field(v interface{}) (interface{}, bool) {
	switch x := v.(type) {
	case nil:
		return nil, true
	case string, float64:
		return x, true
	case bool:
		if g.V == 4 {
			if x {
				return "true", true
			}
			return "false", true
		}
		return x, true
	case float32:
		return float64(x), true
	case int:
		return float64(x), true
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case uint:
		return float64(x), true
	case uint32:
		return float64(x), true
	case uint64:
		return float64(x), true
	case time.Time:
		return x, g.V == 5
	case []string:
		return strList(x), g.V == 5
	}
	return nil, false
}

// NotDefined is the reason of a case that has no defined result.
const NotDefined = "not defined"

func mathOp5(op string) bool {
	switch op {
	case "$add", "$subtract", "$multiply", "$divide", "$modulo":
		return true
	}
	return false
}

// operand evaluates an identifier, a literal or an arithmetic expression.
func (g *Lang) operand(t *T, rec map[string]interface{}) (interface{}, string) {
	switch t.K {
	case "IDENTIFIER":
		v, ok := g.field(rec[t.S])
		if !ok {
			return nil, "a field of a type that is not supported"
		}
		return v, ""
	case "NUMBER":
		return t.N, ""
	case "STRING":
		return t.S, ""
	case "BOOLEAN":
		return t.B, ""
	case "TIMESTAMP":
		d, _ := time.Parse(time.RFC3339Nano, t.S)
		return d, ""
	case "BIN":
		if !mathOp5(t.Op) {
			break
		}
		if g.V == 4 {
			return nil, "arithmetic"
		}
		l, e1 := g.operand(t.C[0], rec)
		r, e2 := g.operand(t.C[1], rec)
		if e1 != "" || e2 != "" {
			return nil, e1 + e2
		}
		if l == nil || r == nil {
			return nil, ""
		}
		x, ok1 := l.(float64)
		y, ok2 := r.(float64)
		if !ok1 || !ok2 {
			return nil, "arithmetic on values that are no numbers"
		}
		switch t.Op {
		case "$add":
			return x + y, ""
		case "$subtract":
			return x - y, ""
		case "$multiply":
			return x * y, ""
		case "$divide":
			return x / y, ""
		}
		return math.Mod(x, y), ""
	}
	return nil, "operand " + t.K
}

// Truth evaluates a filter: the truth value, or the reason of an error.
func (g *Lang) Truth(t *T, rec map[string]interface{}) (bool, string) {
	switch t.Op {
	case "$and", "$or":
		l, e1 := g.Truth(t.C[0], rec)
		r, e2 := g.Truth(t.C[1], rec)
		if e1 == NotDefined || e2 == NotDefined {
			return false, NotDefined
		}
		if e1 != "" || e2 != "" {
			return false, e1 + e2
		}
		if t.Op == "$and" {
			return l && r, ""
		}
		return l || r, ""
	case "$not":
		v, e := g.Truth(t.C[0], rec)
		return !v, e
	}
	l, e := g.operand(t.C[0], rec)
	if e != "" {
		return false, e
	}
	switch t.Op {
	case "$exists":
		return l != nil, ""
	case "$nexists":
		return l == nil, ""
	}
	if a := t.C[1]; a.K == "ARRAY" {
		return g.list(t.Op, l, a.C)
	}
	if g.V == 4 && (t.C[1].K == "IDENTIFIER" || t.C[1].K == "BIN") {
		return false, NotDefined
	}
	r, e := g.operand(t.C[1], rec)
	if e != "" {
		return false, e
	}
	if l == nil || r == nil {
		return false, ""
	}
	if _, is := r.(strList); is {
		return false, "a list on the right hand side"
	}
	switch x := l.(type) {
	case float64:
		if y, ok := r.(float64); ok {
			switch t.Op {
			case "$eq":
				return x == y, ""
			case "$ne":
				return x != y, ""
			case "$lt":
				return x < y, ""
			case "$lte":
				return x <= y, ""
			case "$gt":
				return x > y, ""
			case "$gte":
				return x >= y, ""
			}
		}
	case string:
		if y, ok := r.(string); ok {
			switch t.Op {
			case "$like":
				return likeFunc(x, y, func(a, b rune) bool { return a == b }), ""
			case "$ilike":
				return likeFunc(x, y, foldEqual), ""
			case "$regex", "$nregex":
				re := compiled(y)
				if re == nil {
					return false, "a pattern that is not valid"
				}
				return re.MatchString(x) == (t.Op == "$regex"), ""
			}
			return ordered(t.Op, strings.Compare(x, y)), ""
		}
	case time.Time:
		if y, ok := r.(time.Time); ok {
			switch t.Op {
			case "$eq", "$ne", "$lt", "$lte", "$gt", "$gte":
				return ordered(t.Op, instants(x, y)), ""
			}
		}
	case bool:
		var y bool
		switch z := r.(type) {
		case bool:
			y = z
		case float64:
			y = z != 0
		case string:
			switch strings.ToLower(z) {
			case "t", "true":
				y = true
			case "f", "false", "":
			default:
				return false, NotDefined
			}
		default:
			return false, "a boolean and another type"
		}
		switch t.Op {
		case "$eq":
			return x == y, ""
		case "$ne":
			return x != y, ""
		}
	}
	return false, "operands of types that do not fit"
}

func instants(x, y time.Time) int {
	switch {
	case x.Before(y):
		return -1
	case x.After(y):
		return 1
	}
	return 0
}

func ordered(op string, c int) bool {
	switch op {
	case "$eq":
		return c == 0
	case "$ne":
		return c != 0
	case "$lt":
		return c < 0
	case "$lte":
		return c <= 0
	case "$gt":
		return c > 0
	}
	return c >= 0
}

// list evaluates IN, BETWEEN and their negations.
func (g *Lang) list(op string, l interface{}, list []*T) (bool, string) {
	if l == nil {
		return false, ""
	}
	neg := op == "$nin" || op == "$nbetween"
	between := op == "$between" || op == "$nbetween"
	cmp := func(v *T) (int, bool) {
		switch x := l.(type) {
		case float64:
			if v.K == "NUMBER" {
				switch {
				case x < v.N:
					return -1, true
				case x > v.N:
					return 1, true
				case x == v.N:
					return 0, true
				}
				return 2, true
			}
		case string:
			if v.K == "STRING" {
				return strings.Compare(x, v.S), true
			}
		case time.Time:
			if v.K == "TIMESTAMP" {
				d, _ := time.Parse(time.RFC3339Nano, v.S)
				return instants(x, d), true
			}
		case strList:
			if v.K == "STRING" && !between {
				for _, s := range x {
					if s == v.S {
						return 0, true
					}
				}
				return 1, true
			}
		}
		return 0, false
	}
	if _, is := l.(bool); is {
		return false, "a boolean and a list"
	}
	if between {
		if _, is := l.(strList); is {
			return false, "a list and a range"
		}
		a, ok1 := cmp(list[0])
		b, ok2 := cmp(list[1])
		if !ok1 || !ok2 {
			return false, "a range of another type"
		}
		if a == 2 || b == 2 {
			return false, NotDefined
		}
		return (a >= 0 && b <= 0) != neg, ""
	}
	any := false
	for _, v := range list {
		c, ok := cmp(v)
		if !ok {
			return false, "a list of another type"
		}
		any = any || c == 0
	}
	return any != neg, ""
}

func foldEqual(a, b rune) bool {
	for r := unicode.SimpleFold(a); ; r = unicode.SimpleFold(r) {
		if r == b {
			return true
		}
		if r == a {
			return a == b
		}
	}
}

// likeFunc matches a LIKE pattern with an equality of characters.
func likeFunc(s, p string, eq func(a, b rune) bool) bool {
	a, b := []rune(s), []rune(p)
	ok := make([]bool, len(b)+1)
	ok[0] = true
	for j := range b {
		ok[j+1] = ok[j] && b[j] == '%'
	}
	for i := range a {
		diag := ok[0]
		ok[0] = false
		for j := range b {
			was := ok[j+1]
			switch b[j] {
			case '%':
				ok[j+1] = was || ok[j]
			case '_':
				ok[j+1] = diag
			default:
				ok[j+1] = diag && eq(a[i], b[j])
			}
			diag = was
		}
	}
	return ok[len(b)]
}

// EmptyInList tells if a filter tests against an empty list.
func EmptyInList(t *T) bool {
	found := false
	t.Walk(func(u *T) { found = found || u.K == "ARRAY" && len(u.C) == 0 })
	return found
}
