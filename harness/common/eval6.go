package common

import (
	"math"
	"reflect"
	"regexp"
	"strings"
	"time"
)

// Errs are the errors of an evaluation: the missing fields, and any other reason.
type Errs struct {
	Missing []string
	Other   string
}

func (e *Errs) add(o *Errs) *Errs {
	if e == nil {
		return o
	}
	if o == nil {
		return e
	}
	r := &Errs{Missing: append(append([]string{}, e.Missing...), o.Missing...), Other: e.Other}
	if r.Other == "" {
		r.Other = o.Other
	}
	return r
}

func bad(why string) *Errs { return &Errs{Other: why} }

// Norm brings a value of a record to the domain of the model:
// nil, bool, float64, string, Inst, []interface{} or something else.
func Norm(v interface{}) interface{} {
	switch x := v.(type) {
	case nil, bool, Inst:
		return x
	case string:
		if t, ok := ReadDate(x); ok {
			return Inst{t}
		}
		return x
	case time.Time:
		return Inst{x.UTC()}
	case []interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = Norm(x[i])
		}
		return out
	}
	if f, ok := number(v); ok {
		return f
	}
	return v
}

// Eval6 is the value of a tree for a (normalized) record, or its errors.
func Eval6(t *T, rec map[string]interface{}) (interface{}, *Errs) {
	switch t.K {
	case "NUMBER":
		return t.N, nil
	case "STRING", "DATE", "TIMESTAMP":
		return Norm(t.S), nil
	case "BOOLEAN":
		return t.B, nil
	case "NULL":
		return nil, nil
	case "IDENTIFIER":
		v, ok := rec[t.S]
		if !ok {
			return nil, &Errs{Missing: []string{t.S}}
		}
		return v, nil
	case "ARRAY":
		out := make([]interface{}, len(t.C))
		var errs *Errs
		for i, c := range t.C {
			v, e := Eval6(c, rec)
			errs = errs.add(e)
			out[i] = v
		}
		if errs != nil {
			return nil, errs
		}
		return out, nil
	case "UN":
		v, e := Eval6(t.C[0], rec)
		if e != nil {
			return nil, e
		}
		return unary6(t.Op, v)
	}
	l, e1 := Eval6(t.C[0], rec)
	r, e2 := Eval6(t.C[1], rec)
	if e := e1.add(e2); e != nil {
		return nil, e
	}
	return binary6(t.Op, l, r)
}

func unary6(op string, v interface{}) (interface{}, *Errs) {
	arr, isArr := v.([]interface{})
	switch op {
	case "LEN", "SUM", "ANY", "ALL":
		if !isArr {
			return nil, bad(op + " of no array")
		}
		sum, any, all := 0.0, false, len(arr) > 0
		for _, e := range arr {
			b, _ := e.(bool)
			any = any || b
			all = all && b
			if op == "SUM" {
				f, ok := e.(float64)
				if !ok {
					return nil, bad("sum of no number")
				}
				sum += f
			}
		}
		switch op {
		case "LEN":
			return float64(len(arr)), nil
		case "SUM":
			return sum, nil
		case "ANY":
			return any, nil
		}
		return all, nil
	}
	one := func(v interface{}) (interface{}, *Errs) {
		switch x := v.(type) {
		case bool:
			if op == "NOT" {
				return !x, nil
			}
		case float64:
			if op == "NEG" {
				return -x, nil
			}
		}
		return nil, bad(op + " of another type")
	}
	if !isArr {
		return one(v)
	}
	out := make([]interface{}, len(arr))
	for i, e := range arr {
		r, err := one(e)
		if err != nil {
			return nil, err
		}
		out[i] = r
	}
	return out, nil
}

func equal6(l, r interface{}) bool {
	switch x := l.(type) {
	case nil:
		return r == nil
	case float64:
		y, ok := r.(float64)
		return ok && x == y
	case string:
		y, ok := r.(string)
		return ok && x == y
	case bool:
		y, ok := r.(bool)
		return ok && x == y
	case Inst:
		y, ok := r.(Inst)
		return ok && x.T.Equal(y.T)
	}
	switch r.(type) {
	case nil, float64, string, bool, Inst, []interface{}:
		return false
	}
	if reflect.TypeOf(l) != reflect.TypeOf(r) {
		return false
	}
	// Values of other types: the equality of Go, or deep equality where Go has none.
	if reflect.ValueOf(l).Comparable() && reflect.ValueOf(r).Comparable() {
		return l == r
	}
	return reflect.DeepEqual(l, r)
}

// order6 compares two numbers or two instants: -1, 0, 1, or 2 when they are not ordered (NaN).
func order6(l, r interface{}) (int, bool) {
	switch x := l.(type) {
	case float64:
		if y, ok := r.(float64); ok {
			switch {
			case x < y:
				return -1, true
			case x > y:
				return 1, true
			case x == y:
				return 0, true
			}
			return 2, true
		}
	case Inst:
		if y, ok := r.(Inst); ok {
			switch {
			case x.T.Before(y.T):
				return -1, true
			case x.T.After(y.T):
				return 1, true
			}
			return 0, true
		}
	}
	return 0, false
}

// Like matches a pattern where % is any sequence and _ any one character.
func Like(s, p string) bool {
	a, b := []rune(s), []rune(p)
	// ok[j]: the first i characters match the first j of the pattern.
	ok := make([]bool, len(b)+1)
	ok[0] = true
	for j := range b {
		ok[j+1] = ok[j] && b[j] == '%'
	}
	for i := range a {
		diag := ok[0]
		ok[0] = false
		for j := range b {
			was := ok[j+1]
			switch b[j] {
			case '%':
				ok[j+1] = was || ok[j]
			case '_':
				ok[j+1] = diag
			default:
				ok[j+1] = diag && a[i] == b[j]
			}
			diag = was
		}
	}
	return ok[len(b)]
}

// Regexps is a cache of compiled expressions, nil for those that are not valid.
var regexps = map[string]*regexp.Regexp{}

func compiled(p string) *regexp.Regexp {
	re, ok := regexps[p]
	if !ok {
		if len(regexps) > 20000 {
			regexps = map[string]*regexp.Regexp{}
		}
		re, _ = regexp.Compile(p)
		regexps[p] = re
	}
	return re
}

func binary6(op string, l, r interface{}) (interface{}, *Errs) {
	if arr, ok := l.([]interface{}); ok {
		out := make([]interface{}, len(arr))
		for i, e := range arr {
			v, err := binary6(op, e, r)
			if err != nil {
				return nil, err
			}
			out[i] = v
		}
		return out, nil
	}
	switch op {
	case "EQ":
		return equal6(l, r), nil
	case "NE":
		return !equal6(l, r), nil
	case "LT", "LE", "GT", "GE":
		c, ok := order6(l, r)
		if !ok {
			if l == nil || r == nil {
				return false, nil
			}
			return nil, bad("not ordered")
		}
		switch op {
		case "LT":
			return c == -1, nil
		case "LE":
			return c == -1 || c == 0, nil
		case "GT":
			return c == 1, nil
		}
		return c == 1 || c == 0, nil
	case "AND", "OR":
		x, ok1 := l.(bool)
		y, ok2 := r.(bool)
		if !ok1 || !ok2 {
			return nil, bad("logic on another type")
		}
		if op == "AND" {
			return x && y, nil
		}
		return x || y, nil
	case "REQ", "RNE", "LIKE", "ILIKE":
		x, ok1 := l.(string)
		y, ok2 := r.(string)
		if !ok1 || !ok2 {
			return nil, bad("match of no text")
		}
		switch op {
		case "LIKE":
			return Like(x, y), nil
		case "ILIKE":
			return Like(strings.ToLower(x), strings.ToLower(y)), nil
		}
		re := compiled(y)
		if re == nil {
			return nil, bad("no regular expression")
		}
		return re.MatchString(x) == (op == "REQ"), nil
	case "IN":
		arr, ok := r.([]interface{})
		if !ok {
			return nil, bad("in no array")
		}
		switch l.(type) {
		case nil:
			return false, nil
		case string, float64, bool, Inst:
		default:
			return nil, bad("in of another type")
		}
		for _, e := range arr {
			if equal6(l, e) {
				return true, nil
			}
		}
		return false, nil
	case "BETWEEN":
		arr, ok := r.([]interface{})
		if !ok || len(arr) != 2 {
			return nil, bad("no range")
		}
		if l == nil {
			return false, nil
		}
		lo, ok1 := order6(l, arr[0])
		hi, ok2 := order6(l, arr[1])
		if !ok1 || !ok2 {
			return nil, bad("not ordered")
		}
		return (lo == 0 || lo == 1) && (hi == 0 || hi == -1), nil
	case "IS":
		return l == nil && r == nil, nil
	}
	x, ok1 := l.(float64)
	y, ok2 := r.(float64)
	if !ok1 || !ok2 {
		return nil, bad("arithmetic on another type")
	}
	switch op {
	case "ADD":
		return x + y, nil
	case "SUB":
		return x - y, nil
	case "MUL":
		return x * y, nil
	case "DIV":
		if y == 0 {
			return nil, bad("division by zero")
		}
		return x / y, nil
	case "MOD":
		if math.Trunc(y) == 0 {
			return nil, bad("modulus by zero")
		}
		return math.Mod(math.Trunc(x), math.Trunc(y)), nil
	}
	panic("operator " + op)
}

// ModUnclear tells if the result of a modulus in the tree is outside what the model defines
// (operands that do not fit in 64 bits, or are not finite).
func ModUnclear(t *T, rec map[string]interface{}) bool {
	found := false
	t.Walk(func(n *T) {
		if n.K != "BIN" || n.Op != "MOD" {
			return
		}
		for _, c := range n.C {
			v, _ := Eval6(c, rec)
			var chk func(v interface{})
			chk = func(v interface{}) {
				switch x := v.(type) {
				case float64:
					if !(math.Abs(x) < 1<<53) {
						found = true
					}
				case []interface{}:
					for _, e := range x {
						chk(e)
					}
				}
			}
			chk(v)
		}
	})
	return found
}

// NormRecord normalizes a record.
func NormRecord(r map[string]interface{}) map[string]interface{} {
	out := make(map[string]interface{}, len(r))
	for k, v := range r {
		out[k] = Norm(v)
	}
	return out
}

// DatesMatched tells if the tree matches a date with a pattern, which is not defined.
func DatesMatched(t *T, rec map[string]interface{}) bool {
	found := false
	var has func(v interface{}) bool
	has = func(v interface{}) bool {
		switch x := v.(type) {
		case Inst:
			return true
		case []interface{}:
			for _, e := range x {
				if has(e) {
					return true
				}
			}
		}
		return false
	}
	t.Walk(func(n *T) {
		if n.K == "BIN" && (n.Op == "LIKE" || n.Op == "ILIKE" || n.Op == "REQ" || n.Op == "RNE") {
			for _, c := range n.C {
				if v, e := Eval6(c, rec); e == nil && has(v) {
					found = true
				}
			}
		}
	})
	return found
}
