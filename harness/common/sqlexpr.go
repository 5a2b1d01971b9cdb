package common

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Reference reading of SQL conditions, by the precedence rules that the SQL dialects share: a condition
// that needs more than those (for instance a comparison of comparisons without parentheses) is rejected.

// SQLTok is a token of SQL: kind id, ?, num, str, op, kw.
type SQLTok struct{ K, S string }

var sqlKeywords = map[string]bool{"AND": true, "OR": true, "NOT": true, "IN": true, "BETWEEN": true, "IS": true, "NULL": true, "LIKE": true, "ILIKE": true, "REGEXP": true}

// LexSQL splits a condition in tokens.
func LexSQL(s string) ([]SQLTok, error) {
	var out []SQLTok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case isSpace(c):
			i++
		case c == '?':
			out = append(out, SQLTok{"?", "?"})
			i++
		case c == '\'':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(s) {
					return nil, fmt.Errorf("unterminated string")
				}
				if s[j] == '\'' {
					if j+1 < len(s) && s[j+1] == '\'' {
						b.WriteByte('\'')
						j += 2
						continue
					}
					break
				}
				b.WriteByte(s[j])
				j++
			}
			out = append(out, SQLTok{"str", b.String()})
			i = j + 1
		case isDigit(c):
			j := digits(s, i)
			if j < len(s) && s[j] == '.' {
				j = digits(s, j+1)
			}
			if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
				k := j + 1
				if k < len(s) && (s[k] == '+' || s[k] == '-') {
					k++
				}
				if k < len(s) && isDigit(s[k]) {
					j = digits(s, k)
				}
			}
			out = append(out, SQLTok{"num", s[i:j]})
			i = j
		case isLetter(c) || c == '_':
			j := i
			for j < len(s) && (isLetter(s[j]) || isDigit(s[j]) || s[j] == '_' || s[j] == '.') {
				j++
			}
			w := s[i:j]
			if sqlKeywords[strings.ToUpper(w)] {
				out = append(out, SQLTok{"kw", strings.ToUpper(w)})
			} else {
				out = append(out, SQLTok{"id", w})
			}
			i = j
		default:
			if i+1 < len(s) {
				if two := s[i : i+2]; two == "<=" || two == ">=" || two == "<>" || two == "!=" {
					out = append(out, SQLTok{"op", two})
					i += 2
					continue
				}
				if s[i:i+2] == "--" {
					return nil, fmt.Errorf("a comment")
				}
			}
			if strings.IndexByte("()+-*/%=<>,", c) < 0 {
				return nil, fmt.Errorf("character %q", c)
			}
			out = append(out, SQLTok{"op", string([]byte{c})})
			i++
		}
	}
	return out, nil
}

type sqlParser struct {
	t    []SQLTok
	i    int
	args []interface{}
	used int
	// Number reads a literal of the text, nil when they are not allowed.
	number func(s string) *T
}

type sqlError struct{ s string }

func (p *sqlParser) peek() SQLTok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return SQLTok{}
}

func (p *sqlParser) is(s string) bool {
	t := p.peek()
	return (t.K == "kw" || t.K == "op") && t.S == s
}

func (p *sqlParser) eat(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}

func (p *sqlParser) must(s string) {
	if !p.eat(s) {
		panic(sqlError{fmt.Sprintf("want %s at token %d (%v)", s, p.i, p.peek())})
	}
}

// ParseSQL reads a condition with its arguments. arg makes the leaf of an argument, lit that of a
// literal of the text (nil: no literals).
func ParseSQL(s string, args []interface{}, arg func(v interface{}) *T, lit func(t SQLTok) *T) (t *T, err error) {
	toks, err := LexSQL(s)
	if err != nil {
		return nil, err
	}
	p := &sqlParser{t: toks, args: args}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(sqlError)
			if !ok {
				panic(r)
			}
			t, err = nil, fmt.Errorf("%s", e.s)
		}
	}()
	r := &sqlReader{p, arg, lit}
	t = r.or()
	if p.i != len(p.t) {
		panic(sqlError{fmt.Sprintf("more text at token %d (%v)", p.i, p.peek())})
	}
	if p.used != len(args) {
		panic(sqlError{fmt.Sprintf("%d placeholders for %d arguments", p.used, len(args))})
	}
	return t, nil
}

type sqlReader struct {
	*sqlParser
	arg func(v interface{}) *T
	lit func(t SQLTok) *T
}

func (p *sqlReader) or() *T {
	l := p.and()
	for p.eat("OR") {
		l = Bin("OR", l, p.and())
	}
	return l
}

func (p *sqlReader) and() *T {
	l := p.not()
	for p.eat("AND") {
		l = Bin("AND", l, p.not())
	}
	return l
}

func (p *sqlReader) not() *T {
	if p.eat("NOT") {
		return Un("NOT", p.not())
	}
	return p.cmp()
}

var sqlCmp = map[string]string{"=": "EQ", "!=": "NE", "<>": "NE", "<": "LT", "<=": "LE", ">": "GT", ">=": "GE", "LIKE": "LIKE", "ILIKE": "ILIKE", "REGEXP": "REQ"}

func (p *sqlReader) cmp() *T {
	l := p.add()
	neg := false
	if p.is("NOT") {
		p.i++
		neg = true
		if !p.is("IN") && !p.is("BETWEEN") && !p.is("LIKE") && !p.is("ILIKE") && !p.is("REGEXP") {
			panic(sqlError{"NOT in front of no operator"})
		}
	}
	var t *T
	k := p.peek()
	op, ok := "", false
	if k.K == "op" || k.K == "kw" {
		op, ok = sqlCmp[k.S]
	}
	switch {
	case ok:
		p.i++
		t = Bin(op, l, p.add())
	case p.eat("IN"):
		p.must("(")
		a := Arr()
		for {
			a.C = append(a.C, p.or())
			if !p.eat(",") {
				break
			}
		}
		p.must(")")
		t = Bin("IN", l, a)
	case p.eat("BETWEEN"):
		lo := p.add()
		p.must("AND")
		t = Bin("BETWEEN", l, Arr(lo, p.add()))
	case p.eat("IS"):
		neg = p.eat("NOT")
		p.must("NULL")
		t = Bin("IS", l, Null())
	default:
		return l
	}
	if k := p.peek(); k.K == "op" && sqlCmp[k.S] != "" || k.K == "kw" && k.S != "AND" && k.S != "OR" {
		panic(sqlError{fmt.Sprintf("a comparison of a comparison at token %d (%v)", p.i, k)})
	}
	if neg {
		t = Un("NOT", t)
	}
	return t
}

func (p *sqlReader) add() *T {
	l := p.mul()
	for {
		switch {
		case p.eat("+"):
			l = Bin("ADD", l, p.mul())
		case p.eat("-"):
			l = Bin("SUB", l, p.mul())
		default:
			return l
		}
	}
}

func (p *sqlReader) mul() *T {
	l := p.un()
	for {
		switch {
		case p.eat("*"):
			l = Bin("MUL", l, p.un())
		case p.eat("/"):
			l = Bin("DIV", l, p.un())
		case p.eat("%"):
			l = Bin("MOD", l, p.un())
		default:
			return l
		}
	}
}

func (p *sqlReader) un() *T {
	if p.eat("-") {
		return Un("NEG", p.un())
	}
	t := p.peek()
	switch t.K {
	case "?":
		p.i++
		if p.used >= len(p.args) {
			panic(sqlError{"more placeholders than arguments"})
		}
		p.used++
		return p.arg(p.args[p.used-1])
	case "id":
		p.i++
		return Id(t.S)
	case "num", "str":
		if p.lit != nil {
			if l := p.lit(t); l != nil {
				p.i++
				return l
			}
		}
		panic(sqlError{fmt.Sprintf("a literal in the text: %s", t.S)})
	case "op":
		if t.S == "(" {
			p.i++
			e := p.or()
			p.must(")")
			return e
		}
	}
	panic(sqlError{fmt.Sprintf("token %d (%v)", p.i, t)})
}

// NormSQL rewrites a tree so that conditions written differently but meaning the same are equal:
// != and the negated operators are a NOT around the positive one, a double NOT is dropped, chains of
// AND, OR are flat and have an order of their own, a BETWEEN is its two comparisons, a list of one value is
// that value, and a negated literal number is a number.
func NormSQL(t *T) *T {
	if t == nil {
		return nil
	}
	u := *t
	u.C = make([]*T, len(t.C))
	for i, c := range t.C {
		u.C[i] = NormSQL(c)
	}
	if u.K == "BIN" {
		pos := map[string]string{"NE": "EQ", "RNE": "REQ"}[u.Op]
		if pos != "" {
			u.Op = pos
			return &T{K: "UN", Op: "NOT", C: []*T{&u}}
		}
		if u.Op == "BETWEEN" && u.C[1].K == "ARRAY" && len(u.C[1].C) == 2 {
			u = *Bin("AND", Bin("GE", u.C[0], u.C[1].C[0]), Bin("LE", u.C[0], u.C[1].C[1]))
		}
		if u.Op == "IN" && u.C[1].K == "ARRAY" && len(u.C[1].C) == 1 {
			u = *Bin("EQ", u.C[0], u.C[1].C[0])
		}
		if u.Op == "AND" || u.Op == "OR" {
			var flat []*T
			for _, c := range u.C {
				if c.K == "BIN" && c.Op == u.Op {
					flat = append(flat, c.C...)
				} else {
					flat = append(flat, c)
				}
			}
			u.C = flat
			sort.SliceStable(u.C, func(i, j int) bool { return orderKey(u.C[i]) < orderKey(u.C[j]) })
		}
	}
	return &u
}

// orderKey is the same for values that are only written differently.
func orderKey(t *T) string {
	switch t.K {
	case "NUMBER":
		return CanonNum(t.N)
	case "TEXTNUM":
		if f, err := strconv.ParseFloat(t.S, 64); err == nil {
			return CanonNum(f)
		}
		return CanonNum(t.N)
	case "STRING", "TEXTSTR", "DATE", "TIMESTAMP":
		return CanonStamp(t.S)
	}
	k := t.K + t.Op + t.S + strconv.FormatBool(t.B) + "("
	for _, c := range t.C {
		k += orderKey(c) + ","
	}
	return k + ")"
}
