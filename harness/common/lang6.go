package common

import (
	"math"
	"strconv"
	"strings"
)

// Reference model of the v6 language: a scanner that applies the documented token rules by longest
// match, and a predictive recursive descent parser that finds the first unacceptable token.

// Tok is a token: K its kind, S its value, End the index after its last byte.
type Tok struct {
	K     string
	S     string
	Start int
	End   int
}

func isDigit(c byte) bool  { return c >= '0' && c <= '9' }
func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isSpace(c byte) bool {
	return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f' || c == '\v'
}

func digits(s string, i int) int {
	for i < len(s) && isDigit(s[i]) {
		i++
	}
	return i
}

var keywords6 = map[string]string{"like": "like", "ilike": "ilike", "and": "and", "or": "or", "between": "between",
	"in": "in", "is": "is", "null": "null", "not": "not", "true": "true", "false": "false", "len": "len",
	"any": "any", "all": "all", "sum": "sum"}

var symbols6 = []string{"<=", ">=", "!=", "<>", "~=", "~!", "<", ">", "=", "(", ")", ",", "+", "-", "*", "/", "%", "[", "]"}

func shape(s string, i int, pat string) int {
	if i < 0 || i+len(pat) > len(s) {
		return -1
	}
	for k := 0; k < len(pat); k++ {
		c := s[i+k]
		if pat[k] == 'd' {
			if !isDigit(c) {
				return -1
			}
		} else if c != pat[k] {
			return -1
		}
	}
	return i + len(pat)
}

// date6 returns the end of a date at i, or -1.
func date6(s string, i int) int { return shape(s, i, "dddd-dd-dd") }

// stamp6 returns the end of the longest RFC3339 timestamp at i, or -1.
func stamp6(s string, i int) int {
	e := shape(s, i, "dddd-dd-ddTdd:dd:dd")
	if e < 0 {
		return -1
	}
	if e+1 < len(s) && s[e] == '.' && isDigit(s[e+1]) {
		e = digits(s, e+1)
	}
	if e < len(s) && s[e] == 'Z' {
		return e + 1
	}
	if x := shape(s, e, "+dd:dd"); x > 0 {
		return x
	}
	return shape(s, e, "-dd:dd")
}

// number6 returns the end of the longest number at i, or -1.
func number6(s string, i int) int {
	e := i
	if e < len(s) && (s[e] == '+' || s[e] == '-') {
		e++
	}
	x := digits(s, e)
	if x == e {
		return -1
	}
	best := x
	ends := []int{x}
	if x < len(s) && s[x] == '.' {
		x = digits(s, x+1)
		ends = append(ends, x)
		best = x
	}
	for _, x := range ends {
		if x < len(s) && (s[x] == 'e' || s[x] == 'E') {
			y := x + 1
			if y < len(s) && (s[y] == '+' || s[y] == '-') {
				y++
			}
			if z := digits(s, y); z > y && z > best {
				best = z
			}
		}
		if x < len(s) && strings.IndexByte("kKmMgGtTpP", s[x]) >= 0 {
			y := x + 1
			if y < len(s) && (s[y] == 'i' || s[y] == 'I') {
				y++
			}
			if y > best {
				best = y
			}
		}
	}
	return best
}

// ident6 returns the end of the longest identifier at i, or -1.
func ident6(s string, i int) int {
	if i >= len(s) || !isLetter(s[i]) && s[i] != '_' {
		return -1
	}
	e := i + 1
	for e < len(s) {
		c := s[e]
		if isLetter(c) || isDigit(c) || c == '_' || c == '.' || c == '/' {
			e++
			continue
		}
		if c != '[' {
			break
		}
		x := e + 1
		if x < len(s) && s[x] == '*' {
			x++
		} else {
			for x < len(s) && (isLetter(s[x]) || isDigit(s[x]) || s[x] == '_' || s[x] == '.' || s[x] == '/' || s[x] == '-') {
				x++
			}
			if x == e+1 {
				break
			}
		}
		if x >= len(s) || s[x] != ']' {
			break
		}
		e = x + 1
	}
	return e
}

// string6 returns the end of a quoted string at i, or -1.
func string6(s string, i int) int {
	q := s[i]
	for e := i + 1; e < len(s); e++ {
		if s[e] == q {
			return e + 1
		}
		if s[e] == '\\' {
			e++
			if e >= len(s) || s[e] == '\n' {
				return -1
			}
		}
	}
	return -1
}

func unescape6(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\\' && i+1 < len(s) {
			i++
			c = s[i]
			switch c {
			case 'n':
				c = '\n'
			case 't':
				c = '\t'
			case 'r':
				c = '\r'
			case 'b':
				c = '\b'
			case 'f':
				c = '\f'
			}
		}
		b = append(b, c)
	}
	return string(b)
}

// Lex6 returns the next token at or after i. The kind is "" at the end and "?" for an unknown character.
func Lex6(s string, i int) Tok {
	for i < len(s) && isSpace(s[i]) {
		i++
	}
	if i >= len(s) {
		return Tok{Start: len(s), End: len(s)}
	}
	c := s[i]
	if c == '\'' || c == '"' || c == '`' {
		e := string6(s, i)
		if e < 0 {
			return Tok{K: "?", Start: i, End: i + 1}
		}
		v := unescape6(s[i+1 : e-1])
		k := "str"
		if date6(v, 0) == len(v) {
			k = "date"
		} else if len(v) > 0 && stamp6(v, 0) == len(v) {
			k = "stamp"
		}
		return Tok{K: k, S: v, Start: i, End: e}
	}
	if e := stamp6(s, i); e > 0 {
		return Tok{K: "stamp", S: s[i:e], Start: i, End: e}
	}
	if e := date6(s, i); e > 0 {
		return Tok{K: "date", S: s[i:e], Start: i, End: e}
	}
	if e := number6(s, i); e > 0 {
		return Tok{K: "num", S: s[i:e], Start: i, End: e}
	}
	if e := ident6(s, i); e > 0 {
		w := s[i:e]
		if len(w) <= 7 {
			if k, ok := keywords6[asciiLower(w)]; ok {
				return Tok{K: k, S: w, Start: i, End: e}
			}
		}
		return Tok{K: "id", S: w, Start: i, End: e}
	}
	for _, y := range symbols6 {
		if strings.HasPrefix(s[i:], y) {
			return Tok{K: y, S: y, Start: i, End: i + len(y)}
		}
	}
	return Tok{K: "?", S: s[i : i+1], Start: i, End: i + 1}
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// Number6 is the value of a number text.
func Number6(s string) float64 {
	mul := 1.0
	n := len(s)
	if n > 0 && (s[n-1] == 'i' || s[n-1] == 'I') {
		mul = -1
		n--
	}
	if n > 0 {
		if p := strings.IndexByte("kmgtp", s[n-1]|32); p >= 0 && isLetter(s[n-1]) {
			if mul < 0 {
				mul = math.Pow(1024, float64(p+1))
			} else {
				mul = math.Pow(1000, float64(p+1))
			}
			n--
		}
	}
	f, _ := strconv.ParseFloat(s[:n], 64)
	return f * mul
}

type parser6 struct {
	s   string
	tok Tok
	bad bool
}

type syntaxError6 struct{}

// Steps6 is the number of tokens the model has read.
var Steps6 int

func (p *parser6) next() {
	Steps6++
	p.tok = Lex6(p.s, p.tok.End)
}

func (p *parser6) fail() { panic(syntaxError6{}) }

func (p *parser6) expect(k string) {
	if p.tok.K != k {
		p.fail()
	}
	p.next()
}

// Parse6 returns the tree of a filter, or the offending token.
func Parse6(s string) (t *T, at Tok, ok bool) {
	p := &parser6{s: s}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(syntaxError6); !is {
				panic(r)
			}
			t, at, ok = nil, p.tok, false
		}
	}()
	if i := strings.IndexByte(s, 0); i >= 0 {
		return nil, Tok{K: "?", Start: i, End: i + 1}, false
	}
	p.next()
	t = p.or()
	if p.tok.K != "" {
		p.fail()
	}
	return t, p.tok, true
}

func (p *parser6) or() *T {
	l := p.and()
	for p.tok.K == "or" {
		p.next()
		l = Bin("OR", l, p.and())
	}
	return l
}

func (p *parser6) and() *T {
	l := p.cmp()
	for p.tok.K == "and" {
		p.next()
		l = Bin("AND", l, p.cmp())
	}
	return l
}

var cmpOps6 = map[string]string{"=": "EQ", "!=": "NE", "<>": "NE", "<": "LT", "<=": "LE", ">": "GT", ">=": "GE",
	"~=": "REQ", "~!": "RNE", "like": "LIKE", "ilike": "ILIKE", "in": "IN"}

func (p *parser6) cmp() *T {
	l := p.add()
	for {
		neg := false
		k := p.tok.K
		if k == "not" {
			neg = true
			p.next()
			k = p.tok.K
			if k != "like" && k != "ilike" && k != "in" && k != "between" {
				p.fail()
			}
		}
		if op, ok := cmpOps6[k]; ok {
			p.next()
			l = Bin(op, l, p.add())
		} else if k == "between" {
			p.next()
			a := p.add()
			p.expect("and")
			l = Bin("BETWEEN", l, Arr(a, p.add()))
		} else if k == "is" {
			p.next()
			if p.tok.K == "not" {
				neg = true
				p.next()
			}
			p.expect("null")
			l = Bin("IS", l, Null())
		} else {
			return l
		}
		if neg {
			l = Un("NOT", l)
		}
	}
}

func (p *parser6) add() *T {
	l := p.mul()
	for {
		switch p.tok.K {
		case "+":
			p.next()
			l = Bin("ADD", l, p.mul())
		case "-":
			p.next()
			l = Bin("SUB", l, p.mul())
		default:
			return l
		}
	}
}

func (p *parser6) mul() *T {
	l := p.not()
	for {
		op := ""
		switch p.tok.K {
		case "*":
			op = "MUL"
		case "/":
			op = "DIV"
		case "%":
			op = "MOD"
		default:
			return l
		}
		p.next()
		l = Bin(op, l, p.not())
	}
}

var prefix6 = map[string]string{"not": "NOT", "len": "LEN", "any": "ANY", "all": "ALL", "sum": "SUM"}

func (p *parser6) not() *T {
	if op, ok := prefix6[p.tok.K]; ok {
		p.next()
		return Un(op, p.not())
	}
	return p.unary()
}

func (p *parser6) unary() *T {
	switch p.tok.K {
	case "-":
		p.next()
		return Un("NEG", p.unary())
	case "+":
		p.next()
		return p.unary()
	case "(":
		p.next()
		t := p.or()
		p.expect(")")
		return t
	case "[":
		p.next()
		a := Arr()
		for p.tok.K != "]" {
			a.C = append(a.C, p.or())
			if p.tok.K != "," {
				break
			}
			p.next()
		}
		p.expect("]")
		return a
	}
	var t *T
	switch p.tok.K {
	case "num":
		t = Num(Number6(p.tok.S))
	case "str":
		t = Str(p.tok.S)
	case "id":
		t = Id(p.tok.S)
	case "stamp":
		t = Stamp(p.tok.S)
	case "date":
		t = Date(p.tok.S)
	case "true":
		t = Bool(true)
	case "false":
		t = Bool(false)
	default:
		p.fail()
	}
	p.next()
	return t
}

// ErrorPos6 is the position reported for a syntax error of a one line filter.
func ErrorPos6(s string, at Tok) int {
	p := at.End - 1
	if at.K == "" {
		p = len(s) - 1
	}
	if p < 0 {
		p = 0
	}
	return p
}

// ---- writing filters

var text6 = map[string]string{"EQ": "=", "NE": "!=", "LT": "<", "LE": "<=", "GT": ">", "GE": ">=", "REQ": "~=", "RNE": "~!",
	"LIKE": "like", "ILIKE": "ilike", "IN": "in", "ADD": "+", "SUB": "-", "MUL": "*", "DIV": "/", "MOD": "%", "AND": "and", "OR": "or",
	"NOT": "not", "LEN": "len", "ANY": "any", "ALL": "all", "SUM": "sum", "NEG": "-"}

func level6(t *T) int {
	switch t.K {
	case "BIN":
		switch t.Op {
		case "OR":
			return 0
		case "AND":
			return 1
		case "ADD", "SUB":
			return 3
		case "MUL", "DIV", "MOD":
			return 4
		}
		return 2
	case "UN":
		if t.Op == "NEG" {
			return 6
		}
		return 5
	}
	return 7
}

// Quote6 writes a string literal.
func Quote6(s string) string {
	var b strings.Builder
	b.WriteByte('\'')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\n':
			b.WriteString("\\n")
		case '\'', '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('\'')
	return b.String()
}

// NumText6 writes a number literal (not for infinities).
func NumText6(f float64) string {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if len(s) > 25 {
		s = strconv.FormatFloat(f, 'e', -1, 64)
	}
	return s
}

// Text6 writes a tree as a filter with the parentheses that are needed (full: all of them).
func Text6(t *T, full bool) string {
	sub := func(c *T, min int) string {
		s := Text6(c, full)
		l := level6(c)
		if l < min || full && l < 7 {
			return "(" + s + ")"
		}
		return s
	}
	switch t.K {
	case "NUMBER":
		return NumText6(t.N)
	case "STRING":
		return Quote6(t.S)
	case "IDENTIFIER", "DATE", "TIMESTAMP":
		return t.S
	case "BOOLEAN":
		if t.B {
			return "true"
		}
		return "false"
	case "NULL":
		return "null"
	case "ARRAY":
		p := make([]string, len(t.C))
		for i, c := range t.C {
			p[i] = sub(c, 0)
		}
		return "[" + strings.Join(p, ", ") + "]"
	case "UN":
		if t.Op == "NEG" {
			return "- " + sub(t.C[0], 6)
		}
		return text6[t.Op] + " " + sub(t.C[0], 5)
	}
	l := level6(t)
	switch t.Op {
	case "IS":
		return sub(t.C[0], l) + " is null"
	case "BETWEEN":
		if r := t.C[1]; r.K == "ARRAY" && len(r.C) == 2 {
			return sub(t.C[0], l) + " between " + sub(r.C[0], l+1) + " and " + sub(r.C[1], l+1)
		}
	}
	return sub(t.C[0], l) + " " + text6[t.Op] + " " + sub(t.C[1], l+1)
}
