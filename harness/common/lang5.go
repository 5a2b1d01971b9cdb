package common

import (
	"math"
	"strconv"
	"strings"
	"time"
)

// Reference model of the language of versions 4 and 5, from the published grammar TSL.g4: a scanner by
// longest match, a recogniser of the grammar (for the prefixes) and a recursive descent parser (for the
// trees). The operators of the trees have the names of the library, "$eq" and so on.

// Lang is a version of the language.
type Lang struct {
	V       int
	grammar *Earley
}

// Lang4 and Lang5 are the two versions.
var Lang4, Lang5 = newLang(4), newLang(5)

func newLang(v int) *Lang {
	r := map[string][][]string{
		"S": {{"E"}},
		"E": {{"M", "cmp", "R"}, {"M", "match", "R"}, {"M", "N", "like", "V"}, {"M", "is", "N", "null"}, {"M", "is", "N", "V"},
			{"M", "N", "between", "V", "and", "V"}, {"M", "N", "in", "(", ")"}, {"M", "N", "in", "(", "L", ")"},
			{"not", "E"}, {"E", "and", "E"}, {"E", "or", "E"}, {"(", "E", ")"}},
		"L": {{"V"}, {"L", ",", "V"}},
		"N": {{}, {"not"}},
		"V": {{"num"}, {"+", "num"}, {"-", "num"}, {"str"}},
		"R": {{"V"}},
		"O": {{"V"}, {"M"}},
		"M": {{"C"}, {"(", "M", ")"}, {"M", "+", "O"}, {"M", "-", "O"}, {"M", "mul", "O"}},
		"C": {{"id"}},
	}
	if v == 5 {
		r["V"] = append(r["V"], []string{"true"}, []string{"date"})
		r["R"] = append(r["R"], []string{"M"})
	} else {
		r["C"] = append(r["C"], []string{"id", ".", "id"}, []string{"id", ".", "id", ".", "id"})
	}
	return &Lang{v, NewEarley("S", r)}
}

var keywords5 = map[string]string{"like": "like", "ilike": "like", "and": "and", "or": "or", "between": "between", "in": "in", "is": "is",
	"null": "null", "not": "not"}

var symbols5 = []string{"<=", ">=", "!=", "<>", "~=", "~!", "<", ">", "=", "(", ")", ",", "+", "-", "*", "/", "%"}

// number5 is the end of the longest number at i, or -1.
func (g *Lang) number(s string, i int) int {
	if i < len(s) && s[i] == '.' {
		e := digits(s, i+1)
		if e == i+1 {
			return -1
		}
		return exponent(s, e)
	}
	e := digits(s, i)
	if e == i {
		return -1
	}
	best := e
	if g.V == 5 && e < len(s) && strings.IndexByte("KMGTP", s[e]) >= 0 {
		best = e + 1
		if best < len(s) && s[best] == 'i' {
			best++
		}
	}
	if x := exponent(s, e); x > best {
		best = x
	}
	if e < len(s) && s[e] == '.' {
		if x := exponent(s, digits(s, e+1)); x > best {
			best = x
		}
	}
	return best
}

// exponent is the end of the exponent at i, or i.
func exponent(s string, i int) int {
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		y := i + 1
		if y < len(s) && (s[y] == '+' || s[y] == '-') {
			y++
		}
		if z := digits(s, y); z > y {
			return z
		}
	}
	return i
}

// quoted is the end of a quoted text where a doubled quote is part of it, or -1.
func quoted(s string, i int) int {
	for e := i + 1; e < len(s); e++ {
		if s[e] == s[i] {
			if e+1 < len(s) && s[e+1] == s[i] {
				e++
				continue
			}
			return e + 1
		}
	}
	// The longest match is a shorter one when the text ends in a doubled quote.
	for e := i + 1; e < len(s); e++ {
		if s[e] == s[i] {
			return e + 1
		}
	}
	return -1
}

// Lex is the next token at or after i. The kind is "" at the end and "?" for an unknown character.
func (g *Lang) Lex(s string, i int) Tok {
	for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n' || s[i] == '\v') {
		i++
	}
	if i >= len(s) {
		return Tok{Start: len(s), End: len(s)}
	}
	tok := func(k string, e int) Tok { return Tok{k, s[i:e], i, e} }
	c := s[i]
	switch {
	case c == '\'':
		if e := quoted(s, i); e > 0 {
			return tok("str", e)
		}
	case c == '"' || c == '`':
		if e := quoted(s, i); e > 0 {
			return tok("id", e)
		}
	case c == '[':
		if e := strings.IndexByte(s[i:], ']'); e > 0 {
			return tok("id", i+e+1)
		}
	case isLetter(c) || c == '_':
		e := i + 1
		for e < len(s) && (isLetter(s[e]) || isDigit(s[e]) || s[e] == '_' || g.V == 5 && (s[e] == '.' || s[e] == '/')) {
			e++
		}
		w := asciiLower(s[i:e])
		if k, ok := keywords5[w]; ok {
			return tok(k, e)
		}
		if g.V == 5 && (w == "true" || w == "false") {
			return tok("true", e)
		}
		return tok("id", e)
	case isDigit(c) || c == '.':
		k, e := "num", g.number(s, i)
		if g.V == 5 {
			if x := date6(s, i); x > e {
				k, e = "date", x
			}
			if x := stamp6(s, i); x > e {
				k, e = "date", x
			}
			if x := clock5(s, i); x > e {
				k, e = "?", x
			}
		}
		if e > 0 {
			return tok(k, e)
		}
		if c == '.' && g.V == 4 {
			return tok(".", i+1)
		}
	}
	if g.V == 5 && (c == '+' || c == '-') {
		// The offset of a time is a token of the grammar that nothing uses.
		if x := shape(s, i+1, "dd:dd"); x > 0 {
			return tok("?", x)
		}
	}
	for _, y := range symbols5 {
		if strings.HasPrefix(s[i:], y) {
			k := y
			switch y {
			case "<", "<=", ">", ">=", "=", "!=", "<>":
				k = "cmp"
			case "~=", "~!":
				k = "match"
			case "*", "/", "%":
				k = "mul"
			}
			return tok(k, i+len(y))
		}
	}
	return tok("?", i+1)
}

// clock5 is the end of a time of the day at i, or -1.
func clock5(s string, i int) int {
	e := shape(s, i, "dd:dd:dd")
	if e > 0 && e+1 < len(s) && s[e] == '.' && isDigit(s[e+1]) {
		e = digits(s, e+1)
	}
	return e
}

// Viable is a prefix of tokens that can become a sentence.
type Viable struct {
	g     *Lang
	chart *Chart
}

// Begin is the empty prefix.
func (g *Lang) Begin() *Viable { return &Viable{g, g.grammar.Start()} }

// Add adds the tokens of a text, nil when no sentence starts like this.
func (v *Viable) Add(s string) *Viable {
	ch := v.chart
	for i := 0; ; {
		t := v.g.Lex(s, i)
		if t.K == "" {
			return &Viable{v.g, ch}
		}
		if ch = ch.Next(t.K); ch == nil {
			return nil
		}
		i = t.End
	}
}

// Accepts tells if the prefix is a sentence of the grammar.
func (v *Viable) Accepts() bool { return v.chart.Accepts() }

type parser5 struct {
	g *Lang
	s string
	t Tok
	// greedy makes the operand of an arithmetic operator take the rest of the expression, as the generated
	// parsers do, instead of the operators in their order of precedence.
	greedy bool
	steps  int
	// invalid is set when the text is a sentence of the grammar with a literal that has no value.
	invalid bool
}

func (p *parser5) next()            { p.t = p.g.Lex(p.s, p.t.End); p.steps++ }
func (p *parser5) fail()            { panic(syntaxError6{}) }
func (p *parser5) at() Tok          { return p.t }
func (p *parser5) back(t Tok)       { p.t = t }
func (p *parser5) is(k string) bool { return p.t.K == k }

func (p *parser5) eat(k string) bool {
	if p.t.K == k {
		p.next()
		return true
	}
	return false
}

func (p *parser5) must(k string) {
	if !p.eat(k) {
		p.fail()
	}
}

// Steps5 counts the tokens that the model read.
var Steps5 int

// Parse gives the tree of a filter, and if it is in the language.
func (g *Lang) Parse(s string) (*T, bool) { return g.parse(s, false) }

// ParseGreedy is Parse with the operands of arithmetic that the generated parsers take.
func (g *Lang) ParseGreedy(s string) (*T, bool) { return g.parse(s, true) }

func (g *Lang) parse(s string, greedy bool) (t *T, ok bool) {
	p := &parser5{g: g, s: s, greedy: greedy}
	defer func() {
		Steps5 += p.steps
		if r := recover(); r != nil {
			if _, is := r.(syntaxError6); !is {
				panic(r)
			}
			t, ok = nil, false
		}
	}()
	p.next()
	t = p.or()
	if !p.is("") || p.invalid {
		return nil, false
	}
	return t, true
}

func (p *parser5) or() *T {
	l := p.and()
	for p.eat("or") {
		l = Bin("$or", l, p.and())
	}
	return l
}

func (p *parser5) and() *T {
	l := p.not()
	for p.eat("and") {
		l = Bin("$and", l, p.not())
	}
	return l
}

func (p *parser5) not() *T {
	if p.eat("not") {
		return Un("$not", p.not())
	}
	if p.is("(") {
		// A condition or an arithmetic expression in parentheses.
		if depth, k := p.closing(); depth == 0 && k != "" {
			switch k {
			case "cmp", "match", "like", "is", "between", "in", "not", "+", "-", "mul":
				return p.cmp()
			}
		}
		p.next()
		e := p.or()
		p.must(")")
		return e
	}
	return p.cmp()
}

// closing finds the kind of the token after the parenthesis that closes this one.
func (p *parser5) closing() (int, string) {
	depth := 0
	for t := p.t; ; t = p.g.Lex(p.s, t.End) {
		p.steps++
		switch t.K {
		case "(":
			depth++
		case ")":
			depth--
			if depth == 0 {
				return 0, p.g.Lex(p.s, t.End).K
			}
		case "", "?":
			return depth, ""
		}
	}
}

var cmpOps5 = map[string]string{"=": "$eq", "!=": "$ne", "<>": "$ne", "<": "$lt", "<=": "$lte", ">": "$gt", ">=": "$gte", "~=": "$regex", "~!": "$nregex"}

func (p *parser5) cmp() *T {
	l := p.math()
	op := p.t
	switch op.K {
	case "cmp", "match":
		p.next()
		var r *T
		if p.g.V == 5 && (p.is("id") || p.is("(")) {
			r = p.math()
		} else {
			r = p.literal()
		}
		if op.K == "match" && r.K != "STRING" && r.K != "IDENTIFIER" {
			p.invalid = true
		}
		return Bin(cmpOps5[op.S], l, r)
	case "is":
		p.next()
		neg := p.eat("not")
		if p.eat("null") {
			return Un(map[bool]string{false: "$nexists", true: "$exists"}[neg], l)
		}
		return Bin(map[bool]string{false: "$eq", true: "$ne"}[neg], l, p.literal())
	}
	neg := p.eat("not")
	op = p.t
	switch op.K {
	case "like":
		p.next()
		r := p.literal()
		if r.K != "STRING" {
			p.invalid = true
		}
		t := Bin("$"+asciiLower(op.S), l, r)
		if neg {
			t = Un("$not", t)
		}
		return t
	case "between":
		p.next()
		a := p.literal()
		p.must("and")
		return Bin(map[bool]string{false: "$between", true: "$nbetween"}[neg], l, Arr(a, p.literal()))
	case "in":
		p.next()
		p.must("(")
		a := Arr()
		if !p.is(")") {
			a.C = append(a.C, p.literal())
			for p.eat(",") {
				a.C = append(a.C, p.literal())
			}
		}
		p.must(")")
		return Bin(map[bool]string{false: "$in", true: "$nin"}[neg], l, a)
	}
	p.fail()
	return nil
}

var mathOps5 = map[string]string{"+": "$add", "-": "$subtract", "*": "$multiply", "/": "$divide", "%": "$modulo"}

func (p *parser5) isOp() bool { return p.is("+") || p.is("-") || p.is("mul") }

func (p *parser5) math() *T {
	if p.greedy {
		l := p.atom()
		for p.isOp() {
			op := mathOps5[p.t.S]
			p.next()
			var r *T
			if p.is("id") || p.is("(") {
				r = p.math()
			} else {
				r = p.literal()
			}
			l = p.arith(op, l, r)
		}
		return l
	}
	l := p.product(p.atom())
	for p.is("+") || p.is("-") {
		op := mathOps5[p.t.S]
		p.next()
		l = p.arith(op, l, p.product(p.operand()))
	}
	return l
}

func (p *parser5) product(l *T) *T {
	for p.is("mul") {
		op := mathOps5[p.t.S]
		p.next()
		l = p.arith(op, l, p.operand())
	}
	return l
}

func (p *parser5) arith(op string, l, r *T) *T {
	if r.K == "STRING" {
		p.invalid = true
	}
	return Bin(op, l, r)
}

func (p *parser5) operand() *T {
	if p.is("id") || p.is("(") {
		return p.atom()
	}
	return p.literal()
}

func (p *parser5) atom() *T {
	t := p.t
	switch t.K {
	case "(":
		p.next()
		m := p.math()
		p.must(")")
		return m
	case "id":
		p.next()
		s := t.S
		if p.g.V == 5 {
			if s[0] == '`' || s[0] == '"' || s[0] == '[' {
				s = s[1 : len(s)-1]
			}
			return Id(s)
		}
		for k := 0; k < 2 && p.is("."); k++ {
			p.next()
			s += "." + p.t.S
			p.must("id")
		}
		return Id(s)
	}
	p.fail()
	return nil
}

func (p *parser5) literal() *T {
	sign := ""
	if p.is("+") || p.is("-") {
		sign = p.t.S
		p.next()
		if !p.is("num") {
			p.fail()
		}
	}
	t := p.t
	p.next()
	switch t.K {
	case "num":
		f, ok := Number5(sign + t.S)
		p.invalid = p.invalid || !ok
		return Num(f)
	case "str":
		return Str(strings.Replace(t.S[1:len(t.S)-1], "''", "'", -1))
	case "true":
		return Bool(asciiLower(t.S) == "true")
	case "date":
		d, err := time.Parse(time.RFC3339, t.S)
		if len(t.S) == 10 {
			d, err = time.Parse("2006-01-02", t.S)
		}
		p.invalid = p.invalid || err != nil
		return Date5(d)
	}
	p.fail()
	return nil
}

// Date5 is the leaf of an instant.
func Date5(t time.Time) *T { return Stamp(t.Format(time.RFC3339Nano)) }

// Number5 is the value of a number text.
func Number5(s string) (float64, bool) {
	m := 1.0
	s = strings.TrimSuffix(s, "i")
	if k := strings.IndexByte("KMGTP", s[len(s)-1]); k >= 0 {
		m = math.Pow(1024, float64(k+1))
		s = s[:len(s)-1]
	}
	f, err := strconv.ParseFloat(s, 64)
	return f * m, err == nil
}

var text5 = map[string]string{"$eq": "=", "$ne": "!=", "$lt": "<", "$lte": "<=", "$gt": ">", "$gte": ">=", "$regex": "~=", "$nregex": "~!", "$like": "like", "$ilike": "ilike",
	"$add": "+", "$subtract": "-", "$multiply": "*", "$divide": "/", "$modulo": "%", "$and": "and", "$or": "or", "$in": "in", "$nin": "not in", "$between": "between", "$nbetween": "not between"}

// Text writes a tree as a filter, with all parentheses.
func (g *Lang) Text(t *T) string { return g.text(t, true) }

func (g *Lang) text(t *T, top bool) string {
	wrap := func(s string) string {
		if top {
			return s
		}
		return "(" + s + ")"
	}
	switch t.K {
	case "IDENTIFIER":
		return t.S
	case "NUMBER":
		return strconv.FormatFloat(t.N, 'f', -1, 64)
	case "STRING":
		return "'" + strings.Replace(t.S, "'", "''", -1) + "'"
	case "BOOLEAN":
		return strconv.FormatBool(t.B)
	case "TIMESTAMP":
		return t.S
	case "ARRAY":
		p := make([]string, len(t.C))
		for i, c := range t.C {
			p[i] = g.text(c, true)
		}
		return "(" + strings.Join(p, ", ") + ")"
	case "UN":
		switch t.Op {
		case "$not":
			return wrap("not " + g.text(t.C[0], false))
		case "$exists":
			return wrap(g.text(t.C[0], false) + " is not null")
		}
		return wrap(g.text(t.C[0], false) + " is null")
	}
	l, op := g.text(t.C[0], false), text5[t.Op]
	if t.Op == "$between" || t.Op == "$nbetween" {
		return wrap(l + " " + op + " " + g.text(t.C[1].C[0], true) + " and " + g.text(t.C[1].C[1], true))
	}
	return wrap(l + " " + op + " " + g.text(t.C[1], false))
}
