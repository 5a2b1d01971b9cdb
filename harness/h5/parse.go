package main

import (
	"strconv"
	"strings"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

func init() {
	register("L01", genL01, checkTree)
	register("L02", genL02, checkLiterals)
}

// checkTree: what the model accepts is accepted, with the tree of the model, and nothing else is.
func checkTree(c *Ctx, cs Case) *Failure {
	s := expand(cs)
	steps := Steps5
	want, ok := lang.Parse(s)
	n, err := tsl.ParseTSL(s)
	c.Trace()
	c.Trans(1 + Steps5 - steps)
	if !ok {
		c.Outcome("rejected")
		if err == nil {
			f := failf("v%d accepts what is not in the language\ninput: %s\ntree: %s", version, q(s), q(fromImpl(n).String()))
			if alt, ok := lang.ParseGreedy(s); ok && alt.String() == fromImpl(n).String() {
				f.Sig = "right-nested-arithmetic"
			}
			return f
		}
		if err.Error() == "" {
			return failf("v%d: an error without text\ninput: %s", version, q(s))
		}
		return nil
	}
	w := want.String()
	c.State(w)
	if err != nil {
		f := failf("v%d rejects what is in the language\ninput: %s\nerror: %v\nwant tree: %s", version, q(s), err, q(w))
		// Nested in that way, a string is an operand of another operator, which does not take strings.
		if _, ok := lang.ParseGreedy(s); !ok {
			f.Sig = "right-nested-arithmetic"
		}
		return f
	}
	c.Outcome("root " + want.K + " " + want.Op)
	if g := fromImpl(n).String(); g != w {
		f := failf("v%d gives a wrong tree\ninput: %s\ngot:  %s\nwant: %s", version, q(s), q(g), q(w))
		if alt, ok := lang.ParseGreedy(s); ok && alt.String() == g {
			f.Sig = "right-nested-arithmetic"
		}
		return f
	}
	return nil
}

// checkLiterals is checkTree without regard to how arithmetic is nested, which is the subject of L01.
func checkLiterals(c *Ctx, cs Case) *Failure {
	f := checkTree(c, cs)
	if f != nil && f.Sig == "right-nested-arithmetic" {
		return nil
	}
	return f
}

// sequences visits every sequence of tokens of up to n tokens of which no proper prefix is already impossible.
func sequences(c *Ctx, tokens []string, n int, f func(s string)) {
	var rec func(prefix string, v *Viable, k int)
	rec = func(prefix string, v *Viable, k int) {
		for _, t := range tokens {
			if c.Stopped() {
				return
			}
			s := t
			if prefix != "" {
				s = prefix + " " + t
			}
			f(s)
			if k+1 < n {
				if w := v.Add(t); w != nil {
					rec(s, w, k+1)
				}
			}
		}
	}
	f("")
	rec("", lang.Begin(), 0)
}

var tokensAll = append(pick("true 2020-01-02 2020-01-02T03:04:05Z [q] 1Ki", "a 1 's' ( ) , = != <> < <= > >= ~= ~! * / % + - not and or like ilike between in is null"), pick("", ". \"q\" ! :")...)

var tokenClasses = pick("true", "a 1 's' ( ) , = ~= * + - not and or like between in is null")

var tokenCore = pick("", "a 1 ( ) = - * not and or")

func genL01(c *Ctx) {
	d := c.D(1, 2)
	c.Stage("token sequences, all tokens, length <= " + strconv.Itoa(4+d))
	sequences(c, tokensAll, 4+d, func(s string) { c.Emit("text", s) })
	c.Stage("token sequences, one token per class, length <= " + strconv.Itoa(5+d))
	sequences(c, tokenClasses, 5+d, func(s string) { c.Emit("text", s) })
	c.Stage("token sequences that are wrong, with more text after the error")
	sequences(c, tokenClasses, 4, func(s string) {
		if _, ok := lang.Parse(s); !ok {
			for _, tail := range []string{" = 1", " a", ")", " 'x", " and a = 1", " ;", " not like 's' )", " (", " in ( 1 , 's' )"} {
				c.Emit("text", s+tail)
			}
		}
	})
	c.Stage("conditions joined in every way with up to 3 operators, with and without parentheses")
	genConditions(c)
	c.Stage("repetitions of one construct")
	genPumps(c)
	c.Stage("arithmetic with up to 3 operators, with and without parentheses")
	genMath(c)
	c.Stage("token sequences, one token of each kind, length <= " + strconv.Itoa(7+d))
	sequences(c, tokenCore, 7+d, func(s string) { c.Emit("text", s) })
}

// joins visits every expression of leaves with up to n binary operators, prefixes and parentheses.
func joins(leaves, ops, prefixes []string, n int, paren bool, f func(s string)) {
	by := make([][]string, n+1)
	for k := 0; k <= n; k++ {
		var out []string
		if k == 0 {
			out = append(out, leaves...)
		}
		for i := 0; i < k; i++ {
			for _, l := range by[i] {
				for _, op := range ops {
					for _, r := range by[k-1-i] {
						out = append(out, l+" "+op+" "+r)
					}
				}
			}
		}
		for _, s := range out[:len(out):len(out)] {
			for _, p := range prefixes {
				out = append(out, p+" "+s)
				if k > 0 && paren {
					out = append(out, p+" ( "+s+" )")
				}
			}
			if paren {
				out = append(out, "( "+s+" )")
			}
		}
		seen := map[string]bool{}
		for _, s := range out {
			if !seen[s] {
				seen[s] = true
				by[k] = append(by[k], s)
				f(s)
			}
		}
	}
}

func genConditions(c *Ctx) {
	emit := func(s string) { c.Emit("text", s) }
	joins([]string{"a = 1", "b is null"}, []string{"and", "or"}, []string{"not"}, c.D(2, 2), true, emit)
	joins([]string{"a = 1"}, []string{"and", "or"}, nil, c.D(3, 4), true, emit)
	joins([]string{"a = 1", "b like 's'", "c in ( 1 , 's' )", "d between 1 and 2", "e not in ( )", "f not between 's' and 't'", "g is not null", "h not ilike 's'", "i is not 3", "j ~! 's'"}, []string{"and", "or"}, nil, 2, false, emit)
	for _, l := range pick("true false 2020-01-02 2020-02-29T23:59:59.5+01:00", "1 -1 's' .5 1e3") {
		for _, m := range pick("true 2020-01-02", "1 's'") {
			for _, f := range []string{"a in ( @ )", "a in ( @ , # )", "a in ( @ , # , @ , 7 , # )", "a not in ( # , @ )", "a between @ and #", "a not between # and @", "a = @", "a is @ and b is not #", "a like @", "a ~= @",
				"a in ( @ , # ) and b in ( # )", "a + @ = #", "a - @ - # = 1", "a in ( # ) or b = @ or c in ( @ )"} {
				emit(strings.NewReplacer("@", l, "#", m).Replace(f))
			}
		}
	}
}

func genMath(c *Ctx) {
	ops := []string{"+", "-", "*", "/", "%"}
	joins([]string{"a", "1"}, ops, nil, c.D(2, 3), true, func(s string) {
		c.Emit("text", s+" = 1")
		c.Emit("text", "a = "+s)
	})
	joins([]string{"a", "1"}, ops, nil, 3, false, func(s string) { c.Emit("text", s+" < b") })
}

// Repetitions of one construct: prefix, opening unit, middle, closing unit, suffix.
var pumps = [][]string{
	{"a in (", "1, ", "2)", "", ""}, {"", "a = 1 and ", "b = 2", "", ""}, {"", "a = 1 or ", "b = 2", "", ""}, {"", "not ", "a = 1", "", ""}, {"a = '", "x", "", "", "'"},
	{"a = '", "''", "", "", "'"}, {"a = ", "1", "", "", ""}, {"a = 0.", "3", "", "", ""}, {"a = ", "0", "1", "", ""}, {"", "a", " = 1", "", ""}, {"\"", "q ", "", "", "\" = 1"},
	{"a = 1", " ", "", "\n", " and b = 2"}, {"a + ", "1 + ", "1 = 3", "", ""}, {"", "a = 1 ) ", "", "", ""}, {"a in (", "'s', ", "'t') and b = 1", "", ""}, {"a like 'x", "%", "'", "", ""},
	{"", "a = 1 and b = 2 or ", "c = 3", "", ""}, {"a between '", "y", "' and 'z'", "", ""}, {"", "(", "a = 1", ")", ""}, {"", "(", "a", ")", " = 1"}, {"", "not (", "a = 1 or b = 2", ")", ""},
	{"", "(", "a = 1", " and b = 2)", ""}, {"", "(a = 1 or ", "b = 2", ")", ""}, {"", "(", "a", " + 1)", " = 1"}, {"", "(", "a = 1", "", ""}, {"a.", "b.", "c = 1", "", ""}, {"a = 1 and b = 2", ")", "", "", ""},
}

func genPumps(c *Ctx) {
	for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1025} {
		for _, p := range pumps {
			nests := p[1] == "("
			if nests && n > c.D(33, 65) || n > c.D(257, 1025) {
				continue
			}
			c.Emit("pump", append([]string{strconv.Itoa(n)}, p...)...)
		}
	}
}

// charSpaces: characters, length, and the texts around them.
type charSpace struct {
	name, chars string
	n           int
	contexts    []string
}

func charSpaces() []charSpace {
	out := []charSpace{
		{"numbers", "019.eE+-", 5, []string{"a = @"}},
		{"strings", "'a\\\" ", 5, []string{"a = '@'", "a in ('@', 'z')"}},
		{"names", "aZ_9./", 4, []string{"@ = 1", "b = 2 and @ is null"}},
		{"quoted names", "\"`[]a.", 5, []string{"@ = 1"}},
		{"keywords", "iIsSnN ", 4, []string{"a @ 'x'", "a @ null", "a @ (1)"}},
		{"spaces", " \t\r\n\v\fa", 3, []string{"a @ = 1", "@a = 1 and@b = 2"}},
		{"operators", "<>=!~ ", 4, []string{"a @ 's'"}},
		{"characters", "é漢😀'a", 4, []string{"a = '@'", "[@] = 1", "@ = 1"}},
	}
	if version == 5 {
		out = append(out,
			charSpace{"sizes", "1KMiPkI.e", 4, []string{"a = 1@", "a = @"}},
			charSpace{"clocks", "12:3+ ", 5, []string{"a = 1@"}})
	}
	return out
}

func genL02(c *Ctx) {
	d := c.D(1, 2)
	for _, a := range charSpaces() {
		n := a.n + d
		c.Stage(a.name + " over " + strconv.Quote(a.chars) + ", length <= " + strconv.Itoa(n))
		for _, ctx := range a.contexts {
			Strings(c, a.chars, n, func(s string) { c.Emit("text", strings.Replace(ctx, "@", s, 1)) })
		}
	}
	c.Stage("every byte and character in every context")
	for b := 0; b < 0x250; b++ {
		if b >= 0x80 && b < 0xa0 {
			continue
		}
		s := string(rune(b))
		for _, ctx := range []string{"a = '@'", "a = 'x@y'", "@ = 1", "x@ = 1", "[@] = 1", "\"@\" = 1", "`x@y` = 1", "a @ = 1", "a = 1@", "a = 1 @", "a@b = 1", "a = 's'@'t'", "a like '@%'", "a = 1 and@b = 2"} {
			c.Emit("text", strings.Replace(ctx, "@", s, 1))
		}
	}
	c.Stage("every case of every word")
	for _, w := range []string{"like", "ilike", "and", "or", "between", "in", "is", "null", "not", "true", "false"} {
		for m := 0; m < 1<<uint(len(w)); m++ {
			b := []byte(w)
			for i := range b {
				if m>>uint(i)&1 == 1 {
					b[i] -= 32
				}
			}
			x := string(b)
			for _, f := range map[string][]string{"like": {"a @ 's'", "a not @ 's'"}, "ilike": {"a @ 's'", "a not @ 's'"}, "and": {"a = 1 @ b = 2", "a between 1 @ 2"}, "or": {"a = 1 @ b = 2"}, "between": {"a @ 1 and 2", "a not @ 1 and 2"},
				"in": {"a @ (1)", "a not @ ('s', 1)"}, "is": {"a @ null", "a @ not null", "a @ 1"}, "null": {"a is @", "a is not @"}, "not": {"a is @ null", "a @ in (1)", "@ a = 1"}, "true": {"a = @", "a in (@)", "@ = 1"}, "false": {"a = @", "a in (@, true)", "@ = 1"}}[w] {
				c.Emit("text", strings.Replace(f, "@", x, 1))
				c.Emit("text", strings.Replace(f, "@", x+"x", 1))
			}
		}
	}
	c.Stage("numbers")
	for _, m := range []string{"0", "1", "9", "10", "255", "1024", "4294967296", "9007199254740993", "18446744073709551616", "123456789012345678901234567890", "0.1", "1.5", "3.14159265358979", "00012", "1.", ".5", "0.000001", ".1234567890123456789"} {
		for _, e := range []string{"", "e0", "e1", "E2", "e+3", "e-3", "e15", "e22", "e23", "e-7", "e300", "e308", "e309", "e-308", "e-324", "e-400", "e400", "K", "M", "G", "T", "P", "Ki", "Mi", "Gi", "Ti", "Pi", "k", "ki", "KI", "E", "e", "Kii", "KK", " K"} {
			for _, s := range []string{"", "-", "+", "- ", "+ ", "--"} {
				c.Emit("text", "a = "+s+m+e)
				c.Emit("text", "a in ("+s+m+e+", 's')")
			}
		}
	}
	if version == 5 {
		c.Stage("dates")
		for _, y := range []string{"0000", "0001", "1900", "1999", "2000", "2020", "2023", "9999"} {
			for mo := 0; mo <= 13; mo++ {
				for day := 0; day <= 32; day++ {
					if day > 2 && day < 28 {
						continue
					}
					dt := y + "-" + two(mo) + "-" + two(day)
					c.Emit("text", "a = "+dt)
					c.Emit("text", "a = "+dt+"T10:20:30Z")
				}
			}
		}
		for _, h := range []string{"00", "01", "12", "23", "24"} {
			for _, mi := range []string{"00", "30", "59", "60"} {
				for _, se := range []string{"00", "59", "60", "30.5", "30.123456789", "30.000000001", "30.1234567891", "30."} {
					for _, z := range []string{"Z", "+00:00", "-00:00", "+05:30", "-23:59", "+24:00", "", "z", "+0530", " Z"} {
						c.Emit("text", "a = 2020-02-28T"+h+":"+mi+":"+se+z)
					}
				}
			}
		}
		base := "a = 2020-02-28T10:20:30.5+01:00"
		for i := 4; i < len(base); i++ {
			for _, r := range "09-:T.+Z x'" {
				c.Emit("text", base[:i]+string(r)+base[i+1:])
				c.Emit("text", base[:i]+string(r)+base[i:])
			}
			c.Emit("text", base[:i]+base[i+1:])
			c.Emit("text", base[:i])
		}
		for _, f := range []string{"a in (@, #)", "a between @ and #", "a < @ and b > #", "a - @ = #", "@ = a", "a=@", "a is not @", "a>=@and b=1"} {
			for _, x := range []string{"2020-01-02", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.000000007-11:00"} {
				for _, y := range []string{"2021-12-31", "1970-01-01T00:00:00+14:00"} {
					c.Emit("text", strings.NewReplacer("@", x, "#", y).Replace(f))
				}
			}
		}
	}
	c.Stage("long texts")
	for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537} {
		s := strings.Repeat("abcdefghi ", n/10+1)[:n]
		w := strings.Replace(s, " ", "_", -1)
		for _, f := range []string{"a = '@'", "a like '@%'", "[@] = 1", "a = 1 and \"@\" in ('@', '@')"} {
			c.Emit("text", strings.Replace(f, "@", s, -1))
		}
		c.Emit("text", w+" = 1")
		c.Emit("text", "a = '"+strings.Repeat("é", n)+"'")
		if n < 5000 {
			c.Emit("text", "a = "+strings.Repeat("7", n%300+1)+"."+strings.Repeat("3", n))
		}
	}
}

func two(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }
