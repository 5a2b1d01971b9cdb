package common

import (
	"strconv"
	"strings"
)

// Tokens6 has every token of the v6 language (operators, keywords, one literal of each kind).
var Tokens6 = []string{"a", "1", "'s'", "not", "and", "or", "=", "in", "[", "]", "(", ")", ",", "+", "-", "*", "between", "is", "null",
	"like", "any", "!=", "<>", "<", "<=", ">", ">=", "~=", "~!", "ilike", "/", "%", "len", "all", "sum", "true", "false",
	"2020-01-02", "2020-01-02T03:04:05Z"}

// TokenClasses6 has one token for each class of tokens that the grammar treats alike.
var TokenClasses6 = []string{"a", "not", "and", "or", "=", "in", "between", "is", "null", "like", "[", "]", "(", ")", ",", "+", "-", "*", "len"}

// TokenCore6 is the core of the expression grammar.
var TokenCore6 = []string{"a", "not", "and", "or", "<", "-", "*", "(", ")", "sum", "between"}

// Sequences6 visits every viable sequence of tokens of up to n tokens, and each of its extensions by
// one token that makes it unacceptable: what follows the offending token cannot matter to a parser
// that stops there, and is explored separately. ok tells if the sequence is a sentence.
func Sequences6(c *Ctx, tokens []string, n int, f func(s string, ok bool)) {
	type cand struct {
		s      string
		viable bool
		ok     bool
	}
	var rec func(prefix string, k int)
	rec = func(prefix string, k int) {
		for _, t := range tokens {
			if c.Stopped() {
				return
			}
			s := t
			if prefix != "" {
				s = prefix + " " + t
			}
			_, at, ok := Parse6(s)
			f(s, ok)
			if k+1 < n && (ok || at.K == "") {
				rec(s, k+1)
			}
		}
	}
	f("", false)
	// Iterative deepening would repeat the short ones; depth first from each first token is enough,
	// the short sequences of a branch come before the longer ones.
	rec("", 0)
}

// Strings visits every string over chars of up to n characters.
func Strings(c *Ctx, chars string, n int, f func(s string)) {
	cs := strings.Split(chars, "")
	f("")
	for k := 1; k <= n; k++ {
		var rec func(p string, left int)
		rec = func(p string, left int) {
			if c.Stopped() {
				return
			}
			if left == 0 {
				f(p)
				return
			}
			for _, x := range cs {
				rec(p+x, left-1)
			}
		}
		rec("", k)
	}
}

// CharSpace is an alphabet of characters that belong to the same rules of the scanner.
type CharSpace struct {
	Name, Chars string
	Len         int
	Contexts    []string
}

var CharSpaces6 = []CharSpace{
	{"number", "01.eE+-kiK", 5, []string{"@", "a=@"}},
	{"suffix", "2.KMGTPkmgtpi", 4, []string{"@"}},
	{"string", "'\"\\na` \n", 5, []string{"@", "'@'", "\"@\"", "`@`"}},
	{"escape", "\\ntrbfx0'\"`", 4, []string{"'@'", "\"@\"", "`@`"}},
	{"name", "a_./[]*1-N", 5, []string{"a@", "@"}},
	{"word", "inotIsNaTrue ", 4, []string{"@", "a @ b"}},
	{"operator", "<>=!~()%,*/+-a", 4, []string{"a@a", "@"}},
	{"layout", "a1'= \t\r\n\f\v", 4, []string{"@", "a@=@1"}},
	{"array", "[],a1 (", 6, []string{"@", "a in @"}},
}

// Pump repeats one construct. parts: prefix, opening unit, middle, closing unit, suffix.
func Pump(parts []string, n int) string {
	return parts[0] + strings.Repeat(parts[1], n) + parts[2] + strings.Repeat(parts[3], n) + parts[4]
}

var pumps6 = [][]string{
	{"", "(", "a", ")", ""},
	{"", "(", "a", ")", " = 1"},
	{"", "[", "", "]", ""},
	{"", "[", "1", "]", ""},
	{"[", "1, ", "2", "", "]"},
	{"a in [", "'x', ", "'y'", "", "]"},
	{"[", "a = 1 and b, ", "2", "", ",]"},
	{"", "a and ", "b", "", ""},
	{"", "a or ", "b", "", ""},
	{"", "a = 1 and b = 2 or ", "c", "", ""},
	{"", "a + ", "b", "", ""},
	{"", "a * b - ", "c", "", ""},
	{"", "a = ", "b", "", ""},
	{"", "not ", "a", "", ""},
	{"", "- ", "a", "", ""},
	{"", "+ ", "a", "", ""},
	{"", "len ", "a", "", ""},
	{"", "any not ", "a", "", ""},
	{"", "a between 1 and ", "2", "", ""},
	{"a", " between 1 and 2", "", "", ""},
	{"a", " is not null", "", "", ""},
	{"a", " not in [1]", "", "", ""},
	{"a", " like 'x'", "", "", ""},
	{"", "a in [", "1", "]", ""},
	{"", "a + (", "1", ")", ""},
	{"", "not (a and ", "b", ")", ""},
	{"a = ", "(b or ", "c", ")", ""},
	{"", " ", "a", "\t", "= 1"},
	{"", "\n", "a", " \r\n", "= 1"},
	{"'", "x", "", "", "' = a"},
	{"'", "\\n", "", "", "'"},
	{"\"", "\\\"", "", "", "\""},
	{"`", "'", "", "", "`"},
	{"a", ".b", "", "", " = 1"},
	{"a", "[0]", "", "", " = 1"},
	{"a", "[*].b", "", "", " = 1"},
	{"a", "[n-1]", "/", "x", " = 1"},
	{"a = 1", "0", "", "", ""},
	{"a = 0.", "0", "1", "", ""},
	{"a = 0", "0", "7", "", "Ki"},
	{"a = 2020-01-02T03:04:05.", "0", "1", "", "Z"},
}

// GenPumps6 emits the repetitions of one construct.
func GenPumps6(c *Ctx) {
	max := 130
	big := []int{199, 200, 201, 255, 256, 257, 400, 511, 512, 513, 1000, 1024, 1900}
	if c.Thorough {
		max = 600
		big = append(big, 1023, 1025, 1800, 1999)
	}
	for n := 0; n <= max; n++ {
		for _, p := range pumps6 {
			c.Emit("pump", append([]string{strconv.Itoa(n)}, p...)...)
		}
	}
	for _, n := range big {
		if n <= max {
			continue
		}
		for _, p := range pumps6 {
			c.Emit("pump", append([]string{strconv.Itoa(n)}, p...)...)
		}
	}
}

// Space is a set of trees: those with up to N operators.
type Space struct {
	N       int
	Leaves  []*T
	Bin, Un []string
	// Is adds null tests, Between ranges, Array arrays of 0 to 2 elements.
	Is, Between, Array bool
}

// AllBin6 and AllUn6 are the operators of v6.
var AllBin6 = []string{"OR", "AND", "EQ", "NE", "LT", "LE", "GT", "GE", "REQ", "RNE", "LIKE", "ILIKE", "IN", "ADD", "SUB", "MUL", "DIV", "MOD"}
var AllUn6 = []string{"NOT", "NEG", "LEN", "ANY", "ALL", "SUM"}

// EnumTrees visits every tree of the space, the small ones first.
func EnumTrees(c *Ctx, sp Space, f func(*T)) {
	by := make([][]*T, sp.N+1)
	by[0] = append(by[0], sp.Leaves...)
	if sp.Array {
		by[0] = append(by[0], Arr())
	}
	for k := 0; k <= sp.N; k++ {
		// The last level is visited and not kept.
		add := func(t *T) {
			if k < sp.N {
				by[k] = append(by[k], t)
			}
			if !c.Stopped() {
				f(t)
			}
		}
		if k == 0 {
			for _, t := range by[0] {
				f(t)
			}
			continue
		}
		for _, t := range by[k-1] {
			for _, op := range sp.Un {
				add(Un(op, t))
			}
			if sp.Is {
				add(Bin("IS", t, Null()))
			}
			if sp.Array {
				add(Arr(t))
			}
		}
		for i := 0; i < k && !c.Stopped(); i++ {
			for _, l := range by[i] {
				for _, r := range by[k-1-i] {
					for _, op := range sp.Bin {
						add(Bin(op, l, r))
					}
					if sp.Array {
						add(Arr(l, r))
					}
				}
				if c.Stopped() {
					return
				}
			}
		}
		if !sp.Between {
			continue
		}
		for i := 0; i < k; i++ {
			for j := 0; i+j < k; j++ {
				for _, x := range by[i] {
					for _, y := range by[j] {
						for _, z := range by[k-1-i-j] {
							add(Bin("BETWEEN", x, Arr(y, z)))
						}
					}
					if c.Stopped() {
						return
					}
				}
			}
		}
	}
}

// Variant6 writes a tree in different ways that denote the same tree.
func Variant6(t *T, v int) string {
	switch v {
	case 0:
		return Text6(t, false)
	case 1:
		return Text6(t, true)
	case 2:
		// Other white space, and redundant parentheses around everything.
		return "\t( " + strings.Replace(Text6(t, false), " ", "\r\n ", -1) + ")\n"
	}
	// Keywords in upper and mixed case (names and strings are lower case single letters).
	s := Text6(t, false)
	var b strings.Builder
	for i, w := range strings.Split(s, " ") {
		if i > 0 {
			b.WriteString("  ")
		}
		if _, ok := keywords6[strings.Trim(w, "()[],")]; ok {
			if i%2 == 0 {
				w = strings.ToUpper(w)
			} else {
				w = strings.ToUpper(w[:1]) + w[1:]
			}
		}
		b.WriteString(w)
	}
	return b.String()
}

// GenBytes6 puts every byte in every context.
func GenBytes6(c *Ctx) {
	ctxs := []string{"@", "a@", "@a", "a @ b", "a = @1", "a = '@'", "a = \"x@y\"", "'\\@'", "a[@]", "a.@b", "1@", "[1@2]", "2020-01-0@", "a = 1 @", "a = 1@@", "@@", "'@", "a @"}
	for i := 0; i < 256; i++ {
		for _, x := range ctxs {
			c.Emit("text", strings.Replace(x, "@", string([]byte{byte(i)}), -1))
		}
	}
	// Every pair of bytes.
	step := 1
	for i := 0; i < 256; i++ {
		for j := 0; j < 256; j += step {
			c.Emit("text", "a = '"+string([]byte{byte(i), byte(j)})+"'")
			c.Emit("text", "a "+string([]byte{byte(i), byte(j)})+" b")
		}
	}
	// Unicode text is kept as it is.
	for _, u := range []string{"é", "日本", "\u00a0", "\ufeff", "😀", "\u2028", "ß", "İ"} {
		for _, x := range []string{"'@'", "a = '@@'", "@ = 1", "a = @", "'\\@'", "a@ = 1"} {
			c.Emit("text", strings.Replace(x, "@", u, -1))
		}
	}
}

// GenDates6 changes characters of dates and timestamps.
func GenDates6(c *Ctx) {
	base := []string{"2020-01-02", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.678Z", "2020-01-02T03:04:05+06:07", "2020-01-02T03:04:05.6-07:08"}
	repl := []string{"", "0", "9", "-", "T", "t", "Z", "z", ":", ".", "+", " ", "x", "00", "'"}
	ctxs := []string{"@", "a = '@'", "a = \"@\"", "[@, @]"}
	for _, b := range base {
		for _, x := range ctxs {
			c.Emit("text", strings.Replace(x, "@", b, -1))
			for i := 0; i <= len(b); i++ {
				for _, r := range repl {
					t := b[:i] + r
					rest := ""
					if i < len(b) {
						rest = b[i+1:]
					}
					c.Emit("text", strings.Replace(x, "@", t+rest, -1))
					if i < len(b) {
						c.Emit("text", strings.Replace(x, "@", t+b[i:], -1))
					}
				}
			}
		}
		// Two changes.
		for i := 0; i < len(b); i++ {
			for j := i + 1; j < len(b); j++ {
				for _, r := range []string{"", "9", "-", ":", "T"} {
					for _, u := range []string{"", "7", "-", "Z", "."} {
						s := b[:i] + r + b[i+1:j] + u + b[j+1:]
						c.Emit("text", s)
						c.Emit("text", "a = '"+s+"'")
					}
				}
			}
		}
	}
	// Every month, day, hour, minute and second number.
	for i := 0; i < 100; i++ {
		n := strconv.Itoa(100 + i)[1:]
		for _, s := range []string{"2020-" + n + "-01", "2020-02-" + n, "2021-02-" + n, n + n + "-01-01", "2020-01-01T" + n + ":00:00Z",
			"2020-01-01T00:" + n + ":00Z", "2020-01-01T00:00:" + n + "Z", "2020-01-01T00:00:00+" + n + ":00", "2020-01-01T00:00:00-00:" + n,
			"2020-01-01T00:00:00." + n + "Z", "2020-12-31T23:59:59.9" + n + "99" + n + "+" + n + ":30"} {
			c.Emit("text", "a = "+s)
			c.Emit("text", "a = '"+s+"'")
		}
	}
}

// GenNumbers6 emits numbers of every shape.
func GenNumbers6(c *Ctx) {
	mant := []string{"0", "1", "7", "10", "999", "1024", "007", "123456789", "9007199254740991", "9007199254740993", "18446744073709551615",
		"9223372036854775807", "9223372036854775808", "2147483647", "2147483648", "4294967296", "0.1", "1.", "0.5", "3.14159265358979", "1.7976931348623157", "0.30000000000000004",
		"123456.789", "2.2250738585072014", "4.9", "1.0000000000000002", "0.000001", "33333333333333333333333333333333", "1.15", "2.675"}
	suf := []string{"", "k", "K", "m", "M", "g", "G", "t", "T", "p", "P", "ki", "Ki", "kI", "KI", "mi", "Mi", "MI", "gi", "Gi", "GI", "ti", "Ti", "TI", "tI", "pi", "Pi", "PI", "Kii", "KK", "E", "e",
		"e0", "e1", "E+2", "e-3", "e15", "e22", "e23", "e-5", "e+10", "e100", "e-100", "e300", "e-300", "e-308", "e-324", "e00005", "e5K", "e5Ki"}
	for _, m := range mant {
		for _, s := range suf {
			for _, sg := range []string{"", "+", "-"} {
				c.Emit("text", sg+m+s)
				c.Emit("text", "a = "+sg+m+s)
				c.Emit("text", "a ="+sg+m+s+" and b")
				c.Emit("text", "["+sg+m+s+","+sg+m+s+"]")
			}
		}
	}
	for i := -2000; i <= 2000; i++ {
		c.Emit("text", "a = "+strconv.Itoa(i))
		c.Emit("text", "a = "+strconv.Itoa(i)+".25Ki")
		c.Emit("text", "a = "+strconv.FormatFloat(float64(i)/1000, 'f', -1, 64))
	}
	for e := -320; e <= 308; e++ {
		c.Emit("text", "a = 1.2345678901234567e"+strconv.Itoa(e))
	}
}

// GenLong6 emits long literals and names around the sizes where buffers are usually limited.
func GenLong6(c *Ctx) {
	var sizes []int
	for n := 1; n <= 80; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range []int{100, 127, 128, 129, 250, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16382, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 65535, 65536, 65537, 100000} {
		sizes = append(sizes, n)
	}
	for _, n := range sizes {
		sn := strconv.Itoa(n)
		c.Emit("pump", sn, "a = '", "x", "'", "", "")
		c.Emit("pump", sn, "a = '", "x", "y' and b = 'z'", "", "")
		c.Emit("pump", sn, "a = '", "\\'", "'", "", "")
		c.Emit("pump", sn, "", "a", " = 1", "", "")
		c.Emit("pump", sn, "a", ".b1", " = 1", "", "")
		c.Emit("pump", sn, "a", "[k]", " = 1", "", "")
		c.Emit("pump", sn, "a = ", "9", "", "", "")
		c.Emit("pump", sn, "a = 0.", "3", "", "", "")
		c.Emit("pump", sn, "a = 1", "0", "Ki", "", "")
		c.Emit("pump", sn, "a = 2020-01-02T03:04:05.", "1", "Z", "", "")
		c.Emit("pump", sn, "", " ", "a", "\n", " = 1")
		c.Emit("pump", sn, "a = '", "é", "'", "", "")
	}
}

// GenWide6 emits lists around the sizes where counters and arrays are usually limited. The time of a parse
// grows with the square of the length.
func GenWide6(c *Ctx) {
	sizes := []int{2046, 2047, 2048, 4095}
	if c.Thorough {
		sizes = append(sizes, 4096, 5000, 8192, 10000)
	}
	for _, n := range sizes {
		sn := strconv.Itoa(n)
		c.Emit("pump", sn, "a in [0", ", 1", "]", "", "")
		c.Emit("pump", sn, "[", "'x', ", "'y'] = b", "", "")
		c.Emit("pump", sn, "a not in [[]", ", []", "]", "", "")
	}
}

// GenLongErrors6 emits errors after correct text of many lengths.
func GenLongErrors6(c *Ctx) {
	for n := 0; n <= 600; n++ {
		sn := strconv.Itoa(n)
		for _, tail := range []string{" ;", " = =", " 'x", ")", "", "\x01", "  ", " b c", " and", "\x00"} {
			c.Emit("pump", sn, "a", "b", tail, "", "")
			c.Emit("pump", sn, "", "a = 'xx' and ", "b = 2"+tail, "", "")
			c.Emit("pump", sn, "", "(", "a"+tail, "", "")
			c.Emit("pump", sn, "'", "x", "' = 1"+tail, "", "")
			c.Emit("pump", sn, "", "a =\n1 and ", "b = 'x\ny'\n"+tail, "", "")
			c.Emit("pump", sn, "a = 'q' and b = 1", "\n", tail, "", "")
		}
	}
	for _, n := range []int{1000, 5000, 10000, 20000, 50000} {
		sn := strconv.Itoa(n)
		for _, tail := range []string{" ;", " = =", " 'x", ")", "", "\x01", "  "} {
			c.Emit("pump", sn, "a", "b", tail, "", "")
			c.Emit("pump", sn, "'", "x", "' = 1"+tail, "", "")
		}
	}
}

// Rich6 has a subtree of each form.
func Rich6() []*T {
	a := Id("a")
	return []*T{a, Id("b.c[0]/d"), Num(0), Num(1), Num(1.5), Num(1e300), Str(""), Str("s"), Str("it's \"%\""), Str("2020-01-02"), Bool(true), Bool(false), Date("2020-01-02"), Stamp("2020-01-02T03:04:05.5Z"),
		Arr(), Arr(Num(1)), Arr(Arr()), Arr(Str("s"), a), Arr(Num(1), Num(2), Num(3)), Un("NOT", a), Un("NEG", a), Un("NEG", Num(1)), Un("LEN", a), Un("SUM", Arr(Num(1))), Un("ANY", Un("ALL", a)),
		Bin("AND", a, Id("b")), Bin("OR", a, Id("b")), Bin("EQ", a, Num(1)), Bin("ADD", a, Num(1)), Bin("SUB", Num(2), a), Bin("IN", a, Arr(Num(1))), Bin("IN", a, Arr()), Bin("BETWEEN", a, Arr(Num(1), Num(2))), Bin("IS", a, Null()), Bin("LIKE", a, Str("s%"))}
}

// GenRich6 visits every operator on subtrees of every form, arrays of up to 3 of them, and arrays of 4 and
// 5 subtrees of a few forms. n is how many of the forms stand in the places of ranges and of arrays of 3.
func GenRich6(c *Ctx, n int, f func(t *T)) {
	r := Rich6()
	for _, x := range r {
		f(x)
		f(Arr(x))
		f(Bin("IS", x, Null()))
		for _, op := range AllUn6 {
			f(Un(op, x))
		}
		for _, y := range r {
			if c.Stopped() {
				return
			}
			for _, op := range AllBin6 {
				f(Bin(op, x, y))
			}
			f(Un("NOT", Bin("IN", x, y)))
			f(Arr(x, y))
			f(Arr(Arr(x), Arr(y)))
			f(Bin("IN", Id("a"), Arr(x, y)))
		}
	}
	// Every n-th form of the same distance.
	var few []*T
	for i := 0; i < n; i++ {
		few = append(few, r[i*len(r)/n])
	}
	for _, x := range few {
		for _, y := range few {
			for _, z := range few {
				if c.Stopped() {
					return
				}
				f(Bin("BETWEEN", x, Arr(y, z)))
				f(Arr(x, y, z))
				f(Bin("IN", Id("a"), Arr(x, y, z)))
			}
		}
	}
	e := []*T{Id("a"), Num(1), Str("s"), Arr(), Arr(Num(1)), Un("NEG", Id("a")), Bin("EQ", Id("a"), Num(1))}
	var rec func(l []*T)
	rec = func(l []*T) {
		if len(l) >= 3 {
			f(Arr(l...))
			f(Bin("IN", Id("a"), Arr(l...)))
		}
		if len(l) < 5 && !c.Stopped() {
			for i, x := range e {
				if len(l) < 4 || i < 4 {
					rec(append(l[:len(l):len(l)], x))
				}
			}
		}
	}
	rec(nil)
}
