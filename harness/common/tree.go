package common

import (
	"math"
	"strconv"
	"strings"
	"time"
)

// T is a tree of the model.
//
// K is NUMBER, STRING, IDENTIFIER, DATE, TIMESTAMP, BOOLEAN, NULL, ARRAY, BIN or UN.
type T struct {
	K  string
	Op string
	S  string
	N  float64
	B  bool
	C  []*T
}

func Num(f float64) *T { return &T{K: "NUMBER", N: f} }
func Str(s string) *T  { return &T{K: "STRING", S: s} }
func Id(s string) *T   { return &T{K: "IDENTIFIER", S: s} }
func Bool(b bool) *T   { return &T{K: "BOOLEAN", B: b} }
func Date(s string) *T { return &T{K: "DATE", S: s} }
func Null() *T         { return &T{K: "NULL"} }
func Arr(c ...*T) *T   { return &T{K: "ARRAY", C: c} }
func Bin(op string, l, r *T) *T {
	return &T{K: "BIN", Op: op, C: []*T{l, r}}
}
func Un(op string, c *T) *T { return &T{K: "UN", Op: op, C: []*T{c}} }

// Stamp is a timestamp, S is its text in the filter.
func Stamp(s string) *T { return &T{K: "TIMESTAMP", S: s} }

// CanonTime writes an instant.
func CanonTime(t time.Time) string { return t.UTC().Format("2006-01-02T15:04:05.000000000") }

// CanonStamp is the canonical form of the value of a timestamp text.
func CanonStamp(s string) string {
	if t, err := time.Parse(time.RFC3339, s); err == nil {
		return "@" + CanonTime(t)
	}
	return strconv.Quote(s)
}

// CanonNum writes a number exactly.
func CanonNum(f float64) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func (t *T) write(b *strings.Builder) {
	switch t.K {
	case "NUMBER":
		b.WriteString(CanonNum(t.N))
	case "STRING":
		b.WriteByte('s')
		b.WriteString(strconv.Quote(t.S))
	case "IDENTIFIER":
		b.WriteByte('i')
		b.WriteString(strconv.Quote(t.S))
	case "DATE":
		b.WriteByte('d')
		b.WriteString(strconv.Quote(t.S))
	case "TIMESTAMP":
		b.WriteByte('t')
		b.WriteString(CanonStamp(t.S))
	case "BOOLEAN":
		if t.B {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case "NULL":
		b.WriteString("null")
	case "ARRAY":
		b.WriteByte('[')
		for i, c := range t.C {
			if i > 0 {
				b.WriteByte(' ')
			}
			c.write(b)
		}
		b.WriteByte(']')
	default:
		b.WriteByte('(')
		b.WriteString(t.K[:1])
		b.WriteString(t.Op)
		for _, c := range t.C {
			b.WriteByte(' ')
			c.write(b)
		}
		b.WriteByte(')')
	}
}

// String is a canonical text of the tree.
func (t *T) String() string {
	if t == nil {
		return "<nil>"
	}
	var b strings.Builder
	t.write(&b)
	return b.String()
}

// Size is the number of nodes.
func (t *T) Size() int {
	n := 1
	for _, c := range t.C {
		n += c.Size()
	}
	return n
}

// Walk calls f for every node.
func (t *T) Walk(f func(*T)) {
	f(t)
	for _, c := range t.C {
		c.Walk(f)
	}
}

// Copy is a deep copy.
func (t *T) Copy() *T {
	if t == nil {
		return nil
	}
	u := *t
	u.C = make([]*T, len(t.C))
	for i, c := range t.C {
		u.C[i] = c.Copy()
	}
	return &u
}
