package common

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Inst is an instant of the model, in nanoseconds of UTC as text (years differ too much for int64).
type Inst struct{ T time.Time }

// ReadDate reads a date or an RFC 3339 timestamp.
func ReadDate(s string) (time.Time, bool) {
	if len(s) < 10 || s[0] < '0' || s[0] > '9' {
		return time.Time{}, false
	}
	if t, err := time.Parse(time.RFC3339Nano, s); err == nil {
		return t.UTC(), true
	}
	if t, err := time.Parse("2006-01-02", s); err == nil {
		return t, true
	}
	return time.Time{}, false
}

type thing struct{ A, B int }

// Texts of values that can not be written otherwise.
var special = map[string]func() interface{}{
	"map":    func() interface{} { return map[string]interface{}{"x": 1} },
	"map2":   func() interface{} { return map[string]interface{}{"x": 2} },
	"ints":   func() interface{} { return []int{1, 2} },
	"strs":   func() interface{} { return []string{"s", "t"} },
	"strs0":  func() interface{} { return []string{} },
	"strs1":  func() interface{} { return []string{"1"} },
	"strst":  func() interface{} { return []string{"t", "S", "s"} },
	"bytes":  func() interface{} { return []byte("s") },
	"struct": func() interface{} { return thing{1, 2} },
	"slices": func() interface{} { return struct{ X interface{} }{[]int{1}} },
	"func":   func() interface{} { return func() {} },
	"nilptr": func() interface{} { return (*int)(nil) },
	"nilarr": func() interface{} { return []interface{}(nil) },
	"cplx":   func() interface{} { return complex(1, 2) },
	"dur":    func() interface{} { return time.Second },
	"jsonum": func() interface{} { return json.Number("12") },
	"error":  func() interface{} { return fmt.Errorf("bad") },
	"arr0":   func() interface{} { return [2]int{1, 2} },
}

// Read makes a value from its text:
//
//	nil true false f:1.5 f32:1.5 i:1 i8: i16: i32: i64: u: u8: u16: u32: u64: s:text t:2020-01-02T03:04:05Z
//	[x,y,[z]] and the names of special values.
func Read(s string) interface{} {
	v, rest := readValue(s)
	if rest != "" {
		panic("bad value text " + s)
	}
	return v
}

func readValue(s string) (interface{}, string) {
	if strings.HasPrefix(s, "[") {
		out := []interface{}{}
		s = s[1:]
		for {
			if strings.HasPrefix(s, "]") {
				return out, s[1:]
			}
			var v interface{}
			v, s = readValue(s)
			out = append(out, v)
			if strings.HasPrefix(s, ",") {
				s = s[1:]
			}
		}
	}
	end := strings.IndexAny(s, ",]")
	if end < 0 {
		end = len(s)
	}
	w, rest := s[:end], s[end:]
	switch w {
	case "nil":
		return nil, rest
	case "true":
		return true, rest
	case "false":
		return false, rest
	}
	if f, ok := special[w]; ok {
		return f(), rest
	}
	k := strings.IndexByte(w, ':')
	if k < 0 {
		panic("bad value text " + s)
	}
	kind, x := w[:k], w[k+1:]
	if kind == "s" {
		if rest != "" && rest[0] != ',' && rest[0] != ']' {
			panic("bad value text " + s)
		}
		return strings.NewReplacer("\\c", ",", "\\o", "[", "\\e", "]", "\\p", ";", "\\q", "=", "\\\\", "\\").Replace(x), rest
	}
	if kind == "t" {
		t, err := time.Parse(time.RFC3339Nano, x)
		if err != nil {
			panic(err)
		}
		return t, rest
	}
	f, err := strconv.ParseFloat(x, 64)
	i, _ := strconv.ParseInt(x, 10, 64)
	u, _ := strconv.ParseUint(x, 10, 64)
	switch kind {
	case "f":
		if err != nil {
			panic(err)
		}
		return f, rest
	case "f32":
		return float32(f), rest
	case "i":
		return int(i), rest
	case "i8":
		return int8(i), rest
	case "i16":
		return int16(i), rest
	case "i32":
		return int32(i), rest
	case "i64":
		return i, rest
	case "u":
		return uint(u), rest
	case "u8":
		return uint8(u), rest
	case "u16":
		return uint16(u), rest
	case "u32":
		return uint32(u), rest
	case "u64":
		return u, rest
	}
	panic("bad value text " + s)
}

// SText is the value text of a string.
func SText(s string) string {
	return "s:" + strings.NewReplacer("\\", "\\\\", ",", "\\c", "[", "\\o", "]", "\\e", ";", "\\p", "=", "\\q").Replace(s)
}

// ReadRecord makes a record from "name=value;name=value".
func ReadRecord(s string) map[string]interface{} {
	r := map[string]interface{}{}
	if s == "" {
		return r
	}
	for _, p := range strings.Split(s, ";") {
		if p == "" {
			continue
		}
		k := strings.IndexByte(p, '=')
		r[p[:k]] = Read(p[k+1:])
	}
	return r
}

// CanonValue writes a value of Go or of the model so that equal values have equal texts.
func CanonValue(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(x)
	case float64:
		if x == 0 {
			x = 0 // one zero
			return "0"
		}
		return CanonNum(x)
	case string:
		if t, ok := ReadDate(x); ok {
			return "@" + CanonTime(t)
		}
		return "s" + strconv.Quote(x)
	case Inst:
		return "@" + CanonTime(x.T)
	case time.Time:
		return "@" + CanonTime(x)
	case []interface{}:
		p := make([]string, len(x))
		for i := range x {
			p[i] = CanonValue(x[i])
		}
		return "[" + strings.Join(p, " ") + "]"
	case func():
		return "func"
	}
	if f, ok := number(v); ok {
		return CanonValue(f)
	}
	return fmt.Sprintf("%T:%v", v, v)
}

// Snapshot writes a record exactly, with the Go types.
func Snapshot(r map[string]interface{}) string {
	var ks []string
	for k := range r {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte('=')
		snap(&b, r[k])
		b.WriteByte(';')
	}
	return b.String()
}

func snap(b *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case []interface{}:
		fmt.Fprintf(b, "%d[", cap(x))
		for _, e := range x[:cap(x)] {
			snap(b, e)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case func():
		b.WriteString("func")
	case float64:
		b.WriteString("f" + strconv.FormatUint(math.Float64bits(x), 16))
	case time.Time:
		b.WriteString(x.Format(time.RFC3339Nano))
	default:
		fmt.Fprintf(b, "%T:%v", v, v)
	}
}

func number(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case time.Duration:
		return 0, false
	}
	r := reflect.ValueOf(v)
	if !r.IsValid() || r.Type().PkgPath() != "" {
		return 0, false
	}
	switch r.Kind() {
	case reflect.Float32, reflect.Float64:
		return r.Float(), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return float64(r.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return float64(r.Uint()), true
	}
	return 0, false
}
