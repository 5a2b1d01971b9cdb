package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"

	. "tslverif/common"

	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

func init() { register("L05", genMongo, checkMongo) }

// hasMongo tells if a filter has a query, and if it must have one: lists of other values than numbers and
// strings may be refused.
func hasMongo(t *T) (can, must bool) {
	can, must = true, true
	var rec func(t *T)
	rec = func(t *T) {
		switch t.Op {
		case "$and", "$or":
			rec(t.C[0])
			rec(t.C[1])
			return
		case "$not", "$like", "$ilike":
			can = false
			return
		}
		can = can && t.C[0].K == "IDENTIFIER"
		if len(t.C) == 1 {
			return
		}
		r := t.C[1]
		can = can && r.K != "IDENTIFIER" && r.K != "BIN"
		for _, x := range r.C {
			must = must && (x.K == "NUMBER" || x.K == "STRING")
		}
	}
	rec(t)
	return can, can && must
}

// mongoWant is the query of a filter: ranges are two comparisons.
func mongoWant(t *T) *T {
	switch t.Op {
	case "$and", "$or":
		return Bin(t.Op, mongoWant(t.C[0]), mongoWant(t.C[1]))
	case "$between":
		return Bin("$and", Bin("$gte", t.C[0], t.C[1].C[0]), Bin("$lte", t.C[0], t.C[1].C[1]))
	case "$nbetween":
		return Bin("$or", Bin("$lt", t.C[0], t.C[1].C[0]), Bin("$gt", t.C[0], t.C[1].C[1]))
	}
	return t
}

func mongoValue(v interface{}) *T {
	switch x := v.(type) {
	case string:
		return Str(x)
	case float64:
		return Num(x)
	case bool:
		return Bool(x)
	case time.Time:
		return Date5(x)
	case primitive.DateTime:
		return Date5(x.Time())
	case bson.A:
		return mongoValue([]interface{}(x))
	case []interface{}:
		if x == nil {
			return &T{K: "NOARRAY"}
		}
		a := Arr()
		for _, e := range x {
			a.C = append(a.C, mongoValue(e))
		}
		return a
	}
	return &T{K: fmt.Sprintf("VALUE-%T", v)}
}

func both(op string, l []*T) *T {
	if len(l) == 0 {
		return &T{K: "EMPTY"}
	}
	t := l[0]
	for _, x := range l[1:] {
		t = Bin(op, t, x)
	}
	return t
}

// readMongo reads a query back.
func readMongo(d bson.D) (*T, error) {
	var all []*T
	for _, e := range d {
		switch {
		case e.Key == "$and" || e.Key == "$or":
			var parts []*T
			list, ok := e.Value.(bson.A)
			if l, is := e.Value.([]interface{}); is {
				list, ok = l, true
			}
			if l, is := e.Value.([]bson.D); is {
				ok = true
				for _, x := range l {
					list = append(list, x)
				}
			}
			if !ok || len(list) == 0 {
				return nil, fmt.Errorf("%s of a %T", e.Key, e.Value)
			}
			for _, x := range list {
				q, ok := x.(bson.D)
				if !ok {
					return nil, fmt.Errorf("%s of a %T", e.Key, x)
				}
				t, err := readMongo(q)
				if err != nil {
					return nil, err
				}
				parts = append(parts, t)
			}
			all = append(all, both(e.Key, parts))
		case strings.HasPrefix(e.Key, "$"):
			return nil, fmt.Errorf("the operator %s", e.Key)
		default:
			t, err := readField(Id(e.Key), e.Value)
			if err != nil {
				return nil, err
			}
			all = append(all, t)
		}
	}
	return both("$and", all), nil
}

func readField(id *T, v interface{}) (*T, error) {
	ops, ok := v.(bson.D)
	if !ok {
		if r, is := v.(primitive.Regex); is {
			if r.Options != "" {
				return nil, fmt.Errorf("options %q", r.Options)
			}
			return Bin("$regex", id, Str(r.Pattern)), nil
		}
		return Bin("$eq", id, mongoValue(v)), nil
	}
	var all []*T
	for _, o := range ops {
		switch o.Key {
		case "$eq", "$ne", "$lt", "$lte", "$gt", "$gte", "$in", "$nin":
			all = append(all, Bin(o.Key, id, mongoValue(o.Value)))
		case "$exists":
			b, ok := o.Value.(bool)
			if !ok {
				return nil, fmt.Errorf("$exists of a %T", o.Value)
			}
			all = append(all, Un(map[bool]string{true: "$exists", false: "$nexists"}[b], id))
		case "$regex":
			s, ok := o.Value.(string)
			if !ok {
				return nil, fmt.Errorf("$regex of a %T", o.Value)
			}
			all = append(all, Bin("$regex", id, Str(s)))
		case "$not":
			r, ok := o.Value.(primitive.Regex)
			if !ok || r.Options != "" {
				return nil, fmt.Errorf("$not of a %T", o.Value)
			}
			all = append(all, Bin("$nregex", id, Str(r.Pattern)))
		default:
			return nil, fmt.Errorf("the operator %s", o.Key)
		}
	}
	return both("$and", all), nil
}

// flat makes chains of one operator equal, whatever the order of what is joined.
func flat(t *T) *T {
	u := *t
	u.C = nil
	for _, c := range t.C {
		c = flat(c)
		if (u.Op == "$and" || u.Op == "$or") && c.Op == u.Op {
			u.C = append(u.C, c.C...)
		} else {
			u.C = append(u.C, c)
		}
	}
	if u.Op == "$and" || u.Op == "$or" {
		sort.SliceStable(u.C, func(i, j int) bool { return u.C[i].String() < u.C[j].String() })
	}
	return &u
}

// plainQuery writes a query with ordered documents and plain lists only.
func plainQuery(v interface{}) interface{} {
	switch x := v.(type) {
	case bson.D:
		d := bson.D{}
		for _, e := range x {
			d = append(d, bson.E{Key: e.Key, Value: plainQuery(e.Value)})
		}
		return d
	case bson.M:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		d := bson.D{}
		for _, k := range keys {
			d = append(d, bson.E{Key: k, Value: plainQuery(x[k])})
		}
		return d
	case bson.A:
		if x == nil {
			return x
		}
		l := bson.A{}
		for _, e := range x {
			l = append(l, plainQuery(e))
		}
		return l
	case []bson.D:
		l := bson.A{}
		for _, e := range x {
			l = append(l, plainQuery(e))
		}
		return l
	case []bson.M:
		l := bson.A{}
		for _, e := range x {
			l = append(l, plainQuery(e))
		}
		return l
	}
	return v
}

type doc map[string]interface{}

// kind is the place of a value in the order of types of MongoDB.
func cmpValues(a, b interface{}) (int, bool) {
	switch x := a.(type) {
	case float64:
		if y, ok := b.(float64); ok {
			return map[bool]int{true: -1}[x < y] + map[bool]int{true: 1}[x > y], true
		}
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y), true
		}
	case bool:
		if y, ok := b.(bool); ok {
			n := map[bool]int{true: 1}
			return n[x] - n[y], true
		}
	case time.Time:
		if y, ok := b.(time.Time); ok {
			return map[bool]int{true: -1}[x.Before(y)] + map[bool]int{true: 1}[x.After(y)], true
		}
	}
	return 0, false
}

// find evaluates a query as MongoDB does.
func find(q bson.D, d doc) bool {
	for _, e := range q {
		switch e.Key {
		case "$and", "$or":
			any, all := false, true
			for _, x := range e.Value.(bson.A) {
				v := find(x.(bson.D), d)
				any, all = any || v, all && v
			}
			if e.Key == "$and" && !all || e.Key == "$or" && !any {
				return false
			}
		default:
			if !matches(e.Value, e.Key, d) {
				return false
			}
		}
	}
	return true
}

func matches(cond interface{}, key string, d doc) bool {
	v, ok := d[key]
	if r, is := cond.(primitive.Regex); is {
		s, is := v.(string)
		return is && regexp.MustCompile(r.Pattern).MatchString(s)
	}
	ops, is := cond.(bson.D)
	if !is {
		c, same := cmpValues(v, cond)
		return ok && same && c == 0
	}
	for _, o := range ops {
		c, same := cmpValues(v, o.Value)
		in := false
		list, _ := o.Value.([]interface{})
		if l, is := o.Value.(bson.A); is {
			list = l
		}
		if o.Key == "$in" || o.Key == "$nin" {
			for _, x := range list {
				n, same := cmpValues(v, x)
				in = in || same && n == 0
			}
		}
		hit := false
		switch o.Key {
		case "$eq":
			hit = same && c == 0
		case "$ne":
			hit = !(same && c == 0)
		case "$lt":
			hit = same && c < 0
		case "$lte":
			hit = same && c <= 0
		case "$gt":
			hit = same && c > 0
		case "$gte":
			hit = same && c >= 0
		case "$in":
			hit = in
		case "$nin":
			hit = !in
		case "$exists":
			hit = o.Value.(bool) == ok
		case "$not":
			hit = !matches(o.Value, key, d)
		}
		if !hit {
			return false
		}
	}
	return true
}

// documents are made of the values in a filter and of those next to them.
func documents(t *T, f func(d doc)) {
	near := map[string][]interface{}{}
	seen := map[string]bool{}
	var names []string
	add := func(name string, vs ...interface{}) {
		for _, v := range vs {
			k := name + CanonValue(v)
			if !seen[k] && len(near[name]) < 9 {
				seen[k] = true
				near[name] = append(near[name], v)
			}
		}
	}
	nulls := true
	t.Walk(func(n *T) {
		switch n.Op {
		case "$ne", "$nin", "$nbetween", "$nregex":
			// A missing field is different from everything to MongoDB.
			nulls = false
		}
		if len(n.C) == 0 || n.C[0].K != "IDENTIFIER" {
			return
		}
		name := n.C[0].S
		if _, ok := near[name]; !ok {
			near[name] = nil
			names = append(names, name)
		}
		n.Walk(func(l *T) {
			switch l.K {
			case "NUMBER":
				add(name, l.N, l.N-0.5, l.N+0.5)
			case "STRING":
				add(name, l.S, l.S+" ", "")
			case "BOOLEAN":
				add(name, true, false)
			case "TIMESTAMP":
				d, _ := time.Parse(time.RFC3339Nano, l.S)
				add(name, d.In(time.FixedZone("", 3600)), d.Add(time.Second), d.Add(-time.Second))
			}
		})
	})
	sort.Strings(names)
	if len(names) > 4 {
		return
	}
	for _, n := range names {
		if near[n] == nil {
			near[n] = []interface{}{1.0}
		}
	}
	d := doc{}
	budget := 300
	var rec func(i int)
	rec = func(i int) {
		if budget <= 0 {
			return
		}
		if i == len(names) {
			budget--
			f(d)
			return
		}
		if nulls {
			rec(i + 1)
		}
		for _, v := range near[names[i]] {
			d[names[i]] = v
			rec(i + 1)
			delete(d, names[i])
		}
	}
	rec(0)
}

func checkMongo(c *Ctx, cs Case) *Failure {
	p := load(expand(cs))
	if !p.ok {
		c.Outcome("not in the language")
		return nil
	}
	d, err := mongo.Walk(p.node)
	c.Trace()
	c.Trans(p.model.Size())
	if bad := unchanged(p); bad != nil {
		return bad
	}
	can, must := hasMongo(p.model)
	where := fmt.Sprintf("\nfilter: %s\nquery: %s", q(p.text), q(fmt.Sprintf("%#v", d)))
	if !can {
		c.Outcome("no query")
		c.State("error " + p.canon)
		if err == nil {
			return failf("v%d: converted, but MongoDB can not express it%s", version, where)
		}
		return nil
	}
	if err != nil {
		if must {
			return failf("v%d: error %v\nfilter: %s", version, err, q(p.text))
		}
		c.Outcome("refused")
		return nil
	}
	sent := d
	d = plainQuery(d).(bson.D)
	got, err := readMongo(d)
	if err != nil {
		return failf("v%d: not a query: %v%s", version, err, where)
	}
	want := mongoWant(p.model)
	if g, w := flat(got).String(), flat(want).String(); g != w {
		return failf("v%d: the query means another expression%s\nmeans: %s\nwant:  %s", version, where, q(g), q(w))
	}
	if _, err := bson.Marshal(sent); err != nil {
		return failf("v%d: the query can not be sent: %v%s", version, err, where)
	}
	c.State(p.canon)
	c.Outcome("converted " + p.model.Op)
	// What it selects.
	var f *Failure
	documents(p.model, func(x doc) {
		truth, why := lang.Truth(p.model, x)
		if why != "" || f != nil {
			return
		}
		c.Trans(1)
		if find(d, x) != truth {
			f = failf("v%d: MongoDB gives %v, the filter is %v on %v%s", version, !truth, truth, x, where)
		}
	})
	return f
}

func genMongo(c *Ctx) {
	genFilters(c)
	c.Stage("regular expressions")
	for _, r := range []string{"a.*b", "^$", "a|b", "a{2}", "(?i)A", "\\d+", ".", "^a", "b$", "[^a]", "(a)(b)?", "", "/", "a/i", "''"} {
		for _, op := range []string{"~=", "~!"} {
			c.Emit("text", "a "+op+" '"+r+"'")
			c.Emit("text", "a "+op+" '"+r+"' or b "+op+" 'x"+r+"' and c = 1")
		}
	}
}
