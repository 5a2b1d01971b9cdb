package common

import (
	"fmt"
	"strings"
)

// DotNode is a node of a graph: its label and its children in the order of the edges.
type DotNode struct {
	ID, Label string
	Declared  int
	Children  []string
}

type dotLexer struct {
	s string
	i int
}

func (l *dotLexer) next() (string, bool, error) {
	for l.i < len(l.s) {
		c := l.s[l.i]
		if isSpace(c) {
			l.i++
			continue
		}
		break
	}
	if l.i >= len(l.s) {
		return "", false, nil
	}
	c := l.s[l.i]
	if c == '"' {
		var b strings.Builder
		b.WriteByte('"')
		for l.i++; l.i < len(l.s); l.i++ {
			d := l.s[l.i]
			if d == '"' {
				l.i++
				return b.String(), true, nil
			}
			if d == '\\' && l.i+1 < len(l.s) && l.s[l.i+1] == '"' {
				l.i++
				d = '"'
			} else if d == '\\' && l.i+1 < len(l.s) && l.s[l.i+1] == '\\' {
				// A pair stays a pair, the label reader removes it.
				b.WriteByte('\\')
				l.i++
			}
			b.WriteByte(d)
		}
		return "", false, fmt.Errorf("unterminated string")
	}
	if strings.HasPrefix(l.s[l.i:], "->") {
		l.i += 2
		return "->", true, nil
	}
	if strings.IndexByte("{}[];,=", c) >= 0 {
		l.i++
		return string([]byte{c}), true, nil
	}
	if isLetter(c) || c == '_' || isDigit(c) || c >= 0x80 {
		j := l.i
		for j < len(l.s) && (isLetter(l.s[j]) || l.s[j] == '_' || isDigit(l.s[j]) || l.s[j] >= 0x80) {
			j++
		}
		t := l.s[l.i:j]
		l.i = j
		return t, true, nil
	}
	return "", false, fmt.Errorf("character %q at %d", c, l.i)
}

// ParseDot reads the statements of a directed graph. Attributes other than the label and the shape are
// ignored.
func ParseDot(s string) (map[string]*DotNode, error) {
	l := &dotLexer{s: s}
	var toks []string
	for {
		t, ok, err := l.next()
		if err != nil {
			return nil, err
		}
		if !ok {
			break
		}
		toks = append(toks, t)
	}
	nodes := map[string]*DotNode{}
	get := func(id string) *DotNode {
		if nodes[id] == nil {
			nodes[id] = &DotNode{ID: id}
		}
		return nodes[id]
	}
	i := 0
	at := func() string {
		if i < len(toks) {
			return toks[i]
		}
		return ""
	}
	isID := func(t string) bool { return t != "" && t != "->" && strings.IndexByte("{}[];,=", t[0]) < 0 }
	isKeyword := func(t string) bool {
		switch strings.ToLower(t) {
		case "node", "edge", "graph", "digraph", "subgraph", "strict":
			return true
		}
		return false
	}
	if !strings.EqualFold(at(), "digraph") {
		return nil, fmt.Errorf("no digraph")
	}
	i++
	if isID(at()) {
		i++
	}
	if at() != "{" {
		return nil, fmt.Errorf("no { of the graph")
	}
	i++
	idSet := func() ([]string, error) {
		if at() != "{" {
			if !isID(at()) || isKeyword(at()) {
				return nil, fmt.Errorf("%q is not a node", at())
			}
			i++
			return []string{toks[i-1]}, nil
		}
		i++
		var ids []string
		for at() != "}" {
			if at() == "," || at() == ";" {
				i++
				continue
			}
			if !isID(at()) || isKeyword(at()) {
				return nil, fmt.Errorf("%q is not a node", at())
			}
			ids = append(ids, at())
			i++
		}
		i++
		return ids, nil
	}
	for at() != "}" {
		if i >= len(toks) {
			return nil, fmt.Errorf("no } of the graph")
		}
		if at() == ";" {
			i++
			continue
		}
		from, err := idSet()
		if err != nil {
			return nil, err
		}
		edge := false
		for at() == "->" {
			edge = true
			i++
			to, err := idSet()
			if err != nil {
				return nil, err
			}
			for _, a := range from {
				for _, b := range to {
					get(a).Children = append(get(a).Children, b)
					get(b)
				}
			}
			from = to
		}
		attrs := map[string]string{}
		for at() == "[" {
			i++
			for at() != "]" {
				if at() == "," || at() == ";" {
					i++
					continue
				}
				k := at()
				if !isID(k) || i+2 >= len(toks) || toks[i+1] != "=" || !isID(toks[i+2]) {
					return nil, fmt.Errorf("bad attribute at %q", k)
				}
				if _, twice := attrs[k]; twice {
					return nil, fmt.Errorf("attribute %s twice", k)
				}
				attrs[k] = toks[i+2]
				i += 3
			}
			i++
		}
		if !edge {
			n := get(from[0])
			n.Declared++
			lb, ok := attrs["label"]
			if !ok {
				return nil, fmt.Errorf("node without label")
			}
			n.Label, err = readLabel(strings.TrimPrefix(lb, "\""), strings.Contains(strings.ToLower(attrs["shape"]), "record"))
			if err != nil {
				return nil, err
			}
		}
	}
	if i != len(toks)-1 {
		return nil, fmt.Errorf("text after the graph")
	}
	return nodes, nil
}

// readLabel removes the escapes of a label; the fields of a record are separated by a byte 1.
func readLabel(s string, record bool) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\\' {
			if i+1 >= len(s) {
				return "", fmt.Errorf("label ends in a backslash: %q", s)
			}
			i++
			switch s[i] {
			case '\\', '"', '|', '{', '}', '<', '>', ' ':
				b.WriteByte(s[i])
			case 'n', 'l', 'r':
				b.WriteByte('\n')
			default:
				return "", fmt.Errorf("escape \\%c in label %q", s[i], s)
			}
			continue
		}
		if record {
			switch c {
			case '|':
				b.WriteByte(1)
				continue
			case '{', '}', '<', '>':
				return "", fmt.Errorf("%q in the label of a record: %q", c, s)
			}
		}
		b.WriteByte(c)
	}
	return b.String(), nil
}
