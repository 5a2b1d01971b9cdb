package common

// Earley is a recogniser for a context free grammar over token kinds. It tells which prefixes can still
// become a sentence, which a recursive descent parser with backtracking can not tell.
type Earley struct {
	start string
	rules map[string][][]string
}

type earleyItem struct {
	head   string
	alt    int
	dot    int
	origin int
}

// Chart is the state of a recogniser after some tokens.
type Chart struct {
	g    *Earley
	sets [][]earleyItem
	Work int
}

// NewEarley makes a recogniser; a name that has rules is not a token.
func NewEarley(start string, rules map[string][][]string) *Earley {
	return &Earley{start, rules}
}

// Start is the chart of no tokens.
func (g *Earley) Start() *Chart {
	c := &Chart{g: g}
	var set []earleyItem
	for i := range g.rules[g.start] {
		set = append(set, earleyItem{g.start, i, 0, 0})
	}
	c.sets = [][]earleyItem{c.close(set, 0)}
	return c
}

func (c *Chart) rhs(it earleyItem) []string { return c.g.rules[it.head][it.alt] }

func (c *Chart) close(set []earleyItem, at int) []earleyItem {
	seen := map[earleyItem]bool{}
	for _, it := range set {
		seen[it] = true
	}
	add := func(it earleyItem) {
		if !seen[it] {
			seen[it] = true
			set = append(set, it)
		}
	}
	for changed := true; changed; {
		changed = false
		n := len(set)
		for k := 0; k < len(set); k++ {
			it := set[k]
			c.Work++
			r := c.rhs(it)
			if it.dot < len(r) {
				for i := range c.g.rules[r[it.dot]] {
					add(earleyItem{r[it.dot], i, 0, at})
				}
				continue
			}
			from := set
			if it.origin < at {
				from = c.sets[it.origin]
			}
			for _, p := range from {
				q := c.rhs(p)
				if p.dot < len(q) && q[p.dot] == it.head {
					add(earleyItem{p.head, p.alt, p.dot + 1, p.origin})
				}
			}
		}
		// Empty rules can complete before what waits for them is there.
		changed = len(set) != n
	}
	return set
}

// Next is the chart after one more token, nil when no sentence starts like this.
func (c *Chart) Next(tok string) *Chart {
	at := len(c.sets)
	var set []earleyItem
	for _, it := range c.sets[at-1] {
		r := c.rhs(it)
		if it.dot < len(r) && r[it.dot] == tok {
			set = append(set, earleyItem{it.head, it.alt, it.dot + 1, it.origin})
		}
	}
	if len(set) == 0 {
		return nil
	}
	d := &Chart{g: c.g, sets: c.sets[:at:at]}
	set = d.close(set, at)
	d.sets = append(d.sets, set)
	return d
}

// Accepts tells if the tokens so far are a sentence.
func (c *Chart) Accepts() bool {
	for _, it := range c.sets[len(c.sets)-1] {
		if it.head == c.g.start && it.origin == 0 && it.dot == len(c.rhs(it)) {
			return true
		}
	}
	return false
}
