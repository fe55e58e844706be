package main

import (
	"bufio"
	"os"
	"sort"
	"strings"

	"terorie.dev/nimiq/tree"
)

func init() {
	families["tree"] = caseTree
	families["treelayers"] = caseTreeLayers
	families["plainlayers"] = casePlainLayers
}

// ---------------------------------------------------------------- stores

func cloneNode(n tree.Node) tree.Node {
	switch x := n.(type) {
	case nil:
		return nil
	case *tree.Leaf:
		return &tree.Leaf{Prefix: append(tree.Nibbles(nil), x.Prefix...), Value: append([]byte(nil), x.Value...)}
	case *tree.Branch:
		b := &tree.Branch{Prefix: append(tree.Nibbles(nil), x.Prefix...)}
		for i, ch := range x.Children {
			if ch.Exists { // what a missing child holds carries no meaning
				b.Children[i] = tree.Child{Suffix: append(tree.Nibbles(nil), ch.Suffix...), Hash: ch.Hash, Exists: true}
			}
		}
		return b
	default:
		return n
	}
}

// copyStore keeps and hands out independent copies, as a database does.
type copyStore struct{ m map[string]tree.Node }

func newCopyStore() *copyStore { return &copyStore{map[string]tree.Node{"": &tree.Branch{}}} }
func (s *copyStore) GetNode(p tree.Nibbles) tree.Node {
	n, ok := s.m[string(p)]
	if !ok {
		return nil
	}
	return cloneNode(n)
}
func (s *copyStore) PutNode(p tree.Nibbles, n tree.Node) { s.m[string(p)] = cloneNode(n) }
func (s *copyStore) DelNode(p tree.Nibbles)              { delete(s.m, string(p)) }

// spyStore notes every path written.
type spyStore struct {
	tree.Store
	paths map[string]bool
}

func (s *spyStore) PutNode(p tree.Nibbles, n tree.Node) {
	s.paths[string(p)] = true
	s.Store.PutNode(append(tree.Nibbles(nil), p...), n)
}

// ---------------------------------------------------------------- trees

type layeredTree struct {
	backend string
	bare    bool         // the code under test sees the stores themselves
	layers  []tree.Store // as the trees use them, lowest first
	trees   []*tree.PMTree
	overs   []*tree.OverlayStore // overs[i] lies at layer i+2
	paths   map[string]bool
	keys    [][20]byte
}

func (l *layeredTree) add(s tree.Store) {
	if !l.bare {
		s = &spyStore{s, l.paths}
	}
	l.layers = append(l.layers, s)
	l.trees = append(l.trees, &tree.PMTree{Store: s})
}

func newLayered(base string, layers int, keys [][20]byte) *layeredTree {
	l := &layeredTree{paths: map[string]bool{}, keys: keys}
	sum := 0
	for _, k := range keys {
		sum += int(k[0]) + int(k[9]) + int(k[18])
	}
	l.bare = sum%2 == 0
	for _, k := range keys {
		k := k
		nbs := tree.KeyToNibbles(&k)
		for i := 0; i <= len(nbs); i++ {
			l.paths[string(nbs[:i])] = true
		}
	}
	if base == "copy" {
		l.add(newCopyStore())
	} else {
		l.add(tree.NewMemStore())
	}
	for i := 1; i < layers; i++ {
		o := &tree.OverlayStore{Lower: l.layers[i-1]}
		l.overs = append(l.overs, o)
		l.add(o)
	}
	return l
}

func hexPath(p tree.Nibbles) string {
	const digits = "0123456789abcdef"
	b := make([]byte, len(p))
	for i, n := range p {
		if n > 15 {
			b[i] = '?'
		} else {
			b[i] = digits[n]
		}
	}
	return string(b)
}

func (l *layeredTree) dump(i int) []Event {
	var out []Event
	var paths []string
	for p := range l.paths {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		n := l.layers[i].GetNode(tree.Nibbles(p))
		if n == nil {
			continue
		}
		e := Event{"at": hexPath(tree.Nibbles(p)), "t": "?", "p": "", "v": "", "ch": [][]string{}}
		switch x := n.(type) {
		case *tree.Leaf:
			e["t"], e["p"], e["v"] = "leaf", hexPath(x.Prefix), hx(x.Value)
		case *tree.Branch:
			e["t"], e["p"] = "branch", hexPath(x.Prefix)
			ch := [][]string{}
			for j, c := range x.Children {
				if c.Exists {
					if len(c.Suffix) == 0 || int(c.Suffix[0]) != j {
						e["t"] = "misplaced child"
					}
					ch = append(ch, []string{hexPath(c.Suffix), hx(c.Hash[:])})
				}
			}
			e["ch"] = ch
		}
		out = append(out, e)
	}
	return out
}

// observe records what every layer shows.
func (l *layeredTree) observe(e Event, dump bool, fromLayer int) {
	var look, root, nodes []interface{}
	out, msg := guard(func() {
		for i, t := range l.trees {
			lk := [][]string{}
			r := ""
			nd := []Event{}
			if i >= fromLayer {
				for _, k := range l.keys {
					k := k
					lk = append(lk, []string{hx(k[:]), hx(t.GetEntry(&k))})
				}
				h := t.Hash()
				r = hx(h[:])
				if dump {
					nd = l.dump(i)
				}
			}
			look, root, nodes = append(look, lk), append(root, r), append(nodes, nd)
		}
	})
	if out != "ok" {
		e["out"], e["msg"] = "observation "+out, msg
		return
	}
	e["look"], e["root"], e["nodes"], e["dump"] = look, root, nodes, dump
}

// keySet draws keys that share prefixes of all lengths.
func (c *Ctx) keySet(n int) (keys [][20]byte) {
	seen := map[[20]byte]bool{}
	nib := func(k *[20]byte, i, v int) {
		if i%2 == 0 {
			k[i/2] = k[i/2]&0x0f | byte(v)<<4
		} else {
			k[i/2] = k[i/2]&0xf0 | byte(v)
		}
	}
	base := c.address20()
	style := c.Intn(6)
	deep := c.Intn(40)
	if style == 5 || c.Index%20 == 19 {
		style, deep = 5, c.Intn(8)
		if n > 8 && n < 16 || c.Index%20 == 19 {
			n = 16 + c.Intn(4)
		}
	}
	for tries := 0; len(keys) < n && tries < 50*n; tries++ {
		k := base
		if len(keys) > 0 && style != 1 && style != 4 {
			k = keys[c.Intn(len(keys))]
		}
		switch style {
		case 0: // differ from another key from some place on
			from := c.Intn(40)
			for i := from; i < 40; i++ {
				if i == from || c.one(2) {
					nib(&k, i, c.Intn(16))
				}
			}
		case 1: // differ in one place from the base: a chain of branches
			nib(&k, c.Intn(40), c.Intn(16))
		case 2: // few digits at the end
			nib(&k, 39-c.Intn(3), c.Intn(3)*7)
		case 3: // one or two digits anywhere near a depth
			nib(&k, (deep+c.Intn(3))%40, c.Intn(16))
		case 4:
			k = c.address20()
		case 5: // one branch with all children
			from := deep / (1 + c.Intn(2))
			k = base
			for i := from; i < 40; i++ {
				nib(&k, i, c.Intn(16))
			}
			if len(keys) < 16 {
				k = base
				for i := deep; i < 40; i++ {
					nib(&k, i, c.Intn(16))
				}
				nib(&k, deep, len(keys))
			}
		}
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	return
}

func (c *Ctx) leafValue(pool *[][]byte) []byte {
	if len(*pool) > 0 && c.one(3) {
		return append([]byte(nil), (*pool)[c.Intn(len(*pool))]...)
	}
	n := 1 + c.Intn(9)
	if c.one(10) {
		n = 1 + c.Intn(200)
	}
	v := c.bytes(n)
	if c.one(6) {
		v = make([]byte, n)
	}
	if (c.Index%20 == 7 || c.Index%20 == 14) && c.one(8) { // nothing limits what is stored
		v = c.bytes(1<<uint(8+c.Intn(7)) + c.Intn(3) - 1)
	}
	*pool = append(*pool, v)
	return append([]byte(nil), v...)
}

// near is a value that nearly equals v.
func (c *Ctx) near(v []byte) []byte {
	w := append([]byte{}, v...)
	switch n := len(w); c.Intn(6) {
	case 0:
		return append(w, byte(c.Intn(2)))
	case 1:
		if n > 1 {
			return w[:n-1]
		}
	case 2:
		if n > 1 {
			i, j := c.Intn(n), c.Intn(n)
			w[i], w[j] = w[j], w[i]
			return w
		}
	case 3:
		if n > 0 {
			w[n/2] ^= 1 << uint(c.Intn(8))
			return w
		}
	}
	if len(w) > 0 {
		w[c.Intn(len(w))] ^= 1 << uint(c.Intn(8))
	}
	return w
}

func (l *layeredTree) put(c *Ctx, layer int, key [20]byte, val []byte, dump bool, from int) bool {
	e := Event{"ev": "put", "layer": layer, "key": hx(key[:]), "val": hx(val)}
	changed := false
	k := key
	e["out"], e["msg"] = guard(func() { changed = l.trees[layer-1].PutEntry(&k, val) })
	if k != key {
		e["out"] = "key altered"
	}
	e["changed"] = changed
	if e["out"] == "ok" {
		l.observe(e, dump, from)
	}
	e["layers"] = len(l.trees)
	c.Emit(e)
	return e["out"] == "ok"
}

func (l *layeredTree) open(c *Ctx, base string) {
	e := Event{"ev": "open", "out": "ok", "layers": len(l.trees), "base": base}
	l.observe(e, true, 0)
	c.Emit(e)
}

// reopen copies the stored nodes into a new store of the other kind.
func (l *layeredTree) reopen(c *Ctx, kind string) *layeredTree {
	n := newLayered(kind, 1, l.keys)
	n.paths, n.bare = l.paths, l.bare
	top := len(l.layers) - 1
	out, msg := guard(func() {
		var s tree.Store = tree.NewMemStore()
		if kind == "copy" {
			s = newCopyStore()
		}
		n.layers, n.trees = nil, nil
		n.add(s)
		for p := range l.paths {
			if nd := l.layers[top].GetNode(tree.Nibbles(p)); nd != nil {
				n.layers[0].PutNode(tree.Nibbles(p), cloneNode(nd))
			}
		}
	})
	if out != "ok" {
		e := Event{"ev": "reopen", "out": out, "msg": msg, "layers": 1}
		c.Emit(e)
		return nil
	}
	return n
}

func caseTree(c *Ctx) {
	if c.Input != "" && c.Index%4 == 0 {
		walkTree(c)
		return
	}
	if c.Index%40 == 9 {
		hugeTree(c)
		return
	}
	size := 2 + c.Intn(11)
	ops := 20 + c.Intn(30)
	long := c.Index%16 == 1
	if long {
		size, ops = 20+c.Intn(40), 150
	}
	keys := c.keySet(size)
	base := []string{"mem", "copy"}[c.Intn(2)]
	l := newLayered(base, 1, keys)
	l.open(c, base)
	var pool [][]byte
	present := map[[20]byte]bool{}
	now := map[[20]byte][]byte{}
	bias := 1 + c.Intn(4)
	filled := c.one(3) || c.Index%20 == 19
	for i := 0; i < ops; i++ {
		k := keys[c.Intn(len(keys))]
		var v []byte
		if filled && i < len(keys) { // everything is there at first
			k = keys[i]
			v = c.leafValue(&pool)
		} else if c.Intn(bias+2) >= 2 || (!present[k] && !c.one(4)) {
			v = c.leafValue(&pool)
		} else if c.one(2) {
			v = []byte{}
		}
		if len(v) > 0 && len(now[k]) > 0 && c.one(4) {
			v = c.near(now[k])
		}
		present[k], now[k] = len(v) > 0, append([]byte{}, v...)
		if !l.put(c, 1, k, v, !long || i%10 == 0 || i == ops-1, 0) {
			return
		}
		if c.one(25) { // empty everything
			for _, k := range keys {
				present[k], now[k] = false, nil
				if !l.put(c, 1, k, nil, !long, 0) {
					return
				}
			}
		}
		if c.one(12) {
			n := l.reopen(c, []string{"mem", "copy"}[c.Intn(2)])
			if n == nil {
				return
			}
			e := Event{"ev": "reopen", "out": "ok", "layers": 1}
			n.observe(e, true, 0)
			c.Emit(e)
			if e["out"] != "ok" {
				return
			}
			l = n
		}
	}
}

// hugeTree works on many keys for a long time, and looks at everything now and then only.
func hugeTree(c *Ctx) {
	keys := c.keySet(150 + c.Intn(250))
	base := []string{"mem", "copy"}[c.Intn(2)]
	l := newLayered(base, 1, keys)
	l.open(c, base)
	var pool [][]byte
	ops := 2*len(keys) + c.Intn(600)
	step := ops/(8+c.Intn(5)) + 1
	for i := 0; i < ops; i++ {
		j := c.Intn(len(keys))
		if i < len(keys) {
			j = i
		}
		k := keys[j]
		var v []byte
		if c.one(2) || i < ops/2 && c.one(2) {
			v = c.leafValue(&pool)
		}
		if i%step == 0 || i == ops-1 {
			if !l.put(c, 1, k, v, true, 0) {
				return
			}
			continue
		}
		e := Event{"ev": "put", "layer": 1, "key": hx(k[:]), "val": hx(v), "brief": true}
		changed := false
		q := k
		e["out"], e["msg"] = guard(func() { changed = l.trees[0].PutEntry(&q, v) })
		if q != k {
			e["out"] = "key altered"
		}
		e["changed"], e["layers"] = changed, 1
		c.Emit(e)
		if e["out"] != "ok" {
			return
		}
	}
}

func caseTreeLayers(c *Ctx) {
	keys := c.keySet(2 + c.Intn(7))
	n := 2 + c.Intn(2)
	base := []string{"mem", "copy"}[c.Intn(2)]
	l := newLayered(base, n, keys)
	l.open(c, base)
	var pool [][]byte
	dirty := make([]bool, n+2) // dirty[i]: layer i has differences
	for i, ops := 0, 20+c.Intn(20); i < ops; i++ {
		top := 1 // lowest layer that may be written: everything above is clean
		for j := 2; j <= n; j++ {
			if dirty[j] {
				top = j
			}
		}
		if c.one(5) {
			j := 2 + c.Intn(n-1)
			ok := true
			for k := j + 1; k <= n; k++ {
				ok = ok && !dirty[k]
			}
			if !ok && !c.one(3) {
				continue
			}
			e := Event{"ev": "flush", "layer": j, "layers": n}
			e["out"], e["msg"] = guard(func() { l.overs[j-2].Flush() })
			if e["out"] == "ok" {
				l.observe(e, true, 0)
			}
			c.Emit(e)
			if e["out"] != "ok" {
				return
			}
			if dirty[j] {
				dirty[j] = false
				if j > 2 {
					dirty[j-1] = true
				}
			}
			continue
		}
		layer := top + c.Intn(n-top+1)
		var v []byte
		if !c.one(3) {
			v = c.leafValue(&pool)
		}
		if layer > 1 {
			dirty[layer] = true
		}
		if !l.put(c, layer, keys[c.Intn(len(keys))], v, true, 0) {
			return
		}
	}
}

// ---------------------------------------------------------------- graphs computed by TLC

type edge struct{ op, dst string }

var graphs = map[string]*graph{}

type graph struct {
	edges map[string][]edge
	order []string // "src op" in file order
}

func loadGraph(path string) *graph {
	if g, ok := graphs[path]; ok {
		return g
	}
	f, err := os.Open(path)
	if err != nil {
		fail("%s", err)
	}
	defer f.Close()
	g := &graph{edges: map[string][]edge{}}
	var lines []string
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	sort.Strings(lines)
	last := ""
	for _, ln := range lines {
		p := strings.Fields(ln)
		if ln == last || len(p) != 3 {
			continue
		}
		last = ln
		g.edges[p[0]] = append(g.edges[p[0]], edge{p[1], p[2]})
		g.order = append(g.order, p[0]+" "+p[1])
	}
	graphs[path] = g
	return g
}

// walk visits, starting at start, all edges whose number is part modulo parts.
func (g *graph) walk(c *Ctx, start string, part, parts int, step func(e edge) bool) {
	todo := map[string]bool{}
	for i, s := range g.order {
		if i%parts == part {
			todo[s] = true
		}
	}
	cur := start
	for len(todo) > 0 {
		// breadth-first search for the nearest edge to do
		type hop struct {
			from string
			e    edge
		}
		prev := map[string]hop{}
		queue := []string{cur}
		seen := map[string]bool{cur: true}
		found := ""
		var last edge
		for len(queue) > 0 && found == "" {
			s := queue[0]
			queue = queue[1:]
			es := g.edges[s]
			for _, i := range c.Perm(len(es)) {
				e := es[i]
				if todo[s+" "+e.op] {
					found, last = s, e
					break
				}
				if !seen[e.dst] {
					seen[e.dst] = true
					prev[e.dst] = hop{s, e}
					queue = append(queue, e.dst)
				}
			}
		}
		if found == "" {
			fail("the rest of the graph is not reachable")
		}
		path := []edge{last}
		for s := found; s != cur; s = prev[s].from {
			path = append([]edge{prev[s].e}, path...)
		}
		for _, e := range path {
			delete(todo, cur+" "+e.op)
			if !step(e) {
				return
			}
			cur = e.dst
		}
	}
}

// walkTree replays the model's transitions on keys whose digits at three places vary.
func walkTree(c *Ctx) {
	g := loadGraph(c.Input)
	shape := g.order[0]
	nkeys := len(strings.Fields(shape)[0])
	// the keys of MCPMTree in lexicographic order
	abstract := [][]int{{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 1}}
	if nkeys == 6 {
		abstract = [][]int{{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {0, 1, 1}, {1, 0, 0}, {1, 1, 1}}
	}
	places := c.Perm(40)[:3]
	if c.one(3) {
		places = []int{37, 38, 39}
	} else if c.one(3) {
		places = []int{0, 1, 2}
	}
	sort.Ints(places)
	fill := c.path(40)
	var keys [][20]byte
	digits := [3][2]byte{}
	for i := range digits {
		digits[i][0] = byte(c.Intn(16))
		digits[i][1] = (digits[i][0] + 1 + byte(c.Intn(15))) % 16
	}
	for _, a := range abstract {
		nbs := append(tree.Nibbles(nil), fill...)
		for i, p := range places {
			nbs[p] = digits[i][a[i]]
		}
		var k [20]byte
		for i := range k {
			k[i] = nbs[2*i]<<4 | nbs[2*i+1]
		}
		keys = append(keys, k)
	}
	base := []string{"mem", "copy"}[c.Intn(2)]
	l := newLayered(base, 1, keys)
	l.open(c, base)
	values := map[byte][]byte{'a': c.bytes(1 + c.Intn(9)), 'b': c.bytes(1 + c.Intn(9)), '-': nil}
	g.walk(c, strings.Repeat("-", nkeys), c.Index/4, (c.Total+3)/4, func(e edge) bool {
		k := int(e.op[0] - '1')
		return l.put(c, 1, keys[k], values[e.op[1]], true, 0)
	})
}

// ---------------------------------------------------------------- plain nodes on layers

type plain struct {
	layers []tree.Store
	keys   []tree.Nibbles
	more   [][]tree.Nibbles // nodes that share the fate of a key
}

func (p *plain) views() [][]string {
	var out [][]string
	for _, s := range p.layers {
		row := []string{}
		show := func(k tree.Nibbles) string {
			n := s.GetNode(append(tree.Nibbles(nil), k...))
			switch x := n.(type) {
			case nil:
				return "-"
			case *tree.Leaf:
				return string(x.Value)
			}
			return "root"
		}
		for i, k := range p.keys {
			v := show(k)
			if p.more != nil {
				for _, m := range p.more[i] {
					if show(m) != v {
						v = "mixed"
					}
				}
			}
			row = append(row, v)
		}
		out = append(out, row)
	}
	return out
}

func newPlain(c *Ctx, layers, keys int) *plain {
	return newPlainOn(c, layers, keys, func(s tree.Store) tree.Store { return s })
}

func newPlainOn(c *Ctx, layers, keys int, wrap func(tree.Store) tree.Store) *plain {
	p := &plain{}
	if c.one(2) {
		p.layers = append(p.layers, wrap(tree.NewMemStore()))
	} else {
		p.layers = append(p.layers, wrap(newCopyStore()))
	}
	for i := 1; i < layers; i++ {
		p.layers = append(p.layers, &tree.OverlayStore{Lower: p.layers[i-1]})
	}
	seen := map[string]bool{}
	for len(p.keys) < keys {
		k := tree.Nibbles(c.path(c.Intn(41)))
		if c.one(3) && len(p.keys) > 0 { // prefix of another
			o := p.keys[c.Intn(len(p.keys))]
			k = append(tree.Nibbles(nil), o[:c.Intn(len(o)+1)]...)
		}
		if !seen[string(k)] {
			seen[string(k)] = true
			p.keys = append(p.keys, k)
		}
	}
	e := Event{"ev": "open", "out": "ok", "layers": layers, "keys": keys, "views": p.views()}
	e["base"] = p.views()[0]
	c.Emit(e)
	return p
}

func (p *plain) write(c *Ctx, layer, key int, val string) bool {
	e := Event{"ev": "write", "layer": layer, "key": key, "val": val}
	e["out"], e["msg"] = guard(func() {
		nodes := []tree.Nibbles{p.keys[key-1]}
		if p.more != nil {
			nodes = append(nodes, p.more[key-1]...)
		}
		for _, n := range nodes {
			k := append(tree.Nibbles(nil), n...)
			if val == "-" {
				p.layers[layer-1].DelNode(k)
			} else {
				p.layers[layer-1].PutNode(k, &tree.Leaf{Prefix: k, Value: []byte(val)})
			}
		}
	})
	return p.finish(c, e)
}

func (p *plain) flush(c *Ctx, layer int) bool {
	e := Event{"ev": "flush", "layer": layer}
	e["out"], e["msg"] = guard(func() { p.layers[layer-1].(*tree.OverlayStore).Flush() })
	return p.finish(c, e)
}

func (p *plain) finish(c *Ctx, e Event) bool {
	if e["out"] == "ok" {
		var v [][]string
		if out, msg := guard(func() { v = p.views() }); out != "ok" {
			e["out"], e["msg"] = "observation "+out, msg
		}
		e["views"] = v
	}
	c.Emit(e)
	return e["out"] == "ok"
}

func casePlainLayers(c *Ctx) {
	if c.Input != "" && c.Index%4 == 0 {
		g := loadGraph(c.Input)
		p := newPlain(c, 3, 2)
		if p.views()[0][0] != "-" || p.views()[0][1] != "-" { // the root is stored from the start
			for k := 1; k <= 2; k++ {
				p.write(c, 1, k, "-")
			}
		}
		g.walk(c, "--....", c.Index/4, (c.Total+3)/4, func(e edge) bool {
			if e.op[0] == 'f' {
				return p.flush(c, int(e.op[1]-'0'))
			}
			return p.write(c, int(e.op[1]-'0'), int(e.op[2]-'0'), e.op[3:])
		})
		return
	}
	layers := 2 + c.Intn(3)
	keys := 1 + c.Intn(6)
	p := newPlain(c, layers, keys)
	if c.Index%12 == 3 && p.views()[0][0] != "root" { // many nodes
		p.more = make([][]tree.Nibbles, keys)
		for i := range p.more {
			if p.views()[0][i] == "root" {
				continue
			}
			for n := []int{1, 20, 200, 600, 1500, 5000}[c.Intn(6)] / (1 + c.Intn(keys)); n > 0; n-- {
				p.more[i] = append(p.more[i], append(append(tree.Nibbles{}, c.path(6)...), byte(i), byte(n>>12&15), byte(n>>8&15), byte(n>>4&15), byte(n&15)))
			}
		}
	}
	for i, ops := 0, 20+c.Intn(40); i < ops; i++ {
		ok := true
		switch {
		case c.one(6):
			ok = p.flush(c, 2+c.Intn(layers-1))
		case c.one(3):
			ok = p.write(c, 1+c.Intn(layers), 1+c.Intn(keys), "-")
		default:
			ok = p.write(c, 1+c.Intn(layers), 1+c.Intn(keys), string(rune('a'+c.Intn(4))))
		}
		if !ok {
			return
		}
	}
}
