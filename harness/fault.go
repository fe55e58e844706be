package main

import (
	"terorie.dev/nimiq/tree"
)

func init() {
	families["faults"] = caseFaults
	families["flushfaults"] = caseFlushFaults
}

// faultStore fails at one of its accesses.
type faultStore struct {
	tree.Store
	reads, writes int // accesses until the failing one, 0 for none
	fired         bool
	seen          int // reads so far
}

func (s *faultStore) hit(n *int) {
	if *n > 0 {
		if *n--; *n == 0 {
			s.fired = true
			panic("the storage fails")
		}
	}
}
func (s *faultStore) GetNode(p tree.Nibbles) tree.Node {
	s.seen++
	s.hit(&s.reads)
	return s.Store.GetNode(p)
}
func (s *faultStore) PutNode(p tree.Nibbles, n tree.Node) {
	s.hit(&s.writes)
	s.Store.PutNode(p, n)
}
func (s *faultStore) DelNode(p tree.Nibbles) {
	s.hit(&s.writes)
	s.Store.DelNode(p)
}

// caseFaults applies blocks while the storage fails, and again when it works.
func caseFaults(c *Ctx) {
	l := newLedger(c)
	fs := &faultStore{Store: l.store.layers[0]}
	l.store.layers[0], l.store.trees[0].Store = fs, fs
	l.open()
	for i := 0; i < 4; i++ {
		blk := l.block()
		reach := 60
		same := c.one(2) // the same block in memory every time
		mine := copyBlock(blk)
		for tries := 0; tries < 4; tries++ {
			e := l.describe("fault", blk)
			l.digest = l.nodesDigest()
			arg := mine
			if !same {
				arg = copyBlock(blk)
			}
			fs.seen, fs.fired, fs.reads = 0, false, 1+c.Intn(reach)
			e["at"] = fs.reads
			e["out"], e["msg"] = try(func() error { return l.acc.Push(arg) })
			fs.reads = 0
			e["fired"] = fs.fired
			if !fs.fired { // few reads: the block has been applied or rejected
				e["ev"] = "push"
				reach = fs.seen
			}
			if !l.finish(e) || e["out"] == "hang" {
				return
			}
			if !fs.fired {
				if e["out"] == "ok" || reach == 0 {
					break
				}
			}
		}
		if same {
			l.given = mine
		}
		if _, ok := l.push(blk); !ok {
			return
		}
	}
}

// caseFlushFaults flushes an overlay onto a storage that fails now and then.
func caseFlushFaults(c *Ctx) {
	fs := &faultStore{}
	layers := 2 + c.Intn(2)
	p := newPlainOn(c, layers, 1+c.Intn(7), func(s tree.Store) tree.Store { fs.Store = s; return fs })
	n := len(p.keys)
	for i := 0; i < 12; i++ {
		for j := c.Intn(6); j > 0; j-- {
			val := string(rune('a' + c.Intn(3)))
			if c.one(3) {
				val = "-"
			}
			if !p.write(c, 1+c.Intn(layers), 1+c.Intn(n), val) {
				return
			}
		}
		if layers > 2 && c.one(2) {
			if !p.flush(c, 3) {
				return
			}
		}
		for {
			fs.fired, fs.writes = false, 1+c.Intn(n)
			e := Event{"ev": "flush", "layer": 2}
			e["out"], e["msg"] = guard(func() { p.layers[1].(*tree.OverlayStore).Flush() })
			fs.writes = 0
			if !fs.fired {
				if !p.finish(c, e) {
					return
				}
				break
			}
			e["ev"], e["failed"] = "partial", e["out"]
			e["out"] = "ok"
			if !p.finish(c, e) {
				return
			}
			if c.one(3) { // the overlay is still in use
				if !p.write(c, 2+c.Intn(layers-1), 1+c.Intn(n), string(rune('a'+c.Intn(3)))) {
					return
				}
			}
			if c.one(4) {
				if !p.flush(c, 2) {
					return
				}
				break
			}
		}
	}
}
