package main

import (
	"crypto/sha256"
	"encoding/json"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

func init() {
	families["forks"] = caseForks
}

// view is a state that lies over another one's store (or the base).
type view struct {
	*ledger
	id     int
	parent *view
	over   *tree.OverlayStore
	nodes  string // what its store showed last
}

// fork opens a state over the store of v.
func (v *view) fork(id int) *view {
	l := *v.ledger
	o := &tree.OverlayStore{Lower: v.store.layers[0]}
	l.store = &layeredTree{paths: v.store.paths, keys: v.store.keys, bare: v.store.bare}
	l.store.add(o)
	l.acc = accounts.NewAccounts(l.store.trees[0])
	return &view{ledger: &l, id: id, parent: v, over: o}
}

func (v *view) dumpDigest() string {
	h := sha256.New()
	if o, msg := guard(func() { _ = json.NewEncoder(h).Encode(v.store.dump(0)) }); o != "ok" {
		return o + msg
	}
	return hx(h.Sum(nil))
}

// caseForks: states forked from states, blocks applied to them, flushed down or dropped.
func caseForks(c *Ctx) {
	base := &view{ledger: newLedger(c), id: 0}
	live := []*view{base}
	next := 1
	if c.one(2) {
		_, _ = guard(func() { base.acc.Tree.Hash() })
	}
	remember := func() {
		for _, v := range live {
			v.nodes = v.dumpDigest()
		}
	}
	report := func(e Event) bool {
		levels, fine := list{}, true
		for _, v := range live {
			leaves, ok := v.leaves()
			fine = fine && ok
			levels = append(levels, object{"id": v.id, "state": leaves, "same": v.dumpDigest() == v.nodes, "readable": ok})
		}
		e["levels"] = levels
		c.Emit(e)
		return fine
	}
	remember()
	if !report(Event{"ev": "open", "out": "ok"}) {
		return
	}
	children := func(v *view) (n int) {
		for _, x := range live {
			if x.parent == v {
				n++
			}
		}
		return
	}
	drop := func(v *view) {
		for i, x := range live {
			if x == v {
				live = append(live[:i:i], live[i+1:]...)
			}
		}
	}
	var blocks []*wire.Block
	steps := 7 + c.Intn(6)
	for s := 0; s < steps; s++ {
		v := live[c.Intn(len(live))]
		if c.one(2) { // one of the upper ones
			v = live[len(live)-1]
		}
		// the states know the same addresses
		for _, x := range live {
			for _, a := range x.all {
				v.know(a)
			}
		}
		var e Event
		switch k := c.Intn(12); {
		case k < 2 && len(live) < 4 || s == 0:
			n := v.fork(next)
			next++
			remember()
			n.nodes = v.nodes
			live = append(live, n)
			e = Event{"ev": "fork", "id": n.id, "from": v.id, "out": "ok"}
		case k < 8:
			if children(v) > 0 {
				continue
			}
			blk := v.block()
			if len(blocks) > 0 && c.one(4) { // one that was seen before
				blk = copyBlock(blocks[c.Intn(len(blocks))])
			}
			blocks = append(blocks, copyBlock(blk))
			e = v.describe("push", blk)
			remember()
			e["id"] = v.id
			e["out"], e["msg"] = try(func() error { return v.acc.Push(blk) })
		case k < 9:
			e = Event{"ev": "root", "id": v.id, "root": ""}
			remember()
			e["out"], e["msg"] = guard(func() {
				r := v.acc.Tree.Hash()
				e["root"] = hx(r[:])
			})
		case v.parent == nil || children(v) > 0:
			continue
		case k < 11:
			busy := false
			for _, x := range live {
				busy = busy || x.parent == v.parent && x != v && children(x) > 0
			}
			if busy {
				continue
			}
			for _, x := range append([]*view{}, live...) {
				if x.parent == v.parent && x != v {
					drop(x)
					remember()
					report(Event{"ev": "drop", "id": x.id, "out": "ok"})
				}
			}
			remember()
			e = Event{"ev": "flush", "id": v.id, "into": v.parent.id}
			e["out"], e["msg"] = guard(func() { v.over.Flush() })
		default:
			drop(v)
			remember()
			e = Event{"ev": "drop", "id": v.id, "out": "ok"}
		}
		if !report(e) {
			return
		}
	}
	// the roots in the end
	for _, v := range append([]*view{}, live...) {
		if len(live) > 2 && v.parent != nil && c.one(2) {
			continue
		}
		remember()
		e := Event{"ev": "root", "id": v.id, "root": ""}
		e["out"], e["msg"] = guard(func() {
			r := v.acc.Tree.Hash()
			e["root"] = hx(r[:])
		})
		if !report(e) {
			return
		}
	}
}
