//go:build go1.21

package main

import (
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

// nibbleType is implemented by the nibble paths of the wire and of the tree package.
type nibbleType[T any] interface {
	~[]byte
	ToKey() [20]byte
	Compress() []byte
	HexBytes() []byte
	String() string
	CommonPrefix(T) T
	PrefixOf(T) bool
}

func caseNibbles(c *Ctx) {
	if c.one(2) {
		nibbleCase[wire.Nibbles](c, wire.KeyToNibbles)
	} else {
		nibbleCase[tree.Nibbles](c, tree.KeyToNibbles)
	}
}

func nibbleCase[T nibbleType[T]](c *Ctx, split func(*[20]byte) T) {
	var key [20]byte
	key = c.address20()
	orig := key
	e := Event{"ev": "key", "key": hx(key[:])}
	var nbs T
	var back [20]byte
	e["out"], e["msg"] = guard(func() {
		nbs = split(&key)
		back = append(T{}, nbs...).ToKey()
	})
	disturb()
	e["nbs"], e["back"] = hx(nbs), hx(back[:])
	e["same"] = key == orig
	c.Emit(e)

	n := c.Intn(44)
	if c.one(3) {
		n = c.Intn(6)
	}
	p := T(c.path(n))
	var q T
	switch c.Intn(5) {
	case 0:
		q = T(c.path(c.Intn(44)))
	case 1: // extends p
		q = append(append(T{}, p...), c.path(c.Intn(5))...)
	case 2: // prefix of p
		q = append(T{}, p[:c.Intn(len(p)+1)]...)
	default: // branches off
		k := c.Intn(len(p) + 1)
		q = append(append(T{}, p[:k]...), c.path(c.Intn(5))...)
	}
	if c.one(30) {
		p = nil
	}
	if c.one(30) {
		q = nil
	}
	p0, q0 := hx(p), hx(q)
	e = Event{"ev": "paths"}
	var packed, hexform []byte
	var str string
	var common, common2 T
	var pre, pre2 bool
	e["out"], e["msg"] = guard(func() {
		packed = p.Compress()
		hexform = p.HexBytes()
		str = p.String()
		common, common2 = p.CommonPrefix(q), q.CommonPrefix(p)
		pre, pre2 = p.PrefixOf(q), q.PrefixOf(p)
	})
	disturb()
	e["p"], e["q"] = hx(p), hx(q)
	e["same"] = p0 == hx(p) && q0 == hx(q)
	e["packed"], e["hex"], e["str"] = hx(packed), hx(hexform), hx([]byte(str))
	// a path of any length as a key
	whole := p
	if c.one(2) {
		whole = T(c.path(38 + c.Intn(6)))
	}
	var joined [20]byte
	e["whole"] = hx(whole)
	e["join"], _ = guard(func() { joined = whole.ToKey() })
	e["joined"] = hx(joined[:])
	e["common"], e["common2"], e["pre"], e["pre2"] = hx(common), hx(common2), pre, pre2
	c.Emit(e)
}
