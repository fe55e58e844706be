package main

import (
	"reflect"

	"terorie.dev/nimiq/wallet"
	"terorie.dev/nimiq/wire"
)

func init() {
	families["keys"] = caseKeys
	families["views"] = caseViews
}

// caseKeys makes wallets and asks them who they are, in several orders.
func caseKeys(c *Ctx) {
	var wallets []*wallet.Basic
	var seeds [][]byte
	n := 2 + c.Intn(3)
	for i := 0; i < n; i++ {
		var w *wallet.Basic
		seed := c.seed()
		if i > 0 && c.one(4) { // the same again
			seed = append([]byte{}, seeds[c.Intn(i)]...)
		}
		if i > 0 && c.one(4) && len(seeds[i-1]) > 0 { // nearly the same
			seed = append([]byte{}, seeds[i-1]...)
			seed[c.Intn(32)] ^= 1 << uint(c.Intn(8))
		}
		e := Event{"ev": "make", "id": i}
		if c.one(4) {
			seed = nil
			e["out"], e["msg"] = guard(func() { w = wallet.GenerateBasic() })
		} else if len(seed) == 0 {
			seed = c.bytes(32)
		}
		if seed != nil {
			// Part of a larger buffer, which is used for something else afterwards.
			before := c.Intn(3) * c.Intn(40)
			room := append(c.bytes(before), seed...)
			room = append(room, c.bytes(c.Intn(2)*c.Intn(200))...)
			copied := append([]byte{}, room...)
			in := room[before : before+32]
			e["out"], e["msg"] = guard(func() { w = wallet.DeriveBasic(in) })
			e["kept"] = hx(room) == hx(copied)
			for j := range room {
				room[j] = 0
			}
		} else {
			e["kept"] = true
		}
		if e["out"] == "ok" {
			e["seed"], e["priv"], e["pub"] = hx(seed), hx(w.PrivateKey), hx(w.PublicKey)
		}
		c.Emit(e)
		if e["out"] != "ok" {
			return
		}
		wallets, seeds = append(wallets, w), append(seeds, seed)
	}
	for i := 0; i < 8; i++ {
		j := c.Intn(n)
		w := wallets[j]
		e := Event{"ev": "ask", "id": j}
		switch c.Intn(3) {
		case 0:
			e["what"] = "address"
			e["out"], e["msg"] = guard(func() {
				a := w.GetAddress()
				e["r"] = hx(a[:])
				a[3] ^= 1
			})
		case 1:
			e["what"] = "key"
			e["out"], e["msg"] = guard(func() {
				p := w.GetPublicKey()
				e["r"] = hx(p[:])
				p[3] ^= 1
			})
		case 2: // signing says who signed, and always says the same
			t := new(wire.ExtendedTx)
			c.fill(reflect.ValueOf(t).Elem(), false)
			t2 := *t
			e["what"] = "sign"
			e["out"], e["msg"] = try(func() error {
				if err := w.SignExtendedTx(t); err != nil {
					return err
				}
				return w.SignExtendedTx(&t2)
			})
			e["r"], e["same"] = projTx(t), hx(t.Proof) == hx(t2.Proof)
		}
		c.Emit(e)
	}
}

// caseViews looks at transactions from all sides.
func caseViews(c *Ctx) {
	for i := 0; i < 4; i++ {
		var tx wire.Tx = new(wire.BasicTx)
		if c.one(2) {
			tx = new(wire.ExtendedTx)
		}
		v := reflect.ValueOf(tx).Elem()
		c.fill(v, false)
		if c.one(3) {
			c.extreme(v)
		}
		if t, ok := tx.(*wire.ExtendedTx); ok && c.one(6) {
			t.Data = c.bytes([]int{255, 256, 257, 1000, 65534}[c.Intn(5)])
		}
		if t, ok := tx.(*wire.ExtendedTx); ok && !c.one(3) {
			c.plausible(t)
		}
		for k := 0; k < 2; k++ {
			c.view(tx, Event{"type": int(tx.Type())})
			tx = c.alter(tx)
		}
	}
}

// plausible gives an extended transaction types, data and proof as they are used on the
// chain, which need not agree with its sender and recipient.
func (c *Ctx) plausible(t *wire.ExtendedTx) {
	t.SenderType, t.RecipientType, t.Flags = uint8(c.Intn(4)), uint8(c.Intn(4)), uint8(c.Intn(3))
	sig := func() []byte {
		var sp wire.SignatureProof
		c.fill(reflect.ValueOf(&sp.PublicKey).Elem(), false)
		c.fill(reflect.ValueOf(&sp.Signature).Elem(), false)
		if c.one(3) {
			sp.MerklePath = c.merklePath(c.Intn(4))
		}
		if c.one(3) {
			t.Sender = sp.SignerAddress()
		}
		return proofBytes(&sp)
	}
	switch c.Intn(6) {
	case 0, 1:
		t.Proof = sig()
	case 2: // hash revealed
		p := append([]byte{1, byte(c.Intn(4)), byte(c.Intn(4))}, c.bytes(64)...)
		t.Proof = append(p, sig()...)
	case 3: // both sign
		t.Proof = append(append([]byte{2}, sig()...), sig()...)
	case 4: // timed out
		t.Proof = append([]byte{3}, sig()...)
	case 5:
		t.Proof = c.bytes([]int{0, 1, 96, 97, 98, 129}[c.Intn(6)])
	}
	t.Data = c.bytes([]int{0, 1, 24, 36, 44, 78, 20, 64}[c.Intn(8)])
	if c.one(4) {
		t.Recipient = t.Sender
	}
}
