package main

import (
	"crypto/ed25519"
	"math/big"
	"reflect"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wallet"
	"terorie.dev/nimiq/wire"
)

func init() {
	families["wallet"] = caseWallet
	families["peers"] = casePeers
}

func projTx(tx wire.Tx) interface{} { return proj(wire.WrapTx{Tx: tx}).(object)["Tx"] }

// view records what the code says about a transaction.
func (c *Ctx) view(tx wire.Tx, e Event) {
	e["ev"], e["tx"] = "view", projTx(tx)
	var content, extContent wire.TxContent
	var ext wire.ExtendedTx
	var bytes []byte
	var from, to *[20]byte
	var fromType, toType uint8
	var value, fee uint64
	e["out"], e["msg"] = try(func() (err error) {
		content = tx.AsTxContent()
		ext = tx.AsExtendedTx()
		extContent = ext.AsTxContent()
		bytes, err = beserial.Marshal(nil, &content)
		from, fromType = tx.GetSender()
		to, toType = tx.GetRecipient()
		value, fee = tx.Amount()
		return
	})
	disturb()
	if e["out"] == "ok" {
		e["content"], e["bytes"], e["ext"], e["extcontent"] = proj(content), hx(bytes), proj(ext), proj(extContent)
		e["from"], e["to"], e["fromtype"], e["totype"] = hx(from[:]), hx(to[:]), hu(uint64(fromType)), hu(uint64(toType))
		e["value"], e["fee"] = hu(value), hu(fee)
		e["after"] = projTx(tx)
	}
	c.Emit(e)
}

// alter changes one bit of one content field (or of key and signature).
func (c *Ctx) alter(tx wire.Tx) wire.Tx {
	v := reflect.New(reflect.TypeOf(tx).Elem())
	v.Elem().Set(reflect.ValueOf(tx).Elem())
	f := v.Elem().Field(c.Intn(v.Elem().NumField()))
	c.flip(f)
	return v.Interface().(wire.Tx)
}

func (c *Ctx) flip(f reflect.Value) {
	switch f.Kind() {
	case reflect.Array:
		x := f.Index(c.Intn(f.Len()))
		x.SetUint(x.Uint() ^ 1<<uint(c.Intn(8)))
	case reflect.Slice:
		b := append([]byte{}, f.Bytes()...)
		switch {
		case len(b) == 0:
			b = append(b, c.u8())
		case c.one(4):
			b = b[:len(b)-1]
		case c.one(4):
			b = append(b, 0)
		default:
			b[c.Intn(len(b))] ^= 1 << uint(c.Intn(8))
		}
		f.SetBytes(b)
	default:
		f.SetUint(f.Uint() ^ 1<<uint(c.Intn(f.Type().Bits())))
	}
}

func (c *Ctx) seed() []byte {
	s := c.bytes(32)
	switch c.Intn(12) {
	case 0:
		s = make([]byte, 32)
	case 1:
		for i := range s {
			s[i] = 0xff
		}
	case 2:
		s[0] = 0
	}
	return s
}

func caseWallet(c *Ctx) {
	var w *wallet.Basic
	seed := c.seed()
	if c.one(10) {
		w = wallet.GenerateBasic()
		c.Emit(Event{"ev": "wallet", "seed": "", "pub": hx(w.PublicKey), "addr": addrOf(w)})
	} else {
		in := append([]byte{}, seed...)
		w = wallet.DeriveBasic(in)
		for i := range in { // the wallet does not depend on the caller's buffer
			in[i] = 0
		}
		c.Emit(Event{"ev": "wallet", "seed": hx(seed), "pub": hx(w.PublicKey), "addr": addrOf(w)})
	}
	for i := 0; i < 4; i++ {
		var tx wire.Tx
		if c.one(2) {
			t := new(wire.BasicTx)
			c.fill(reflect.ValueOf(t).Elem(), false)
			if c.one(4) {
				c.extreme(reflect.ValueOf(t).Elem())
			}
			switch c.Intn(8) {
			case 0:
			case 1: // nearly the own key
				copy(t.SenderPubKey[:], w.PublicKey)
				t.SenderPubKey[c.Intn(32)] ^= 1 << uint(c.Intn(8))
			case 2:
				t.SenderPubKey = [32]byte{}
				if c.one(3) {
					for i := range t.SenderPubKey {
						t.SenderPubKey[i] = 0xff
					}
				}
			default:
				copy(t.SenderPubKey[:], w.PublicKey)
			}
			if c.one(3) { // signed before
				_, _ = try(func() error { return w.SignBasicTx(t) })
				if c.one(2) {
					t.Value++
				}
			}
			tx = t
		} else {
			t := new(wire.ExtendedTx)
			c.fill(reflect.ValueOf(t).Elem(), false)
			if c.one(4) {
				c.extreme(reflect.ValueOf(t).Elem())
			}
			if c.one(2) {
				t.Sender = w.GetAddress()
			}
			if c.one(6) {
				t.Data = c.bytes([]int{255, 256, 257, 1000, 5000}[c.Intn(5)])
			}
			if i == 0 && c.Index%12 == 5 {
				t.Data = c.bytes([]int{1 << 14, 1<<15 - 1, 1 << 15, 1<<15 + 1, 40000, 60000, 65533, 65534}[c.Intn(8)])
			}
			if c.one(3) {
				_, _ = try(func() error { return w.SignExtendedTx(t) })
				if c.one(2) {
					t.Fee++
				}
			}
			tx = t
		}
		e := Event{"ev": "sign", "tx": projTx(tx)}
		e["out"], e["msg"] = try(func() error {
			switch t := tx.(type) {
			case *wire.BasicTx:
				return w.SignBasicTx(t)
			case *wire.ExtendedTx:
				return w.SignExtendedTx(t)
			}
			return nil
		})
		disturb()
		e["after"], e["pub"], e["addr"] = projTx(tx), hx(w.PublicKey), addrOf(w)
		c.Emit(e)
		if e["out"] != "ok" {
			c.view(tx, Event{})
			continue
		}
		c.view(tx, Event{"holds": true})
		ext := tx.AsExtendedTx()
		c.view(&ext, Event{"holds": true})
		for k := 0; k < 4; k++ {
			c.view(c.alter(tx), Event{"holds": false})
		}
		x := c.alter(&ext)
		c.view(x, Event{"holds": false})
	}
}

func addrOf(w *wallet.Basic) string {
	a := w.GetAddress()
	return hx(a[:])
}

func casePeers(c *Ctx) {
	seed := c.seed()
	key := ed25519.NewKeyFromSeed(seed)
	pub := key.Public().(ed25519.PublicKey)
	for i := 0; i < 3; i++ {
		p := new(wire.PeerAddress)
		c.fill(reflect.ValueOf(p).Elem(), false)
		switch c.Intn(4) {
		case 0:
			p.Services, p.Timestamp = c.u32(), c.u64()
		case 1:
			p.Services, p.Timestamp = ^uint32(0), ^uint64(0)
		}
		if c.one(4) {
			p.Protocol = c.u8()
		}
		if c.one(4) {
			p.Timestamp = 0
		}
		if c.one(4) {
			p.Services = 0
		}
		if c.one(8) {
			c.pverify(p)
		}
		priv := append(ed25519.PrivateKey{}, key...)
		e := Event{"ev": "psign", "pub": hx(pub), "before": proj(*p)}
		e["out"], e["msg"] = guard(func() { p.Sign(priv) })
		for i := range priv {
			priv[i] = 0
		}
		e["after"] = proj(*p)
		c.Emit(e)
		if e["out"] != "ok" {
			continue
		}
		c.pverify(p)
		for k := 0; k < 13; k++ {
			q := *p
			switch k {
			case 0:
				q.Protocol ^= 1 << uint(c.Intn(8))
			case 1:
				q.Services ^= 1 << uint(c.Intn(32))
			case 2:
				q.Timestamp ^= 1 << uint(c.Intn(64))
			case 3:
				q.PublicKey[c.Intn(32)] ^= 1 << uint(c.Intn(8))
			case 4:
				q.Signature[c.Intn(32)] ^= 1 << uint(c.Intn(8))
			case 5:
				q.Signature[32+c.Intn(32)] ^= 1 << uint(c.Intn(8))
			case 6: // the other number that stands for the same scalar
				addOrder(q.Signature[32:])
			case 7: // not signed
				q.Distance ^= 1 << uint(c.Intn(8))
			case 8: // fields exchanged
				q.Services, q.Timestamp = uint32(p.Timestamp), uint64(p.Services)
			case 9: // left out
				q.Signature = [64]byte{}
			case 10:
				q.PublicKey = [32]byte{}
			case 11:
				q.Protocol, q.Services, q.Timestamp = 0, 0, 0
			case 12: // halves
				copy(q.Signature[c.Intn(2)*32:], make([]byte, 32))
			}
			c.pverify(&q)
		}
		var id wire.PeerID
		e = Event{"ev": "peerid", "key": hx(pub)}
		e["out"], e["msg"] = guard(func() { id = wire.GetPeerID(pub) })
		e["id"] = hx(id[:])
		c.Emit(e)
	}
}

func (c *Ctx) pverify(p *wire.PeerAddress) {
	e := Event{"ev": "pverify", "p": proj(*p), "valid": false}
	e["out"], e["msg"] = guard(func() { e["valid"] = p.VerifySignature() })
	e["after"] = proj(*p)
	c.Emit(e)
}

// addOrder adds the order of the Ed25519 group to a little-endian scalar.
func addOrder(s []byte) {
	l, _ := new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	be := make([]byte, 32)
	for i := range s {
		be[31-i] = s[i]
	}
	x := new(big.Int).Add(new(big.Int).SetBytes(be), l).Bytes()
	for i := range s {
		s[i] = 0
		if i < len(x) {
			s[i] = x[len(x)-1-i]
		}
	}
}
