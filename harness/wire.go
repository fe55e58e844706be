package main

import (
	"bytes"
	"encoding/hex"
	"net"
	"reflect"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
)

func init() {
	families["C19"] = caseChainObject
	families["C20"] = caseInterlink
	families["C21"] = caseSigner
	families["C22"] = caseMessage
	families["C16w"] = caseChainObject
}

type named struct {
	name string
	typ  reflect.Type
}

func nm(name string, v interface{}) named { return named{name, reflect.TypeOf(v)} }

var chainObjects = []named{
	nm("header", wire.BlockHeader{}), nm("body", wire.BlockBody{}), nm("block", wire.Block{}), nm("block", wire.Block{}),
	nm("interlink", wire.BlockInterlink{}), nm("basictx", wire.BasicTx{}), nm("exttx", wire.ExtendedTx{}),
	nm("txcontent", wire.TxContent{}), nm("wraptx", wire.WrapTx{}), nm("wraptx", wire.WrapTx{}),
	nm("basic", wire.BasicAccount{}), nm("vesting", wire.VestingAccount{}), nm("htlc", wire.HTLCAccount{}),
	nm("wrapaccount", wire.WrapAccount{}), nm("wrapaccount", wire.WrapAccount{}), nm("pruned", wire.AccountPruned{}),
	nm("hash", wire.Hash{}), nm("sigproof", wire.SignatureProof{}), nm("mpath", wire.MerklePath{}), nm("bitset", wire.BitSet{}),
	nm("peeraddr", wire.PeerAddress{}), nm("netaddr", wire.NetAddress{}), nm("staking", wire.StakingTxData{}),
}

// caseChainObject: one object of each kind in turn; encoding, size, decoding of its bytes, of
// truncations, of wrong type prefixes and of damaged bytes.
func caseChainObject(c *Ctx) {
	o := chainObjects[c.Index%len(chainObjects)]
	p := reflect.New(o.typ)
	c.fill(p.Elem(), false)
	if c.one(3) {
		// extremes in every field
		c.extreme(p.Elem())
	}
	prefix := c.one(2)
	long := (c.Index/len(chainObjects))%40 == 3
	if long {
		c.lengthen(p)
	}
	e := encodeEvent(c, p)
	e["ev"], e["ty"] = "enc", o.name
	c.Emit(e)
	e = sizeEvent(p)
	e["ev"], e["ty"] = "size", o.name
	c.Emit(e)
	var valid []byte
	_, _ = guard(func() { valid, _ = beserial.Marshal(nil, p.Interface()) })
	n := 5
	if c.thorough() {
		n = 12
	}
	if long {
		n = 2
	}
	for i := 0; i < n; i++ {
		in := append([]byte{}, valid...)
		switch {
		case i == 0:
		case i == 1 && len(in) > 0: // truncation
			in = in[:c.Intn(len(in))]
		case i == 2 && len(in) > 0: // type prefix
			in[0] = byte(c.Intn(5))
			if prefix {
				in[0] = c.u8()
			}
		case i == 3:
			in = c.bytes(c.Intn(250))
			if len(in) > 0 && c.one(2) {
				in[0] = byte(c.Intn(4))
			}
		default:
			in = c.mutate(valid)
		}
		e := decodeEvent(c, o.typ, in, c.one(3) && o.name != "interlink")
		e["ev"], e["ty"] = "dec", o.name
		c.Emit(e)
	}
}

// extreme sets all plain number and byte array fields to distinct or extreme values.
func (c *Ctx) extreme(v reflect.Value) {
	switch v.Interface().(type) {
	case wire.BitSet, wire.BlockInterlink, wire.MerklePath, wire.NetAddress, wire.PeerAddress, wire.WrapTx, wire.WrapAccount:
		return
	}
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(^uint64(0) >> uint(64-v.Type().Bits()))
		if c.one(2) {
			v.SetUint(1 << uint(c.Intn(v.Type().Bits())))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c.extreme(v.Field(i))
		}
	}
}

// caseInterlink: interlinks of every length and pattern, with any padding bits and truncation.
func caseInterlink(c *Ctx) {
	for k := 0; k < 2; k++ {
		n := (c.Index*2 + k) % 256
		il := c.interlink(n)
		switch c.Intn(4) { // extreme patterns
		case 0:
			il = c.patternInterlink(n, 0xff)
		case 1:
			il = c.patternInterlink(n, 0x00)
		}
		var prev [32]byte
		if c.one(2) {
			prev = il.PrevHash
			c.Read(prev[:])
		}
		in := append([]byte{byte(n)}, il.Repeats.Bits...)
		for _, h := range il.Compressed {
			in = append(in, h[:]...)
		}
		switch c.Intn(8) {
		case 0:
			in = in[:c.Intn(len(in))]
		case 1:
			in = append(in, c.bytes(c.Intn(70))...)
		case 2:
			if len(in) > 1 {
				in[1+c.Intn((n+7)/8+1)%(len(in)-1)] ^= 1 << uint(c.Intn(8))
			}
		}
		// decode
		e := Event{"ev": "idec", "in": hx(in), "prev": hx(prev[:]), "dirty": c.one(3)}
		var got wire.BlockInterlink
		if e["dirty"].(bool) {
			got = c.interlink(c.Intn(40))
		}
		got.PrevHash = prev
		used := 0
		direct := c.one(2)
		e["out"], e["msg"] = try(func() (err error) {
			if direct {
				used, err = got.UnmarshalBESerial(in)
			} else {
				used, err = beserial.Unmarshal(in, &got)
			}
			return
		})
		disturb()
		e["n"] = used
		if e["out"] == "ok" {
			e["v"] = proj(got)
			var re []byte
			e["reout"], _ = try(func() (err error) { re, err = beserial.Marshal(nil, &got); return })
			disturb()
			e["re"] = hx(re)
			size := 0
			e["sizeout"], _ = try(func() (err error) { size, err = beserial.Size(&got); return })
			e["size"] = size
		}
		c.Emit(e)
		// encode an interlink built by hand
		p := reflect.ValueOf(&il)
		ee := encodeEventPrev(c, p, il.PrevHash)
		ee["ev"], ee["ty"] = "enc", "interlink"
		c.Emit(ee)
	}
}

func encodeEventPrev(c *Ctx, p reflect.Value, prev [32]byte) Event {
	e := Event{"pre": "", "v": projV(p.Elem()), "prev": hx(prev[:])}
	var out []byte
	e["out"], e["msg"] = try(func() (err error) { out, err = beserial.Marshal(nil, p.Interface()); return })
	disturb()
	e["b"] = hx(out)
	if e["out"] == "ok" {
		var q wire.BlockInterlink
		q.PrevHash = prev
		n := 0
		e["dout"], e["dmsg"] = try(func() (err error) { n, err = beserial.Unmarshal(out, &q); return })
		disturb()
		e["dn"] = n
		if e["dout"] == "ok" {
			scribble(out)
			e["dv"] = proj(q)
		}
	}
	return e
}

func (c *Ctx) patternInterlink(n int, pat byte) wire.BlockInterlink {
	bits := make([]byte, (n+7)/8)
	for i := range bits {
		bits[i] = pat
	}
	// padding bits and a few flips
	for k := 0; k < c.Intn(3); k++ {
		if len(bits) > 0 {
			bits[c.Intn(len(bits))] ^= 1 << uint(c.Intn(8))
		}
	}
	if len(bits) > 0 && c.one(2) {
		bits[len(bits)-1] ^= byte(c.u64())
	}
	il := wire.BlockInterlink{Repeats: wire.BitSet{Len: uint8(n), Bits: bits}}
	zeros := 0
	for i := 0; i < n; i++ {
		if bits[i/8]>>(7-uint(i%8))&1 == 0 {
			zeros++
		}
	}
	il.Compressed = make([][32]byte, zeros)
	for i := range il.Compressed {
		c.Read(il.Compressed[i][:])
	}
	c.Read(il.PrevHash[:])
	il.Hashes = make([]*[32]byte, n)
	last, k := &il.PrevHash, 0
	for i := 0; i < n; i++ {
		if bits[i/8]>>(7-uint(i%8))&1 == 0 {
			last = &il.Compressed[k]
			k++
		}
		il.Hashes[i] = last
	}
	return il
}

// caseSigner: signer addresses of proofs with paths of every length.
func caseSigner(c *Ctx) {
	n := c.Index % 256
	var p wire.SignatureProof
	c.Read(p.PublicKey[:])
	c.Read(p.Signature[:])
	p.MerklePath = c.merklePath(n)
	if n > 0 && c.one(4) { // repeated nodes
		for i := range p.MerklePath.Hashes {
			p.MerklePath.Hashes[i] = p.MerklePath.Hashes[0]
		}
	}
	leaf := c.bytes(c.Intn(70))
	if n > 0 && c.one(8) { // a node that is also on the way up
		k := c.Intn(n)
		part := wire.MerklePath{Branches: wire.BitSet{Len: uint8(k), Bits: p.MerklePath.Branches.Bits[:(k+7)/8]}, Hashes: p.MerklePath.Hashes[:k]}
		_, _ = try(func() error { p.MerklePath.Hashes[k] = part.ComputeRoot(leaf); return nil })
	}
	c.signer(&p, leaf)
	if n > 40 && !c.one(4) {
		return
	}
	for k := 0; k < 2; k++ { // another proof that agrees with it in part
		q := p
		q.MerklePath.Branches.Bits = append([]byte{}, p.MerklePath.Branches.Bits...)
		q.MerklePath.Hashes = append([][32]byte{}, p.MerklePath.Hashes...)
		switch c.Intn(5) {
		case 0:
			q.PublicKey[c.Intn(32)] ^= 1 << uint(c.Intn(8))
		case 1:
			if n > 0 {
				q.MerklePath.Hashes[c.Intn(n)][c.Intn(32)] ^= 1 << uint(c.Intn(8))
			}
		case 2:
			if n > 0 {
				i := c.Intn(n)
				q.MerklePath.Branches.Bits[i/8] ^= 0x80 >> uint(i%8)
			}
		case 3:
			m := 0
			if n > 0 {
				m = c.Intn(n)
			}
			q.MerklePath.Branches.Len = uint8(m)
			q.MerklePath.Branches.Bits = q.MerklePath.Branches.Bits[:(m+7)/8]
			q.MerklePath.Hashes = q.MerklePath.Hashes[:m]
		case 4:
			q.MerklePath = c.merklePath(n)
		}
		if len(leaf) > 0 && c.one(2) {
			leaf[c.Intn(len(leaf))] ^= 1 << uint(c.Intn(8))
		}
		c.signer(&q, leaf)
		if c.one(2) {
			c.signer(&p, leaf)
		}
	}
}

func (c *Ctx) signer(p *wire.SignatureProof, leaf []byte) {
	e := Event{"ev": "signer", "v": proj(*p)}
	var addr, pub, after [20]byte
	var root [32]byte
	e["out"], e["msg"] = guard(func() {
		addr = p.SignerAddress()
		pub = wire.PublicKeyToAddress(&p.PublicKey)
	})
	e["addr"], e["pub"] = hx(addr[:]), hx(pub[:])
	e["leaf"] = hx(leaf)
	e["rout"], _ = guard(func() { root = p.MerklePath.ComputeRoot(leaf) })
	e["root"] = hx(root[:])
	// after a round trip over the wire
	var buf []byte
	var q wire.SignatureProof
	e["enc"], _ = try(func() (err error) { buf, err = beserial.Marshal(nil, p); return })
	disturb()
	e["dec"], _ = try(func() error { return beserial.UnmarshalFull(buf, &q) })
	e["after"] = ""
	if e["dec"] == "ok" {
		e["dec"], _ = guard(func() { after = q.SignerAddress() })
		e["after"] = hx(after[:])
	}
	e["v2"] = proj(*p) // not altered
	c.Emit(e)
}

// messages, by type; the constructors give a fresh message of the kind.
func newMessage(t uint64) wire.Message {
	switch t {
	case 0:
		return new(wire.VersionMessage)
	case 1, 2, 3, 4:
		return &wire.InvMessage{MessageType: t}
	case 5:
		return new(wire.GetBlocksMessage)
	case 6:
		return new(wire.BlockMessage)
	case 7:
		return new(wire.HeaderMessage)
	case 8:
		return new(wire.TxMessage)
	case 9, 40, 60:
		return wire.EmptyMessage(t)
	case 20:
		return new(wire.AddrMessage)
	case 21:
		return new(wire.GetAddrMessage)
	case 22, 23:
		return &wire.BasePingMessage{Pong: t == 23}
	case 47:
		return new(wire.GetTxProofMessage)
	case 49:
		return new(wire.GetTxReceiptsMessage)
	case 61:
		return new(wire.HeadMessage)
	case 90:
		return new(wire.VerAckMessage)
	}
	return nil
}

var messageTypes = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 21, 22, 23, 40, 47, 49, 60, 61, 90}

func kindOf(m wire.Message) string {
	if m == nil {
		return "none"
	}
	return reflect.TypeOf(m).String()
}

func projMessage(m wire.Message) interface{} {
	v := reflect.ValueOf(m)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return projV(v)
}

// drawMessage makes a message of the type.
func (c *Ctx) drawMessage(t uint64) wire.Message {
	m := newMessage(t)
	if v := reflect.ValueOf(m); v.Kind() == reflect.Ptr {
		switch x := m.(type) {
		case *wire.InvMessage:
			x.Vectors = make([]wire.InvVector, c.msgLen())
			for i := range x.Vectors {
				x.Vectors[i].Type = uint32(c.Intn(4))
				if c.one(5) {
					x.Vectors[i].Type = c.u32()
				}
				c.Read(x.Vectors[i].Hash[:])
			}
		case *wire.BasePingMessage:
			x.Nonce = c.u32()
		default:
			c.fill(v.Elem(), false)
			if c.one(3) {
				c.extreme(v.Elem())
			}
		}
		if a, ok := m.(*wire.VersionMessage); ok && c.one(2) {
			a.PeerAddress = c.goodPeerAddress()
		}
		if a, ok := m.(*wire.AddrMessage); ok && c.one(2) {
			for i := range a.Addresses {
				a.Addresses[i] = c.goodPeerAddress()
			}
		}
	}
	return m
}

func caseMessage(c *Ctx) {
	t := messageTypes[c.Index%len(messageTypes)]
	m := c.drawMessage(t)
	long := (c.Index/len(messageTypes))%25 == 3
	if long {
		c.lengthen(reflect.ValueOf(m))
	}
	e := Event{"ev": "msg", "ty": hu(t), "kind": kindOf(m), "v": projMessage(m)}
	var out []byte
	e["out"], e["msg"] = try(func() (err error) { out, err = wire.MarshalMessage(m); return })
	disturb()
	e["b"] = hx(out)
	if e["out"] == "ok" && len(out) >= 8 {
		var d wire.Message
		arg := append([]byte{}, out[8:]...)
		e["dout"], e["dmsg"] = try(func() (err error) { d, err = wire.UnmarshalMessage(t, arg); return })
		disturb()
		scribble(arg)
		if e["dout"] == "ok" {
			e["dkind"], e["dty"], e["dv"] = kindOf(d), hu(d.Type()), projMessage(d)
		}
	}
	e["mty"] = hu(m.Type())
	c.Emit(e)
	// payloads: the valid one, truncated, extended, damaged, under this and other types
	var payload []byte
	if len(out) >= 8 {
		payload = out[8:]
	}
	for i := 0; i < 6; i++ {
		if long && i > 1 {
			break
		}
		in := append([]byte{}, payload...)
		as := t
		switch {
		case i == 0:
		case i == 1 && len(in) > 0:
			in = in[:c.Intn(len(in))]
		case i == 2:
			in = append(in, c.bytes(1+c.Intn(3))...)
		case i == 3:
			as = uint64(c.Intn(100))
			if c.one(3) {
				as = c.u64()
			}
		default:
			in = c.mutate(payload)
			if c.one(4) {
				in = c.bytes(c.Intn(100))
			}
		}
		c.Emit(c.decodeMessageEvent(as, in))
	}
}

// decodeMessageEvent decodes a payload and encodes the result again.
func (c *Ctx) decodeMessageEvent(t uint64, in []byte) Event {
	e := Event{"ev": "payload", "ty": hu(t), "in": hx(in), "kind": kindOf(newMessage(t))}
	var d wire.Message
	arg := append([]byte{}, in...)
	kb := allocated(func() {
		e["out"], e["msg"] = try(func() (err error) { d, err = wire.UnmarshalMessage(t, arg); return })
	})
	disturb()
	e["kb"] = c.alone(kb)
	if !bytes.Equal(arg, in) {
		e["in"] = "altered"
	}
	scribble(arg)
	if e["out"] == "ok" {
		e["dkind"], e["dty"], e["dv"] = kindOf(d), hu(d.Type()), projMessage(d)
		var re []byte
		e["reout"], _ = try(func() (err error) { re, err = wire.MarshalMessage(d); return })
		disturb()
		e["re"] = hex.EncodeToString(re)
	}
	return e
}

// lengthen makes the lists in an object long.
func (c *Ctx) lengthen(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			c.lengthen(v.Elem())
		}
	case reflect.Struct:
		switch v.Interface().(type) {
		case wire.BlockInterlink, wire.MerklePath, wire.BitSet, wire.NetAddress, wire.PeerAddress:
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				c.lengthen(v.Field(i))
			}
		}
	case reflect.Slice:
		n := []int{999, 1000, 1001, 1023, 1024, 2047, 4096, 5000}[c.Intn(8)]
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		if v.Type().Elem() == reflect.TypeOf(wire.PeerAddress{}) || v.Type().Elem().Size() > 60 {
			n = 255 + c.Intn(900)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			if e := s.Index(i); e.Type() == reflect.TypeOf(wire.PeerAddress{}) {
				e.Set(reflect.ValueOf(c.goodPeerAddress()))
			} else {
				c.fill(e, false)
			}
		}
		v.Set(s)
	}
}

func (c *Ctx) msgLen() int {
	switch c.Intn(8) {
	case 0:
		return 250 + c.Intn(10)
	case 1:
		return 0
	default:
		return c.Intn(6)
	}
}

// goodPeerAddress can be encoded.
func (c *Ctx) goodPeerAddress() wire.PeerAddress {
	pa := wire.PeerAddress{}
	c.fill(reflect.ValueOf(&pa.PeerAddressHeader).Elem(), false)
	pa.NetAddress = wire.NetAddress{Type: uint8(c.Intn(4))}
	switch pa.NetAddress.Type {
	case 0:
		pa.NetAddress.IP = net.IP(c.bytes(4))
	case 1:
		pa.NetAddress.IP = net.IP(c.bytes(16))
	}
	pa.Protocol = []uint8{0, 1, 2, 4}[c.Intn(4)]
	if pa.Protocol == 1 || pa.Protocol == 4 {
		srv := new(wire.PeerAddressSrv)
		c.fill(reflect.ValueOf(srv).Elem(), false)
		pa.Detail = srv
	}
	return pa
}
