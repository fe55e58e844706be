package main

import (
	"bytes"
	"reflect"

	"terorie.dev/nimiq/beserial"
)

func init() {
	families["C16"] = caseEncode
	families["C17"] = caseDecode
	families["C18"] = caseSize
}

// encodeEvent encodes the value p points to and decodes the result again.
func encodeEvent(c *Ctx, p reflect.Value) Event {
	prefix := c.bytes(c.Intn(4))
	buf := make([]byte, len(prefix), len(prefix)+c.Intn(3)*7)
	copy(buf, prefix)
	if len(prefix) == 0 && c.one(2) {
		buf = nil
	}
	e := Event{"pre": hx(prefix), "v": projV(p.Elem())}
	var out []byte
	e["out"], e["msg"] = try(func() (err error) { out, err = beserial.Marshal(buf, p.Interface()); return })
	disturb()
	e["b"] = hx(out)
	if !bytes.Equal(buf, prefix) {
		e["pre"] = hx(buf) + "altered"
	}
	if e["out"] == "ok" && len(out) >= len(prefix) {
		q := reflect.New(p.Type().Elem())
		n := 0
		body := out[len(prefix):]
		e["dout"], e["dmsg"] = try(func() (err error) { n, err = beserial.Unmarshal(body, q.Interface()); return })
		disturb()
		e["dn"] = n
		if e["dout"] == "ok" {
			scribble(body)
			e["dv"] = projV(q.Elem())
		}
	}
	return e
}

// scribble overwrites a buffer that has been decoded; the value must not notice.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

func sizeEvent(p reflect.Value) Event {
	e := Event{"v": projV(p.Elem())}
	n := 0
	e["out"], e["msg"] = try(func() (err error) { n, err = beserial.Size(p.Interface()); return })
	e["n"] = n
	return e
}

func caseEncode(c *Ctx) {
	if c.Index%160 == 7 {
		g, p := c.longStruct()
		e := encodeEvent(c, p)
		e["ev"] = "enc"
		e["s"] = g.schema
		c.Emit(e)
		return
	}
	g := c.drawType()
	for i := 0; i < 3; i++ {
		p := reflect.New(g.typ)
		if i > 0 && c.one(6) { // another of the name
			g = twins[c.Intn(len(twins))]
			p = reflect.New(g.typ)
		}
		c.fill(p.Elem(), true)
		e := encodeEvent(c, p)
		e["ev"] = "enc"
		e["s"] = g.schema
		c.Emit(e)
	}
}

func caseSize(c *Ctx) {
	if c.Index%160 == 7 {
		g, p := c.longStruct()
		e := sizeEvent(p)
		e["ev"] = "size"
		e["s"] = g.schema
		c.Emit(e)
		return
	}
	g := c.drawType()
	for i := 0; i < 3; i++ {
		p := reflect.New(g.typ)
		if i > 0 && c.one(6) { // another of the name
			g = twins[c.Intn(len(twins))]
			p = reflect.New(g.typ)
		}
		c.fill(p.Elem(), true)
		e := sizeEvent(p)
		e["ev"] = "size"
		e["s"] = g.schema
		c.Emit(e)
	}
}

// mutate damages an encoding.
func (c *Ctx) mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 0; k < 1+c.Intn(2); k++ {
		switch c.Intn(7) {
		case 0: // truncate
			b = b[:c.Intn(len(b)+1)]
		case 1: // extend
			b = append(b, c.bytes(1+c.Intn(5))...)
		case 2: // flip a bit
			if len(b) > 0 {
				b[c.Intn(len(b))] ^= 1 << uint(c.Intn(8))
			}
		case 3: // overwrite with an extreme
			if len(b) > 0 {
				i := c.Intn(len(b))
				for j := 0; j < 8 && i+j < len(b); j++ {
					if j > 0 && c.one(2) {
						break
					}
					b[i+j] = []byte{0xff, 0x00, 0x80, 0x7f}[c.Intn(4)]
				}
			}
		case 4: // insert
			i := c.Intn(len(b) + 1)
			b = append(b[:i:i], append(c.bytes(1+c.Intn(3)), b[i:]...)...)
		case 5: // delete
			if len(b) > 0 {
				i := c.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 6: // overwrite
			if len(b) > 0 {
				b[c.Intn(len(b))] = byte(c.u64())
			}
		}
	}
	return b
}

// decodeEvent decodes in into a fresh (or, with dirty, used) value of the type.
func decodeEvent(c *Ctx, typ reflect.Type, in []byte, dirty bool) Event {
	e := Event{"in": hx(in), "dirty": dirty}
	mk := func() reflect.Value {
		p := reflect.New(typ)
		if dirty {
			c.fill(p.Elem(), false)
		}
		return p
	}
	p := mk()
	n := 0
	arg := append([]byte{}, in...)
	kb := allocated(func() {
		e["out"], e["msg"] = try(func() (err error) { n, err = beserial.Unmarshal(arg, p.Interface()); return })
	})
	disturb()
	e["n"], e["kb"] = n, c.alone(kb)
	if !bytes.Equal(arg, in) {
		e["in"] = "altered"
	}
	scribble(arg)
	if e["out"] == "ok" {
		e["v"] = projV(p.Elem())
		var re []byte
		e["reout"], _ = try(func() (err error) { re, err = beserial.Marshal(nil, p.Interface()); return })
		disturb()
		e["re"] = hx(re)
	}
	q := mk()
	e["full"], e["fullmsg"] = try(func() error { return beserial.UnmarshalFull(in, q.Interface()) })
	return e
}

func caseDecode(c *Ctx) {
	if c.Index%320 == 7 {
		g, p := c.longStruct()
		var in []byte
		_, _ = guard(func() { in, _ = beserial.Marshal(nil, p.Interface()) })
		switch c.Intn(4) {
		case 0:
			in = c.mutate(in)
		case 1:
			in = append(in, c.bytes(1+c.Intn(5))...)
		}
		e := decodeEvent(c, g.typ, in, c.one(3))
		e["ev"] = "dec"
		e["s"] = g.schema
		c.Emit(e)
		return
	}
	g := c.drawType()
	// A valid encoding, without the help of the code under test where it refuses.
	p := reflect.New(g.typ)
	c.fill(p.Elem(), false)
	var valid []byte
	_, _ = guard(func() { valid, _ = beserial.Marshal(nil, p.Interface()) })
	for i := 0; i < 6; i++ {
		in := valid
		switch {
		case i == 0:
		case c.one(4):
			in = c.bytes(c.Intn(24))
		default:
			in = c.mutate(valid)
		}
		e := decodeEvent(c, g.typ, in, c.one(3))
		e["ev"] = "dec"
		e["s"] = g.schema
		c.Emit(e)
	}
}
