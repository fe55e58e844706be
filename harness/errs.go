package main

import (
	"errors"
	"reflect"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
)

func init() {
	families["C41"] = caseErrors
	families["C41w"] = caseWireErrors
	families["C41m"] = caseMessageErrors
}

// why records which of the documented errors an error is.
func why(err error) list {
	out := list{}
	if err == nil {
		return out
	}
	_, _ = guard(func() {
		if errors.Is(err, beserial.ErrUnexpectedEOF) {
			out = append(out, "eof")
		}
		if errors.Is(err, beserial.ErrNoLenTag) {
			out = append(out, "notag")
		}
		if errors.Is(err, beserial.ErrNonOptionalNil) {
			out = append(out, "nil")
		}
		var inv *beserial.InvalidUnmarshalError
		if errors.As(err, &inv) {
			out = append(out, "arg")
		}
		var unk wire.UnknownMessageError
		if errors.As(err, &unk) {
			out = append(out, "unknown")
		}
	})
	return out
}

func (c *Ctx) refusal(e Event, typ reflect.Type, in []byte) {
	p, q := reflect.New(typ), reflect.New(typ)
	if c.one(3) {
		c.fill(p.Elem(), false)
	}
	var err, ferr error
	n := 0
	e["ev"], e["in"] = "refusal", hx(in)
	e["out"], e["msg"] = try(func() error { n, err = beserial.Unmarshal(in, p.Interface()); return err })
	e["full"], _ = try(func() error { ferr = beserial.UnmarshalFull(in, q.Interface()); return ferr })
	e["n"], e["why"], e["fullwhy"] = n, why(err), why(ferr)
	c.Emit(e)
}

func (c *Ctx) unencodable(e Event, p reflect.Value) []byte {
	var err error
	var out []byte
	e["ev"], e["v"] = "unenc", projV(p.Elem())
	e["out"], e["msg"] = try(func() error { out, err = beserial.Marshal(nil, p.Interface()); return err })
	e["why"] = why(err)
	c.Emit(e)
	return out
}

// odd finds the prefixes of an encoding that are not said to be incomplete.
func odd(valid []byte, decode func([]byte) error) [][]byte {
	var ins [][]byte
	run := 0 // length of the run of such prefixes
	if len(valid) > 4096 {
		valid = valid[:4096]
	}
	for k := range valid {
		var err error
		if o, _ := try(func() error { err = decode(valid[:k]); return err }); o == "err" && errors.Is(err, beserial.ErrUnexpectedEOF) {
			run = 0
			continue
		}
		switch run++; {
		case run > 2: // only the first and the last one of a run
			ins[len(ins)-1] = valid[:k]
		default:
			ins = append(ins, valid[:k])
		}
	}
	if len(ins) > 12 {
		ins = ins[len(ins)-12:]
	}
	return ins
}

// around gives inputs around a valid encoding: some of its prefixes, then damaged ones.
func (c *Ctx) around(valid []byte, n int) [][]byte {
	ins := [][]byte{valid}
	for i := 0; i < n; i++ {
		switch {
		case i%2 == 0 && len(valid) > 0:
			k := c.Intn(len(valid))
			if c.one(3) {
				k = len(valid) - 1 - c.Intn(3)
				if k < 0 {
					k = 0
				}
			}
			ins = append(ins, valid[:k])
		case c.one(4):
			more := c.bytes(1 + c.Intn(4))
			if len(valid) < 600 && c.one(3) {
				more = make([]byte, 256)
				if c.one(20) {
					more = make([]byte, 1<<16)
				}
			}
			ins = append(ins, append(append([]byte{}, valid...), more...))
		case c.one(4):
			ins = append(ins, c.bytes(c.Intn(24)))
		default:
			b := c.mutate(valid)
			if len(b) > 0 && c.one(3) {
				b = b[:c.Intn(len(b))]
			}
			ins = append(ins, b)
		}
	}
	return ins
}

func caseErrors(c *Ctx) {
	if c.Index%20 == 3 {
		c.badArguments()
	}
	g := c.drawType()
	p := reflect.New(g.typ)
	c.fill(p.Elem(), true)
	c.unencodable(Event{"s": g.schema}, p)
	c.fill(p.Elem(), false)
	valid := c.unencodable(Event{"s": g.schema}, p)
	ins := odd(valid, func(b []byte) error { _, err := beserial.Unmarshal(b, reflect.New(g.typ).Interface()); return err })
	for _, in := range append(c.around(valid, 6), ins...) {
		c.refusal(Event{"s": g.schema}, g.typ, in)
	}
}

func caseWireErrors(c *Ctx) {
	o := chainObjects[c.Index%len(chainObjects)]
	p := reflect.New(o.typ)
	c.fill(p.Elem(), false)
	valid := c.unencodable(Event{"ty": o.name}, p)
	ins := odd(valid, func(b []byte) error { _, err := beserial.Unmarshal(b, reflect.New(o.typ).Interface()); return err })
	for _, in := range append(c.around(valid, 7), ins...) {
		c.refusal(Event{"ty": o.name}, o.typ, in)
	}
}

// badArguments calls the codec with what is no pointer to a value.
func (c *Ctx) badArguments() {
	g := c.drawType()
	val := reflect.New(g.typ).Elem()
	args := []interface{}{nil, val.Interface(), reflect.Zero(reflect.PtrTo(g.typ)).Interface(), uint8(3), "text", []byte{1, 2},
		(*wire.Block)(nil), wire.Block{}, map[string]int(nil), func() {}, error(nil), (*beserial.Unmarshaler)(nil)}
	in := c.bytes(c.Intn(9))
	for _, a := range args {
		for _, fn := range []string{"Unmarshal", "UnmarshalFull", "Size", "Marshal"} {
			a := a
			n := 0
			var err error
			e := Event{"ev": "arg", "fn": fn}
			e["out"], e["msg"] = try(func() error {
				switch fn {
				case "Unmarshal":
					n, err = beserial.Unmarshal(in, a)
				case "UnmarshalFull":
					err = beserial.UnmarshalFull(in, a)
				case "Size":
					n, err = beserial.Size(a)
				case "Marshal":
					_, err = beserial.Marshal(nil, a)
				}
				return err
			})
			e["n"], e["why"], e["same"] = n, why(err), true
			var inv *beserial.InvalidUnmarshalError
			if err != nil && errors.As(err, &inv) {
				e["same"] = inv.Type == reflect.TypeOf(a)
			}
			c.Emit(e)
		}
	}
}

// caseMessageErrors: payloads of every kind cut short and damaged, and types nobody knows.
func caseMessageErrors(c *Ctx) {
	t := messageTypes[c.Index%len(messageTypes)]
	m := c.drawMessage(t)
	var payload []byte
	_, _ = guard(func() {
		if b, err := wire.MarshalMessage(m); err == nil && len(b) >= 8 {
			payload = b[8:]
		}
	})
	ins := c.around(payload, 8)
	n := len(ins)
	ins = append(ins, odd(payload, func(b []byte) error { _, err := wire.UnmarshalMessage(t, b); return err })...)
	for i, in := range ins {
		as := t
		if i%4 == 3 && i < n {
			as = uint64(c.Intn(100))
			switch c.Intn(4) {
			case 0:
				as = c.u64()
			case 1:
				as = t + 1<<uint(8*(1+c.Intn(7)))
			}
		}
		e := Event{"ev": "payload", "ty": hu(as), "in": hx(in), "named": ""}
		var err error
		e["out"], e["msg"] = try(func() error { _, err = wire.UnmarshalMessage(as, in); return err })
		e["why"] = why(err)
		var unk wire.UnknownMessageError
		if err != nil && errors.As(err, &unk) {
			e["named"] = hu(uint64(unk))
		}
		c.Emit(e)
	}
}
