package main

import (
	"fmt"
	"net"
	"reflect"

	"terorie.dev/nimiq/wire"
)

// A gtype is a Go type with the schema the specification knows it by.
type gtype struct {
	typ    reflect.Type
	tag    string // struct tag the field needs
	schema object
	bad    bool // contains something that cannot be encoded
	zero   bool // its encoding may be empty
}

var uintKinds = []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0))}
var intKinds = []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0))}
var badKinds = []reflect.Type{reflect.TypeOf(int(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(map[string]uint8{}), reflect.TypeOf(float32(0)), reflect.TypeOf(uintptr(0))}

var hashSchema = object{"k": "struct", "f": list{list{"Algorithm", object{"k": "u", "n": 1}}, list{"Bytes", object{"k": "bytes", "n": 32}}}}

// genType draws a type; elem: it is the element of an array or slice (no tags possible).
func (c *Ctx) genType(depth int, elem bool) gtype {
	k := c.Intn(21)
	if k == 20 {
		k = 17
	}
	if depth <= 0 && k >= 13 {
		k = c.Intn(13)
	}
	switch {
	case k < 5:
		i := c.Intn(4)
		return gtype{typ: uintKinds[i], schema: object{"k": "u", "n": 1 << uint(i)}}
	case k < 8:
		i := c.Intn(4)
		return gtype{typ: intKinds[i], schema: object{"k": "i", "n": 1 << uint(i)}}
	case k == 8:
		return gtype{typ: reflect.TypeOf(false), schema: object{"k": "bool"}}
	case k == 9:
		n := c.Intn(5)
		if c.one(5) {
			n = []int{16, 20, 32, 64, 96, 127, 128, 255, 256, 300}[c.Intn(10)]
		}
		return gtype{typ: reflect.ArrayOf(n, uintKinds[0]), schema: object{"k": "bytes", "n": n}, zero: n == 0}
	case k == 10:
		switch c.Intn(6) {
		case 0:
			return gtype{typ: reflect.TypeOf(wire.Hash{}), schema: hashSchema}
		case 1:
			return gtype{typ: reflect.TypeOf(wire.BitSet{}), schema: object{"k": "bitset"}}
		case 2:
			return gtype{typ: reflect.TypeOf(wire.MerklePath{}), schema: object{"k": "mpath"}}
		case 3:
			return gtype{typ: reflect.TypeOf(wire.NetAddress{}), schema: object{"k": "netaddr"}}
		case 4:
			return gtype{typ: reflect.TypeOf(CustomByte(0)), schema: object{"k": "cbyte"}}
		default:
			return gtype{typ: typLe24, schema: object{"k": "le24"}}
		}
	case k == 11:
		if c.one(6) {
			return gtype{typ: badKinds[c.Intn(len(badKinds))], schema: object{"k": "bad"}, bad: true}
		}
		fallthrough
	case k == 12:
		lt, tag := c.lenTag(elem)
		typ := reflect.TypeOf("")
		if c.one(2) {
			typ = reflect.TypeOf([]byte{})
		}
		return gtype{typ: typ, tag: tag, schema: object{"k": "blob", "lt": lt}}
	case k < 15:
		n := c.Intn(4)
		if c.one(8) {
			n = 4 + c.Intn(40)
		}
		e := c.genType(depth-1, true)
		if e.typ.Kind() == reflect.Uint8 && e.schema["k"] == "u" {
			return gtype{typ: reflect.ArrayOf(n, e.typ), schema: object{"k": "bytes", "n": n}, zero: n == 0}
		}
		return gtype{typ: reflect.ArrayOf(n, e.typ), schema: object{"k": "arr", "n": n, "e": e.schema}, bad: e.bad && n > 0, zero: n == 0 || e.zero}
	case k < 17:
		lt, tag := c.lenTag(elem)
		e := c.genType(depth-1, true)
		for e.zero {
			e = c.genType(depth-1, true)
		}
		if e.typ.Kind() == reflect.Uint8 && e.schema["k"] == "u" {
			return gtype{typ: reflect.SliceOf(e.typ), tag: tag, schema: object{"k": "blob", "lt": lt}}
		}
		return gtype{typ: reflect.SliceOf(e.typ), tag: tag, schema: object{"k": "seq", "lt": lt, "e": e.schema}}
	case k == 17:
		opt := !elem && !c.one(4)
		e := c.genType(depth-1, elem)
		tag := e.tag
		if e.typ.Kind() == reflect.Ptr { // a pointer to a pointer: the tag is one for both
			if e.schema["opt"] == true {
				return gtype{typ: reflect.PtrTo(e.typ), tag: tag, schema: object{"k": "ptr", "opt": true, "e": e.schema}, bad: e.bad}
			}
			return gtype{typ: reflect.PtrTo(e.typ), tag: tag, schema: object{"k": "ptr", "opt": false, "e": e.schema}, bad: e.bad, zero: e.zero}
		}
		if opt {
			if tag == "" {
				tag = "optional"
			} else if c.one(2) {
				tag = "optional," + tag
			} else {
				tag = tag + ",optional"
			}
		}
		return gtype{typ: reflect.PtrTo(e.typ), tag: tag, schema: object{"k": "ptr", "opt": opt, "e": e.schema}, bad: e.bad, zero: e.zero && !opt}
	default:
		return c.genStruct(depth - 1)
	}
}

func (c *Ctx) lenTag(elem bool) (int, string) {
	if elem || c.one(25) {
		return 0, ""
	}
	i := c.Intn(4)
	return 1 << uint(i), fmt.Sprintf("len_tag=uint%d", 8<<uint(i))
}

func (c *Ctx) genStruct(depth int) gtype {
	n := c.Intn(5)
	if c.one(12) {
		n = 0
	}
	if c.one(15) {
		n = 5 + c.Intn(12)
	}
	var fields []reflect.StructField
	fs := list{}
	g := gtype{zero: true}
	for i := 0; i < n; i++ {
		e := c.genType(depth, false)
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: e.typ}
		if e.tag != "" {
			f.Tag = reflect.StructTag(fmt.Sprintf(`beserial:"%s"`, e.tag))
			if c.one(5) {
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"x" beserial:"%s"`, e.tag))
			}
		}
		fields = append(fields, f)
		fs = append(fs, list{f.Name, e.schema})
		g.bad = g.bad || e.bad
		g.zero = g.zero && e.zero
	}
	g.typ = reflect.StructOf(fields)
	g.schema = object{"k": "struct", "f": fs}
	return g
}

// blankable: the zero value has an encoding.
func blankable(t reflect.Type) bool {
	switch t {
	case reflect.TypeOf(wire.BitSet{}), reflect.TypeOf(wire.MerklePath{}), reflect.TypeOf(wire.BlockInterlink{}), reflect.TypeOf(wire.NetAddress{}),
		reflect.TypeOf(wire.PeerAddress{}), reflect.TypeOf(wire.WrapTx{}), reflect.TypeOf(wire.WrapAccount{}):
		return false
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !blankable(t.Field(i).Type) {
				return false
			}
		}
	case reflect.Array:
		return blankable(t.Elem())
	case reflect.Ptr, reflect.Interface:
		return false
	}
	return true
}

// fill sets v to a random value. big allows lengths at and above the length tags' limits.
func (c *Ctx) fill(v reflect.Value, big bool) {
	switch v.Type() {
	case typLe24:
		v.Set(reflect.ValueOf(Le24{N: uint32(c.u64()) & 0xffffff}))
		return
	}
	switch v.Interface().(type) {
	case wire.BitSet:
		v.Set(reflect.ValueOf(c.bitSet()))
		return
	case wire.MerklePath:
		v.Set(reflect.ValueOf(c.merklePath(c.smallLen(3))))
		return
	case wire.BlockInterlink:
		v.Set(reflect.ValueOf(c.interlink(c.smallLen(12))))
		return
	case wire.NetAddress:
		v.Set(reflect.ValueOf(c.netAddress()))
		return
	case wire.PeerAddress:
		v.Set(reflect.ValueOf(c.peerAddress()))
		return
	case wire.WrapTx:
		v.Set(reflect.ValueOf(wire.WrapTx{Tx: c.tx()}))
		return
	case wire.WrapAccount:
		v.Set(reflect.ValueOf(wire.WrapAccount{Account: c.account()}))
		return
	}
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(c.u64())
		if v.OverflowUint(v.Uint()) {
			panic("overflow")
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(c.u64())
		if c.one(2) {
			x = -x
		}
		if c.one(4) {
			x = int64(-1) << uint(v.Type().Bits()-1)
		}
		v.SetInt(x)
	case reflect.Bool:
		v.SetBool(c.one(2))
	case reflect.String:
		v.SetString(string(c.bytes(c.seqLen(big, 1))))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Type().Elem().NumMethod() == 0 {
			v.SetBytes(c.bytes(c.seqLen(big, 1)))
			return
		}
		n := c.seqLen(big, 8)
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			c.fill(s.Index(i), false)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.fill(v.Index(i), big)
		}
		if v.Type().Elem() == uintKinds[0] && v.CanAddr() {
			c.relate(v.Slice(0, v.Len()).Bytes())
		}
	case reflect.Struct:
		if c.one(12) && blankable(v.Type()) {
			v.Set(reflect.Zero(v.Type())) // all of it zero
			return
		}
		for i := 0; i < v.NumField(); i++ {
			c.fill(v.Field(i), big)
		}
	case reflect.Ptr:
		if c.one(3) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		p := reflect.New(v.Type().Elem())
		c.fill(p.Elem(), big)
		v.Set(p)
	}
}

func (c *Ctx) smallLen(n int) int {
	if c.one(3) {
		return 0
	}
	return c.Intn(n + 1)
}

// seqLen draws a sequence length; with big, sometimes around 2^8 or 2^16.
func (c *Ctx) seqLen(big bool, weight int) int {
	if big && c.one(6) {
		return 254 + c.Intn(4)
	}
	if big && c.one(80*weight) {
		return 65534 + c.Intn(4)
	}
	return c.smallLen(4)
}

func (c *Ctx) bitSetOf(n int) wire.BitSet {
	b := c.bytes((n + 7) / 8)
	switch c.Intn(4) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	}
	return wire.BitSet{Len: uint8(n), Bits: b}
}

// bitLen draws a number of bits 0..255, often at a byte boundary.
func (c *Ctx) bitLen() int {
	switch c.Intn(4) {
	case 0:
		return c.Intn(4)
	case 1:
		return 255 - c.Intn(16)
	case 2:
		n := 8*c.Intn(32) + c.Intn(3) - 1
		if n < 0 {
			n = 0
		}
		return n
	default:
		return c.Intn(256)
	}
}

func (c *Ctx) bitSet() wire.BitSet { return c.bitSetOf(c.bitLen()) }

func (c *Ctx) merklePath(n int) wire.MerklePath {
	mp := wire.MerklePath{Branches: c.bitSetOf(n), Hashes: make([][32]byte, n)}
	for i := range mp.Hashes {
		c.Read(mp.Hashes[i][:])
	}
	if n > 0 && c.one(5) { // nodes that stand out
		for k := 1 + c.Intn(3); k > 0; k-- {
			i := c.Intn(n)
			switch c.Intn(4) {
			case 0, 1:
				mp.Hashes[i] = [32]byte{}
			case 2:
				mp.Hashes[i] = mp.Hashes[c.Intn(n)]
			case 3:
				for j := range mp.Hashes[i] {
					mp.Hashes[i][j] = 0xff
				}
			}
		}
	}
	return mp
}

// interlink builds a consistent interlink without using the code under test.
func (c *Ctx) interlink(n int) wire.BlockInterlink {
	il := wire.BlockInterlink{Repeats: c.bitSetOf(n)}
	zeros := 0
	for i := 0; i < n; i++ {
		if il.Repeats.Bits[i/8]>>(7-uint(i%8))&1 == 0 {
			zeros++
		}
	}
	il.Compressed = make([][32]byte, zeros)
	for i := range il.Compressed {
		c.Read(il.Compressed[i][:])
	}
	il.Hashes = make([]*[32]byte, n)
	last, k := &il.PrevHash, 0
	for i := 0; i < n; i++ {
		if il.Repeats.Bits[i/8]>>(7-uint(i%8))&1 == 0 {
			last = &il.Compressed[k]
			k++
		}
		il.Hashes[i] = last
	}
	return il
}

func (c *Ctx) netAddress() wire.NetAddress {
	na := wire.NetAddress{Type: uint8(c.Intn(4))}
	switch na.Type {
	case 0:
		na.IP = net.IP(c.bytes(4))
	case 1:
		na.IP = net.IP(c.bytes(16))
	}
	if c.one(15) {
		na.Type = c.u8()
	}
	return na
}

func (c *Ctx) peerAddress() wire.PeerAddress {
	var pa wire.PeerAddress
	c.fill(reflect.ValueOf(&pa.PeerAddressHeader).Elem(), false)
	pa.Protocol = []uint8{0, 1, 2, 4}[c.Intn(4)]
	if pa.Protocol == 1 || pa.Protocol == 4 {
		srv := new(wire.PeerAddressSrv)
		c.fill(reflect.ValueOf(srv).Elem(), false)
		pa.Detail = srv
	}
	switch c.Intn(20) {
	case 0:
		pa.Protocol = c.u8()
	case 1:
		pa.Detail = nil
	case 2:
		pa.Detail = new(wire.PeerAddressSrv)
	}
	return pa
}

func (c *Ctx) tx() wire.Tx {
	if c.one(2) {
		tx := new(wire.BasicTx)
		c.fill(reflect.ValueOf(tx).Elem(), false)
		return tx
	}
	tx := new(wire.ExtendedTx)
	c.fill(reflect.ValueOf(tx).Elem(), false)
	return tx
}

func (c *Ctx) account() wire.Account {
	var a wire.Account
	switch c.Intn(3) {
	case 0:
		a = new(wire.BasicAccount)
	case 1:
		a = new(wire.VestingAccount)
	default:
		a = new(wire.HTLCAccount)
	}
	c.fill(reflect.ValueOf(a).Elem(), false)
	return a
}

// longStruct is a struct with one long list of small elements, and a value of it.
func (c *Ctx) longStruct() (gtype, reflect.Value) {
	i, k := 2+c.Intn(2), c.Intn(7)
	tag, lt := fmt.Sprintf("len_tag=uint%d", 8<<uint(i)), 1<<uint(i)
	g := gtype{typ: reflect.TypeOf(""), schema: object{"k": "blob", "lt": lt}}
	n := []int{65535, 65536, 65537, 66000, 70000}[c.Intn(5)]
	switch k {
	case 0:
		n *= 1 + c.Intn(3)
	case 1:
		g.typ = reflect.TypeOf([]byte{})
		n *= 1 + c.Intn(3)
	case 2:
		g.typ, g.schema = reflect.TypeOf([]bool{}), object{"k": "seq", "lt": lt, "e": object{"k": "bool"}}
	case 3:
		g.typ, g.schema = reflect.TypeOf([][2]byte{}), object{"k": "seq", "lt": lt, "e": object{"k": "bytes", "n": 2}}
	case 4:
		g.typ, g.schema = reflect.TypeOf([]int8{}), object{"k": "seq", "lt": lt, "e": object{"k": "i", "n": 1}}
	default:
		w := 1 + c.Intn(3)
		g.typ, g.schema = reflect.SliceOf(uintKinds[w]), object{"k": "seq", "lt": lt, "e": object{"k": "u", "n": 1 << uint(w)}}
	}
	typ := reflect.StructOf([]reflect.StructField{
		{Name: "F0", Type: uintKinds[0]},
		{Name: "F1", Type: g.typ, Tag: reflect.StructTag(fmt.Sprintf(`beserial:"%s"`, tag))},
		{Name: "F2", Type: uintKinds[1]}})
	schema := object{"k": "struct", "f": list{list{"F0", object{"k": "u", "n": 1}}, list{"F1", g.schema}, list{"F2", object{"k": "u", "n": 2}}}}
	p := reflect.New(typ)
	c.fill(p.Elem().Field(0), false)
	c.fill(p.Elem().Field(2), false)
	f := p.Elem().Field(1)
	if f.Kind() == reflect.String {
		f.SetString(string(c.bytes(n)))
	} else {
		f.Set(reflect.MakeSlice(g.typ, n, n))
		for j := 0; j < n; j++ {
			if e := f.Index(j); e.Kind() == reflect.Array {
				e.Index(0).SetUint(uint64(c.u8()))
			} else if j%16 == 0 || j > n-5 {
				c.fill(e, false)
			}
		}
	}
	return gtype{typ: typ, schema: schema}, p
}
