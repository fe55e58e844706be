package main

import (
	"reflect"
)

// twins are types of one name and size whose encodings differ.
var twins = []gtype{twinA(), twinB(), twinC(), twinD(), twinE(), twinF()}

func twinSchema(fields ...interface{}) object {
	fs := list{}
	for i := 0; i < len(fields); i += 2 {
		fs = append(fs, list{fields[i], fields[i+1]})
	}
	return object{"k": "struct", "f": fs}
}

var (
	twinU8   = object{"k": "u", "n": 1}
	twinU16  = object{"k": "u", "n": 2}
	twinI16  = object{"k": "i", "n": 2}
	twinOpt  = object{"k": "ptr", "opt": true, "e": object{"k": "u", "n": 2}}
	twinPtr  = object{"k": "ptr", "opt": false, "e": object{"k": "u", "n": 2}}
	twinSeq1 = object{"k": "seq", "lt": 1, "e": object{"k": "u", "n": 2}}
	twinSeq4 = object{"k": "seq", "lt": 4, "e": object{"k": "u", "n": 2}}
	twinSeq8 = object{"k": "seq", "lt": 8, "e": object{"k": "i", "n": 2}}
	twinSeq0 = object{"k": "seq", "lt": 0, "e": object{"k": "u", "n": 2}}
)

func twinA() gtype {
	type inner struct {
		X uint8
		Y uint16
	}
	type twin struct {
		A uint16
		B *uint16  `beserial:"optional"`
		C []uint16 `beserial:"len_tag=uint8"`
		D inner
	}
	return gtype{typ: reflect.TypeOf(twin{}), schema: twinSchema("A", twinU16, "B", twinOpt, "C", twinSeq1, "D", twinSchema("X", twinU8, "Y", twinU16))}
}

func twinB() gtype {
	type inner struct {
		X uint8
		Y uint16
	}
	type twin struct {
		A uint16
		B *uint16
		C []uint16 `beserial:"len_tag=uint32"`
		D inner
	}
	return gtype{typ: reflect.TypeOf(twin{}), schema: twinSchema("A", twinU16, "B", twinPtr, "C", twinSeq4, "D", twinSchema("X", twinU8, "Y", twinU16))}
}

func twinC() gtype {
	type inner struct {
		X uint16
		Y uint8
	}
	type twin struct {
		A int16
		B *uint16 `beserial:"optional"`
		C []int16 `beserial:"len_tag=uint64"`
		D inner
	}
	return gtype{typ: reflect.TypeOf(twin{}), schema: twinSchema("A", twinI16, "B", twinOpt, "C", twinSeq8, "D", twinSchema("X", twinU16, "Y", twinU8))}
}

func twinD() gtype {
	type inner struct {
		X [2]uint8
		Y uint16
	}
	type twin struct {
		A [2]uint8
		B *uint16  `beserial:"optional"`
		C []uint16 `beserial:"len_tag=uint8"`
		D inner
	}
	b2 := object{"k": "bytes", "n": 2}
	return gtype{typ: reflect.TypeOf(twin{}), schema: twinSchema("A", b2, "B", twinOpt, "C", twinSeq1, "D", twinSchema("X", b2, "Y", twinU16))}
}

func twinE() gtype {
	type inner struct {
		X uint8
		Y uint16
	}
	type twin struct {
		A uint16
		B *uint16 `beserial:"optional"`
		C []uint16
		D inner
	}
	return gtype{typ: reflect.TypeOf(twin{}), schema: twinSchema("A", twinU16, "B", twinOpt, "C", twinSeq0, "D", twinSchema("X", twinU8, "Y", twinU16))}
}

func twinF() gtype {
	type inner CustomByte
	type twin struct {
		A CustomByte
		B *uint16  `beserial:"optional"`
		C []uint16 `beserial:"len_tag=uint8"`
		D inner
	}
	return gtype{typ: reflect.TypeOf(twin{}), schema: twinSchema("A", object{"k": "cbyte"}, "B", twinOpt, "C", twinSeq1, "D", twinU8)}
}

// drawType draws a type to encode or decode.
func (c *Ctx) drawType() gtype {
	if c.one(10) {
		return twins[c.Intn(len(twins))]
	}
	g := c.genStruct(3)
	if c.one(4) {
		g = c.genType(3, true)
		for g.typ.Kind() == reflect.Ptr {
			g = c.genType(3, true)
		}
	}
	return g
}
