package main

import (
	"errors"
	"reflect"
	"strconv"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
)

// Le24 encodes itself (pointer receiver) as a 24-bit little-endian number.
type Le24 struct{ N uint32 }

func (l *Le24) MarshalBESerial(b []byte) ([]byte, error) {
	return append(b, byte(l.N), byte(l.N>>8), byte(l.N>>16)), nil
}
func (l *Le24) SizeBESerial() (int, error) { return 3, nil }
func (l *Le24) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 3 {
		return 0, beserial.ErrUnexpectedEOF
	}
	l.N = uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16
	return 3, nil
}

var errNotAByte = errors.New("not a CustomByte")

// CustomByte is a uint8 that encodes itself, as a 24-bit little-endian number.
type CustomByte uint8

func (l CustomByte) MarshalBESerial(b []byte) ([]byte, error) {
	return append(b, byte(l), 0, 0), nil
}
func (l CustomByte) SizeBESerial() (int, error) { return 3, nil }
func (l *CustomByte) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 3 {
		return 0, beserial.ErrUnexpectedEOF
	}
	if b[1] != 0 || b[2] != 0 {
		return 0, errNotAByte
	}
	*l = CustomByte(b[0])
	return 3, nil
}

var typLe24 = reflect.TypeOf(Le24{})

type list = []interface{}
type object = map[string]interface{}

// proj projects a Go value to the shape the specification uses.
func proj(v interface{}) interface{} { return projV(reflect.ValueOf(v)) }

func projV(v reflect.Value) interface{} {
	switch v.Type() {
	case typLe24:
		return hu(uint64(v.Interface().(Le24).N))
	}
	switch x := v.Interface().(type) {
	case wire.BlockInterlink:
		hs := list{}
		for _, h := range x.Hashes {
			if h == nil {
				hs = append(hs, "")
			} else {
				hs = append(hs, hx(h[:]))
			}
		}
		return object{"Repeats": proj(x.Repeats), "Hashes": hs, "PrevHash": hx(x.PrevHash[:]), "Compressed": proj(x.Compressed)}
	case wire.NetAddress:
		return object{"Type": hu(uint64(x.Type)), "IP": hx(x.IP)}
	case wire.PeerAddress:
		d := list{}
		if s, ok := x.Detail.(*wire.PeerAddressSrv); ok && s != nil {
			d = append(d, proj(*s))
		} else if x.Detail != nil {
			d = append(d, "other")
		}
		return object{"PeerAddressHeader": proj(x.PeerAddressHeader), "Detail": d}
	case wire.InvMessage:
		return object{"Vectors": proj(x.Vectors)}
	case wire.BasePingMessage:
		return object{"Nonce": hu(uint64(x.Nonce))}
	case wire.EmptyMessage:
		return list{}
	}
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return hu(v.Uint())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 16)
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return hx([]byte(v.String()))
	case reflect.Array, reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Type().Elem().NumMethod() == 0 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			return hx(b)
		}
		l := list{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, projV(v.Index(i)))
		}
		return l
	case reflect.Struct:
		if v.NumField() == 0 {
			return list{}
		}
		o := object{}
		for i := 0; i < v.NumField(); i++ {
			o[v.Type().Field(i).Name] = projV(v.Field(i))
		}
		return o
	case reflect.Ptr:
		if v.IsNil() {
			return list{}
		}
		return list{projV(v.Elem())}
	case reflect.Interface:
		if v.IsNil() {
			return object{"T": 255, "V": ""}
		}
		switch x := v.Interface().(type) {
		case wire.Tx:
			return object{"T": int(x.Type()), "V": projV(reflect.ValueOf(x).Elem())}
		case wire.Account:
			return object{"T": int(x.Type()), "V": projV(reflect.ValueOf(x).Elem())}
		}
	}
	return "unsupported"
}
