package main

import (
	"bytes"

	"terorie.dev/nimiq/address"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

var (
	noise  = bytes.Repeat([]byte{0x5a}, 900)
	noises struct {
		A []byte `beserial:"len_tag=uint16"`
		B uint64
		C []uint32 `beserial:"len_tag=uint8"`
	}
)

// disturb lets the code under test do unrelated work: what it returned before must not change.
func disturb() {
	_, _ = guard(func() {
		v := noises
		v.A, v.B, v.C = noise, 0x5a5a5a5a5a5a5a5a, []uint32{0x5a5a5a5a, 0x5a5a5a5a}
		b, _ := beserial.Marshal(nil, &v)
		_, _ = beserial.Unmarshal(b, &v)
		_, _ = beserial.Marshal(nil, &v.B)
		_, _ = wire.MarshalMessage(&wire.BasePingMessage{Nonce: 0x5a5a5a5a})
		get := &wire.GetTxProofMessage{Addresses: make([][20]byte, 12)}
		for i := range get.Addresses {
			copy(get.Addresses[i][:], noise)
		}
		b, _ = wire.MarshalMessage(get)
		if len(b) > 8 {
			_, _ = wire.UnmarshalMessage(wire.MessageGetTxProof, b[8:])
		}
		inv := &wire.InvMessage{MessageType: wire.MessageInv, Vectors: make([]wire.InvVector, 9)}
		for i := range inv.Vectors {
			inv.Vectors[i].Type = 0x5a5a5a5a
			copy(inv.Vectors[i].Hash[:], noise)
		}
		b, _ = wire.MarshalMessage(inv)
		if len(b) > 8 {
			_, _ = wire.UnmarshalMessage(wire.MessageInv, b[8:])
		}
		var key [20]byte
		copy(key[:], noise)
		_ = tree.KeyToNibbles(&key).HexBytes()
		_ = tree.KeyToNibbles(&key).Compress()
		_ = wire.KeyToNibbles(&key).HexBytes()
		_ = wire.KeyToNibbles(&key).Compress()
		_, _ = address.Decode(address.Encode(&key))
		tx := wire.BasicTx{Recipient: key, Value: 0x5a5a}
		copy(tx.SenderPubKey[:], noise)
		copy(tx.Signature[:], noise)
		_ = tx.AsExtendedTx()
		_, _ = tx.GetSender()
		p := wire.SignatureProof{MerklePath: wire.MerklePath{Branches: wire.BitSet{Len: 9, Bits: []byte{0x5a, 0x80}}, Hashes: make([][32]byte, 9)}}
		b, _ = beserial.Marshal(nil, &p)
		_, _ = beserial.Unmarshal(b, &p)
		var il wire.BlockInterlink
		_, _ = il.UnmarshalBESerial(append([]byte{6, 0x50}, noise[:128]...))
	})
}
