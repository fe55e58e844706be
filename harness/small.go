package main

import (
	"os"
	"strconv"
	"strings"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
)

func init() { families["small"] = caseSmall }

var smallLines []string
var smallClasses = map[string][]string{} // by what the model says of the block
var smallNames []string

// small is one way to make real accounts and amounts of the model's.
type small struct {
	l      *ledger
	addr   [4][20]byte // addresses 1, 2, 3
	people [4]person
	unit   uint64 // what an amount of 1 stands for
	base   uint32 // what height 0 stands for
	root   wire.Hash
	count  uint8
}

func num(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fail("bad number %q in the model's blocks", s)
	}
	return n
}

func (s *small) account(text string) wire.Account {
	f := strings.Split(text, ".")
	bal := uint64(num(f[1])) * s.unit
	switch f[0] {
	case "1":
		return &wire.VestingAccount{Value: bal, Owner: s.addr[1], VestingStart: s.base + 1, VestingStepBlocks: 1, VestingStepAmount: 2 * s.unit, VestingTotalAmount: 4 * s.unit}
	case "2":
		return &wire.HTLCAccount{Value: bal, Sender: s.addr[1], Recipient: s.addr[2], Hash: s.root, HashCount: s.count, Timeout: s.base + 2, TotalAmount: 4 * s.unit}
	}
	return &wire.BasicAccount{Value: bal}
}

func (s *small) proof(name string) (b []byte) {
	c := s.l.c
	switch name[0] {
	case 'x':
		return c.bytes(c.Intn(3) * 30)
	case 'o':
		return s.people[num(name[1:])].proof
	case 'r':
		b = append([]byte{1, s.root.Algorithm, byte(num(name[1:2]))}, s.root.Bytes[:]...)
		b = append(b, c.bytes(32)...)
		return append(b, s.people[num(name[2:])].proof...)
	case 'e':
		return append(append([]byte{2}, s.people[2].proof...), s.people[1].proof...)
	}
	return append([]byte{3}, s.people[1].proof...)
}

func (s *small) tx(text string, h uint32) wire.Tx {
	c := s.l.c
	f := strings.Split(text, ",")
	from, to := num(f[0]), num(f[2])
	value, fee := uint64(num(f[4]))*s.unit, uint64(num(f[5]))*s.unit
	plain := from != 3 && wire.PublicKeyToAddress(&s.people[from].pub) == s.addr[from]
	if f[1] == "0" && f[3] == "0" && plain && c.one(2) {
		return &wire.BasicTx{SenderPubKey: s.people[from].pub, Recipient: s.addr[to], Value: value, Fee: fee, ValidityStartHeight: h, NetworkID: 42}
	}
	tx := &wire.ExtendedTx{Sender: s.addr[from], SenderType: uint8(num(f[1])), Recipient: s.addr[to], RecipientType: uint8(num(f[3])),
		Value: value, Fee: fee, ValidityStartHeight: h, NetworkID: 42, Proof: s.proof(f[6])}
	switch f[3] {
	case "1":
		tx.Flags = wire.TxFlagContractCreation
		tx.Data = append(append([]byte{}, s.addr[1][:]...), be32(s.base+1)...)
		tx.Data = append(append(tx.Data, be32(1)...), be64(2*s.unit)...)
		if c.one(2) {
			tx.Data = append(tx.Data, be64(value)...)
		}
	case "2":
		tx.Flags = wire.TxFlagContractCreation
		tx.Data = append(append([]byte{}, s.addr[1][:]...), s.addr[2][:]...)
		tx.Data = append(append(tx.Data, s.root.Algorithm), s.root.Bytes[:]...)
		tx.Data = append(append(tx.Data, s.count), be32(s.base+2)...)
	}
	return tx
}

func (s *small) run(line string) {
	c := s.l.c
	f := strings.Fields(line)
	if len(f) < 8 {
		fail("bad line %q in the model's blocks", line)
	}
	l := s.l
	l.store = newLayered([]string{"mem", "copy"}[c.Intn(2)], 1, l.all)
	l.acc = accounts.NewAccounts(l.store.trees[0])
	for i := 1; i <= 3; i++ {
		l.acc.PutAccount(&s.addr[i], s.account(f[i-1]))
	}
	l.pre, _ = l.leaves()
	blk := &wire.Block{Body: &wire.BlockBody{MinerAddr: s.addr[num(f[4])]}}
	blk.Header.Height = s.base + uint32(num(f[3]))
	if f[5] != "-" {
		for _, t := range strings.Split(f[5], ";") {
			blk.Body.Txs = append(blk.Body.Txs, wire.WrapTx{Tx: s.tx(t, blk.Header.Height)})
		}
	}
	if f[6] != "-" {
		for _, t := range strings.Split(f[6], ";") {
			p := strings.SplitN(t, ".", 2)
			blk.Body.Pruned = append(blk.Body.Pruned, wire.AccountPruned{Address: s.addr[num(p[0])], Account: wire.WrapAccount{Account: s.account(p[1])}})
		}
	}
	if c.one(4) {
		var got wire.Block
		if out, _ := try(func() error {
			buf, err := beserial.Marshal(nil, blk)
			if err != nil {
				return err
			}
			return beserial.UnmarshalFull(buf, &got)
		}); out == "ok" {
			blk = &got
		}
	}
	l.push(blk)
}

// caseSmall replays blocks that TLC enumerated on accounts of one choice of addresses and amounts.
func caseSmall(c *Ctx) {
	if smallLines == nil {
		b, err := os.ReadFile(c.Input)
		if err != nil {
			fail("%s", err)
		}
		smallLines = strings.Split(strings.TrimSpace(string(b)), "\n")
		for _, x := range smallLines {
			f := strings.SplitN(x, " ", 8)
			if len(f) < 8 {
				fail("bad line %q in the model's blocks", x)
			}
			if smallClasses[f[7]] == nil {
				smallNames = append(smallNames, f[7])
			}
			smallClasses[f[7]] = append(smallClasses[f[7]], x)
		}
	}
	s := &small{l: &ledger{c: c}, count: 2}
	switch c.Intn(3) {
	case 0: // the model's Max of 5 is the largest amount; no reward any more
		s.unit, s.base = ^uint64(0)/5, 53000000
	case 1:
		s.unit, s.base = 1, 0
	case 2:
		s.unit, s.base = uint64(1+c.Int63n(1000000000)), uint32(c.Intn(6000))
	}
	for {
		for i := 1; i <= 2; i++ {
			s.people[i] = c.person()
			s.addr[i] = s.people[i].addr
		}
		s.addr[3] = c.address20()
		if c.one(2) {
			s.addr[3] = s.addr[1+c.Intn(2)]
			s.addr[3][19-c.Intn(20)] ^= 1 << uint(c.Intn(8))
		}
		if s.addr[1] != s.addr[2] && s.addr[1] != s.addr[3] && s.addr[2] != s.addr[3] {
			break
		}
	}
	s.l.all = [][20]byte{s.addr[1], s.addr[2], s.addr[3]}
	s.root.Algorithm = 1
	c.Read(s.root.Bytes[:])
	if c.thorough() {
		for i := c.Index; i < len(smallLines); i += c.Total {
			s.run(smallLines[i])
		}
		return
	}
	for i := 0; i < 20; i++ {
		class := "ok"
		if c.one(2) {
			class = smallNames[c.Intn(len(smallNames))]
		}
		s.run(smallClasses[class][c.Intn(len(smallClasses[class]))])
	}
}
