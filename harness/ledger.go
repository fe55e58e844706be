package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/address"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

func init() {
	families["ledger"] = caseLedger
	families["hostile"] = caseHostile
	families["revert"] = caseRevert
	families["apply"] = caseApply
}

// ledger is a chain state under test together with what the generator knows of it.
type ledger struct {
	c      *Ctx
	acc    *accounts.Accounts
	store  *layeredTree
	people []person
	places [][20]byte // addresses contracts lie at or may be created at
	all    [][20]byte
	height uint32
	base   uint32 // around which contract times lie
	rich   bool   // balances up to 2^64-1
	digest string
	given  *wire.Block // the block in memory to be pushed next, nil for one of its own
	pre    [][]string  // leaves before the next block, where they are not those after the last event
}

// person owns addresses: of the key itself and of keys in Merkle trees.
type person struct {
	pub   [32]byte
	addr  [20]byte
	proof []byte // signature proof naming addr
}

func (c *Ctx) person() (p person) {
	c.Read(p.pub[:])
	path := wire.MerklePath{Branches: wire.BitSet{}}
	if c.one(4) {
		n := 1 + c.Intn(3)
		if c.one(4) {
			n = []int{7, 8, 9, 16, 247, 248, 249, 255}[c.Intn(8)]
		}
		path = c.merklePath(n)
	}
	sp := wire.SignatureProof{PublicKey: p.pub, MerklePath: path}
	c.Read(sp.Signature[:])
	p.addr = sp.SignerAddress()
	p.proof = proofBytes(&sp)
	return
}

func proofBytes(sp *wire.SignatureProof) []byte {
	b := append([]byte{}, sp.PublicKey[:]...)
	b = append(b, sp.MerklePath.Branches.Len)
	b = append(b, sp.MerklePath.Branches.Bits...)
	for _, h := range sp.MerklePath.Hashes {
		b = append(b, h[:]...)
	}
	return append(b, sp.Signature[:]...)
}

func (l *ledger) anyone() *person { return &l.people[l.c.Intn(len(l.people))] }

func (l *ledger) balance() uint64 {
	c := l.c
	if l.rich {
		switch c.Intn(5) {
		case 0:
			return ^uint64(0) - uint64(c.Intn(3))
		case 1:
			return uint64(1)<<63 + uint64(c.Intn(5)) - 2
		}
		return c.u64()
	}
	switch c.Intn(4) {
	case 0:
		return uint64(1 + c.Intn(20))
	case 1:
		return uint64(c.Intn(1000000))
	default:
		return uint64(c.Int63n(100000000000000))
	}
}

func (l *ledger) near(h uint32) uint32 {
	d := int64(l.c.Intn(12)) - 6
	v := int64(h) + d
	if v < 0 {
		v = 0
	}
	if v > 0xffffffff {
		v = 0xffffffff
	}
	return uint32(v)
}

func (l *ledger) vesting() *wire.VestingAccount {
	c := l.c
	v := &wire.VestingAccount{Value: l.balance(), Owner: l.anyone().addr, VestingStart: l.near(l.base),
		VestingStepBlocks: uint32(c.Intn(5)), VestingTotalAmount: l.balance()}
	switch c.Intn(4) {
	case 0:
		v.VestingTotalAmount = v.Value
	case 1:
		v.VestingTotalAmount = v.Value + uint64(c.Intn(10))
	}
	v.VestingStepAmount = v.VestingTotalAmount / uint64(1+c.Intn(6))
	if c.one(6) {
		v.VestingStepAmount = c.u64()
	}
	if c.one(6) {
		v.VestingStart, v.VestingStepBlocks = c.u32(), c.u32()
	}
	return v
}

func (l *ledger) htlc() *wire.HTLCAccount {
	c := l.c
	h := &wire.HTLCAccount{Value: l.balance(), Sender: l.anyone().addr, Recipient: l.anyone().addr,
		Hash: wire.Hash{Algorithm: uint8(1 + c.Intn(4))}, HashCount: uint8(1 + c.Intn(4)), Timeout: l.near(l.base + 3), TotalAmount: l.balance()}
	c.Read(h.Hash.Bytes[:])
	if c.one(2) {
		h.TotalAmount = h.Value
	}
	if c.one(5) {
		h.HashCount = c.u8()
	}
	if c.one(8) {
		h.Timeout = c.u32()
	}
	return h
}

func newLedger(c *Ctx) *ledger {
	l := &ledger{c: c, rich: c.one(3), base: uint32(10 + c.Intn(1000))}
	if c.one(4) { // heights at which the reward changes and ends
		l.base = []uint32{1, 5000, 48692955, 52890500, 53000000}[c.Intn(5)]
		if !c.thorough() && l.base > 5000 && c.Index%16 != 0 {
			l.base = 5000
		}
	}
	l.height = l.near(l.base)
	if l.height == 0 {
		l.height = 1
	}
	people, places := 4+c.Intn(3), 4
	if c.Index%80 == 40 { // a large state
		people, places = 30+c.Intn(20), 10
	}
	for i := 0; i < people; i++ {
		l.people = append(l.people, c.person())
	}
	// contract addresses, some sharing prefixes with others
	for i := 0; i < places; i++ {
		a := c.address20()
		if c.one(2) {
			a = l.people[c.Intn(len(l.people))].addr
			a[19-c.Intn(3)] ^= 1 << uint(c.Intn(8))
		}
		l.places = append(l.places, a)
	}
	seen := map[[20]byte]bool{}
	for _, p := range l.people {
		seen[p.addr] = true
		l.all = append(l.all, p.addr)
	}
	for _, a := range l.places {
		if !seen[a] {
			seen[a] = true
			l.all = append(l.all, a)
		}
	}
	l.store = newLayered([]string{"mem", "copy"}[c.Intn(2)], 1, l.all)
	l.acc = accounts.NewAccounts(l.store.trees[0])
	for _, a := range l.all {
		var acc wire.Account
		switch {
		case c.one(6):
			continue
		default:
			acc = &wire.BasicAccount{Value: l.balance()}
		}
		contracts := l.places
		if c.one(25) { // a contract whose address is that of a key
			contracts = [][20]byte{a}
		}
		for _, p := range contracts {
			if p == a {
				switch c.Intn(4) {
				case 0, 1:
					acc = l.vesting()
				case 2:
					acc = l.htlc()
				}
			}
		}
		a := a
		l.acc.PutAccount(&a, acc)
	}
	return l
}

// leaves reads the accounts from the stored nodes.
func (l *ledger) leaves() (out [][]string, ok bool) {
	out = [][]string{}
	ok = true
	var walk func(p tree.Nibbles, depth int)
	walk = func(p tree.Nibbles, depth int) {
		switch n := l.store.layers[0].GetNode(p).(type) {
		case *tree.Leaf:
			out = append(out, []string{hexPath(p), hx(n.Value)})
		case *tree.Branch:
			for _, ch := range n.Children {
				if ch.Exists && depth < 41 {
					if len(ch.Suffix) == 0 {
						ok = false
						return
					}
					walk(append(append(tree.Nibbles(nil), p...), ch.Suffix...), depth+1)
				}
			}
		default:
			ok = false
		}
	}
	if o, _ := guard(func() { walk(nil, 0) }); o != "ok" {
		ok = false
	}
	return
}

func (l *ledger) nodesDigest() string {
	h := sha256.New()
	if o, msg := guard(func() {
		_ = json.NewEncoder(h).Encode(l.store.dump(0))
		r := l.acc.Tree.Hash()
		h.Write(r[:])
	}); o != "ok" {
		return o + msg
	}
	return hx(h.Sum(nil))
}

// finish adds the state to an event and emits it.
func (l *ledger) finish(e Event) bool {
	st, ok := l.leaves()
	if !ok {
		e["out"], st = "broken", [][]string{}
	}
	e["state"] = st
	d := l.nodesDigest()
	e["same"] = d == l.digest
	l.digest = d
	e["again"] = false
	seen := [][]interface{}{}
	if o, _ := guard(func() {
		for _, a := range l.all {
			a := a
			acc := l.acc.GetAccount(&a)
			seen = append(seen, []interface{}{hx(a[:]), int(acc.Type()), hu(acc.Balance())})
			useUp(acc)
			overwrite(reflect.ValueOf(acc)) // it is the caller's
		}
		again := true
		for i, a := range l.all {
			a := a
			acc := l.acc.GetAccount(&a)
			again = again && seen[i][1] == int(acc.Type()) && seen[i][2] == hu(acc.Balance())
		}
		now, _ := l.leaves()
		e["again"] = again && reflect.DeepEqual(now, st)
	}); o != "ok" {
		e["out"] = "broken"
	}
	e["seen"] = seen
	l.c.Emit(e)
	return ok
}

// useUp applies transactions to an account and changes what comes out: that is the caller's, too.
func useUp(acc wire.Account) {
	for _, value := range []uint64{0, 1, acc.Balance()} {
		tx := &wire.ExtendedTx{SenderType: acc.Type(), RecipientType: acc.Type(), Value: value}
		if res, err := acc.ApplyOutgoingTx(tx, 0); err == nil {
			overwrite(reflect.ValueOf(res))
		}
		if res, err := acc.ApplyIncomingTx(tx, 0); err == nil {
			overwrite(reflect.ValueOf(res))
		}
	}
}

func (l *ledger) open() {
	l.digest = l.nodesDigest()
	l.finish(Event{"ev": "open", "out": "ok"})
}

// ---------------------------------------------------------------- transactions

// state of the generator while it makes a block
type draft struct {
	after map[[20]byte]wire.Account // after the debits so far
	block *wire.Block
}

func (l *ledger) lookup(d *draft, a [20]byte) wire.Account {
	if x, ok := d.after[a]; ok {
		return x
	}
	acc := l.acc.GetAccount(&a)
	d.after[a] = acc
	return acc
}

func be32(n uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, n); return b }
func be64(n uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, n); return b }

// creationData makes the data of a contract creation.
func (l *ledger) creationData(kind uint8, value uint64) (data []byte) {
	c := l.c
	if kind == wire.AccountHTLC {
		s, r := l.anyone().addr, l.anyone().addr
		data = append(append(data, s[:]...), r[:]...)
		data = append(data, uint8(1+c.Intn(4)))
		data = append(data, c.bytes(32)...)
		count := uint8(1 + c.Intn(3))
		if c.one(12) {
			count = 0
		}
		data = append(append(data, count), be32(l.near(l.height+2))...)
	} else {
		o := l.anyone().addr
		data = append(data, o[:]...)
		form := c.Intn(3)
		if form > 0 {
			data = append(data, be32(l.near(l.height))...)
		}
		data = append(data, be32(uint32(c.Intn(4)))...)
		if form > 0 {
			data = append(data, be64(value/uint64(1+c.Intn(4)))...)
		}
		if form > 1 {
			data = append(data, be64(value-value/uint64(1+c.Intn(9)))...)
		}
	}
	switch c.Intn(14) {
	case 0:
		data = data[:c.Intn(len(data))]
	case 1:
		data = append(data, c.bytes(1+c.Intn(20))...)
	}
	return
}

// proofFor makes a spending proof for a contract, mostly a fitting one.
func (l *ledger) proofFor(acc wire.Account, height uint32) (proof []byte) {
	c := l.c
	named := func(a [20]byte) []byte {
		if !c.one(12) {
			for _, p := range l.people {
				if p.addr == a {
					return p.proof
				}
			}
		}
		return l.anyone().proof
	}
	switch x := acc.(type) {
	case *wire.VestingAccount:
		proof = append(proof, named(x.Owner)...)
	case *wire.HTLCAccount:
		kind := 1 + c.Intn(3)
		if !c.one(4) { // the one that fits the height
			if height <= x.Timeout {
				kind = 1 + c.Intn(2)
			} else {
				kind = 2 + c.Intn(2)
			}
		}
		proof = []byte{byte(kind)}
		switch kind {
		case 1:
			depth := x.HashCount
			if c.one(2) {
				depth = uint8(c.Intn(int(x.HashCount) + 2))
			}
			alg, root := x.Hash.Algorithm, x.Hash.Bytes
			if c.one(15) {
				alg ^= 1
			}
			if c.one(15) {
				root[c.Intn(32)] ^= 1
			}
			proof = append(append(append(proof, alg, depth), root[:]...), c.bytes(32)...)
			proof = append(proof, named(x.Recipient)...)
		case 2:
			proof = append(append(proof, named(x.Recipient)...), named(x.Sender)...)
		case 3:
			proof = append(proof, named(x.Sender)...)
		}
	default:
		proof = l.anyone().proof
	}
	proof = append([]byte{}, proof...)
	switch c.Intn(25) {
	case 0:
		proof = proof[:c.Intn(len(proof)+1)]
	case 1:
		proof = append(proof, byte(c.Intn(3)))
	case 2:
		if len(proof) > 0 {
			proof[0] = byte(c.Intn(5))
		}
	}
	return
}

// amounts proposes what to spend from an account.
func (l *ledger) amounts(acc wire.Account, height uint32) (value, fee uint64) {
	c := l.c
	limit := acc.Balance()
	if v, ok := acc.(*wire.VestingAccount); ok && !c.one(8) {
		// the generator's own view of the schedule; it need not be right
		if height <= v.VestingStart {
			limit = 0
		} else if v.VestingStepBlocks > 0 && v.VestingStepAmount > 0 {
			steps := uint64((height - v.VestingStart) / v.VestingStepBlocks)
			un := steps * v.VestingStepAmount
			if steps > 0 && un/steps == v.VestingStepAmount && un < v.VestingTotalAmount || steps == 0 {
				lock := v.VestingTotalAmount - un
				if lock >= limit {
					limit = 0
				} else {
					limit -= lock
				}
			}
		}
	}
	if h, ok := acc.(*wire.HTLCAccount); ok && c.one(3) && h.HashCount > 0 {
		share := h.TotalAmount / uint64(h.HashCount) * uint64(c.Intn(int(h.HashCount)+1))
		if share < limit {
			limit = share + uint64(c.Intn(2))
		}
	}
	total := limit
	switch c.Intn(8) {
	case 0:
		total = limit + 1
	case 1, 2, 3:
		if limit > 0 {
			total = c.Uint64() % limit
		}
	case 4:
		if limit > 0 {
			total = limit - 1
		}
	}
	if c.one(30) {
		return c.u64(), c.u64()
	}
	switch c.Intn(3) {
	case 0:
		return total, 0
	case 1:
		if total > 0 {
			fee = c.Uint64() % total
			if !l.rich {
				fee %= 10000
			}
		}
	default:
		fee = uint64(c.Intn(4))
		if fee > total {
			fee = total
		}
	}
	return total - fee, fee
}

func (l *ledger) tx(d *draft) wire.Tx {
	c := l.c
	height := d.block.Header.Height
	from := l.all[c.Intn(len(l.all))]
	for i := 0; i < 6 && l.lookup(d, from).Balance() == 0; i++ {
		from = l.all[c.Intn(len(l.all))]
	}
	acc := l.lookup(d, from)
	value, fee := l.amounts(acc, height)
	to := l.all[c.Intn(len(l.all))]
	for i := 0; i < 4 && l.lookup(d, to).Type() != wire.AccountBasic; i++ {
		to = l.all[c.Intn(len(l.all))]
	}
	if c.one(10) {
		to = c.address20()
		l.know(to)
	}
	// basic format
	if acc.Type() == wire.AccountBasic && c.one(2) || c.one(4) {
		for _, p := range l.people {
			if p.addr == from && wire.PublicKeyToAddress(&p.pub) == from {
				return &wire.BasicTx{SenderPubKey: p.pub, Recipient: to, Value: value, Fee: fee, ValidityStartHeight: height, NetworkID: 42}
			}
		}
	}
	tx := &wire.ExtendedTx{Sender: from, SenderType: acc.Type(), Recipient: to, Value: value, Fee: fee,
		ValidityStartHeight: height, NetworkID: 42, Proof: l.proofFor(acc, height)}
	switch {
	case c.one(4): // creation
		tx.Flags = wire.TxFlagContractCreation
		tx.RecipientType = uint8(1 + c.Intn(2))
		tx.Data = l.creationData(tx.RecipientType, value)
		if c.one(12) {
			tx.RecipientType = []uint8{0, 3, 255, 1, 2}[c.Intn(5)]
		}
		if c.one(12) {
			tx.Flags = c.u8()
		}
	case c.one(10):
		tx.Data = c.bytes(c.Intn(50))
	}
	if c.one(30) {
		tx.SenderType = []uint8{0, 1, 2, 3, 255}[c.Intn(5)]
	}
	if c.one(30) {
		tx.RecipientType = []uint8{0, 1, 2, 3, 255}[c.Intn(5)]
	}
	if c.one(40) {
		tx.Flags ^= 1 << uint(c.Intn(8))
	}
	return tx
}

func (l *ledger) know(a [20]byte) {
	for _, x := range l.all {
		if x == a {
			return
		}
	}
	l.all = append(l.all, a)
	nbs := tree.KeyToNibbles(&a)
	for i := 0; i <= len(nbs); i++ {
		l.store.paths[string(nbs[:i])] = true
	}
}

func (l *ledger) block() *wire.Block {
	c := l.c
	d := &draft{after: map[[20]byte]wire.Account{}, block: &wire.Block{Body: &wire.BlockBody{}}}
	blk := d.block
	blk.Header.Height = l.height
	l.height += uint32(c.Intn(4))
	if c.one(20) {
		blk.Header.Height = 0
	}
	n := c.Intn(5)
	if c.one(10) {
		n += 5
	}
	if c.one(10) { // whoever can leaves
		n = c.Intn(2)
		for _, i := range c.Perm(len(l.all)) {
			from := l.all[i]
			acc := l.lookup(d, from)
			if acc.Type() == wire.AccountBasic || acc.IsEmpty() {
				continue
			}
			fee := uint64(c.Intn(2))
			for tries := 0; tries < 4; tries++ {
				tx := &wire.ExtendedTx{Sender: from, SenderType: acc.Type(), Recipient: l.anyone().addr, Value: acc.Balance() - fee, Fee: fee,
					ValidityStartHeight: blk.Header.Height, NetworkID: 42, Proof: l.proofFor(acc, blk.Header.Height)}
				var after wire.Account
				out, _ := try(func() (err error) {
					after, err = acc.ApplyOutgoingTx(tx, blk.Header.Height)
					return
				})
				if out == "ok" {
					d.after[from] = after
					blk.Body.Txs = append(blk.Body.Txs, wire.WrapTx{Tx: tx})
					break
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		for tries := 0; tries < 3; tries++ {
			tx := l.tx(d)
			if k := len(blk.Body.Txs); k > 0 && c.one(10) { // the same once more
				tx = deepCopy(reflect.ValueOf(blk.Body.Txs[k-1-c.Intn(k)].Tx)).Interface().(wire.Tx)
				if c.one(2) {
					tx = deepCopy(reflect.ValueOf(blk.Body.Txs[k-1].Tx)).Interface().(wire.Tx)
				}
			}
			content := tx.AsTxContent()
			var after wire.Account
			out, _ := try(func() (err error) {
				after, err = l.lookup(d, content.Sender).ApplyOutgoingTx(tx, blk.Header.Height)
				return
			})
			if out != "ok" && !c.one(6) {
				continue
			}
			if out == "ok" {
				d.after[content.Sender] = after
			}
			blk.Body.Txs = append(blk.Body.Txs, wire.WrapTx{Tx: tx})
			break
		}
	}
	// prune list: the contracts left empty
	named := map[[20]byte]bool{}
	for _, t := range blk.Body.Txs {
		a := t.Tx.AsTxContent().Sender
		acc := l.lookup(d, a)
		if acc.Type() != wire.AccountBasic && acc.IsEmpty() && !named[a] {
			named[a] = true
			blk.Body.Pruned = append(blk.Body.Pruned, wire.AccountPruned{Address: a, Account: wire.WrapAccount{Account: acc}})
		}
	}
	c.Shuffle(len(blk.Body.Pruned), func(i, j int) {
		blk.Body.Pruned[i], blk.Body.Pruned[j] = blk.Body.Pruned[j], blk.Body.Pruned[i]
	})
	pr := blk.Body.Pruned
	if len(pr) > 0 {
		k := c.Intn(len(pr))
		switch c.Intn(10) {
		case 0: // missing
			blk.Body.Pruned = append(pr[:k:k], pr[k+1:]...)
		case 1: // repeated
			blk.Body.Pruned = append(pr, pr[k])
		case 2: // altered
			switch x := pr[k].Account.Account.(type) {
			case *wire.VestingAccount:
				y := *x
				l.alterVesting(&y)
				pr[k].Account.Account = &y
			case *wire.HTLCAccount:
				y := *x
				l.alterHTLC(&y)
				pr[k].Account.Account = &y
			}
		case 3:
			pr[k].Account.Account = &wire.BasicAccount{}
		case 4:
			pr[k].Address[c.Intn(20)] ^= 1
		}
	}
	if c.one(15) { // premature or unrelated
		a := l.all[c.Intn(len(l.all))]
		blk.Body.Pruned = append(blk.Body.Pruned, wire.AccountPruned{Address: a, Account: wire.WrapAccount{Account: l.lookup(d, a)}})
	}
	switch c.Intn(10) {
	case 0:
		blk.Body.MinerAddr = l.places[c.Intn(len(l.places))]
	case 1, 2:
		blk.Body.MinerAddr = c.address20()
		l.know(blk.Body.MinerAddr)
	default:
		blk.Body.MinerAddr = l.anyone().addr
	}
	return blk
}

func (c *Ctx) bulkSize() int {
	n := []int{255, 256, 257, 300, 513}[c.Intn(5)]
	if c.Index%1200 == 60 {
		n = 1025
	}
	return n
}

// wide makes a block of n small transactions to new accounts, which has to be refused at its very end if spoiled.
func (l *ledger) wide(n int, spoiled bool) *wire.Block {
	blk := l.bulk(n, true)
	if spoiled {
		blk.Body.Pruned = append(blk.Body.Pruned, wire.AccountPruned{Address: l.c.address20(),
			Account: wire.WrapAccount{Account: &wire.VestingAccount{Owner: l.c.address20()}}})
	}
	return blk
}

// bulk makes a block of n small transactions between basic accounts, or to new ones.
func (l *ledger) bulk(n int, fresh bool) *wire.Block {
	c := l.c
	d := &draft{after: map[[20]byte]wire.Account{}, block: &wire.Block{Body: &wire.BlockBody{}}}
	blk := d.block
	blk.Header.Height = l.height
	l.height++
	rich := l.people[0]
	for _, p := range l.people {
		if l.lookup(d, p.addr).Type() == wire.AccountBasic && l.lookup(d, p.addr).Balance() > l.lookup(d, rich.addr).Balance() {
			rich = p
		}
	}
	for i := 0; i < n; i++ {
		from := rich
		if c.one(8) {
			from = *l.anyone()
		}
		acc := l.lookup(d, from.addr)
		to := l.anyone().addr
		value, fee := uint64(c.Intn(3)), uint64(c.Intn(3))
		if fresh {
			value++
			if last := len(blk.Body.Txs); last > 0 && i%8 == 7 {
				to = blk.Body.Txs[last-1].Tx.(*wire.ExtendedTx).Recipient
				to[19-c.Intn(20)] ^= 1 << uint(c.Intn(8))
			} else {
				c.Rand.Read(to[:])
			}
		}
		if acc.Type() != wire.AccountBasic || acc.Balance() < value+fee || l.lookup(d, to).Type() != wire.AccountBasic {
			continue
		}
		tx := &wire.ExtendedTx{Sender: from.addr, Recipient: to, Value: value, Fee: fee, ValidityStartHeight: blk.Header.Height, NetworkID: 42, Proof: from.proof}
		after, err := acc.ApplyOutgoingTx(tx, blk.Header.Height)
		if err != nil {
			continue
		}
		d.after[from.addr] = after
		blk.Body.Txs = append(blk.Body.Txs, wire.WrapTx{Tx: tx})
	}
	blk.Body.MinerAddr = l.anyone().addr
	return blk
}

func (l *ledger) alterVesting(v *wire.VestingAccount) {
	switch l.c.Intn(6) {
	case 0:
		v.Value++
	case 1:
		v.Owner[l.c.Intn(20)] ^= 1
	case 2:
		v.VestingStart++
	case 3:
		v.VestingStepBlocks++
	case 4:
		v.VestingStepAmount++
	case 5:
		v.VestingTotalAmount++
	}
}

func (l *ledger) alterHTLC(h *wire.HTLCAccount) {
	switch l.c.Intn(8) {
	case 0:
		h.Value++
	case 1:
		h.Sender[l.c.Intn(20)] ^= 1
	case 2:
		h.Recipient[l.c.Intn(20)] ^= 1
	case 3:
		h.Hash.Algorithm++
	case 4:
		h.Hash.Bytes[l.c.Intn(32)] ^= 1
	case 5:
		h.HashCount++
	case 6:
		h.Timeout++
	case 7:
		h.TotalAmount++
	}
}

// describe makes the event for a block.
func (l *ledger) describe(ev string, blk *wire.Block) Event {
	e := Event{"ev": ev, "h": hu(uint64(blk.Header.Height)), "body": blk.Body != nil, "miner": "", "txs": list{}, "pruned": list{}}
	if blk.Body != nil {
		e["miner"] = hx(blk.Body.MinerAddr[:])
		e["txs"], e["pruned"] = proj(blk.Body.Txs), proj(blk.Body.Pruned)
		l.know(blk.Body.MinerAddr)
		for _, t := range blk.Body.Txs {
			tc := t.Tx.AsTxContent()
			l.know(tc.Sender)
			l.know(tc.Recipient)
		}
		for _, p := range blk.Body.Pruned {
			l.know(p.Address)
		}
	}
	return e
}

func (l *ledger) push(blk *wire.Block) (accepted, ok bool) {
	e := l.describe("push", blk)
	if l.pre != nil {
		e["pre"] = l.pre
	}
	l.digest = l.nodesDigest() // more paths may be known now
	// what is applied is the caller's; afterwards the caller uses it for something else
	e["kept"], e["stable"] = true, true
	arg := copyBlock(blk)
	if l.given != nil {
		arg, l.given = l.given, nil
	}
	var failed error
	e["out"], e["msg"] = try(func() error { failed = l.acc.Push(arg); return failed })
	accepted = e["out"] == "ok"
	if e["out"] == "err" {
		e["err"] = l.diagnosis(failed, blk)
	}
	if e["out"] != "hang" {
		kept := true
		if out, _ := guard(func() { kept = reflect.DeepEqual(arg, blk) }); out != "ok" {
			kept = false
		}
		e["kept"] = kept
		before, _ := l.leaves()
		overwrite(reflect.ValueOf(arg))
		after, _ := l.leaves()
		e["stable"] = reflect.DeepEqual(before, after)
	}
	ok = l.finish(e) && (accepted || e["out"] == "err")
	return
}

// diagnosis is what an error says about a block.
func (l *ledger) diagnosis(err error, blk *wire.Block) object {
	var over *wire.OverspendError
	var mismatch *accounts.AccountTypeMismatchError
	var sender *accounts.InvalidForSenderError
	var recipient *accounts.InvalidForRecipientError
	var prune *accounts.InvalidPruneError
	d := object{"over": list{}, "mismatch": list{}, "sender": list{}, "recipient": list{}, "prune": list{}}
	// the addresses a text names
	named := func(err error) list {
		text, names := strings.ToLower(strings.ReplaceAll(err.Error(), " ", "")), list{}
		seen := map[[20]byte]bool{}
		check := func(a [20]byte) {
			if !seen[a] && (strings.Contains(text, hx(a[:])) || strings.Contains(text, strings.ToLower(strings.ReplaceAll(address.Encode(&a), " ", "")))) {
				seen[a] = true
				names = append(names, hx(a[:]))
			}
		}
		if blk.Body != nil {
			check(blk.Body.MinerAddr)
			for _, t := range blk.Body.Txs {
				tc := t.Tx.AsTxContent()
				check(tc.Sender)
				check(tc.Recipient)
			}
			for _, p := range blk.Body.Pruned {
				check(p.Address)
			}
		}
		return names
	}
	_, _ = guard(func() {
		if errors.As(err, &over) {
			d["over"] = list{hu(over.Available), hu(over.Spend)}
		}
		if errors.As(err, &mismatch) {
			d["mismatch"] = list{int(mismatch.Expected), int(mismatch.Got)}
		}
		if errors.As(err, &sender) {
			d["sender"] = list{hx(sender.Address[:])}
			if sender.Unwrap() == nil {
				d["sender"] = list{}
			}
		}
		if errors.As(err, &recipient) && recipient.Unwrap() != nil {
			d["recipient"] = named(recipient)
		}
		if errors.As(err, &prune) && prune.Unwrap() != nil {
			d["prune"] = named(prune)
		}
	})
	return d
}

// cut gives a length up to n, mostly a very short one.
func (c *Ctx) cut(n int) int {
	k := c.Intn(4)
	if c.one(4) {
		k = c.Intn(n + 1)
	}
	if k > n {
		return n
	}
	return k
}

// hostileBlock damages the bytes of a block until the result decodes.
func (l *ledger) hostileBlock(blk *wire.Block) *wire.Block {
	c := l.c
	if c.one(3) && len(blk.Body.Txs) > 0 { // damage data or proof of one transaction
		i := c.Intn(len(blk.Body.Txs))
		for k := 0; k < 8; k++ { // that has to do with a contract
			if t, ok := blk.Body.Txs[i].Tx.(*wire.ExtendedTx); ok && t.SenderType != 0 || ok && t.RecipientType != 0 && c.one(2) {
				break
			}
			i = c.Intn(len(blk.Body.Txs))
		}
		if t, ok := blk.Body.Txs[i].Tx.(*wire.ExtendedTx); ok {
			switch c.Intn(7) {
			case 5: // cut off early
				t.Proof = append([]byte{}, t.Proof[:c.cut(len(t.Proof))]...)
			case 6:
				t.Data = append([]byte{}, t.Data[:c.cut(len(t.Data))]...)
			case 0:
				t.Data = c.mutate(t.Data)
			case 1:
				t.Proof = c.mutate(t.Proof)
			case 2:
				t.Proof = append([]byte{byte(c.Intn(4))}, c.bytes(c.Intn(300))...)
			case 3: // long paths
				n := []int{248, 249, 254, 255, 17}[c.Intn(5)]
				sp := wire.SignatureProof{MerklePath: c.merklePath(n)}
				t.Proof = proofBytes(&sp)
				if c.one(2) {
					t.Proof = append([]byte{3}, t.Proof...)
				}
			case 4:
				t.SenderType, t.RecipientType, t.Flags = c.u8(), c.u8(), c.u8()
			}
		}
	}
	var valid []byte
	if out, _ := try(func() (err error) { valid, err = beserial.Marshal(nil, blk); return }); out != "ok" {
		return nil
	}
	for tries := 0; tries < 40; tries++ {
		in := valid
		if tries > 0 || c.one(3) {
			in = c.mutate(valid)
			for c.one(2) {
				in = c.mutate(in)
			}
		}
		if c.one(40) && len(in) > 150 { // no body
			in = append(in[:146:146], 0, 0)
		}
		var got wire.Block
		n := 0
		out, _ := try(func() (err error) { n, err = beserial.Unmarshal(in, &got); return })
		if out != "ok" || n == 0 || got.Header.Height > 60000000 {
			continue
		}
		return &got
	}
	return nil
}

func caseLedger(c *Ctx) {
	l := newLedger(c)
	l.open()
	n := 5 + c.Intn(5)
	if c.Index%160 == 80 { // a long chain
		n = 120 + c.Intn(60)
	}
	for i := 0; i < n; i++ {
		blk := l.block()
		if c.Index%120 == 60 && i == 2 { // many transactions
			blk = l.bulk(c.bulkSize(), false)
		}
		if c.one(3) { // what arrives has been decoded
			var got wire.Block
			out, _ := try(func() error {
				buf, err := beserial.Marshal(nil, blk)
				if err != nil {
					return err
				}
				return beserial.UnmarshalFull(buf, &got)
			})
			if out == "ok" {
				blk = &got
			}
		}
		if c.one(12) {
			if h := l.hostileBlock(blk); h != nil {
				blk = h
			}
		}
		if _, ok := l.push(blk); !ok {
			return
		}
	}
	if c.Index%160 == 40 { // many accounts change
		for i := 0; i < 2; i++ {
			if _, ok := l.push(l.wide([]int{200, 350, 600}[c.Intn(3)], i == 0)); !ok {
				return
			}
		}
	}
}

func caseHostile(c *Ctx) {
	l := newLedger(c)
	l.open()
	for i := 0; i < 10; i++ {
		blk := l.hostileBlock(l.block())
		if c.one(50) {
			blk = &wire.Block{Header: wire.BlockHeader{Height: uint32(c.Intn(3))}}
		}
		if blk == nil {
			continue
		}
		if _, ok := l.push(blk); !ok {
			return
		}
	}
}

func caseRevert(c *Ctx) {
	l := newLedger(c)
	l.open()
	for i := 0; i < 6; i++ {
		before := l.digest
		blk := l.block()
		before = l.nodesDigest()
		accepted, ok := l.push(blk)
		if !ok {
			return
		}
		if accepted {
			l.digest = before
			e := Event{"ev": "revert"}
			e["out"], e["msg"] = try(func() error { return l.acc.Revert(blk) })
			l.finish(e)
			return
		}
	}
}

// ---------------------------------------------------------------- single accounts

// caseApply: operations on single accounts, any heights and amounts.
func caseApply(c *Ctx) {
	l := &ledger{c: c, rich: c.one(2), base: c.u32()}
	for i := 0; i < 3; i++ {
		l.people = append(l.people, c.person())
	}
	l.height = l.near(l.base)
	for i := 0; i < 8; i++ {
		var acc wire.Account
		kind := c.Intn(3)
		only := map[string]int{"basic": 0, "vesting": 1, "htlc": 2}
		if k, ok := only[applyOnly]; ok {
			kind = k
		}
		switch kind {
		case 0:
			acc = &wire.BasicAccount{Value: l.balance()}
			if c.one(2) {
				acc = &wire.BasicAccount{Value: c.u64()}
			}
		case 1:
			acc = l.vesting()
		default:
			acc = l.htlc()
		}
		op := []string{"out", "out", "out", "in"}[c.Intn(4)]
		if applyOnly == "init" {
			op = "init"
		}
		height := l.near(l.base)
		switch x := acc.(type) {
		case *wire.VestingAccount:
			// around the ends of steps
			if c.one(2) {
				height = x.VestingStart + x.VestingStepBlocks*uint32(c.Intn(8)) + uint32(c.Intn(3)) - 1
			}
		case *wire.HTLCAccount:
			if c.one(2) {
				height = x.Timeout + uint32(c.Intn(3)) - 1
			}
			if c.one(20) {
				x.HashCount = 0
			}
		}
		if c.one(20) {
			height = c.u32()
		}
		value, fee := l.amounts(acc, height)
		ext := &wire.ExtendedTx{SenderType: acc.Type(), Value: value, Fee: fee, ValidityStartHeight: height, Proof: l.proofFor(acc, height)}
		var tx wire.Tx = ext
		if op == "in" {
			if c.one(2) {
				ext.Value = ^acc.Balance() + uint64(c.Intn(3)) - 1
			}
		}
		if acc.Type() == wire.AccountBasic && op != "init" && c.one(2) {
			tx = &wire.BasicTx{SenderPubKey: l.anyone().pub, Value: ext.Value, Fee: fee}
		}
		if op == "init" {
			prev := c.u64()
			acc = &wire.BasicAccount{Value: prev}
			ext.SenderType, ext.RecipientType = 0, uint8(1+c.Intn(2))
			ext.Flags = wire.TxFlagContractCreation
			ext.Data = l.creationData(ext.RecipientType, ext.Value)
			if c.one(10) {
				ext.Data = c.bytes(c.Intn(100))
			}
		}
		before, txBefore := fmt.Sprint(proj(wire.WrapAccount{Account: acc})), fmt.Sprint(proj(wire.WrapTx{Tx: tx}))
		e := Event{"ev": "apply", "op": op, "h": hu(uint64(height)), "acc": proj(wire.WrapAccount{Account: acc}).(object)["Account"],
			"tx": proj(wire.WrapTx{Tx: tx}).(object)["Tx"]}
		var res wire.Account
		e["out"], e["msg"] = try(func() (err error) {
			switch op {
			case "out":
				res, err = acc.ApplyOutgoingTx(tx, height)
			case "in":
				res, err = acc.ApplyIncomingTx(tx, height)
			case "init":
				if ext.RecipientType == wire.AccountVesting {
					res = new(wire.VestingAccount)
				} else {
					res = new(wire.HTLCAccount)
				}
				err = res.Init(tx, height, acc.Balance())
			}
			return
		})
		e["same"] = before == fmt.Sprint(proj(wire.WrapAccount{Account: acc})) && txBefore == fmt.Sprint(proj(wire.WrapTx{Tx: tx}))
		e["state"] = list{}
		e["again"] = true
		if e["out"] == "ok" {
			if res == nil {
				e["out"] = "nothing"
			} else {
				e["res"] = proj(wire.WrapAccount{Account: res}).(object)["Account"]
				e["bal"], e["empty"] = hu(res.Balance()), res.IsEmpty()
				if op != "init" { // the result is the caller's: changing it changes no later result
					overwrite(reflect.ValueOf(res))
					var more wire.Account
					out, _ := try(func() (err error) {
						if op == "out" {
							more, err = acc.ApplyOutgoingTx(tx, height)
						} else {
							more, err = acc.ApplyIncomingTx(tx, height)
						}
						return
					})
					e["again"] = out == "ok" && fmt.Sprint(proj(wire.WrapAccount{Account: more}).(object)["Account"]) == fmt.Sprint(e["res"])
				}
			}
		}
		c.Emit(e)
	}
}

var applyOnly = ""

func init() {
	for _, k := range []string{"basic", "vesting", "htlc", "init"} {
		k := k
		families["apply-"+k] = func(c *Ctx) { applyOnly = k; caseApply(c) }
	}

}
