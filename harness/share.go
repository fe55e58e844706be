package main

import (
	"crypto/ed25519"
	"reflect"
	"sync"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/address"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
)

func init() {
	families["readers"] = caseReaders
	families["records"] = caseRecords
	families["C36"] = casePeerID
	for _, group := range parGroups {
		for _, f := range group {
			f := f
			families["par-"+f] = func(c *Ctx) { casePar(c, f) }
		}
	}
}

// ---------------------------------------------------------------- copies

// deepCopy copies everything v refers to.
func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(deepCopy(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		x := reflect.New(v.Type()).Elem()
		x.Set(deepCopy(v.Elem()))
		return x
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(deepCopy(v.Index(i)))
		}
		return s
	case reflect.Struct, reflect.Array:
		x := reflect.New(v.Type()).Elem()
		x.Set(v)
		if v.Kind() == reflect.Array {
			return x
		}
		for i := 0; i < v.NumField(); i++ {
			x.Field(i).Set(deepCopy(v.Field(i)))
		}
		return x
	}
	return v
}

// overwrite changes every number, byte and flag v refers to, in place.
func overwrite(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			overwrite(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Array && !v.CanSet() {
			return
		}
		for i := 0; i < v.Len(); i++ {
			overwrite(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			overwrite(v.Field(i))
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 0x5b)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 0x5b)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

func copyBlock(b *wire.Block) *wire.Block {
	return deepCopy(reflect.ValueOf(b)).Interface().(*wire.Block)
}

// ---------------------------------------------------------------- concurrency

// the drivers that can run side by side, by the module that judges them
var parGroups = map[string][]string{
	"codec":  {"C16", "C17", "C18"},
	"wire":   {"C19", "C20", "C21", "C22"},
	"misc":   {"C25", "C26", "C29", "C32"},
	"tree":   {"tree", "treelayers"},
	"ledger": {"ledger", "hostile", "apply", "forks", "genesis"},
	"wallet": {"wallet", "peers", "keys", "views"},
	"share":  {"records", "C36"},
	"errors": {"C41", "C41w", "C41m"},
}

// casePar runs several cases of several drivers side by side and keeps what those of the driver record.
func casePar(c *Ctx, driver string) {
	const same, other = 3, 3
	var menu []string
	for _, g := range []string{"codec", "wire", "misc", "tree", "ledger", "wallet", "share", "errors"} {
		menu = append(menu, parGroups[g]...)
	}
	type job struct {
		driver string
		events []Event
	}
	jobs := make([]*job, 0, same+other)
	for i := 0; i < same+other; i++ {
		j := &job{driver: driver}
		if i >= same {
			j.driver = menu[c.Intn(len(menu))]
		}
		jobs = append(jobs, j)
	}
	seed := c.Int63()
	begin := make(chan struct{})
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j *job) {
			defer wg.Done()
			sub := &Ctx{Rand: caseRand(j.driver, seed, i), Prop: j.driver, Seed: seed, Index: int(uint32(seed)%100000)*8 + i, Total: c.Total, Tier: "quick", Par: true}
			if j.driver == driver { // the input is meant for this driver
				sub.Input = c.Input
			}
			sub.emit = func(e Event) {
				e["first"] = len(j.events) == 0
				j.events = append(j.events, e)
			}
			<-begin
			families[j.driver](sub)
		}(i, j)
	}
	close(begin)
	wg.Wait()
	for _, j := range jobs {
		if j.driver == driver {
			for _, e := range j.events {
				e["t"] = c.Index
				c.emit(e)
			}
		}
	}
}

// caseReaders: many goroutines read one state and one block at the same time.
func caseReaders(c *Ctx) {
	l := newLedger(c)
	for i := 0; i < 3; i++ {
		blk := l.block()
		_, _ = try(func() error { return l.acc.Push(blk) })
	}
	st, _ := l.leaves()
	blk := l.block()
	p := l.anyone()
	path := c.merklePath(c.Intn(5))
	proof := &wire.SignatureProof{PublicKey: p.pub, MerklePath: path}
	peer := c.goodPeerAddress()
	key := ed25519.NewKeyFromSeed(c.bytes(32))
	peer.Sign(key)
	msg := &wire.AddrMessage{Addresses: []wire.PeerAddress{peer, c.goodPeerAddress()}}
	const readers, reads = 6, 12
	// what to read is decided beforehand; everything read is shared
	all := append([][20]byte{}, l.all...)
	for i := 0; i < 3; i++ {
		all = append(all, c.address20())
	}
	type read struct {
		op   int
		addr [20]byte
	}
	plan := make([][]read, readers)
	for i := range plan {
		for j := 0; j < reads; j++ {
			plan[i] = append(plan[i], read{c.Intn(8), all[c.Intn(len(all))]})
		}
	}
	results := make([][]Event, readers)
	root := l.acc.Tree.Hash()
	begin := make(chan struct{})
	var wg sync.WaitGroup
	for i := range plan {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-begin
			for _, r := range plan[i] {
				results[i] = append(results[i], readShared(l, r.op, r.addr, blk, proof, &peer, msg))
			}
		}(i)
	}
	close(begin)
	wg.Wait()
	c.Emit(Event{"ev": "open", "state": st, "root": hx(root[:]), "block": proj(*blk), "proof": proj(*proof), "peer": proj(peer), "message": projMessage(msg)})
	for i := range results {
		for _, e := range results[i] {
			c.Emit(e)
		}
	}
}

func readShared(l *ledger, op int, addr [20]byte, blk *wire.Block, proof *wire.SignatureProof, peer *wire.PeerAddress, msg wire.Message) Event {
	e := Event{"ev": "read"}
	var r interface{} = ""
	e["out"], e["msg"] = guard(func() {
		switch op {
		case 0, 1:
			acc := l.acc.GetAccount(&addr)
			e["what"], e["addr"] = "account", hx(addr[:])
			r = object{"acc": proj(wire.WrapAccount{Account: acc}), "bal": hu(acc.Balance()), "eq": wire.AccountEq(acc, acc)}
		case 2:
			h := l.acc.Tree.Hash()
			e["what"], r = "root", hx(h[:])
		case 3:
			b, err := beserial.Marshal(nil, blk)
			n, err2 := beserial.Size(blk)
			e["what"], r = "block", object{"ok": err == nil && err2 == nil, "b": hx(b), "n": n}
		case 4:
			a := proof.SignerAddress()
			e["what"], r = "signer", hx(a[:])
		case 5:
			e["what"], r = "verify", peer.VerifySignature()
		case 6:
			b, err := wire.MarshalMessage(msg)
			e["what"], r = "message", object{"ok": err == nil, "b": hx(b)}
		case 7:
			text := address.Encode(&addr)
			back, err := address.Decode(text)
			e["what"], e["addr"] = "text", hx(addr[:])
			r = object{"text": hx([]byte(text)), "back": hx(back[:]), "ok": err == nil}
		}
	})
	e["r"] = r
	return e
}

// ---------------------------------------------------------------- account records

// anyAccount makes an account of any kind with any contents.
func (c *Ctx) anyAccount() wire.Account {
	acc := []wire.Account{new(wire.BasicAccount), new(wire.VestingAccount), new(wire.HTLCAccount)}[c.Intn(3)]
	v := reflect.ValueOf(acc).Elem()
	c.fill(v, false)
	switch c.Intn(4) {
	case 0:
		c.extreme(v)
	case 1:
		v.FieldByName("Value").SetUint(0)
	}
	return acc
}

// caseRecords stores and looks up accounts, without blocks.
func caseRecords(c *Ctx) {
	var addrs [][20]byte
	for i := 0; i < 4+c.Intn(4); i++ {
		a := c.address20()
		if i > 0 && c.one(2) {
			a = addrs[c.Intn(i)]
			a[19-c.Intn(20)] ^= 1 << uint(c.Intn(8))
		}
		addrs = append(addrs, a)
	}
	st := newLayered([]string{"mem", "copy"}[c.Intn(2)], 1, addrs)
	acc := accounts.NewAccounts(st.trees[0])
	n := 8 + c.Intn(8)
	for i := 0; i < n; i++ {
		a := addrs[c.Intn(len(addrs))]
		var x wire.Account
		if !c.one(8) {
			x = c.anyAccount()
		}
		if i > 0 && c.one(4) { // the one that is there, perhaps slightly changed
			_, _ = guard(func() { x = acc.GetAccount(&a) })
			if x != nil && c.one(2) {
				v := reflect.ValueOf(x).Elem()
				c.flipAny(v.Field(c.Intn(v.NumField())))
			}
		}
		e := Event{"ev": "store", "addr": hx(a[:]), "acc": proj(wire.WrapAccount{Account: x})}
		e["out"], e["msg"] = guard(func() { acc.PutAccount(&a, x) })
		if x != nil {
			overwrite(reflect.ValueOf(x)) // the caller's object is not the stored one
		}
		seen := list{}
		out, _ := guard(func() {
			for _, b := range addrs {
				b := b
				got := acc.GetAccount(&b)
				seen = append(seen, list{hx(b[:]), proj(wire.WrapAccount{Account: got}), hu(got.Balance()), got.IsEmpty(), int(got.Type())})
				overwrite(reflect.ValueOf(got)) // nor is the one handed out
			}
			h := st.trees[0].Hash()
			e["root"] = hx(h[:])
		})
		if out != "ok" {
			e["out"] = out
		}
		e["seen"] = seen
		c.Emit(e)
	}
	// equality of accounts
	for i := 0; i < 4; i++ {
		x := c.anyAccount()
		y := c.anyAccount()
		if !c.one(3) {
			y = deepCopy(reflect.ValueOf(x)).Interface().(wire.Account)
			if c.one(2) {
				v := reflect.ValueOf(y).Elem()
				c.flipAny(v.Field(c.Intn(v.NumField())))
			}
		}
		if c.one(8) {
			y = nil
		}
		if c.one(8) {
			x = nil
		}
		e := Event{"ev": "eq", "x": proj(wire.WrapAccount{Account: x}), "y": proj(wire.WrapAccount{Account: y})}
		var r, r2 bool
		e["out"], e["msg"] = guard(func() { r, r2 = wire.AccountEq(x, y), wire.AccountEq(y, x) })
		e["r"], e["r2"] = r, r2
		c.Emit(e)
	}
}

// flipAny changes one bit somewhere in f.
func (c *Ctx) flipAny(f reflect.Value) {
	switch f.Kind() {
	case reflect.Struct:
		c.flipAny(f.Field(c.Intn(f.NumField())))
	default:
		c.flip(f)
	}
}

// ---------------------------------------------------------------- peers

func casePeerID(c *Ctx) {
	var pub []byte
	for i := 0; i < 6; i++ {
		if i > 0 && c.one(2) { // like the last one
			pub = append([]byte{}, pub...)
			switch {
			case c.one(5): // another length
				pub = append(pub, make([]byte, 1+c.Intn(3)*15)...)
			case c.one(5):
				pub = pub[:c.Intn(len(pub)+1)]
			case len(pub) == 32:
				pub[c.Intn(32)] ^= 1 << uint(c.Intn(8))
				if c.one(3) {
					c.Rand.Read(pub[16*c.Intn(2):][:16])
				}
			}
		} else {
			pub = c.bytes(32)
		}
		switch c.Intn(7) {
		case 0:
			pub = make([]byte, 32)
		case 1:
			pub = []byte(ed25519.NewKeyFromSeed(c.bytes(32)).Public().(ed25519.PublicKey))
		case 2:
			if len(pub) > 0 {
				pub[c.Intn(len(pub))] = 0
			}
		case 3:
			if c.one(4) {
				pub = c.bytes([]int{0, 1, 16, 31, 33, 64, 127, 128, 129, 300}[c.Intn(10)])
			}
		}
		arg := append(ed25519.PublicKey{}, pub...)
		var id wire.PeerID
		e := Event{"ev": "id", "pub": hx(pub)}
		e["out"], e["msg"] = guard(func() { id = wire.GetPeerID(arg) })
		e["id"], e["same"] = hx(id[:]), hx(arg) == hx(pub)
		c.Emit(e)
	}
	proto := uint8(c.Index)
	e := Event{"ev": "scheme", "proto": int(proto)}
	s := ""
	e["out"], e["msg"] = guard(func() { s = wire.ProtocolScheme(proto) })
	e["scheme"] = s
	c.Emit(e)
}
