package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"terorie.dev/nimiq/address"
	"terorie.dev/nimiq/policy"
	"terorie.dev/nimiq/wire"
)

func init() {
	families["C25"] = caseAddressRoundTrip
	families["C26"] = caseAddressText
	families["C27"] = caseEmission
	families["C28"] = caseConcurrent
	families["C29"] = caseCompact
	families["C32"] = caseNibbles
	specials["policy-run"] = policyRun
	specials["policy-conc"] = policyConc
}

// ---------------------------------------------------------------- addresses

func (c *Ctx) address20() (a [20]byte) {
	switch c.Intn(10) {
	case 0:
	case 1:
		for i := range a {
			a[i] = 0xff
		}
	case 2:
		a[c.Intn(20)] = 1 << uint(c.Intn(8))
	case 3: // counter-like: covers every check remainder over the cases
		a[19], a[18] = byte(c.Index), byte(c.Index>>8)
	case 4:
		b := byte(c.u64())
		for i := range a {
			a[i] = b
		}
	default:
		c.Read(a[:])
	}
	return
}

func decodeAddress(text string) Event {
	e := Event{"text": hx([]byte(text))}
	var got [20]byte
	e["out"], e["msg"] = try(func() (err error) { got, err = address.Decode(text); return })
	e["addr"] = hx(got[:])
	return e
}

func caseAddressRoundTrip(c *Ctx) {
	a := c.address20()
	c.roundTrip(a)
	for k := 0; k < 2; k++ { // others that agree with it in part
		b := a
		for j := 0; j <= c.Intn(3); j++ {
			i := c.Intn(20)
			if c.one(3) {
				i = 19 * c.Intn(2)
			}
			b[i] ^= 1 << uint(c.Intn(8))
		}
		c.roundTrip(b)
	}
}

func (c *Ctx) roundTrip(a [20]byte) {
	orig := a
	text := ""
	e := Event{"ev": "encode", "in": hx(a[:])}
	e["out"], e["msg"] = guard(func() { text = address.Encode(&a) })
	e["text"] = hx([]byte(text))
	if a != orig {
		e["in"] = "altered"
	}
	c.Emit(e)
	for i := 0; i < 3; i++ {
		t := text
		switch i {
		case 1:
			t = strings.Replace(text, " ", "", -1)
		case 2: // spaces anywhere
			var sb strings.Builder
			for _, r := range []byte(strings.Replace(text, " ", "", -1)) {
				for c.one(3) {
					sb.WriteByte(' ')
				}
				sb.WriteByte(r)
			}
			for c.one(2) {
				sb.WriteByte(' ')
			}
			t = sb.String()
		}
		d := decodeAddress(t)
		d["ev"], d["orig"] = "decode", hx(a[:])
		c.Emit(d)
	}
}

const alphabet32 = "0123456789ABCDEFGHJKLMNPQRSTUVXY"

// fixCheck sets the check digits of a compact text so that the remainder is want; with letters it
// searches combinations.
func (c *Ctx) fixCheck(b []byte, want int) {
	rem := func() int {
		n := 0
		for _, ch := range append(append([]byte{}, b[4:]...), b[:4]...) {
			switch {
			case ch >= '0' && ch <= '9':
				n = (n*10 + int(ch-'0')) % 97
			case ch >= 'A' && ch <= 'Z':
				n = (n*100 + int(ch-'A') + 10) % 97
			case ch >= 'a' && ch <= 'z':
				n = (n*100 + int(ch-'a') + 10) % 97
			}
		}
		return n
	}
	set := "0123456789"
	if c.one(3) {
		set = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	}
	for _, i := range c.Perm(len(set)) {
		for _, j := range c.Perm(len(set)) {
			b[2], b[3] = set[i], set[j]
			if rem() == want {
				return
			}
		}
	}
}

func caseAddressText(c *Ctx) {
	for k := 0; k < 8; k++ {
		a := c.address20()
		b := []byte("NQ00")
		n := new(big.Int).SetBytes(a[:])
		var data [32]byte
		for i := 31; i >= 0; i-- {
			var m big.Int
			n.DivMod(n, big.NewInt(32), &m)
			data[i] = alphabet32[m.Int64()]
		}
		b = append(b, data[:]...)
		c.fixCheck(b, 1)
		fix := false
		switch c.Intn(16) {
		case 0: // valid as it is
		case 1: // altered character
			b[c.Intn(36)] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz"[c.Intn(42)]
		case 2: // swapped neighbours
			i := c.Intn(35)
			b[i], b[i+1] = b[i+1], b[i]
		case 3: // swapped any
			i, j := c.Intn(36), c.Intn(36)
			b[i], b[j] = b[j], b[i]
		case 4: // country code, with a right checksum
			b[c.Intn(2)] = "NQMPRabnq0189ABCXYZ"[c.Intn(19)]
			fix = true
		case 5: // character outside the alphabet, with a right checksum
			b[4+c.Intn(32)] = "IOWZ"[c.Intn(4)]
			fix = true
		case 6: // lower case
			i := c.Intn(36)
			b[i] = bytes.ToLower(b[i : i+1])[0]
			fix = c.one(2)
		case 7: // too short
			i := c.Intn(36)
			b = append(b[:i], b[i+1:]...)
		case 8: // too long
			i := c.Intn(37)
			b = append(b[:i:i], append([]byte{"0A9Z"[c.Intn(4)]}, b[i:]...)...)
		case 9: // odd bytes
			b[c.Intn(36)] = byte(c.u64())
		case 10: // other whitespace
			i := c.Intn(37)
			b = append(b[:i:i], append([]byte{"\t\n\r\x00\x0b="[c.Intn(6)]}, b[i:]...)...)
		case 11: // replace by whitespace or padding
			b[c.Intn(36)] = "\t\n\r\x00="[c.Intn(5)]
		case 12: // other remainder
			c.fixCheck(b, c.Intn(97))
		case 13: // several characters, right checksum: another address
			for i := 0; i < 3; i++ {
				b[4+c.Intn(32)] = alphabet32[c.Intn(32)]
			}
			fix = true
		case 14: // cut or doubled
			b = b[:c.Intn(37)]
			if c.one(2) {
				b = append(b, b...)
			}
		case 15: // anything
			b = c.bytes(c.Intn(50))
		}
		if fix && len(b) == 36 {
			c.fixCheck(b, 1)
		}
		// spaces
		var sb strings.Builder
		mode := c.Intn(3)
		for i, r := range b {
			if mode == 1 && i%4 == 0 && i > 0 {
				sb.WriteByte(' ')
			}
			for mode == 2 && c.one(4) {
				sb.WriteByte(' ')
			}
			sb.WriteByte(r)
		}
		if mode == 2 && c.one(2) {
			sb.WriteString("  ")
		}
		e := decodeAddress(sb.String())
		e["ev"] = "text"
		c.Emit(e)
	}
}

// ---------------------------------------------------------------- emission

type query struct {
	Fn string `json:"fn"`
	H  uint32 `json:"h"`
}

type answer struct {
	Fn  string `json:"fn"`
	H   string `json:"h"`
	Out string `json:"out"`
	R   string `json:"r"`
}

func (q query) ask() answer {
	a := answer{Fn: q.Fn, H: strconv.Itoa(int(q.H)), Out: "panic"}
	var r uint64
	func() {
		defer func() { _ = recover() }()
		switch q.Fn {
		case "after":
			r = policy.SupplyAfter(q.H)
		case "reward":
			r = policy.BlockReward(q.H)
		}
		a.Out = "ok"
	}()
	a.R = hu(r)
	return a
}

// policyRun answers the queries of its argument one after the other in a fresh process.
func policyRun(args []string) {
	var qs []query
	if err := json.Unmarshal([]byte(args[0]), &qs); err != nil {
		fail("%s", err)
	}
	var as []answer
	for _, q := range qs {
		as = append(as, q.ask())
	}
	buf, _ := json.Marshal(as)
	fmt.Println(string(buf))
}

const emissionEnd = 52890560

func (c *Ctx) height(max int) uint32 {
	k := int(policy.SupplyCacheInterval)
	if k <= 0 {
		k = 5000
	}
	var h int
	switch c.Intn(9) {
	case 0:
		h = c.Intn(4)
	case 1:
		h = k*c.Intn(max/k+1) + c.Intn(5) - 2
	case 2:
		h = 48692960 + c.Intn(7) - 3
	case 3:
		h = emissionEnd + c.Intn(200) - 100
	case 4:
		h = c.Intn(53000000)
	case 5:
		h = k*(1+c.Intn(3)) + c.Intn(5) - 2
	default:
		h = c.Intn(max)
	}
	if h > max {
		h = c.Intn(max)
	}
	if h < 0 {
		h = 0
	}
	return uint32(h)
}

func subprocess(limit time.Duration, args ...string) (out []byte, stderr string, outcome string) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	self, err := os.Executable()
	if err != nil {
		fail("%s", err)
	}
	cmd := exec.CommandContext(ctx, self, args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	err = cmd.Run()
	switch {
	case ctx.Err() != nil:
		atomic.AddInt32(&hangs, 1)
		return nil, e.String(), "hang"
	case err == nil:
		return o.Bytes(), e.String(), "ok"
	case cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 66:
		return nil, e.String(), "race"
	default:
		return nil, e.String(), "crash"
	}
}

// caseEmission: a sequence of queries to a cold process, then consecutive heights around one.
func caseEmission(c *Ctx) {
	max := 2000000
	if c.one(6) {
		max = 53000000
	}
	var qs []query
	for i := 0; i < 2+c.Intn(10); i++ {
		q := query{Fn: "after", H: c.height(max)}
		if c.one(3) && q.H > 0 {
			q.Fn = "reward"
		}
		if len(qs) > 0 && c.one(3) { // around an earlier height
			q.H = qs[c.Intn(len(qs))].H + uint32(c.Intn(3)) - 1
			if q.H > 60000000 {
				q.H = 1
			}
			if q.H == 0 {
				q.Fn = "after"
			}
		}
		qs = append(qs, q)
	}
	buf, _ := json.Marshal(qs)
	out, msg, outcome := subprocess(30*time.Second, "policy-run", string(buf))
	var as []answer
	if outcome == "ok" {
		if json.Unmarshal(out, &as) != nil {
			outcome = "crash"
		}
	}
	if len(msg) > 300 {
		msg = msg[:300]
	}
	c.Emit(Event{"ev": "run", "out": outcome, "msg": msg, "asked": len(qs)})
	for _, a := range as {
		c.Emit(Event{"ev": "q", "fn": a.Fn, "h": atoi(a.H), "out": a.Out, "r": a.R})
	}
	// the recurrence step by step (this process, warm cache)
	h := c.height(max)
	if h == 0 {
		h = 1
	}
	for i := uint32(0); i < 6; i++ {
		e := Event{"ev": "step", "h": int(h + i)}
		var before, reward, after, between, bySupply uint64
		e["out"], e["msg"] = guard(func() {
			if c.one(2) {
				before = policy.SupplyAfter(h + i - 1)
				reward = policy.BlockReward(h + i)
				after = policy.SupplyAfter(h + i)
			} else {
				after = policy.SupplyAfter(h + i)
				reward = policy.BlockReward(h + i)
				before = policy.SupplyAfter(h + i - 1)
			}
			between = policy.SupplyBetween(before, h+i, h+i+1)
			bySupply = policy.BlockRewardBySupply(before, h+i)
		})
		e["before"], e["reward"], e["after"], e["between"], e["bysupply"] = hu(before), hu(reward), hu(after), hu(between), hu(bySupply)
		c.Emit(e)
	}
	// the pure functions for any supply
	supply := policy.TotalSupply - c.u64()%policy.TotalSupply
	hh := c.u32() >> 1
	if c.one(2) {
		hh = uint32(48692960 + c.Intn(5) - 2)
	}
	if c.one(3) {
		supply = policy.TotalSupply - uint64(c.Intn(9000))
	}
	e := Event{"ev": "pure", "supply": hu(supply), "h": int(hh)}
	var r uint64
	e["out"], e["msg"] = guard(func() { r = policy.BlockRewardBySupply(supply, hh) })
	e["r"] = hu(r)
	c.Emit(e)
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

type concRun struct {
	Procs  int       `json:"procs"`
	Warm   []query   `json:"warm"`
	Conc   [][]query `json:"conc"`
	After  []query   `json:"after"`
	Jitter int       `json:"jitter"`
	Storm  int       `json:"storm"` // how often everybody asks
}

// policyConc asks concurrently in a fresh process.
func policyConc(args []string) {
	var run concRun
	if err := json.Unmarshal([]byte(args[0]), &run); err != nil {
		fail("%s", err)
	}
	runtime.GOMAXPROCS(run.Procs)
	var as []answer
	for _, q := range run.Warm {
		as = append(as, q.ask())
	}
	res := make([][]answer, len(run.Conc))
	start := make(chan struct{})
	var ready, done sync.WaitGroup
	for i := range run.Conc {
		ready.Add(1)
		done.Add(1)
		go func(i int) {
			defer done.Done()
			ready.Done()
			<-start
			for k := 0; k < (i*run.Jitter)%7; k++ {
				runtime.Gosched()
			}
			for _, q := range run.Conc[i] {
				res[i] = append(res[i], q.ask())
			}
			// again and again: whatever differs is reported too
			for k, n := 0, 0; k < run.Storm && n < 4; k++ {
				j := k % len(run.Conc[i])
				if a := run.Conc[i][j].ask(); a != res[i][j] {
					res[i] = append(res[i], a)
					n++
				}
			}
		}(i)
	}
	ready.Wait()
	close(start)
	done.Wait()
	for _, r := range res {
		as = append(as, r...)
	}
	for _, q := range run.After {
		as = append(as, q.ask())
	}
	buf, _ := json.Marshal(as)
	fmt.Println(string(buf))
}

func caseConcurrent(c *Ctx) {
	max := []int{20000, 100000, 600000}[c.Intn(3)]
	run := concRun{Procs: []int{1, 2, 4, 8}[c.Intn(4)], Jitter: c.Intn(5)}
	draw := func() query {
		q := query{Fn: "after", H: uint32(c.Intn(max))}
		if c.one(3) {
			q = query{Fn: "reward", H: uint32(1 + c.Intn(max))}
		}
		if c.one(40) {
			q = query{Fn: "reward", H: 0} // not a block: panics, and disturbs nobody
		}
		return q
	}
	for k := c.Intn(3); k > 0; k-- {
		run.Warm = append(run.Warm, draw())
	}
	same := c.one(3) // everybody asks the same, the cache grows once
	q := draw()
	n := 2 + c.Intn(14)
	for i := 0; i < n; i++ {
		var qs []query
		for k := 0; k < 1+c.Intn(4); k++ {
			if !same {
				q = draw()
			}
			qs = append(qs, q)
		}
		run.Conc = append(run.Conc, qs)
	}
	if c.one(8) { // answers that take no time, many times over
		run.Storm, run.Procs = 30000, 8
		at := c.Intn(20) * 5000
		for i := range run.Conc {
			for k := range run.Conc[i] {
				run.Conc[i][k] = query{"after", uint32(at + c.Intn(40))}
			}
		}
	}
	for k := 0; k < 6; k++ {
		run.After = append(run.After, draw())
	}
	for i := uint32(0); i < 4; i++ {
		run.After = append(run.After, query{"after", uint32(max)/5000*5000 - 5000*i})
	}
	buf, _ := json.Marshal(run)
	total := len(run.Warm) + len(run.After)
	for _, qs := range run.Conc {
		total += len(qs)
	}
	out, msg, outcome := subprocess(30*time.Second, "policy-conc", string(buf))
	var as []answer
	if outcome == "ok" && json.Unmarshal(out, &as) != nil {
		outcome = "crash"
	}
	if len(msg) > 1500 {
		msg = msg[:1500]
	}
	c.Emit(Event{"ev": "run", "out": outcome, "msg": msg, "asked": total, "goroutines": n})
	for _, a := range as {
		c.Emit(Event{"ev": "q", "fn": a.Fn, "h": atoi(a.H), "out": a.Out, "r": a.R})
	}
}

// ---------------------------------------------------------------- targets

func (c *Ctx) bigNumber(maxBytes int) *big.Int {
	n := 1 + c.Intn(maxBytes)
	b := c.bytes(n)
	switch c.Intn(5) {
	case 0:
		b[0] = []byte{0x7f, 0x80, 0xff, 0x01}[c.Intn(4)]
	case 1:
		for i := 1; i < n; i++ {
			b[i] = 0
		}
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		for i := range b {
			b[i] = 0
		}
		b[0] = 1 << uint(c.Intn(8))
	}
	x := new(big.Int).SetBytes(b)
	if c.one(4) {
		x.Add(x, big.NewInt(int64(c.Intn(3)-1)))
	}
	if x.Sign() <= 0 || x.BitLen() > 8*maxBytes {
		return big.NewInt(int64(1 + c.Intn(300)))
	}
	return x
}

func caseCompact(c *Ctx) {
	t := big.NewInt(1)
	for k := 0; k < 6; k++ {
		if last := t; k > 0 && c.one(3) { // like the last one
			t = new(big.Int)
			t.SetBit(last, c.Intn(last.BitLen()), uint(c.Intn(2)))
			if t.Sign() == 0 {
				t.SetInt64(1)
			}
		} else {
			t = c.bigNumber(32)
			if c.one(4) { // the size still fits a byte
				t = c.bigNumber(254)
			}
		}
		orig := new(big.Int).Set(t)
		e := Event{"ev": "compact", "x": hx(t.Bytes())}
		var got uint32
		e["out"], e["msg"] = guard(func() { got = wire.TargetToCompact(*t) })
		e["r"] = fmt.Sprintf("%08x", got)
		e["same"] = t.Cmp(orig) == 0
		c.Emit(e)
	}
	for k := 0; k < 4; k++ {
		d := c.bigNumber(34)
		if c.one(3) {
			d = c.bigNumber(4)
		} else if c.one(8) {
			d = c.bigNumber(120)
		}
		orig := new(big.Int).Set(d)
		e := Event{"ev": "difficulty", "x": hx(d.Bytes())}
		var target big.Int
		var compact uint32
		e["out"], e["msg"] = guard(func() { target = wire.DifficultyToTarget(*d) })
		e["target"] = hx(target.Bytes())
		if target.Sign() < 0 {
			e["target"] = "ff"
			e["out"] = "negative"
		}
		e["cout"], e["cmsg"] = guard(func() { compact = wire.DifficultyToCompact(*d) })
		e["r"] = fmt.Sprintf("%08x", compact)
		e["same"] = d.Cmp(orig) == 0
		e["max"] = hx(policy.BlockTargetMax.Bytes())
		c.Emit(e)
	}
}

// ---------------------------------------------------------------- nibbles

func (c *Ctx) path(n int) wire.Nibbles {
	p := make(wire.Nibbles, n)
	for i := range p {
		p[i] = byte(c.Intn(16))
		if c.one(4) {
			p[i] = []byte{0, 15, 8, 7}[c.Intn(4)]
		}
	}
	return p
}
