package main

import (
	"archive/tar"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

func init() {
	families["genesis"] = caseGenesis
	families["replay"] = caseReplay
}

// scratch runs f in a directory of its own below the current one. Cases that run side by
// side stay where they are and find their directory in c.dir.
func (c *Ctx) scratch(f func()) {
	top, err := os.Getwd()
	if err != nil {
		fail("%s", err)
	}
	dir, err := os.MkdirTemp(top, "case")
	if err != nil {
		fail("%s", err)
	}
	if c.Par {
		c.dir = dir + "/"
		defer os.RemoveAll(dir)
		f()
		return
	}
	if err := os.Chdir(dir); err != nil {
		fail("%s", err)
	}
	defer func() {
		_ = os.Chdir(top)
		_ = os.RemoveAll(dir)
	}()
	f()
}

// route spells the path of a profile: as it is, from here, from above, from the root.
func (c *Ctx) route(name string) string {
	here, err := os.Getwd()
	if err != nil {
		fail("%s", err)
	}
	if c.Par {
		here = strings.TrimSuffix(c.dir, "/")
	}
	switch k := c.Intn(8); {
	case k == 0 || c.Par:
		return here + "/" + name
	case k == 1 || name == "main" || name == "test":
		return "./" + name
	case k == 2:
		return "../" + filepath.Base(here) + "/" + name
	case k == 3:
		return strings.Replace(name, "/", "//", 1)
	}
	return name
}

// file is where the case keeps a file.
func (c *Ctx) file(name string) string { return c.dir + name }

func write(name string, b []byte) {
	if d := filepath.Dir(name); d != "." {
		_ = os.MkdirAll(d, 0o755)
	}
	if err := os.WriteFile(name, b, 0o644); err != nil {
		fail("%s", err)
	}
}

// ---------------------------------------------------------------- configurations

// conf is what a configuration file says.
type conf struct {
	id           uint8
	name         string
	peers, lists []string
	hash         []byte
	keys         []string // keys that are written
}

func (k conf) has(key string) bool {
	for _, x := range k.keys {
		if x == key {
			return true
		}
	}
	return false
}

func (k conf) proj() object {
	strs := func(ss []string) list {
		l := list{}
		for _, s := range ss {
			l = append(l, hx([]byte(s)))
		}
		return l
	}
	o := object{"NetworkID": "0", "Name": "", "SeedPeers": list{}, "SeedLists": list{}, "GenesisHash": strings.Repeat("00", 32)}
	if k.has("network_id") {
		o["NetworkID"] = hu(uint64(k.id))
	}
	if k.has("name") {
		o["Name"] = hx([]byte(k.name))
	}
	if k.has("seed_peers") {
		o["SeedPeers"] = strs(k.peers)
	}
	if k.has("seed_lists") {
		o["SeedLists"] = strs(k.lists)
	}
	if k.has("genesis_hash") && len(k.hash) > 0 {
		o["GenesisHash"] = hx(k.hash)
	}
	return o
}

func (c *Ctx) text() string {
	parts := []string{"a", "Z", "0", "-", ".", ":", "/", " ", "wss://seed", "#", "=", "[", "]", ",", "'", "ä", "\u2603", "\\", "\"", "\t"}
	s := ""
	for i := c.Intn(12); i > 0; i-- {
		s += parts[c.Intn(len(parts))]
	}
	return s
}

func (c *Ctx) texts() (ss []string) {
	for i := c.Intn(5); i > 0; i-- {
		ss = append(ss, c.text())
	}
	return
}

func (c *Ctx) conf() (k conf) {
	k.id, k.name, k.peers, k.lists = c.u8(), c.text(), c.texts(), c.texts()
	k.hash = c.bytes(32)
	if c.one(6) {
		k.hash = nil
	}
	k.keys = []string{"network_id", "name", "seed_peers", "seed_lists", "genesis_hash"}
	c.Shuffle(5, func(i, j int) { k.keys[i], k.keys[j] = k.keys[j], k.keys[i] })
	if c.one(3) {
		k.keys = k.keys[:c.Intn(6)]
	}
	return
}

func (c *Ctx) quote(s string) string {
	if c.one(2) && !strings.ContainsAny(s, "'\t") {
		return "'" + s + "'"
	}
	r := strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\t", "\\t")
	return "\"" + r.Replace(s) + "\""
}

func (c *Ctx) toml(k conf) string {
	out := c.tomlKeys(k)
	if c.one(15) { // and a table of something else
		out += fmt.Sprintf("[%s]\nname = \"other\"\nnetwork_id = 9\n", []string{"maintainer", "x.y"}[c.Intn(2)])
	}
	return out
}

func (c *Ctx) tomlKeys(k conf) string {
	out := ""
	array := func(ss []string) string {
		var q []string
		for _, s := range ss {
			q = append(q, c.quote(s))
		}
		switch c.Intn(3) {
		case 0:
			return "[" + strings.Join(q, ", ") + "]"
		case 1:
			return "[\n  " + strings.Join(q, ",\n  ") + "\n]"
		}
		if len(q) == 0 {
			return "[ ]"
		}
		return "[\n" + strings.Join(q, ",\n") + ",\n]"
	}
	for _, key := range k.keys {
		if c.one(6) {
			out += "# comment = 1\n"
		}
		if c.one(6) {
			out += "\n"
		}
		eq := []string{" = ", "="}[c.Intn(2)]
		if c.one(12) { // a key the reader has no use for
			out += fmt.Sprintf("x_%d%s%s\n", c.Intn(1e9), eq, []string{"1", "\"a\"", "true", "[1, 2]", "2018-04-17T00:00:00Z", "0.5"}[c.Intn(6)])
		}
		switch key {
		case "network_id":
			out += key + eq + strconv.Itoa(int(k.id)) + "\n"
		case "name":
			out += key + eq + c.quote(k.name) + "\n"
		case "seed_peers":
			out += key + eq + array(k.peers) + "\n"
		case "seed_lists":
			out += key + eq + array(k.lists) + "\n"
		case "genesis_hash":
			s := hx(k.hash)
			if c.one(4) {
				s = strings.ToUpper(s)
			}
			out += key + eq + "\"" + s + "\"\n"
		}
	}
	return out
}

// breakConf makes a configuration that no reader accepts.
func (c *Ctx) breakConf(k conf) string {
	drop := func(key string) {
		var ks []string
		for _, x := range k.keys {
			if x != key {
				ks = append(ks, x)
			}
		}
		k.keys = ks
	}
	bad := ""
	switch n := c.Intn(12); {
	case n >= 9: // a hash and something else
		drop("genesis_hash")
		h := hx(c.bytes(32))
		junk := []string{" ", "  ", "\\t", "\\n", "0x", "0X", "-", ":", ",", "=", "00", "\\u0000"}[c.Intn(12)]
		if c.one(2) {
			junk = " "
		}
		at := []int{0, 0, 64, 64, 2, 32, c.Intn(65)}[c.Intn(7)]
		if c.one(4) { // instead of some of it
			n := len(junk)
			if n == 6 || strings.HasPrefix(junk, "\\") {
				n = 1
			}
			if at > 64-n {
				at = 64 - n
			}
			if junk == "00" {
				junk = "0 "
			}
			h = h[:at] + junk + h[at+n:]
		} else {
			h = h[:at] + junk + h[at:]
		}
		bad = "genesis_hash = \"" + h + "\"\n"
	case n == 0:
		drop("genesis_hash")
		bad = "genesis_hash = \"" + hx(c.bytes(c.Intn(31)+1)) + "\"\n"
	case n == 1:
		drop("genesis_hash")
		bad = "genesis_hash = \"" + hx(c.bytes(33+c.Intn(3))) + "\"\n"
	case n == 2:
		drop("genesis_hash")
		s := []byte(hx(c.bytes(32)))
		s[c.Intn(64)] = 'g'
		bad = "genesis_hash = \"" + string(s) + "\"\n"
	case n == 3:
		drop("genesis_hash")
		bad = "genesis_hash = \"" + hx(c.bytes(32))[:63] + "\"\n"
	case n == 4:
		drop("network_id")
		bad = "network_id = \"one\"\n"
	case n == 5:
		drop("network_id")
		bad = "network_id = " + []string{"256", "-1", "100000"}[c.Intn(3)] + "\n"
	case n == 6:
		drop("name")
		bad = "name = \"abc\n"
	case n == 7:
		drop("seed_peers")
		bad = "seed_peers = [\"a\", \"b\"\n"
	case n == 8:
		return c.tomlKeys(k) + "= 5\n"
	}
	return c.tomlKeys(k) + bad
}

// ---------------------------------------------------------------- profiles

type profileFiles struct {
	name, path      string
	conf            object // what the configuration says
	confOK          bool
	block, accounts []byte
	noBlock, noAccs bool
}

// label is the path without what is different the next time.
func (p *profileFiles) label() string {
	if strings.HasPrefix(p.path, "/") || strings.HasPrefix(p.path, "../") {
		return ".../" + p.name
	}
	return p.path
}

func (p *profileFiles) event(e Event) Event {
	e["name"] = p.label()
	e["conf"] = object{"ok": p.confOK, "v": p.conf}
	e["blockfile"] = object{"there": !p.noBlock, "bytes": hx(p.block)}
	e["accountsfile"] = object{"there": !p.noAccs, "bytes": hx(p.accounts)}
	return e
}

// chain is a generated profile with the ledger that stands at its genesis state.
func (c *Ctx) chain() (l *ledger, accs, block []byte, ok bool) {
	l = newLedger(c)
	leaves, whole := l.leaves()
	if !whole {
		return
	}
	c.Shuffle(len(leaves), func(i, j int) { leaves[i], leaves[j] = leaves[j], leaves[i] })
	for n := c.Intn(6) - 3; n > 0 && len(leaves) > 0; n-- { // listed before with something else, the last one counts
		x := leaves[c.Intn(len(leaves))]
		stale := x
		switch {
		case c.one(3):
			stale = l.stale(x[0], 0) // nothing
		case c.one(2) && x[1] != "":
			stale = l.stale(x[0], 1+uint64(c.Intn(1000)))
		default: // listed and then emptied
			k := hx(c.bytes(20))
			leaves = append([][]string{l.stale(k, 7)}, append(leaves, l.stale(k, 0))...)
			continue
		}
		leaves = append([][]string{stale}, leaves...)
	}
	accs = []byte{byte(len(leaves) >> 8), byte(len(leaves))}
	for _, x := range leaves {
		accs = append(append(accs, unhex(x[0])...), unhex(x[1])...)
	}
	for i := 0; i < 8; i++ {
		b := l.block()
		if !c.one(4) {
			b.Body.Txs, b.Body.Pruned = nil, nil
		}
		if !l.apply(b) {
			continue
		}
		out, _ := try(func() (err error) { block, err = beserial.Marshal(nil, b); return })
		ok = out == "ok"
		return
	}
	return
}

// stale is a line of an accounts file.
func (l *ledger) stale(addr string, balance uint64) []string {
	return []string{addr, fmt.Sprintf("00%016x", balance)}
}

// apply pushes a block and makes it claim the root it leads to.
func (l *ledger) apply(b *wire.Block) bool {
	c := l.c
	_, _ = c.Read(b.Header.PrevHash[:])
	if c.one(3) {
		b.Interlink = c.interlink(c.Intn(5))
	}
	if c.one(4) {
		b.Body.ExtraData = c.bytes(c.Intn(30))
	}
	out, _ := try(func() error { return l.acc.Push(b) })
	if o, _ := guard(func() { b.Header.AccountsHash = l.acc.Tree.Hash() }); o != "ok" {
		return false
	}
	return out == "ok"
}

// otherRoot makes an encoded block claim a state root that stands out.
func (c *Ctx) otherRoot(b []byte) {
	for i := range b[98:130] {
		switch c.Index % 4 {
		case 0, 1:
			b[98+i] = 0
		case 2:
			b[98+i] = 0xff
		case 3:
			b[98+i] = b[2+i]
		}
	}
	if c.Index%8 > 5 { // that of the empty tree
		r := (&tree.PMTree{Store: tree.NewMemStore()}).Hash()
		copy(b[98:130], r[:])
	}
}

func projConf(k *genesis.Config) object {
	return object{"NetworkID": hu(uint64(k.NetworkID)), "Name": hx([]byte(k.Name)), "SeedPeers": proj(k.SeedPeers), "SeedLists": proj(k.SeedLists),
		"GenesisHash": hx(k.GenesisHash[:])}
}

func (c *Ctx) openProfile(p *profileFiles) (prof *genesis.Profile) {
	e := p.event(Event{"ev": "open"})
	e["out"], e["msg"] = try(func() (err error) { prof, err = genesis.OpenProfile(p.path); return })
	if e["out"] == "ok" {
		if o, _ := guard(func() {
			e["gotconf"], e["gotblock"], e["gotaccounts"] = projConf(prof.Config), proj(prof.Block), proj(prof.Accounts)
		}); o != "ok" {
			e["out"] = "broken"
		}
	}
	if e["out"] != "ok" {
		prof = nil
	}
	c.Emit(e)
	return
}

func (c *Ctx) initProfile(prof *genesis.Profile, name string, known [][20]byte) {
	l := &ledger{c: c}
	l.store = newLayered([]string{"mem", "copy"}[c.Intn(2)], 1, known)
	l.acc = accounts.NewAccounts(l.store.trees[0])
	e := Event{"ev": "init", "name": name}
	e["out"], e["msg"] = try(func() error { return prof.InitAccounts(l.acc) })
	e["state"], e["root"] = list{}, ""
	scramble(prof) // what the profile holds from now on does not matter
	if e["out"] == "ok" {
		var ok bool
		if e["state"], ok = l.leaves(); !ok {
			e["out"] = "broken"
		}
		if o, _ := guard(func() { h := l.acc.Tree.Hash(); e["root"] = hx(h[:]) }); o != "ok" {
			e["out"] = "broken"
		}
	}
	c.Emit(e)
}

// names of profiles; the first two thirds are the usual ones.
var names = []string{"p", "net.work", "mainnet", "sub/p", "main/test", "a b", "main", "x/test", "p", "net.work", "mainnet", "sub/p", "main/test", "main", "x/test", "test",
	"p.toml", "p.block.bin", "main.toml", "p.", ".p", "-p", "P", "Main", "TEST", "d.toml/p", "a/b/c/d/p", "main.block", "p.accounts.bin", "\u00e9\u4e2d", "p%20q", "p*[a]", strings.Repeat("n", 200)}

func builtin(c *Ctx, name string) (p *profileFiles) {
	var all map[string]object
	if b, err := os.ReadFile(c.Input); err != nil || json.Unmarshal(b, &all) != nil {
		fail("no configurations: %v", err)
	}
	p = &profileFiles{name: name, path: name, conf: all[name], confOK: true}
	var err error
	if p.block, err = os.ReadFile("/repo/genesis/files/" + name + ".block.bin"); err != nil {
		fail("%s", err)
	}
	if p.accounts, err = os.ReadFile("/repo/genesis/files/" + name + ".accounts.bin"); err != nil {
		fail("%s", err)
	}
	return
}

func caseGenesis(c *Ctx) {
	c.scratch(func() {
		if c.Index < 4 || c.Par && c.Input != "" && c.one(6) {
			name := []string{"main", "test"}[c.Index%2]
			if c.Index >= 2 && !c.Par { // files of that name do not matter
				write(name+".toml", []byte("network_id = 77\n"))
				write(name+".block.bin", []byte{1})
				write(name+".accounts.bin", []byte{0, 0})
			}
			p := builtin(c, name)
			prof := c.openProfile(p)
			if prof != nil {
				var known [][20]byte
				for _, a := range prof.Accounts {
					known = append(known, a.Address)
				}
				c.initProfile(prof, name, known)
				c.openProfile(p)
			}
			return
		}
		l, accs, block, ok := c.chain()
		if !ok {
			return
		}
		k := c.conf()
		p := &profileFiles{name: names[c.Intn(len(names))], conf: k.proj(), confOK: true, block: block, accounts: accs}
		p.path = c.route(p.name)
		toml := c.toml(k)
		if c.one(2) { // only the configuration varies
			for i := 0; i < 8; i++ {
				k := c.conf()
				q := &profileFiles{name: "conf" + strconv.Itoa(i), conf: k.proj(), confOK: c.one(4), block: block, accounts: []byte{0, 0}}
				q.path = c.route(q.name)
				text := c.toml(k)
				if !q.confOK {
					text = c.breakConf(k)
				}
				write(c.file(q.name)+".toml", []byte(text))
				write(c.file(q.name)+".block.bin", q.block)
				write(c.file(q.name)+".accounts.bin", q.accounts)
				c.openProfile(q)
			}
		}
		noConf := false
		switch c.Intn(10) {
		case 0:
			toml, p.confOK = c.breakConf(k), false
		case 1:
			switch c.Intn(3) {
			case 0:
				noConf, p.confOK = true, false
			case 1:
				p.noBlock, p.block = true, nil
			case 2:
				p.noAccs, p.accounts = true, nil
			}
		case 2, 3:
			p.block = c.mutate(block)
		case 4, 5:
			p.accounts = c.mutate(accs)
		case 6: // another account, another root
			p.block = append([]byte{}, block...)
			p.block[98+c.Intn(32)] ^= 1 << uint(c.Intn(8))
			if c.one(3) {
				c.otherRoot(p.block)
			}
		case 7:
			var b wire.Block
			if o, _ := try(func() error { return beserial.UnmarshalFull(block, &b) }); o == "ok" && b.Header.Height > 60000000 {
				return
			}
		}
		var b wire.Block
		if o, _ := try(func() error { return beserial.UnmarshalFull(p.block, &b) }); o == "ok" && b.Header.Height > 60000000 {
			return
		}
		if !noConf {
			write(c.file(p.name)+".toml", []byte(toml))
		}
		if !p.noBlock {
			write(c.file(p.name)+".block.bin", p.block)
		}
		if !p.noAccs {
			write(c.file(p.name)+".accounts.bin", p.accounts)
		}
		prof := c.openProfile(p)
		if prof == nil {
			return
		}
		known := l.all
		for _, a := range prof.Accounts {
			known = append(known, a.Address)
		}
		if prof.Block.Body != nil {
			known = append(known, prof.Block.Body.MinerAddr)
			for _, t := range prof.Block.Body.Txs {
				known = append(known, t.Tx.AsTxContent().Sender, t.Tx.AsTxContent().Recipient)
			}
		}
		c.initProfile(prof, p.label(), known)
		if c.one(3) {
			c.openProfile(p)
		}
	})
}

// scramble changes all of a profile.
func scramble(p *genesis.Profile) {
	_, _ = guard(func() {
		p.Config.NetworkID++
		p.Config.Name += "x"
		p.Config.GenesisHash[3]++
		for i := range p.Config.SeedPeers {
			p.Config.SeedPeers[i] = "x"
		}
		for i := range p.Config.SeedLists {
			p.Config.SeedLists[i] = "x"
		}
		for i := range p.Accounts {
			p.Accounts[i].Address[i%20]++
			switch a := p.Accounts[i].Account.Account.(type) {
			case *wire.BasicAccount:
				a.Value++
			case *wire.VestingAccount:
				a.Value++
				a.Owner[3]++
			case *wire.HTLCAccount:
				a.Value++
				a.Sender[3]++
			}
		}
		p.Block.Header.Height++
		p.Block.Header.AccountsHash[3]++
		for _, h := range p.Block.Interlink.Hashes {
			if h != nil {
				h[0]++
			}
		}
		if b := p.Block.Body; b != nil {
			b.MinerAddr[3]++
			for i := range b.ExtraData {
				b.ExtraData[i]++
			}
			for i := range b.Txs {
				switch t := b.Txs[i].Tx.(type) {
				case *wire.BasicTx:
					t.Value++
				case *wire.ExtendedTx:
					t.Value++
				}
			}
		}
	})
}

// ---------------------------------------------------------------- archives

// big cases have a block that is larger than most buffers, and most have nothing else.
func (c *Ctx) big() bool { return c.Index%60 == 50 }

// lengthy archives have more blocks than a byte can count, and nothing wrong.
func (c *Ctx) lengthy() bool { return c.Index%160 == 150 }

// length of an archive in blocks
func (c *Ctx) length() int {
	if c.lengthy() {
		return 260 + c.Intn(20)
	}
	if c.Index%60 == 30 {
		return 40 + c.Intn(40)
	}
	if c.Index%48 == 20 || c.big() {
		return 2 + c.Intn(3)
	}
	return c.Intn(7)
}

// entryName names an entry: what it is called does not matter.
func (c *Ctx) entryName(i int) string {
	if !c.one(4) {
		return fmt.Sprintf("blocks/%d.bin", i)
	}
	switch c.Intn(7) {
	case 0:
		return fmt.Sprintf("%08d", i)
	case 1:
		return fmt.Sprintf("./blocks/%d", i)
	case 2:
		return fmt.Sprintf("%s.dat", hx(c.bytes(32)))
	case 3:
		return "manifest.json"
	case 4:
		return strings.Repeat("long/", 25+c.Intn(20)) + strconv.Itoa(i) // has a header of its own
	case 5:
		return "bl\u00f6cke/" + strconv.Itoa(i)
	}
	return "." + strconv.Itoa(c.Intn(2))
}

func caseReplay(c *Ctx) {
	c.scratch(func() {
		tool := os.Getenv("GIMIQ")
		var l *ledger
		p := &profileFiles{confOK: true}
		if c.Index%12 == 0 {
			p = builtin(c, "test")
			l = newLedger(c)
			l.store = newLayered("mem", 1, l.all)
			l.acc = accounts.NewAccounts(l.store.trees[0])
			prof, err := genesis.OpenProfile("test")
			if err != nil {
				return
			}
			for _, a := range prof.Accounts {
				l.know(a.Address)
			}
			if o, _ := try(func() error { return prof.InitAccounts(l.acc) }); o != "ok" {
				return
			}
			l.base, l.height = 2, 2
		} else {
			var ok bool
			l, p.accounts, p.block, ok = c.chain()
			if !ok {
				return
			}
			k := c.conf()
			p.name, p.conf = "net", k.proj()
			p.path = c.route(p.name)
			if !c.big() && !c.lengthy() && c.one(25) {
				p.block[98] ^= 1
			}
			write("net.toml", []byte(c.toml(k)))
			write("net.block.bin", p.block)
			write("net.accounts.bin", p.accounts)
		}
		c.Emit(p.event(Event{"ev": "files"}))
		var entries [][]byte
		for i, n := 0, c.length(); i < n; i++ {
			b := l.block()
			if i == 1 && c.Index%48 == 20 { // many transactions
				b = l.bulk(40+c.Intn(200), false)
			}
			if i == 0 && c.big() { // a block that is larger than most buffers
				b = l.bulk(500+c.Intn(120), false)
			}
			accepted := l.apply(b)
			for try := 0; !accepted && (try < 3 || c.lengthy() && try < 30); try++ {
				b = l.block()
				accepted = l.apply(b)
			}
			if !accepted && (c.lengthy() || !c.one(12)) {
				continue
			}
			var buf []byte
			if o, _ := try(func() (err error) { buf, err = beserial.Marshal(nil, b); return }); o == "ok" {
				entries = append(entries, buf)
			}
		}
		if n := len(entries); n > 0 && !c.lengthy() && c.one(2) && (!c.big() || c.one(4)) {
			k := c.Intn(n)
			switch c.Intn(10) {
			case 0:
				entries = append(entries[:k:k], entries[k+1:]...)
			case 1:
				j := c.Intn(n)
				entries[k], entries[j] = entries[j], entries[k]
			case 2:
				entries = append(entries[:k+1:k+1], entries[k:]...)
			case 3:
				entries[k] = entries[k][:c.Intn(len(entries[k]))]
			case 4:
				entries[k] = append(entries[k][:len(entries[k]):len(entries[k])], c.bytes(1+c.Intn(3))...)
			case 5, 6: // the root
				entries[k] = append([]byte{}, entries[k]...)
				entries[k][98+c.Intn(32)] ^= 1 << uint(c.Intn(8))
				if c.one(2) {
					c.otherRoot(entries[k])
				}
			case 7: // the miner
				entries[k] = append([]byte{}, entries[k]...)
				if bytes.Contains(entries[k], l.all[0][:]) {
					i := bytes.Index(entries[k], l.all[0][:])
					entries[k][i+c.Intn(20)] ^= 1
				}
			default:
				entries[k] = c.mutate(entries[k])
			}
		}
		if !c.big() && !c.lengthy() && c.one(10) { // an entry that is no block
			k := c.Intn(len(entries) + 1)
			var junk []byte
			if c.one(2) {
				junk = c.bytes(1 + c.Intn(200))
			}
			if c.one(4) {
				junk = make([]byte, 1+c.Intn(300))
			}
			entries = append(entries[:k:k], append([][]byte{junk}, entries[k:]...)...)
		}
		for _, b := range entries {
			var blk wire.Block
			if o, _ := try(func() error { return beserial.UnmarshalFull(b, &blk) }); o == "ok" && blk.Header.Height > 60000000 {
				return
			}
		}
		var buf bytes.Buffer
		w := tar.NewWriter(&buf)
		put := func(name string, b []byte) {
			if err := w.WriteHeader(&tar.Header{Name: name, Mode: 0o644, Size: int64(len(b)), Typeflag: tar.TypeReg}); err != nil {
				fail("%s", err)
			}
			_, _ = w.Write(b)
		}
		put([]string{"manifest.json", "manifest.json", "manifest.json", "0", "blocks/0.bin"}[c.Intn(5)], c.bytes(c.Intn(40)))
		whole := true
		cut := -1
		for i, b := range entries {
			_ = w.Flush()
			start := buf.Len()
			put(c.entryName(i), b)
			if cut >= 0 || c.big() || c.lengthy() {
				continue
			}
			if len(b) > 0 && c.one(40) {
				cut = buf.Len() - 1 - c.Intn(len(b)) // within this entry
			} else if c.one(40) {
				cut = start + 1 + c.Intn(511) // within its header
			}
		}
		_ = w.Close()
		archive := buf.Bytes()
		if cut >= 0 {
			archive, whole = archive[:cut], false
		}
		write("blocks.tar", archive)
		for _, b := range entries {
			c.Emit(Event{"ev": "entry", "bytes": hx(b)})
		}
		args := []string{"-blocksPath", "blocks.tar"}
		if p.path != "test" || c.one(2) { // the default
			args = append(args, "-profile", p.path)
		}
		if c.one(4) {
			args = append(args, "-debug")
		}
		cmd := exec.Command(tool, args...)
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		e := Event{"ev": "exit", "whole": whole, "rc": 0, "blocks": -1, "txs": -1}
		if err := cmd.Run(); err != nil {
			x, ok := err.(*exec.ExitError)
			if !ok {
				fail("%s", err)
			}
			e["rc"] = x.ExitCode()
		}
		for _, line := range strings.Split(stdout.String(), "\n") {
			var n int
			if k, _ := fmt.Sscanf(line, "Blocks: %d", &n); k == 1 {
				e["blocks"] = n
			}
			if k, _ := fmt.Sscanf(line, "Txs: %d", &n); k == 1 {
				e["txs"] = n
			}
		}
		msg := stderr.String()
		if len(msg) > 200 {
			msg = msg[:200]
		}
		e["msg"] = hex.EncodeToString([]byte(msg))
		c.Emit(e)
	})
}

var _ = tree.NewMemStore
