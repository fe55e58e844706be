// Command harness executes generated cases on the real nimiq-go code and
// records what it does as NDJSON traces for TLC.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Event is one line of a trace.
type Event map[string]interface{}

// Ctx is the context of one case.
type Ctx struct {
	*rand.Rand
	Prop  string
	Seed  int64
	Index int // case number
	Total int
	Tier  string
	Input string // optional file with behaviours computed by TLC
	Par   bool   // runs side by side with other cases
	dir   string // where files go, with a slash
	emit  func(Event)
	drawn map[int][][]byte // byte strings drawn before, by length
}

// Read fills b, mostly at random, sometimes with something drawn before or nearly that, or
// with one of a few strings that come up in all cases.
func (c *Ctx) Read(b []byte) (int, error) {
	n, err := c.Rand.Read(b)
	c.relate(b)
	return n, err
}

func (c *Ctx) relate(b []byte) {
	n := len(b)
	if n < 8 || n > 256 {
		return
	}
	switch c.Intn(16) {
	case 0, 1: // like one of this case
		if old := c.drawn[n]; len(old) > 0 {
			o := old[c.Intn(len(old))]
			switch c.Intn(6) {
			case 0:
				copy(b, o)
			case 1: // same beginning
				copy(b[:n/2], o)
			case 2: // same end
				copy(b[n/2:], o[n/2:])
			case 3: // all but a bit
				copy(b, o)
				b[c.Intn(n)] ^= 1 << uint(c.Intn(8))
			case 4: // same but for the last or first byte
				copy(b[1:n-1], o[1:])
			case 5: // the same bytes in another order
				copy(b, o)
				for i := range b {
					b[i] = o[n-1-i]
				}
			}
		}
	case 2: // one of all cases
		rand.New(rand.NewSource(int64(n*16 + c.Intn(12)))).Read(b)
	}
	if c.drawn == nil {
		c.drawn = map[int][][]byte{}
	}
	if old := c.drawn[n]; len(old) < 16 {
		c.drawn[n] = append(old, append([]byte{}, b...))
	} else {
		copy(old[c.Intn(16)], b)
	}
}

// Emit records one event of the case.
func (c *Ctx) Emit(e Event) {
	e["t"] = c.Index
	c.emit(e)
}

func (c *Ctx) thorough() bool { return c.Tier == "thorough" }

// one returns true with probability 1/n.
func (c *Ctx) one(n int) bool { return c.Intn(n) == 0 }

func (c *Ctx) bytes(n int) []byte {
	b := make([]byte, n)
	c.Read(b)
	return b
}

// u64 draws a 64-bit number, often at a boundary.
func (c *Ctx) u64() uint64 {
	switch c.Intn(8) {
	case 0:
		return uint64(c.Intn(4))
	case 1:
		return ^uint64(0) - uint64(c.Intn(4))
	case 2:
		return (uint64(1) << uint(c.Intn(64))) + uint64(c.Intn(3)) - 1
	case 3:
		return uint64(c.Intn(300))
	case 4:
		return uint64(c.Uint32())
	default:
		return c.Uint64() >> uint(c.Intn(64))
	}
}

func (c *Ctx) u32() uint32 { return uint32(c.u64()) }
func (c *Ctx) u16() uint16 { return uint16(c.u64()) }
func (c *Ctx) u8() uint8   { return uint8(c.u64()) }

type caseFunc func(*Ctx)

// families maps property ids to their drivers.
var families = map[string]caseFunc{}

// special drivers get the raw command line.
var specials = map[string]func(args []string){}

func caseRand(prop string, seed int64, i int) *rand.Rand {
	h := fnv.New64a()
	_ = binary.Write(h, binary.LittleEndian, seed)
	_ = binary.Write(h, binary.LittleEndian, int64(i))
	h.Write([]byte(prop))
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// hangs counts the calls that did not return.
var hangs int32

// guard runs f and reports "ok", "panic" or "hang".
func guard(f func()) (outcome, detail string) {
	return guardFor(20*time.Second, f)
}

func guardFor(limit time.Duration, f func()) (outcome, detail string) {
	type res struct{ outcome, detail string }
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- res{"panic", fmt.Sprint(r)}
			}
		}()
		f()
		ch <- res{"ok", ""}
	}()
	select {
	case r := <-ch:
		return r.outcome, r.detail
	default:
	}
	timer := time.NewTimer(limit)
	defer timer.Stop()
	select {
	case r := <-ch:
		return r.outcome, r.detail
	case <-timer.C:
		atomic.AddInt32(&hangs, 1)
		return "hang", ""
	}
}

// try runs f, which may return an error: "ok", "err", "panic" or "hang".
func try(f func() error) (outcome, detail string) {
	var err error
	outcome, detail = guard(func() { err = f() })
	if outcome == "ok" && err != nil {
		return "err", err.Error()
	}
	return
}

// allocated measures the bytes f allocates (in KiB).
func allocated(f func()) int {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	kb := (b.TotalAlloc - a.TotalAlloc) / 1024
	if kb > 1<<30 {
		kb = 1 << 30
	}
	return int(kb)
}

// alone is what allocated measured, if nothing else ran at the same time.
func (c *Ctx) alone(kb int) int {
	if c.Par {
		return 0
	}
	return kb
}

func hx(b []byte) string { return hex.EncodeToString(b) }
func hu(u uint64) string { return strconv.FormatUint(u, 16) }
func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func fail(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(3)
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fail("usage: harness DRIVER [flags]")
	}
	name := os.Args[1]
	if f, ok := specials[name]; ok {
		f(os.Args[2:])
		return
	}
	f, ok := families[name]
	if !ok {
		fail("unknown driver %s", name)
	}
	fs := flag.NewFlagSet(name, flag.ExitOnError)
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 100, "number of cases")
	tier := fs.String("tier", "quick", "tier")
	out := fs.String("out", "", "trace file")
	from := fs.Int("from", 0, "first case")
	to := fs.Int("to", -1, "end of cases (default n)")
	only := fs.String("only", "", "comma-separated case numbers")
	progress := fs.String("progress", "", "file holding the number of the running case")
	input := fs.String("in", "", "behaviours computed by TLC")
	_ = fs.Parse(os.Args[2:])
	w := os.Stdout
	if *out != "" {
		file, err := os.Create(*out)
		if err != nil {
			fail("%s", err)
		}
		w = file
	}
	bw := bufio.NewWriterSize(w, 1<<20)
	var pf *os.File
	if *progress != "" {
		var err error
		if pf, err = os.Create(*progress); err != nil {
			fail("%s", err)
		}
	}
	var cases []int
	if *only != "" {
		for _, s := range strings.Split(*only, ",") {
			i, err := strconv.Atoi(s)
			if err != nil {
				fail("%s", err)
			}
			cases = append(cases, i)
		}
	} else {
		if *to < 0 {
			*to = *n
		}
		for i := *from; i < *to; i++ {
			cases = append(cases, i)
		}
	}
	events := 0
	for _, i := range cases {
		if pf != nil {
			_, _ = pf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		c := &Ctx{Rand: caseRand(name, *seed, i), Prop: name, Seed: *seed, Index: i, Total: *n, Tier: *tier, Input: *input}
		first := true
		c.emit = func(e Event) {
			if _, ok := e["first"]; !ok {
				e["first"] = first
			}
			first = false
			buf, err := json.Marshal(e)
			if err != nil {
				fail("%s", err)
			}
			_, _ = bw.Write(buf)
			_ = bw.WriteByte('\n')
			events++
		}
		f(c)
		if atomic.LoadInt32(&hangs) > 0 {
			break // the process is no longer usable
		}
	}
	if err := bw.Flush(); err != nil {
		fail("%s", err)
	}
	fmt.Fprintf(os.Stderr, "HARNESS-DONE cases=%d events=%d\n", len(cases), events)
}
