package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"terorie.dev/nimiq/beserial"
)

// The block export script is run against a server that answers batches in any order and
// sometimes not as it should; what it writes is read back from the raw archive.

// serve answers one batch; the answers are recorded in c.
type rpcServer struct {
	c       *Ctx
	lock    sync.Mutex
	have    map[int][]byte
	refused map[int]string // heights with a wrong answer
	failAt  int            // the request that fails as a whole
	how     string
	order   int
	asked   int
	log     []Event
	after   func() // before the answer goes out
}

func (s *rpcServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.lock.Lock()
	defer s.lock.Unlock()
	c := s.c
	body, _ := ioutil.ReadAll(r.Body)
	s.asked++
	e := Event{"ev": "batch", "wellformed": true, "heights": []int{}, "answers": []object{}, "fault": ""}
	var batch []struct {
		JSONRPC string            `json:"jsonrpc"`
		ID      json.RawMessage   `json:"id"`
		Method  string            `json:"method"`
		Params  []json.RawMessage `json:"params"`
	}
	if err := json.Unmarshal(body, &batch); err != nil || r.Method != "POST" {
		e["wellformed"] = false
	}
	heights := []int{}
	for _, q := range batch {
		n := -1
		if len(q.Params) == 1 {
			n, _ = strconv.Atoi(string(q.Params[0]))
		}
		if q.JSONRPC != "2.0" || q.Method != "getSerializedBlockByNumber" || len(q.Params) == 0 || len(q.ID) == 0 {
			e["wellformed"] = false
		}
		heights = append(heights, n)
	}
	e["heights"] = heights
	s.log = append(s.log, e)
	if s.asked == s.failAt {
		e["fault"] = s.how
		switch s.how {
		case "status":
			w.WriteHeader([]int{400, 404, 429, 500, 502, 503}[c.Intn(6)])
			if c.one(2) { // with all answers nevertheless
				answers := []string{}
				for i, q := range batch {
					answers = append(answers, fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"%s"}`, q.ID, hx(s.have[heights[i]])))
				}
				fmt.Fprint(w, "["+strings.Join(answers, ",")+"]")
				return
			}
			fmt.Fprint(w, "[]")
			return
		case "junk":
			fmt.Fprint(w, []string{"", "<html>", "[{", "null", `{"jsonrpc":"2.0","id":null,"error":{"code":-32700,"message":"x"}}`}[c.Intn(5)])
			return
		case "close":
			if h, ok := w.(http.Hijacker); ok {
				if conn, _, err := h.Hijack(); err == nil {
					_ = conn.Close()
					return
				}
			}
		}
	}
	type answer struct {
		height int
		ok     bool
		text   string
	}
	var answers []answer
	for i, q := range batch {
		n := heights[i]
		b, ok := s.have[n]
		text := fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"%s"}`, q.ID, hx(b))
		if s.order%5 == 4 { // upper case, fields in another order
			text = fmt.Sprintf(`{"result":"%s","id":%s,"jsonrpc":"2.0"}`, strings.ToUpper(hx(b)), q.ID)
		}
		why := s.refused[n]
		if !ok {
			why = "error"
		}
		switch why {
		case "error":
			text = fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":-32603,"message":"no such block"}}`, q.ID)
		case "null":
			text = fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":null}`, q.ID)
		case "junk":
			text = fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"%sxy"}`, q.ID, hx(b))
		case "half":
			text = fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"%sf"}`, q.ID, hx(b))
		case "missing":
			continue
		}
		answers = append(answers, answer{n, why == "", text})
		if why == "" && c.one(60) {
			answers = append(answers, answer{n, true, text}) // twice
		}
	}
	switch s.order % 5 {
	case 1: // backwards
		for i, j := 0, len(answers)-1; i < j; i, j = i+1, j-1 {
			answers[i], answers[j] = answers[j], answers[i]
		}
	case 2: // any order
		c.Shuffle(len(answers), func(i, j int) { answers[i], answers[j] = answers[j], answers[i] })
	case 3: // two exchanged
		if n := len(answers); n > 1 {
			i, j := c.Intn(n), c.Intn(n)
			answers[i], answers[j] = answers[j], answers[i]
		}
	}
	texts := []string{}
	recorded := []object{}
	for _, a := range answers {
		texts = append(texts, a.text)
		o := object{"n": a.height, "ok": a.ok, "b": ""}
		if a.ok {
			o["b"] = short(s.have[a.height])
		}
		recorded = append(recorded, o)
	}
	e["answers"] = recorded
	w.Header().Set("Content-Type", "application/json")
	fmt.Fprint(w, "["+strings.Join(texts, ",")+"]")
}

// short is the hex of b or, for large blocks, its length and hash.
func short(b []byte) string {
	if len(b) <= 1000 {
		return hx(b)
	}
	sum := sha256.Sum256(b)
	return fmt.Sprintf("%d:%x", len(b), sum[:])
}

// archive reads the blocks of an archive as they lie in the file.
func readUstar(b []byte) (entries []object, whole bool) {
	entries = []object{}
	text := func(f []byte) string {
		if i := bytes.IndexByte(f, 0); i >= 0 {
			f = f[:i]
		}
		return string(f)
	}
	for len(b) >= 512 {
		h := b[:512]
		if len(bytes.Trim(h, "\x00")) == 0 { // the end: nothing but zeros, two blocks at least
			return entries, len(b) >= 1024 && len(b)%512 == 0 && len(bytes.Trim(b, "\x00")) == 0
		}
		sum := 8 * 32
		for i, x := range h {
			if i < 148 || i >= 156 {
				sum += int(x)
			}
		}
		check, err1 := strconv.ParseInt(strings.Trim(text(h[148:156]), " "), 8, 64)
		size, err2 := strconv.ParseInt(strings.Trim(text(h[124:136]), " "), 8, 64)
		if err1 != nil || err2 != nil || int(check) != sum || size < 0 || size > 1<<24 {
			return entries, false
		}
		padded := int(size+511) / 512 * 512
		if len(b) < 512+padded {
			return entries, false
		}
		name := text(h[:100])
		if p := text(h[345:500]); p != "" {
			name = p + "/" + name
		}
		data := b[512 : 512+size]
		entries = append(entries, object{"name": hx([]byte(name)), "b": short(data), "size": int(size),
			"plain": string(h[257:265]) == "ustar\x0000" && (h[156] == '0' || h[156] == 0), "json": json.Valid(data)})
		b = b[512+padded:]
	}
	return entries, false
}

// Dir of the harness sources, for the stand-in of the requests package.
func stubDir() string {
	if d := os.Getenv("PYSTUB"); d != "" {
		return d
	}
	return "/verif/harness/pystub"
}

func repoDir() string {
	if d := os.Getenv("REPO"); d != "" {
		return d
	}
	return "/repo"
}

func init() {
	families["export"] = func(c *Ctx) { c.scratch(func() { caseExport(c) }) }
}

func caseExport(c *Ctx) {
	s := &rpcServer{c: c, have: map[int][]byte{}, refused: map[int]string{}, order: c.Intn(5)}
	from := []int{0, 1, 2, 9, 95, 99, 998, 1 + c.Intn(100), 1 + c.Intn(1000000), 99990}[c.Intn(10)]
	count := []int{0, 1, 2, 3, 5, 8, 12, 20, c.Intn(40), c.Intn(40)}[c.Intn(10)]
	batch := []int{1, 2, 3, 4, 5, 7, 10, 100, 1000, 1 + c.Intn(30)}[c.Intn(10)]
	passed := batch
	if c.Index%30 == 11 {
		count, batch, passed = 95+c.Intn(220), 100, 0 // the default
	}
	calm := c.Index%8 == 3 // one long batch across a power of ten, answered in full
	if calm {
		from = []int{10, 100, 1000, 10000, 100000, 1000000}[c.Intn(6)]
		from -= 1 + c.Intn(10)
		count = 42 + c.Intn(60)
		batch = []int{count / 2, count, count, 100, 1000}[c.Intn(5)]
		passed = batch
	}
	if count == 0 && from == 0 {
		from = 1
	}
	tool := os.Getenv("GIMIQ")
	replay := c.Index%6 == 5
	profile := ""
	if replay {
		l, accs, block, ok := c.chain()
		if !ok || c.big() {
			return
		}
		var chain [][]byte
		for i, n := 0, 1+c.Intn(9); i < n; i++ {
			b := l.block()
			if !l.apply(b) {
				continue
			}
			var buf []byte
			if o, _ := try(func() (err error) { buf, err = beserial.Marshal(nil, b); return }); o == "ok" && b.Header.Height <= 60000000 {
				chain = append(chain, buf)
			} else {
				break
			}
		}
		count = len(chain)
		for i, b := range chain {
			s.have[from+i] = b
		}
		profile = "./net"
		if c.dir != "" {
			profile = c.dir + "net"
		}
		write(c.dir+"net.toml", []byte("network_id = 9\nname = \"net\"\n"))
		write(c.dir+"net.block.bin", block)
		write(c.dir+"net.accounts.bin", accs)
	} else {
		for i := 0; i < count; i++ {
			size := []int{0, 1, 146, 511, 512, 513, 1024, c.Intn(300), c.Intn(300), c.Intn(300)}[c.Intn(10)]
			if count <= 20 && c.one(15) {
				size = []int{4095, 4096, 4097, 10239, 10240, 10241, 32768, 65535, 65536, 65537, 100000, 131073, 66000 + c.Intn(200000)}[c.Intn(13)]
			}
			s.have[from+i] = c.bytes(size)
		}
		if !calm && count > 0 && c.one(4) {
			s.refused[from+c.Intn(count)] = []string{"error", "null", "junk", "half", "missing", "missing"}[c.Intn(6)]
		}
		if !calm && count > 0 && c.one(8) {
			delete(s.have, from+count-1-c.Intn(2)*(count-1)) // not known to the server
		}
		if !calm && c.one(6) {
			s.failAt, s.how = 1+c.Intn(1+count/batch), []string{"status", "junk", "close"}[c.Intn(3)]
		}
	}
	// What lies around the range must not be asked for.
	for _, n := range []int{from - 1, from + count, from + count + 1} {
		s.have[n] = c.bytes(20)
	}
	to := from + count - 1
	c.Emit(Event{"ev": "ask", "from": from, "to": to, "batch": batch})
	srv := httptest.NewServer(s)
	defer srv.Close()
	args := []string{repoDir() + "/scripts/export_blocks.py", "--rpc_url", srv.URL + "/", "--from", strconv.Itoa(from), "--to", strconv.Itoa(to)}
	if passed > 0 {
		args = append(args, "--batch", strconv.Itoa(passed))
	}
	cmd := exec.Command("python3", args...)
	cmd.Dir = filepath.Dir(c.dir + "x")
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + cmd.Dir, "PYTHONPATH=" + stubDir(), "PYTHONDONTWRITEBYTECODE=1", "LANG=C.UTF-8"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var stderr bytes.Buffer
	out, err := os.Create(c.file("blocks.tar"))
	if err != nil {
		fail("%s", err)
	}
	cmd.Stdout, cmd.Stderr = out, &stderr
	e := Event{"ev": "exported", "rc": 0, "hang": false}
	if err := cmd.Start(); err != nil {
		fail("%s", err)
	}
	timer := time.AfterFunc(60*time.Second, func() {
		e["hang"] = true
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err = cmd.Wait()
	timer.Stop()
	if x, ok := err.(*exec.ExitError); ok {
		e["rc"] = x.ExitCode()
	} else if err != nil {
		fail("%s", err)
	}
	if bytes.Contains(stderr.Bytes(), []byte("No module named")) || bytes.Contains(stderr.Bytes(), []byte("can't open file '"+stubDir())) {
		fail("%s", stderr.String())
	}
	s.lock.Lock()
	for _, x := range s.log {
		c.Emit(x)
	}
	s.lock.Unlock()
	_ = out.Close()
	tar, err := os.ReadFile(c.file("blocks.tar"))
	if err != nil {
		fail("%s", err)
	}
	entries, whole := readUstar(tar)
	e["entries"], e["whole"] = entries, whole
	msg := stderr.Bytes()
	if len(msg) > 150 {
		msg = msg[len(msg)-150:]
	}
	e["msg"] = hx(msg)
	c.Emit(e)
	if !replay || e["rc"] != 0 || tool == "" {
		return
	}
	run := exec.Command(tool, "-blocksPath", c.dir+"blocks.tar", "-profile", profile)
	text, err := run.Output()
	r := Event{"ev": "replayed", "rc": 0, "blocks": -1}
	if x, ok := err.(*exec.ExitError); ok {
		r["rc"] = x.ExitCode()
	} else if err != nil {
		fail("%s", err)
	}
	for _, line := range strings.Split(string(text), "\n") {
		var n int
		if k, _ := fmt.Sscanf(line, "Blocks: %d", &n); k == 1 {
			r["blocks"] = n
		}
	}
	c.Emit(r)
}
