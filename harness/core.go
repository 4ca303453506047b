// Command vh runs one property's executable specification against the real library: the bounded stand-in for functions
// outside the verifier's reach, and the replayer that turns a failed proof obligation into a failing input.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	bin "github.com/gagliardetto/binary"
)

// Lits are the literals of the sources under test; Hints the inputs suggested by the solver's countermodels.
type Lits struct {
	Ints    []uint64
	Strings []string
}
type Hint struct {
	Fn     string
	Values map[string]string
}

type Ctx struct {
	R        *rand.Rand
	Seed     int64
	enc      bin.Encoding // encoding values are being made for
	Deadline time.Time
	Lits     Lits
	Hints    []Hint

	HintInts []uint64
	HintBufs [][]byte
	HintPos  []int
	HintStrs []string

	mu       sync.Mutex
	cur      string
	curF     func() string
	curStart time.Time

	evals    int
	distinct map[uint64]bool
	samples  []string
	section  string
	counts   map[string]int
}

type failure struct{ msg string }

var lastCaseFile *os.File

func keepCase(s string) {
	if lastCaseFile != nil {
		lastCaseFile.Truncate(0)
		lastCaseFile.WriteAt([]byte(clip(s, 4000)), 0)
	}
}

// Case announces the case about to run; desc is only rendered when needed.
func (c *Ctx) Case(desc string) {
	c.mu.Lock()
	c.cur, c.curF, c.curStart = desc, nil, time.Now()
	c.mu.Unlock()
	keepCase(desc)
	c.evals++
	c.counts[c.section]++
	h := fnv.New64a()
	h.Write([]byte(desc))
	if len(c.distinct) < 2000000 {
		c.distinct[h.Sum64()] = true
	}
	n := c.counts[c.section]
	if n == 1 || n == 17 || n == 257 {
		s := c.section + ": " + desc
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

// CaseL is Case with a description that is rendered only when needed.
func (c *Ctx) CaseL(key string, desc func() string) {
	n := c.counts[c.section] + 1
	if n == 1 || n == 17 || n == 257 {
		c.Case(desc())
		c.mu.Lock()
		c.curF = desc
		c.mu.Unlock()
		return
	}
	c.mu.Lock()
	c.cur, c.curF, c.curStart = key, desc, time.Now()
	c.mu.Unlock()
	if lastCaseFile != nil {
		keepCase(desc())
	}
	c.evals++
	c.counts[c.section]++
	h := fnv.New64a()
	h.Write([]byte(key))
	if len(c.distinct) < 2000000 {
		c.distinct[h.Sum64()] = true
	}
}

// Count accounts for cheap enumerated cases.
func (c *Ctx) Count(n int) { c.evals += n; c.counts[c.section] += n }

func (c *Ctx) Fail(f string, a ...interface{}) {
	for i, x := range a {
		if g, ok := x.(func() string); ok {
			a[i] = g()
		}
	}
	panic(failure{fmt.Sprintf(f, a...)})
}
func (c *Ctx) Check(ok bool, f string, a ...interface{}) {
	if !ok {
		c.Fail(f, a...)
	}
}

// NoPanic runs f and reports a panic of the code under test as a failure.
func (c *Ctx) NoPanic(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(failure); ok {
				panic(e)
			}
			c.Fail("%s panicked: %v\n%s", what, e, trimStack(debug.Stack()))
		}
	}()
	f()
}
func panics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(failure); ok {
				panic(e)
			}
			p = true
		}
	}()
	f()
	return false
}
func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	if len(ls) > 30 {
		ls = ls[:30]
	}
	return strings.Join(ls, "\n")
}
func (c *Ctx) More() bool { return time.Now().Before(c.Deadline) }

// Section: once (deterministic) or repeated until the deadline.
type Section struct {
	Name   string
	Once   bool
	Run    func(c *Ctx)
	Weight int
}

var props = map[string][]Section{}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	secs := flag.Float64("secs", 10, "")
	lits := flag.String("lits", "", "")
	hints := flag.String("hints", "", "")
	out := flag.String("out", "", "result file (JSON)")
	once := flag.Bool("once", true, "run the enumerated sections, too")
	lastCase := flag.String("lastcase", "", "file to keep the current case in (to find a case that kills the process)")
	flag.Parse()
	if *lastCase != "" {
		lastCaseFile, _ = os.Create(*lastCase)
	}
	c := &Ctx{R: rand.New(rand.NewSource(*seed)), Seed: *seed, distinct: map[uint64]bool{}, counts: map[string]int{}}
	load := func(p string, v interface{}) {
		if p == "" {
			return
		}
		b, err := os.ReadFile(p)
		if err == nil {
			err = json.Unmarshal(b, v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "vh:", err)
			os.Exit(3)
		}
	}
	load(*lits, &c.Lits)
	load(*hints, &c.Hints)
	c.digestHints()
	secsL, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "vh: unknown property", *prop)
		os.Exit(3)
	}
	finish := func(fail string) {
		var keys []string
		for k := range c.counts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		res := map[string]interface{}{
			"property": *prop, "seed": *seed, "evaluations": c.evals, "distinct": len(c.distinct), "samples": c.samples, "sections": c.counts,
		}
		if fail != "" {
			if c.curF != nil {
				c.cur = c.curF()
			}
			res["failure"] = fail
			res["case"] = c.cur
			res["section"] = c.section
			fmt.Println("FAIL", *prop, "["+c.section+"]")
			fmt.Println("case:", clip(c.cur, 4000))
			fmt.Println(clip(fail, 6000))
		} else {
			fmt.Printf("OK %s evaluations=%d distinct=%d\n", *prop, c.evals, len(c.distinct))
		}
		if *out != "" {
			b, _ := json.MarshalIndent(res, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
		if fail != "" {
			os.Exit(1)
		}
		os.Exit(0)
	}
	// a case that does not return is a failure, too
	c.curStart = time.Now()
	limit := 40 * time.Second
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			c.mu.Lock()
			d := time.Since(c.curStart)
			c.mu.Unlock()
			if d > limit {
				finish("the case did not return within " + limit.String())
			}
		}
	}()
	debug.SetGCPercent(200)
	c.Deadline = time.Now().Add(time.Duration(*secs * float64(time.Second)))
	func() {
		defer func() {
			if e := recover(); e != nil {
				if f, ok := e.(failure); ok {
					finish(f.msg)
				}
				finish(fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack())))
			}
		}()
		for _, s := range secsL {
			if s.Once && (*once || len(secsL) == 1) {
				c.section = s.Name
				c.mu.Lock()
				c.curStart = time.Now()
				c.mu.Unlock()
				s.Run(c)
			}
		}
		var rep []Section
		for _, s := range secsL {
			if !s.Once {
				w := s.Weight
				if w == 0 {
					w = 1
				}
				for i := 0; i < w; i++ {
					rep = append(rep, s)
				}
			}
		}
		if len(rep) == 0 {
			return
		}
		c.Deadline = time.Now().Add(time.Duration(*secs * float64(time.Second)))
		for i := 0; c.More(); i++ {
			s := rep[i%len(rep)]
			c.section = s.Name
			s.Run(c)
		}
	}()
	finish("")
}
func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func parseNum(s string) (uint64, bool) {
	switch {
	case s == "true":
		return 1, true
	case s == "false":
		return 0, true
	case strings.HasPrefix(s, "#x"):
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(s, "#b"):
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	}
	v, err := strconv.ParseUint(s, 10, 64)
	return v, err == nil
}

// digestHints turns solver models (named machine values) into buffers, positions and integers.
func (c *Ctx) digestHints() {
	for _, h := range c.Hints {
		type arr struct {
			n  uint64
			at map[int]byte
		}
		arrs := map[string]*arr{}
		get := func(n string) *arr {
			if arrs[n] == nil {
				arrs[n] = &arr{at: map[int]byte{}}
			}
			return arrs[n]
		}
		for k, s := range h.Values {
			v, ok := parseNum(s)
			if !ok {
				continue
			}
			if i := strings.IndexByte(k, '['); i > 0 && strings.HasSuffix(k, "]") {
				if j, err := strconv.Atoi(k[i+1 : len(k)-1]); err == nil {
					get(k[:i]).at[j] = byte(v)
					continue
				}
			}
			if strings.HasSuffix(k, ".len") {
				get(strings.TrimSuffix(k, ".len")).n = v
				c.HintInts = append(c.HintInts, v)
				continue
			}
			if strings.HasSuffix(k, ".pos") {
				c.HintPos = append(c.HintPos, int(v))
			}
			c.HintInts = append(c.HintInts, v)
		}
		for _, a := range arrs {
			n := a.n
			if n > 1<<20 {
				n = 1 << 20
			}
			b := make([]byte, n)
			for i, v := range a.at {
				if i < len(b) {
					b[i] = v
				}
			}
			c.HintBufs = append(c.HintBufs, b)
			c.HintStrs = append(c.HintStrs, string(b))
		}
	}
}

// ---- generators

var edgeInts = []uint64{0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 8191, 8192, 16383, 16384, 16385,
	0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0x10000, 0x10001, 1<<21 - 1, 1 << 21, 1<<24 - 1, 1 << 24, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<35 - 1, 1 << 35, 1<<42 - 1, 1 << 42,
	1<<48 - 1, 1 << 48, 1<<49 - 1, 1 << 49, 1<<52 - 1, 1 << 53, 1<<56 - 1, 1 << 56, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0) - 1, ^uint64(0), 0x0102030405060708, 0xfffefdfcfbfaf9f8, 0xdeadbeefcafebabe}

// Ints is the deterministic corpus of interesting integers.
func (c *Ctx) Ints() []uint64 {
	m := map[uint64]bool{}
	var out []uint64
	add := func(v uint64) {
		if !m[v] {
			m[v] = true
			out = append(out, v)
		}
	}
	for _, v := range c.HintInts {
		add(v)
	}
	for _, v := range edgeInts {
		add(v)
		add(-v)
		add(^v)
	}
	for i := uint(0); i < 64; i++ {
		add(1 << i)
		add(1<<i - 1)
		add(-(uint64(1) << i))
		add(0xff << i)
	}
	for _, v := range c.Lits.Ints {
		for d := -2; d <= 2; d++ {
			add(v + uint64(d))
		}
		add(-v)
	}
	return out
}

// U64 is a random integer biased towards edges, literals, hints and short widths.
func (c *Ctx) U64() uint64 {
	r := c.R
	switch r.Intn(10) {
	case 0, 1:
		return edgeInts[r.Intn(len(edgeInts))]
	case 2:
		return -edgeInts[r.Intn(len(edgeInts))]
	case 3:
		if len(c.HintInts) > 0 {
			return c.HintInts[r.Intn(len(c.HintInts))] + uint64(r.Intn(3)) - 1
		}
	case 4:
		if len(c.Lits.Ints) > 0 {
			return c.Lits.Ints[r.Intn(len(c.Lits.Ints))] + uint64(r.Intn(5)) - 2
		}
	case 5, 6:
		return r.Uint64() >> uint(r.Intn(64))
	case 7:
		return -(r.Uint64() >> uint(r.Intn(64)))
	case 8:
		return uint64(r.Intn(256)) << uint(8*r.Intn(8)) // one byte set
	}
	return r.Uint64()
}
func (c *Ctx) Len() int {
	r := c.R
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		return r.Intn(4)
	case 4, 5, 6:
		return r.Intn(12)
	case 7:
		return r.Intn(70)
	case 8:
		return []int{126, 127, 128, 129, 255, 256, 257, 300}[r.Intn(8)]
	case 9:
		if len(c.Lits.Ints) > 0 {
			v := c.Lits.Ints[r.Intn(len(c.Lits.Ints))] + uint64(r.Intn(3)) - 1
			if v < 3000 {
				return int(v)
			}
		}
	case 10:
		if len(c.HintInts) > 0 {
			v := c.HintInts[r.Intn(len(c.HintInts))]
			if v < 3000 {
				return int(v)
			}
		}
	}
	return r.Intn(3)
}
func (c *Ctx) Bytes(n int) []byte {
	// what lies between length and capacity is not part of the data
	extra := 0
	if c.R.Intn(2) == 0 {
		extra = 1 + c.R.Intn(40)
	}
	b := bytes.Repeat([]byte{0x5a}, n+extra)[:n]
	switch c.R.Intn(6) {
	case 0: // zeros
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] = byte(c.R.Intn(4))
		}
	case 3:
		for i := range b {
			b[i] = []byte{0, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0xfe}[c.R.Intn(8)]
		}
	default:
		c.R.Read(b)
	}
	return b
}
func (c *Ctx) Buf() []byte {
	if len(c.HintBufs) > 0 && c.R.Intn(6) == 0 {
		b := append([]byte{}, c.HintBufs[c.R.Intn(len(c.HintBufs))]...)
		return b
	}
	return c.Bytes(c.Len())
}

var runePool = []rune("aAbBzZ09_ -.éÉßΣσςжЖ世界ﬁİı\u0301\u00a0\t\nΑΩα🦀ǅ")

func (c *Ctx) Str() string {
	r := c.R
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		if len(c.Lits.Strings) > 0 {
			return c.Lits.Strings[r.Intn(len(c.Lits.Strings))]
		}
	case 2:
		if len(c.HintStrs) > 0 {
			return c.HintStrs[r.Intn(len(c.HintStrs))]
		}
	case 3:
		return string(c.Bytes(c.Len()))
	case 4, 5:
		n := c.Len()
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(runePool[r.Intn(len(runePool))])
		}
		return b.String()
	}
	n := c.Len()
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.Intn(95))
	}
	return string(b)
}
func hx(b []byte) string {
	if len(b) > 600 {
		return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(b[:600]), len(b))
	}
	return hex.EncodeToString(b)
}
