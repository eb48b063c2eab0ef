package PKG

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

// vctx drives one replay harness: random and boundary inputs against an oracle.
type vctx struct {
	t     *testing.T
	r     *rand.Rand
	end   time.Time
	cases int64
	fails int
	seen  map[string]bool
	nsamp int
}

func vstart(t *testing.T) *vctx {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if secs == 0 {
		secs = 5
	}
	v := &vctx{t: t, r: rand.New(rand.NewSource(seed*7919 + 17)), end: time.Now().Add(time.Duration(secs) * time.Second), seen: map[string]bool{}}
	t.Cleanup(func() {
		fmt.Printf("\nVERIF-CASES %d\n", v.cases)
	})
	return v
}

func vthorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// vscale: the number of random cases for this tier.
func vscale(n int) int {
	if vthorough() {
		return n * 12
	}
	return n
}

func (v *vctx) more() bool { return time.Now().Before(v.end) && v.fails < 5 }

func (v *vctx) sample(f string, a ...any) {
	if v.nsamp < 3 {
		v.nsamp++
		fmt.Printf("\nVERIF-SAMPLE %s\n", vline(fmt.Sprintf(f, a...)))
	}
}

func vline(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, "\n", " | "), "\r", " ") }

func (v *vctx) fail(f string, a ...any) {
	if v.fails < 5 {
		s := vline(fmt.Sprintf(f, a...))
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		if !v.seen[s] {
			v.seen[s] = true
			fmt.Printf("\nVERIF-FAIL %s\n", s)
		}
	}
	v.fails++
	v.t.Fail()
}

// try runs f; a panic is a failure with the given description.
func (v *vctx) try(desc string, f func()) (ok bool) {
	v.cases++
	defer func() {
		if r := recover(); r != nil {
			v.fail("%s: panic: %v at %s", desc, r, vstack())
		}
	}()
	f()
	return true
}

func vstack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, ".go:") && !strings.Contains(l, "_verif_test.go") && !strings.Contains(l, "/runtime/") {
			out = append(out, l)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " ")
}

var vedge = []uint64{0, 1, 2, 5, 24, 25, 101, 255, 256, 4095, 4096, 16384, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff,
	0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffffe, 0xffffffffffffffff, 0xffffffffffffff00, 0xfffffffffffffeff}

// num: a value that is often interesting.
func (v *vctx) num() uint64 {
	switch v.r.Intn(4) {
	case 0:
		return vedge[v.r.Intn(len(vedge))]
	case 1:
		return uint64(v.r.Intn(300))
	case 2:
		return vedge[v.r.Intn(len(vedge))] + uint64(v.r.Intn(5)) - 2
	}
	return v.r.Uint64()
}

// bytes: n random bytes, sometimes with edge patterns.
func (v *vctx) bytes(n int) []byte {
	b := make([]byte, n)
	switch v.r.Intn(5) {
	case 0:
		for i := range b {
			b[i] = 0xff
		}
	case 1:
		for i := range b {
			b[i] = byte(i + 1)
		}
	default:
		v.r.Read(b)
	}
	return b
}
