package uuid

import (
	"fmt"
	"strings"
	"testing"
)

func vtext(b [16]byte) string {
	s := ""
	for i, x := range b {
		s += fmt.Sprintf("%02x", x)
		if i == 3 || i == 5 || i == 7 || i == 9 {
			s += "-"
		}
	}
	return s
}

func vparse(s string) (u UUID, ok bool) {
	var d []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '-':
		case c >= '0' && c <= '9':
			d = append(d, c-'0')
		case c >= 'a' && c <= 'f':
			d = append(d, c-'a'+10)
		case c >= 'A' && c <= 'F':
			d = append(d, c-'A'+10)
		default:
			return UUID{}, false
		}
	}
	if len(d) != 32 {
		return UUID{}, false
	}
	for i := range u {
		u[i] = d[2*i]<<4 | d[2*i+1]
	}
	return u, true
}

func TestVerifC14(t *testing.T) {
	v := vstart(t)
	check := func(s string) {
		v.try(fmt.Sprintf("parse %q", s), func() {
			want, ok := vparse(s)
			u, err := New(s)
			if (err == nil) != ok || u != want {
				v.fail("New(%q) = %x, %v; want %x, ok %v", s, u[:], err, want[:], ok)
			}
			var prev UUID
			copy(prev[:], v.bytes(16))
			g := prev
			err = g.Set(s)
			if !ok {
				want = prev
			}
			if (err == nil) != ok || g != want {
				v.fail("Set(%q) on %x gives %x, %v; want %x, ok %v", s, prev[:], g[:], err, want[:], ok)
			}
		})
	}
	for i, n := 0, vscale(15000); i < n && v.more(); i++ {
		var b [16]byte
		copy(b[:], v.bytes(16))
		if v.r.Intn(4) == 0 {
			b = [16]byte{}
			b[v.r.Intn(16)] = byte(v.r.Intn(256))
		}
		u := UUID(b)
		want := vtext(b)
		v.sample("%s", want)
		v.try("format "+want, func() {
			if got := u.String(); got != want {
				v.fail("String of %x = %q, want %q", b, got, want)
			}
			if u.IsZero() != (want == "00000000-0000-0000-0000-000000000000") || u.IsAllFs() != (want == "ffffffff-ffff-ffff-ffff-ffffffffffff") {
				v.fail("IsZero/IsAllFs of %s", want)
			}
		})
		check(want)
		check(strings.ToUpper(want))
		s := []byte(strings.ReplaceAll(want, "-", ""))
		for k := v.r.Intn(12); k > 0; k-- {
			p := v.r.Intn(len(s) + 1)
			s = append(s[:p:p], append([]byte{'-'}, s[p:]...)...)
		}
		check(string(s))
		switch p := v.r.Intn(len(s)); v.r.Intn(6) {
		case 0:
			s[p] = "ghGZ {}\x00+\xe9:/@`"[v.r.Intn(14)]
		case 1:
			s = append(s, "0f-"[v.r.Intn(3)])
		case 2:
			s = s[:len(s)-1]
		case 3:
			s = s[1:]
		case 4:
			s = append(s, s...)
		default:
			s = s[:p]
		}
		check(string(s))
	}
	check("")
	check("-")
	check("{00000000-0000-0000-0000-000000000000}")
}
