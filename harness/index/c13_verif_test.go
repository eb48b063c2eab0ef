package index

import (
	"fmt"
	"math/bits"
	"strings"
	"testing"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

// the CRC register after name, bit by bit
func vcrc(name string) uint32 {
	c := uint32(0xFFFFFFFE)
	for i := 0; i < len(name); i++ {
		b := bits.Reverse8(name[i])
		for k := 7; k >= 0; k-- {
			// reflected form
			x := c&1 ^ uint32(b>>uint(k))&1
			c >>= 1
			if x != 0 {
				c ^= 0x82F63B78
			}
		}
	}
	return c
}

func TestVerifC13(t *testing.T) {
	v := vstart(t)
	for i, n := 0, vscale(20000); i < n && v.more(); i++ {
		name := string(v.bytes([]int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 127, 128, 254, 255, 256, 1000}[v.r.Intn(21)]))
		switch v.r.Intn(6) {
		case 0:
			name = strings.Repeat("a", v.r.Intn(300))
		case 1:
			name = fmt.Sprintf("file-%d.txt", v.r.Intn(100000))
		case 2:
			name = "\xc3\xa4\xe2\x82\xac\xff\x00" + name
		}
		d := fmt.Sprintf("NameHash(%q)", name)
		v.sample("%.80s", d)
		v.try(d, func() {
			if got, want := NameHash(name), vcrc(name); got != want {
				v.fail("%s = %#x, want %#x", d, got, want)
			}
		})
		a := []uint64{uint64(v.r.Intn(256)), v.num(), v.num()}
		for n := 0; n <= 3; n++ {
			args := append([]uint64{}, a[:n]...)
			lo := btrfs.Key{}
			hi := btrfs.Key{Type: 255, ObjectID: 0xFFFFFFFFFFFFFF00, Offset: ^uint64(0)}
			for _, k := range []*btrfs.Key{&lo, &hi} {
				if n > 0 {
					k.Type = uint8(a[0])
				}
				if n > 1 {
					k.ObjectID = a[1]
				}
				if n > 2 {
					k.Offset = a[2]
				}
			}
			v.try(fmt.Sprintf("KF/KL(%v)", args), func() {
				if KF(args...) != lo {
					v.fail("KF(%v) = %v, want %v", args, KF(args...), lo)
				}
				if KL(args...) != hi {
					v.fail("KL(%v) = %v, want %v", args, KL(args...), hi)
				}
			})
		}
	}
}
