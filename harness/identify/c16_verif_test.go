package identify

import (
	"fmt"
	"testing"
)

func TestVerifC16(t *testing.T) {
	v := vstart(t)
	supers := []uint64{0x10000, 0x4000000, 0x4000000000, 0x4000000000000}
	sizes := []uint64{512, 4096, 4096, 16384, 16384, 65536, 1000, 1 << 20}
	for i := 0; i < vscale(1500) && v.more(); i++ {
		bs := sizes[v.r.Intn(len(sizes))]
		min := uint64(0x4000000) + 100*bs
		dev := min
		switch v.r.Intn(6) {
		case 0:
			dev += uint64(v.r.Intn(3))
		case 1:
			dev += uint64(v.r.Intn(200)) * bs / 2
		case 2: // around the neighbourhood of a superblock copy
			s := supers[2+v.r.Intn(2)]
			dev = s + uint64(v.r.Intn(110))*bs
			if v.r.Intn(2) == 0 {
				dev += uint64(v.r.Intn(int(bs)))
			}
		case 3:
			dev = supers[3] + uint64(v.r.Int63n(1<<50))
		case 4:
			dev += uint64(v.r.Int63n(1 << 38))
		default:
			dev += uint64(v.r.Int63n(1 << 28))
		}
		if dev < min {
			dev = min
		}
		blocks := dev / bs
		n := uint64(v.r.Intn(1000))
		switch v.r.Intn(6) {
		case 0:
			n = []uint64{0, 1, 99, 100, 101, 199, 200, 299, 300, 399, 400, 401}[v.r.Intn(12)]
		case 1:
			n = 400 + uint64(v.r.Intn(1500))
		case 2:
			if blocks < 20000 && i%10 == 0 {
				n = blocks - uint64(v.r.Intn(2))
			}
		}
		if n > blocks {
			n = blocks
		}
		desc := fmt.Sprintf("device of %d bytes, block size %d, %d samples", dev, bs, n)
		v.try(desc, func() {
			r := MakeSampleOffsets(dev, bs, n)
			if uint64(len(r)) != n {
				v.fail("%s: %d offsets", desc, len(r))
			}
			have := map[uint64]bool{}
			for j, o := range r {
				have[o] = true
				if o > dev-bs {
					v.fail("%s: offset %d is not inside the device", desc, o)
					return
				}
				if j > 0 && r[j-1] >= o {
					v.fail("%s: offsets %d, %d are not ascending", desc, r[j-1], o)
					return
				}
			}
			if n < 400 {
				return
			}
			for _, s := range supers {
				for k := uint64(0); k < 100; k++ {
					if o := s + k*bs; o+bs <= dev && !have[o] {
						v.fail("%s: position %d after the superblock copy at %d is missing", desc, k, s)
						return
					}
				}
			}
		})
	}
}
