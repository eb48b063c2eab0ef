package index

import (
	"encoding/binary"
	"fmt"
	"os"
	"testing"
)

// vquiet silences the program's own output on stdout.
func vquiet(f func()) {
	o := os.Stdout
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n
		defer func() { os.Stdout = o; n.Close() }()
	}
	f()
}

func TestVerifC11(t *testing.T) {
	v := vstart(t)
	for i, n := 0, vscale(2500); i < n && v.more(); i++ {
		var ents []vent
		var starts []uint64
		count := []int{0, 1, 2, 3, 7, 30}[v.r.Intn(6)]
		for j := 0; j < count; j++ {
			s := uint64(v.r.Intn(40)) << 20
			if v.r.Intn(3) == 0 {
				s = v.num()
			}
			for g := v.r.Intn(3) + 1; g > 0; g-- {
				stripes := []int{0, 1, 1, 1, 2, 3}[v.r.Intn(6)]
				d := v.bytes(48 + 32*stripes)
				binary.LittleEndian.PutUint16(d[44:], uint16(stripes))
				for k := 0; k < stripes; k++ {
					binary.LittleEndian.PutUint64(d[48+32*k:], uint64(v.r.Intn(3)+1+k*7))
					binary.LittleEndian.PutUint64(d[56+32*k:], v.num())
				}
				ents = append(ents, vent{3, 228, 256, s, uint64(v.r.Intn(6)), append(d, make([]byte, 32)...), uint32(len(d) + 32)})
			}
			starts = append(starts, s)
		}
		// things which are not chunks of this filesystem
		for _, e := range v.ents([]uint64{2, 3, 4}, []uint8{216, 227, 228, 229}, []uint64{255, 257, 1}, []uint64{0, 4096, 1 << 20}) {
			e.data = append(v.bytes(80), make([]byte, 80)...)
			e.declared = uint32(len(e.data))
			ents = append(ents, e)
		}
		x := v.index(ents)
		gen := uint64(v.r.Intn(8))
		if v.r.Intn(3) == 0 {
			gen = ^uint64(0)
		}
		x.ix.Generation = gen
		var use []vent
		for _, e := range x.between([4]uint64{3, 228, 256, 0}, [4]uint64{3, 228, 256, ^uint64(0)}, gen) {
			if binary.LittleEndian.Uint16(e.data[44:]) > 0 {
				use = append(use, e)
			}
		}
		for j := 0; j < 12; j++ {
			a := v.num()
			if len(starts) > 0 && v.r.Intn(4) > 0 {
				a = starts[v.r.Intn(len(starts))] + []uint64{0, 0, 1, ^uint64(0), 4096, 1 << 20}[v.r.Intn(6)]
			}
			desc := fmt.Sprintf("index %saddress %d at generation %d, call %d", x.describe(), a, gen, j)
			v.sample("%s", desc)
			v.try(desc, func() {
				var wd, wo uint64
				if len(use) > 0 {
					e := use[0]
					for _, u := range use {
						if u.off <= a {
							e = u
						}
					}
					wd = binary.LittleEndian.Uint64(e.data[48:])
					wo = binary.LittleEndian.Uint64(e.data[56:]) + a - e.off
				}
				var d, o uint64
				vquiet(func() { d, o = x.ix.Physical(a) })
				if d != wd || o != wo {
					v.fail("%s: device %d offset %d, want %d %d", desc, d, o, wd, wo)
				}
			})
		}
		x.close()
	}
}
