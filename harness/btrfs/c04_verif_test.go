package btrfs

import (
	"encoding/binary"
	"fmt"
	"testing"
	"unsafe"
)

// vwithin: s lies inside b (or is empty).
func vwithin(b, s []byte) (int, bool) {
	if len(s) == 0 {
		return 0, true
	}
	o := int(uintptr(unsafe.Pointer(&s[0])) - uintptr(unsafe.Pointer(&b[0])))
	return o, o >= 0 && o+len(s) <= len(b)
}

func TestVerifC04(t *testing.T) {
	v := vstart(t)
	n := vscale(6000)
	for i := 0; i < n && v.more(); i++ {
		size := []int{101, 102, 125, 126, 150, 151, 176, 512, 4096, 16384, 65536}[v.r.Intn(11)]
		back := v.bytes(size + 300) // bytes behind the block must not be reachable
		b := back[:size:size]
		if v.r.Intn(3) == 0 {
			b = back[:size]
		}
		nr := []uint64{0, 1, 2, 3, uint64((size - 101) / 25), uint64((size-101)/25 + 1), uint64((size - 101) / 25 * 2), 0xffffffff, v.num(), 0x80000000}[v.r.Intn(10)]
		binary.LittleEndian.PutUint32(b[96:], uint32(nr))
		slots := (size - 101) / 25
		for j := 0; j < slots; j++ {
			o := 101 + 25*j
			binary.LittleEndian.PutUint32(b[o+17:], uint32([]uint64{v.num(), uint64(v.r.Intn(size)), uint64(size - 101 - v.r.Intn(30)), uint64(size)}[v.r.Intn(4)]))
			binary.LittleEndian.PutUint32(b[o+21:], uint32([]uint64{v.num(), uint64(v.r.Intn(size)), uint64(v.r.Intn(40)), 0}[v.r.Intn(4)]))
		}
		want := slots
		if uint64(uint32(nr)) < uint64(slots) {
			want = int(uint32(nr))
		}
		desc := fmt.Sprintf("leaf of %d bytes, nritems %d", size, uint32(nr))
		v.sample("%s", desc)
		v.try(desc, func() {
			l := Leaf(b)
			if l.Len() != want {
				v.fail("%s: Len() = %d, want %d", desc, l.Len(), want)
				return
			}
			items := l.Items()
			if len(items) != want {
				v.fail("%s: %d items, want %d", desc, len(items), want)
				return
			}
			for j := 0; j < want; j++ {
				if want > 40 && j > 5 && j < want-5 && v.r.Intn(1+want/40) != 0 {
					continue
				}
				for _, it := range []Item{items[j], l.Item(j)} {
					if o, ok := vwithin(b, it); !ok || o != 101+25*j || len(it) != 25 {
						v.fail("%s: item %d at %d, %d bytes", desc, j, o, len(it))
					}
				}
				o := 101 + 25*j
				if k := l.Key(j); k != (Key{ObjectID: vle(b, o, 8), Type: b[o+8], Offset: vle(b, o+9, 8)}) {
					v.fail("%s: key of item %d is %v", desc, j, k)
				}
				do, ds := vle(b, o+17, 4), vle(b, o+21, 4)
				lo, hi := 101+do, 101+do+ds
				if lo > uint64(size) {
					lo = uint64(size)
				}
				if hi > uint64(size) {
					hi = uint64(size)
				}
				d := l.Data(j)
				if at, ok := vwithin(b, d); !ok || uint64(len(d)) != hi-lo || len(d) > 0 && uint64(at) != lo {
					v.fail("%s: data of item %d (offset %d, size %d) has %d bytes at %d, want [%d,%d)", desc, j, do, ds, len(d), at, lo, hi)
				}
			}
		})
	}
}
