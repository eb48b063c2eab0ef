package btrfs

import (
	"encoding/binary"
	"fmt"
	"testing"
)

func vpart(b []byte, off, n, max uint64) string {
	if n > max {
		n = max
	}
	l := uint64(len(b))
	if off > l {
		off = l
	}
	if n > l-off {
		n = l - off
	}
	return string(b[off : off+n])
}

func TestVerifC05(t *testing.T) {
	v := vstart(t)
	n := vscale(20000)
	const all = 1 << 40
	for i := 0; i < n && v.more(); i++ {
		back := v.bytes(20000)
		ln := func() uint64 {
			return []uint64{v.num(), uint64(v.r.Intn(300)), uint64(v.r.Intn(20)), 255, 256, 16384, 16385}[v.r.Intn(7)]
		}
		mk := func(fixed int) []byte {
			size := fixed + []int{0, 1, 10, 255, 256, 300, 600, 16384, 17000}[v.r.Intn(9)]
			if v.r.Intn(2) == 0 {
				return back[:size:size]
			}
			return back[:size]
		}
		p16, p32, p64 := binary.LittleEndian.PutUint16, binary.LittleEndian.PutUint32, binary.LittleEndian.PutUint64
		check := func(what, got, want string) {
			if got != want {
				v.fail("%s: %d bytes %.40x.., want %d bytes %.40x..", what, len(got), got, len(want), want)
			}
		}
		b := mk(25)
		p32(b[21:], uint32(ln()))
		v.try("Item.Data", func() {
			check(fmt.Sprintf("Item.Data of %d bytes, size %d", len(b), vle(b, 21, 4)), string(Item(b).Data()), vpart(b, 25, vle(b, 21, 4), all))
		})
		b = mk(10)
		p16(b[8:], uint16(ln()))
		v.try(fmt.Sprintf("InodeRefItem.Name of %d bytes, length %d", len(b), vle(b, 8, 2)), func() {
			check(fmt.Sprintf("InodeRefItem.Name of %d bytes, length %d", len(b), vle(b, 8, 2)), InodeRefItem(b).Name(), vpart(b, 10, vle(b, 8, 2), 255))
		})
		b = mk(30)
		p16(b[27:], uint16(ln()))
		p16(b[25:], uint16(ln()))
		d := fmt.Sprintf("DirItem of %d bytes, name length %d, data length %d", len(b), vle(b, 27, 2), vle(b, 25, 2))
		v.sample("%s", d)
		v.try(d, func() {
			check(d+": Name", DirItem(b).Name(), vpart(b, 30, vle(b, 27, 2), 255))
			check(d+": Data", DirItem(b).Data(), vpart(b, 30+vle(b, 27, 2), vle(b, 25, 2), all))
		})
		b = mk(18)
		p16(b[16:], uint16(ln()))
		d2 := fmt.Sprintf("RootRef.Name of %d bytes, length %d", len(b), vle(b, 16, 2))
		v.try(d2, func() { check(d2, RootRef(b).Name(), vpart(b, 18, vle(b, 16, 2), 255)) })
		b = mk(21)
		p64(b[8:], ln())
		d3 := fmt.Sprintf("FileExtentItem.Data of %d bytes, ram bytes %d", len(b), vle(b, 8, 8))
		v.try(d3, func() { check(d3, FileExtentItem(b).Data(), vpart(b, 21, vle(b, 8, 8), 16384)) })
	}
}
