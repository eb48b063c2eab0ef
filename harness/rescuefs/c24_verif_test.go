package rescuefs

import (
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/hanwen/go-fuse/v2/fuse"
)

// vdevice is a device of which some parts cannot be read.
type vdevice struct {
	data    []byte
	bad     [2]int64 // unreadable positions
	eofFull bool     // a read that reaches the end reports io.EOF
}

func (d *vdevice) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	for i := range p {
		p[i] = 0xee // ReadAt may use all of p as scratch space
	}
	if off >= int64(len(d.data)) {
		return 0, io.EOF
	}
	end := off + int64(len(p))
	if off < d.bad[1] && end > d.bad[0] {
		n := 0
		if d.bad[0] > off {
			n = copy(p, d.data[off:d.bad[0]])
		}
		return n, errors.New("I/O error")
	}
	n := copy(p, d.data[off:])
	if n < len(p) || d.eofFull && end == int64(len(d.data)) {
		return n, io.EOF
	}
	return n, nil
}

func TestVerifC24(t *testing.T) {
	v := vstart(t)
	for n := vscale(600); n > 0 && v.more(); n-- {
		f := v.newfs(3000 + v.r.Intn(6000))
		f.chunk(10000, 2000, uint64(100+v.r.Intn(500)))
		f.chunk(50000, 3000, uint64(v.r.Intn(5000)))
		es := f.extents([]int{10, 300, 900}[v.r.Intn(3)])
		id := uint64(300)
		if v.r.Intn(4) == 0 {
			es = []vext{{inline: v.bytes(v.r.Intn(300))}}
		}
		for _, e := range es {
			f.extent(vFS, id, e)
		}
		f.extent(vFS, id-1, vext{off: 0, n: 100, logical: 10000})
		f.extent(vFS, id+1, vext{off: 0, n: 100, logical: 10000})
		f.extent(256, id, vext{off: 5000, n: 100, logical: 10000})
		if v.r.Intn(2) == 0 {
			f.inode(vFS, id, vinode{size: vend(es), mode: 0100644})
		}
		d := &vdevice{data: f.dev, eofFull: v.r.Intn(2) == 0}
		if v.r.Intn(3) == 0 {
			d.bad[0] = int64(v.r.Intn(len(f.dev)))
			d.bad[1] = d.bad[0] + int64(v.r.Intn(300))
		}
		ix := f.open()
		fs := New(f.path, ix, d)
		file, st := newRescueNode(&fs, vFS, id).Open(uint32(v.r.Intn(2)*1024), nil)
		fdesc := fmt.Sprintf("a file (device of %d bytes, unreadable %v, chunks %v) with extents %v", len(f.dev), d.bad, f.chunks, es)
		if st != fuse.OK || file == nil {
			v.fail("%s: open fails with %v", fdesc, st)
			ix.Close()
			f.done()
			continue
		}
		end := vend(es)
		for i := 0; i < 12; i++ {
			off := uint64(v.r.Intn(int(end) + 50))
			switch v.r.Intn(4) {
			case 0:
				off = 0
			case 1:
				e := es[v.r.Intn(len(es))]
				off = e.off + uint64(v.r.Intn(3))
				if off > 0 {
					off--
				}
			}
			size := v.r.Intn(2000)
			if v.r.Intn(3) == 0 {
				size = v.r.Intn(20)
			}
			if v.r.Intn(20) == 0 {
				off = []uint64{1 << 62, 1<<63 - 1, end, end + 1}[v.r.Intn(4)]
			}
			backing := make([]byte, size+200)
			for j := range backing {
				backing[j] = 0xc3
			}
			desc := fmt.Sprintf("reading %d bytes at %d of %s", size, off, fdesc)
			v.try(desc, func() {
				res, st := file.Read(backing[:size], int64(off))
				for j := size; j < len(backing); j++ {
					if backing[j] != 0xc3 {
						v.fail("%s: byte %d behind the buffer is written", desc, j-size)
						return
					}
				}
				want := uint64(0)
				if off < end {
					want = end - off
				}
				if want > uint64(size) {
					want = uint64(size)
				}
				readable := true
				exp := make([]byte, want)
				for j := range exp {
					p := off + uint64(j)
					var ok bool
					exp[j], ok = f.at(es, p)
					readable = readable && ok
					for _, e := range es {
						if e.inline == nil && !e.hole && p >= e.off && p-e.off < e.n {
							q := int64(f.phys(e.logical) + e.extOff + p - e.off)
							if q >= d.bad[0] && q < d.bad[1] {
								readable = false
							}
						}
					}
				}
				if !readable {
					if st == fuse.OK {
						v.fail("%s: the device cannot be read, but no error is reported", desc)
					}
					return
				}
				if st != fuse.OK {
					v.fail("%s: fails with %v", desc, st)
					return
				}
				got, _ := res.Bytes(make([]byte, size))
				if len(got) != len(exp) {
					v.fail("%s: %d bytes instead of %d", desc, len(got), len(exp))
					return
				}
				for j := range exp {
					if got[j] != exp[j] {
						v.fail("%s: byte %#x instead of %#x at %d", desc, got[j], exp[j], off+uint64(j))
						return
					}
				}
			})
			if i == 0 {
				v.sample("%s", desc)
			}
		}
		v.try("negative offset", func() {
			if _, st := file.Read(make([]byte, 10), -1); st == fuse.OK {
				v.fail("reading at -1 of %s succeeds", fdesc)
			}
		})
		ix.Close()
		f.done()
	}
	// sizes and positions near the limits
	for n := vscale(200); n > 0 && v.more(); n-- {
		f := &extentFile{fs: &rescueFS{dev: &vdevice{data: v.bytes(5000)}}}
		for i := v.r.Intn(4); i >= 0; i-- {
			f.extentMap = append(f.extentMap, extentMapEntry{fileOffset: v.num(), length: v.num(), physOffset: v.num(), diskByteNr: v.num()})
		}
		buf := make([]byte, v.r.Intn(500))
		off := int64(v.num())
		desc := fmt.Sprintf("reading %d bytes at %d of a file with the map %v", len(buf), off, f.extentMap)
		v.try(desc, func() { f.Read(buf, off) })
	}
}
