package cmd

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"testing"
)

func TestVerifC19(t *testing.T) {
	v := vstart(t)
	defer vquiet()()
	for n := vscale(400); n > 0 && v.more(); n-- {
		f := v.newfs(3000 + v.r.Intn(6000))
		f.chunk(10000, 2000, uint64(100+v.r.Intn(500)))
		f.chunk(50000, 3000, uint64(v.r.Intn(5000)))
		es := f.extents([]int{10, 300, 900}[v.r.Intn(3)])
		if v.r.Intn(4) == 0 {
			es = []vext{{inline: v.bytes(v.r.Intn(300))}}
			es[0].n = uint64(len(es[0].inline))
		}
		if v.r.Intn(15) == 0 {
			es = nil
		}
		var big bool
		if n == 7 || v.r.Intn(60) == 0 {
			// long extents: several chunks of copying
			big = true
			f.dev = make([]byte, 3<<20+17)
			v.r.Read(f.dev)
			f.chunks, f.ents = nil, map[string]vent{}
			f.chunk(10000, 1<<30, 100)
			es = []vext{{off: 0, n: uint64(2<<20 + 100*v.r.Intn(5000)), logical: 10100, extOff: 50}}
			es = append(es, vext{off: es[0].n, n: 5000, hole: true}, vext{off: es[0].n + 5000, n: 1<<20 + 3, logical: 11000})
		}
		end := vend(es)
		size := end
		hasInode := v.r.Intn(5) != 0
		switch v.r.Intn(4) {
		case 0:
			size = uint64(v.r.Intn(int(end + 2)))
		case 1:
			size = end + uint64(v.r.Intn(400))
		}
		id := uint64(300)
		if hasInode {
			f.inode(vFS, id, vinode{size: size, mode: 0100644})
		}
		// another file around it
		f.extent(vFS, id-1, vext{off: 0, n: 100, logical: 10000})
		f.extent(vFS, id+1, vext{off: 0, n: 100, logical: 10000})
		f.extent(256, id, vext{off: 5000, n: 100, logical: 10000})
		for _, e := range es {
			f.extent(vFS, id, e)
		}
		desc := fmt.Sprintf("recovering a file of size %d (inode item: %v, device of %d bytes, chunks %v) with extents %v", size, hasInode, len(f.dev), f.chunks, es)
		ix, dev := vopen(f)
		target := filepath.Join(f.dir, "out")
		opts := recoverFilesOptions{clobber: v.r.Intn(2) == 0}
		pre := ""
		if opts.clobber && v.r.Intn(2) == 0 {
			os.WriteFile(target, v.bytes(8000), 0644)
			pre = ", overwriting a file of 8000 bytes"
		}
		mode := v.r.Intn(8)
		broken := false
		switch mode {
		case 0: // the device cannot be read
			dev.Close()
			dev, _ = os.OpenFile(filepath.Join(f.dir, "wo"), os.O_CREATE|os.O_WRONLY, 0600)
			pre += ", reading the device fails"
			broken = true
		case 1: // the target cannot be written
			target = filepath.Join(f.dir, "nodir", "out")
			pre += ", the target directory does not exist"
		}
		desc += pre
		v.try(desc, func() {
			err := recoverFile(ix, dev, vFS, id, target, opts)
			if mode == 1 {
				if err == nil {
					v.fail("%s: success is reported", desc)
				}
				return
			}
			readable := f.vreadable(es)
			if broken {
				readable = true
				for _, e := range es {
					if e.inline == nil && !e.hole {
						readable = false
					}
				}
			}
			if err != nil {
				if readable {
					v.fail("%s: it fails with %v", desc, err)
				}
				return
			}
			if !readable {
				v.fail("%s: success is reported although the device does not have all data", desc)
				return
			}
			if msg, ok := f.vcheckFile(target, es, size, hasInode); !ok {
				v.fail("%s: success is reported, but the file %s", desc, msg)
			}
		})
		v.sample("%s", desc)
		_ = big
		dev.Close()
		ix.Close()
		f.done()
	}
	// writes that fail
	for _, off := range []uint64{math.MaxUint64 - 4095, 1 << 63, 1<<63 - 4096, 1 << 62} {
		f := v.newfs(20000)
		f.chunk(10000, 5000, 100)
		f.extent(vFS, 300, vext{off: 0, n: 10, logical: 10000})
		f.extent(vFS, 300, vext{off: off, n: 100, logical: 10000})
		ix, dev := vopen(f)
		target := filepath.Join(f.dir, "out")
		// does the filesystem take such a file?
		probe, _ := os.Create(filepath.Join(f.dir, "probe"))
		_, perr := probe.WriteAt([]byte{1}, int64(off&math.MaxInt64))
		probe.Close()
		desc := fmt.Sprintf("recovering a file with an extent at position %d", off)
		v.try(desc, func() {
			err := recoverFile(ix, dev, vFS, 300, target, recoverFilesOptions{})
			if err == nil && (off >= 1<<63 || perr != nil) {
				v.fail("%s: success is reported although it cannot be written", desc)
			}
		})
		dev.Close()
		ix.Close()
		f.done()
	}
	// sizes that cannot be set
	for _, ext := range []bool{false, true} {
		f := v.newfs(20000)
		f.chunk(10000, 5000, 100)
		f.inode(vFS, 300, vinode{size: 1 << 63, mode: 0100644})
		if ext {
			f.extent(vFS, 300, vext{off: 0, n: 10, logical: 10000})
		}
		ix, dev := vopen(f)
		desc := "recovering a file of size 2^63"
		v.try(desc, func() {
			if recoverFile(ix, dev, vFS, 300, filepath.Join(f.dir, "out"), recoverFilesOptions{}) == nil {
				v.fail("%s: success is reported", desc)
			}
		})
		dev.Close()
		ix.Close()
		f.done()
	}
	// huge holes take no memory
	f := v.newfs(20000)
	f.chunk(10000, 5000, 100)
	f.inode(vFS, 300, vinode{size: 30, mode: 0100644})
	f.extent(vFS, 300, vext{off: 0, n: 10, logical: 10000})
	f.extent(vFS, 300, vext{off: 10, n: 1 << 50, hole: true})
	ix, dev := vopen(f)
	v.try("recovering a file with a hole of 2^50 bytes", func() {
		target := filepath.Join(f.dir, "out")
		if err := recoverFile(ix, dev, vFS, 300, target, recoverFilesOptions{}); err != nil {
			v.fail("a file with a hole of 2^50 bytes: %v", err)
		} else if msg, ok := f.vcheckFile(target, []vext{{off: 0, n: 10, logical: 10000}}, 30, true); !ok {
			v.fail("a file with a hole of 2^50 bytes %s", msg)
		}
	})
	dev.Close()
	ix.Close()
	f.done()
}
