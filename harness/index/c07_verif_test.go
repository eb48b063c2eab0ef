package index

import (
	"bytes"
	"fmt"
	"testing"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

func TestVerifC07(t *testing.T) {
	v := vstart(t)
	max := ^uint64(0)
	for i, n := 0, vscale(1500); i < n && v.more(); i++ {
		x := v.index(v.content())
		obj := func() [4]uint64 {
			o := [4]uint64{vowners[v.r.Intn(len(vowners))], uint64(vtypes[v.r.Intn(len(vtypes))]), vids[v.r.Intn(len(vids))], voffs[v.r.Intn(len(voffs))]}
			if len(x.ents) > 0 && v.r.Intn(5) > 0 {
				o = x.ents[v.r.Intn(len(x.ents))].obj()
			}
			return o
		}
		for j := 0; j < 20; j++ {
			lo, hi := obj(), obj()
			hi[0] = lo[0]
			if v.r.Intn(2) == 0 {
				hi[1] = lo[1]
				if v.r.Intn(2) == 0 {
					hi[2] = lo[2]
				}
			}
			if v.r.Intn(3) > 0 && vless(hi, lo) {
				lo, hi = hi, lo
			}
			if lo[0] == max && hi[1] == 255 {
				continue // would include the index's own record
			}
			gen := v.gen()
			x.ix.Generation = gen
			scan := func(what string, lo, hi [4]uint64, f func() (Range, []byte)) {
				desc := fmt.Sprintf("index %s%s [%v, %v] at generation %d", x.describe(), what, lo, hi, gen)
				v.sample("%s", desc)
				v.try(desc, func() {
					want := x.between(lo, hi, gen)
					r, d := f()
					for k := 0; ; k++ {
						if r.HasNext() != (k < len(want)) {
							v.fail("%s: more after %d items: %v, want %d items", desc, k, r.HasNext(), len(want))
							return
						}
						if k == len(want) {
							if d != nil {
								v.fail("%s: data at the end", desc)
							}
							return
						}
						w := want[k]
						if r.Owner() != w.owner || r.Key() != vk(w.obj()) || r.Generation() != w.gen {
							v.fail("%s: item %d is owner %d key %v generation %d, want %v", desc, k, r.Owner(), r.Key(), r.Generation(), w)
							return
						}
						if !bytes.Equal(d, w.payload()) || !bytes.Equal(r.Item(), w.value()) {
							v.fail("%s: item %d %v has data %x, want %x", desc, k, w, d, w.payload())
							return
						}
						d = r.Next()
					}
				})
			}
			scan("Range", lo, hi, func() (Range, []byte) { return x.ix.Range(lo[0], vk(lo), vk(hi)) })
			o, id := lo[0], lo[2]
			all := func(t uint64, o, id uint64) ([4]uint64, [4]uint64) {
				return [4]uint64{o, t, id, 0}, [4]uint64{o, t, id, max}
			}
			a, b := all(lo[1], o, id)
			if !(o == max && lo[1] == 255) {
				scan("RangeAll", a, b, func() (Range, []byte) { return x.ix.RangeAll(o, uint8(lo[1]), id) })
			}
			a, b = all(84, o, id)
			scan("DirItems", a, b, func() (Range, []byte) { r, d := x.ix.DirItems(o, id); return r, d })
			a, b = all(24, o, id)
			scan("XAttrItems", a, b, func() (Range, []byte) { r, d := x.ix.XAttrItems(o, id); return r, d })
			a, b = all(108, o, id)
			scan("FileExtentItems", a, b, func() (Range, []byte) { r, d := x.ix.FileExtentItems(o, id); return r, d })
			a, b = all(228, 3, 256)
			scan("Chunks", a, b, func() (Range, []byte) { r, d := x.ix.Chunks(); return r, d })
			a, b = all(216, 3, 1)
			scan("DevItems", a, b, func() (Range, []byte) { r, d := x.ix.DevItems(); return r, d })
			scan("Subvolumes", [4]uint64{1, 132, 256, 0}, [4]uint64{1, 132, 0xFFFFFFFFFFFFFF00, max}, func() (Range, []byte) { r, d := x.ix.Subvolumes(); return r, d })
		}
		x.close()
	}
	_ = btrfs.ItemLen
}
