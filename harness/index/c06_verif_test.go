package index

import (
	"bytes"
	"fmt"
	"testing"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

func TestVerifC06(t *testing.T) {
	v := vstart(t)
	for i, n := 0, vscale(1500); i < n && v.more(); i++ {
		x := v.index(v.content())
		for j := 0; j < 60; j++ {
			o := [4]uint64{vowners[v.r.Intn(len(vowners))], uint64(vtypes[v.r.Intn(len(vtypes))]), vids[v.r.Intn(len(vids))], voffs[v.r.Intn(len(voffs))]}
			if len(x.ents) > 0 && v.r.Intn(4) > 0 {
				o = x.ents[v.r.Intn(len(x.ents))].obj()
				if v.r.Intn(5) == 0 {
					o[v.r.Intn(4)] += uint64(v.r.Intn(3)) - 1
					o[1] &= 255
				}
			}
			if o[0] == ^uint64(0) && o[1] == 255 && o[2] == 0xFFFFFFFFFFFFFF00 && o[3] == ^uint64(0) {
				continue // the index's own record
			}
			gen := v.gen()
			x.ix.Generation = gen
			desc := fmt.Sprintf("index %slookup of owner %d type %d id %d offset %d at generation %d", x.describe(), o[0], o[1], o[2], o[3], gen)
			v.sample("%s", desc)
			get := func(what string, k [4]uint64, f func() ([]byte, bool), whole bool) {
				v.try(desc, func() {
					got, ok := f()
					e := x.best(k[0], uint8(k[1]), k[2], k[3], gen)
					if ok != (e != nil) {
						v.fail("%s: %s found something: %v, stored: %v", desc, what, ok, e != nil)
						return
					}
					if e == nil {
						return
					}
					want := e.payload()
					if whole {
						want = e.value()
					}
					if !bytes.Equal(got, want) {
						v.fail("%s: %s returns %x, want %x of generation %d", desc, what, got, want, e.gen)
					}
				})
			}
			get("FindItem", o, func() ([]byte, bool) { i := x.ix.FindItem(o[0], vk(o)); return i, i != nil }, true)
			get("FindInodeItem", [4]uint64{o[0], 1, o[2], 0}, func() ([]byte, bool) { i := x.ix.FindInodeItem(o[0], o[2]); return i, i != nil }, false)
			get("FindFileExtentItem", [4]uint64{o[0], 108, o[2], 0}, func() ([]byte, bool) { i := x.ix.FindFileExtentItem(o[0], o[2]); return i, i != nil }, false)
			get("FindExtentItem", [4]uint64{2, 168, o[2], o[3]}, func() ([]byte, bool) { i := x.ix.FindExtentItem(o[2], o[3]); return i, i != nil }, false)
			get("Item.Data", o, func() ([]byte, bool) {
				i := x.ix.FindItem(o[0], vk(o))
				if i == nil {
					return nil, false
				}
				return i.Data(), true
			}, false)
		}
		x.close()
	}
	_ = btrfs.ItemLen
}
