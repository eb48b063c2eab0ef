package index

import (
	"bytes"
	"testing"
)

func TestVerifC08(t *testing.T) {
	v := vstart(t)
	for i, n := 0, vscale(8000); i < n && v.more(); i++ {
		ents := v.content()
		if v.r.Intn(4) == 0 {
			// neighbours of the index's own record
			for _, g := range []uint64{0, 1, ^uint64(0) - 1} {
				ents = append(ents, vent{^uint64(0), 255, 0xFFFFFFFFFFFFFF00, ^uint64(0), g, v.bytes(10), 10})
			}
			ents = append(ents, vent{^uint64(0), 255, 0xFFFFFFFFFFFFFF01, 0, 3, v.bytes(10), 10})
		}
		if v.r.Intn(4) == 0 {
			for _, g := range []uint64{0, 1} {
				if v.r.Intn(3) > 0 {
					ents = append(ents, vent{0, 0, 0, 0, g, v.bytes(10), 10})
				}
			}
		}
		x := v.index(ents)
		x.ix.Generation = v.gen()
		desc := "dump of index " + x.describe()
		v.sample("%s", desc)
		v.try(desc, func() {
			r, d := x.ix.FullRange()
			for k := 0; ; k++ {
				if r.HasNext() != (k < len(x.ents)) {
					v.fail("%s: more after %d entries: %v, want %d", desc, k, r.HasNext(), len(x.ents))
					return
				}
				if k == len(x.ents) {
					if d != nil {
						v.fail("%s: data at the end", desc)
					}
					return
				}
				w := x.ents[k]
				if r.Owner() != w.owner || r.Key() != vk(w.obj()) || r.Generation() != w.gen || !bytes.Equal(d, w.payload()) || !bytes.Equal(r.Item(), w.value()) {
					v.fail("%s: entry %d is owner %d key %v generation %d data %x, want %v data %x", desc, k, r.Owner(), r.Key(), r.Generation(), d, w, w.payload())
					return
				}
				d = r.Next()
			}
		})
		x.close()
	}
}
