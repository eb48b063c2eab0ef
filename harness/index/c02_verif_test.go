package index

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

func TestVerifC02(t *testing.T) {
	v := vstart(t)
	n := vscale(60000)
	for i := 0; i < n && v.more(); i++ {
		type tup struct{ owner, typ, id, off, gen uint64 }
		mk := func() tup { return tup{v.num(), uint64(uint8(v.num())), v.num(), v.num(), v.num()} }
		a, b := mk(), mk()
		k := v.r.Intn(6)
		if k > 0 {
			b.owner = a.owner
		}
		if k > 1 {
			b.typ = a.typ
		}
		if k > 2 {
			b.id = a.id
		}
		if k > 3 {
			b.off = a.off
		}
		if k > 4 {
			b.gen = a.gen
		}
		key := func(x tup) keyV2 {
			return newIndexKey(x.owner, btrfs.Key{ObjectID: x.id, Type: uint8(x.typ), Offset: x.off}, x.gen)
		}
		cmp := func() int {
			x, y := []uint64{a.owner, a.typ, a.id, a.off, a.gen}, []uint64{b.owner, b.typ, b.id, b.off, b.gen}
			for i := range x {
				if x[i] < y[i] {
					return -1
				} else if x[i] > y[i] {
					return 1
				}
			}
			return 0
		}
		desc := fmt.Sprintf("keys of %+v and %+v", a, b)
		v.sample("%s", desc)
		v.try(desc, func() {
			ka, kb := key(a), key(b)
			if got := bytes.Compare(ka, kb); got != cmp() {
				v.fail("%s compare %d, want %d", desc, got, cmp())
			}
			if g := (tup{ka.Owner(), uint64(ka.Type()), ka.ObjectID(), ka.Offset(), ka.Generation()}); g != a {
				v.fail("key of %+v reads back as %+v", a, g)
			}
			if g := ka.Key(); g != (btrfs.Key{ObjectID: a.id, Type: uint8(a.typ), Offset: a.off}) {
				v.fail("key of %+v: Key() is %+v", a, g)
			}
			// V1: the same components in the older layout
			v1 := make([]byte, 33)
			binary.BigEndian.PutUint64(v1[0:], a.owner)
			v1[8] = byte(a.typ)
			binary.BigEndian.PutUint64(v1[9:], a.id)
			binary.BigEndian.PutUint64(v1[17:], a.off)
			binary.BigEndian.PutUint64(v1[25:], a.gen)
			if c := NewIndexKeyFromV1(v1); !bytes.Equal(c, ka) {
				v.fail("legacy key of %+v converts to %x, want %x", a, []byte(c), []byte(ka))
			}
			if g := keyV1(v1).Key(); g != (btrfs.Key{ObjectID: a.id, Type: uint8(a.typ), Offset: a.off}) || keyV1(v1).Generation() != a.gen || keyV1(v1).Owner() != a.owner {
				v.fail("legacy key of %+v reads back as %+v", a, g)
			}
		})
	}
}
