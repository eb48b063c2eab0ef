package btrfs

import (
	"sort"
	"testing"
)

func vkey(v *vctx) Key {
	return Key{ObjectID: v.num(), Type: uint8(v.num()), Offset: v.num()}
}

func vsign(x, y uint64) int {
	if x < y {
		return -1
	} else if x > y {
		return 1
	}
	return 0
}

func vcmp(a, b Key) int {
	for _, c := range []int{vsign(uint64(a.Type), uint64(b.Type)), vsign(a.ObjectID, b.ObjectID), vsign(a.Offset, b.Offset)} {
		if c != 0 {
			return c
		}
	}
	return 0
}

func TestVerifC03(t *testing.T) {
	v := vstart(t)
	n := vscale(200000)
	for i := 0; i < n && v.more(); i++ {
		a, b := vkey(v), vkey(v)
		switch v.r.Intn(4) {
		case 0:
			b = a
		case 1:
			b.Type = a.Type
		case 2:
			b.Type, b.ObjectID = a.Type, a.ObjectID
		}
		v.cases++
		if got, want := KeyCompare(a, b), vcmp(a, b); got != want {
			v.fail("KeyCompare(%#v, %#v) = %d, want %d", a, b, got, want)
		}
		v.sample("KeyCompare(%#v, %#v)", a, b)
	}
	for i := 0; i < 50 && v.more(); i++ {
		var ks []Key
		for j := 0; j < 200; j++ {
			k := Key{ObjectID: uint64(v.r.Intn(4)), Type: uint8(v.r.Intn(4)), Offset: uint64(v.r.Intn(4))}
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return KeyCompare(ks[i], ks[j]) < 0 })
		for j := 1; j < len(ks); j++ {
			v.cases++
			if vcmp(ks[j-1], ks[j]) > 0 {
				v.fail("sorting with KeyCompare puts %#v before %#v", ks[j-1], ks[j])
			}
		}
	}
}
