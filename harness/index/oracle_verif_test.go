package index

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/uuid"
	"go.etcd.io/bbolt"
)

// vent is one stored object version.
type vent struct {
	owner    uint64
	typ      uint8
	id, off  uint64
	gen      uint64
	data     []byte // the item's data
	declared uint32 // the size its header declares
}

func (e vent) obj() [4]uint64 { return [4]uint64{e.owner, uint64(e.typ), e.id, e.off} }

func (e vent) String() string {
	return fmt.Sprintf("(%d t%d %d +%d)@%d", e.owner, e.typ, e.id, e.off, e.gen)
}

func (e vent) payload() []byte {
	n := int(e.declared)
	if uint64(e.declared) > uint64(len(e.data)) {
		n = len(e.data)
	}
	return e.data[:n]
}

func (e vent) value() []byte {
	b := make([]byte, 25+len(e.data))
	binary.LittleEndian.PutUint64(b[0:], e.id)
	b[8] = e.typ
	binary.LittleEndian.PutUint64(b[9:], e.off)
	binary.LittleEndian.PutUint32(b[17:], 0x1234)
	binary.LittleEndian.PutUint32(b[21:], e.declared)
	copy(b[25:], e.data)
	return b
}

func vkey(owner uint64, typ uint8, id, off, gen uint64) []byte {
	b := make([]byte, 33)
	binary.BigEndian.PutUint64(b[0:], owner)
	b[8] = typ
	binary.BigEndian.PutUint64(b[9:], id)
	binary.BigEndian.PutUint64(b[17:], off)
	binary.BigEndian.PutUint64(b[25:], gen)
	return b
}

func vless(a, b [4]uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func vmeta(version uint64, bs uint32, id uuid.UUID, gen uint64) []byte {
	b := make([]byte, 36)
	binary.LittleEndian.PutUint64(b[0:], version)
	binary.LittleEndian.PutUint32(b[8:], bs)
	copy(b[12:], id[:])
	binary.LittleEndian.PutUint64(b[28:], gen)
	return b
}

var vmetaKey = vkey(^uint64(0), 255, 0xFFFFFFFFFFFFFF00, ^uint64(0), ^uint64(0))

// vix is an index file with known content.
type vix struct {
	path string
	ents []vent
	ix   *Index
}

func (v *vctx) path() string {
	f, err := os.CreateTemp(v.t.TempDir(), "ix")
	if err != nil {
		panic(err)
	}
	f.Close()
	os.Remove(f.Name())
	return filepath.Join(f.Name())
}

// file writes an index file holding exactly ents (sorted, unique).
func (v *vctx) file(ents []vent, meta []byte) *vix {
	x := &vix{path: v.path()}
	db, err := bbolt.Open(x.path, 0600, &bbolt.Options{NoSync: true, NoFreelistSync: true})
	if err != nil {
		panic(err)
	}
	m := map[string]vent{}
	err = db.Update(func(tx *bbolt.Tx) error {
		b, err := tx.CreateBucket([]byte("index"))
		if err != nil {
			return err
		}
		for _, e := range ents {
			k := vkey(e.owner, e.typ, e.id, e.off, e.gen)
			if string(k) == string(vmetaKey) {
				continue
			}
			if err := b.Put(k, e.value()); err != nil {
				return err
			}
			m[string(k)] = e
		}
		if meta != nil {
			return b.Put(vmetaKey, meta)
		}
		return nil
	})
	if err != nil {
		panic(err)
	}
	db.Close()
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x.ents = append(x.ents, m[k])
	}
	return x
}

func (v *vctx) index(ents []vent) *vix {
	x := v.file(ents, vmeta(20190809, 4096, uuid.UUID{1}, 7))
	var err error
	if x.ix, err = OpenReadOnly(x.path); err != nil {
		v.fail("an intact index is not opened: %v", err)
		panic(err)
	}
	return x
}

func (x *vix) close() {
	if x.ix != nil {
		x.ix.Close()
	}
	os.Remove(x.path)
}

// best: the version of an object a view sees.
func (x *vix) best(owner uint64, typ uint8, id, off, gen uint64) *vent {
	var r *vent
	for i := range x.ents {
		e := &x.ents[i]
		if e.obj() != [4]uint64{owner, uint64(typ), id, off} {
			continue
		}
		if r == nil || e.gen <= gen {
			r = e
		}
	}
	return r
}

// between: the versions of the objects in [lo, hi] a view sees, in order.
func (x *vix) between(lo, hi [4]uint64, gen uint64) (r []vent) {
	for i := 0; i < len(x.ents); {
		o := x.ents[i].obj()
		j := i
		for j < len(x.ents) && x.ents[j].obj() == o {
			j++
		}
		if !vless(o, lo) && !vless(hi, o) {
			b := x.ents[i]
			for k := i; k < j; k++ {
				if x.ents[k].gen <= gen {
					b = x.ents[k]
				}
			}
			r = append(r, b)
		}
		i = j
	}
	return
}

func (x *vix) describe() string {
	s := ""
	for _, e := range x.ents {
		if len(s) > 700 {
			return s + fmt.Sprintf("... (%d entries) ", len(x.ents))
		}
		s += e.String() + " "
	}
	return s
}

// ents: random content; neighbouring keys and several versions are common.
func (v *vctx) ents(owners []uint64, types []uint8, ids, offs []uint64) (r []vent) {
	n := []int{0, 1, 2, 3, 5, 10, 40, 150}[v.r.Intn(8)]
	gens := []uint64{0, 1, 2, 3, 5, 8, 100, ^uint64(0), ^uint64(0) - 1, 1 << 63}
	if v.r.Intn(2) == 0 {
		gens = gens[1:6]
	}
	for i := 0; i < n; i++ {
		e := vent{owner: owners[v.r.Intn(len(owners))], typ: types[v.r.Intn(len(types))], id: ids[v.r.Intn(len(ids))], off: offs[v.r.Intn(len(offs))]}
		m := 1
		if v.r.Intn(2) == 0 {
			m = 1 + v.r.Intn(4)
		}
		for ; m > 0; m-- {
			e.gen = gens[v.r.Intn(len(gens))]
			e.data = v.bytes(v.r.Intn(40))
			e.declared = uint32(len(e.data))
			switch v.r.Intn(12) {
			case 0:
				e.declared = uint32(v.num())
			case 1:
				e.declared = uint32(v.r.Intn(len(e.data) + 1))
			}
			r = append(r, e)
		}
	}
	return
}

func (v *vctx) gen() uint64 {
	return []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 99, 100, 101, ^uint64(0), ^uint64(0) - 1, 1 << 63, 1<<63 - 1}[v.r.Intn(17)]
}

var (
	vowners = []uint64{1, 2, 3, 5, 256, 257, ^uint64(0), ^uint64(0) - 7, 0}
	vtypes  = []uint8{1, 84, 108, 132, 168, 216, 228, 0, 255}
	vids    = []uint64{0, 1, 2, 255, 256, 257, 258, 0xFFFFFFFFFFFFFEFF, 0xFFFFFFFFFFFFFF00, 0xFFFFFFFFFFFFFF01, ^uint64(0)}
	voffs   = []uint64{0, 1, 2, 4096, 65536, 1 << 63, ^uint64(0) - 1, ^uint64(0)}
)

func (v *vctx) some(s []uint64) []uint64 {
	if v.r.Intn(2) == 0 {
		return s
	}
	i := v.r.Intn(len(s))
	return s[i : i+1+v.r.Intn(len(s)-i)]
}

func (v *vctx) content() []vent {
	ts := vtypes
	if v.r.Intn(2) == 0 {
		i := v.r.Intn(len(ts))
		ts = ts[i : i+1]
	}
	return v.ents(v.some(vowners), ts, v.some(vids), v.some(voffs))
}

func vk(e [4]uint64) btrfs.Key {
	return btrfs.Key{ObjectID: e[2], Type: uint8(e[1]), Offset: e[3]}
}
