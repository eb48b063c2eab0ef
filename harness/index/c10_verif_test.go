package index

import (
	"bytes"
	"fmt"
	"os"
	"testing"
	"time"

	"blichmann.eu/code/btrfscue/pkg/uuid"
	"go.etcd.io/bbolt"
)

func vdump(path string) (m map[string]string, err error) {
	db, err := bbolt.Open(path, 0600, &bbolt.Options{ReadOnly: true, Timeout: 2 * time.Second})
	if err != nil {
		return nil, err
	}
	defer db.Close()
	err = db.View(func(tx *bbolt.Tx) error {
		b := tx.Bucket([]byte("index"))
		if b == nil {
			return nil
		}
		m = map[string]string{}
		return b.ForEach(func(k, val []byte) error {
			m[string(k)] = string(val)
			return nil
		})
	})
	return
}

func vsame(a, b map[string]string) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for k, x := range a {
		if y, ok := b[k]; !ok || x != y {
			return false
		}
	}
	return true
}

func TestVerifC10(t *testing.T) {
	v := vstart(t)
	ids := []uuid.UUID{{}, {1, 2, 3}, {1, 2, 4}, {15: 9}}
	const cur, legacy = 20190809, 20161109
	for i, n := 0, vscale(1500); i < n && v.more(); i++ {
		o := Options{ReadOnly: v.r.Intn(2) == 0, BlockSize: []uint{4096, 16384, 65536, 0}[v.r.Intn(4)], FSID: ids[v.r.Intn(4)], Generation: v.num(), AllowOldVersion: v.r.Intn(3) == 0}
		state := v.r.Intn(8) // 0 no file, 1 no bucket, 2 no record, else a record
		ver := uint64(cur)
		if v.r.Intn(3) == 0 {
			ver = []uint64{legacy, 0, cur - 1, cur + 1, ^uint64(0), 1 << 32, cur | 1<<40}[v.r.Intn(7)]
		}
		bs, id, gen := uint32(o.BlockSize), o.FSID, v.num()
		if v.r.Intn(3) == 0 {
			bs = []uint32{4096, 16384, 65536, 0, 4097}[v.r.Intn(5)]
		}
		if v.r.Intn(3) == 0 {
			id = ids[v.r.Intn(4)]
		}
		helper := v.r.Intn(3) == 0 // OpenReadOnly
		if helper {
			o = Options{ReadOnly: true, Generation: ^uint64(0)}
		}
		var x *vix
		switch state {
		case 0:
			x = &vix{path: v.path()}
		case 1:
			x = &vix{path: v.path()}
			db, _ := bbolt.Open(x.path, 0600, &bbolt.Options{NoSync: true})
			db.Close()
		case 2:
			x = v.file(v.content(), nil)
		default:
			x = v.file(v.content(), vmeta(ver, bs, id, gen))
		}
		if state == 0 && o.ReadOnly && !helper {
			continue
		}
		var before map[string]string
		if state > 0 {
			before, _ = vdump(x.path)
		}
		desc := fmt.Sprintf("open %+v (read-only helper: %v) of an index in state %d with version %d block size %d id %v generation %d", o, helper, state, ver, bs, id, gen)
		v.sample("%s", desc)
		v.try(desc, func() {
			var ix *Index
			var err error
			if helper {
				ix, err = OpenReadOnly(x.path)
			} else {
				oo := o
				ix, err = Open(x.path, 0600, &oo)
			}
			want := true
			if state < 3 {
				want = !o.ReadOnly
			} else {
				want = ver <= cur && (o.AllowOldVersion || ver == cur) && (o.AllowOldVersion || o.ReadOnly || bs == uint32(o.BlockSize) && id == o.FSID)
			}
			if (err == nil) != want {
				v.fail("%s: error %v, want success %v", desc, err, want)
			}
			if err != nil && ix != nil {
				v.fail("%s: an error together with an index", desc)
			}
			if state == 0 && helper {
				if _, e := os.Stat(x.path); e == nil {
					v.fail("%s: a missing index was created", desc)
				}
			}
			if err == nil {
				if ix.Generation != o.Generation {
					v.fail("%s: views generation %d", desc, ix.Generation)
				}
				if ix.tx == nil || ix.tx.Writable() == o.ReadOnly {
					v.fail("%s: transaction is writable: %v", desc, ix.tx != nil && ix.tx.Writable())
				}
				m := ix.Metadata()
				w := vmeta(ver, bs, id, gen)
				if state < 3 {
					w = vmeta(cur, uint32(o.BlockSize), o.FSID, o.Generation)
				}
				if !bytes.Equal(m, w) {
					v.fail("%s: record %x, want %x", desc, []byte(m), w)
				} else if state < 3 && (m.Version() != cur || m.BlockSize() != uint32(o.BlockSize) || m.FSID() != o.FSID || m.Generation() != o.Generation) {
					v.fail("%s: record reads as version %d block size %d id %v generation %d", desc, m.Version(), m.BlockSize(), m.FSID(), m.Generation())
				} else if state >= 3 && (m.Version() != ver || m.BlockSize() != bs || m.FSID() != id || m.Generation() != gen) {
					v.fail("%s: record reads as version %d block size %d id %v generation %d", desc, m.Version(), m.BlockSize(), m.FSID(), m.Generation())
				}
				ix.Close()
			}
			if state == 0 && err != nil {
				return
			}
			after, e := vdump(x.path)
			if e != nil {
				v.fail("%s: the index cannot be opened afterwards (still locked?): %v", desc, e)
				return
			}
			if state < 3 && err == nil {
				if before == nil {
					before = map[string]string{}
				}
				before[string(vmetaKey)] = string(vmeta(cur, uint32(o.BlockSize), o.FSID, o.Generation))
			}
			if !vsame(before, after) {
				v.fail("%s: content changed from %d to %d entries or differs", desc, len(before), len(after))
			}
		})
		os.Remove(x.path)
	}
}
