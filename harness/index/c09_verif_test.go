package index

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"testing"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/uuid"
	"go.etcd.io/bbolt"
)

func TestVerifC09(t *testing.T) {
	v := vstart(t)
	big := 0
	for i, n := 0, vscale(150); i < n && v.more(); i++ {
		old := v.content()
		x := v.file(old, vmeta(20190809, 4096, uuid.UUID{1}, 7))
		want := map[string][]byte{string(vmetaKey): vmeta(20190809, 4096, uuid.UUID{1}, 7)}
		for _, e := range x.ents {
			want[string(vkey(e.owner, e.typ, e.id, e.off, e.gen))] = e.value()
		}
		count := []int{0, 1, 2, 10, 100, 300}[v.r.Intn(6)]
		if i < 2 || i%60 == 59 || vthorough() && i%20 == 0 {
			count = []int{10400, 10001, 9999, 10000, 10002, 20710, 31005}[big%7]
			big++
		}
		desc := fmt.Sprintf("index of %d entries, %d inserts", len(x.ents), count)
		v.sample("%s", desc)
		v.try(desc, func() {
			ix, err := Open(x.path, 0600, &Options{BlockSize: 4096, FSID: uuid.UUID{1}, Generation: ^uint64(0)})
			if err != nil {
				v.fail("%s: open: %v", desc, err)
				return
			}
			ix.db.NoSync = true
			buf := make([]byte, 70000)
			for j := 0; j < count; j++ {
				h := btrfs.Header(make([]byte, 101))
				v.r.Read(h)
				item := buf[:25+v.r.Intn(3)*9]
				l := v.r.Intn(30)
				if v.r.Intn(60) == 0 {
					l = []int{255, 256, 4000, 16000, 65536}[v.r.Intn(5)]
				}
				data := buf[1000 : 1000+l]
				v.r.Read(item)
				v.r.Read(data)
				if count > 1000 {
					data = data[:len(data)&15]
				}
				k := btrfs.Key{ObjectID: v.num(), Type: uint8(v.num()), Offset: v.num()}
				owner, gen := v.num(), v.num()
				if len(x.ents) > 0 && v.r.Intn(3) == 0 {
					e := x.ents[v.r.Intn(len(x.ents))]
					k, owner = vk(e.obj()), e.owner
					if v.r.Intn(2) == 0 {
						gen = e.gen
					}
				}
				binary.LittleEndian.PutUint64(h[88:], owner)
				binary.LittleEndian.PutUint64(h[80:], gen)
				key := vkey(owner, k.Type, k.ObjectID, k.Offset, gen)
				if bytes.Equal(key, vmetaKey) {
					continue
				}
				if err := ix.InsertItem(k, h, item, data); err != nil {
					v.fail("%s: insert %d: %v", desc, j, err)
					return
				}
				want[string(key)] = append(append([]byte{}, item[:25]...), data...)
				if v.r.Intn(8) == 0 && j < 300 {
					it := ix.FindItem(owner, k)
					if ix.bucket != nil && it == nil {
						v.fail("%s: item of insert %d is not found", desc, j)
					}
				}
				if v.r.Intn(40) == 0 && j < 300 && count != 10001 {
					if err := ix.Commit(); err != nil {
						v.fail("%s: commit: %v", desc, err)
					}
					if v.r.Intn(2) == 0 {
						ix.Commit()
					}
				}
			}
			v.r.Read(buf) // the caller's buffers are reused
			ix.Close()
			got := map[string][]byte{}
			db, err := bbolt.Open(x.path, 0600, &bbolt.Options{ReadOnly: true})
			if err != nil {
				v.fail("%s: reopen: %v", desc, err)
				return
			}
			db.View(func(tx *bbolt.Tx) error {
				tx.Bucket([]byte("index")).ForEach(func(k, val []byte) error {
					got[string(k)] = append([]byte{}, val...)
					return nil
				})
				return nil
			})
			db.Close()
			for k, w := range want {
				if g, ok := got[k]; !ok || !bytes.Equal(g, w) {
					v.fail("%s: key %x holds %x (present %v), want %x", desc, k, g, ok, w)
					return
				}
			}
			if len(got) != len(want) {
				v.fail("%s: %d entries, want %d", desc, len(got), len(want))
			}
		})
		os.Remove(x.path)
	}
}
