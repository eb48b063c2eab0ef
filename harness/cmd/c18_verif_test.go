package cmd

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"blichmann.eu/code/btrfscue/cmd/btrfscue/app"
	"blichmann.eu/code/btrfscue/pkg/uuid"
	"go.etcd.io/bbolt"
)

// vscanned reads the records of an index file, without its metadata record.
func vscanned(path string) (map[string]string, error) {
	db, err := bbolt.Open(path, 0600, &bbolt.Options{ReadOnly: true})
	if err != nil {
		return nil, err
	}
	defer db.Close()
	r := map[string]string{}
	return r, db.View(func(tx *bbolt.Tx) error {
		b := tx.Bucket([]byte("index"))
		if b == nil {
			return fmt.Errorf("no bucket")
		}
		return b.ForEach(func(k, x []byte) error {
			if string(k) != string(vent{owner: ^uint64(0), typ: 255, id: 0xFFFFFFFFFFFFFF00, off: ^uint64(0), gen: ^uint64(0)}.key()) {
				r[string(k)] = string(x)
			}
			return nil
		})
	})
}

func TestVerifC18(t *testing.T) {
	id := uuid.UUID{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	if os.Getenv("VERIF_CHILD") != "" {
		bs := 0
		fmt.Sscan(os.Getenv("VERIF_BS"), &bs)
		app.Global.BlockSize = uint(bs)
		app.Global.Metadata = os.Getenv("VERIF_META")
		doScanFS(os.Getenv("VERIF_IMG"), app.Global.Metadata, scanFSOptions{id: id})
		return
	}
	v := vstart(t)
	defer vquiet()()
	for n := vscale(150); n > 0 && v.more(); n-- {
		bs := []int{4096, 16384, 65536, 5000, 12345}[v.r.Intn(5)]
		blocks := (64<<20)/bs + 101 + v.r.Intn(10)
		size := int64(blocks*bs) + []int64{0, 1, int64(bs) - 1, int64(v.r.Intn(bs))}[v.r.Intn(4)]
		if size < 64<<20+int64(100*bs) {
			size = 64<<20 + int64(100*bs)
		}
		dir, _ := os.MkdirTemp(v.t.TempDir(), "scan")
		img, meta := filepath.Join(dir, "image"), filepath.Join(dir, "meta")
		out, err := os.Create(img)
		if err != nil {
			panic(err)
		}
		out.Truncate(size)
		want := map[string][]string{} // the values a key may have
		log := ""
		first := (0x10000 + bs)
		nblk := (int(size) - first) / bs
		used := map[int]bool{}
		for i := 3 + v.r.Intn(8); i > 0; i-- {
			k := v.r.Intn(nblk+3) - 1
			switch v.r.Intn(6) {
			case 0:
				k = 0
			case 1:
				k = nblk - 1
			case 2:
				k = nblk
			}
			if used[k] {
				continue
			}
			used[k] = true
			off := first + k*bs
			if off < 0 {
				continue
			}
			b := v.bytes(bs)
			kind := v.r.Intn(8)
			copy(b[32:48], id[:])
			owner, gen := v.num(), v.num()
			binary.LittleEndian.PutUint64(b[80:], gen)
			binary.LittleEndian.PutUint64(b[88:], owner)
			fit := (bs - 101) / 25
			cnt := uint32(1 + v.r.Intn(12))
			if v.r.Intn(4) == 0 {
				cnt = []uint32{uint32(fit), uint32(fit) + 1, uint32(fit) - 1, 0xffffffff, 1 << 31, 1}[v.r.Intn(6)]
			}
			b[100] = 0
			is := off >= first && off+bs <= int(size)
			switch kind {
			case 0:
				b[32+v.r.Intn(16)] ^= 1 << uint(v.r.Intn(8))
				is = false
			case 1:
				b[100] = byte(1 + v.r.Intn(255))
				is = false
			case 2:
				cnt = 0
				is = false
			}
			binary.LittleEndian.PutUint32(b[96:], cnt)
			items := int(cnt)
			if uint64(cnt) > uint64(fit) {
				items = fit
			}
			for j := 0; j < items; j++ {
				it := b[101+25*j : 126+25*j]
				if v.r.Intn(10) != 0 && items < 100 {
					binary.LittleEndian.PutUint64(it[0:], uint64(v.r.Intn(3000)))
					it[8] = byte(1 + j)
					binary.LittleEndian.PutUint64(it[9:], uint64(j))
					binary.LittleEndian.PutUint32(it[17:], uint32(v.r.Intn(bs)))
					binary.LittleEndian.PutUint32(it[21:], uint32(v.r.Intn(100)))
				} else if v.r.Intn(2) == 0 {
					binary.LittleEndian.PutUint32(it[17:], uint32(v.num()))
					binary.LittleEndian.PutUint32(it[21:], uint32(v.num()))
				}
			}
			if is {
				for j := 0; j < items; j++ {
					it := b[101+25*j : 126+25*j]
					do, dn := uint64(binary.LittleEndian.Uint32(it[17:])), uint64(binary.LittleEndian.Uint32(it[21:]))
					r := uint64(bs - 101)
					if do > r {
						do = r
					}
					if dn > r-do {
						dn = r - do
					}
					k := vent{owner: owner, typ: it[8], id: binary.LittleEndian.Uint64(it[0:]), off: binary.LittleEndian.Uint64(it[9:]), gen: gen}.key()
					want[string(k)] = append(want[string(k)], string(it)+string(b[101+do:101+do+dn]))
				}
			}
			log += fmt.Sprintf("block %d at %d: kind %d, %d items, owner %d, generation %d; ", k, off, kind, cnt, owner, gen)
			if off+len(b) > int(size) {
				if off >= int(size) {
					continue
				}
				b = b[:int(size)-off]
			}
			if _, err := out.WriteAt(b, int64(off)); err != nil {
				panic(err)
			}
		}
		out.Close()
		desc := fmt.Sprintf("scanning a device of %d bytes with blocks of %d: %s", size, bs, log)
		v.try(desc, func() {
			txt, err := vself("TestVerifC18", "1", "VERIF_IMG="+img, "VERIF_META="+meta, fmt.Sprint("VERIF_BS=", bs))
			if err != nil {
				v.fail("%s: fails with %v: %.300s", desc, err, txt)
				return
			}
			got, err := vscanned(meta)
			if err != nil {
				v.fail("%s: the index cannot be read: %v", desc, err)
				return
			}
			for k, vals := range want {
				x, ok := got[k]
				if !ok {
					v.fail("%s: item %x is not recorded", desc, k)
					return
				}
				same := false
				for _, y := range vals {
					same = same || x == y
				}
				if !same {
					v.fail("%s: item %x is recorded as %.60x (%d bytes) instead of %.60x (%d bytes)", desc, k, x, len(x), vals[0], len(vals[0]))
					return
				}
			}
			for k := range got {
				if _, ok := want[k]; !ok {
					v.fail("%s: %x is recorded although no leaf has it", desc, k)
					return
				}
			}
		})
		v.sample("%s", desc)
		os.RemoveAll(dir)
	}
	// failures stop the scan with an error
	dir, _ := os.MkdirTemp(v.t.TempDir(), "scan")
	for _, c := range [][2]string{{filepath.Join(dir, "nothing"), filepath.Join(dir, "meta")}, {dir, filepath.Join(dir, "meta")}, {filepath.Join(dir, "image"), filepath.Join(dir, "no", "meta")}} {
		os.WriteFile(filepath.Join(dir, "image"), nil, 0600)
		os.Truncate(filepath.Join(dir, "image"), 64<<20+200*65536)
		desc := fmt.Sprintf("scanning %s into %s", strings.TrimPrefix(c[0], dir), strings.TrimPrefix(c[1], dir))
		v.try(desc, func() {
			if txt, err := vself("TestVerifC18", "1", "VERIF_IMG="+c[0], "VERIF_META="+c[1], "VERIF_BS=65536"); err == nil {
				v.fail("%s succeeds: %.300s", desc, txt)
			}
		})
	}
}
