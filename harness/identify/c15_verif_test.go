package identify

import (
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"blichmann.eu/code/btrfscue/cmd/btrfscue/app"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

type vhist struct {
	count    uint64
	sum, num uint64
}

func vguess(h vhist) uint32 {
	if h.num == 0 {
		return 4096
	}
	return uint32(h.sum/h.num+4096) / 4096 * 4096
}

// vleaf: a block with the fields identify looks at.
func (v *vctx) leafBlock(n int, ids []uuid.UUID) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	id := ids[v.r.Intn(len(ids))]
	copy(b[32:], id[:])
	b[100] = 0
	switch v.r.Intn(8) {
	case 0:
		b[100] = byte(1 + v.r.Intn(255))
	case 1:
		binary.LittleEndian.PutUint32(b[96:], 0)
	case 2:
		binary.LittleEndian.PutUint32(b[96:], 1)
	case 3:
		binary.LittleEndian.PutUint32(b[96:], 0x100) // low byte zero
	case 4:
		binary.LittleEndian.PutUint32(b[96:], 0x80000000)
	}
	switch v.r.Intn(5) {
	case 0:
		binary.LittleEndian.PutUint32(b[118:], 0xffffffff)
	case 1, 2:
		binary.LittleEndian.PutUint32(b[118:], uint32(v.r.Intn(65536)))
	case 3:
		binary.LittleEndian.PutUint32(b[118:], uint32(4096*v.r.Intn(16)))
	}
	return b
}

func vcount(m map[uuid.UUID]vhist, b []byte) {
	var id uuid.UUID
	copy(id[:], b[32:48])
	zero, ones := true, true
	for _, x := range id {
		zero = zero && x == 0
		ones = ones && x == 0xff
	}
	if b[100] != 0 || zero || ones {
		return
	}
	h := m[id]
	h.count++
	if binary.LittleEndian.Uint32(b[96:]) != 0 {
		h.num++
		h.sum += uint64(binary.LittleEndian.Uint32(b[118:]))
	}
	m[id] = h
}

func vids(v *vctx) []uuid.UUID {
	var ids []uuid.UUID
	var z, o uuid.UUID
	for i := range o {
		o[i] = 0xff
	}
	ids = append(ids, z, o)
	a := z
	a[15] = 1
	b := z
	b[0] = 1
	c := o
	c[15] = 0xfe
	d := o
	d[7] = 0
	e := z
	e[8] = 0x80
	ids = append(ids, a, b, c, d, e)
	for i := v.r.Intn(6); i > 0; i-- {
		var u uuid.UUID
		v.r.Read(u[:])
		ids = append(ids, u)
	}
	v.r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	return ids[:1+v.r.Intn(len(ids))]
}

func vcheckReport(v *vctx, desc string, want map[uuid.UUID]vhist, min uint, got []FSEntry) {
	seen := map[uuid.UUID]bool{}
	for i, e := range got {
		h, ok := want[e.FSID]
		switch {
		case seen[e.FSID]:
			v.fail("%s: %v reported twice", desc, e.FSID)
		case !ok:
			v.fail("%s: %v reported, but no leaf has it", desc, e.FSID)
		case uint64(e.Count) != h.count:
			v.fail("%s: %v counted %d times, it occurs %d times", desc, e.FSID, e.Count, h.count)
		case h.count < uint64(min):
			v.fail("%s: %v reported with %d < %d", desc, e.FSID, h.count, min)
		case e.BlockSize != vguess(h):
			v.fail("%s: %v block size %d, average of %d offsets with sum %d gives %d", desc, e.FSID, e.BlockSize, h.num, h.sum, vguess(h))
		case i > 0 && got[i-1].Count < e.Count:
			v.fail("%s: entry %d has count %d after count %d", desc, i, e.Count, got[i-1].Count)
		}
		seen[e.FSID] = true
	}
	for id, h := range want {
		if h.count >= uint64(min) && !seen[id] {
			v.fail("%s: %v occurs %d times and is not reported", desc, id, h.count)
		}
	}
}

func TestVerifC15(t *testing.T) {
	v := vstart(t)
	// whole devices: every block is sampled, so that the report is exact
	for i := 0; i < vscale(2) && v.more(); i++ {
		desc := fmt.Sprintf("identify on device %d", i)
		v.try(desc, func() { vdevice(v, desc, i) })
	}
	for i := 0; i < vscale(3000) && v.more(); i++ {
		v.try(fmt.Sprintf("collector case %d", i), func() {
			ids := vids(v)
			var c FSIDCollecter
			want := map[uuid.UUID]vhist{}
			n := v.r.Intn(60)
			for j := 0; j < n; j++ {
				size := 4096
				if v.r.Intn(3) == 0 {
					size = 126 + v.r.Intn(100)
				}
				b := v.leafBlock(size, ids)
				vcount(want, b)
				c.CollectBlock(b)
				if v.r.Intn(10) == 0 { // reporting in between changes nothing
					c.Entries(uint(v.r.Intn(4)))
				}
			}
			min := uint(v.r.Intn(6))
			got := c.Entries(min)
			vcheckReport(v, fmt.Sprintf("case %d: %d blocks, at least %d times", i, n, min), want, min, got)
		})
	}
}

func vdevice(v *vctx, desc string, round int) {
	const bs = 16384
	dir, err := ioutil.TempDir("", "verif")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	blocks := 4096 + 100 + v.r.Intn(20)
	name := filepath.Join(dir, "dev")
	f, err := os.Create(name)
	if err != nil {
		return
	}
	f.Truncate(int64(blocks*bs) + int64(v.r.Intn(2)*100))
	ids := vids(v)
	want := map[uuid.UUID]vhist{}
	where := v.r.Perm(blocks)[:300]
	where = append(where, 0, 1, 3, 4, 5, 103, 104, 4095, 4096, 4195, blocks-2, blocks-1)
	used := map[int]bool{}
	for _, w := range where {
		if used[w] {
			continue
		}
		used[w] = true
		b := v.leafBlock(200, ids)
		vcount(want, append(b, make([]byte, bs-200)...))
		f.WriteAt(b, int64(w*bs))
	}
	f.Close()
	min := uint(1 + v.r.Intn(3))
	out, err := os.Create(filepath.Join(dir, "out"))
	if err != nil {
		return
	}
	so, sm := os.Stdout, app.Global.Machine
	os.Stdout = out
	app.Global.Machine = true
	func() {
		defer func() { os.Stdout, app.Global.Machine = so, sm }()
		IdentifyFS(name, IdentifyFSOptions{BlockSize: bs, SampleFraction: 1, MinBlocks: uint(v.r.Intn(10000)), MaxBlocks: 1 << 30, MinOccurrence: min})
	}()
	out.Close()
	txt, _ := ioutil.ReadFile(filepath.Join(dir, "out"))
	var got []FSEntry
	for _, l := range strings.Split(string(txt), "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		if len(f) != 4 {
			v.fail("%s: report line %q", desc, l)
			return
		}
		var e FSEntry
		e.FSID, err = uuid.New(f[0])
		c, err1 := strconv.ParseUint(f[1], 10, 32)
		b, err2 := strconv.ParseUint(f[3], 10, 32)
		if err != nil || err1 != nil || err2 != nil {
			v.fail("%s: report line %q", desc, l)
			return
		}
		e.Count, e.BlockSize = uint(c), uint32(b)
		got = append(got, e)
	}
	vcheckReport(v, desc, want, min, got)
}
