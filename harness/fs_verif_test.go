package PKG

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"sort"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"go.etcd.io/bbolt"
)

// A synthetic damaged filesystem: an index file and a device image.

type vent struct {
	owner   uint64
	typ     uint8
	id, off uint64
	gen     uint64
	data    []byte
}

func (e vent) key() []byte {
	b := make([]byte, 33)
	binary.BigEndian.PutUint64(b[0:], e.owner)
	b[8] = e.typ
	binary.BigEndian.PutUint64(b[9:], e.id)
	binary.BigEndian.PutUint64(b[17:], e.off)
	binary.BigEndian.PutUint64(b[25:], e.gen)
	return b
}

func (e vent) value() []byte {
	b := make([]byte, 25+len(e.data))
	binary.LittleEndian.PutUint64(b[0:], e.id)
	b[8] = e.typ
	binary.LittleEndian.PutUint64(b[9:], e.off)
	binary.LittleEndian.PutUint32(b[17:], 0x77)
	binary.LittleEndian.PutUint32(b[21:], uint32(len(e.data)))
	copy(b[25:], e.data)
	return b
}

const (
	vFS   = uint64(btrfs.FSTreeObjectID)
	vRoot = uint64(btrfs.FirstFreeObjectID)
	vGen  = uint64(7)
)

type vext struct {
	off, n  uint64 // position and length in the file
	hole    bool
	inline  []byte
	logical uint64
	extOff  uint64
}

func (e vext) String() string {
	switch {
	case e.inline != nil:
		return fmt.Sprintf("inline@%d:%q", e.off, e.inline)
	case e.hole:
		return fmt.Sprintf("hole@%d+%d", e.off, e.n)
	}
	return fmt.Sprintf("data@%d+%d=logical %d+%d", e.off, e.n, e.logical, e.extOff)
}

type vinode struct {
	size                  uint64
	nlink, uid, gid, mode uint32
	rdev                  uint64
	ctime, mtime, atime   [2]uint64 // seconds, nanoseconds
}

type vfs struct {
	v      *vctx
	dir    string
	path   string
	ents   map[string]vent
	dev    []byte
	img    string
	chunks [][3]uint64 // logical, length, physical
	dirs   map[[2]uint64][]vdirent
}

type vdirent struct {
	name string
	typ  uint8
	id   uint64
	sub  bool
}

func (v *vctx) newfs(devSize int) *vfs {
	d, err := os.MkdirTemp(v.t.TempDir(), "fs")
	if err != nil {
		panic(err)
	}
	f := &vfs{v: v, dir: d, path: filepath.Join(d, "metadata"), img: filepath.Join(d, "image"), ents: map[string]vent{}, dirs: map[[2]uint64][]vdirent{}}
	f.dev = make([]byte, devSize)
	v.r.Read(f.dev)
	for i := range f.dev {
		if f.dev[i] == 0 {
			f.dev[i] = 0xa5
		}
	}
	return f
}

func (f *vfs) put(e vent) {
	if e.gen == 0 {
		e.gen = vGen
	}
	f.ents[string(e.key())] = e
}

func (f *vfs) chunk(logical, length, phys uint64) {
	c := make([]byte, 48+32)
	binary.LittleEndian.PutUint64(c[0:], length)
	binary.LittleEndian.PutUint16(c[44:], 1)
	binary.LittleEndian.PutUint64(c[48:], 1)
	binary.LittleEndian.PutUint64(c[56:], phys)
	f.put(vent{owner: btrfs.ChunkTreeObjectID, typ: btrfs.ChunkItemKey, id: btrfs.FirstFreeObjectID, off: logical, data: c})
	f.chunks = append(f.chunks, [3]uint64{logical, length, phys})
}

// phys maps a logical address.
func (f *vfs) phys(l uint64) uint64 {
	sort.Slice(f.chunks, func(i, j int) bool { return f.chunks[i][0] < f.chunks[j][0] })
	r := f.chunks[0]
	for _, c := range f.chunks {
		if c[0] <= l {
			r = c
		}
	}
	return r[2] + l - r[0]
}

func (f *vfs) inode(owner, id uint64, i vinode) {
	b := make([]byte, btrfs.InodeItemLen)
	binary.LittleEndian.PutUint64(b[16:], i.size)
	binary.LittleEndian.PutUint32(b[40:], i.nlink)
	binary.LittleEndian.PutUint32(b[44:], i.uid)
	binary.LittleEndian.PutUint32(b[48:], i.gid)
	binary.LittleEndian.PutUint32(b[52:], i.mode)
	binary.LittleEndian.PutUint64(b[56:], i.rdev)
	for k, t := range [][2]uint64{i.atime, i.ctime, i.mtime} {
		binary.LittleEndian.PutUint64(b[112+12*k:], t[0])
		binary.LittleEndian.PutUint32(b[120+12*k:], uint32(t[1]))
	}
	f.put(vent{owner: owner, typ: btrfs.InodeItemKey, id: id, data: b})
}

func (f *vfs) extent(owner, id uint64, e vext) {
	var b []byte
	if e.inline != nil {
		b = make([]byte, 21+len(e.inline))
		binary.LittleEndian.PutUint64(b[8:], uint64(len(e.inline)))
		copy(b[21:], e.inline)
	} else {
		b = make([]byte, 53)
		binary.LittleEndian.PutUint64(b[8:], e.n)
		b[20] = 1
		if !e.hole {
			binary.LittleEndian.PutUint64(b[21:], e.logical)
		}
		binary.LittleEndian.PutUint64(b[29:], e.extOff+e.n)
		binary.LittleEndian.PutUint64(b[37:], e.extOff)
		binary.LittleEndian.PutUint64(b[45:], e.n)
	}
	f.put(vent{owner: owner, typ: btrfs.ExtentDataKey, id: id, off: e.off, data: b})
}

func vhash(name string) uint64 {
	// crc32c with initial value ~1, without the final inversion
	return uint64(^crc32.Update(1, crc32.MakeTable(crc32.Castagnoli), []byte(name)))
}

func vdirdata(typ uint8, id uint64, sub bool, name, data string) []byte {
	b := make([]byte, 30+len(name)+len(data))
	binary.LittleEndian.PutUint64(b[0:], id)
	b[8] = btrfs.InodeItemKey
	if sub {
		b[8] = btrfs.RootItemKey
	}
	binary.LittleEndian.PutUint16(b[25:], uint16(len(data)))
	binary.LittleEndian.PutUint16(b[27:], uint16(len(name)))
	b[29] = typ
	copy(b[30:], name)
	copy(b[30+len(name):], data)
	return b
}

// entry adds a directory entry. The hash is where it would be unless taken.
func (f *vfs) entry(owner, dir uint64, d vdirent) {
	e := vent{owner: owner, typ: btrfs.DirItemKey, id: dir, off: vhash(d.name), gen: vGen, data: vdirdata(d.typ, d.id, d.sub, d.name, "")}
	for {
		if _, ok := f.ents[string(e.key())]; !ok {
			break
		}
		e.off++
	}
	f.put(e)
	k := [2]uint64{owner, dir}
	f.dirs[k] = append(f.dirs[k], d)
}

func (f *vfs) xattr(owner, id uint64, name, val string) {
	e := vent{owner: owner, typ: btrfs.XAttrItemKey, id: id, off: vhash(name), gen: vGen, data: vdirdata(btrfs.FtXattr, 0, false, name, val)}
	for {
		if _, ok := f.ents[string(e.key())]; !ok {
			break
		}
		e.off++
	}
	f.put(e)
}

func (f *vfs) root(id uint64) {
	f.put(vent{owner: btrfs.RootTreeObjectID, typ: btrfs.RootItemKey, id: id, off: 0, data: make([]byte, 439)})
}

// write makes the index file and the image.
func (f *vfs) write() {
	os.Remove(f.path)
	db, err := bbolt.Open(f.path, 0600, &bbolt.Options{NoSync: true, NoFreelistSync: true})
	if err != nil {
		panic(err)
	}
	err = db.Update(func(tx *bbolt.Tx) error {
		b, err := tx.CreateBucket([]byte("index"))
		if err != nil {
			return err
		}
		for k, e := range f.ents {
			if err := b.Put([]byte(k), e.value()); err != nil {
				return err
			}
		}
		m := make([]byte, 36)
		binary.LittleEndian.PutUint64(m[0:], 20190809)
		binary.LittleEndian.PutUint32(m[8:], 4096)
		m[12] = 1
		binary.LittleEndian.PutUint64(m[28:], vGen)
		return b.Put(vent{owner: ^uint64(0), typ: 255, id: 0xFFFFFFFFFFFFFF00, off: ^uint64(0), gen: ^uint64(0)}.key(), m)
	})
	if err != nil {
		panic(err)
	}
	db.Close()
	if err := os.WriteFile(f.img, f.dev, 0600); err != nil {
		panic(err)
	}
}

func (f *vfs) open() *index.Index {
	f.write()
	ix, err := index.OpenReadOnly(f.path)
	if err != nil {
		panic(err)
	}
	return ix
}

func (f *vfs) done() { os.RemoveAll(f.dir) }

// content: the byte at p of a file with these extents, and whether the device has it.
func (f *vfs) at(es []vext, p uint64) (b byte, ok bool) {
	for _, e := range es {
		if e.inline != nil {
			if p >= e.off && p-e.off < uint64(len(e.inline)) {
				return e.inline[p-e.off], true
			}
			continue
		}
		if p >= e.off && p-e.off < e.n {
			if e.hole {
				return 0, true
			}
			q := f.phys(e.logical) + e.extOff + (p - e.off)
			if q >= uint64(len(f.dev)) {
				return 0, false
			}
			return f.dev[q], true
		}
	}
	return 0, true
}

func vend(es []vext) (m uint64) {
	for _, e := range es {
		n := e.n
		if e.inline != nil {
			n = uint64(len(e.inline))
		}
		if e.off+n > m {
			m = e.off + n
		}
	}
	return
}

// extents: random extents of a file, in order and not overlapping.
func (f *vfs) extents(max int) (es []vext) {
	v := f.v
	pos := uint64(0)
	if v.r.Intn(3) == 0 {
		pos = uint64(v.r.Intn(50))
	}
	n := 1 + v.r.Intn(5)
	for i := 0; i < n; i++ {
		e := vext{off: pos, n: uint64(1 + v.r.Intn(max))}
		switch v.r.Intn(4) {
		case 0:
			e.hole = true
		default:
			c := f.chunks[v.r.Intn(len(f.chunks))]
			e.extOff = uint64(v.r.Intn(40))
			e.logical = c[0] + uint64(v.r.Intn(int(c[1])))
			if v.r.Intn(3) == 0 {
				e.logical = c[0]
			}
			if e.logical == 0 {
				e.logical = 1
			}
		}
		es = append(es, e)
		pos += e.n
		if v.r.Intn(3) == 0 {
			pos += uint64(v.r.Intn(60))
		}
	}
	return
}

func vtime(s, ns uint64) time.Time { return time.Unix(int64(s), int64(ns)) }

func (d vdirent) String() string {
	s := fmt.Sprintf("%q(t%d %d", d.name, d.typ, d.id)
	if d.sub {
		s += " subvol"
	}
	return s + ")"
}
