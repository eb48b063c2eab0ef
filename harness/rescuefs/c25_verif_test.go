package rescuefs

import (
	"bytes"
	"fmt"
	"sort"
	"testing"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"github.com/hanwen/go-fuse/v2/fuse"
	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
)

func (v *vctx) inode() vinode {
	n32 := func() uint32 { return uint32(v.num()) }
	t := func() [2]uint64 { return [2]uint64{v.num() >> 20, uint64(v.r.Intn(1000000000))} }
	return vinode{size: v.num(), nlink: n32(), uid: n32(), gid: n32(), mode: n32(), rdev: uint64(n32()), ctime: t(), mtime: t(), atime: t()}
}

func (v *vctx) name() string {
	b := make([]byte, 1+v.r.Intn(12))
	for i := range b {
		b[i] = "abcAB01._- é\xff"[v.r.Intn(13)]
	}
	return string(b)
}

func vattr(a *fuse.Attr, i vinode) string {
	if a.Size != i.size || a.Mode != i.mode || a.Nlink != i.nlink || a.Uid != i.uid || a.Gid != i.gid || a.Rdev != uint32(i.rdev) {
		return fmt.Sprintf("size %d mode %o nlink %d uid %d gid %d rdev %d instead of %+v", a.Size, a.Mode, a.Nlink, a.Uid, a.Gid, a.Rdev, i)
	}
	if a.Atime != i.atime[0] || uint64(a.Atimensec) != i.atime[1] || a.Mtime != i.mtime[0] || uint64(a.Mtimensec) != i.mtime[1] || a.Ctime != i.ctime[0] || uint64(a.Ctimensec) != i.ctime[1] {
		return fmt.Sprintf("times %d.%d %d.%d %d.%d instead of %v %v %v", a.Atime, a.Atimensec, a.Mtime, a.Mtimensec, a.Ctime, a.Ctimensec, i.atime, i.mtime, i.ctime)
	}
	return ""
}

func TestVerifC25(t *testing.T) {
	v := vstart(t)
	for n := vscale(250); n > 0 && v.more(); n-- {
		f := v.newfs(500)
		f.chunk(10000, 400, 50)
		inodes := map[[2]uint64]vinode{}
		put := func(owner, id uint64) {
			k := [2]uint64{owner, id}
			if _, ok := inodes[k]; !ok && v.r.Intn(12) != 0 {
				inodes[k] = v.inode()
				f.inode(owner, id, inodes[k])
			}
		}
		owners := []uint64{vFS, 257, 300}
		for _, o := range owners {
			put(o, vRoot)
			used := map[string]bool{}
			for _, dir := range []uint64{vRoot, 300} {
				for i := v.r.Intn(7); i > 0; i-- {
					d := vdirent{name: v.name(), id: uint64(257 + v.r.Intn(60)), typ: []uint8{btrfs.FtRegFile, btrfs.FtDir, btrfs.FtDir, btrfs.FtSymlink, btrfs.FtFifo}[v.r.Intn(5)]}
					if v.r.Intn(4) == 0 {
						d.typ, d.sub, d.id = btrfs.FtDir, true, owners[1+v.r.Intn(2)]
					}
					if v.r.Intn(4) == 0 {
						d.typ, d.sub, d.id = btrfs.FtDir, false, 300
					}
					k := fmt.Sprint(dir, d.name)
					if used[k] {
						continue
					}
					used[k] = true
					f.entry(o, dir, d)
					if !d.sub {
						put(o, d.id)
					}
				}
			}
		}
		xa := map[string]string{}
		for i := v.r.Intn(4); i > 0; i-- {
			nm := "user." + v.name()
			if _, ok := xa[nm]; !ok {
				xa[nm] = string(v.bytes(v.r.Intn(40)))
				f.xattr(vFS, 300, nm, xa[nm])
				f.xattr(257, 300, nm, "wrong")
				f.xattr(vFS, 301, nm+"x", "wrong")
			}
		}
		link := ""
		if v.r.Intn(3) != 0 {
			link = v.name()
			f.extent(vFS, 300, vext{inline: []byte(link)})
		}
		f.extent(vFS, 299, vext{inline: []byte("wrong")})
		f.extent(257, 300, vext{inline: []byte("wrong")})
		ix := f.open()
		fs := New(f.path, ix, nil)
		var want func(node *nodefs.Inode, owner, id uint64, depth int, desc string)
		conn := nodefs.NewFileSystemConnector(fs.root, &nodefs.Options{})
		_ = conn
		desc := fmt.Sprintf("a filesystem with entries %v", f.dirs)
		want = func(in *nodefs.Inode, owner, id uint64, depth int, desc string) {
			node := in.Node().(nodefs.Node)
			var a fuse.Attr
			st := node.GetAttr(&a, nil, nil)
			for k := 0; k < 2; k++ { // twice, attributes are kept
				i, ok := inodes[[2]uint64{owner, id}]
				if !ok && st == fuse.OK {
					v.fail("%s: has attributes without an inode item", desc)
				} else if ok && st != fuse.OK {
					v.fail("%s: has no attributes: %v", desc, st)
				} else if ok {
					if s := vattr(&a, i); s != "" {
						v.fail("%s: has %s", desc, s)
					}
				}
				a = fuse.Attr{}
				st = node.GetAttr(&a, nil, nil)
			}
			es := f.dirs[[2]uint64{owner, id}]
			ls, st := node.OpenDir(nil)
			if st != fuse.OK {
				v.fail("%s: listing fails with %v", desc, st)
			}
			var got, exp []string
			for _, e := range ls {
				got = append(got, fmt.Sprintf("%q dir=%v", e.Name, e.Mode&0170000 == fuse.S_IFDIR))
			}
			for _, e := range es {
				exp = append(exp, fmt.Sprintf("%q dir=%v", e.name, e.typ == btrfs.FtDir))
			}
			sort.Strings(got)
			sort.Strings(exp)
			if fmt.Sprint(got) != fmt.Sprint(exp) {
				v.fail("%s: lists %v instead of %v", desc, got, exp)
			}
			for _, e := range es {
				var a fuse.Attr
				ch, st := node.Lookup(&a, e.name, nil)
				o, i := owner, e.id
				if e.sub {
					o, i = e.id, vRoot
				}
				rn, isr := (*rescueNode)(nil), false
				if ch != nil {
					rn, isr = ch.Node().(*rescueNode)
				}
				if !isr || rn.owner != o || rn.ixInode != i {
					v.fail("%s: looking up %q reaches %v, not %d/%d", desc, e.name, rn, o, i)
					continue
				}
				ino, ok := inodes[[2]uint64{o, i}]
				if ok != (st == fuse.OK) {
					v.fail("%s: looking up %q gives %v, has inode: %v", desc, e.name, st, ok)
				} else if ok {
					if s := vattr(&a, ino); s != "" {
						v.fail("%s: looking up %q gives %s", desc, e.name, s)
					}
				}
				if ch.IsDir() != (e.typ == btrfs.FtDir) {
					v.fail("%s: %q is a directory: %v", desc, e.name, ch.IsDir())
				}
				if depth > 0 && ch.IsDir() {
					want(ch, o, i, depth-1, fmt.Sprintf("%s/%q", desc, e.name))
				}
			}
			for k := 0; k < 3; k++ {
				nm := v.name() + "~"
				if k == 0 && len(es) > 0 {
					nm = es[0].name + "x"
				}
				var a fuse.Attr
				listed := false
				for _, e := range es {
					listed = listed || e.name == nm
				}
				if _, st := node.Lookup(&a, nm, nil); st != fuse.ENOENT && !listed {
					v.fail("%s: looking up %q gives %v", desc, nm, st)
				}
			}
		}
		v.try(desc, func() {
			fs.root.OnMount(conn)
			ch := fs.root.Inode().GetChild("rescue")
			if ch == nil {
				v.fail("the mounted view has no rescue directory")
				return
			}
			want(ch, vFS, vRoot, 3, desc)
			nd := newRescueNode(&fs, vFS, 300)
			names, st := nd.ListXAttr(nil)
			if st != fuse.OK || len(names) != len(xa) {
				v.fail("extended attributes %q are listed as %q (%v)", xa, names, st)
			}
			for _, nm := range names {
				if _, ok := xa[nm]; !ok {
					v.fail("extended attributes %q are listed as %q", xa, names)
				}
			}
			for nm, val := range xa {
				if got, st := nd.GetXAttr(nm, nil); st != fuse.OK || !bytes.Equal(got, []byte(val)) {
					v.fail("extended attribute %q reads back as %q (%v) instead of %q", nm, got, st, val)
				}
			}
			for _, nm := range []string{"user.none", "user", ""} {
				if _, ok := xa[nm]; !ok {
					if _, st := nd.GetXAttr(nm, nil); st == fuse.OK {
						v.fail("extended attribute %q is found", nm)
					}
				}
			}
			got, st := nd.Readlink(nil)
			if link == "" && st == fuse.OK || link != "" && (st != fuse.OK || string(got) != link) {
				v.fail("the link to %q reads back as %q (%v)", link, got, st)
			}
		})
		v.sample("%s", desc)
		ix.Close()
		f.done()
	}
}
