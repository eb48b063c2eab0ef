package cmd

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

type vnode struct{ owner, id uint64 }

func (k vnode) marker() string { return fmt.Sprintf("marker_%d_%d", k.owner, k.id) }

// vtree makes directories with a marker file each, files, links and special files, subvolumes and cycles.
type vtree struct {
	f      *vfs
	dirs   []vnode
	subs   []uint64 // all subvolumes
	nextid uint64
	log    []string
	bad    map[string]bool // names of entries that cannot be recovered
	obst   string          // the name in the root directory that is obstructed
}

func (t *vtree) file(k vnode, name string, text []byte) {
	id := t.nextid
	t.nextid++
	t.f.inode(k.owner, id, vinode{size: uint64(len(text)), mode: 0100644, nlink: 1})
	t.f.extent(k.owner, id, vext{inline: text})
	t.f.entry(k.owner, k.id, vdirent{name: name, typ: btrfs.FtRegFile, id: id})
}

func vmaketree(f *vfs, bad bool) *vtree {
	v := f.v
	t := &vtree{f: f, nextid: 1000, bad: map[string]bool{}}
	root := vnode{vFS, vRoot}
	t.dirs = []vnode{root}
	nsub := v.r.Intn(4)
	for i := 0; i < nsub; i++ {
		s := uint64(257 + 3*i)
		t.subs = append(t.subs, s)
		f.root(s)
		t.dirs = append(t.dirs, vnode{s, vRoot})
	}
	isroot := map[vnode]bool{}
	for _, d := range t.dirs {
		isroot[d] = true
	}
	ndir := v.r.Intn(6)
	for i := 0; i < ndir; i++ {
		p := t.dirs[v.r.Intn(len(t.dirs))]
		// sometimes the id of a subvolume, of another tree's directory or of one of its own files
		id := uint64(300 + i)
		switch v.r.Intn(5) {
		case 0:
			id = 257
		case 1:
			id = 260
		}
		d := vnode{p.owner, id}
		dup := false
		for _, e := range t.dirs {
			dup = dup || e == d
		}
		if !dup {
			t.dirs = append(t.dirs, d)
		}
		f.entry(p.owner, p.id, vdirent{name: fmt.Sprintf("d%d_%d", i, id), typ: btrfs.FtDir, id: id})
	}
	// entries of subvolumes
	for _, s := range t.subs {
		if v.r.Intn(3) != 0 {
			p := t.dirs[v.r.Intn(len(t.dirs))]
			f.entry(p.owner, p.id, vdirent{name: fmt.Sprintf("sub%d", s), typ: btrfs.FtDir, id: s, sub: true})
		}
	}
	// cycles and second paths
	for i := v.r.Intn(4); i > 0; i-- {
		p, q := t.dirs[v.r.Intn(len(t.dirs))], t.dirs[v.r.Intn(len(t.dirs))]
		name := fmt.Sprintf("again%d", i)
		if q.owner == p.owner {
			f.entry(p.owner, p.id, vdirent{name: name, typ: btrfs.FtDir, id: q.id})
		} else if isroot[q] && q.owner != vFS {
			f.entry(p.owner, p.id, vdirent{name: name, typ: btrfs.FtDir, id: q.owner, sub: true})
		}
	}
	for _, d := range t.dirs {
		t.file(d, d.marker(), []byte(d.marker()))
		for i := v.r.Intn(4); i > 0; i-- {
			name := fmt.Sprintf("n%d_%d_%d", i, d.owner, d.id)
			switch v.r.Intn(6) {
			case 0:
				id := t.nextid
				t.nextid++
				f.extent(d.owner, id, vext{inline: []byte("to " + name)})
				f.entry(d.owner, d.id, vdirent{name: name, typ: btrfs.FtSymlink, id: id})
			case 1:
				f.entry(d.owner, d.id, vdirent{name: name, typ: []uint8{btrfs.FtFifo, btrfs.FtSock, btrfs.FtChrdev, btrfs.FtBlkdev, btrfs.FtUnknown, 77}[v.r.Intn(6)], id: 9})
				t.bad[name] = true
			case 2:
				if !bad {
					continue
				}
				// an unreadable extent
				id := t.nextid
				t.nextid++
				f.extent(d.owner, id, vext{off: 0, n: 200, logical: 10000 + uint64(len(f.dev))})
				typ := uint8(btrfs.FtRegFile)
				if v.r.Intn(2) == 0 {
					typ = btrfs.FtSymlink
				}
				f.entry(d.owner, d.id, vdirent{name: name, typ: typ, id: id})
				t.bad[name] = true
			default:
				t.file(d, name, []byte(name))
			}
		}
	}
	return t
}

func (t *vtree) String() string {
	s := fmt.Sprintf("subvolumes %v, directories", t.subs)
	for _, d := range t.dirs {
		s += fmt.Sprintf(" %d/%d:[", d.owner, d.id)
		for _, e := range t.f.dirs[[2]uint64{d.owner, d.id}] {
			if strings.HasPrefix(e.name, "marker") {
				continue
			}
			s += fmt.Sprintf("%s(t%d %d", e.name, e.typ, e.id)
			if e.sub {
				s += " subvol"
			}
			s += ") "
		}
		s += "]"
	}
	return s
}

func (t *vtree) target(d vnode, e vdirent) vnode {
	if e.sub {
		return vnode{e.id, vRoot}
	}
	return vnode{d.owner, e.id}
}

// reach: the directories reachable from the given ones
func (t *vtree) reach(from ...vnode) map[vnode]bool {
	r := map[vnode]bool{}
	for len(from) > 0 {
		d := from[0]
		from = from[1:]
		if r[d] {
			continue
		}
		r[d] = true
		for _, e := range t.f.dirs[[2]uint64{d.owner, d.id}] {
			if (e.typ == btrfs.FtDir || e.sub) && (t.obst == "" || e.name != t.obst || d != vnode{vFS, vRoot}) {
				from = append(from, t.target(d, e))
			}
		}
	}
	return r
}

func TestVerifC22(t *testing.T) {
	v := vstart(t)
	defer vquiet()()
	for n := vscale(250); n > 0 && v.more(); n-- {
		f := v.newfs(3000)
		f.chunk(10000, 2000, 100)
		tr := vmaketree(f, true)
		dest := filepath.Join(f.dir, "dest")
		f.write()
		obst := ""
		if v.r.Intn(3) == 0 {
			// a file is where a directory should go
			d := f.dirs[[2]uint64{vFS, vRoot}]
			e := d[v.r.Intn(len(d))]
			if e.typ == btrfs.FtDir || e.sub {
				obst = e.name
				tr.obst = obst
				os.MkdirAll(dest, 0755)
				os.WriteFile(filepath.Join(dest, obst), []byte("mine"), 0644)
			}
		}
		desc := fmt.Sprintf("recovering %v", tr)
		if obst != "" {
			desc += ", a file is in place of " + obst
		}
		v.try(desc, func() {
			doRecoverFiles(f.img, dest, f.path, recoverFilesOptions{clobber: v.r.Intn(2) == 0})
			found := map[string][]string{}
			filepath.Walk(dest, func(p string, fi os.FileInfo, err error) error {
				if err == nil && strings.HasPrefix(fi.Name(), "marker_") {
					found[fi.Name()] = append(found[fi.Name()], filepath.Dir(p))
				}
				return nil
			})
			main := tr.reach(vnode{vFS, vRoot})
			all := []vnode{{vFS, vRoot}}
			for _, s := range tr.subs {
				all = append(all, vnode{s, vRoot})
			}
			for d := range tr.reach(all...) {
				ps := found[d.marker()]
				delete(found, d.marker())
				if len(ps) == 0 && obst != "" && !main[d] {
					continue
				}
				listed := len(f.dirs[[2]uint64{d.owner, d.id}]) > 0
				if !listed {
					continue
				}
				if len(ps) == 0 {
					v.fail("%s: directory %d/%d is not recovered", desc, d.owner, d.id)
					continue
				}
				if len(ps) > 1 {
					v.fail("%s: directory %d/%d is recovered more than once: %v", desc, d.owner, d.id, ps)
					continue
				}
				rel, _ := filepath.Rel(dest, ps[0])
				// follow the names
				cur := vnode{vFS, vRoot}
				ok := true
				comps := strings.Split(rel, "/")
				if rel == "." {
					comps = nil
				}
				if !main[d] {
					// below the directory of a subvolume that is not reached
					ok = false
					for _, s := range tr.subs {
						k := vnode{s, vRoot}
						if len(comps) > 0 && !main[k] && len(found[k.marker()]) <= 1 {
							if b, err := os.ReadFile(filepath.Join(dest, comps[0], k.marker())); err == nil && string(b) == k.marker() {
								cur, ok = k, true
							}
						}
					}
					if !ok {
						v.fail("%s: directory %d/%d of a subvolume that is not reached is at %s", desc, d.owner, d.id, rel)
						continue
					}
					comps = comps[1:]
				}
				for _, c := range comps {
					hit := false
					for _, e := range f.dirs[[2]uint64{cur.owner, cur.id}] {
						if e.name == c && (e.typ == btrfs.FtDir || e.sub) {
							cur, hit = tr.target(cur, e), true
							break
						}
					}
					ok = ok && hit
				}
				if !ok || cur != d {
					v.fail("%s: directory %d/%d is recovered at %s", desc, d.owner, d.id, rel)
					continue
				}
				for _, e := range f.dirs[[2]uint64{d.owner, d.id}] {
					if e.typ == btrfs.FtDir || e.sub || tr.bad[e.name] || e.name == obst {
						continue
					}
					p := filepath.Join(ps[0], e.name)
					if e.typ == btrfs.FtSymlink {
						if got, err := os.Readlink(p); err != nil || got != "to "+e.name {
							v.fail("%s: link %s is %q (%v)", desc, p, got, err)
						}
					} else if got, err := os.ReadFile(p); err != nil || string(got) != e.name {
						v.fail("%s: file %s has %q (%v)", desc, p, got, err)
					}
				}
			}
			for m := range found {
				v.fail("%s: directory %s is recovered although nothing refers to it", desc, m)
			}
			if obst != "" {
				if b, err := os.ReadFile(filepath.Join(dest, obst)); err != nil || string(b) != "mine" {
					v.fail("%s: that file was changed to %q (%v)", desc, b, err)
				}
			}
		})
		v.sample("%s", desc)
		f.done()
	}
}
