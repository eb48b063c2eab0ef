package cmd

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"blichmann.eu/code/btrfscue/cmd/btrfscue/app"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

// vls runs the listing and returns the fields of its lines.
func vls(f *vfs, args []string, opts listFilesOptions) (lines [][]string) {
	out, err := os.Create(filepath.Join(f.dir, "out"))
	if err != nil {
		panic(err)
	}
	stdout := os.Stdout
	os.Stdout = out
	old := app.Global.Metadata
	app.Global.Metadata = f.path
	func() {
		defer func() { os.Stdout = stdout; app.Global.Metadata = old }()
		doListFiles(args, f.path, opts)
	}()
	out.Close()
	b, _ := os.ReadFile(out.Name())
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, strings.Fields(l))
		}
	}
	return
}

func vperms(m uint32) string {
	s := []byte("rwxrwxrwx")
	for i := 0; i < 9; i++ {
		if m>>uint(8-i)&1 == 0 {
			s[i] = '-'
		}
	}
	return string(s)
}

type vlist struct {
	f      *vfs
	inodes map[vnode]vinode
}

func (l *vlist) line(d vnode, e vdirent, inode bool) string {
	t := map[uint8]string{btrfs.FtRegFile: "-", btrfs.FtDir: "d", btrfs.FtChrdev: "c", btrfs.FtBlkdev: "b", btrfs.FtFifo: "p", btrfs.FtSock: "s", btrfs.FtSymlink: "l"}[e.typ]
	if t == "" {
		t = "?"
	}
	k := vnode{d.owner, e.id}
	if e.sub {
		k = vnode{e.id, vRoot}
	}
	s := ""
	if inode {
		s = fmt.Sprint(e.id) + " "
	}
	if i, ok := l.inodes[k]; ok {
		c := time.Unix(int64(i.ctime[0]), int64(i.ctime[1]))
		s += fmt.Sprintf("%s%s %d %d %d %d %s", t, vperms(i.mode), i.nlink, i.uid, i.gid, i.size, c.Format("Jan _2 15:04"))
	} else {
		s += t + "????????? ? ? ? ? ?"
	}
	return strings.Join(strings.Fields(s+" "+e.name), " ")
}

// listing: the lines of one directory
func (l *vlist) listing(d vnode, inode bool) (r []string) {
	es := append([]vdirent{}, l.f.dirs[[2]uint64{d.owner, d.id}]...)
	sort.Slice(es, func(i, j int) bool {
		di, dj := es[i].typ == btrfs.FtDir, es[j].typ == btrfs.FtDir
		if di != dj {
			return dj
		}
		return es[i].name < es[j].name
	})
	for _, e := range es {
		r = append(r, l.line(d, e, inode))
	}
	return
}

func vpart(lines [][]string) (r []string) {
	for _, l := range lines {
		r = append(r, strings.Join(l, " "))
	}
	return
}

func vsame(a, b []string) bool { return strings.Join(a, "\n") == strings.Join(b, "\n") }

func TestVerifC27(t *testing.T) {
	v := vstart(t)
	defer vquiet()()
	for m := 0; m < 1<<12; m++ {
		mode := uint32(m) | uint32(v.r.Intn(1<<16))<<12
		v.try(fmt.Sprintf("permissions of mode %o", mode), func() {
			if got := inodeModeString(mode); got != vperms(mode) {
				v.fail("the permissions of mode %o are %q", mode, got)
			}
		})
	}
	for n := vscale(250); n > 0 && v.more(); n-- {
		f := v.newfs(500)
		tr := vmaketree(f, false)
		l := &vlist{f: f, inodes: map[vnode]vinode{}}
		// names that sort in interesting ways, types and attributes
		for _, d := range tr.dirs {
			for i := v.r.Intn(8); i > 0; i-- {
				name := fmt.Sprintf("%c%s_%d", "aAbBzZ0._~"[v.r.Intn(10)], []string{"", "a", "B", "\xff"}[v.r.Intn(4)], v.r.Intn(4))
				dup := false
				for _, e := range f.dirs[[2]uint64{d.owner, d.id}] {
					dup = dup || e.name == name
				}
				if !dup {
					f.entry(d.owner, d.id, vdirent{name: name, typ: uint8(v.r.Intn(10)), id: uint64(2000 + v.r.Intn(5))})
				}
			}
		}
		for _, o := range append([]uint64{vFS}, tr.subs...) {
			ids := []uint64{vRoot}
			for k, es := range f.dirs {
				if k[0] == o {
					for _, e := range es {
						ids = append(ids, e.id)
					}
				}
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			for _, id := range ids {
				k := vnode{o, id}
				if _, ok := l.inodes[k]; ok || v.r.Intn(10) == 0 && id != vRoot {
					continue
				}
				l.inodes[k] = vinode{size: uint64(v.r.Intn(1 << 30)), nlink: uint32(v.num()), uid: uint32(v.num()), gid: uint32(v.num()), mode: uint32(v.num()), ctime: [2]uint64{uint64(v.r.Intn(1 << 31)), uint64(v.r.Intn(1000000000))}}
				if id >= 1000 && id < 2000 {
					i := l.inodes[k]
					i.size = v.num()
					l.inodes[k] = i
				}
			}
		}
		// attributes of markers and files were already put: replace them
		for k, i := range l.inodes {
			f.inode(k.owner, k.id, i)
		}
		for key, e := range f.ents {
			if e.typ == btrfs.InodeItemKey {
				if _, ok := l.inodes[vnode{e.owner, e.id}]; !ok {
					delete(f.ents, key)
				}
			}
		}
		f.write()
		inode := v.r.Intn(2) == 0
		desc := fmt.Sprintf("listing %v", tr)
		root := vnode{vFS, vRoot}
		v.try(desc, func() {
			got := vpart(vls(f, nil, listFilesOptions{Inode: inode}))
			if exp := l.listing(root, inode); !vsame(got, exp) {
				v.fail("%s: / is listed as %q instead of %q", desc, got, exp)
			}
		})
		v.try(desc, func() {
			got := vpart(vls(f, []string{"/"}, listFilesOptions{Inode: inode, Recursive: true}))
			// sections, each after the name of its directory
			type section struct {
				name  string
				lines []string
			}
			secs := []section{{}}
			for _, g := range got {
				if !strings.Contains(g, " ") && strings.HasSuffix(g, ":") {
					secs = append(secs, section{name: strings.TrimSuffix(g, ":")})
				} else {
					secs[len(secs)-1].lines = append(secs[len(secs)-1].lines, g)
				}
			}
			if exp := l.listing(root, inode); !vsame(secs[0].lines, exp) {
				v.fail("%s: recursively, / is listed as %q instead of %q", desc, secs[0].lines, exp)
			}
			reach := tr.reach(root)
			names := map[vnode][]string{}
			for d := range reach {
				for _, e := range f.dirs[[2]uint64{d.owner, d.id}] {
					if e.typ == btrfs.FtDir {
						k := tr.target(d, e)
						names[k] = append(names[k], strings.Join(strings.Fields(e.name), " "))
					}
				}
			}
			if len(secs) != len(reach) {
				v.fail("%s: recursively, %d directories are listed instead of %d", desc, len(secs), len(reach))
			}
			for d := range reach {
				if d == root {
					continue
				}
				exp := l.listing(d, inode)
				hit := 0
				for i := 1; i < len(secs); i++ {
					if !vsame(secs[i].lines, exp) {
						continue
					}
					for _, nm := range names[d] {
						if nm == secs[i].name {
							hit++
							break
						}
					}
				}
				if hit == 0 {
					v.fail("%s: recursively, directory %d/%d is not listed as %q under one of its names %q", desc, d.owner, d.id, exp, names[d])
				} else if hit > 1 && len(exp) > 0 {
					v.fail("%s: recursively, directory %d/%d is listed %d times", desc, d.owner, d.id, hit)
				}
			}
		})
		// paths of up to three names
		type loc struct {
			path string
			d    vnode
		}
		ls := []loc{{"", root}}
		for i := 0; i < len(ls) && i < 12; i++ {
			at := ls[i]
			for _, e := range f.dirs[[2]uint64{at.d.owner, at.d.id}] {
				if strings.Contains(e.name, "/") || e.name == "." || e.name == ".." {
					continue
				}
				p := at.path + "/" + e.name
				if e.typ == btrfs.FtDir {
					ls = append(ls, loc{p, tr.target(at.d, e)})
				} else if v.r.Intn(4) == 0 {
					v.try(desc, func() {
						got := vpart(vls(f, []string{p}, listFilesOptions{Inode: inode}))
						if exp := []string{l.line(at.d, e, inode)}; !vsame(got, exp) {
							v.fail("%s: %q is listed as %q instead of %q", desc, p, got, exp)
						}
					})
				}
			}
			if at.path != "" {
				v.try(desc, func() {
					got := vpart(vls(f, []string{at.path}, listFilesOptions{Inode: inode}))
					if exp := l.listing(at.d, inode); !vsame(got, exp) {
						v.fail("%s: %q is listed as %q instead of %q", desc, at.path, got, exp)
					}
				})
			}
		}
		v.sample("%s", desc)
		f.done()
	}
}
