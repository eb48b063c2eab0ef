package cmd

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

func TestVerifC20(t *testing.T) {
	v := vstart(t)
	defer vquiet()()
	for n := vscale(400); n > 0 && v.more(); n-- {
		f := v.newfs(3000)
		f.chunk(10000, 2000, 100)
		// everything happens deep inside of the scratch directory
		top := filepath.Join(f.dir, "s")
		base := filepath.Join(top, "1", "2", "3", "4", "5", "6", "7", "8")
		dest := filepath.Join(base, "dest")
		os.MkdirAll(dest, 0755)
		os.MkdirAll(filepath.Join(base, "vdir"), 0755)
		os.MkdirAll(filepath.Join(base, "vempty"), 0755)
		os.WriteFile(filepath.Join(base, "vdir", "vfile"), []byte("precious"), 0644)
		os.WriteFile(filepath.Join(base, "vfile"), []byte("precious"), 0644)
		names := []string{"a", "b", "c", "..", ".", "", "../vfile", "../new", "../../new", "../vdir", "/vfile", "a/b", "a/../../vfile", "x\\y", "..\\vfile", "vfile", "...", " ", "..a", "../vempty", "//", "../..", "b/new", "subvol_300", "new"}
		links := []string{base, filepath.Join(base, "vdir"), filepath.Join(base, "vfile"), "..", "../vdir", "../vfile", "../new", filepath.Join(base, "nothing"), "../vempty", "../../8/vdir", "."}
		ids := []uint64{vRoot, 300, 301, 302}
		owners := []uint64{vFS, 300}
		if v.r.Intn(2) == 0 {
			f.root(300)
		}
		log := ""
		next := uint64(1000)
		if v.r.Intn(2) == 0 {
			// two entries of one name, one of them a link
			owner, dir := owners[v.r.Intn(2)], ids[v.r.Intn(2)]
			nm := names[v.r.Intn(3)]
			lk := links[v.r.Intn(len(links))]
			f.extent(owner, 900, vext{inline: []byte(lk)})
			a := vdirent{name: nm, typ: btrfs.FtSymlink, id: 900}
			b := vdirent{name: nm, typ: btrfs.FtDir, id: 301}
			if v.r.Intn(2) == 0 {
				b = vdirent{name: nm, typ: btrfs.FtRegFile, id: 901}
				f.extent(owner, 901, vext{inline: []byte("overwritten")})
			}
			f.entry(owner, dir, a)
			f.entry(owner, dir, b)
			log += fmt.Sprintf("%d/%d has the link %q to %q and another entry of that name (type %d) ", owner, dir, nm, lk, b.typ)
		}
		for i := 2 + v.r.Intn(8); i > 0; i-- {
			owner, dir := owners[v.r.Intn(2)], ids[v.r.Intn(len(ids))]
			if v.r.Intn(2) == 0 {
				owner, dir = vFS, vRoot
			}
			e := vdirent{name: names[v.r.Intn(len(names))]}
			switch v.r.Intn(5) {
			case 0, 1:
				e.typ, e.id = btrfs.FtRegFile, next
				next++
				f.extent(owner, e.id, vext{inline: []byte("overwritten")})
				log += fmt.Sprintf("%d/%d has file %q ", owner, dir, e.name)
			case 2:
				e.typ, e.id = btrfs.FtSymlink, next
				next++
				l := links[v.r.Intn(len(links))]
				f.extent(owner, e.id, vext{inline: []byte(l)})
				log += fmt.Sprintf("%d/%d has link %q to %q ", owner, dir, e.name, l)
			case 3:
				e.typ, e.id = btrfs.FtDir, ids[v.r.Intn(len(ids))]
				log += fmt.Sprintf("%d/%d has directory %q id %d ", owner, dir, e.name, e.id)
			case 4:
				e.typ, e.id, e.sub = btrfs.FtDir, 300, true
				log += fmt.Sprintf("%d/%d has subvolume %q ", owner, dir, e.name)
			}
			f.entry(owner, dir, e)
		}
		// links that are already there
		for i := v.r.Intn(4); i > 0; i-- {
			nm := []string{"a", "b", "c", "vfile", "subvol_300", "new"}[v.r.Intn(6)]
			l := links[v.r.Intn(len(links))]
			if os.Symlink(l, filepath.Join(dest, nm)) == nil {
				log += fmt.Sprintf("the destination has link %q to %q ", nm, l)
			}
		}
		f.write()
		before := vsnap(f.dir)
		clobber := v.r.Intn(2) == 0
		desc := fmt.Sprintf("recovering to %s with clobber %v: %s", dest, clobber, log)
		v.try(desc, func() {
			doRecoverFiles(f.img, dest, f.path, recoverFilesOptions{clobber: clobber})
			after := vsnap(f.dir)
			for _, m := range []map[string]string{before, after} {
				for k := range m {
					if rel, err := filepath.Rel(dest, k); err == nil && (rel == "." || len(rel) < 2 || rel[:2] != ".." || len(rel) > 2 && rel[2] != '/') {
						delete(m, k)
					}
				}
			}
			if d := vdiff(before, after); d != "" {
				v.fail("%s: outside of the destination %s", desc, d)
			}
			if fi, err := os.Lstat(dest); err != nil || !fi.IsDir() {
				v.fail("%s: the destination directory was removed", desc)
			}
		})
		v.sample("%s", desc)
		f.done()
	}
}
