package cmd

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

func TestVerifC21(t *testing.T) {
	v := vstart(t)
	defer vquiet()()
	kinds := []string{"a file", "an empty file", "a link to a file", "a dangling link", "a link to a directory", "an empty directory", "a directory", "a link to itself", "a read-only file"}
	for n := vscale(300); n > 0 && v.more(); n-- {
		f := v.newfs(3000)
		f.chunk(10000, 2000, uint64(100+v.r.Intn(500)))
		id := uint64(300)
		link := v.r.Intn(2) == 0
		es := f.extents(300)
		if link || v.r.Intn(3) == 0 {
			es = []vext{{inline: []byte("text")}}
		}
		f.inode(vFS, id, vinode{size: vend(es), mode: 0100644})
		for _, e := range es {
			f.extent(vFS, id, e)
		}
		typ := uint8(btrfs.FtRegFile)
		if link {
			typ = btrfs.FtSymlink
		}
		f.entry(vFS, vRoot, vdirent{name: "out", typ: typ, id: id})
		f.entry(vFS, vRoot, vdirent{name: "after", typ: btrfs.FtRegFile, id: id})
		f.write()
		dest := filepath.Join(f.dir, "a", "dest")
		os.MkdirAll(dest, 0755)
		target := filepath.Join(dest, "out")
		kind := v.r.Intn(len(kinds))
		os.WriteFile(filepath.Join(f.dir, "victim"), []byte("precious"), 0644)
		os.MkdirAll(filepath.Join(f.dir, "victimdir"), 0755)
		switch kind {
		case 0:
			os.WriteFile(target, []byte("mine"), 0644)
		case 1:
			os.WriteFile(target, nil, 0644)
		case 2:
			os.Symlink(filepath.Join(f.dir, "victim"), target)
		case 3:
			os.Symlink(filepath.Join(f.dir, "nothing"), target)
		case 4:
			os.Symlink(filepath.Join(f.dir, "victimdir"), target)
		case 5:
			os.Mkdir(target, 0755)
		case 6:
			os.MkdirAll(filepath.Join(target, "x"), 0755)
			os.WriteFile(filepath.Join(target, "x", "y"), []byte("mine"), 0644)
		case 7:
			os.Symlink(target, target)
		case 8:
			os.WriteFile(target, []byte("mine"), 0400)
		}
		old := time.Unix(1000000000, 0)
		os.Chtimes(target, old, old)
		before := vsnap(f.dir)
		fi, _ := os.Lstat(target)
		what := "file"
		if link {
			what = "link"
		}
		whole := v.r.Intn(3) == 0
		desc := fmt.Sprintf("recovering a %s (extents %v) over %s without clobber", what, es, kinds[kind])
		v.try(desc, func() {
			ix, dev := vopen(f)
			defer ix.Close()
			defer dev.Close()
			if whole {
				ix.Close()
				doRecoverFiles(f.img, dest, f.path, recoverFilesOptions{})
				os.Remove(filepath.Join(dest, "after"))
			} else {
				var err error
				if link {
					err = recoverSymlink(ix, dev, vFS, id, target, recoverFilesOptions{})
				} else {
					err = recoverFile(ix, dev, vFS, id, target, recoverFilesOptions{})
				}
				if err != nil {
					v.fail("%s: fails with %v", desc, err)
				}
			}
			if d := vdiff(before, vsnap(f.dir)); d != "" {
				v.fail("%s: %s", desc, d)
			} else if fi2, err := os.Lstat(target); err != nil || !os.SameFile(fi, fi2) || !fi2.ModTime().Equal(fi.ModTime()) {
				v.fail("%s: it was replaced", desc)
			}
		})
		v.sample("%s", desc)
		f.done()
	}
}
