package cmd

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"blichmann.eu/code/btrfscue/cmd/btrfscue/app"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

func TestVerifC26(t *testing.T) {
	dir, img, meta := os.Getenv("VERIF_DIR"), os.Getenv("VERIF_IMG"), os.Getenv("VERIF_META")
	switch os.Getenv("VERIF_CHILD") {
	case "":
	case "ls":
		app.Global.Metadata = meta
		doListFiles([]string{"/"}, meta, listFilesOptions{Recursive: true, Inode: true})
		return
	case "dump":
		app.Global.Metadata = meta
		doDumpIndex(meta)
		return
	case "recover", "clobber":
		app.Global.Metadata = meta
		doRecoverFiles(img, filepath.Join(dir, "dest"), meta, recoverFilesOptions{clobber: os.Getenv("VERIF_CHILD") == "clobber"})
		return
	case "mount":
		app.Global.Metadata = meta
		doMountRescueFS([]string{img, filepath.Join(dir, "no", "mountpoint")}, meta)
		return
	case "mountnodev":
		app.Global.Metadata = meta
		doMountRescueFS([]string{filepath.Join(dir, "no", "mountpoint")}, meta)
		return
	case "recon":
		app.Global.Metadata = filepath.Join(dir, "newmeta")
		app.Global.BlockSize = 65536
		doScanFS(img, app.Global.Metadata, scanFSOptions{id: uuid.UUID{1}})
		return
	}
	v := vstart(t)
	for n := vscale(6); n > 0 && v.more(); n-- {
		f := v.newfs(3000)
		f.chunk(10000, 2000, 100)
		tr := vmaketree(f, true)
		f.extent(vFS, 5000, vext{n: 100, logical: 10000})
		f.entry(vFS, vRoot, vdirent{name: "data", typ: 1, id: 5000})
		f.write()
		os.Truncate(f.img, 64<<20+200*65536)
		for _, c := range []string{"ls", "dump", "recover", "clobber", "mount", "mountnodev", "recon"} {
			w := vnewwatch(f.img, f.path)
			if w == nil {
				t.Skip("no inotify")
			}
			desc := fmt.Sprintf("command %s on %v", c, tr)
			v.try(desc, func() {
				out, err := vself("TestVerifC26", c, "VERIF_DIR="+f.dir, "VERIF_IMG="+f.img, "VERIF_META="+f.path)
				ev := w.events()
				if vwritten(ev[f.img]) {
					v.fail("%s: the image was %s", desc, ev[f.img])
				}
				if vwritten(ev[f.path]) {
					v.fail("%s: the metadata was %s", desc, ev[f.path])
				}
				if err != nil && c != "mount" && c != "mountnodev" {
					v.fail("%s: fails with %v: %.300s", desc, err, out)
				}
			})
			v.sample("%s: %v", desc, c)
			w.close()
		}
		f.done()
	}
}
