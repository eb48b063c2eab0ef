package rescuefs

import (
	"bytes"
	"fmt"
	"os"
	"testing"

	"github.com/hanwen/go-fuse/v2/fuse"
	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
)

func TestVerifC26(t *testing.T) {
	v := vstart(t)
	f := v.newfs(500)
	f.chunk(10000, 400, 50)
	ix := f.open()
	defer f.done()
	defer ix.Close()
	orig, _ := os.ReadFile(f.path)
	fs := New(f.path, ix, nil)
	conn := nodefs.NewFileSystemConnector(fs.root, &nodefs.Options{})
	fs.root.OnMount(conn)
	ch := fs.root.Inode().GetChild("metadata")
	if ch == nil {
		v.fail("the mounted view has no metadata file")
		return
	}
	flags := []uint32{0, uint32(os.O_WRONLY), uint32(os.O_RDWR), uint32(os.O_TRUNC), uint32(os.O_RDWR | os.O_TRUNC), uint32(os.O_WRONLY | os.O_APPEND), uint32(os.O_RDWR | os.O_CREATE), 0x8000, uint32(os.O_TRUNC | 0x8000), 3}
	for i := 0; i < 40; i++ {
		flags = append(flags, uint32(v.r.Intn(1<<13)))
	}
	for _, fl := range flags {
		if fl&uint32(os.O_EXCL) != 0 {
			continue
		}
		desc := fmt.Sprintf("opening the metadata of the mounted view with flags %#x", fl)
		w := vnewwatch(f.path)
		if w == nil {
			t.Skip("no inotify")
		}
		v.try(desc, func() {
			file, st := ch.Node().Open(fl, nil)
			if st == fuse.OK && file != nil {
				file.Write([]byte("overwritten"), 0)
				file.Truncate(3)
				res, st := file.Read(make([]byte, 100), 0)
				if st == fuse.OK {
					if b, _ := res.Bytes(make([]byte, 100)); !bytes.Equal(b, orig[:100]) {
						v.fail("%s: reading gives %x", desc, b)
					}
				} else {
					v.fail("%s: reading gives %v", desc, st)
				}
				file.Release()
			}
			if ev := w.events()[f.path]; vwritten(ev) {
				v.fail("%s: the file was %s", desc, ev)
			}
			if b, _ := os.ReadFile(f.path); !bytes.Equal(b, orig) {
				v.fail("%s: its content was changed", desc)
				os.WriteFile(f.path, orig, 0600)
			}
		})
		v.sample("%s", desc)
		w.close()
	}
}
