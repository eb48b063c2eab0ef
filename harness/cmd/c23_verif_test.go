package cmd

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
)

func TestVerifC23(t *testing.T) {
	v := vstart(t)
	defer vquiet()()
	for n := vscale(400); n > 0 && v.more(); n-- {
		f := v.newfs(3000)
		f.chunk(10000, 2000, uint64(100+v.r.Intn(500)))
		id := uint64(300)
		text := make([]byte, 1+v.r.Intn(200))
		for i := range text {
			text[i] = byte(1 + v.r.Intn(255))
		}
		f.extent(vFS, id+1, vext{inline: []byte("wrong")})
		f.extent(vFS, id-1, vext{inline: []byte("wrong")})
		f.extent(256, id, vext{inline: []byte("wrong")})
		kind := v.r.Intn(6)
		want := string(text)
		var desc string
		dev := func() *os.File { d, _ := os.Open(f.img); return d }
		switch kind {
		case 0, 1:
			desc = fmt.Sprintf("a link with inline target %q", text)
			f.extent(vFS, id, vext{inline: text})
		case 2:
			e := vext{n: uint64(len(text)), logical: 10000 + uint64(v.r.Intn(500)), extOff: uint64(v.r.Intn(50))}
			copy(f.dev[f.phys(e.logical)+e.extOff:], text)
			f.extent(vFS, id, e)
			desc = fmt.Sprintf("a link whose target %q is in the extent %v", text, e)
		case 3:
			desc, want = "a link without a target", ""
		case 4:
			e := vext{n: uint64(len(text)), logical: 10000 + 2950 - uint64(v.r.Intn(10))}
			e.logical += f.chunks[0][2]
			e.logical = 10000 + uint64(len(f.dev)) - f.chunks[0][2] - uint64(v.r.Intn(len(text)))
			f.extent(vFS, id, e)
			desc, want = fmt.Sprintf("a link whose target is at %v behind the end of the device", e), ""
		case 5:
			e := vext{n: uint64(len(text)), logical: 10000}
			if v.r.Intn(2) == 0 {
				e.n = 1 << 60
			}
			if v.r.Intn(3) == 0 {
				e.hole = true
			}
			f.extent(vFS, id, e)
			dev = func() *os.File {
				d, _ := os.OpenFile(filepath.Join(f.dir, "wo"), os.O_CREATE|os.O_WRONLY, 0600)
				return d
			}
			desc, want = fmt.Sprintf("a link whose target %v cannot be read", e), ""
		}
		ix := f.open()
		d := dev()
		target := filepath.Join(f.dir, "out")
		v.try(desc, func() {
			err := recoverSymlink(ix, d, vFS, id, target, recoverFilesOptions{clobber: v.r.Intn(2) == 0})
			got, lerr := os.Readlink(target)
			switch {
			case want == "" && err == nil:
				v.fail("%s: success is reported", desc)
			case want == "" && lerr == nil:
				v.fail("%s: the link to %q is created", desc, got)
			case want != "" && err != nil:
				v.fail("%s: fails with %v", desc, err)
			case want != "" && (lerr != nil || got != want):
				v.fail("%s: the link has the target %q (%v)", desc, got, lerr)
			}
		})
		v.sample("%s", desc)
		d.Close()
		ix.Close()
		f.done()
	}
}
