package identify

import (
	"os"
	"path/filepath"
	"testing"
)

func TestVerifC26(t *testing.T) {
	if os.Getenv("VERIF_CHILD") != "" {
		IdentifyFS(os.Getenv("VERIF_IMG"), IdentifyFSOptions{BlockSize: 65536, SampleFraction: 0.1, MinBlocks: 20, MaxBlocks: 100, MinOccurrence: 1})
		return
	}
	v := vstart(t)
	img := filepath.Join(v.t.TempDir(), "image")
	os.WriteFile(img, v.bytes(3000), 0600)
	os.Truncate(img, 64<<20+200*65536)
	w := vnewwatch(img)
	if w == nil {
		t.Skip("no inotify")
	}
	v.try("identify", func() {
		out, err := vself("TestVerifC26", "1", "VERIF_IMG="+img)
		if ev := w.events()[img]; vwritten(ev) {
			v.fail("identify: the image was %s", ev)
		}
		if err != nil {
			v.fail("identify fails with %v: %.300s", err, out)
		}
	})
	w.close()
}
