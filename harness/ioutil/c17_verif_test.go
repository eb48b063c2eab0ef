package ioutil

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
)

// a conforming reader over dev with a chosen end-of-file style and failures
type vdev struct {
	dev  []byte
	eof  bool // report EOF together with the last byte
	bad  int64
	errs error
}

func (d *vdev) ReadAt(p []byte, off int64) (int, error) {
	if d.errs != nil && off+int64(len(p)) > d.bad {
		n := 0
		if off < d.bad {
			n = copy(p, d.dev[off:d.bad])
		}
		return n, d.errs
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= int64(len(d.dev)) {
		return 0, io.EOF
	}
	n := copy(p, d.dev[off:])
	if n < len(p) || (d.eof && off+int64(n) == int64(len(d.dev))) {
		return n, io.EOF
	}
	return n, nil
}

func TestVerifC17(t *testing.T) {
	v := vstart(t)
	for i, n := 0, vscale(20000); i < n && v.more(); i++ {
		size := []int{0, 1, 511, 512, 513, 4096, 5000}[v.r.Intn(7)]
		bs := []int{0, 1, 16, 512, 4096}[v.r.Intn(5)]
		d := &vdev{dev: v.bytes(size), eof: v.r.Intn(2) == 0}
		if v.r.Intn(3) == 0 {
			d.errs = errors.New("read error")
			d.bad = int64(v.r.Intn(size + 1))
		}
		off := uint64(v.r.Intn(size + 10))
		switch v.r.Intn(4) {
		case 0:
			off = uint64(maxi(0, size-bs))
		case 1:
			off = uint64(maxi(0, size-bs+1))
		}
		buf := make([]byte, bs)
		desc := fmt.Sprintf("device of %d bytes (EOF with data: %v, failing at %d: %v), block of %d bytes at %d", size, d.eof, d.bad, d.errs != nil, bs, off)
		v.sample("%s", desc)
		v.try(desc, func() {
			p := make([]byte, bs)
			got, _ := d.ReadAt(p, int64(off))
			err := ReadBlockAt(d, buf, off)
			if (err == nil) != (got == bs) {
				v.fail("%s: error %v, but %d bytes were delivered", desc, err, got)
			} else if err == nil && bs > 0 && !bytes.Equal(buf, d.dev[off:off+uint64(bs)]) {
				v.fail("%s: wrong content", desc)
			}
		})
	}
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}
