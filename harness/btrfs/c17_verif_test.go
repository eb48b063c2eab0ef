package btrfs

import (
	"errors"
	"fmt"
	"io"
	"testing"
)

type vseek struct {
	size int64
	err  error
	pos  int64
}

func (s *vseek) Read([]byte) (int, error) { return 0, io.EOF }
func (s *vseek) Seek(o int64, w int) (int64, error) {
	if s.err != nil {
		return 0, s.err
	}
	switch w {
	case io.SeekStart:
		s.pos = o
	case io.SeekCurrent:
		s.pos += o
	case io.SeekEnd:
		s.pos = s.size + o
	}
	return s.pos, nil
}

func TestVerifC17(t *testing.T) {
	v := vstart(t)
	for i, n := 0, vscale(40000); i < n && v.more(); i++ {
		bs := []uint64{1, 512, 4096, 16384, 65536, 1 << 20, 1 << 30, uint64(v.r.Intn(1 << 20))}[v.r.Intn(8)]
		lim := int64(64<<20 + 100*bs)
		size := []int64{0, 1, int64(bs) - 1, int64(bs), int64(bs) + 1, lim - 1, lim, lim + 1, 64 << 20, 64<<20 + 99*int64(bs), v.r.Int63n(1 << 40), 1 << 62}[v.r.Intn(12)]
		if size < 0 {
			size = 0
		}
		s := &vseek{size: size, pos: int64(v.r.Intn(1000))}
		if v.r.Intn(8) == 0 {
			s.err = errors.New("cannot seek")
		}
		desc := fmt.Sprintf("device of %d bytes, block size %d, seek error %v", size, bs, s.err)
		v.sample("%s", desc)
		v.try(desc, func() {
			got, err := CheckDeviceSize(s, bs)
			bad := s.err != nil || uint64(size) < bs || size < lim
			if (err != nil) != bad {
				v.fail("%s: error %v", desc, err)
			}
			if s.err == nil && got != uint64(size) {
				v.fail("%s: size reported as %d", desc, got)
			}
		})
	}
}
