package cmd

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// vcheckFile compares a recovered file with what its extents describe.
func (f *vfs) vcheckFile(path string, es []vext, size uint64, hasInode bool) (string, bool) {
	got, err := os.ReadFile(path)
	if err != nil {
		return fmt.Sprintf("cannot be read: %v", err), false
	}
	want := vend(es)
	if hasInode {
		want = size
	}
	if uint64(len(got)) != want {
		return fmt.Sprintf("has %d bytes instead of %d", len(got), want), false
	}
	for p := range got {
		if b, ok := f.at(es, uint64(p)); ok && b != got[p] {
			return fmt.Sprintf("has byte %#x instead of %#x at %d", got[p], b, p), false
		} else if !ok {
			return fmt.Sprintf("has a byte at %d although the device ends before it", p), false
		}
	}
	return "", true
}

// vreadable: whether every data byte of the extents is on the device
func (f *vfs) vreadable(es []vext) bool {
	for _, e := range es {
		if e.inline != nil || e.hole {
			continue
		}
		if f.phys(e.logical)+e.extOff+e.n > uint64(len(f.dev)) {
			return false
		}
	}
	return true
}

func vsnap(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			m[p] = "error"
			return nil
		}
		s := fi.Mode().String()
		if fi.Mode()&os.ModeSymlink != 0 {
			t, _ := os.Readlink(p)
			s += "->" + t
		} else if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += string(b)
		}
		m[p] = s
		return nil
	})
	return m
}

func vdiff(a, b map[string]string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, okx := a[k]
		y, oky := b[k]
		if okx && !oky {
			return k + " was removed"
		}
		if !okx && oky {
			return k + " was created"
		}
		if x != y {
			return fmt.Sprintf("%s was changed from %.60q to %.60q", k, x, y)
		}
	}
	return ""
}

// vquiet drops the warnings.
func vquiet() func() {
	e := os.Stderr
	n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	os.Stderr = n
	return func() { os.Stderr = e; n.Close() }
}

func vopen(f *vfs) (*index.Index, *os.File) {
	ix := f.open()
	dev, err := os.Open(f.img)
	if err != nil {
		panic(err)
	}
	return ix, dev
}

var _ = bytes.Equal
var _ = strings.Repeat
var _ = btrfs.FtDir
