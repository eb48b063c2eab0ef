package PKG

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// vwatch reports what happened to files.
type vwatch struct {
	fd int
	wd map[int32]string
}

func vnewwatch(files ...string) *vwatch {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil
	}
	w := &vwatch{fd: fd, wd: map[int32]string{}}
	for _, f := range files {
		d, err := syscall.InotifyAddWatch(fd, f, syscall.IN_OPEN|syscall.IN_CLOSE_WRITE|syscall.IN_CLOSE_NOWRITE|syscall.IN_MODIFY)
		if err != nil {
			syscall.Close(fd)
			return nil
		}
		w.wd[int32(d)] = f
	}
	return w
}

// events: the files that were opened, opened for writing, modified
func (w *vwatch) events() map[string]string {
	r := map[string]string{}
	buf := make([]byte, 65536)
	for i := 0; i < 3; i++ {
		n, err := syscall.Read(w.fd, buf)
		if err != nil || n <= 0 {
			time.Sleep(2 * time.Millisecond)
			continue
		}
		for o := 0; o+syscall.SizeofInotifyEvent <= n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[o]))
			f := w.wd[e.Wd]
			for m, s := range map[uint32]string{syscall.IN_OPEN: "opened", syscall.IN_CLOSE_WRITE: "opened for writing", syscall.IN_MODIFY: "modified"} {
				if e.Mask&m != 0 && !strings.Contains(r[f]+",", s+",") {
					if r[f] != "" {
						r[f] += ","
					}
					r[f] += s
				}
			}
			o += syscall.SizeofInotifyEvent + int(e.Len)
		}
	}
	return r
}

func (w *vwatch) close() { syscall.Close(w.fd) }

func vwritten(s string) bool {
	return strings.Contains(s, "opened for writing") || strings.Contains(s, "modified")
}

// vself runs a part of this test in a process of its own: it may exit.
func vself(test, what string, env ...string) (string, error) {
	c := exec.Command("timeout", "60", os.Args[0], "-test.run", "^"+test+"$")
	c.Dir = filepath.Dir(os.Args[0])
	if d := os.Getenv("TMPDIR"); d != "" {
		c.Dir = d
	}
	c.Env = append(append(os.Environ(), "VERIF_CHILD="+what), env...)
	b, err := c.CombinedOutput()
	return string(b), err
}
