//go:build verifio

package main

import (
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Injection of crashes and failures into the file operations below a
// directory.  Every operation that changes something is counted; at the N-th
// one the process dies, or it (and maybe all later ones) fails.
type iofd struct {
	name  string
	wrote bool
	size  int64 // when it was opened
}

type ioctl struct {
	mu     sync.Mutex
	root   string
	mode   string
	n      int // the operation that is hit, counted from 1
	count  int
	faults int
	fds    map[int]*iofd
	runs   [][]interface{} // [kind, file, first, count, bytes of the last]
	kind   string          // slowdie, slowfail: the n-th operation of this kind
	file   string          // on this file is hit after all else has come to rest
	seen   int             // of these, or of the files closed that were written
}

var io0 *ioctl

func (c *ioctl) name(p string) (string, bool) {
	p = filepath.Clean(p)
	if p == c.root {
		return ".", true
	}
	if strings.HasPrefix(p, c.root+"/") {
		return p[len(c.root)+1:], true
	}
	return "", false
}

func die() {
	syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 77, 0, 0)
}

// next counts an operation; hit says that it is the N-th, bad that it fails
func (c *ioctl) next(kind, name string, size int) (hit, bad bool) {
	c.count++
	if c.mode == "log" {
		if k := len(c.runs); k > 0 && c.runs[k-1][0] == kind && c.runs[k-1][1] == name {
			c.runs[k-1][3] = c.runs[k-1][3].(int) + 1
			c.runs[k-1][4] = size
		} else {
			c.runs = append(c.runs, []interface{}{kind, name, c.count, 1, size})
		}
		return false, false
	}
	if c.mode == "slowdie" || c.mode == "slowfail" {
		if kind != c.kind || name != c.file {
			return false, false
		}
		if c.seen++; c.seen != c.n {
			return false, false
		}
		// an operation may take as long as it likes: let whatever does not
		// wait for this one happen before it
		last, quiet := c.count, 0
		for i := 0; i < 100 && quiet < 3; i++ {
			c.mu.Unlock()
			time.Sleep(40 * time.Millisecond)
			c.mu.Lock()
			quiet++
			if c.count != last {
				last, quiet = c.count, 0
			}
		}
		if c.mode == "slowdie" {
			die()
		}
		return true, true
	}
	hit = c.count == c.n
	if hit && c.mode == "die" {
		die()
	}
	switch c.mode {
	case "fail":
		bad = hit
	case "failall", "halfall":
		bad = c.count >= c.n
	}
	return
}

func (c *ioctl) write(fd int, p []byte, off int64) (int, error, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	f := c.fds[fd]
	if f == nil {
		return 0, nil, false
	}
	f.wrote = true
	hit, bad := c.next("write", f.name, len(p))
	if hit && (c.mode == "diehalf" || c.mode == "halfall") {
		n := len(p) / 2
		if n > 0 {
			n, _ = syscall.VerifRawWrite(fd, p[:n], off)
		}
		if c.mode == "diehalf" {
			die()
		}
		if n > 0 {
			return n, nil, true
		}
	}
	if bad {
		c.faults++
		return -1, syscall.ENOSPC, true
	}
	return 0, nil, false
}

func (c *ioctl) open(path string, flags int) (error, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	name, ok := c.name(path)
	if !ok || flags&(syscall.O_CREAT|syscall.O_TRUNC) == 0 {
		return nil, false
	}
	hit, bad := c.next("open", name, 0)
	if hit && c.mode == "diehalf" {
		die()
	}
	if bad {
		c.faults++
		return syscall.ENOSPC, true
	}
	return nil, false
}

func (c *ioctl) opened(path string, flags int, fd int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if name, ok := c.name(path); ok && flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		f := &iofd{name: name}
		var st syscall.Stat_t
		if syscall.Fstat(fd, &st) == nil {
			f.size = st.Size
		}
		c.fds[fd] = f
	}
}

func (c *ioctl) close(fd int) (error, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	f := c.fds[fd]
	if f == nil {
		return nil, false
	}
	delete(c.fds, fd)
	if c.mode == "lost" && f.wrote {
		// what was written does not reach the disk, and closing says so
		if c.seen++; c.seen != c.n {
			return nil, false
		}
		c.faults++
		syscall.RawSyscall(syscall.SYS_FTRUNCATE, uintptr(fd), uintptr(f.size), 0)
		syscall.VerifRawClose(fd)
		return syscall.EIO, true
	}
	if c.mode != "close" || !f.wrote {
		return nil, false
	}
	c.seen++
	if c.seen >= c.n {
		c.faults++
		syscall.VerifRawClose(fd)
		return syscall.EIO, true
	}
	return nil, false
}

func (c *ioctl) op(kind string, fd int, path, to string) (error, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	var name string
	var ok bool
	if fd >= 0 {
		if f := c.fds[fd]; f != nil {
			name, ok = f.name, true
		}
	} else if name, ok = c.name(path); !ok {
		name, ok = c.name(to)
	}
	if !ok {
		return nil, false
	}
	hit, bad := c.next(kind, name, 0)
	if hit && c.mode == "diehalf" {
		die()
	}
	if bad && kind != "unlink" {
		c.faults++
		return syscall.ENOSPC, true
	}
	return nil, false
}

func ioOp(o *op) (result, bool) {
	switch o.Op {
	case "arm":
		c := &ioctl{root: filepath.Clean(o.Root), mode: o.Mode, n: o.N, kind: o.Kind, file: o.To, fds: map[int]*iofd{}}
		syscall.VerifWrite, syscall.VerifOpen, syscall.VerifOpened = c.write, c.open, c.opened
		syscall.VerifClose, syscall.VerifOp = c.close, c.op
		io0 = c
		return result{"ok": true}, true
	case "disarm":
		io0.mu.Lock()
		defer io0.mu.Unlock()
		syscall.VerifWrite, syscall.VerifOpen, syscall.VerifOpened = nil, nil, nil
		syscall.VerifClose, syscall.VerifOp = nil, nil
		return result{"ok": true, "faults": io0.faults, "count": io0.count, "runs": io0.runs}, true
	case "faults":
		io0.mu.Lock()
		defer io0.mu.Unlock()
		return result{"ok": true, "faults": io0.faults, "count": io0.count}, true
	}
	return nil, false
}
