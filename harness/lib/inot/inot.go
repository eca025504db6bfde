// Package inot records, through inotify, which existing files of a directory
// are written to in place.
package inot

import (
	"encoding/binary"
	"strings"
	"sync"
	"syscall"
)

type Watch struct {
	fd   int
	mu   sync.Mutex
	dirs map[int32]string
	mod  map[string]int // path: how often
}

// New returns nil when the system has no watches left.
func New(dirs ...string) *Watch {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil
	}
	w := &Watch{fd: fd, dirs: map[int32]string{}, mod: map[string]int{}}
	for _, d := range dirs {
		wd, err := syscall.InotifyAddWatch(fd, d, syscall.IN_MODIFY)
		if err == nil {
			w.dirs[int32(wd)] = d
		}
	}
	return w
}

func (w *Watch) drain() {
	buf := make([]byte, 64<<10)
	for {
		n, err := syscall.Read(w.fd, buf)
		if err != nil || n <= 0 {
			return
		}
		for b := buf[:n]; len(b) >= 16; {
			wd := int32(binary.LittleEndian.Uint32(b))
			l := int(binary.LittleEndian.Uint32(b[12:]))
			name := strings.TrimRight(string(b[16:16+l]), "\x00")
			w.mod[w.dirs[wd]+"/"+name]++
			b = b[16+l:]
		}
	}
}

// Close returns the paths that were written to.
func (w *Watch) Close() map[string]int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.drain()
	syscall.Close(w.fd)
	return w.mod
}
