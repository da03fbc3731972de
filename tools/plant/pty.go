package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// pty is the terminal the application under demonstration runs on.
type pty struct {
	m, s *os.File
	mu   sync.Mutex
	out  strings.Builder
	hold bool // do not read the output for now
}

var stderr = os.Stderr

func fail(f string, a ...any) {
	fmt.Fprintf(stderr, "FAIL: "+f+"\n", a...)
	os.Exit(1)
}

func check(err error) {
	if err != nil {
		fail("%v", err)
	}
}

func ioctl(f *os.File, req uintptr, p unsafe.Pointer) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 {
		fail("ioctl: %v", e)
	}
}

// open makes a new pseudo terminal this process's standard input and output.
func open(w, h int) *pty {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	check(err)
	var n, unlock int32
	ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock))
	ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n))
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	check(err)
	p := &pty{m: m, s: s}
	p.size(w, h)
	os.Stdin, os.Stdout = s, s
	go func() {
		b := make([]byte, 4096)
		for {
			k, err := m.Read(b)
			if err != nil {
				return
			}
			p.mu.Lock()
			p.out.Write(b[:k])
			p.mu.Unlock()
		}
	}()
	return p
}

func (p *pty) size(w, h int) {
	ws := [4]uint16{uint16(h), uint16(w)}
	ioctl(p.m, syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
}

// resize changes the window and sends the signal.
func (p *pty) resize(w, h int) {
	p.size(w, h)
	check(syscall.Kill(os.Getpid(), syscall.SIGWINCH))
}

func (p *pty) typ(s string) {
	_, err := p.m.WriteString(s)
	check(err)
}

func (p *pty) output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

// within waits for ok to hold.
func within(d time.Duration, ok func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if ok() {
			return true
		}
	}
	return ok()
}
