package main

import (
	"os"
	"os/signal"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/sys/unix"
)

// kernel is the simulated operating system one run sees: one terminal, the
// standard descriptors, pipes, epoll and window-change signals. All of it
// runs inside the bubble, one goroutine at a time, so it needs no locks.
type kernel struct {
	h *runCtx
	r *rng

	base int // first descriptor of this run
	fds  map[int]*kfd
	next int

	vt      *vt
	shadow  [][]vcell // what the main screen should hold
	w, h_   int       // window size
	termios unix.Termios
	orig    unix.Termios

	in     []inSeg
	inEOF  bool
	inErr  error
	wait   []chan struct{}
	events int

	cfg KernelCfg

	dead     bool // after Run returned: record accesses
	reads    int  // bytes read
	afterR   int  // reads completed after Run returned
	afterW   int  // writes after Run returned
	writing  int  // writes that take their time
	nwrite   int
	outBytes int
	nread    int
	nioctl   int
	outErr   error // permanent output failure
	outTemp  int   // remaining temporary failures
	outStall time.Duration

	faults map[string]int
	stderr []byte

	outFailed  bool // some write failed
	outFailedN int
	failedOut  []string
	inFailed   bool // the input failure was delivered
	setFailed  int
	openFailed bool
	sizeFailed bool
	ioctlFailT time.Duration
	getFailed  bool
	reported   bool
}

// KernelCfg is the part of a scenario that configures the simulated system.
type KernelCfg struct {
	StdinTTY    bool // standard input is the terminal
	OpenFail    bool // opening the controlling terminal fails
	WriteDelay  int  // microseconds each write takes
	ShortWrites int  // percentage of writes that are short
	ShortReads  int  // percentage of reads that stop at an event boundary
	EINTR       int  // percentage of calls interrupted
	FailWrite   int  // the n-th write (from 1) fails; 0: none
	FailTemp    bool // ... only that one
	FailIoctl   int  // the n-th terminal ioctl fails; 0: none
	FailPipe    int  // 1: epoll_create fails is not modelled; pipe fails
	SigDelay    bool // signals are delivered by a goroutine of their own
	SetFail     int  // the n-th setting of line settings fails
}

type inSeg struct {
	b   []byte
	gap bool // a read never continues past this segment
}

type kfd struct {
	kind string // tty, pipeR, pipeW, epoll, null
	p    *kpipe
	reg  []int
	open bool
}

type kpipe struct {
	buf    []byte
	closed bool
}

var kernelGen int

func newKernel(h *runCtx, cfg KernelCfg, w, hh int, seed uint64) *kernel {
	kernelGen++
	k := &kernel{h: h, r: newRng(seed, 77), cfg: cfg, w: w, h_: hh, fds: map[int]*kfd{}, faults: map[string]int{}}
	k.base = syscall.SimFdBase + kernelGen*4096
	k.next = k.base + 3
	k.vt = newVT(w, hh)
	k.shadow = regrid(k.vt.main, w, hh)
	in := "tty"
	if !cfg.StdinTTY {
		in = "null"
	}
	k.fds[k.base] = &kfd{kind: in, open: true}
	k.fds[k.base+1] = &kfd{kind: "tty", open: true}
	k.fds[k.base+2] = &kfd{kind: "tty", open: true}
	k.termios.Iflag = unix.ICRNL | unix.IXON | unix.BRKINT
	k.termios.Oflag = unix.OPOST | unix.ONLCR
	k.termios.Lflag = unix.ECHO | unix.ICANON | unix.ISIG | unix.IEXTEN
	k.termios.Cflag = unix.CS8 | unix.CREAD
	k.termios.Cc[unix.VMIN], k.termios.Cc[unix.VTIME] = 1, 0
	k.orig = k.termios
	return k
}

var keepFiles []*os.File // never finalised

// install makes this kernel the one the process sees.
func (k *kernel) install() {
	signal.SimReset()
	syscall.SimKernel = k
	os.Stdin = os.NewFile(uintptr(k.base), "/dev/stdin")
	os.Stdout = os.NewFile(uintptr(k.base+1), "/dev/stdout")
	os.Stderr = os.NewFile(uintptr(k.base+2), "/dev/stderr")
	keepFiles = append(keepFiles, os.Stdin, os.Stdout, os.Stderr)
}

func (k *kernel) fault(kind string) { k.faults[kind]++ }

func (k *kernel) wake() {
	ws := k.wait
	k.wait = nil
	for _, c := range ws {
		close(c)
	}
}

func (k *kernel) block() {
	c := make(chan struct{})
	k.wait = append(k.wait, c)
	<-c
}

func (k *kernel) eintr() bool {
	if k.cfg.EINTR > 0 && k.r.p(k.cfg.EINTR) {
		k.fault("eintr")
		return true
	}
	return false
}

func (k *kernel) get(fd int) *kfd {
	f := k.fds[fd]
	if f == nil || !f.open {
		return nil
	}
	return f
}

func (k *kernel) Open(path string, mode int) (int, error, bool) {
	if path != "/dev/tty" {
		return 0, nil, false
	}
	if k.cfg.OpenFail {
		k.fault("open_fail")
		k.openFailed = true
		return -1, syscall.ENXIO, true
	}
	fd := k.next
	k.next++
	k.fds[fd] = &kfd{kind: "tty", open: true}
	return fd, nil, true
}

func (k *kernel) inputReady() bool { return len(k.in) > 0 || k.inEOF || k.inErr != nil }

func (k *kernel) Read(fd int, p []byte) (int, error) {
	y()
	f := k.get(fd)
	if f == nil {
		return -1, syscall.EBADF
	}
	if k.eintr() {
		return -1, syscall.EINTR
	}
	switch f.kind {
	case "null":
		return 0, nil
	case "pipeR":
		for len(f.p.buf) == 0 {
			if f.p.closed {
				return 0, nil
			}
			k.block()
			if !f.open {
				return -1, syscall.EBADF
			}
		}
		n := copy(p, f.p.buf)
		f.p.buf = f.p.buf[n:]
		return n, nil
	case "tty":
		k.nread++
		if a := k.h.app; a != nil && !k.dead {
			a.trigger("read", k.nread)
		}
		for !k.inputReady() {
			k.block()
		}
		if len(k.in) > 0 {
			n := 0
			for n < len(p) && len(k.in) > 0 {
				s := &k.in[0]
				c := copy(p[n:], s.b)
				n += c
				if c < len(s.b) {
					s.b = s.b[c:]
					break
				}
				gap := s.gap
				if gap && n == len(p) && n > c {
					// the reader could not tell that nothing follows
					n -= c
					break
				}
				k.in = k.in[1:]
				if gap {
					break
				}
				if k.cfg.ShortReads > 0 && k.r.p(k.cfg.ShortReads) && len(k.in) > 0 {
					k.fault("short_read")
					break
				}
			}
			k.reads += n
			if k.dead {
				k.afterR++
			}
			if n == len(p) && len(k.in) > 0 {
				k.fault("read_cut_at_buffer")
			}
			return n, nil
		}
		if k.inErr != nil {
			k.fault("read_error")
			k.inFailed = true
			return -1, k.inErr
		}
		k.fault("read_eof")
		return 0, nil
	}
	return -1, syscall.EBADF
}

func (k *kernel) push(segs ...inSeg) {
	for _, s := range segs {
		if len(s.b) > 0 {
			k.in = append(k.in, s)
		}
	}
	k.wake()
}

func (k *kernel) Write(fd int, p []byte) (int, error) {
	y()
	f := k.get(fd)
	if f == nil {
		return -1, syscall.EBADF
	}
	switch f.kind {
	case "pipeW":
		f.p.buf = append(f.p.buf, p...)
		k.wake()
		return len(p), nil
	case "tty":
		if fd == k.base+2 {
			k.stderr = append(k.stderr, p...)
		}
		k.nwrite++
		if a := k.h.app; a != nil && !k.dead {
			a.trigger("write", k.nwrite)
		}
		if k.eintr() {
			return -1, syscall.EINTR
		}
		k.writing++
		if k.cfg.WriteDelay > 0 {
			k.fault("slow_write")
			time.Sleep(time.Duration(k.cfg.WriteDelay) * time.Microsecond)
		}
		if k.outStall > 0 {
			d := k.outStall
			k.outStall = 0
			k.fault("stalled_write")
			time.Sleep(d)
		}
		k.writing--
		n := len(p)
		if n > 1 && fd != k.base+2 && k.cfg.ShortWrites > 0 && k.r.p(k.cfg.ShortWrites) {
			n = 1 + k.r.n(n-1)
			k.fault("short_write")
		}
		if k.cfg.FailWrite > 0 && k.nwrite == k.cfg.FailWrite {
			if k.cfg.FailTemp {
				k.outTemp = 1
			} else {
				k.outErr = syscall.EIO
			}
		}
		if k.outErr != nil || k.outTemp > 0 {
			err := k.outErr
			if err == nil {
				err = syscall.EAGAIN
				k.outTemp--
				k.fault("write_error_temporary")
			} else {
				k.fault("write_error_permanent")
			}
			k.outFailed = true
			k.failedOut = append(k.failedOut, string(k.vt.buf)+string(p)) // with the part of a sequence that got out
			k.outFailedN++
			if k.r.p(30) && k.outErr != nil && k.outFailedN == 1 { // torn: part of it got out
				k.vt.write(p[:k.r.n(len(p)+1)])
				k.fault("torn_write")
			}
			return -1, err
		}
		if k.dead {
			k.afterW++
		}
		if !k.reported && k.h.app != nil && k.h.app.causes["panic"] && strings.Contains(string(p[:n]), "boom in") {
			k.reported = true
			k.h.probe("panic_reported")
			if k.vt.altOn && !strings.Contains(strings.Join(k.failedOut, ""), "1049l") || k.termios != k.orig && k.setFailed == 0 {
				k.h.bad("P09", "report-before-restore", "the panic is reported before the terminal is restored (alternate screen %v)", k.vt.altOn)
			}
		}
		k.vt.write(p[:n])
		k.outBytes += n
		return n, nil
	}
	return -1, syscall.EBADF
}

func (k *kernel) Close(fd int) error {
	y()
	f := k.get(fd)
	if f == nil {
		return syscall.EBADF
	}
	f.open = false
	if f.kind == "pipeW" {
		f.p.closed = true
	}
	k.wake()
	return nil
}

func (k *kernel) Pipe(p []int) (error, bool) {
	y()
	if k.cfg.FailPipe > 0 {
		k.fault("pipe_fail")
		return syscall.EMFILE, true
	}
	kp := &kpipe{}
	p[0], p[1] = k.next, k.next+1
	k.next += 2
	k.fds[p[0]] = &kfd{kind: "pipeR", p: kp, open: true}
	k.fds[p[1]] = &kfd{kind: "pipeW", p: kp, open: true}
	return nil, true
}

func (k *kernel) Ioctl(fd int, req uint, arg unsafe.Pointer) error {
	y()
	f := k.get(fd)
	if f == nil {
		return syscall.EBADF
	}
	if f.kind != "tty" {
		return syscall.ENOTTY
	}
	k.nioctl++
	if k.cfg.FailIoctl > 0 && k.nioctl == k.cfg.FailIoctl {
		k.fault("ioctl_fail")
		k.ioctlFailT = cur.now()
		switch req {
		case unix.TCGETS:
			k.getFailed = true
		case unix.TIOCGWINSZ:
			k.sizeFailed = true
		default:
			k.setFailed++
		}
		return syscall.EIO
	}
	switch req {
	case unix.TCGETS:
		*(*unix.Termios)(arg) = k.termios
	case unix.TCSETS, unix.TCSETSW, unix.TCSETSF:
		t := *(*unix.Termios)(arg)
		k.termios = t
	case unix.TIOCGWINSZ:
		*(*unix.Winsize)(arg) = unix.Winsize{Row: uint16(k.h_), Col: uint16(k.w)}
	default:
		return syscall.EINVAL
	}
	return nil
}

func (k *kernel) EpollCreate() (int, bool) {
	fd := k.next
	k.next++
	k.fds[fd] = &kfd{kind: "epoll", open: true}
	return fd, true
}

func (k *kernel) EpollCtl(epfd, op, fd int, events uint32) error {
	y()
	e := k.get(epfd)
	if e == nil || e.kind != "epoll" {
		return syscall.EBADF
	}
	f := k.get(fd)
	if f == nil {
		return syscall.EBADF
	}
	if f.kind == "null" {
		return syscall.EPERM
	}
	switch op {
	case syscall.EPOLL_CTL_ADD:
		e.reg = append(e.reg, fd)
	case syscall.EPOLL_CTL_DEL:
		for i, x := range e.reg {
			if x == fd {
				e.reg = append(e.reg[:i:i], e.reg[i+1:]...)
				break
			}
		}
	}
	return nil
}

func (k *kernel) EpollWait(epfd, maxn, msec int) ([]int32, []uint32, error) {
	y()
	e := k.get(epfd)
	if e == nil || e.kind != "epoll" {
		return nil, nil, syscall.EBADF
	}
	if k.eintr() {
		return nil, nil, syscall.EINTR
	}
	var deadline <-chan time.Time
	if msec >= 0 {
		deadline = time.After(time.Duration(msec) * time.Millisecond)
	}
	for {
		var ready []int32
		for _, fd := range e.reg {
			f := k.get(fd)
			if f == nil {
				continue
			}
			switch f.kind {
			case "tty":
				if k.inputReady() {
					ready = append(ready, int32(fd))
				}
			case "pipeR":
				if len(f.p.buf) > 0 || f.p.closed {
					ready = append(ready, int32(fd))
				}
			}
		}
		if len(ready) > 0 {
			if len(ready) > 1 { // whoever became ready first; any order is legal
				i := k.r.n(len(ready))
				ready[0], ready[i] = ready[i], ready[0]
			}
			if len(ready) > maxn {
				ready = ready[:maxn]
			}
			evs := make([]uint32, len(ready))
			for i := range evs {
				evs[i] = syscall.EPOLLIN
			}
			return ready, evs, nil
		}
		if msec >= 0 {
			c := make(chan struct{})
			k.wait = append(k.wait, c)
			select {
			case <-c:
			case <-deadline:
				return nil, nil, nil
			}
			continue
		}
		k.block()
		if !e.open {
			return nil, nil, syscall.EBADF
		}
	}
}

// resize changes the window and tells the foreground process.
func (k *kernel) resize(w, h int) {
	k.w, k.h_ = w, h
	k.vt.resize(w, h)
	k.shadow = regrid(k.shadow, w, h)
	k.fault("resize")
	if k.cfg.SigDelay {
		go func() {
			y()
			signal.SimRaise(syscall.SIGWINCH)
		}()
		return
	}
	signal.SimRaise(syscall.SIGWINCH)
}

// openFds counts descriptors other than the standard ones.
func (k *kernel) openFds() int {
	n := 0
	for fd, f := range k.fds {
		if fd >= k.base+3 && f.open {
			n++
		}
	}
	return n
}
