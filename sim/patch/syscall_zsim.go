// Simulated kernel hooks, added to package syscall by the build overlay.

package syscall

import "unsafe"

// SimFdBase is the first file descriptor number that belongs to the simulated
// kernel. The real kernel never hands out numbers this large.
const SimFdBase = 1 << 24

// SimKernelT is the simulated kernel.
type SimKernelT interface {
	Open(path string, mode int) (fd int, err error, ok bool)
	Read(fd int, p []byte) (int, error)
	Write(fd int, p []byte) (int, error)
	Close(fd int) error
	Pipe(p []int) (err error, ok bool)
	Ioctl(fd int, req uint, arg unsafe.Pointer) error
	EpollCreate() (fd int, ok bool)
	EpollCtl(epfd, op, fd int, events uint32) error
	EpollWait(epfd int, max int, msec int) (fds []int32, events []uint32, err error)
}

var SimKernel SimKernelT

func SimFd(fd int) bool { return fd >= SimFdBase && SimKernel != nil }
