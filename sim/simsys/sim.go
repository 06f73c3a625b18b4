// Package simsys takes the place of package syscall in the system under test.
package simsys

import (
	"syscall"

	"kmverif/simnet"
)

func Recvfrom(fd int, p []byte, flags int) (n int, from syscall.Sockaddr, err error) {
	n, errno, known := simnet.PeekFD(fd, p, flags&syscall.MSG_PEEK != 0)
	if !known {
		return -1, nil, syscall.EBADF
	}
	if errno != 0 {
		return -1, nil, errno
	}
	return n, nil, nil
}
