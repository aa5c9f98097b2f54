package fw

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

func ioctl(fd uintptr, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

// Pty opens a terminal that changes nothing of what is written to it
func Pty() (master, slave *os.File, err error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	master = os.NewFile(uintptr(fd), "ptmx")
	var n, unlock uint32
	const unlockPty, numberOfPty, windowSize = 0x40045431, 0x80045430, 0x5414
	if err = ioctl(uintptr(fd), unlockPty, unsafe.Pointer(&unlock)); err == nil {
		err = ioctl(uintptr(fd), numberOfPty, unsafe.Pointer(&n))
	}
	if err == nil {
		slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	var t syscall.Termios
	if err = ioctl(slave.Fd(), syscall.TCGETS, unsafe.Pointer(&t)); err == nil {
		t.Oflag &^= syscall.OPOST
		t.Lflag &^= syscall.ECHO
		err = ioctl(slave.Fd(), syscall.TCSETS, unsafe.Pointer(&t))
	}
	size := [4]uint16{5, 30, 0, 0}
	if err == nil {
		err = ioctl(slave.Fd(), windowSize, unsafe.Pointer(&size))
	}
	if err != nil {
		master.Close()
		slave.Close()
		return nil, nil, err
	}
	return master, slave, nil
}
