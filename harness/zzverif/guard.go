package zzverif

import "syscall"

// Guard is Bytes in a page of its own between inaccessible pages: at its
// start (place 0), at its end (1) or a few bytes after its start (2: one,
// 3: four).
func Guard(name string, n, place int) []byte {
	pg := syscall.Getpagesize()
	m, err := syscall.Mmap(-1, 0, 3*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	syscall.Mprotect(m[:pg], syscall.PROT_NONE)
	syscall.Mprotect(m[2*pg:], syscall.PROT_NONE)
	off := pg
	switch place {
	case 1:
		off = 2*pg - n
	case 2:
		off = pg + 1
	case 3:
		off = pg + 4
	}
	b := m[off : off+n : off+n]
	copy(b, Bytes(name, n))
	return b
}
