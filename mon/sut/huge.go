package sut

import (
	"fmt"
	"os"
	"syscall"
	"time"
	"unsafe"
)

// Tile is the period of Huge.
const Tile = 1 << 24

// Huge is n bytes of address space that repeat the tile (Tile bytes) over and
// over, with tail put over the end. It takes the memory of two tiles only.
func Huge(tile []byte, n int, tail string) (data []byte, free func(), err error) {
	if len(tile) != Tile || n < 2*Tile || len(tail) > Tile {
		panic("Huge: sizes")
	}
	f, err := os.CreateTemp(os.Getenv("VERIF_WORK"), "tile")
	if err != nil {
		return nil, nil, err
	}
	defer f.Close()
	os.Remove(f.Name())
	if _, err := f.Write(tile); err != nil {
		return nil, nil, err
	}
	size := (n + Tile - 1) / Tile * Tile
	base, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, uintptr(size), syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0), 0)
	if e != 0 {
		return nil, nil, fmt.Errorf("mmap: %w", e)
	}
	// What was read is given back soon, for the process not to look big.
	done, over := make(chan bool), make(chan bool)
	go func() {
		defer close(over)
		t := time.NewTicker(100 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				syscall.Syscall(syscall.SYS_MADVISE, base, uintptr(size-2*Tile), syscall.MADV_DONTNEED)
			}
		}
	}()
	free = func() {
		close(done)
		<-over
		syscall.Syscall(syscall.SYS_MUNMAP, base, uintptr(size), 0)
	}
	for at := 0; at < size; at += Tile {
		prot, flags := syscall.PROT_READ, syscall.MAP_SHARED
		if at+2*Tile >= size { // the last two, for the tail
			prot, flags = syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE
		}
		if _, _, e := syscall.Syscall6(syscall.SYS_MMAP, base+uintptr(at), Tile, uintptr(prot), uintptr(flags|syscall.MAP_FIXED), f.Fd(), 0); e != 0 {
			free()
			return nil, nil, fmt.Errorf("mmap: %w", e)
		}
	}
	data = unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&base))), n)
	copy(data[n-len(tail):], tail)
	return data, free, nil
}

// HugeString is the same memory as a string.
func HugeString(b []byte) string { return unsafe.String(&b[0], len(b)) }

// HugeSteps are advances of a split function that 31 or 32 bits do not hold.
// The tokens of HugeLen bytes are these.
var HugeSteps = []int{1, 1<<31 - 1, 3, 1 << 31, 2, 1<<32 + 1, 1, 1<<32 - 1, 255, 256, 65536, 1<<31 + 7, 1}

// HugeLen is the sum of HugeSteps.
func HugeLen() (n int) {
	for _, s := range HugeSteps {
		n += s
	}
	return n
}

// HugeCustom drives an iterator over data (HugeLen bytes) that has a split
// function with those advances.
func HugeCustom[T ~string | ~[]byte](it Iter[T], split func(func(T, bool) (int, T, error)), data T) error {
	var bad error
	split(func(rest T, eof bool) (int, T, error) {
		left := len(data)
		for _, s := range HugeSteps {
			if left == len(rest) {
				if !eof {
					bad = fmt.Errorf("the split function is called with %d bytes, not at the end", len(rest))
				}
				return s, rest[:s], nil
			}
			left -= s
		}
		bad = fmt.Errorf("the split function is called with %d bytes of %d", len(rest), len(data))
		return 1, rest[:1], nil
	})
	for round := 0; round < 2; round++ {
		pos := 0
		for _, s := range HugeSteps {
			if f := it.First(); bad != nil || len(f) != HugeSteps[0] {
				return fmt.Errorf("First has %d bytes, should be %d; %v", len(f), HugeSteps[0], bad)
			}
			if !it.Next() || bad != nil {
				return fmt.Errorf("Next at %d of %d bytes: %v", pos, len(data), bad)
			}
			if it.Start() != pos || it.End() != pos+s || len(it.Value()) != s {
				return fmt.Errorf("token [%d,%d) with a value of %d bytes, should be [%d,%d)", it.Start(), it.End(), len(it.Value()), pos, pos+s)
			}
			pos += s
		}
		if it.Next() {
			return fmt.Errorf("Next is true at the end")
		}
		it.Reset()
	}
	return nil
}
