package main

import (
	"bufio"
	"errors"
	"io"
	"os"
)

// A reader is often handed on inside another one.
var wrapNames = []string{"as it is", "bufio.Reader(16)", "bufio.Reader(64)", "bufio.Reader", "bufio.Reader(64 KiB)", "TeeReader", "LimitedReader", "MultiReader", "reader with WriteTo", "bufio.Reader on a reader with WriteTo", "ReadWriter"}

// behind is r inside another reader, which passes on what r gives and reports.
func behind(r io.Reader, how int64) io.Reader {
	switch how {
	case 1:
		return bufio.NewReaderSize(r, 16)
	case 2:
		return bufio.NewReaderSize(r, 64)
	case 3:
		return bufio.NewReader(r)
	case 4:
		return bufio.NewReaderSize(r, 1<<16)
	case 5:
		return io.TeeReader(r, io.Discard)
	case 6:
		return &io.LimitedReader{R: r, N: 1 << 40}
	case 7:
		return io.MultiReader(r)
	case 8:
		return &rich{r: r}
	case 9:
		return bufio.NewReaderSize(&rich{r: r}, 4096)
	case 10:
		return bufio.NewReadWriter(bufio.NewReader(r), bufio.NewWriter(io.Discard))
	}
	return r
}

// rich is a reader that also offers what many do.
type rich struct {
	r      io.Reader
	closed bool
}

func (r *rich) Read(p []byte) (int, error) { return r.r.Read(p) }

func (r *rich) WriteTo(w io.Writer) (int64, error) {
	var sum int64
	b := make([]byte, 512)
	for {
		n, err := r.r.Read(b)
		if n > 0 {
			m, werr := w.Write(b[:n])
			sum += int64(m)
			if werr != nil {
				return sum, werr
			}
		}
		if err == io.EOF {
			return sum, nil
		}
		if err != nil {
			return sum, err
		}
	}
}

func (r *rich) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 100; i++ {
		if n, err := r.r.Read(b[:]); n == 1 || err != nil {
			return b[0], err
		}
	}
	return 0, io.ErrNoProgress
}

func (r *rich) Close() error {
	r.closed = true
	return nil
}

// wasClosed tells whether a reader was closed by who was only to read it.
func wasClosed(r io.Reader) bool {
	switch r := r.(type) {
	case *rich:
		return r.closed
	case *refuser:
		return r.closed
	case *os.File:
		_, err := r.Seek(0, io.SeekCurrent)
		return errors.Is(err, os.ErrClosed)
	}
	return false
}
