package core

import (
	"errors"
	"io"
)

// ErrDisk is the injected I/O error.
var ErrDisk = errors.New("simulated I/O error")

// Reader is a simulated state stream. It fragments reads and fails as the
// seed says, within the io.Reader contract.
type Reader struct {
	B       []byte
	At      int
	FailAt  int   // -1: never; fails with Err when this many bytes were delivered
	Err     error // error delivered at FailAt
	Frag    int   // 0: whole reads, 1: one byte at a time, 2: random lengths
	Zero    bool  // sometimes return 0, nil
	WithErr bool  // deliver the error together with the last bytes
	R       *R
	Rec     *Rec
	Reads   int
}

func (s *Reader) end() (int, error) {
	if s.FailAt >= 0 && s.FailAt < len(s.B) {
		return s.FailAt, s.Err
	}
	return len(s.B), io.EOF
}

func (s *Reader) Read(p []byte) (int, error) {
	s.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	end, err := s.end()
	if s.At >= end {
		if err != io.EOF && s.Rec != nil {
			s.Rec.Fault("read-error")
		}
		return 0, err
	}
	if s.Zero && s.R.Chance(0.1) {
		if s.Rec != nil {
			s.Rec.Fault("empty-read")
		}
		return 0, nil
	}
	n := len(p)
	switch s.Frag {
	case 1:
		n = 1
	case 2:
		n = 1 + s.R.N(len(p))
	}
	if n < len(p) && s.Rec != nil {
		s.Rec.Fault("short-read")
	}
	if n > end-s.At {
		n = end - s.At
	}
	copy(p, s.B[s.At:s.At+n])
	s.At += n
	if s.At == end && s.WithErr {
		if err != io.EOF && s.Rec != nil {
			s.Rec.Fault("read-error")
		}
		return n, err
	}
	return n, nil
}

// Writer is a simulated state stream for saving.
type Writer struct {
	B      []byte
	FailAt int // -1: never
	Short  bool
	Rec    *Rec
	Fails  int
	Writes int
}

func (s *Writer) Write(p []byte) (int, error) {
	s.Writes++
	if s.FailAt >= 0 && len(s.B)+len(p) > s.FailAt {
		n := s.FailAt - len(s.B)
		if n < 0 || !s.Short {
			n = 0
		}
		s.B = append(s.B, p[:n]...)
		s.Fails++
		if s.Rec != nil {
			if n > 0 {
				s.Rec.Fault("torn-write")
			} else {
				s.Rec.Fault("write-error")
			}
		}
		return n, ErrDisk
	}
	s.B = append(s.B, p...)
	return len(p), nil
}
