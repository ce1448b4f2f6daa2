// Package rlp is the runtime the generated code is compiled against: the part
// of go-ethereum's rlp package that generated code calls, with its contract.
package rlp

import (
	"errors"
	"io"
	"math/big"
)

type Encoder interface{ EncodeRLP(io.Writer) error }
type Decoder interface{ DecodeRLP(*Stream) error }
type RawValue []byte
type Kind int8

const (
	Byte Kind = iota
	String
	List
)

var (
	EmptyString = []byte{0x80}
	EmptyList   = []byte{0xC0}

	ErrNegativeBigInt = errors.New("rlp: cannot encode negative big.Int")
	ErrCanonSize      = errors.New("rlp: non-canonical size information")
	ErrCanonInt       = errors.New("rlp: non-canonical integer format")
	ErrExpectedList   = errors.New("rlp: expected List")
	ErrExpectedString = errors.New("rlp: expected String or Byte")
	ErrElemTooLarge   = errors.New("rlp: element is larger than containing list")
	ErrUintOverflow   = errors.New("rlp: uint overflow")
	ErrBool           = errors.New("rlp: invalid boolean value")
	ErrSize           = errors.New("rlp: input string has the wrong length")
	ErrNotInList      = errors.New("rlp: call of ListEnd outside of any list")
	ErrNotAtEOL       = errors.New("rlp: call of ListEnd not positioned at EOL")
	EOL               = errors.New("rlp: end of list")
)

type buf struct{ stack [][]byte }

// EncoderBuffer collects one value.
type EncoderBuffer struct {
	b   *buf
	dst io.Writer
}

func NewEncoderBuffer(dst io.Writer) EncoderBuffer {
	if eb, ok := dst.(EncoderBuffer); ok {
		return EncoderBuffer{b: eb.b}
	}
	return EncoderBuffer{b: &buf{stack: [][]byte{nil}}, dst: dst}
}

func (w EncoderBuffer) add(p ...byte) {
	i := len(w.b.stack) - 1
	w.b.stack[i] = append(w.b.stack[i], p...)
}

func (w EncoderBuffer) Write(p []byte) (int, error) { w.add(p...); return len(p), nil }

func (w EncoderBuffer) List() int {
	w.b.stack = append(w.b.stack, nil)
	return len(w.b.stack) - 1
}

func (w EncoderBuffer) ListEnd(mark int) {
	if mark != len(w.b.stack)-1 || mark == 0 {
		panic("ListEnd does not match the open List")
	}
	p := w.b.stack[mark]
	w.b.stack = w.b.stack[:mark]
	w.add(header(0xC0, len(p))...)
	w.add(p...)
}

func (w EncoderBuffer) Flush() error {
	if w.dst == nil {
		return nil
	}
	if len(w.b.stack) != 1 {
		panic("Flush inside a List")
	}
	_, err := w.dst.Write(w.b.stack[0])
	return err
}

func header(base byte, n int) []byte {
	if n < 56 {
		return []byte{base + byte(n)}
	}
	s := new(big.Int).SetInt64(int64(n)).Bytes()
	return append([]byte{base + 55 + byte(len(s))}, s...)
}

func (w EncoderBuffer) WriteBool(b bool) {
	if b {
		w.add(1)
	} else {
		w.add(0x80)
	}
}

func (w EncoderBuffer) WriteUint64(v uint64)   { w.WriteBytes(new(big.Int).SetUint64(v).Bytes()) }
func (w EncoderBuffer) WriteBigInt(v *big.Int) { w.WriteBytes(v.Bytes()) }
func (w EncoderBuffer) WriteString(s string)   { w.WriteBytes([]byte(s)) }
func (w EncoderBuffer) WriteBytes(p []byte) {
	if len(p) == 1 && p[0] < 0x80 {
		w.add(p[0])
		return
	}
	w.add(header(0x80, len(p))...)
	w.add(p...)
}

// Stream reads values from a byte slice.
type Stream struct {
	in     []byte
	pos    int
	limits []int // ends of the open lists

	pending bool
	kind    Kind
	size    int
	byteval byte
}

func NewBytesStream(in []byte) *Stream { return &Stream{in: in} }

// Rest is the number of unread bytes.
func (s *Stream) Rest() int { return len(s.in) - s.pos }

// Open is the number of open lists.
func (s *Stream) Open() int { return len(s.limits) }

func (s *Stream) end() int {
	if n := len(s.limits); n > 0 {
		return s.limits[n-1]
	}
	return len(s.in)
}

func (s *Stream) take(n int) ([]byte, error) {
	if n < 0 || n > s.end()-s.pos {
		if len(s.limits) > 0 {
			return nil, ErrElemTooLarge
		}
		return nil, io.ErrUnexpectedEOF
	}
	p := s.in[s.pos : s.pos+n]
	s.pos += n
	return p, nil
}

// Kind reports the next value; it stays the next value until it is read.
func (s *Stream) Kind() (Kind, uint64, error) {
	if s.pending {
		return s.kind, uint64(s.size), nil
	}
	if s.pos >= s.end() {
		if len(s.limits) > 0 {
			return 0, 0, EOL
		}
		return 0, 0, io.EOF
	}
	h, err := s.take(1)
	if err != nil {
		return 0, 0, err
	}
	b := h[0]
	long := func(base byte) (int, error) {
		p, err := s.take(int(b - base))
		if err != nil {
			return 0, err
		}
		if p[0] == 0 {
			return 0, ErrCanonSize
		}
		n := new(big.Int).SetBytes(p)
		if n.Cmp(big.NewInt(56)) < 0 {
			return 0, ErrCanonSize
		}
		if !n.IsInt64() || n.Int64() > int64(s.end()-s.pos) {
			return 0, ErrElemTooLarge
		}
		return int(n.Int64()), nil
	}
	s.byteval = 0
	switch {
	case b < 0x80:
		s.kind, s.size, s.byteval = Byte, 0, b
	case b < 0xB8:
		s.kind, s.size = String, int(b-0x80)
	case b < 0xC0:
		s.kind = String
		s.size, err = long(0xB7)
	case b < 0xF8:
		s.kind, s.size = List, int(b-0xC0)
	default:
		s.kind = List
		s.size, err = long(0xF7)
	}
	if err == nil && s.size > s.end()-s.pos {
		err = ErrElemTooLarge
	}
	if err != nil {
		return 0, 0, err
	}
	s.pending = true
	return s.kind, uint64(s.size), nil
}

func (s *Stream) List() (uint64, error) {
	k, n, err := s.Kind()
	if err != nil {
		return 0, err
	}
	if k != List {
		return 0, ErrExpectedList
	}
	s.pending = false
	s.limits = append(s.limits, s.pos+int(n))
	return n, nil
}

func (s *Stream) ListEnd() error {
	if len(s.limits) == 0 {
		return ErrNotInList
	}
	if s.pending || s.pos != s.end() {
		return ErrNotAtEOL
	}
	s.limits = s.limits[:len(s.limits)-1]
	return nil
}

func (s *Stream) MoreDataInList() bool {
	return len(s.limits) > 0 && (s.pos < s.end() || s.pending)
}

func (s *Stream) Bytes() ([]byte, error) {
	k, n, err := s.Kind()
	if err != nil {
		return nil, err
	}
	switch k {
	case Byte:
		s.pending = false
		return []byte{s.byteval}, nil
	case String:
		p, err := s.take(int(n))
		if err != nil {
			return nil, err
		}
		s.pending = false
		if n == 1 && p[0] < 0x80 {
			return nil, ErrCanonSize
		}
		return append([]byte{}, p...), nil
	}
	return nil, ErrExpectedString
}

func (s *Stream) ReadBytes(dst []byte) error {
	k, n, err := s.Kind()
	if err != nil {
		return err
	}
	switch k {
	case Byte:
		if len(dst) != 1 {
			return ErrSize
		}
		s.pending = false
		dst[0] = s.byteval
		return nil
	case String:
		if int(n) != len(dst) {
			return ErrSize
		}
		p, err := s.take(len(dst))
		if err != nil {
			return err
		}
		s.pending = false
		copy(dst, p)
		if n == 1 && dst[0] < 0x80 {
			return ErrCanonSize
		}
		return nil
	}
	return ErrExpectedString
}

func (s *Stream) String() (string, error) {
	b, err := s.Bytes()
	return string(b), err
}

func (s *Stream) uint(bits int) (uint64, error) {
	k, n, err := s.Kind()
	if err != nil {
		return 0, err
	}
	switch k {
	case Byte:
		if s.byteval == 0 {
			return 0, ErrCanonInt
		}
		s.pending = false
		return uint64(s.byteval), nil
	case String:
		if int(n) > bits/8 {
			return 0, ErrUintOverflow
		}
		p, err := s.take(int(n))
		if err != nil {
			return 0, err
		}
		s.pending = false
		var v uint64
		for _, b := range p {
			v = v<<8 | uint64(b)
		}
		if n > 0 && p[0] == 0 {
			return 0, ErrCanonInt
		}
		if n == 1 && v < 0x80 {
			return 0, ErrCanonSize
		}
		return v, nil
	}
	return 0, ErrExpectedString
}

func (s *Stream) Uint64() (uint64, error) { return s.uint(64) }
func (s *Stream) Uint32() (uint32, error) { v, err := s.uint(32); return uint32(v), err }
func (s *Stream) Uint16() (uint16, error) { v, err := s.uint(16); return uint16(v), err }
func (s *Stream) Uint8() (uint8, error)   { v, err := s.uint(8); return uint8(v), err }

func (s *Stream) Bool() (bool, error) {
	v, err := s.uint(8)
	if err != nil {
		return false, err
	}
	if v > 1 {
		return false, ErrBool
	}
	return v == 1, nil
}

func (s *Stream) BigInt() (*big.Int, error) {
	b, err := s.Bytes()
	if err != nil {
		return nil, err
	}
	if len(b) > 0 && b[0] == 0 {
		return nil, ErrCanonInt
	}
	return new(big.Int).SetBytes(b), nil
}

// Raw reads the next value, header included. Its result is named so that
// pointers to raw values compile.
func (s *Stream) Raw() (RawValue, error) {
	k, n, err := s.Kind()
	if err != nil {
		return nil, err
	}
	s.pending = false
	if k == Byte {
		return RawValue{s.byteval}, nil
	}
	p, err := s.take(int(n))
	if err != nil {
		return nil, err
	}
	base := byte(0x80)
	if k == List {
		base = 0xC0
	}
	return append(header(base, len(p)), p...), nil
}
