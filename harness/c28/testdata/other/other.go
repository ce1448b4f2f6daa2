// Package other holds types of another package used by generated structs.
package other

import (
	"errors"
	"io"
	"math/big"

	"rlp"
)

type Address [20]byte
type Hash [32]byte
type Blob []byte
type Num uint32
type Name string
type Flag bool
type Inner struct {
	A      uint64
	B      []byte
	hidden bool
	Skip   int `rlp:"-"`
	C      *uint16 `rlp:"optional"`
}
type Deep struct {
	In  Inner
	Ptr *Inner `rlp:"nil"`
	L   []Inner
	N   Num
	I   *big.Int
}
type Nums []Num

// Custom encodes itself as a three-element list with a marker.
type Custom struct{ V byte }

func (c *Custom) EncodeRLP(w io.Writer) error {
	v := byte(0x7f)
	if c != nil {
		v = c.V
	}
	if v == 0x66 {
		return errors.New("custom: cannot encode this value")
	}
	_, err := w.Write([]byte{0xC4, 0x11, 0x81, 0x80 | v, 0x22})
	return err
}

func (c *Custom) DecodeRLP(s *rlp.Stream) error {
	if _, err := s.List(); err != nil {
		return err
	}
	a, err := s.Uint8()
	if err != nil {
		return err
	}
	v, err := s.Uint8()
	if err != nil {
		return err
	}
	b, err := s.Uint8()
	if err != nil {
		return err
	}
	if a != 0x11 || b != 0x22 || v < 0x80 {
		return errors.New("custom: wrong marker")
	}
	c.V = v & 0x7f
	return s.ListEnd()
}

type EncOnly struct{ A uint64 }

func (*EncOnly) EncodeRLP(io.Writer) error { return nil }

type DecOnly struct{ A uint64 }

func (*DecOnly) DecodeRLP(*rlp.Stream) error { return nil }

type DecVal struct{ A uint64 }

func (DecVal) DecodeRLP(*rlp.Stream) error { return nil }

type Iface interface{ M() }
