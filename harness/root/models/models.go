// Package models holds Go replacements for library functions the engine does
// not execute (see modelTable in the engine).
package models

import (
	"encoding/binary"
	"errors"
	"io"
	"sort"
	"sync"

	"github.com/youthlin/t/zzverif/sym"
)

// BinaryRead stands for binary.Read on fixed-size integers, structs, arrays and slices.
func BinaryRead(r io.Reader, order binary.ByteOrder, data any) error {
	p, ok := data.([]byte)
	if q, is := data.(*[]byte); is && q != nil {
		p, ok = *q, true
	}
	if ok {
		b := make([]byte, len(p))
		if _, err := io.ReadFull(r, b); err != nil {
			return err
		}
		copy(p, b)
		return nil
	}
	ws, ok := sym.XLeaves(data, false)
	if !ok {
		return errors.New("binary.Read: invalid type")
	}
	n := 0
	for _, w := range ws {
		n += w
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	for i, w := range ws {
		sym.XSetLeaf(data, i, get(order, b, w))
		b = b[w:]
	}
	return nil
}

func get(order binary.ByteOrder, b []byte, w int) uint64 {
	switch w {
	case 1:
		return uint64(b[0])
	case 2:
		return uint64(order.Uint16(b))
	case 4:
		return uint64(order.Uint32(b))
	}
	return order.Uint64(b)
}

// BinaryWrite stands for binary.Write.
func BinaryWrite(w io.Writer, order binary.ByteOrder, data any) error {
	if b, ok := data.([]byte); ok {
		_, err := w.Write(b)
		return err
	}
	out, ok := encode(order, data)
	if !ok {
		return errors.New("binary.Write: some values are not fixed-sized")
	}
	_, err := w.Write(out)
	return err
}

func encode(order binary.ByteOrder, data any) (out []byte, ok bool) {
	ws, ok := sym.XLeaves(data, true)
	if !ok {
		return nil, false
	}
	for i, k := range ws {
		v := sym.XGetLeaf(data, i)
		b := make([]byte, k)
		switch k {
		case 1:
			b[0] = byte(v)
		case 2:
			order.PutUint16(b, uint16(v))
		case 4:
			order.PutUint32(b, uint32(v))
		case 8:
			order.PutUint64(b, v)
		}
		out = append(out, b...)
	}
	return out, true
}

// BinarySize stands for binary.Size.
func BinarySize(data any) int {
	ws, ok := sym.XLeaves(data, true)
	if !ok {
		return -1
	}
	n := 0
	for _, w := range ws {
		n += w
	}
	return n
}

type sorter struct {
	x    any
	less func(i, j int) bool
}

func (s sorter) Len() int           { return sym.XLen(s.x) }
func (s sorter) Less(i, j int) bool { return s.less(i, j) }
func (s sorter) Swap(i, j int)      { sym.XSwap(s.x, i, j) }

// SortSlice, SortSliceStable and SortSliceIsSorted stand for their namesakes in sort.
func SortSlice(x any, less func(i, j int) bool)       { sort.Sort(sorter{x, less}) }
func SortSliceStable(x any, less func(i, j int) bool) { sort.Stable(sorter{x, less}) }
func SortSliceIsSorted(x any, less func(i, j int) bool) bool {
	return sort.IsSorted(sorter{x, less})
}

// ErrorsAs stands for errors.As.
func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	return as(err, target)
}

func as(err error, target any) bool {
	for {
		if sym.XAssign(target, err) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err != nil && as(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// SyncMapRange stands for (*sync.Map).Range.
func SyncMapRange(m *sync.Map, f func(k, v any) bool) {
	for _, k := range sym.XMapKeys(m) {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Swapper stands for reflect.Swapper.
func Swapper(x any) func(i, j int) {
	return func(i, j int) { sym.XSwap(x, i, j) }
}

// BinaryAppend, BinaryEncode and BinaryDecode stand for their namesakes in encoding/binary.
func BinaryAppend(buf []byte, order binary.ByteOrder, data any) ([]byte, error) {
	out, ok := encode(order, data)
	if !ok {
		return nil, errors.New("binary.Append: some values are not fixed-sized")
	}
	return append(buf, out...), nil
}

func BinaryEncode(buf []byte, order binary.ByteOrder, data any) (int, error) {
	out, ok := encode(order, data)
	if !ok {
		return 0, errors.New("binary.Encode: some values are not fixed-sized")
	}
	if len(buf) < len(out) {
		return 0, errors.New("buffer too small")
	}
	return copy(buf, out), nil
}

func BinaryDecode(buf []byte, order binary.ByteOrder, data any) (int, error) {
	ws, ok := sym.XLeaves(data, false)
	if !ok {
		return 0, errors.New("binary.Decode: invalid type")
	}
	n := 0
	for _, w := range ws {
		n += w
	}
	if len(buf) < n {
		return 0, errors.New("buffer too small")
	}
	for i, w := range ws {
		sym.XSetLeaf(data, i, get(order, buf, w))
		buf = buf[w:]
	}
	return n, nil
}

// ErrorsIs stands for errors.Is.
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target, sym.XComparable(target))
}

func is(err, target error, cmp bool) bool {
	for {
		if cmp && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if is(err, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}
