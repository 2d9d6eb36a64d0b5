package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/timtadh/data-structures/types"
)

// itemEnc encodes 1..n as items of one type, in ascending order, together with
// the codec of that type.
type itemEnc struct {
	name   string
	keyEnc // used when there is no fixed list of values
	vals   []types.Hashable
	codec  func() (types.ItemMarshal, types.ItemUnmarshal)
}

func (e itemEnc) item(i int) types.Hashable {
	if e.vals != nil {
		return e.vals[i-1]
	}
	return e.keyEnc.to(i)
}

// code is the inverse of item, -1 for anything else. It does not use the
// library's comparisons.
func (e itemEnc) code(x types.Hashable) (c int) {
	defer func() {
		if recover() != nil {
			c = -1
		}
	}()
	if x == nil {
		return -1
	}
	if e.vals == nil {
		return e.keyEnc.from(x)
	}
	for i, v := range e.vals {
		if sameItem(v, x) {
			return i + 1
		}
	}
	return -1
}

func sameItem(a, b types.Hashable) bool {
	if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		return false
	}
	if x, ok := a.(types.ByteSlice); ok {
		return string(x) == string(b.(types.ByteSlice))
	}
	if x, ok := a.(*blob); ok {
		return *x == *b.(*blob)
	}
	return a == b
}

// blob is a user defined item serialized through types.MakeMarshals
type blob struct {
	a int32
	b uint16
}

func (x *blob) Equals(o types.Equatable) bool {
	y, ok := o.(*blob)
	return ok && *x == *y
}
func (x *blob) Less(o types.Sortable) bool {
	y, ok := o.(*blob)
	return ok && (x.a < y.a || x.a == y.a && x.b < y.b)
}
func (x *blob) Hash() int { return int(x.a) ^ int(x.b) }
func (x *blob) MarshalBinary() ([]byte, error) {
	a := uint32(x.a)
	return []byte{byte(a), byte(a >> 8), byte(a >> 16), byte(a >> 24), byte(x.b), byte(x.b >> 8)}, nil
}
func (x *blob) UnmarshalBinary(d []byte) error {
	if len(d) != 6 {
		return fmt.Errorf("length %d", len(d))
	}
	x.a = int32(uint32(d[0]) | uint32(d[1])<<8 | uint32(d[2])<<16 | uint32(d[3])<<24)
	x.b = uint16(d[4]) | uint16(d[5])<<8
	return nil
}

var itemEncs = map[string]itemEnc{}

// initItems runs after the key encodings are known
func initItems() {
	add := func(name string, codec func() (types.ItemMarshal, types.ItemUnmarshal), vals ...types.Hashable) {
		itemEncs[name] = itemEnc{name: name, vals: vals, codec: codec}
	}
	add("Int8", types.Int8Marshals, types.Int8(math.MinInt8), types.Int8(-1), types.Int8(0), types.Int8(1), types.Int8(math.MaxInt8))
	add("UInt8", types.UInt8Marshals, types.UInt8(0), types.UInt8(1), types.UInt8(127), types.UInt8(128), types.UInt8(255))
	add("Int16", types.Int16Marshals, types.Int16(math.MinInt16), types.Int16(-1), types.Int16(0), types.Int16(255), types.Int16(math.MaxInt16))
	add("UInt16", types.UInt16Marshals, types.UInt16(0), types.UInt16(1), types.UInt16(255), types.UInt16(256), types.UInt16(65535))
	add("Int32", types.Int32Marshals, types.Int32(math.MinInt32), types.Int32(-1), types.Int32(0), types.Int32(1<<16), types.Int32(math.MaxInt32))
	add("UInt32", types.UInt32Marshals, types.UInt32(0), types.UInt32(1), types.UInt32(1<<16), types.UInt32(1<<31), types.UInt32(math.MaxUint32))
	add("Int64", types.Int64Marshals, types.Int64(math.MinInt64), types.Int64(-1), types.Int64(0), types.Int64(1<<32), types.Int64(math.MaxInt64))
	add("UInt64", types.UInt64Marshals, types.UInt64(0), types.UInt64(1), types.UInt64(1<<32), types.UInt64(1<<63), types.UInt64(math.MaxUint64))
	add("Int", types.IntMarshals, types.Int(math.MinInt64), types.Int(-1), types.Int(0), types.Int(1<<40), types.Int(math.MaxInt64))
	add("UInt", types.UIntMarshals, types.UInt(0), types.UInt(1), types.UInt(1<<40), types.UInt(1<<63), types.UInt(math.MaxUint64))
	add("String", types.StringMarshals, types.String(""), types.String("\x00"), types.String("a"), types.String("a\xff"), types.String("\xff\xfe long enough to need more than a few bytes"))
	add("ByteSlice", types.ByteSliceMarshals, types.ByteSlice(""), types.ByteSlice("\x00"), types.ByteSlice("a"), types.ByteSlice("a\xff"), types.ByteSlice("\xff\xfe long enough to need more than a few bytes"))
	add("blob", func() (types.ItemMarshal, types.ItemUnmarshal) {
		return types.MakeMarshals(func() types.MHashable { return &blob{} })
	}, &blob{math.MinInt32, 7}, &blob{-1, 0}, &blob{0, 65535}, &blob{1, 1}, &blob{math.MaxInt32, 9})
	long := func(n int) types.Hashable { return types.String(strings.Repeat("x", n)) }
	add("long", types.StringMarshals, long(127), long(255), long(256), long(65535), long(65537))
	// many values of one type, for long lists
	for _, n := range []string{"int", "nat", "str", "bytes", "i64"} {
		e := itemEnc{name: n, keyEnc: keyEncs[n]}
		switch n {
		case "int", "nat":
			e.codec = types.IntMarshals
		case "str":
			e.codec = types.StringMarshals
		case "bytes":
			e.codec = types.ByteSliceMarshals
		case "i64":
			e.codec = types.Int64Marshals
		}
		itemEncs[n] = e
	}
	for _, n := range []string{"same", "neg", "sign", "ext", "pow", "mix"} {
		itemEncs[n] = itemEnc{name: n, keyEnc: keyEncs[n]}
	}
}

// entries: items that are map entries
func entryEnc(name string) itemEnc {
	k := keyEncs[name]
	return itemEnc{name: "entry" + name, keyEnc: keyEnc{
		name: "entry" + name,
		to:   func(i int) types.Hashable { return &types.MapEntry{k.to(i), i} },
		from: func(x types.Hashable) int {
			e := x.(*types.MapEntry)
			if v, ok := e.Value.(int); !ok || v != k.from(e.Key) {
				return -1
			}
			return k.from(e.Key)
		}}}
}

func collect(it types.KIterator, e itemEnc) (r []int, ok bool) {
	r = []int{}
	for x, next := it(); next != nil; x, next = next() {
		r = append(r, e.code(x))
		if len(r) > iterCap {
			return nil, false
		}
	}
	return r, true
}

func iterOf(xs []int, e itemEnc) (it types.KIterator) {
	i := 0
	it = func() (types.Hashable, types.KIterator) {
		if i >= len(xs) {
			return nil, nil
		}
		i++
		return e.item(xs[i-1]), it
	}
	return it
}
