package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value = any

type structV []value
type arrayV []value
type tupleV []value
type iface struct {
	t types.Type
	v value
}
type closure struct {
	fn   *ssa.Function
	free []value
}
type boundIntr struct { // intrinsic closure
	name string
	f    func(fr *frame, args []value) value
}

// symPtr: pointer into one of ptrs selected by idx (idx < len(ptrs) is implied by the path condition).
type symPtr struct {
	ptrs []*value
	idx  *Term
}

// hostObj: opaque host value held behind an interpreted pointer or interface.
type hostObj struct{ v any }

type segKind uint8

const (
	kLit  segKind = iota
	kByte         // one symbolic byte
	kDec          // decimal rendering of t (64 bit; signed unless uns)
	kAtom         // opaque non-empty string identified by t; contains no characters code inspects
)

type seg struct {
	k   segKind
	s   string
	t   *Term
	uns bool
}

// Rope is a string with symbolic parts; at least one non-literal segment.
type Rope struct{ segs []seg }

func (r *Rope) String() string {
	var sb strings.Builder
	for _, s := range r.segs {
		switch s.k {
		case kLit:
			sb.WriteString(s.s)
		case kByte:
			sb.WriteString("<byte " + s.t.String() + ">")
		case kDec:
			sb.WriteString("<dec " + s.t.String() + ">")
		case kAtom:
			sb.WriteString("<atom " + s.t.String() + ">")
		}
	}
	return sb.String()
}

func normRope(segs []seg) value {
	out := make([]seg, 0, len(segs))
	for _, s := range segs {
		if s.k == kByte && s.t.isConst() {
			s = seg{k: kLit, s: string([]byte{byte(s.t.v)})}
		}
		if s.k == kDec && s.t.isConst() {
			if s.uns {
				s = seg{k: kLit, s: fmt.Sprint(s.t.v)}
			} else {
				s = seg{k: kLit, s: fmt.Sprint(int64(s.t.v))}
			}
		}
		if s.k == kLit {
			if s.s == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].k == kLit {
				out[n-1].s += s.s
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return ""
	}
	if len(out) == 1 && out[0].k == kLit {
		return out[0].s
	}
	return &Rope{out}
}

func segsOf(v value) []seg {
	switch x := v.(type) {
	case string:
		if x == "" {
			return nil
		}
		return []seg{{k: kLit, s: x}}
	case *Rope:
		return x.segs
	}
	panic(fmt.Sprintf("segsOf %T", v))
}

func concatStr(a, b value) value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	s := append(append([]seg{}, segsOf(a)...), segsOf(b)...)
	return normRope(s)
}

// byteCells returns the string as one value per byte if its length is fixed.
func byteCells(v value) ([]value, bool) {
	switch x := v.(type) {
	case string:
		out := make([]value, len(x))
		for i := 0; i < len(x); i++ {
			out[i] = uint64(x[i])
		}
		return out, true
	case *Rope:
		var out []value
		for _, s := range x.segs {
			switch s.k {
			case kLit:
				for i := 0; i < len(s.s); i++ {
					out = append(out, uint64(s.s[i]))
				}
			case kByte:
				out = append(out, s.t)
			default:
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

func ropeFromCells(cells []value) value {
	allc := true
	for _, c := range cells {
		if _, ok := c.(uint64); !ok {
			allc = false
			break
		}
	}
	if allc {
		b := make([]byte, len(cells))
		for i, c := range cells {
			b[i] = byte(c.(uint64))
		}
		return string(b)
	}
	segs := make([]seg, 0, len(cells))
	for _, c := range cells {
		switch x := c.(type) {
		case uint64:
			segs = append(segs, seg{k: kLit, s: string([]byte{byte(x)})})
		case *Term:
			segs = append(segs, seg{k: kByte, t: x})
		case opaqueBytes:
			segs = append(segs, x.segs...)
		case opaquePad:
		default:
			panic(fmt.Sprintf("ropeFromCells %T", c))
		}
	}
	return normRope(segs)
}

// opaqueBytes is a []byte element that stands for a whole rope (byte count
// unknown); only conversion back to string, append and copy are allowed on it.
type opaqueBytes struct{ segs []seg }
type opaquePad struct{}

// ---- maps ----

type mapEnt struct {
	k, v value
	dead bool
}
type mapV struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	nsym int
	live int
}

func newMap() *mapV { return &mapV{idx: map[any]*mapEnt{}} }

type ifKey struct {
	t string
	k any
}

// hkey gives a comparable host key of a fully concrete value.
func hkey(v value) (any, bool) {
	switch x := v.(type) {
	case uint64, string, bool, float64, *value, *ssa.Function, *mapV, *chanV, *hostObj:
		return x, true
	case iface:
		if x.t == nil {
			return ifKey{}, true
		}
		k, ok := hkey(x.v)
		return ifKey{x.t.String(), k}, ok
	case structV:
		return hkeyAgg("s", []value(x))
	case arrayV:
		return hkeyAgg("a", []value(x))
	case nil:
		return nil, true
	case complex128:
		return x, true
	}
	return nil, false
}

func hkeyAgg(p string, vs []value) (any, bool) {
	var sb strings.Builder
	sb.WriteString(p)
	for _, v := range vs {
		k, ok := hkey(v)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "|%T:%v", k, k)
	}
	return sb.String(), true
}

// ---- type helpers ----

func under(t types.Type) types.Type { return t.Underlying() }

func bitsOf(t types.Type) (Sort, bool, bool) { // width, signed, isInt
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	}
	return 0, false
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structV, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(arrayV, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Map:
		return (*mapV)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Signature:
		return nil
	case *types.Interface:
		return iface{}
	case *types.Tuple:
		tv := make(tupleV, u.Len())
		for i := range tv {
			tv[i] = zero(u.At(i).Type())
		}
		return tv
	}
	panic(fmt.Sprintf("zero: %s", t))
}

// copyVal copies aggregates (value semantics).
func copyVal(v value) value {
	switch x := v.(type) {
	case structV:
		c := make(structV, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return c
	case arrayV:
		c := make(arrayV, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return c
	}
	return v
}
