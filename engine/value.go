package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of the symbolic machine. Integers and booleans are *Term.
type Val interface{}

type Ptr struct {
	obj  int // 0: nil
	path string
}

type Slice struct {
	obj           int // 0: nil
	path          string
	off, len, cap int
}

type MapRef struct{ obj int }

type Iface struct {
	t types.Type // nil: nil interface
	v Val
}

type Fn struct {
	f    *ssa.Function
	bind []Val
	b    *ssa.Builtin
}

type Struct struct{ f []Val } // struct or array value; never modified in place

type Tuple []Val

type MapData struct {
	keys, vals []Val
}

type MapIter struct {
	m    int
	str  *Str
	pos  int
	done string // keys already produced (indices)
	left []int
}

// TimeV is a time.Time: an instant and the zone it is expressed in.
type TimeV struct {
	days, sec, ns *Term // UTC: days since 0001-01-01, second of the day, nanosecond
	zone          ZoneV
	// civil date and time in the zone, when known
	y, mo, d *Term
	lsec     *Term // second of the local day
}

type ZoneV struct {
	kind int // 0 UTC, 1 fixed offset, 2 local
	off  *Term
}

type Rx struct{ r *Regex }

type BigFloat struct {
	mant *Term // integer value is mant * 10^exp10, exactly
	exp  int
	huge bool // |value| exceeds every bound that matters (nonzero mantissa, large exponent)
	neg  *Term
}

type BigInt struct{ v *Term }

type Builder struct{ s Str }

type Float struct{ f float64 }

type Unk struct{ why string } // a value nothing is known about and nothing may be done with

// ---- strings

type AKind uint8

const (
	ALit AKind = iota
	AChar
	ASeg
	ALang
	AFmt
	AOpq
)

type Atom struct {
	kind  AKind
	lit   string // ALit (valid per symbol)
	t     *Term  // AChar: symbol; AFmt: value; ASeg: length
	id    int    // ASeg, ALang, AOpq
	set   RSet   // ASeg
	width int    // AFmt: zero-padded width (0: none); negative values as fmt does
	tag   string // AOpq: kind; AFmt: "fmt" or "app" (time's appendInt)
	args  []Val  // AOpq
}

type Str struct{ a []Atom }

func lit(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{[]Atom{{kind: ALit, lit: s}}}
}

func (s Str) isLit() (string, bool) {
	switch len(s.a) {
	case 0:
		return "", true
	case 1:
		if s.a[0].kind == ALit {
			return s.a[0].lit, true
		}
	}
	return "", false
}

func concatStr(xs ...Str) Str {
	var out []Atom
	for _, x := range xs {
		for _, a := range x.a {
			if a.kind == ALit {
				if a.lit == "" {
					continue
				}
				if n := len(out); n > 0 && out[n-1].kind == ALit {
					// never join across an incomplete encoding boundary: symbols are kept by
					// only joining ASCII or complete runes, which all literals are
					out[n-1].lit += a.lit
					continue
				}
			}
			out = append(out, a)
		}
	}
	return Str{out}
}

func (a Atom) key() string {
	switch a.kind {
	case ALit:
		return fmt.Sprintf("%q", a.lit)
	case AChar:
		return fmt.Sprintf("c%d", a.t.id)
	case ASeg:
		return fmt.Sprintf("s%d", a.id)
	case ALang:
		return fmt.Sprintf("L%d", a.id)
	case AFmt:
		return fmt.Sprintf("f%d:%d%s", a.t.id, a.width, a.tag)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "o%s%d(", a.tag, a.id)
	for _, v := range a.args {
		sb.WriteString(valKey(v) + ";")
	}
	return sb.String() + ")"
}

func (s Str) key() string {
	var sb strings.Builder
	for _, a := range s.a {
		sb.WriteString(a.key())
		sb.WriteByte(' ')
	}
	return sb.String()
}

func (s Str) String() string {
	var sb strings.Builder
	for _, a := range s.a {
		switch a.kind {
		case ALit:
			sb.WriteString(a.lit)
		case AChar:
			sb.WriteString("<" + a.t.str(2) + ">")
		case ASeg:
			fmt.Fprintf(&sb, "<%s*#%d>", a.set, a.id)
		case ALang:
			fmt.Fprintf(&sb, "<L%d>", a.id)
		case AFmt:
			fmt.Fprintf(&sb, "<fmt%d %s>", a.width, a.t.str(2))
		default:
			fmt.Fprintf(&sb, "<%s>", a.key())
		}
	}
	return sb.String()
}

func valKey(v Val) string {
	switch v := v.(type) {
	case *Term:
		return fmt.Sprintf("t%d", v.id)
	case Str:
		return "\"" + v.key() + "\""
	case Ptr:
		return fmt.Sprintf("p%d/%s", v.obj, v.path)
	case Slice:
		return fmt.Sprintf("S%d/%s:%d,%d,%d", v.obj, v.path, v.off, v.len, v.cap)
	case MapRef:
		return fmt.Sprintf("m%d", v.obj)
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return "i" + v.t.String() + ":" + valKey(v.v)
	case Fn:
		s := "fn"
		if v.f != nil {
			s += v.f.String()
		}
		if v.b != nil {
			s += v.b.Name()
		}
		for _, b := range v.bind {
			s += "," + valKey(b)
		}
		return s
	case Struct:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range v.f {
			sb.WriteString(valKey(f) + ",")
		}
		return sb.String() + "}"
	case Tuple:
		return "T" + valKey(Struct{[]Val(v)})
	case TimeV:
		return "time" + valKey(v.days) + valKey(v.sec) + valKey(v.ns) + fmt.Sprint(v.zone.kind) + valKey(v.zone.off)
	case Rx:
		return "rx" + v.r.src
	case MapData:
		return "M" + valKey(Struct{v.keys}) + valKey(Struct{v.vals})
	case Builder:
		return "B" + v.s.key()
	case BigFloat:
		return fmt.Sprintf("bf%s,%d,%v,%s", valKey(v.mant), v.exp, v.huge, valKey(v.neg))
	case BigInt:
		return "bi" + valKey(v.v)
	case Float:
		return fmt.Sprintf("F%g", v.f)
	case MapIter:
		s := ""
		if v.str != nil {
			s = v.str.key()
		}
		return fmt.Sprintf("it%d,%s,%d,%v", v.m, s, v.pos, v.left)
	case ByteStr:
		return "by" + v.s.key()
	case *JDoc:
		return "j" + v.key()
	case nil:
		return "-"
	case Unk:
		return "?" + v.why
	case ZoneV:
		return fmt.Sprintf("z%d%s", v.kind, valKey(v.off))
	}
	return fmt.Sprintf("%T", v)
}

// sameVal: syntactic identity.
func sameVal(a, b Val) bool {
	if ta, ok := a.(*Term); ok {
		tb, ok := b.(*Term)
		return ok && ta == tb
	}
	switch x := a.(type) {
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return valKey(a) == valKey(b)
}

// ---- types

func isUint32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

func isTimeTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Time" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
}

func namedIs(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func intRange(t types.Type) (lo, hi *big.Int, bits int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil, 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		bits, signed = 64, true
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32, types.UntypedRune:
		bits, signed = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	default:
		return nil, nil, 0, false
	}
	if signed {
		hi = new(big.Int).Lsh(bigOne, uint(bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, bigOne)
		return
	}
	lo = new(big.Int)
	hi = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne)
	return
}

func typeIval(t types.Type) ival {
	lo, hi, bits, _ := intRange(t)
	if bits == 0 {
		return fullIv
	}
	return ival{lo: ivConst(lo).lo, hi: ivConst(hi).hi, loInf: ivConst(lo).loInf, hiInf: ivConst(hi).hiInf}
}

func (c *TCtx) zeroTime() TimeV {
	z := c.Int(0)
	return TimeV{days: z, sec: z, ns: z, zone: ZoneV{0, z}, y: c.Int(1), mo: c.Int(1), d: c.Int(1), lsec: z}
}

func (x *Ex) zero(t types.Type) Val {
	if isTimeTime(t) {
		return x.c.zeroTime()
	}
	switch {
	case namedIs(t, "strings", "Builder"):
		return Builder{}
	case namedIs(t, "math/big", "Int"):
		return BigInt{x.c.Int(0)}
	case namedIs(t, "math/big", "Float"):
		return BigFloat{mant: x.c.Int(0), neg: x.c.F}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsBoolean != 0:
			return x.c.F
		case u.Kind() == types.Uint32:
			return x.c.BV(new(big.Int))
		case u.Info()&types.IsInteger != 0:
			return x.c.Int(0)
		case u.Info()&types.IsFloat != 0:
			return Float{0}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return Fn{}
	case *types.Chan:
		return Unk{"channel"}
	case *types.Struct:
		s := Struct{make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<16 {
			return Unk{"large array"}
		}
		s := Struct{make([]Val, u.Len())}
		for i := range s.f {
			s.f[i] = x.zero(u.Elem())
		}
		return s
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = x.zero(u.At(i).Type())
		}
		return s
	}
	return Unk{"zero of " + t.String()}
}
