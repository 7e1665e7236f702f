package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// JDoc is a JSON text as a tree. The model of encoding/json below is assumed:
// it follows its documentation for structs, pointers, strings, integers,
// booleans and types with their own MarshalJSON and UnmarshalJSON, whose bodies
// are verified like any other code; anything else is not supported.
type JDoc struct {
	kind string // null, bool, num, str, raw, obj
	t    *Term  // bool, num
	s    Str    // str, raw
	keys []string
	vals []*JDoc
	pres []*Term // the member is there
}

func (d *JDoc) key() string {
	switch d.kind {
	case "bool", "num":
		return d.kind + valKey(d.t)
	case "str", "raw":
		return d.kind + d.s.key()
	}
	var sb strings.Builder
	sb.WriteString(d.kind)
	for i := range d.keys {
		fmt.Fprintf(&sb, "%q:%s?%s,", d.keys[i], d.vals[i].key(), valKey(d.pres[i]))
	}
	return sb.String()
}

type jfield struct {
	name  string
	omit  bool
	index int
	t     types.Type
}

// jfields are the members of a struct type in JSON.
func jfields(s *types.Struct) []jfield {
	var fs []jfield
	seen := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		v := s.Field(i)
		if v.Anonymous() {
			unsup("JSON of an embedded field")
		}
		if !v.Exported() {
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		f := jfield{name: parts[0], index: i, t: v.Type()}
		if f.name == "" {
			f.name = v.Name()
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				f.omit = true
			case "":
			default:
				unsup("JSON option %s", o)
			}
		}
		if seen[f.name] {
			unsup("JSON members with the same name")
		}
		seen[f.name] = true
		fs = append(fs, f)
	}
	return fs
}

func (x *Ex) hasMethod(t types.Type, name string) *ssa.Function {
	ms := x.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// jsonDoc encodes a value; at is its address, if it has one.
func (x *Ex) jsonDoc(st *State, v Val, t types.Type, at *Ptr) (*JDoc, Val) {
	c := x.c
	if p, ok := v.(Ptr); ok && p.obj == 0 {
		return &JDoc{kind: "null"}, nil
	}
	m := x.hasMethod(t, "MarshalJSON")
	arg := v
	if m == nil && at != nil {
		if m = x.hasMethod(types.NewPointer(t), "MarshalJSON"); m != nil {
			arg = *at
		}
	}
	if m != nil {
		r := x.callFrom(st, Fn{f: m}, []Val{arg}).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return nil, e
		}
		s := x.bytesStr(st, r[0])
		ok, err := compileRegex(`^(-?(0|[1-9][0-9]*)|null|true|false|"[ !#-\[\]-~]*")$`)
		if err != nil {
			unsup("%v", err)
		}
		number := len(s.a) == 1 && s.a[0].kind == AFmt && s.a[0].width == 0
		if !number && !x.decide(st, x.match(st, ok.full, s)) {
			return nil, x.newErr(st, lit("json: error calling MarshalJSON"))
		}
		return &JDoc{kind: "raw", s: s}, nil
	}
	if x.hasMethod(t, "MarshalText") != nil || at != nil && x.hasMethod(types.NewPointer(t), "MarshalText") != nil {
		unsup("MarshalText")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok {
			unsup("JSON of %T", v)
		}
		return x.jsonDoc(st, x.load(st, p), u.Elem(), &p)
	case *types.Interface:
		i, ok := v.(Iface)
		if !ok {
			unsup("JSON of %T", v)
		}
		if i.t == nil {
			return &JDoc{kind: "null"}, nil
		}
		return x.jsonDoc(st, i.v, i.t, nil)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s := str(st, v)
			x.needText(st, s)
			return &JDoc{kind: "str", s: s}, nil
		case u.Info()&types.IsBoolean != 0:
			return &JDoc{kind: "bool", t: trm(v)}, nil
		case u.Info()&types.IsInteger != 0:
			n := trm(v)
			if n.sort == SBV {
				n = c.BV2I(n)
			}
			return &JDoc{kind: "num", t: n}, nil
		}
	case *types.Struct:
		s, ok := v.(Struct)
		if !ok {
			unsup("JSON of %T", v)
		}
		d := &JDoc{kind: "obj"}
		for _, f := range jfields(u) {
			var fat *Ptr
			if at != nil {
				fat = &Ptr{at.obj, subPath(at.path, f.index)}
			}
			pres := c.T
			if f.omit {
				pres = x.notEmpty(st, s.f[f.index], f.t)
			}
			if pres.isFalse() {
				continue
			}
			e, err := x.jsonDoc(st, s.f[f.index], f.t, fat)
			if err != nil {
				return nil, err
			}
			d.keys = append(d.keys, f.name)
			d.vals = append(d.vals, e)
			d.pres = append(d.pres, pres)
		}
		return d, nil
	}
	unsup("JSON of type %v", t)
	return nil, nil
}

// needText makes sure that a string survives JSON: that it is valid UTF-8.
func (x *Ex) needText(st *State, s Str) {
	for _, a := range st.norm(s).a {
		if a.kind == AOpq && (a.tag == "time" || a.tag == "monthname") {
			continue
		}
		if a.kind == AOpq {
			unsup("JSON of opaque text %s", a.key())
		}
		if a.kind == AFmt {
			continue
		}
		d := x.atomLang(st, a)
		if !d.subset(validText()) {
			unsup("JSON of text that may not be valid UTF-8")
		}
	}
}

// atomLang is a language that holds all values of a piece of a string.
func (x *Ex) atomLang(st *State, a Atom) *DFA {
	switch a.kind {
	case ALang:
		return x.lang(st, a.id)
	case ALit:
		return litDFA(a.lit)
	case AChar:
		return setDFA(x.crange(a.t))
	case ASeg:
		return classStar(a.set)
	}
	unsup("text %s", a.key())
	return nil
}

var textDFA *DFA

func validText() *DFA {
	dfaMu.Lock()
	d := textDFA
	dfaMu.Unlock()
	if d == nil {
		d = classStar(RSet{{0, symBad - 1}})
		dfaMu.Lock()
		textDFA = d
		dfaMu.Unlock()
	}
	return d
}

// notEmpty is the condition under which omitempty keeps a value.
func (x *Ex) notEmpty(st *State, v Val, t types.Type) *Term {
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(Ptr)
		return c.Bool(!ok || p.obj != 0)
	case *types.Interface:
		return c.Bool(v.(Iface).t != nil)
	case *types.Struct:
		return c.T
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return c.Not(x.strEq(st, str(st, v), lit("")))
		case u.Info()&types.IsBoolean != 0:
			return trm(v)
		case u.Info()&types.IsInteger != 0:
			n := trm(v)
			if n.sort == SBV {
				n = c.BV2I(n)
			}
			return c.Not(c.Eq(n, c.Int(0)))
		}
	}
	unsup("omitempty of type %v", t)
	return nil
}

// jsonText is the text of a document other than an object.
func (x *Ex) jsonText(st *State, d *JDoc) Str {
	switch d.kind {
	case "null":
		return lit("null")
	case "bool":
		if x.decide(st, d.t) {
			return lit("true")
		}
		return lit("false")
	case "num":
		return fmtInt(d.t, 0, "fmt")
	case "raw":
		return d.s
	case "str":
		if x.plainText(st, d.s) {
			return concatStr(lit(`"`), d.s, lit(`"`))
		}
	}
	return Str{[]Atom{{kind: AOpq, tag: "json", args: []Val{d}}}}
}

// plainText tells whether a string needs no escapes.
func (x *Ex) plainText(st *State, s Str) bool {
	set := RSet{{' ', '!'}, {'#', '%'}, {'\'', ';'}, {'=', '='}, {'?', '['}, {']', '~'}}
	for _, a := range st.norm(s).a {
		if a.kind == AFmt || a.kind == AOpq && a.tag == "time" {
			continue
		}
		if a.kind == AOpq {
			return false
		}
		if !x.atomLang(st, a).minus(classStar(set)).isEmpty() {
			return false
		}
	}
	return true
}

// jsonInto decodes a document into the memory at p, of type t.
func (x *Ex) jsonInto(st *State, d *JDoc, pres *Term, t types.Type, p Ptr) Val {
	c := x.c
	whole := func() {
		if !pres.isTrue() {
			unsup("JSON of an optional member")
		}
	}
	if u, ok := t.Underlying().(*types.Pointer); ok {
		if d.kind == "null" {
			whole()
			x.checkFrame(st, p.obj)
			x.store(st, p, Ptr{})
			return nil
		}
		whole()
		q := x.load(st, p).(Ptr)
		if q.obj == 0 {
			q = Ptr{obj: x.newObj(st, x.zero(u.Elem()))}
			x.checkFrame(st, p.obj)
			x.store(st, p, q)
		}
		return x.jsonInto(st, d, pres, u.Elem(), q)
	}
	if m := x.hasMethod(types.NewPointer(t), "UnmarshalJSON"); m != nil {
		whole()
		r := x.callFrom(st, Fn{f: m}, []Val{p, x.bytesOf(st, x.jsonText(st, d))})
		if e, ok := r.(Iface); ok && e.t != nil {
			return e
		}
		return nil
	}
	if x.hasMethod(types.NewPointer(t), "UnmarshalText") != nil {
		unsup("UnmarshalText")
	}
	if d.kind == "null" {
		return nil
	}
	// an optional member is there unless it is zero: what counts is that the
	// memory is zero in the beginning
	if !pres.isTrue() {
		if cur := x.load(st, p); valKey(cur) != valKey(x.zero(t)) {
			unsup("JSON of an optional member into memory that is not zero")
		}
	}
	set := func(v Val) Val {
		x.checkFrame(st, p.obj)
		x.store(st, p, v)
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0 && d.kind == "str":
			return set(d.s)
		case u.Info()&types.IsBoolean != 0 && d.kind == "bool":
			return set(d.t)
		case u.Info()&types.IsInteger != 0 && d.kind == "num":
			if u.Kind() == types.Uint32 {
				if x.decide(st, c.Or(c.Lt(d.t, c.Int(0)), c.Gt(d.t, c.Int(1<<32-1)))) {
					unsup("JSON number out of range")
				}
				return set(c.I2BV(d.t))
			}
			if w := x.wrap(d.t, t); w != d.t {
				if !x.decide(st, c.Eq(w, d.t)) {
					unsup("JSON number out of range")
				}
				return set(w)
			}
			return set(d.t)
		}
	case *types.Struct:
		if d.kind == "obj" {
			whole()
			fs := jfields(u)
			for i, k := range d.keys {
				f := -1
				for j := range fs {
					if fs[j].name == k {
						f = j
						break
					}
					if f < 0 && strings.EqualFold(fs[j].name, k) {
						f = j
					}
				}
				if f < 0 {
					continue
				}
				if err := x.jsonInto(st, d.vals[i], d.pres[i], fs[f].t, Ptr{p.obj, subPath(p.path, fs[f].index)}); err != nil {
					return err
				}
			}
			return nil
		}
	}
	unsup("JSON %s into type %v", d.kind, t)
	return nil
}

func (x *Ex) docOf(st *State, v Val) *JDoc {
	s := x.bytesStr(st, v)
	if len(s.a) == 1 && s.a[0].kind == AOpq && s.a[0].tag == "json" {
		return s.a[0].args[0].(*JDoc)
	}
	unsup("JSON text of unknown structure")
	return nil
}

// bytesOf is the []byte with the contents of a string.
func (x *Ex) bytesOf(st *State, s Str) Val {
	return x.convert(st, s, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]))
}

func jsonModels() {
	for n, m := range map[string]modelFn{
		"encoding/json.Marshal": func(x *Ex, st *State, a []Val) Val {
			i := a[0].(Iface)
			if i.t == nil {
				return Tuple{ByteStr{lit("null")}, Iface{}}
			}
			d, err := x.jsonDoc(st, i.v, i.t, nil)
			if err != nil {
				return Tuple{Slice{}, err}
			}
			return Tuple{ByteStr{Str{[]Atom{{kind: AOpq, tag: "json", args: []Val{d}}}}}, Iface{}}
		},
		"encoding/json.Unmarshal": func(x *Ex, st *State, a []Val) Val {
			d := x.docOf(st, a[0])
			i := a[1].(Iface)
			p, ok := i.v.(Ptr)
			if !ok || p.obj == 0 {
				unsup("json.Unmarshal into %T", i.v)
			}
			if err := x.jsonInto(st, d, x.c.T, i.t.Underlying().(*types.Pointer).Elem(), p); err != nil {
				return err
			}
			return Iface{}
		},
		specPath + ".JSONText": func(x *Ex, st *State, a []Val) Val {
			d := x.docOf(st, a[0])
			if p := needLit(st, a[1], "path"); p != "" {
			path:
				for _, k := range strings.Split(p, ".") {
					for i := range d.keys {
						if d.keys[i] == k && x.decide(st, d.pres[i]) {
							d = d.vals[i]
							continue path
						}
					}
					return lit("")
				}
			}
			if d.kind == "obj" {
				var ks []string
				for i, k := range d.keys {
					if x.decide(st, d.pres[i]) {
						ks = append(ks, k)
					}
				}
				sort.Strings(ks)
				return lit("{" + strings.Join(ks, ",") + "}")
			}
			return x.jsonText(st, d)
		},
	} {
		models[n] = m
	}
}
