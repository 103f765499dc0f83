package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

// typeKey is a canonical name of a Go type.
func typeKey(t types.Type) string {
	if s, ok := typeKeyMemo[t]; ok {
		return s
	}
	s := strings.ReplaceAll(types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() }), "interface{}", "any")
	s = byteRE.ReplaceAllString(s, "${1}uint8")
	s = runeRE.ReplaceAllString(s, "${1}int32")
	typeKeyMemo[t] = s
	return s
}

// byte and rune are names of uint8 and int32.
var (
	byteRE = regexp.MustCompile(`(^|[\]\*\s(,\[])byte\b`)
	runeRE = regexp.MustCompile(`(^|[\]\*\s(,\[])rune\b`)
)

var typeKeyMemo = map[types.Type]string{}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func namedPkg(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func isTime(t types.Type) bool { return isNamed(t, "time", "Time") }

// opaqueStruct lists struct types that are represented by a single integer
// (synchronisation primitives have no modelled content).
func opaqueStruct(t types.Type) bool {
	switch namedPkg(t) {
	case "sync", "sync/atomic", "internal/sync", "unique":
		return true
	}
	return isTime(t)
}

var sortMemo = map[string]Sort{}

func sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	k := typeKey(t)
	if s, ok := sortMemo[k]; ok {
		return s
	}
	s := sortOf1(t)
	sortMemo[k] = s
	return s
}

func sortOf1(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil:
			return SAny
		}
		return SInt
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SAny
	case *types.Slice:
		return SSlice
	case *types.Array:
		return arrSort(SInt, sortOf(u.Elem()))
	case *types.Struct:
		if opaqueStruct(t) {
			return SInt
		}
		return Sort(structDT(t, u))
	case *types.Tuple:
		return "Tuple"
	}
	panic("sortOf: unsupported type " + t.String())
}

var dtNames = map[string]string{}

func structDT(t types.Type, u *types.Struct) string {
	k := typeKey(t)
	if n, ok := dtNames[k]; ok {
		return n
	}
	base := "struct"
	if n, ok := t.(*types.Named); ok {
		base = n.Obj().Name()
	}
	name := fmt.Sprintf("S%d.%s", len(dtNames), sanitize(base))
	dtNames[k] = name
	var fs []string
	var ss []Sort
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, fmt.Sprintf("%s.%s", name, sanitize(u.Field(i).Name())+func() string {
			if u.Field(i).Name() == "_" {
				return fmt.Sprint(i)
			}
			return ""
		}()))
		ss = append(ss, sortOf(u.Field(i).Type()))
	}
	if len(fs) == 0 {
		fs, ss = []string{name + ".unit"}, []Sort{SInt}
	}
	declDT(name, fs, ss)
	return name
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SBool:
			return tFalse
		case SInt:
			return mkInt(0)
		case SReal:
			return mk("real", "0.0", SReal)
		case SStr:
			return mkStr("")
		case SAny:
			return nilAnyT
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return mkInt(0)
	case *types.Interface:
		return nilAnyT
	case *types.Slice:
		return mkSlice(mkInt(0), mkInt(0), mkInt(0), mkInt(0))
	case *types.Array:
		return mkConstArray(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		if isTime(t) {
			return zeroTime
		}
		if opaqueStruct(t) {
			return mkInt(0)
		}
		n := structDT(t, u)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		if len(as) == 0 {
			as = []*Term{mkInt(0)}
		}
		return mkCtor(n, Sort(n), as...)
	}
	panic("zeroOf: " + t.String())
}

// zeroTime: time.Time values are represented as nanoseconds on the absolute
// time line that starts at the zero Time.
var zeroTime = mkInt(0)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func structOf(t types.Type) *types.Struct {
	if opaqueStruct(types.Unalias(t)) {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// heap component names

func fieldComp(st types.Type, i int) string {
	u := st.Underlying().(*types.Struct)
	return "F|" + typeKey(st) + "|" + u.Field(i).Name()
}

func cellComp(t types.Type) string { return "C|" + typeKey(t) }
func elemComp(t types.Type) string { return "E|" + typeKey(t) }

func mapComps(m *types.Map) (dom, val string) {
	k := typeKey(m.Key()) + "|" + typeKey(m.Elem())
	return "MD|" + k, "MV|" + k
}

var compSorts = map[string]Sort{}

func regComp(name string, s Sort) string {
	compSorts[name] = s
	return name
}

// intRange returns the value range of an integer type, ok=false for ints
// treated as mathematical (64-bit and int/uint).
func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	}
	return
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// funcName is the name used by directives: pkg-local for functions of the
// package pkgpath, otherwise fully qualified. Examples: backend,
// (*Backend).checkIP, net/http.Error, (*net/url.URL).Hostname.
func qualFuncName(full string) string { return strings.ReplaceAll(full, "command-line-arguments.", "") }
