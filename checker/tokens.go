package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Sequences of byte-producing terms, kept in State.aux.

var tokTerms = map[int]*Term{}

func tokID(t *Term) string {
	tokTerms[t.ID] = t
	return strconv.Itoa(t.ID)
}

func tokList(aux string) []*Term {
	var out []*Term
	for _, p := range strings.Split(aux, ",") {
		if i, err := strconv.Atoi(p); err == nil {
			out = append(out, tokTerms[i])
		}
	}
	return out
}

func tokJoin(ts []*Term) string {
	var ss []string
	for _, t := range ts {
		ss = append(ss, tokID(t))
	}
	return strings.Join(ss, ",")
}

// unconv strips conversions between strings and byte slices.
func unconv(t *Term) *Term {
	for t != nil {
		switch t.Op {
		case "conv":
			if len(t.Args) == 1 && (isString(t.T) || isByteSlice(t.T)) && t.Args[0].T != nil && (isString(t.Args[0].T) || isByteSlice(t.Args[0].T)) {
				t = t.Args[0]
				continue
			}
		case "iface":
			t = t.Args[0]
			continue
		case "slice":
			// x[:]
			if t.Args[1] == nil && t.Args[2] == nil {
				t = t.Args[0]
				continue
			}
		}
		return t
	}
	return t
}

// byteTokens splits a written value into its parts: single bytes become
// integer constants where they are known.
func byteTokens(t *Term) []*Term {
	t = unconv(t)
	switch t.Op {
	case "bin":
		if t.S == "+" && isString(t.T) {
			return append(byteTokens(t.Args[0]), byteTokens(t.Args[1])...)
		}
	case "concat":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, byteTokens(a)...)
		}
		return out
	case "list":
		if isByteSlice(t.T) || t.T == nil {
			return t.Args
		}
		if a, ok := t.T.Underlying().(*types.Array); ok && isInt(a.Elem()) {
			return t.Args
		}
	}
	if c, ok := t.isStrConst(); ok {
		var out []*Term
		for i := 0; i < len(c); i++ {
			out = append(out, mkInt(int64(c[i]), types.Typ[types.Uint8]))
		}
		return out
	}
	return []*Term{t}
}

// fmtTokens: what the formatting function with the format and arguments
// yields, if it is put together from constants, strings and decimal numbers.
func fmtTokens(format, args *Term) ([]*Term, bool) {
	f, ok := format.isStrConst()
	if !ok || args.Op != "list" && args.Op != "nil" {
		return nil, false
	}
	var out []*Term
	rest := args.Args
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, mkInt(int64(f[i]), types.Typ[types.Uint8]))
			continue
		}
		if i++; i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			out = append(out, mkInt('%', types.Typ[types.Uint8]))
			continue
		}
		if len(rest) == 0 {
			return nil, false
		}
		x := rest[0]
		rest = rest[1:]
		if x.Op == "iface" {
			x = x.Args[0]
		}
		b, _ := underBasic(x.T)
		switch {
		case x.T == nil:
			return nil, false
		case f[i] == 's' && (types.Identical(x.T, types.Typ[types.String]) || types.Identical(x.T, types.NewSlice(types.Typ[types.Byte]))):
			out = append(out, byteTokens(x)...)
		case f[i] == 'd' && b != nil && b.Info()&types.IsUnsigned != 0:
			out = append(out, mk("app", "strconv.FormatUint", nil, types.Typ[types.String], x, mkInt(10, nil)))
		case f[i] == 'd' && b != nil && b.Info()&types.IsInteger != 0:
			out = append(out, mk("app", "strconv.FormatInt", nil, types.Typ[types.String], x, mkInt(10, nil)))
		case f[i] == 'c' && b != nil && b.Kind() == types.Uint8:
			if v, ok := x.isIntConst(); !ok || v >= 128 {
				return nil, false
			}
			out = append(out, x)
		default:
			return nil, false
		}
	}
	return out, len(rest) == 0
}

// sameBytes: both tokens denote the same bytes on this path.
func sameBytes(s *State, a, b *Term) bool {
	a, b = unconv(a), unconv(b)
	if a == b {
		return true
	}
	if a.T != nil && b.T != nil && isInt(a.T) && isInt(b.T) {
		p := polyAdd(polyOf(a), polyOf(b), -1)
		if len(p.Ms) == 0 {
			return p.C == 0
		}
		v, known := s.query(boolTerm(condEq0(p)))
		return known && v
	}
	return false
}

func tokString(ts []*Term) string {
	var ss []string
	for _, t := range ts {
		if c, ok := t.isIntConst(); ok && c > 32 && c < 127 {
			ss = append(ss, fmt.Sprintf("%q", byte(c)))
			continue
		}
		ss = append(ss, t.String())
	}
	return "<" + strings.Join(ss, " ") + ">"
}
