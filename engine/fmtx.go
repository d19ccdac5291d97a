package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

func (in *Interp) sprint(args Slice, ln bool) Value {
	var res Value = ""
	prevStr := true
	for i, c := range args.c {
		a := c.v.(Iface)
		isStr := a.t != nil && isString(a.t)
		if i > 0 && (ln || (!isStr && !prevStr)) {
			res = in.concat(res, " ")
		}
		res = in.concat(res, in.fmtValue(a, 'v', ""))
		prevStr = isStr
	}
	if ln {
		res = in.concat(res, "\n")
	}
	return res
}

func (in *Interp) sprintf(format Value, args Slice) Value {
	r, _ := in.format(format, args)
	return r
}

// format implements the subset of fmt's verbs; wrapped collects %w operands.
func (in *Interp) format(format Value, args Slice) (res Value, wrapped []Iface) {
	f, ok := format.(string)
	if !ok {
		f = in.directives(format)
	}
	res = ""
	argN := 0
	reordered := false
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			res = in.concat(res, in.substr(format, i, len(f)))
			break
		}
		res = in.concat(res, in.substr(format, i, i+j))
		i += j + 1
		flags := ""
		for i < len(f) && strings.IndexByte("+-# 0123456789.*", f[i]) >= 0 {
			if f[i] == '*' {
				w := Iface{}
				if argN < len(args.c) {
					w = args.c[argN].v.(Iface)
				}
				if w.t == nil || kindOf(w.t) != reflect.Int {
					panic(unsupported{"format * width"})
				}
				flags += strconv.Itoa(int(int64(in.concreteInt(w.v))))
				argN++
			} else {
				flags += string(f[i])
			}
			i++
		}
		if i < len(f) && f[i] == '[' {
			k := strings.IndexByte(f[i:], ']')
			var n int
			if k < 0 {
				panic(unsupported{"format " + f})
			}
			if _, err := fmt.Sscanf(f[i:i+k+1], "[%d]", &n); err != nil {
				panic(unsupported{"format " + f})
			}
			argN = n - 1
			reordered = true
			i += k + 1
		}
		if i >= len(f) {
			res = in.concat(res, "%!(NOVERB)")
			break
		}
		verb, sz := utf8.DecodeRuneInString(f[i:])
		i += sz
		if verb == '%' {
			res = in.concat(res, "%")
			continue
		}
		if argN >= len(args.c) {
			res = in.concat(res, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args.c[argN].v.(Iface)
		argN++
		if verb == 'w' {
			if a.t != nil && in.P.errorIface != nil && in.implements(a.t, in.P.errorIface) {
				wrapped = append(wrapped, a)
			}
			verb = 'v'
		}
		res = in.concat(res, in.fmtValue(a, verb, flags))
	}
	if !reordered && argN < len(args.c) {
		res = in.concat(res, "%!(EXTRA ")
		for k := argN; k < len(args.c); k++ {
			a := args.c[k].v.(Iface)
			if k > argN {
				res = in.concat(res, ", ")
			}
			if a.t == nil {
				res = in.concat(res, "<nil>")
				continue
			}
			res = in.concat(res, typeString(a.t)+"=")
			res = in.concat(res, in.fmtValue(a, 'v', ""))
		}
		res = in.concat(res, ")")
	}
	return res, wrapped
}

// directives makes a format string concrete where it matters: which bytes start a verb and the bytes of the verbs.
// The other symbolic bytes are not looked at by format and come out as \x00.
func (in *Interp) directives(format Value) string {
	b := in.strBytes(format)
	f := make([]byte, len(b))
	verb := false
	for i, t := range b {
		switch {
		case verb:
			f[i] = byte(in.concreteInt(in.fold(t)))
			verb = strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0
		case in.truth(in.fold(in.st.Eq(t, in.st.bytes['%']))):
			f[i], verb = '%', true
		}
	}
	return string(f)
}

func (in *Interp) callStr(a Iface, name string, verb rune) (res Value, has bool) {
	m := in.P.lookupMethod(a.t, nil, name)
	if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 || !isString(m.Signature.Results().At(0).Type()) {
		return nil, false
	}
	if p, ok := a.v.(*Cell); ok && p == nil {
		return "<nil>", true
	}
	fr, depth := in.fr, in.depth
	defer func() {
		if r := recover(); r != nil {
			p, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			// fmt reports a method that panics in the text
			in.fr, in.depth = fr, depth
			msg := Value(p.msg)
			if !p.runtime {
				msg = in.fmtValue(p.v, 'v', "")
			}
			res, has = in.concat(in.concat("%!"+string(verb)+"(PANIC="+name+" method: ", msg), ")"), true
		}
	}()
	return in.callFn(m, []Value{a.v}, nil), true
}

// fmtValue renders one operand.
func (in *Interp) fmtValue(a Iface, verb rune, flags string) Value {
	if a.t == nil {
		if verb == 'v' || verb == 'T' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		if _, ok := a.v.(RType); ok {
			return "*reflect.rtype"
		}
		return typeString(a.t)
	}
	if rt, ok := a.v.(RType); ok {
		return typeString(rt.t)
	}
	if verb == 'v' && strings.Contains(flags, "#") {
		b, ok := a.t.(*types.Basic)
		if !ok || flags != "#" {
			panic(unsupported{"%#v"})
		}
		flags = ""
		switch {
		case b.Info()&types.IsString != 0:
			verb = 'q'
		case b.Info()&types.IsUnsigned != 0 || b.Info()&types.IsFloat != 0:
			panic(unsupported{"%#v"})
		}
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if strings.Trim(flags, "+") == "" {
			for _, m := range []string{"Error", "String"} {
				if s, ok := in.callStr(a, m, verb); ok {
					return in.fmtText(s, verb)
				}
			}
		}
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		w, signed := intInfo(a.t)
		verbs := ""
		switch {
		case u.Info()&types.IsString != 0:
			verbs = "vsqxX"
		case u.Info()&types.IsInteger != 0:
			verbs = "vdbcoOqxXU"
		case u.Info()&types.IsBoolean != 0:
			verbs = "vt"
		case u.Info()&types.IsFloat != 0:
			verbs = "vbgGxXfFeE"
		}
		if verbs != "" && !strings.ContainsRune(verbs, verb) {
			return in.concat(in.concat("%!"+string(verb)+"("+typeString(a.t)+"=", in.fmtValue(Iface{canon(u), a.v}, 'v', flags)), ")")
		}
		switch x := a.v.(type) {
		case string:
			return fmt.Sprintf("%"+flags+string(verb), x)
		case *SymStr:
			if strings.Trim(flags, "+") == "" && (verb == 'v' || verb == 's' || verb == 'q') {
				return in.fmtText(x, verb)
			}
			left := strings.HasPrefix(flags, "-")
			width, err := strconv.Atoi(strings.TrimPrefix(flags, "-"))
			if err == nil && flags[0] != '+' && strings.TrimPrefix(flags, "-")[0] != '0' && (verb == 'v' || verb == 's' || verb == 'q') {
				s := in.fmtText(x, verb)
				n := in.callFn(in.P.fn("unicode/utf8", "RuneCountInString"), []Value{s}, nil)
				pad := strings.Repeat(" ", max(0, width-int(in.concreteInt(n))))
				if left {
					return in.concat(s, pad)
				}
				return in.concat(pad, s)
			}
			panic(unsupported{"format of symbolic string with %" + flags + string(verb)})
		case bool:
			return fmt.Sprintf("%"+flags+string(verb), x)
		case float64:
			if u.Kind() == types.Float32 {
				return fmt.Sprintf("%"+flags+string(verb), float32(x))
			}
			return fmt.Sprintf("%"+flags+string(verb), x)
		case uint64:
			if signed {
				return fmt.Sprintf("%"+flags+string(verb), sext(x, w))
			}
			return fmt.Sprintf("%"+flags+string(verb), x)
		case *Term:
			if x.w == 0 {
				if in.truth(x) {
					return "true"
				}
				return "false"
			}
			if strings.Trim(flags, "") == "" && (verb == 'v' || verb == 'd') {
				return in.itoa(in.fold(in.st.Resize(x, 64, signed)), 64, signed)
			}
			if verb == 'c' {
				y := instr{t: types.Typ[types.Int32], t2: types.Typ[types.String], w: 32, signed: true}
				return in.convert(&y, in.fold(in.st.Resize(x, 32, signed)))
			}
		}
	case *types.Slice:
		s := a.v.(Slice)
		if verb == 's' || verb == 'v' || verb == 'd' || verb == 'q' {
			if w, sg := intInfo(u.Elem()); w == 8 && !sg && verb == 's' {
				return in.bytesToStr(s)
			}
			var res Value = "["
			for i, c := range s.c {
				if i > 0 {
					res = in.concat(res, " ")
				}
				res = in.concat(res, in.fmtElem(u.Elem(), c.v, verb, flags))
			}
			return in.concat(res, "]")
		}
	case *types.Array:
		var res Value = "["
		for i, c := range a.v.(*Array).e {
			if i > 0 {
				res = in.concat(res, " ")
			}
			res = in.concat(res, in.fmtElem(u.Elem(), c.v, verb, flags))
		}
		return in.concat(res, "]")
	case *types.Struct:
		var res Value = "{"
		for i, c := range a.v.(*Struct).f {
			if i > 0 {
				res = in.concat(res, " ")
			}
			if strings.Contains(flags, "+") {
				res = in.concat(res, u.Field(i).Name()+":")
			}
			res = in.concat(res, in.fmtElem(u.Field(i).Type(), c.v, verb, flags))
		}
		return in.concat(res, "}")
	case *types.Pointer:
		p := a.v.(*Cell)
		if p == nil {
			return "<nil>"
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return in.concat("&", in.fmtElem(u.Elem(), in.copyVal(p.v), verb, flags))
		}
		return "0xc000010000"
	case *types.Map:
		m := a.v.(*Map)
		if m == nil || len(m.e) == 0 {
			return "map[]"
		}
		if len(m.e) == 1 {
			r := in.concat("map[", in.fmtElem(u.Key(), m.e[0].k, verb, flags))
			r = in.concat(in.concat(r, ":"), in.fmtElem(u.Elem(), m.e[0].c.v, verb, flags))
			return in.concat(r, "]")
		}
	}
	panic(unsupported{fmt.Sprintf("format %%%s%c of %s", flags, verb, typeString(a.t))})
}

func (in *Interp) fmtElem(t types.Type, v Value, verb rune, flags string) Value {
	if i, ok := v.(Iface); ok {
		return in.fmtValue(i, verb, flags)
	}
	return in.fmtValue(Iface{canon(t), v}, verb, flags)
}

func (in *Interp) fmtText(s Value, verb rune) Value {
	if verb != 'q' {
		return s
	}
	if c, ok := s.(string); ok {
		return fmt.Sprintf("%q", c)
	}
	return in.callFn(in.P.fn("strconv", "Quote"), []Value{s}, nil)
}

// errorf builds the same concrete types as fmt.Errorf so that the real Unwrap methods run.
func (in *Interp) errorf(format Value, args Slice) Value {
	msg, wrapped := in.format(format, args)
	mk := func(pkg, name string, vals map[string]Value) Value {
		p := in.P.prog.ImportedPackage(pkg)
		if p == nil {
			panic(unsupported{"package " + pkg + " not loaded"})
		}
		nt := p.Type(name).Type()
		st := nt.Underlying().(*types.Struct)
		s := in.zero(nt).(*Struct)
		for i := 0; i < st.NumFields(); i++ {
			if v, ok := vals[st.Field(i).Name()]; ok {
				s.f[i].v = v
			}
		}
		return Iface{canon(types.NewPointer(nt)), in.newCell(s)}
	}
	switch len(wrapped) {
	case 0:
		return mk("errors", "errorString", map[string]Value{"s": msg})
	case 1:
		return mk("fmt", "wrapError", map[string]Value{"msg": msg, "err": wrapped[0]})
	}
	cells := make([]Cell, len(wrapped))
	for i, w := range wrapped {
		cells[i] = Cell{w, in.epoch}
	}
	return mk("fmt", "wrapErrors", map[string]Value{"msg": msg, "errs": Slice{cells}})
}
