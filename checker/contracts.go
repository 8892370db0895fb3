package main

import (
	"fmt"
	"go/types"
	"os"
)

// Contracts of the functions in package influx which parse received bytes.
// Where a component is analysed as a whole these stand in for the functions;
// checkContracts shows, on every run, that the functions keep them for all
// arguments.

// partOf gives a slice that is part of s (which may be empty).
func (c *Call) partOf(st *State, s VSlice) VSlice {
	lo := freshLin("lo", i128(0), i128(maxLen))
	n := freshLin("n", i128(0), i128(maxLen))
	st.num = st.num.addCon(lo.add(n).sub(s.Len), false)
	r := c.subOf(st, s, lo, n)
	r.nilK, r.T = 2, freshTerm("part")
	return r
}

// partOrFresh gives a slice that is part of s or newly allocated.
func (c *Call) partOrFresh(st *State, s VSlice) VSlice {
	f := symVal(types.NewSlice(types.Typ[types.Uint8]), freshTerm("tok")).(VSlice)
	n := freshLin("n", i128(0), i128(maxLen))
	st.num = st.num.addCon(n.sub(s.Len), false)
	r := VSlice{R: append(append([]ObjID(nil), s.R...), f.R...), Off: freshLin("off", i128(0), i128(maxLen)), Len: n, Cap: n, nilK: 2, T: freshTerm("tok")}
	return r
}

// anyPart gives a slice of the memory s lies in.
func (c *Call) anyPart(s VSlice) VSlice {
	n := freshLin("n", i128(0), i128(maxLen))
	return VSlice{R: s.R, Off: freshLin("off", i128(0), i128(maxLen)), Len: n, Cap: n, nilK: 2, T: freshTerm("part")}
}

type contract struct {
	name string
	post func(in *Interp, args []Val, st *State, ret Val) bool
}

func within(st *State, a VSlice, b VSlice) bool {
	for _, r := range a.R {
		ok := false
		for _, q := range b.R {
			if q == r {
				ok = true
			}
		}
		if !ok {
			return mustLe(st, a.Len, linC(0))
		}
	}
	return true
}
func mustLe(st *State, a, b *Lin) bool { return st.num.le(a.sub(b)) }

func sliceOf(v Val) (VSlice, bool) {
	switch x := v.(type) {
	case VSlice:
		return x, true
	case VNil:
		return VSlice{Off: linC(0), Len: linC(0), Cap: linC(0), nilK: 1}, true
	}
	return VSlice{}, false
}

// eachVal applies f to every alternative of a value.
func eachVal(v Val, f func(Val) bool) bool {
	if a, ok := v.(VAlt); ok {
		for _, x := range a.A {
			if !eachVal(x, f) {
				return false
			}
		}
		return true
	}
	return f(v)
}

func retN(ret Val, i int) Val {
	if t, ok := ret.(VTuple); ok {
		if i < len(t.E) {
			return t.E[i]
		}
		return VNil{}
	}
	if i == 0 {
		return ret
	}
	return VNil{}
}

func shorter(st *State, v, arg Val) bool {
	a, ok := sliceOf(arg)
	return ok && eachVal(v, func(x Val) bool {
		s, ok := sliceOf(x)
		return ok && mustLe(st, s.Len, a.Len)
	})
}
func partOfArg(st *State, v, arg Val) bool {
	a, ok := sliceOf(arg)
	return ok && eachVal(v, func(x Val) bool {
		s, ok := sliceOf(x)
		return ok && within(st, s, a) && mustLe(st, s.Len, a.Len)
	})
}

func offsetPost(in *Interp, args []Val, st *State, ret Val) bool {
	l, _ := sliceOf(args[0])
	off, ok := retN(ret, 1).(VInt)
	if !ok {
		return false
	}
	if st.num.le(off.L.addC(1)) && st.num.le(off.L.neg().addC(-1)) {
		return true // exactly -1
	}
	return st.num.le(linC(1).sub(off.L)) && mustLe(st, off.L, l.Len)
}
func tokenPost(in *Interp, args []Val, st *State, ret Val) bool {
	return shorter(st, retN(ret, 0), args[0]) && partOfArg(st, retN(ret, 1), args[0])
}

var contractList = []contract{
	{"influx.ExtractTimestamp", offsetPost},
	{"influx.ExtractNanos", offsetPost},
	{"influx.Token", tokenPost},
	{"influx.TokenEscaped", tokenPost},
	{"influx.QuotedString", tokenPost},
	{"influx.ParseTags", func(in *Interp, args []Val, st *State, ret Val) bool {
		a, ok := sliceOf(args[0])
		return ok && eachVal(retN(ret, 2), func(x Val) bool {
			s, ok := sliceOf(x)
			return ok && within(st, s, a)
		})
	}},
	{"influx.Unescape", func(in *Interp, args []Val, st *State, ret Val) bool { return shorter(st, ret, args[0]) }},
	{"influx.EscapeTagPart", nil},
	{"influx.EscapeMeasurement", nil},
	{"influx.EscapeQuotedString", nil},
	{"convert.ToInt", nil},
	{"influx.SafeCalcTime", nil},
	{"(influx.TagSet).Bytes", nil},
	{"(influx.TagSet).SubsetOf", nil},
	{"(*filter.parsedLine).SortTags", nil},
	{"(*filter.RuleSet).LookupParsed", func(in *Interp, args []Val, st *State, ret Val) bool {
		r, ok := ret.(VInt)
		if !ok || !st.num.le(linC(-1).sub(r.L)) {
			return false
		}
		if st.num.le(r.L.addC(1)) {
			return true // none
		}
		c := &Call{in: in, st: st, args: args}
		rs, ok := args[0].(VPtr)
		if !ok {
			return false
		}
		l := c.fieldLen(rs, "rules")
		return l != nil && st.num.le(r.L.addC(1).sub(l))
	}},
	{"(*downsampler.avgBucket).AddLine", nil},
	{"(*downsampler.avgBucket).Bytes", nil},
}

func init() {
	off := func(c *Call) []Outcome {
		s := c.slice(0)
		none := c.st.clone()
		r := freshLin("off", i128(1), i128(maxLen))
		var out []Outcome
		if n := c.st.num.assumeLe(r.sub(s.Len)); n != nil {
			st := c.st.clone()
			st.num = n
			out = append(out, Outcome{st, VTuple{[]Val{symVal(c.resType(0), freshTerm("ts")), VInt{r}}}})
		}
		return append(out, Outcome{none, VTuple{[]Val{symVal(c.resType(0), freshTerm("ts")), vint(-1)}}})
	}
	tok := func(c *Call) []Outcome {
		s := c.slice(0)
		a := c.partOrFresh(c.st, s)
		b := c.partOf(c.st, s)
		return c.outs(VTuple{[]Val{a, b}})
	}
	models["influx.ExtractTimestamp"] = off
	models["influx.ExtractNanos"] = off
	models["influx.Token"] = tok
	models["influx.TokenEscaped"] = tok
	models["influx.QuotedString"] = func(c *Call) []Outcome {
		s := c.slice(0)
		bad := c.st.clone()
		good := c.st
		a, b := c.partOrFresh(good, s), c.partOf(good, s)
		return []Outcome{
			{good, VTuple{[]Val{a, b, VNil{}}}},
			{bad, VTuple{[]Val{c.partOrFresh(bad, s), c.partOf(bad, s), errVal(bad, "quoted.err")}}},
		}
	}
	models["influx.ParseTags"] = func(c *Call) []Outcome {
		s := c.slice(0)
		bad := c.st.clone()
		good := c.st
		a, b := symVal(c.resType(0), freshTerm("meas")), c.anyPart(s)
		return []Outcome{
			{good, VTuple{[]Val{a, symVal(c.resType(1), freshTerm("tags")), b, VNil{}}}},
			{bad, VTuple{[]Val{symVal(c.resType(0), freshTerm("meas")), symVal(c.resType(1), freshTerm("tags")), c.anyPart(s), errVal(bad, "tags.err")}}},
		}
	}
	models["influx.Unescape"] = func(c *Call) []Outcome { return c.outs(c.partOrFresh(c.st, c.slice(0))) }
	models["convert.ToInt"] = func(c *Call) []Outcome { return c.okOrErr("toint") }
	models["influx.SafeCalcTime"] = func(c *Call) []Outcome { return c.okOrErr("calc") }
	models["(*filter.parsedLine).SortTags"] = func(c *Call) []Outcome { c.havocArg(0); return c.outs(VTuple{}) }
	models["(*filter.RuleSet).LookupParsed"] = func(c *Call) []Outcome {
		c.havocArg(1)
		r := freshLin("rule", i128(-1), i128(maxLen))
		if rs, ok := c.arg(0).(VPtr); ok {
			if l := c.fieldLen(rs, "rules"); l != nil {
				c.st.num = c.st.num.addCon(r.addC(1).sub(l), false)
			}
		}
		return c.outs(VInt{r})
	}
	for _, n := range []string{"(*downsampler.avgBucket).AddLine", "(*downsampler.avgBucket).Bytes"} {
		models[n] = noop
	}
	for _, n := range []string{"influx.EscapeTagPart", "influx.EscapeMeasurement", "influx.EscapeQuotedString", "(influx.TagSet).Bytes", "(influx.TagSet).SubsetOf"} {
		models[n] = fresh1
	}
}

// useContracts makes the analysis use contracts instead of bodies.
func useContracts(in *Interp, more ...string) {
	set := map[string]bool{}
	for _, c := range contractList {
		set[c.name] = true
	}
	prev := in.opaque
	in.opaque = func(c *Call) bool {
		if set[c.name] {
			return true
		}
		for _, p := range more {
			if len(c.name) >= len(p) && c.name[:len(p)] == p {
				return true
			}
		}
		return prev != nil && prev(c)
	}
}

// checkContracts shows that the functions keep their contracts.
func checkContracts(c *Ctx, mk func() *Interp) {
	for _, k := range contractList {
		f := c.pr.lookup(k.name)
		if f == nil {
			continue // not there any more: nothing relies on it either
		}
		in := mk()
		useContracts(in)
		all := in.opaque
		in.opaque = func(c *Call) bool { return c.name != k.name && all(c) }
		st := in.globalsState()
		args := in.symArgs(f)
		outs := in.runEntry(f, args, nil, st)
		if k.post != nil {
			for _, o := range outs {
				if os.Getenv("V") != "" && !k.post(in, args, o.st, o.ret) {
					fmt.Println("CONTRACT", k.name, o.ret, "\n", o.st.num.String(), args)
				}
				in.oblige("contract:"+k.name, k.post(in, args, o.st, o.ret), in.pr.posString(f.Pos())+" ("+k.name+")", "the offsets or slices returned may lie outside of the argument")
			}
		}
		c.absorb(in)
		c.count["parsing functions"]++
	}
}

// havocArg forgets what the struct an argument points to holds.
func (c *Call) havocArg(i int) {
	p, ok := c.arg(i).(VPtr)
	if !ok || len(p.Path) > 0 || p.Idx != nil {
		return
	}
	o := c.st.mut(p.Obj)
	o.val = symVal(o.typ, freshTerm("havoc"))
}

// fieldLen gives the length of a slice held in a field.
func (c *Call) fieldLen(p VPtr, name string) *Lin {
	o := c.st.heap[p.Obj]
	if o == nil || len(p.Path) > 0 || p.Idx != nil {
		return nil
	}
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	if x, ok := sliceOf(getPath(v, []int{fieldIdx(o.typ, name)})); ok {
		return x.Len
	}
	return nil
}
