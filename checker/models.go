package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of functions whose bodies are outside the repository. A model is a
// contract taken from the function's documentation; anything without a
// specific contract returns unknown values and may overwrite what it is given
// a pointer to.

var models = map[string]func(*Call) []Outcome{}

// ---------------------------------------------------------------- helpers

func (c *Call) fresh(op string) Val { return symVal(c.rtyp, freshTerm(op)) }
func (c *Call) resType(i int) types.Type {
	if t, ok := c.rtyp.(*types.Tuple); ok {
		return t.At(i).Type()
	}
	return c.rtyp
}
func tup(vs ...Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return VTuple{vs}
}
func (c *Call) arg(i int) Val {
	if i < len(c.args) {
		a := c.args[i]
		if al, ok := a.(VAlt); ok && len(al.A) > 0 {
			return al.A[0]
		}
		return a
	}
	return VNil{}
}
func (c *Call) slice(i int) VSlice {
	switch x := c.arg(i).(type) {
	case VSlice:
		return x
	case VStr:
		return VSlice{Off: linC(0), Len: x.Len, Cap: x.Len}
	case VNil:
		return VSlice{Off: linC(0), Len: linC(0), Cap: linC(0), nilK: 1}
	}
	l := freshLin("len", i128(0), i128(maxLen))
	return VSlice{Off: linC(0), Len: l, Cap: l}
}
func (c *Call) lin(i int) *Lin {
	if x, ok := c.arg(i).(VInt); ok {
		return x.L
	}
	return freshLin("arg", i128(-1<<63), i128(1<<63-1))
}
func (c *Call) str(i int) VStr {
	if x, ok := c.arg(i).(VStr); ok {
		return x
	}
	return symVal(types.Typ[types.String], freshTerm("str")).(VStr)
}
func (c *Call) constStr(i int) (string, bool) {
	if x, ok := c.arg(i).(VStr); ok && x.Const != nil {
		return *x.Const, true
	}
	return "", false
}

// errVal is a fresh non-nil error.
func errVal(st *State, op string, args ...*Term) VIface {
	t := freshTerm(op, args...)
	st.facts[nilKey(t)] = false
	return VIface{T: t}
}

func (c *Call) withNum(n *Num, v Val) []Outcome {
	if n == nil || n.bot == 2 {
		return nil
	}
	s := c.st.clone()
	s.num = n
	return []Outcome{{s, v}}
}

// variadic collects the elements of a variadic argument slice.
func (c *Call) variadic(i int) []Val {
	s, ok := c.arg(i).(VSlice)
	if !ok || len(s.R) != 1 {
		return nil
	}
	n, ok := s.Len.constI64()
	if !ok || n > 64 {
		return nil
	}
	var out []Val
	for k := int64(0); k < n; k++ {
		out = append(out, c.in.elemLoad(c.st, s.R[0], s.Off.addC(k)))
	}
	return out
}
func unwrap(v Val) Val {
	if i, ok := v.(VIface); ok && i.Dyn != nil {
		return i.V
	}
	return v
}

// havoc forgets everything reachable through a value handed to unknown code.
func (in *Interp) havocVal(fr *Frame, st *State, v Val, ins ssa.Instruction, depth int) {
	if depth > 3 {
		return
	}
	switch x := v.(type) {
	case VIface:
		if x.Dyn != nil {
			in.havocVal(fr, st, x.V, ins, depth)
		}
	case VAlt:
		for _, a := range x.A {
			in.havocVal(fr, st, a, ins, depth)
		}
	case VPtr:
		if !st.hasObj(x.Obj) {
			return
		}
		o := st.obj(x.Obj)
		if o.kind == oCell {
			t := o.typ
			for _, f := range x.Path {
				if s, ok := t.Underlying().(*types.Struct); ok && f < s.NumFields() {
					t = s.Field(f).Type()
				} else if a, ok := t.Underlying().(*types.Array); ok {
					t = a.Elem()
				}
			}
			if o.val == nil {
				m := st.mut(x.Obj)
				m.val = cellInit(o)
			}
			m := st.mut(x.Obj)
			m.val = setPath(m.val, x.Path, symVal(t, freshTerm("havoc")))
		}
	case VSlice:
		for _, r := range x.R {
			in.bulkWrite(fr, st, r, x.Off, x.Len, nil, nil, ins)
		}
	}
}

var purePkgs = []string{"strings", "strconv", "errors", "math", "time", "regexp", "path/filepath", "path", "unicode", "unicode/utf8",
	"log", "os", "runtime", "hash/fnv", "flag", "net/url", "unsafe", "math/bits", "slices", "maps", "cmp", "net/textproto",
	"github.com/c2h5oh/datasize", "context", "net", "net/http", "nats", "sync", "github.com/spf13/afero", "text/tabwriter", "reflect"}

func defaultModel(c *Call) []Outcome {
	c.in.exts[c.name]++
	if strings.HasSuffix(c.name, ".init") || strings.Contains(c.name, ".init#") {
		return c.outs(VTuple{})
	}
	pure := isPkg(c.name, purePkgs...) || isPkg(c.name, "fmt", "bytes", "hash")
	if !pure {
		for _, a := range c.args {
			c.in.havocVal(c.fr, c.st, a, c.instr, 0)
		}
	}
	if t, ok := c.rtyp.(*types.Tuple); ok && t.Len() == 0 {
		return c.outs(VTuple{})
	}
	// (pointer, error) style results: success or failure
	if t, ok := c.rtyp.(*types.Tuple); ok && t.Len() >= 2 && isErrorType(t.At(t.Len()-1).Type()) {
		return c.okOrErr("ext:" + c.name)
	}
	return c.outs(symVal(c.rtyp, freshTerm("ext:"+c.name)))
}

// okOrErr forks into success (non-nil results, nil error) and failure (zero
// pointers and interfaces, non-nil error).
func (c *Call) okOrErr(op string) []Outcome {
	t, isT := c.rtyp.(*types.Tuple)
	if !isT {
		s2 := c.st.clone()
		return []Outcome{{c.st, VNil{}}, {s2, errVal(s2, op+".err")}}
	}
	n := t.Len()
	good, bad := VTuple{}, VTuple{}
	s2 := c.st.clone()
	ft := freshTerm(op)
	for i := 0; i < n-1; i++ {
		et := t.At(i).Type()
		g := nonNil(symVal(et, tm("#"+strconv.Itoa(i), ft)))
		if iv, ok := g.(VIface); ok && iv.T != nil {
			c.st.facts[nilKey(iv.T)] = false
		}
		good.E = append(good.E, g)
		switch et.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			bad.E = append(bad.E, VNil{})
		default:
			bad.E = append(bad.E, symVal(et, freshTerm(op)))
		}
	}
	good.E = append(good.E, VNil{})
	bad.E = append(bad.E, errVal(s2, op+".err"))
	return []Outcome{{c.st, good}, {s2, bad}}
}

func fresh1(c *Call) []Outcome { return c.outs(c.fresh("ext:" + c.name)) }
func noop(c *Call) []Outcome {
	if t, ok := c.rtyp.(*types.Tuple); ok && t.Len() == 0 {
		return c.outs(VTuple{})
	}
	return fresh1(c)
}
func noReturn(c *Call) []Outcome { return nil }

// subOf is an unknown subslice of s.
func (c *Call) subOf(st *State, s VSlice, lo, n *Lin) VSlice {
	r := s
	r.Off = s.Off.add(lo)
	r.Len = n
	r.Cap = s.Cap.sub(lo)
	if r.nilK == 2 {
		r.nilK, r.T = 0, nil
	}
	return r
}

func (c *Call) anySub(s VSlice) []Outcome {
	lo := freshLin("lo", i128(0), i128(maxLen))
	n := freshLin("n", i128(0), i128(maxLen))
	c.st.num = c.st.num.addCon(lo.add(n).sub(s.Len), false)
	return c.outs(c.subOf(c.st, s, lo, n))
}

// bytesEqVal is a pure, unknown comparison.
func (c *Call) atomOf(op string) VBool { return VBool{pATOM(freshTerm(op).op)} }

func indexModel(min int64) func(*Call) []Outcome {
	return func(c *Call) []Outcome {
		s := c.slice(0)
		var out []Outcome
		sep := linC(min)
		if min == 0 {
			sep = c.slice(1).Len
		}
		out = append(out, Outcome{c.st.clone(), vint(-1)})
		r := freshLin("ix", i128(0), i128(maxLen))
		if n := c.st.num.assumeLe(r.add(sep).sub(s.Len)); n != nil {
			st := c.st.clone()
			st.num = n
			if strings.HasSuffix(c.name, "IndexByte") && len(s.R) == 1 {
				if ch, ok := c.arg(1).(VInt); ok {
					o := st.mut(s.R[0])
					o.cells = append(append([]Cell(nil), o.cells...), Cell{s.Off.add(r), ch})
				}
			}
			out = append(out, Outcome{st, VInt{r}})
		}
		return out
	}
}

func splitModel(c *Call) []Outcome {
	s := c.slice(0)
	n := freshLin("parts", i128(1), i128(maxLen))
	et := types.NewSlice(types.Typ[types.Uint8])
	o := &Obj{kind: oRegion, typ: et, sym: freshTerm("split"), n: n, site: c.name, aux: map[string]Val{"elemOf": s}}
	id := c.st.alloc(o)
	c.st.num = c.st.num.addCon(n.sub(s.Len).addC(-1), false)
	return c.outs(VSlice{R: []ObjID{id}, Off: linC(0), Len: n, Cap: n})
}

func prefixModel(c *Call) []Outcome {
	s, t := c.slice(0), c.slice(1)
	p := pATOM(freshTerm(c.name).op)
	var out []Outcome
	out = append(out, Outcome{c.st.clone(), vbool(false)})
	_ = p
	if n := c.st.num.assumeLe(t.Len.sub(s.Len)); n != nil {
		st := c.st.clone()
		st.num = n
		out = append(out, Outcome{st, vbool(true)})
	}
	return out
}

func init() {
	for _, p := range []string{"bytes", "strings"} {
		models[p+".IndexByte"] = indexModel(1)
		models[p+".LastIndexByte"] = indexModel(1)
		models[p+".IndexAny"] = indexModel(1)
		models[p+".IndexFunc"] = indexModel(1)
		models[p+".IndexRune"] = indexModel(1)
		models[p+".Index"] = indexModel(0)
		models[p+".LastIndex"] = indexModel(0)
		models[p+".HasPrefix"] = prefixModel
		models[p+".HasSuffix"] = prefixModel
		models[p+".Contains"] = prefixModel
		models[p+".Compare"] = func(c *Call) []Outcome {
			return c.outs(VInt{freshLin("cmp", i128(-1), i128(1))})
		}
		models[p+".Count"] = func(c *Call) []Outcome {
			r := freshLin("count", i128(0), i128(maxLen))
			c.st.num = c.st.num.addCon(r.sub(c.slice(0).Len).addC(-1), false)
			return c.outs(VInt{r})
		}
	}
	for _, f := range []string{"Split", "SplitAfter", "SplitN", "SplitAfterN", "Fields"} {
		models["bytes."+f] = splitModel
	}
	for _, f := range []string{"TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimSuffix", "TrimPrefix", "TrimFunc"} {
		models["bytes."+f] = func(c *Call) []Outcome { return c.anySub(c.slice(0)) }
	}
	models["bytes.Equal"] = func(c *Call) []Outcome {
		s, t := c.slice(0), c.slice(1)
		d := s.Len.sub(t.Len)
		out := []Outcome{{c.st.clone(), vbool(false)}}
		if n := c.st.num.assumeEq(d); n != nil {
			st := c.st.clone()
			st.num = n
			out = append(out, Outcome{st, vbool(true)})
		}
		return out
	}
	models["bytes.Clone"] = func(c *Call) []Outcome {
		s := c.slice(0)
		for _, r := range c.in.appendVal(c.fr, c.st, VSlice{Off: linC(0), Len: linC(0), Cap: linC(0), nilK: 1}, s, types.NewSlice(types.Typ[types.Uint8]), c.instr) {
			return []Outcome{{r.st, r.v}}
		}
		return fresh1(c)
	}
	models["bytes.Join"] = fresh1

	// ---- bytes.Buffer: a struct holding its slice and read offset
	buf := func(c *Call) (VPtr, VSlice, *Lin, bool) {
		p, ok := c.arg(0).(VPtr)
		if !ok {
			return VPtr{}, VSlice{}, nil, false
		}
		p.T = nil
		p.Path = append(append([]int(nil), p.Path...), 0)
		var s VSlice
		ok = false
		for _, r := range c.in.load(c.st, p) {
			s, ok = r.v.(VSlice)
			break
		}
		o := p
		o.Path = append([]int(nil), p.Path...)
		o.Path[len(o.Path)-1] = 1
		off := linC(0)
		for _, r := range c.in.load(c.st, o) {
			if i, isI := r.v.(VInt); isI {
				off = i.L
			}
			break
		}
		return p, s, off, ok
	}
	bufAppend := func(c *Call, src Val, ret func(n *Lin) Val) []Outcome {
		p, s, _, ok := buf(c)
		if !ok {
			return noop(c)
		}
		n := lenOf(src)
		var out []Outcome
		for _, r := range c.in.appendVal(c.fr, c.st, s, src, types.NewSlice(types.Typ[types.Uint8]), c.instr) {
			for _, s2 := range c.in.store(r.st, p, r.v) {
				out = append(out, Outcome{s2, ret(n)})
			}
		}
		return out
	}
	nErr := func(n *Lin) Val { return VTuple{[]Val{VInt{n}, VNil{}}} }
	models["(*bytes.Buffer).Write"] = func(c *Call) []Outcome { return bufAppend(c, c.slice(1), nErr) }
	models["(*bytes.Buffer).WriteString"] = func(c *Call) []Outcome { return bufAppend(c, c.str(1), nErr) }
	models["(*bytes.Buffer).WriteByte"] = func(c *Call) []Outcome {
		id := c.st.alloc(&Obj{kind: oRegion, typ: types.Typ[types.Uint8], written: true, n: linC(1), cells: []Cell{{linC(0), c.arg(1)}}, site: "byte"})
		return bufAppend(c, VSlice{R: []ObjID{id}, Off: linC(0), Len: linC(1), Cap: linC(1)}, func(*Lin) Val { return VNil{} })
	}
	models["(*bytes.Buffer).WriteRune"] = models["(*bytes.Buffer).WriteByte"]
	models["(*bytes.Buffer).Bytes"] = func(c *Call) []Outcome {
		_, s, off, ok := buf(c)
		if !ok {
			return noop(c)
		}
		s.Off, s.Len, s.Cap = s.Off.add(off), s.Len.sub(off), s.Cap.sub(off)
		return c.outs(s)
	}
	models["(*bytes.Buffer).String"] = func(c *Call) []Outcome {
		_, s, off, ok := buf(c)
		if !ok {
			return noop(c)
		}
		return c.outs(VStr{T: freshTerm("bufstr"), Len: s.Len.sub(off)})
	}
	models["(*bytes.Buffer).Len"] = func(c *Call) []Outcome {
		_, s, off, ok := buf(c)
		if !ok {
			return noop(c)
		}
		return c.outs(VInt{s.Len.sub(off)})
	}
	models["(*bytes.Buffer).Reset"] = func(c *Call) []Outcome {
		p, s, _, ok := buf(c)
		if !ok {
			return noop(c)
		}
		s.Len = linC(0)
		c.in.store(c.st, p, s)
		o := p
		o.Path = append([]int(nil), p.Path...)
		o.Path[len(o.Path)-1] = 1
		c.in.store(c.st, o, vint(0))
		return c.outs(VTuple{})
	}
	models["(*bytes.Buffer).Truncate"] = func(c *Call) []Outcome {
		p, s, off, ok := buf(c)
		if !ok {
			return noop(c)
		}
		s.Len = off.add(c.lin(1))
		c.in.store(c.st, p, s)
		return c.outs(VTuple{})
	}
	models["(*bytes.Buffer).Grow"] = func(c *Call) []Outcome {
		p, s, _, ok := buf(c)
		if !ok || len(s.R) > 0 {
			return noop(c)
		}
		// a private, empty backing array
		cp := freshLin("cap", i128(0), i128(maxLen))
		c.st.num = c.st.num.addCon(c.lin(1).sub(cp), false)
		id := c.st.alloc(&Obj{kind: oRegion, typ: types.Typ[types.Uint8], zero: true, n: cp, site: "Buffer.Grow"})
		c.in.store(c.st, p, VSlice{R: []ObjID{id}, Off: linC(0), Len: linC(0), Cap: cp})
		return c.outs(VTuple{})
	}
	newBuf := func(c *Call, s Val) []Outcome {
		pt := c.rtyp.(*types.Pointer).Elem()
		v := zeroVal(pt).(VStruct)
		v = v.with(0, s)
		id := c.st.alloc(&Obj{kind: oCell, typ: pt, val: v, site: "bytes.NewBuffer"})
		return c.outs(VPtr{Obj: id})
	}
	models["bytes.NewBuffer"] = func(c *Call) []Outcome { return newBuf(c, c.slice(0)) }
	models["bytes.NewBufferString"] = func(c *Call) []Outcome {
		return newBuf(c, c.in.convert(&Path{st: c.st}, c.str(0), types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])))
	}
	models["bytes.NewReader"] = func(c *Call) []Outcome {
		pt := c.rtyp.(*types.Pointer).Elem()
		v := zeroVal(pt).(VStruct).with(0, c.slice(0))
		id := c.st.alloc(&Obj{kind: oCell, typ: pt, val: v, site: "bytes.NewReader"})
		return c.outs(VPtr{Obj: id})
	}

	// ---- strconv
	appendNum := func(c *Call) []Outcome {
		n := freshLin("digits", i128(1), i128(400))
		var out []Outcome
		for _, r := range c.in.appendVal(c.fr, c.st, c.slice(0), VStr{T: freshTerm("digits"), Len: n}, types.NewSlice(types.Typ[types.Uint8]), c.instr) {
			out = append(out, Outcome{r.st, r.v})
		}
		return out
	}
	for _, f := range []string{"AppendInt", "AppendUint", "AppendFloat", "AppendBool", "AppendQuote"} {
		models["strconv."+f] = appendNum
	}

	// ---- fmt, errors, log
	models["errors.New"] = func(c *Call) []Outcome { return c.outs(errVal(c.st, "error")) }
	models["fmt.Errorf"] = func(c *Call) []Outcome {
		var ts []*Term
		for _, v := range c.variadic(1) {
			ts = append(ts, termOf(unwrap(v)))
		}
		return c.outs(errVal(c.st, "errorf", ts...))
	}
	sprint := func(from int) func(*Call) []Outcome {
		return func(c *Call) []Outcome {
			ts := []*Term{}
			if from == 1 {
				ts = append(ts, c.str(0).T)
			}
			for _, v := range c.variadic(from) {
				ts = append(ts, termOf(unwrap(v)))
			}
			if from == 0 && len(c.variadic(0)) == 1 {
				switch v := unwrap(c.variadic(0)[0]).(type) {
				case VStr:
					return c.outs(v)
				case VInt:
					if n, ok := v.L.constI64(); ok && strings.HasSuffix(c.name, "Sprint") {
						return c.outs(vstr(strconv.FormatInt(n, 10)))
					}
				}
			}
			t := tm("sprintf", ts...)
			return c.outs(VStr{T: t, Len: linV(symVar(t, "len", i128(0), i128(maxLen)))})
		}
	}
	models["fmt.Sprintf"] = sprint(1)
	models["fmt.Sprint"] = sprint(0)
	models["fmt.Sprintln"] = sprint(0)
	for _, f := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "os.Exit", "runtime.Goexit"} {
		models[f] = noReturn
	}
	models["fmt.Fprintf"] = func(c *Call) []Outcome {
		w := unwrap(c.arg(0))
		if p, ok := w.(VPtr); ok {
			if n, ok := c.st.obj(p.Obj).typ.(*types.Named); ok && n.Obj().Name() == "Buffer" {
				c2 := *c
				c2.args = []Val{p}
				s := VStr{T: freshTerm("fprintf"), Len: freshLin("len", i128(0), i128(maxLen))}
				return bufAppend(&c2, s, nErr)
			}
		}
		return fresh1(c)
	}

	// ---- time: instants are nanoseconds since the epoch
	t0 := func(c *Call, i int) *Lin {
		if x, ok := c.arg(i).(VInt); ok {
			return x.L
		}
		return freshLin("t", timeLo, timeHi)
	}
	models["time.Now"] = func(c *Call) []Outcome {
		return c.outs(VInt{freshLin("now", i128(0), i128(1<<62))})
	}
	models["(time.Time).UnixNano"] = func(c *Call) []Outcome {
		return c.outs(VInt{c.in.fit(c.st, t0(c, 0), types.Typ[types.Int64], false)})
	}
	models["(time.Time).Add"] = func(c *Call) []Outcome {
		l := t0(c, 0).add(c.lin(1))
		if l == nil {
			l = freshLin("t", timeLo, timeHi)
		}
		return c.outs(VInt{l})
	}
	models["(time.Time).Sub"] = func(c *Call) []Outcome {
		return c.outs(VInt{c.in.fit(c.st, t0(c, 0).sub(t0(c, 1)), types.Typ[types.Int64], false)})
	}
	models["(time.Time).Before"] = func(c *Call) []Outcome {
		return c.outs(VBool{pLE(t0(c, 0).sub(t0(c, 1)).addC(1))})
	}
	models["(time.Time).After"] = func(c *Call) []Outcome {
		return c.outs(VBool{pLE(t0(c, 1).sub(t0(c, 0)).addC(1))})
	}
	models["(time.Time).Equal"] = func(c *Call) []Outcome {
		return c.outs(VBool{pEQ(t0(c, 0).sub(t0(c, 1)))})
	}
	models["(time.Time).Compare"] = func(c *Call) []Outcome {
		d := t0(c, 0).sub(t0(c, 1))
		var out []Outcome
		if n := c.st.num.assumeLe(d.addC(1)); n != nil {
			out = append(out, c.withNum(n, vint(-1))...)
		}
		if n := c.st.num.assumeEq(d); n != nil {
			out = append(out, c.withNum(n, vint(0))...)
		}
		if n := c.st.num.assumeLe(d.neg().addC(1)); n != nil {
			out = append(out, c.withNum(n, vint(1))...)
		}
		return out
	}
	models["(time.Time).IsZero"] = func(c *Call) []Outcome {
		return c.outs(VBool{pLE(t0(c, 0).sub(linB(timeLo)))})
	}
	models["(time.Time).Truncate"] = func(c *Call) []Outcome {
		t, d := t0(c, 0), c.lin(1)
		r := linV(symVar(tm("truncate", linTerm1(t), linTerm1(d)), "trunc", timeLo, timeHi))
		var out []Outcome
		if n := c.st.num.assumeLe(d.neg().addC(1)); n != nil {
			n = n.addCon(r.sub(t), false).addCon(t.sub(r).sub(d).addC(1), false)
			out = append(out, c.withNum(n, VInt{r})...)
		}
		if n := c.st.num.assumeLe(d); n != nil {
			out = append(out, c.withNum(n, VInt{t})...)
		}
		return out
	}
	ident := func(c *Call) []Outcome { return c.outs(c.arg(0)) }
	for _, f := range []string{"UTC", "Local", "Round", "In"} {
		models["(time.Time)."+f] = ident
	}
	models["time.Unix"] = func(c *Call) []Outcome {
		l := c.lin(0).scale(1000000000)
		if l != nil {
			l = l.add(c.lin(1))
		}
		if l == nil {
			l = freshLin("t", timeLo, timeHi)
		}
		return c.outs(VInt{l})
	}
	for k, f := range map[string]int64{"UnixMilli": 1000000, "UnixMicro": 1000} {
		f := f
		models["time."+k] = func(c *Call) []Outcome {
			l := c.lin(0).scale(f)
			if l == nil {
				l = freshLin("t", timeLo, timeHi)
			}
			return c.outs(VInt{l})
		}
	}
	models["(time.Duration).Nanoseconds"] = ident

	// ---- I/O
	read := func(c *Call) []Outcome {
		s := c.slice(1)
		for _, r := range s.R {
			c.in.bulkWrite(c.fr, c.st, r, s.Off, s.Len, nil, nil, c.instr)
		}
		n := freshLin("nread", i128(0), i128(maxLen))
		c.st.num = c.st.num.addCon(n.sub(s.Len), false)
		s2 := c.st.clone()
		// io.EOF and other errors are distinguished by comparisons
		t := freshTerm("readerr")
		s2.facts[nilKey(t)] = false
		return []Outcome{{c.st, VTuple{[]Val{VInt{n}, VNil{}}}}, {s2, VTuple{[]Val{VInt{n}, VIface{T: t}}}}}
	}
	models["(io.Reader).Read"] = read
	models["(*net.UDPConn).Read"] = read
	models["(*net.conn).Read"] = read
	models["(net.Conn).Read"] = read
	models["(io.ReadCloser).Read"] = read
	models["(*nats.Subscription).SetPendingLimits"] = func(c *Call) []Outcome { return c.okOrErr("limits") }
	models["(io.Writer).Write"] = func(c *Call) []Outcome { return c.okOrErr("write") }

	// ---- sync
	models["(*sync.Mutex).Lock"] = func(c *Call) []Outcome {
		c.in.havocShared(c.fr, c.st, c.arg(0))
		return c.outs(VTuple{})
	}
	models["(*sync.RWMutex).Lock"] = models["(*sync.Mutex).Lock"]
	models["(*sync.RWMutex).RLock"] = models["(*sync.Mutex).Lock"]
	for _, f := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		models[f] = noop
	}
	models["(*sync.Once).Do"] = func(c *Call) []Outcome {
		f, ok := c.arg(1).(VFunc)
		if !ok {
			return noop(c)
		}
		s2 := c.st.clone()
		cc := *c
		cc.fn, cc.bind, cc.args = f.Fn, f.Bind, nil
		cc.rtyp = types.NewTuple()
		outs := c.in.inline(c.fr, &Path{st: c.st, env: map[ssa.Value]Val{}}, &cc)
		return append(outs, Outcome{s2, VTuple{}})
	}
	for _, ty := range []string{"Uint64", "Int64", "Uint32", "Int32"} {
		set := func(c *Call) []Outcome {
			v := c.fresh("atomic")
			if p, ok := c.arg(0).(VPtr); ok {
				p.T = nil
				c.in.store(c.st, p, v)
			}
			return c.outs(v)
		}
		models["sync/atomic.Add"+ty] = set
		models["sync/atomic.Load"+ty] = func(c *Call) []Outcome { return fresh1(c) }
		models["sync/atomic.Store"+ty] = func(c *Call) []Outcome {
			if p, ok := c.arg(0).(VPtr); ok {
				p.T = nil
				c.in.store(c.st, p, c.arg(1))
			}
			return c.outs(VTuple{})
		}
		models["sync/atomic.CompareAndSwap"+ty] = fresh1
	}

	// ---- registration of callbacks
	models["(*net/http.ServeMux).HandleFunc"] = func(c *Call) []Outcome {
		c.in.addCallback("http", c, 2)
		return c.outs(VTuple{})
	}
	models["net/http.HandleFunc"] = func(c *Call) []Outcome {
		c.in.addCallback("http", c, 1)
		return c.outs(VTuple{})
	}
	models["(*nats.Conn).Subscribe"] = func(c *Call) []Outcome {
		c.in.addCallback("nats", c, 2)
		return c.okOrErr("subscribe")
	}
	models["(*nats.Conn).QueueSubscribe"] = func(c *Call) []Outcome {
		c.in.addCallback("nats", c, 3)
		return c.okOrErr("subscribe")
	}
	models["(filter.natsConn).QueueSubscribe"] = models["(*nats.Conn).QueueSubscribe"]
	models["(filter.natsConn).Subscribe"] = models["(*nats.Conn).Subscribe"]

	// ---- sort
	models["sort.Slice"] = func(c *Call) []Outcome {
		s, ok := unwrap(c.arg(0)).(VSlice)
		f, ok2 := c.arg(1).(VFunc)
		if ok && ok2 {
			c.callIdx(f.Fn, f.Bind, nil, s.Len)
			c.shuffle(s)
		}
		return c.outs(VTuple{})
	}
	models["sort.SliceStable"] = models["sort.Slice"]
	models["sort.Sort"] = func(c *Call) []Outcome { return c.sortIface(true) }
	models["sort.Stable"] = models["sort.Sort"]
	models["sort.IsSorted"] = func(c *Call) []Outcome { return c.sortIface(false) }
	models["sort.Strings"] = func(c *Call) []Outcome {
		c.shuffle(c.slice(0))
		return c.outs(VTuple{})
	}

	// ---- container/list
	models["container/list.New"] = func(c *Call) []Outcome {
		pt := c.rtyp.(*types.Pointer).Elem()
		id := c.st.alloc(&Obj{kind: oCell, typ: pt, val: zeroVal(pt), site: "list.New"})
		return c.outs(VPtr{Obj: id})
	}
	push := func(c *Call) []Outcome {
		if p, ok := c.arg(0).(VPtr); ok {
			n := c.st.mut(p.Obj)
			sh := c.in.shapeOf(c.st, c.arg(1))
			if n.shape == nil {
				n.shape = sh
			} else {
				b := false
				n.shape = joinShape(n.shape, sh, &b)
			}
		}
		return c.outs(nonNil(c.fresh("element")))
	}
	models["(*container/list.List).PushBack"] = push
	models["(*container/list.List).PushFront"] = push
	elem := func(c *Call, lst Val) []Outcome {
		pt := c.rtyp.(*types.Pointer).Elem()
		t := freshTerm("element")
		v := symVal(pt, t).(VStruct)
		st := pt.Underlying().(*types.Struct)
		var sh *Shape
		if p, ok := lst.(VPtr); ok && c.st.hasObj(p.Obj) {
			sh = c.st.obj(p.Obj).shape
		}
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Value":
				v = v.with(i, c.in.freshByShape(st.Field(i).Type(), sh, "listval"))
			case "list":
				v = v.with(i, lst)
			}
		}
		s2 := c.st.clone()
		id := c.st.alloc(&Obj{kind: oCell, typ: pt, val: v, site: "list element"})
		return []Outcome{{c.st, VPtr{Obj: id}}, {s2, VNil{}}}
	}
	front := func(c *Call) []Outcome {
		p, ok := c.arg(0).(VPtr)
		if !ok {
			return fresh1(c)
		}
		p.T = nil
		if c.st.obj(p.Obj).kind == oCell && len(p.Path) > 0 {
			return fresh1(c)
		}
		return elem(c, p)
	}
	models["(*container/list.List).Front"] = front
	models["(*container/list.List).Back"] = front
	next := func(c *Call) []Outcome {
		p, ok := c.arg(0).(VPtr)
		if !ok {
			return fresh1(c)
		}
		st := c.rtyp.(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "list" {
				q := p
				q.T = nil
				q.Path = append(append([]int(nil), p.Path...), i)
				for _, r := range c.in.load(c.st, q) {
					return elem(c, r.v)
				}
			}
		}
		return fresh1(c)
	}
	models["(*container/list.Element).Next"] = next
	models["(*container/list.Element).Prev"] = next
	models["(*container/list.List).Len"] = func(c *Call) []Outcome {
		return c.outs(VInt{freshLin("listlen", i128(0), i128(maxLen))})
	}
	for _, f := range []string{"MoveToBack", "MoveToFront", "Remove", "Init"} {
		models["(*container/list.List)."+f] = noop
	}

	// ---- bufio.Scanner
	models["bufio.NewScanner"] = func(c *Call) []Outcome {
		pt := c.rtyp.(*types.Pointer).Elem()
		id := c.st.alloc(&Obj{kind: oCell, typ: pt, sym: freshTerm("scanner"), site: "scanner"})
		return c.outs(VPtr{Obj: id})
	}
	models["(*bufio.Scanner).Split"] = func(c *Call) []Outcome {
		if f, ok := c.arg(1).(VFunc); ok && len(f.Fn.Blocks) > 0 {
			// the scanner calls the split function with any data
			cc := *c
			cc.fn, cc.bind = f.Fn, f.Bind
			t := freshTerm("scandata")
			cc.args = []Val{nonNil(symVal(types.NewSlice(types.Typ[types.Uint8]), t)), symVal(types.Typ[types.Bool], freshTerm("ateof"))}
			cc.rtyp = f.Fn.Signature.Results()
			cc.st = c.st.clone()
			c.in.inline(c.fr, &Path{st: cc.st, env: map[ssa.Value]Val{}}, &cc)
		}
		return c.outs(VTuple{})
	}
	models["(*bufio.Scanner).Bytes"] = func(c *Call) []Outcome { return c.outs(nonNil(c.fresh("scanned"))) }

	models["(*sync/atomic.Value).Load"] = fresh1
	models["(*sync/atomic.Value).Store"] = noop
	models["regexp.MustCompile"] = func(c *Call) []Outcome { return c.outs(nonNil(c.fresh("regexp"))) }
	models["net/http.NewServeMux"] = func(c *Call) []Outcome { return c.outs(nonNil(c.fresh("mux"))) }
	models["(github.com/c2h5oh/datasize.ByteSize).Bytes"] = func(c *Call) []Outcome {
		l := c.lin(0)
		c.st.num = c.st.num.addCon(l.addC(-maxLen), false)
		return c.outs(VInt{l})
	}
	models["os.Getpagesize"] = func(c *Call) []Outcome { return c.outs(VInt{freshLin("pagesize", i128(4096), i128(1<<20))}) }
}

// callIdx runs a comparison function once on any two valid indices.
func (c *Call) callIdx(fn *ssa.Function, bind []Val, pre []Val, n *Lin) []Outcome {
	i := freshLin("i", i128(0), i128(maxLen))
	j := freshLin("j", i128(0), i128(maxLen))
	num := c.st.num.assumeLe(i.sub(n).addC(1))
	if num != nil {
		num = num.assumeLe(j.sub(n).addC(1))
	}
	if num == nil {
		return nil
	}
	cc := *c
	cc.st = c.st.clone()
	cc.st.num = num
	cc.fn, cc.bind = fn, bind
	cc.args = append(append([]Val(nil), pre...), VInt{i}, VInt{j})
	cc.rtyp = fn.Signature.Results()
	return c.in.inline(c.fr, &Path{st: cc.st, env: map[ssa.Value]Val{}}, &cc)
}
func (c *Call) shuffle(s VSlice) {
	for _, r := range s.R {
		o := c.st.mut(r)
		o.cells = nil
		if !o.written {
			o.written = true
			if o.sym != nil {
				o.shape = nil
			}
		}
	}
}
func (c *Call) sortIface(swap bool) []Outcome {
	ret := func() []Outcome {
		if t, ok := c.rtyp.(*types.Tuple); ok && t.Len() == 0 {
			return c.outs(VTuple{})
		}
		return fresh1(c)
	}
	iv, ok := c.arg(0).(VIface)
	if !ok || iv.Dyn == nil {
		return ret()
	}
	var n *Lin
	if s, ok := iv.V.(VSlice); ok {
		n = s.Len
	} else {
		return ret()
	}
	ms := c.in.pr.prog.MethodSets.MethodSet(iv.Dyn)
	for _, m := range []string{"Less", "Swap"} {
		if m == "Swap" && !swap {
			continue
		}
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == m {
				if f := c.in.pr.prog.MethodValue(ms.At(k)); f != nil && len(f.Blocks) > 0 {
					c.callIdx(f, nil, []Val{iv.V}, n)
				}
			}
		}
	}
	if swap {
		c.shuffle(iv.V.(VSlice))
	}
	return ret()
}

// addCallback registers argument i, a function, as an entry point that other
// code calls with unknown arguments.
func (in *Interp) addCallback(kind string, c *Call, i int) {
	if !in.rec || in.rootsOff {
		return
	}
	for _, a := range flatAlts(c.args[i]) {
		f, ok := a.(VFunc)
		if !ok {
			continue
		}
		var args []Val
		for k, p := range f.Fn.Params {
			v := symVal(p.Type(), tm("cb:"+f.Fn.String()+":"+strconv.Itoa(k)))
			if iv, ok := v.(VIface); ok {
				c.st.facts[nilKey(iv.T)] = false
			}
			args = append(args, nonNil(v))
		}
		in.addRoot(kind, a, args, &Path{st: c.st}, c.instr)
	}
}

// havocShared forgets the fields other goroutines may have changed while the
// lock was free: every mutable field of the lock's owner and of the
// structures reachable from it.
func (in *Interp) havocShared(fr *Frame, st *State, mu Val) {
	if in.noHavoc {
		return
	}
	p, ok := mu.(VPtr)
	if !ok || !st.hasObj(p.Obj) {
		return
	}
	seen := map[ObjID]bool{}
	var visit func(id ObjID)
	var val func(v Val, t types.Type) Val
	val = func(v Val, t types.Type) Val {
		s, ok := v.(VStruct)
		if !ok {
			return v
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok || isConfigType(t) {
			return v
		}
		for i := 0; i < u.NumFields(); i++ {
			if in.pr.mutable(t, i) {
				s = s.with(i, nonNil(symVal(u.Field(i).Type(), freshTerm("shared."+u.Field(i).Name()))))
			} else if s.F[i] != nil {
				s = s.with(i, val(s.F[i], u.Field(i).Type()))
			}
		}
		return s
	}
	visit = func(id ObjID) {
		if seen[id] || !st.hasObj(id) {
			return
		}
		seen[id] = true
		o := st.obj(id)
		if o.kind != oCell {
			return
		}
		if n, ok := types.Unalias(o.typ).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), in.pr.mod) {
			return
		}
		m := st.mut(id)
		if m.val == nil {
			m.val = cellInit(o)
		}
		m.val = val(m.val, o.typ)
		walkVal(m.val, func(*Lin) {}, func(x ObjID) { visit(x) }, nil)
	}
	visit(p.Obj)
}

func isConfigType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Config" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "config"
}
