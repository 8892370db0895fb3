package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- terms

// Term is a hash-consed uninterpreted expression: the provenance of an
// opaque value.
type Term struct {
	op   string
	args []*Term
	id   int
}

var termTab = map[string]*Term{}
var termN int
var freshN int

func tm(op string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	for _, a := range args {
		b.WriteByte('\x00')
		if a == nil {
			b.WriteByte('-')
		} else {
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if t := termTab[k]; t != nil {
		return t
	}
	termN++
	t := &Term{op: op, args: args, id: termN}
	termTab[k] = t
	return t
}
func freshTerm(op string, args ...*Term) *Term {
	freshN++
	termN++
	return &Term{op: op + "'" + strconv.Itoa(freshN), args: args, id: termN}
}
func (t *Term) String() string {
	if t == nil {
		return "-"
	}
	if len(t.args) == 0 {
		return t.op
	}
	s := make([]string, len(t.args))
	for i, a := range t.args {
		s[i] = a.String()
	}
	return t.op + "(" + strings.Join(s, ",") + ")"
}

// mentions reports whether sub occurs in t.
func (t *Term) mentions(f func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.mentions(f) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- predicates

type predKind int

const (
	pConst predKind = iota
	pLe             // l <= 0
	pEq             // l == 0
	pAtom           // atom
	pNot
	pAnd
	pOr
)

type Pred struct {
	k    predKind
	b    bool
	l    *Lin
	atom string // facts key
	a, c *Pred
}

var predTrue = &Pred{k: pConst, b: true}
var predFalse = &Pred{k: pConst}

func pLE(l *Lin) *Pred {
	if l == nil {
		return pATOM(freshTerm("le").op)
	}
	if len(l.t) == 0 {
		if l.c.sign() <= 0 {
			return predTrue
		}
		return predFalse
	}
	return &Pred{k: pLe, l: l}
}
func pEQ(l *Lin) *Pred {
	if l == nil {
		return pATOM(freshTerm("eq").op)
	}
	if len(l.t) == 0 {
		if l.c.sign() == 0 {
			return predTrue
		}
		return predFalse
	}
	return &Pred{k: pEq, l: l}
}
func pATOM(s string) *Pred { return &Pred{k: pAtom, atom: s} }
func pNOT(p *Pred) *Pred {
	switch p.k {
	case pConst:
		if p.b {
			return predFalse
		}
		return predTrue
	case pNot:
		return p.a
	case pLe:
		return pLE(combine(p.l, -1, linC(1), 1))
	}
	return &Pred{k: pNot, a: p}
}
func (p *Pred) key() string {
	switch p.k {
	case pConst:
		return strconv.FormatBool(p.b)
	case pLe:
		return p.l.key() + "<=0"
	case pEq:
		return p.l.key() + "=0"
	case pAtom:
		return p.atom
	case pNot:
		return "!(" + p.a.key() + ")"
	case pAnd:
		return "(" + p.a.key() + "&" + p.c.key() + ")"
	}
	return "(" + p.a.key() + "|" + p.c.key() + ")"
}

// ---------------------------------------------------------------- values

type ObjID int32

type Val interface{}

type VInt struct{ L *Lin }
type VBool struct{ P *Pred }
type VStr struct {
	T     *Term
	Len   *Lin
	Const *string
}
type VNil struct{}
type VOpaque struct {
	T   *Term
	typ types.Type
}
type VSlice struct {
	R             []ObjID
	Off, Len, Cap *Lin
	nilK          int8 // 0 non-nil, 1 nil, 2 unknown (T)
	T             *Term
}
type VPtr struct {
	Obj  ObjID
	Idx  *Lin
	Path []int
	T    *Term // when set, may be nil; decided by facts
}
type VStruct struct {
	F   []Val
	T   *Term
	typ types.Type
}
type VIface struct {
	Dyn types.Type
	V   Val
	T   *Term // unknown dynamic value
}
type VFunc struct {
	Fn   *ssa.Function
	Bind []Val
}
type VTuple struct{ E []Val }
type VAlt struct{ A []Val }

func vint(n int64) VInt { return VInt{linC(n)} }
func vbool(b bool) VBool {
	if b {
		return VBool{predTrue}
	}
	return VBool{predFalse}
}
func vstr(s string) VStr {
	return VStr{T: tm("str:" + s), Len: linC(int64(len(s))), Const: &s}
}

// ---------------------------------------------------------------- objects

type Cell struct {
	idx *Lin
	v   Val
}

type objKind int8

const (
	oCell objKind = iota
	oRegion
	oMap
	oChan
)

type Obj struct {
	kind    objKind
	typ     types.Type // cell: value type; region: element type; map/chan: the type
	site    string
	sym     *Term // provenance of initial content
	val     Val
	zero    bool // region content initially zero
	written bool
	cells   []Cell
	shape   *Shape
	n       *Lin // region: allocated length when known
	aux     map[string]Val
	havoc   bool
}

func (o *Obj) copy() *Obj {
	c := *o
	return &c
}

// Shape summarises untracked elements by kind only.
type Shape struct {
	any    bool // nothing known
	maybe0 bool // may be nil
	fns    []*ssa.Function
	dyns   []types.Type
	fields []*Shape
}

type symObj struct {
	kind objKind
	typ  types.Type
	t    *Term
}

var objN ObjID
var symObjs = map[ObjID]symObj{}
var symObjByTerm = map[string]ObjID{}

func newObjID() ObjID { objN++; return objN }

func symObjID(kind objKind, typ types.Type, t *Term) ObjID {
	k := strconv.Itoa(t.id) + "/" + strconv.Itoa(int(kind)) + typ.String()
	if id, ok := symObjByTerm[k]; ok {
		return id
	}
	id := newObjID()
	symObjByTerm[k] = id
	symObjs[id] = symObj{kind, typ, t}
	return id
}

// ---------------------------------------------------------------- state

type State struct {
	num   *Num
	heap  map[ObjID]*Obj
	facts map[string]bool
	g     map[string]Val
	d     map[string]string
}

func newState() *State {
	return &State{num: emptyNum, heap: map[ObjID]*Obj{}, facts: map[string]bool{}, g: map[string]Val{}, d: map[string]string{}}
}
func (s *State) clone() *State {
	n := &State{num: s.num}
	n.heap = make(map[ObjID]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.facts = make(map[string]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.g = make(map[string]Val, len(s.g))
	for k, v := range s.g {
		n.g[k] = v
	}
	n.d = make(map[string]string, len(s.d))
	for k, v := range s.d {
		n.d[k] = v
	}
	return n
}
func (s *State) obj(id ObjID) *Obj {
	if o := s.heap[id]; o != nil {
		return o
	}
	if d, ok := symObjs[id]; ok {
		o := &Obj{kind: d.kind, typ: d.typ, sym: d.t, site: "sym:" + d.t.String()}
		s.heap[id] = o
		return o
	}
	panic(fmt.Sprintf("engine: object %d not in heap", id))
}
func (s *State) hasObj(id ObjID) bool {
	if s.heap[id] != nil {
		return true
	}
	_, ok := symObjs[id]
	return ok
}
func (s *State) mut(id ObjID) *Obj {
	o := s.obj(id).copy()
	s.heap[id] = o
	return o
}
func (s *State) alloc(o *Obj) ObjID {
	id := newObjID()
	s.heap[id] = o
	return id
}

// ---------------------------------------------------------------- type helpers

func isTime(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		return o.Pkg() != nil && o.Pkg().Path() == "time" && o.Name() == "Time"
	}
	return false
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var timeLo, timeHi I128

func init() {
	timeHi, _ = i128(1 << 62).mul(1 << 8)
	timeLo = timeHi.neg()
}

const maxLen = int64(1) << 46

func intRange(t types.Type) (lo, hi I128, ok bool) {
	if isTime(t) {
		return timeLo, timeHi, true
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return i128(-128), i128(127), true
	case types.Int16:
		return i128(-32768), i128(32767), true
	case types.Int32, types.UntypedRune:
		return i128(-1 << 31), i128(1<<31 - 1), true
	case types.Uint8:
		return i128(0), i128(255), true
	case types.Uint16:
		return i128(0), i128(65535), true
	case types.Uint32:
		return i128(0), i128(1<<32 - 1), true
	case types.Uint, types.Uint64, types.Uintptr:
		return i128(0), u128(1<<64 - 1), true
	}
	return i128(-1 << 63), i128(1<<63 - 1), true
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

var symVarTab = map[string]Var{}
var varTerm = map[Var]*Term{}

func symVar(t *Term, what string, lo, hi I128) Var {
	k := what + "/" + strconv.Itoa(t.id)
	if v, ok := symVarTab[k]; ok {
		return v
	}
	n := t.String()
	if len(n) > 60 {
		n = n[:57] + "..."
	}
	v := newVarRange(what+"("+n+")", lo, hi)
	symVarTab[k] = v
	varTerm[v] = t
	return v
}

// symVal is the canonical symbolic value of a type with provenance t.
func symVal(typ types.Type, t *Term) Val {
	if isTime(typ) {
		return VInt{linV(symVar(t, "time", timeLo, timeHi))}
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi, _ := intRange(typ)
			return VInt{linV(symVar(t, "int", lo, hi))}
		case u.Info()&types.IsBoolean != 0:
			return VBool{pATOM("atom:" + strconv.Itoa(t.id))}
		case u.Info()&types.IsString != 0:
			return VStr{T: t, Len: linV(symVar(t, "len", i128(0), i128(maxLen)))}
		case u.Kind() == types.UntypedNil:
			return VNil{}
		}
		return VOpaque{t, typ}
	case *types.Slice:
		l := linV(symVar(t, "len", i128(0), i128(maxLen/2)))
		x := linV(symVar(t, "spare", i128(0), i128(maxLen/2)))
		return VSlice{R: []ObjID{symObjID(oRegion, u.Elem(), t)}, Off: linC(0), Len: l, Cap: l.add(x), nilK: 2, T: t}
	case *types.Pointer:
		return VPtr{Obj: symObjID(oCell, u.Elem(), t), T: t}
	case *types.Map:
		return VPtr{Obj: symObjID(oMap, typ, t), T: t}
	case *types.Chan:
		return VPtr{Obj: symObjID(oChan, typ, t), T: t}
	case *types.Struct:
		return VStruct{F: make([]Val, u.NumFields()), T: t, typ: typ}
	case *types.Array:
		if u.Len() <= 16 {
			return VStruct{F: make([]Val, u.Len()), T: t, typ: typ}
		}
		return VOpaque{t, typ}
	case *types.Interface:
		return VIface{T: t}
	case *types.Tuple:
		out := VTuple{}
		for i := 0; i < u.Len(); i++ {
			out.E = append(out.E, symVal(u.At(i).Type(), tm("#"+strconv.Itoa(i), t)))
		}
		return out
	}
	return VOpaque{t, typ}
}

func zeroVal(typ types.Type) Val {
	if isTime(typ) {
		return VInt{linV(symVar(tm("zerotime"), "time", timeLo, timeLo))}
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return vint(0)
		case u.Info()&types.IsBoolean != 0:
			return vbool(false)
		case u.Info()&types.IsString != 0:
			return vstr("")
		case u.Info()&types.IsFloat != 0:
			return VOpaque{tm("0.0"), typ}
		}
		return VNil{}
	case *types.Slice:
		return VSlice{Off: linC(0), Len: linC(0), Cap: linC(0), nilK: 1}
	case *types.Struct:
		out := VStruct{F: make([]Val, u.NumFields()), typ: typ}
		for i := range out.F {
			out.F[i] = zeroVal(u.Field(i).Type())
		}
		return out
	case *types.Array:
		if u.Len() <= 16 {
			out := VStruct{F: make([]Val, u.Len()), typ: typ}
			for i := range out.F {
				out.F[i] = zeroVal(u.Elem())
			}
			return out
		}
		return VOpaque{tm("zero:" + typ.String()), typ}
	}
	return VNil{}
}

// field reads component i of a struct/array value, materialising lazily.
func (v VStruct) field(i int) Val {
	if v.F[i] != nil {
		return v.F[i]
	}
	switch u := v.typ.Underlying().(type) {
	case *types.Struct:
		return symVal(u.Field(i).Type(), tm("."+u.Field(i).Name(), v.T))
	case *types.Array:
		return symVal(u.Elem(), tm("["+strconv.Itoa(i)+"]", v.T))
	}
	panic("field")
}
func (v VStruct) with(i int, x Val) VStruct {
	n := VStruct{F: append([]Val(nil), v.F...), T: v.T, typ: v.typ}
	n.F[i] = x
	return n
}

// ---------------------------------------------------------------- printing and shape tags

func valString(v Val) string {
	switch x := v.(type) {
	case nil:
		return "·"
	case VInt:
		return x.L.String()
	case VBool:
		return "bool:" + x.P.key()
	case VStr:
		if x.Const != nil {
			return strconv.Quote(*x.Const)
		}
		return "str:" + x.T.String()
	case VNil:
		return "nil"
	case VOpaque:
		return "opq:" + x.T.String()
	case VSlice:
		return fmt.Sprintf("slice{%v off=%v len=%v cap=%v nil=%d}", x.R, x.Off, x.Len, x.Cap, x.nilK)
	case VPtr:
		s := fmt.Sprintf("&%d", x.Obj)
		if x.Idx != nil {
			s += "[" + x.Idx.String() + "]"
		}
		for _, p := range x.Path {
			s += "." + strconv.Itoa(p)
		}
		if x.T != nil {
			s += "?" + x.T.String()
		}
		return s
	case VStruct:
		s := make([]string, len(x.F))
		for i := range x.F {
			s[i] = valString(x.F[i])
		}
		return "{" + strings.Join(s, ", ") + "}"
	case VIface:
		if x.Dyn != nil {
			return "iface<" + x.Dyn.String() + ">" + valString(x.V)
		}
		return "iface?" + x.T.String()
	case VFunc:
		return "func:" + x.Fn.String()
	case VTuple:
		s := make([]string, len(x.E))
		for i := range x.E {
			s[i] = valString(x.E[i])
		}
		return "(" + strings.Join(s, ", ") + ")"
	case VAlt:
		s := make([]string, len(x.A))
		for i := range x.A {
			s[i] = valString(x.A[i])
		}
		return "alt[" + strings.Join(s, " | ") + "]"
	}
	return fmt.Sprintf("%T", v)
}

// tag is the discrete shape of a value, used to partition states.
func (s *State) tag(v Val) string {
	switch x := v.(type) {
	case VBool:
		if x.P.k == pConst {
			return x.P.key()
		}
		if x.P.k == pAtom {
			if b, ok := s.facts[x.P.atom]; ok {
				return strconv.FormatBool(b)
			}
		}
		return "b"
	case VNil:
		return "nil"
	case VPtr:
		if x.T != nil {
			if b, ok := s.facts[nilKey(x.T)]; ok {
				if b {
					return "nil"
				}
				return "p"
			}
			return "p?"
		}
		return "p"
	case VIface:
		if x.Dyn != nil {
			return "i:" + x.Dyn.String()
		}
		if b, ok := s.facts[nilKey(x.T)]; ok {
			if b {
				return "nil"
			}
			return "i!"
		}
		return "i?"
	case VFunc:
		return "f:" + x.Fn.String()
	case VSlice:
		if x.nilK == 1 {
			return "nil"
		}
		return "s"
	case VTuple:
		out := ""
		for _, e := range x.E {
			out += s.tag(e) + ","
		}
		return out
	case VAlt:
		return "alt"
	}
	return ""
}

func nilKey(t *Term) string { return "nil:" + strconv.Itoa(t.id) }

// ---------------------------------------------------------------- traversal

// walkVal visits linear expressions, object ids and terms in a value.
func walkVal(v Val, fl func(*Lin), fo func(ObjID), ft func(*Term)) {
	switch x := v.(type) {
	case VInt:
		fl(x.L)
	case VBool:
		walkPred(x.P, fl)
	case VStr:
		fl(x.Len)
		if ft != nil && x.T != nil {
			ft(x.T)
		}
	case VOpaque:
		if ft != nil && x.T != nil {
			ft(x.T)
		}
	case VSlice:
		fl(x.Off)
		fl(x.Len)
		fl(x.Cap)
		for _, r := range x.R {
			fo(r)
		}
		if ft != nil && x.T != nil {
			ft(x.T)
		}
	case VPtr:
		fo(x.Obj)
		if x.Idx != nil {
			fl(x.Idx)
		}
		if ft != nil && x.T != nil {
			ft(x.T)
		}
	case VStruct:
		for _, f := range x.F {
			if f != nil {
				walkVal(f, fl, fo, ft)
			}
		}
		if ft != nil && x.T != nil {
			ft(x.T)
		}
	case VIface:
		if x.V != nil {
			walkVal(x.V, fl, fo, ft)
		}
		if ft != nil && x.T != nil {
			ft(x.T)
		}
	case VFunc:
		for _, b := range x.Bind {
			walkVal(b, fl, fo, ft)
		}
	case VTuple:
		for _, b := range x.E {
			walkVal(b, fl, fo, ft)
		}
	case VAlt:
		for _, b := range x.A {
			walkVal(b, fl, fo, ft)
		}
	}
}
func walkPred(p *Pred, fl func(*Lin)) {
	if p == nil {
		return
	}
	if p.l != nil {
		fl(p.l)
	}
	walkPred(p.a, fl)
	walkPred(p.c, fl)
}
func walkObj(o *Obj, fl func(*Lin), fo func(ObjID), ft func(*Term)) {
	if o.val != nil {
		walkVal(o.val, fl, fo, ft)
	}
	if o.n != nil {
		fl(o.n)
	}
	if ft != nil && o.sym != nil {
		ft(o.sym)
	}
	for _, c := range o.cells {
		fl(c.idx)
		walkVal(c.v, fl, fo, ft)
	}
	for _, k := range sortedKeys(o.aux) {
		walkVal(o.aux[k], fl, fo, ft)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// mapVal rebuilds a value applying substitutions.
type substMap struct {
	lin  map[Var]*Lin
	obj  map[ObjID]ObjID
	term map[*Term]*Term
}

func (m *substMap) tt(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r := m.term[t]; r != nil {
		return r
	}
	return t
}

func (m *substMap) l(x *Lin) *Lin {
	if x == nil {
		return nil
	}
	r := x.subst(m.lin)
	if r == nil {
		return linV(newVar("ovf"))
	}
	return r
}
func (m *substMap) o(x ObjID) ObjID {
	if r, ok := m.obj[x]; ok {
		return r
	}
	return x
}
func (m *substMap) p(p *Pred) *Pred {
	if p == nil {
		return nil
	}
	switch p.k {
	case pLe:
		return pLE(m.l(p.l))
	case pEq:
		return pEQ(m.l(p.l))
	case pNot, pAnd, pOr:
		return &Pred{k: p.k, a: m.p(p.a), c: m.p(p.c)}
	}
	return p
}
func (m *substMap) v(v Val) Val {
	switch x := v.(type) {
	case VInt:
		return VInt{m.l(x.L)}
	case VBool:
		return VBool{m.p(x.P)}
	case VStr:
		x.Len = m.l(x.Len)
		x.T = m.tt(x.T)
		return x
	case VOpaque:
		x.T = m.tt(x.T)
		return x
	case VSlice:
		x.Off, x.Len, x.Cap = m.l(x.Off), m.l(x.Len), m.l(x.Cap)
		r := make([]ObjID, len(x.R))
		for i := range r {
			r[i] = m.o(x.R[i])
		}
		x.R = r
		x.T = m.tt(x.T)
		return x
	case VPtr:
		x.T = m.tt(x.T)
		x.Obj = m.o(x.Obj)
		x.Idx = m.l(x.Idx)
		return x
	case VStruct:
		f := make([]Val, len(x.F))
		for i := range f {
			if x.F[i] != nil {
				f[i] = m.v(x.F[i])
			}
		}
		x.F = f
		return x
	case VIface:
		if x.V != nil {
			x.V = m.v(x.V)
		}
		x.T = m.tt(x.T)
		return x
	case VFunc:
		b := make([]Val, len(x.Bind))
		for i := range b {
			b[i] = m.v(x.Bind[i])
		}
		x.Bind = b
		return x
	case VTuple:
		b := make([]Val, len(x.E))
		for i := range b {
			b[i] = m.v(x.E[i])
		}
		return VTuple{b}
	case VAlt:
		b := make([]Val, len(x.A))
		for i := range b {
			b[i] = m.v(x.A[i])
		}
		return VAlt{b}
	}
	return v
}
func (m *substMap) obj1(o *Obj) *Obj {
	c := o.copy()
	if c.val != nil {
		c.val = m.v(c.val)
	}
	c.n = m.l(c.n)
	c.sym = m.tt(c.sym)
	if len(o.cells) > 0 {
		c.cells = make([]Cell, len(o.cells))
		for i, x := range o.cells {
			c.cells[i] = Cell{m.l(x.idx), m.v(x.v)}
		}
	}
	if o.aux != nil {
		c.aux = map[string]Val{}
		for k, v := range o.aux {
			c.aux[k] = m.v(v)
		}
	}
	return c
}
func (m *substMap) state(s *State) *State {
	n := s.clone()
	n.num = s.num.substAll(m.lin)
	n.heap = make(map[ObjID]*Obj, len(s.heap))
	for k, o := range s.heap {
		n.heap[m.o(k)] = m.obj1(o)
	}
	for k, v := range n.g {
		n.g[k] = m.v(v)
	}
	for t, r := range m.term {
		if b, ok := n.facts[nilKey(t)]; ok {
			delete(n.facts, nilKey(t))
			n.facts[nilKey(r)] = b
		}
	}
	return n
}
