package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where the configured password can flow to. Values are followed through the
// SSA form of the whole program; what is stored in a field of a struct comes
// out of that field wherever it is read. Bit 1 is the password itself or text
// made from it, bit 2 a struct which contains it, converted to an interface.

const (
	secText = 1 << iota
	secWhole
)

type secretFlow struct {
	c     *Ctx
	val   map[ssa.Value]int
	field map[string]int
	rets  map[*ssa.Function]map[int]int
	work  bool
	taken map[string][]*ssa.Function // functions used as values, by signature
	leaks map[string]string
	sites map[string]bool
}

func (s *secretFlow) mark(v ssa.Value, b int) {
	if v == nil || b == 0 {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if s.val[v]|b != s.val[v] {
		s.val[v] |= b
		s.work = true
	}
}

func secField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, nil) + "#" + t.Underlying().(*types.Struct).Field(i).Name()
}

// holds tells whether printing a value of this type would show the secret.
func (s *secretFlow) holds(t types.Type, top bool) bool {
	switch n := types.TypeString(t, nil); n {
	case "net/http.Header", "net/http.Request", "*net/http.Request":
		return true
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && top {
		t = p.Elem()
	}
	switch x := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if s.field[secField(t, i)]&secText != 0 || s.holds(x.Field(i).Type(), false) {
				return true
			}
		}
	case *types.Slice:
		return s.holds(x.Elem(), false)
	case *types.Array:
		return s.holds(x.Elem(), false)
	}
	return false
}

// into marks the memory an address leads to.
func (s *secretFlow) into(addr ssa.Value, b int) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		k := secField(x.X.Type(), x.Field)
		if s.field[k]|b != s.field[k] {
			s.field[k] |= b
			s.work = true
		}
	case *ssa.IndexAddr:
		s.mark(x.X, b)
		s.into(x.X, b)
	case *ssa.UnOp:
		s.into(x.X, b)
	case *ssa.Slice:
		s.mark(x.X, b)
		s.into(x.X, b)
	case *ssa.Phi:
		if s.val[x]&b == b {
			return
		}
		s.mark(x, b)
		for _, e := range x.Edges {
			s.into(e, b)
		}
	case *ssa.ChangeType:
		s.into(x.X, b)
	case *ssa.MakeInterface:
		s.into(x.X, b)
	}
	s.mark(addr, b)
}

func (s *secretFlow) calleesOf(cc *ssa.CallCommon) []*ssa.Function {
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if cc.IsInvoke() {
		var out []*ssa.Function
		for _, f := range s.c.pr.funcs {
			r := f.Signature.Recv()
			if r != nil && f.Name() == cc.Method.Name() && types.Implements(r.Type(), cc.Value.Type().Underlying().(*types.Interface)) {
				out = append(out, f)
			}
		}
		return out
	}
	return s.taken[types.TypeString(cc.Value.Type().Underlying(), nil)]
}

func (s *secretFlow) call(f *ssa.Function, ins ssa.CallInstruction) {
	cc := ins.Common()
	res, _ := ins.(ssa.Value)
	args := cc.Args
	off := 0
	if cc.IsInvoke() {
		off = 1
	}
	name := callName(s.c.pr, cc)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range args {
				s.mark(res, s.val[a])
			}
		case "copy":
			if len(args) == 2 && s.val[args[1]] != 0 {
				s.into(args[0], s.val[args[1]])
			}
		}
		return
	}
	in := false
	for _, g := range s.calleesOf(cc) {
		if len(g.Blocks) == 0 {
			continue
		}
		in = true
		if off == 1 && len(g.Params) > 0 {
			s.mark(g.Params[0], s.val[cc.Value])
		}
		for i, a := range args {
			if i+off < len(g.Params) {
				s.mark(g.Params[i+off], s.val[a])
				if s.val[g.Params[i+off]]&^s.val[a] != 0 && pointerish(a.Type()) {
					s.into(a, s.val[g.Params[i+off]])
				}
			}
		}
		for i, b := range s.rets[g] {
			if i < 0 {
				s.mark(res, b)
			} else if res != nil && res.Referrers() != nil {
				for _, r := range *res.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == i {
						s.mark(e, b)
					}
				}
			}
		}
	}
	if in {
		return
	}
	// what reads the credentials back
	switch name {
	case "(*net/http.Request).BasicAuth", "net/http/httputil.DumpRequest", "net/http/httputil.DumpRequestOut", "(net/http.Header).Get", "(net/http.Header).Values":
		secret := true
		if strings.HasPrefix(name, "(net/http.Header)") {
			if k, ok := args[1].(*ssa.Const); ok && k.Value.Kind() == constant.String {
				secret = strings.EqualFold(constant.StringVal(k.Value), "authorization")
			}
		}
		if secret {
			s.mark(res, secText)
		}
	}
	all := 0
	for _, a := range args {
		all |= s.val[a]
	}
	if off == 1 {
		all |= s.val[cc.Value]
	}
	if all == 0 {
		return
	}
	prints := false
	for _, p := range []string{"fmt.", "log.", "(*log.Logger).", "encoding/json.", "(*encoding/json.Encoder).", "github.com/BurntSushi/toml.(*Encoder)", "(*github.com/BurntSushi/toml.Encoder)", "github.com/davecgh/go-spew"} {
		prints = prints || strings.HasPrefix(name, p)
	}
	if all&secText == 0 && !prints {
		return // a pointer to the configuration is no output
	}
	s.sites[name] = true
	pure := false
	for _, p := range []string{"strings.", "strconv.", "bytes.", "(*bytes.", "(*strings.", "errors.", "fmt.Sprint", "fmt.Errorf", "fmt.Append", "encoding/", "net/url.", "crypto/", "unicode", "(error).Error", "(fmt.Stringer).String", "sort.", "encoding/json.Marshal"} {
		pure = pure || strings.HasPrefix(name, p)
	}
	switch {
	case name == "(*net/http.Request).SetBasicAuth":
	case strings.HasPrefix(name, "fmt.Fprint") && len(args) > 0 && buffered(args[0]):
		s.into(args[0], secText)
	case pure:
		s.mark(res, secText)
		if len(args) > 0 && (strings.HasPrefix(name, "(*bytes.") || strings.HasPrefix(name, "(*strings.")) {
			s.into(args[0], secText)
		}
	default:
		k := s.c.pr.fname(f) + " to " + name
		if _, ok := s.leaks[k]; !ok {
			s.leaks[k] = s.c.pr.posString(ins.Pos())
		}
	}
}

// buffered tells whether a writer is memory only.
func buffered(v ssa.Value) bool {
	m, ok := v.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	switch m.X.Type().String() {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return false
}

func (s *secretFlow) instr(f *ssa.Function, ins ssa.Instruction) {
	switch x := ins.(type) {
	case ssa.CallInstruction:
		s.call(f, x)
	case *ssa.Store:
		if b := s.val[x.Val]; b != 0 {
			s.into(x.Addr, b)
		}
	case *ssa.MapUpdate:
		s.into(x.Map, s.val[x.Value]|s.val[x.Key])
	case *ssa.Send:
		s.into(x.Chan, s.val[x.X])
	case *ssa.FieldAddr:
		s.mark(x, s.field[secField(x.X.Type(), x.Field)])
	case *ssa.Field:
		s.mark(x, s.field[secField(x.X.Type(), x.Field)])
	case *ssa.MakeInterface:
		b := s.val[x.X]
		if s.holds(x.X.Type(), true) {
			b |= secWhole
		}
		s.mark(x, b)
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, v := range x.Bindings {
			s.mark(g.FreeVars[i], s.val[v])
			if b := s.val[g.FreeVars[i]]; b&^s.val[v] != 0 {
				s.into(v, b)
			}
		}
	case *ssa.Return:
		for i, r := range x.Results {
			b := s.val[r]
			if b == 0 {
				continue
			}
			if s.rets[f] == nil {
				s.rets[f] = map[int]int{}
			}
			k := i
			if len(x.Results) == 1 {
				k = -1
			}
			if s.rets[f][k]|b != s.rets[f][k] {
				s.rets[f][k] |= b
				s.work = true
			}
		}
	case *ssa.Lookup:
		s.mark(x, s.val[x.X])
		if k, ok := x.Index.(*ssa.Const); ok && x.X.Type().String() == "net/http.Header" && k.Value.Kind() == constant.String && strings.EqualFold(constant.StringVal(k.Value), "authorization") {
			s.mark(x, secText)
		}
	case *ssa.Select:
		for _, st := range x.States {
			if st.Send != nil {
				s.into(st.Chan, s.val[st.Send])
			} else {
				s.mark(x, s.val[st.Chan])
			}
		}
	case *ssa.IndexAddr:
		s.mark(x, s.val[x.X])
	case *ssa.Slice:
		s.mark(x, s.val[x.X])
	case ssa.Value:
		if e, ok := x.(*ssa.Extract); ok {
			if _, ok := e.Tuple.(*ssa.Call); ok {
				if b := s.val[e.Tuple]; b != 0 {
					s.mark(x, b)
				}
				return
			}
		}
		for _, op := range ins.Operands(nil) {
			if *op == nil {
				continue
			}
			if b := s.val[*op]; b != 0 {
				if bo, ok := x.(*ssa.BinOp); ok && bo.Type().Underlying() == types.Typ[types.Bool] {
					continue
				}
				s.mark(x, b)
			}
		}
	}
}

func callName(pr *Program, cc *ssa.CallCommon) string {
	if f := cc.StaticCallee(); f != nil {
		return pr.fname(f)
	}
	if cc.IsInvoke() {
		return "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
	}
	return "a function value"
}

func checkSecret(c *Ctx, key string) {
	s := &secretFlow{c: c, val: map[ssa.Value]int{}, field: map[string]int{}, rets: map[*ssa.Function]map[int]int{}, taken: map[string][]*ssa.Function{}, leaks: map[string]string{}, sites: map[string]bool{}}
	conf := c.pr.spkg["config"].Type("Config").Type()
	s.field[secField(conf, fieldIdx(conf, "InfluxDBPass"))] = secText
	var fns []*ssa.Function
	for _, f := range c.pr.funcs {
		if !c.pr.production(f) {
			continue
		}
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for i, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if ci, ok := ins.(ssa.CallInstruction); ok && i == 0 && ci.Common().StaticCallee() == g {
							continue
						}
						k := types.TypeString(g.Signature, nil)
						if g.Signature.Recv() == nil {
							s.taken[k] = append(s.taken[k], g)
						}
					}
				}
			}
		}
	}
	for s.work = true; s.work; {
		s.work = false
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					s.instr(f, ins)
				}
			}
		}
	}
	var ks []string
	for k := range s.leaks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.oblige(key+":"+k, false, s.leaks[k], "the InfluxDB password may leave the program: "+k)
	}
	c.oblige(key, len(ks) == 0, "", "the InfluxDB password may leave the program")
	c.count["functions searched for the password"] += len(fns)
	c.count["calls the password reaches"] += len(s.sites)
	c.count["values which may hold the password"] += len(s.val)
	c.need("calls the password reaches", 1)
}
