package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C44: what the probes answer.

type probeMod struct {
	BaseModule
	c     *Ctx
	path  map[ssa.Instruction]string // where a handler is registered
	phase string
	cell  map[string]string         // alive, ready -> where the state is kept
	truth map[string]map[string]Val // by cell and state
	port  *Lin
}

func (m *probeMod) check(in *Interp, key string, ok bool, where, msg string) {
	if in.rec {
		m.c.oblige(key, ok, where, msg)
		m.c.inst(key)
	}
}

// atomicOp recognises loads and stores of atomic variables.
func atomicOp(name string) string {
	i := strings.Index(name, "sync/atomic.")
	if i < 0 {
		return ""
	}
	name = name[i+len("sync/atomic."):]
	if j := strings.Index(name, ")."); j >= 0 {
		name = name[j+2:]
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return "load"
	case strings.HasPrefix(name, "Store"), strings.HasPrefix(name, "Swap"):
		return "store"
	case strings.HasPrefix(name, "CompareAndSwap"), strings.HasPrefix(name, "Add"):
		return "other"
	}
	return ""
}

func cellOf(v Val) string {
	p, ok := unwrap(v).(VPtr)
	if !ok || p.Idx != nil {
		return ""
	}
	return fmt.Sprint(p.Obj, p.Path)
}

func (m *probeMod) Pre(c *Call) ([]Outcome, bool) {
	st, where := c.st, c.in.pos(c.fr, c.instr)
	switch atomicOp(c.name) {
	case "other":
		panic(undecided{"the state of the probes is changed with " + c.name})
	case "store":
		id := cellOf(c.arg(0))
		st.g["stored:"+id] = unwrap(c.arg(1))
		st.d["stored"] += id + ";"
		return nil, false
	case "load":
		id := cellOf(c.arg(0))
		vs := m.truth[id]
		if m.phase != "handler" || vs == nil {
			return nil, false
		}
		var outs []Outcome
		for _, k := range []string{"true", "false"} {
			s := st.clone()
			s.d["seen"] = id + "=" + k
			v := vs[k]
			if _, isI := c.rtyp.Underlying().(*types.Interface); isI {
				v = VIface{Dyn: types.Typ[types.Bool], V: v}
			}
			outs = append(outs, Outcome{s, v})
		}
		return outs, true
	}
	switch {
	case strings.HasSuffix(c.name, ".HandleFunc"), strings.HasSuffix(c.name, "ServeMux).Handle"), c.name == "net/http.Handle":
		i := len(c.args) - 2
		if s, ok := c.constStr(i); ok {
			m.path[c.instr] = s
		}
	case strings.HasSuffix(c.name, "ResponseWriter).WriteHeader"):
		m.answer(c, 1)
	case c.name == "net/http.Error":
		m.answer(c, 2)
	case strings.HasSuffix(c.name, "ResponseWriter).Write"), strings.HasPrefix(c.name, "fmt.Fprint"), c.name == "io.WriteString":
		if m.phase == "handler" && st.d["status"] == "" {
			st.d["status"] = "200"
		}
	case strings.HasSuffix(c.name, "http.Server).ListenAndServe"), strings.HasSuffix(c.name, "http.Server).Serve"):
		if m.phase == "handler" {
			for _, k := range []string{"alive", "ready"} {
				v := st.g["stored:"+m.cell[k]]
				want := m.truth[m.cell[k]][fmt.Sprint(k == "alive")]
				m.check(c.in, "initially:"+k, v != nil && want != nil && valString(v) == valString(want), where, "the probes start with another state than alive and not ready")
			}
			if id, ok := objOf(c.arg(0)); ok {
				o := st.obj(id)
				v := o.val
				if v == nil {
					v = cellInit(o)
				}
				s, _ := getPath(v, []int{fieldIdx(o.typ, "Addr")}).(VStr)
				ok = s.T != nil && m.port != nil && s.T.mentions(func(t *Term) bool {
					for _, x := range m.port.t {
						if varTerm[x.v] == t || strings.Contains(t.op, fmt.Sprintf("v%d", x.v)) {
							return true
						}
					}
					return false
				})
				m.check(c.in, "port", ok, where, "the probes are not served on the port given")
			}
			m.c.inst("serving")
		}
	case strings.HasSuffix(c.name, "http.Server).Close"), strings.HasSuffix(c.name, "http.Server).Shutdown"):
		st.d["closed"] = "1"
	case strings.HasSuffix(c.name, "WaitGroup).Wait"):
		if m.phase == "close" {
			m.check(c.in, "close first", st.d["closed"] != "", where, "the goroutine is waited for without closing the server before")
			st.d["waited"] = "1"
		}
	case strings.HasSuffix(c.name, "WaitGroup).Done"):
		st.d["done"] = "1"
	case strings.HasSuffix(c.name, "WaitGroup).Add"):
		st.d["added"] += "1"
	}
	return nil, false
}

func (m *probeMod) answer(c *Call, i int) {
	if m.phase != "handler" || c.st.d["status"] != "" {
		return
	}
	n, ok := c.lin(i).constI64()
	if !ok {
		panic(undecided{"status of an answer"})
	}
	c.st.d["status"] = fmt.Sprint(n)
}

func (m *probeMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	if _, ok := ins.(*ssa.Go); ok && m.phase == "listen" {
		m.check(in, "off", p.st.num.lt(m.port.neg()), in.pos(fr, ins), "probes are served although the port is 0")
	}
	if _, ok := ins.(*ssa.Return); !ok || fr.parent != nil || in.curRoot == nil {
		return
	}
	where := in.pos(fr, ins)
	if in.curRoot.kind == "go" {
		m.check(in, "done", p.st.d["done"] != "" || p.st.d["added"] == "", where, "the goroutine serving the probes ends without saying so")
		return
	}
	path := m.path[in.curRoot.site]
	kind := map[string]string{"/healthz": "alive", "/readyz": "ready"}[path]
	if kind == "" {
		return
	}
	status := p.st.d["status"]
	if status == "" {
		status = "200"
	}
	want := map[string]string{m.cell[kind] + "=true": "200", m.cell[kind] + "=false": "503"}[p.st.d["seen"]]
	m.check(in, "answer:"+path, want != "" && status == want, where, "the answer "+status+" does not agree with whether the component is "+kind)
	m.c.inst("answers " + path + " " + want)
}

func (m *probeMod) method(in *Interp, dyn types.Type, name string) *ssa.Function {
	for i, ms := 0, types.NewMethodSet(dyn); i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return in.pr.prog.MethodValue(ms.At(i))
		}
	}
	panic(undecided{"no method " + name + " of " + dyn.String()})
}

func init() {
	register(&Property{id: "C44", level: "other", rule: "abstract interpretation of the probe listener: the state each handler reads, where it is set, and the status answered", run: func(c *Ctx) {
		m := &probeMod{c: c, path: map[ssa.Instruction]string{}, cell: map[string]string{}, truth: map[string]map[string]Val{}, phase: "listen"}
		in := newInterp(c.pr, m)
		st := in.globalsState()
		f := c.pr.fn("probes.Listen")
		args := in.symArgs(f)
		m.port = args[0].(VInt).L
		outs := in.runEntry(f, args, nil, st)
		where := func(f *ssa.Function) string { return c.pr.posString(f.Pos()) }
		for _, o := range outs {
			iv, ok := o.ret.(VIface)
			if !ok || iv.Dyn == nil {
				panic(undecided{"what probes.Listen returns"})
			}
			c.inst("listeners")
			on := o.st.num.lt(m.port.neg())
			if !on {
				m.check(in, "off", o.st.num.le(m.port), where(f), "it does not depend on the port whether probes are served")
				continue
			}
			for _, k := range []string{"alive", "ready"} {
				name := "Set" + strings.ToUpper(k[:1]) + k[1:]
				g := m.method(in, iv.Dyn, name)
				for _, b := range []bool{true, false} {
					s := o.st.clone()
					delete(s.d, "stored")
					m.phase = "set"
					n := 0
					for _, x := range in.runEntry(g, []Val{iv.V, vbool(b)}, nil, s) {
						id := strings.TrimSuffix(x.st.d["stored"], ";")
						one := id != "" && !strings.Contains(id, ";") && (m.cell[k] == "" || m.cell[k] == id)
						m.check(in, "set:"+k, one, where(g), "setting the state changes more or less than that state")
						m.cell[k] = id
						if m.truth[id] == nil {
							m.truth[id] = map[string]Val{}
						}
						v := x.st.g["stored:"+id]
						switch y := v.(type) {
						case VBool:
							one = valString(y) == valString(vbool(true)) || valString(y) == valString(vbool(false))
						case VInt:
							_, one = y.L.constI64()
						default:
							one = false
						}
						m.check(in, "value:"+k, one, where(g), "what is stored is not the state given")
						if one {
							m.truth[id][fmt.Sprint(b)] = v
						}
						n++
					}
					m.check(in, "set:"+k, n > 0, where(g), "setting the state does not return")
				}
				t := m.truth[m.cell[k]]
				m.check(in, "differ:"+k, t["true"] != nil && t["false"] != nil && valString(t["true"]) != valString(t["false"]), where(g), "both states are stored the same way")
			}
			m.check(in, "separate", m.cell["alive"] != m.cell["ready"], where(f), "being alive and being ready are not told apart")
			g := m.method(in, iv.Dyn, "Close")
			m.phase = "close"
			for _, x := range in.runEntry(g, []Val{iv.V}, nil, o.st.clone()) {
				m.check(in, "close", x.st.d["closed"] != "" && (x.st.d["waited"] != "" || x.st.d["added"] == ""), where(g), "closing leaves the server running")
			}
		}
		m.phase = "handler"
		in.runRoots(nil)
		c.absorb(in)
		for _, k := range []string{"listeners", "off", "serving", "port", "close", "initially:alive", "initially:ready", "answers /healthz 200", "answers /healthz 503", "answers /readyz 200", "answers /readyz 503"} {
			c.need(k, 1)
		}
	}})
}
