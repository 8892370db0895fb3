package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C31: how a configuration comes about. The functions which read it are
// interpreted for every mode, once with files which may set everything, once
// with files which set nothing but the mode.

const commonFile = "/etc/influx-spout.toml"

// documented gives the defaults the documentation states for every mode.
var documented = map[string]map[string]string{
	"listener": {"port": "10001", "nats_address": "nats://localhost:4222", "nats_subject": "[influx-spout]", "batch_max_count": "10", "batch_max_age": "5m",
		"batch_max_size": "1MB", "read_buffer_size": "4MB", "nats_subject_monitor": "influx-spout-monitor", "stats_interval": "3s", "probe_port": "0", "pprof_port": "0"},
	"listener_http": {"port": "13337", "nats_address": "nats://localhost:4222", "nats_subject": "[influx-spout]", "batch_max_count": "10", "batch_max_age": "5m",
		"batch_max_size": "1MB", "nats_subject_monitor": "influx-spout-monitor", "stats_interval": "3s", "probe_port": "0", "pprof_port": "0"},
	"filter": {"nats_address": "nats://localhost:4222", "nats_subject": "[influx-spout]", "nats_subject_junkyard": "influx-spout-junk", "nats_subject_monitor": "influx-spout-monitor",
		"nats_max_pending_size": "200MB", "workers": "8", "stats_interval": "3s", "probe_port": "0", "pprof_port": "0", "max_time_delta": "10m"},
	"downsampler": {"nats_address": "nats://localhost:4222", "nats_subject": "[influx-spout]", "downsample_period": "1m", "downsample_suffix": "-archive",
		"nats_max_pending_size": "200MB", "nats_subject_monitor": "influx-spout-monitor", "stats_interval": "3s", "probe_port": "0"},
	"writer": {"nats_address": "nats://localhost:4222", "nats_subject": "[influx-spout]", "influxdb_address": "localhost", "influxdb_protocol": "http", "influxdb_port": "8086",
		"influxdb_dbname": "influx-spout-junk", "batch_max_count": "10", "batch_max_size": "10MB", "batch_max_age": "5m", "workers": "8", "write_timeout": "30s",
		"writer_retry_batches": "1", "writer_retry_interval": "10s", "writer_retry_timeout": "1m", "nats_max_pending_size": "200MB",
		"nats_subject_monitor": "influx-spout-monitor", "stats_interval": "3s", "probe_port": "0", "pprof_port": "0"},
	"monitor": {"nats_address": "nats://localhost:4222", "nats_subject_monitor": "influx-spout-monitor", "port": "9331", "probe_port": "0", "pprof_port": "0"},
}

const noMode = "no such mode"

type confMod struct {
	BaseModule
	c     *Ctx
	mode  string
	empty bool // the files set nothing but the mode
	given Val
}

func (m *confMod) check(in *Interp, key string, ok bool, where, msg string) {
	if in.rec {
		m.c.oblige(key, ok, where, msg)
		m.c.inst(key)
	}
}

func configPtr(st *State, v Val) (VPtr, bool) {
	p, ok := unwrap(v).(VPtr)
	if !ok || len(p.Path) > 0 || p.Idx != nil || !st.hasObj(p.Obj) || typeName(st.obj(p.Obj).typ) != "config.Config" {
		return p, false
	}
	return p, true
}

func (m *confMod) Pre(c *Call) ([]Outcome, bool) {
	if c.fn != nil && c.in.pr.inRepo(c.fn) {
		return nil, false
	}
	st, where := c.st, c.in.pos(c.fr, c.instr)
	switch {
	case strings.HasSuffix(c.name, ").Open") || strings.HasSuffix(c.name, ").OpenFile") || c.name == "os.Open" || strings.HasSuffix(c.name, ".ReadFile"):
		kind := "another"
		for i := range c.args {
			s, ok := unwrap(c.arg(i)).(VStr)
			if !ok {
				continue
			}
			if s.Const != nil && *s.Const == commonFile {
				kind = "common"
			} else if valString(s) == valString(m.given) {
				kind = "given"
			}
		}
		m.check(c.in, "files", kind != "another", where, "a file which is neither the common one nor the one given is read")
		var outs []Outcome
		outs = append(outs, c.okOrErr("open")[0])
		outs[0].st.d["opened"] = kind
		for _, why := range []string{"missing", "unreadable"} {
			c2 := *c
			c2.st = st.clone()
			o := c2.okOrErr("open")[1]
			t, ok := o.ret.(VTuple)
			if !ok {
				panic(undecided{"result of " + c.name})
			}
			t.E[len(t.E)-1] = errVal(o.st, "err:"+why)
			o.st.d["failed:"+kind] = why
			outs = append(outs, o)
		}
		return outs, true
	case c.name == "os.IsNotExist" || c.name == "errors.Is":
		is := false
		if e, ok := c.arg(0).(VIface); ok && e.T != nil {
			is = strings.HasPrefix(e.T.op, "err:missing") || c.name == "errors.Is" && e.T.mentions(func(t *Term) bool { return strings.HasPrefix(t.op, "err:missing") })
		}
		return c.outs(vbool(is)), true
	case strings.Contains(c.name, "toml."):
		return m.decode(c, where)
	}
	return nil, false
}

func (m *confMod) decode(c *Call, where string) ([]Outcome, bool) {
	for i := range c.args {
		p, ok := configPtr(c.st, c.arg(i))
		if !ok {
			continue
		}
		kind := c.st.d["opened"]
		switch kind {
		case "common":
			m.check(c.in, "order", c.st.d["read"] == "", where, "the common file is read after the given one, or twice")
		case "given":
			m.check(c.in, "order", !strings.Contains(c.st.d["read"], "given"), where, "the given file is read twice")
		default:
			m.check(c.in, "order", false, where, "something else than a file is decoded")
		}
		o := c.okOrErr("decode")
		good := o[0].st
		if st := c.st; st.d["read"] == "" {
			// an option with a default already is never unset afterwards
			v := st.obj(p.Obj).val
			if v == nil {
				v = cellInit(st.obj(p.Obj))
			}
			s := st.obj(p.Obj).typ.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if !isZero(st, getPath(v, []int{i})) {
					good.d["preset:"+s.Field(i).Name()] = "1"
				}
			}
		}
		good.d["read"] += kind + " "
		x := good.mut(p.Obj)
		if !m.empty {
			x.val = cellInit(&Obj{kind: oCell, typ: x.typ, sym: tm("conf:"+kind, freshTerm("file"))})
		} else if x.val == nil {
			x.val = cellInit(x)
		}
		mode := Val(vstr(m.mode))
		if kind == "common" && !m.empty {
			mode = symVal(types.Typ[types.String], freshTerm("mode"))
		}
		x.val = x.val.(VStruct).with(fieldIdx(x.typ, "Mode"), mode)
		if len(o) > 1 {
			o[1].st.d["failed:"+kind] = "invalid"
		}
		return o, true
	}
	return nil, false
}

func (m *confMod) Store(in *Interp, fr *Frame, st *State, p VPtr, old, new Val, ins ssa.Instruction) {
	if m.empty || st.d["read"] == "" || !st.hasObj(p.Obj) || typeName(st.obj(p.Obj).typ) != "config.Config" {
		return
	}
	where := in.pos(fr, ins)
	if len(p.Path) == 0 {
		m.check(in, "kept", false, where, "what the files say is replaced as a whole")
		return
	}
	f := st.obj(p.Obj).typ.Underlying().(*types.Struct).Field(p.Path[0])
	if n := map[string]string{"InfluxDBUser": "INFLUXDB_USER", "InfluxDBPass": "INFLUXDB_PASS"}[f.Name()]; n != "" {
		s, ok := new.(VStr)
		m.check(in, "environment:"+f.Name(), ok && s.T != nil && s.T.mentions(func(t *Term) bool { return t.op == "env:"+n }), where, "the user or password does not come from the environment")
		return
	}
	unset := isZero(st, old) && st.d["preset:"+f.Name()] == "" || st.d["defaulted:"+f.Name()] != ""
	if unset {
		st.d["defaulted:"+f.Name()] = "1"
	}
	m.check(in, "kept:"+f.Name(), unset, where, "the value of "+tomlKey(st.obj(p.Obj).typ, f.Name())+" is replaced though a file may have set it")
}

func (m *confMod) Post(c *Call, o *Outcome) {
	// what is computed from the name of the file stays recognisable
	if isPkg(c.name, "path/filepath", "path", "strings") && len(c.args) > 0 {
		a, ok := unwrap(c.arg(0)).(VStr)
		r, ok2 := o.ret.(VStr)
		if ok && ok2 && a.T != nil && r.T != nil && strings.HasPrefix(r.T.op, "ext:") {
			r.T = tm(r.T.op, a.T)
			o.ret = r
		}
	}
	if c.name == "os.Getenv" {
		if n, ok := c.constStr(0); ok {
			o.ret = symVal(types.Typ[types.String], tm("env:"+n))
		}
	}
}

func isZero(st *State, v Val) bool {
	switch x := v.(type) {
	case VInt:
		return st.num.eq0(x.L)
	case VStr:
		return x.Len != nil && st.num.eq0(x.Len)
	case VSlice:
		return st.num.eq0(x.Len)
	case VBool:
		return valString(x) == valString(vbool(false))
	case VStruct:
		for i := range x.F {
			if !isZero(st, x.field(i)) {
				return false
			}
		}
		return len(x.F) > 0
	}
	return false
}

func tomlKey(t types.Type, field string) string {
	s := t.Underlying().(*types.Struct)
	return reflect.StructTag(s.Tag(fieldIdx(t, field))).Get("toml")
}

// shows reports whether a value is what the documentation says.
func shows(in *Interp, st *State, v Val, want string) bool {
	switch x := v.(type) {
	case VStr:
		return x.Const != nil && *x.Const == want
	case VSlice:
		if len(x.R) != 1 || !st.num.eq0(x.Len.addC(-1)) || !strings.HasPrefix(want, "[") {
			return false
		}
		return shows(in, st, in.elemLoad(st, x.R[0], x.Off), strings.Trim(want, "[]"))
	case VStruct:
		if len(x.F) != 1 {
			return false
		}
		d, err := time.ParseDuration(want)
		n, ok := x.field(0).(VInt)
		return err == nil && ok && st.num.eq0(n.L.addC(-int64(d)))
	case VInt:
		var k int64
		var unit string
		if n, _ := fmt.Sscanf(want, "%d%s", &k, &unit); n == 0 {
			return false
		}
		if unit == "MB" {
			k <<= 20
		}
		return st.num.eq0(x.L.addC(-k))
	}
	return false
}

func readConfig(c *Ctx, mode string, empty bool) {
	m := &confMod{c: c, mode: mode, empty: empty}
	in := newInterp(c.pr, m)
	if empty {
		in.limit = 200
	}
	st := in.globalsState()
	f := c.pr.fn("config.NewConfigFromFile")
	args := in.symArgs(f)
	m.given = args[0]
	where := c.pr.posString(f.Pos())
	outs := in.runEntry(f, args, nil, st)
	for _, o := range outs {
		if !mustNil(o.st, retN(o.ret, 1)) {
			m.check(in, "rejected", true, where, "")
			continue
		}
		p, ok := configPtr(o.st, retN(o.ret, 0))
		m.check(in, "accepted:"+mode, ok, where, "the configuration returned is not known")
		if !ok {
			continue
		}
		m.check(in, "given file", strings.Contains(o.st.d["read"], "given"), where, "a configuration is accepted without reading the given file")
		for _, k := range []string{"common", "given"} {
			why := o.st.d["failed:"+k]
			m.check(in, "failures:"+k, why == "" || why == "missing" && k == "common", where, "a file which cannot be read is ignored")
		}
		if o.st.d["failed:common"] == "missing" {
			c.inst("accepted without the common file")
		} else {
			m.check(in, "common file", strings.HasPrefix(o.st.d["read"], "common"), where, "the common file is not read")
		}
		x := o.st.obj(p.Obj)
		v := x.val
		if v == nil {
			v = cellInit(x)
		}
		s := x.typ.Underlying().(*types.Struct)
		fields := map[string]int{}
		for i := 0; i < s.NumFields(); i++ {
			fields[reflect.StructTag(s.Tag(i)).Get("toml")] = i
		}
		for _, n := range []string{"InfluxDBUser", "InfluxDBPass"} {
			m.check(in, "not in files:"+n, tomlKey(x.typ, n) == "-", where, "the credentials can be set in a file")
		}
		m.check(in, "modes", mode != noMode && mode != "", where, "a mode which does not exist is accepted")
		if !empty {
			continue
		}
		name, ok := getPath(v, []int{fields["name"]}).(VStr)
		ok = ok && name.T != nil && name.T.mentions(func(t *Term) bool { return t.op == valString(m.given) || strings.Contains(t.op, "arg0:") })
		m.check(in, "default:"+mode+":name", ok, where, "the default name is not made from the name of the given file")
		var keys []string
		for k := range documented[mode] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			i, ok := fields[k]
			ok = ok && shows(in, o.st, getPath(v, []int{i}), documented[mode][k])
			m.check(in, "default:"+mode+":"+k, ok, where, "the default of "+k+" is not the documented "+documented[mode][k])
			c.inst("defaults " + mode)
		}
	}
	c.absorb(in)
}

// durations: the text of a duration is parsed as a whole, and errors are
// reported.
type durMod struct {
	BaseModule
	c    *Ctx
	text VSlice
}

func (m *durMod) Pre(c *Call) ([]Outcome, bool) {
	if c.name != "time.ParseDuration" {
		return nil, false
	}
	o := c.okOrErr("parsed")
	o[0].st.g["parsed"] = retN(o[0].ret, 0)
	o[1].st.d["bad"] = "1"
	s := c.str(0)
	m.c.oblige("duration:text", eqBoth(c.st, s.Len, m.text.Len) && s.T != nil && s.T.mentions(func(t *Term) bool { return strings.Contains(t.op, "arg1:") }), c.in.pos(c.fr, c.instr), "something else than the text of the option is parsed")
	return o, true
}

func readDuration(c *Ctx) {
	m := &durMod{c: c}
	in := newInterp(c.pr, m)
	st := in.globalsState()
	f := c.pr.fn("(*config.Duration).UnmarshalText")
	args := in.symArgs(f)
	m.text = args[1].(VSlice)
	where := c.pr.posString(f.Pos())
	for _, o := range in.runEntry(f, args, nil, st) {
		if o.st.d["bad"] != "" {
			c.oblige("duration:error", !mustNil(o.st, o.ret), where, "a duration which cannot be parsed is accepted")
			c.inst("durations rejected")
			continue
		}
		c.oblige("duration:accepted", mustNil(o.st, o.ret), where, "a valid duration is not accepted")
		p, ok := args[0].(VPtr)
		n, ok2 := o.st.g["parsed"].(VInt)
		ok = ok && ok2
		if ok {
			x := o.st.obj(p.Obj)
			v := x.val
			if v == nil {
				v = cellInit(x)
			}
			d, is := getPath(v, []int{0}).(VInt)
			ok = is && eqBoth(o.st, d.L, n.L)
		}
		c.oblige("duration:value", ok, where, "the duration is not what was parsed")
		c.inst("durations accepted")
	}
	c.absorb(in)
}

func init() {
	register(&Property{id: "C31", level: "other", rule: "abstract interpretation of reading a configuration: order of the files, what may be replaced afterwards, and the values left when the files are empty", run: func(c *Ctx) {
		for _, cp := range componentList {
			readConfig(c, cp.mode, false)
			readConfig(c, cp.mode, true)
			c.need("defaults "+cp.mode, 4)
			c.need("accepted:"+cp.mode, 2)
		}
		for _, mode := range []string{noMode, ""} {
			readConfig(c, mode, false)
			readConfig(c, mode, true)
		}
		readDuration(c)
		for _, k := range []string{"accepted without the common file", "common file", "rejected", "files", "order", "environment:InfluxDBUser", "environment:InfluxDBPass", "durations accepted", "durations rejected"} {
			c.need(k, 1)
		}
	}})
}
