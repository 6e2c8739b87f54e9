package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/iden3/go-iden3-core"
const vPath = modPath + "/zzverif"

type Contract struct {
	Name    string
	Fn      *ssa.Function
	Target  *ssa.Function
	TName   string
	Use     bool
	Lemma   bool
	Inj     bool // collision-freedom of the hash is assumed
	Spare   bool // byte-slice arguments may have spare capacity
	NoFrame bool
	Fuel    int
	Tmo     int
	Props   []string
	UseOnly map[string]bool
	Inline  map[string]bool
	NoMerge bool
	Err     string
}

// parseContracts reads //verif: directives of the overlay files.
func (ex *Exec) parseContracts(pkgs []*packages.Package, files map[string]bool) []*Contract {
	var out []*Contract
	for _, p := range pkgs {
		sp := ex.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, f := range p.Syntax {
			fn := ex.prog.Fset.Position(f.Pos()).Filename
			if !files[fn] {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				sf := sp.Func(fd.Name.Name)
				if sf == nil {
					continue
				}
				name := fd.Name.Name
				dir := map[string]string{}
				kind := ""
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if !strings.HasPrefix(c.Text, "//verif:") {
							continue
						}
						fs := strings.Fields(c.Text[len("//verif:"):])
						kind = fs[0]
						for _, x := range fs[1:] {
							if i := strings.Index(x, "="); i > 0 {
								dir[x[:i]] = x[i+1:]
							} else {
								dir[x] = "yes"
							}
						}
					}
				}
				if strings.HasPrefix(name, "lem_") && kind == "" {
					kind = "lemma"
				}
				switch kind {
				case "rec":
					ex.recs[sf] = true
				case "stub":
					for _, tn := range strings.Split(dir["target"], ",") {
						if ex.stubs[p.PkgPath] == nil {
							ex.stubs[p.PkgPath] = map[string]*ssa.Function{}
						}
						ex.stubs[p.PkgPath][tn] = sf
					}
				case "memo":
					for k := range dir {
						ex.memo[p.PkgPath+"."+k] = true
					}
				case "nilable":
					for k := range dir {
						ex.nilable[p.PkgPath+"."+k] = true
					}
				case "inv":
					for _, tn := range strings.Split(dir["target"], ",") {
						t := ex.findFunc(sp, tn)
						if t == nil {
							ex.warn("invariant %s: no target %s", name, tn)
							continue
						}
						ex.invs[t] = append(ex.invs[t], sf)
					}
				case "contract", "lemma":
					c := &Contract{Name: p.Types.Name() + "." + name, Fn: sf, TName: dir["target"], Lemma: kind == "lemma", Use: dir["use"] != "", Inj: dir["inj"] != "", Spare: dir["spare"] != "", NoFrame: dir["noframe"] != ""}
					if dir["prop"] != "" {
						c.Props = strings.Split(dir["prop"], ",")
					}
					if dir["fuel"] != "" {
						c.Fuel, _ = strconv.Atoi(dir["fuel"])
					}
					if dir["tmo"] != "" {
						c.Tmo, _ = strconv.Atoi(dir["tmo"])
					}
					if dir["inline"] != "" {
						c.Inline = map[string]bool{}
						for _, s := range strings.Split(dir["inline"], ",") {
							c.Inline[s] = true
						}
					}
					if c.TName != "" {
						c.Target = ex.findFunc(sp, c.TName)
						if c.Target == nil {
							c.Err = "no function " + c.TName
						}
					}
					out = append(out, c)
					ex.byName[sf.RelString(nil)] = c
					if a := sp.Func(dir["auto"]); kind == "lemma" && a != nil {
						ex.auto[a] = append(ex.auto[a], c)
					}
					if c.Target != nil && c.Use {
						ex.contracts[c.Target] = c
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func (ex *Exec) warn(f string, a ...interface{}) {
	ex.warnings = append(ex.warnings, fmt.Sprintf(f, a...))
}

// findFunc resolves "Func", "T.M" or "*T.M" in a package (or "pkg/path:Name").
func (ex *Exec) findFunc(sp *ssa.Package, n string) *ssa.Function {
	if i := strings.Index(n, ":"); i > 0 {
		sp = ex.pkgs[modPath+"/"+n[:i]]
		if sp == nil {
			return nil
		}
		n = n[i+1:]
	}
	if i := strings.Index(n, "."); i > 0 {
		tn, m := strings.TrimPrefix(n[:i], "*"), n[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		var rt types.Type = t.Type()
		ms := types.NewMethodSet(types.NewPointer(rt))
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == m {
				fo := ms.At(k).Obj().(*types.Func)
				return ex.prog.FuncValue(fo)
			}
		}
		return nil
	}
	return sp.Func(n)
}

func (ex *Exec) useContract(c *Contract) bool {
	if c.Err != "" {
		return false
	}
	if ex.cur != nil && ex.cur.Inline != nil && ex.cur.Inline[c.TName] {
		return false
	}
	return true
}

func (ex *Exec) verifying() *ssa.Function { return ex.verifyFn }

func (ex *Exec) isRecSpec(fn *ssa.Function) bool { return ex.recs[fn] }

func isIntrinsic(fn *ssa.Function) bool {
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == vPath && fn.Signature.Recv() == nil && intrinsics[fn.Name()]
}

var intrinsics = map[string]bool{"Requires": true, "Ensures": true, "Assume": true, "Assert": true, "Any": true, "Modifies": true, "Forall": true, "Old": true, "Cover": true, "Proof": true, "AnyBool": true, "AnyInt": true, "AnyBytes": true, "AnyErr": true, "AnyString": true, "Implies": true, "Ite": true, "Decreases": true, "BytesEq": true, "Unchanged": true, "Ghost": true, "SetGhost": true, "Same": true, "Live": true, "Unfold": true, "Disjoint": true, "AnyU32": true, "AnyI64": true, "Locked": true, "Log": true, "Injective": true, "Unhash": true, "AnyRest": true, "Guarded": true, "Field": true, "SetField": true}

// verify symbolically executes a contract and records its obligations.
func (ex *Exec) verify(c *Contract) (err error) {
	ex.cur = c
	ex.verifyFn = c.Fn
	ex.spareCap = c.Spare
	ex.recFuel = 2
	if c.Fuel > 0 {
		ex.recFuel = c.Fuel
	}
	ex.callStack = nil
	ex.depth = 0
	ex.steps = 0
	ex.pure = 0
	ex.muteVC = false
	ex.useStack = nil
	ex.cuts = nil
	ex.loopDry = 0
	ex.ghostArgs = map[string]Val{}
	ex.reached = map[string]bool{}
	if c.Err != "" {
		return Unsup("%s", c.Err)
	}
	st := newState()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(UnsupErr); ok {
				err = u
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				if len(ex.callStack) > 0 {
					var names []string
					for _, f := range ex.callStack {
						names = append(names, f.Name())
					}
					err = Unsup("%s [in %s]", u.Msg, strings.Join(names, ">"))
				}
				return
			}
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			err = Unsup("internal: %v [in %v]", r, ex.callStack)
		}
	}()
	var args []Val
	for _, p := range c.Fn.Params {
		v := ex.fresh(st, p.Type(), p.Name())
		args = append(args, v)
		ex.ghostArgs[p.Name()] = v
	}
	st.snap = nil
	var outs []*Outcome
	for _, o := range ex.nilForks([]*Outcome{{st, args}}) {
		for i, p := range c.Fn.Params {
			ex.ghostArgs[p.Name()] = o.Ret[i]
		}
		if c.Target == nil {
			o.St.takeSnap()
			o.St.pivoted = true
		}
		outs = append(outs, ex.callFn(o.St, c.Fn, o.Ret, nil)...)
	}
	if len(outs) == 0 {
		return Unsup("no path reaches the end of the contract")
	}
	for i, o := range outs {
		ex.finish(c, o.St)
		ex.vcs = append(ex.vcs, &VC{Contract: c.Name, Label: fmt.Sprintf("cover:end#%d", i), PC: o.St.pc, Goal: True, Cover: true})
	}
	// every postcondition and cover point of the contract must lie on some path
	for _, l := range specLabels(c.Fn) {
		if !ex.reached[l] {
			ex.vcs = append(ex.vcs, &VC{Contract: c.Name, Label: "reached: " + l, Goal: False, Status: "failed", Backend: "simplifier"})
		}
	}
	return nil
}

// specLabels lists the labels of the Ensures and Cover calls written in a contract.
func specLabels(fn *ssa.Function) []string {
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := c.Call.StaticCallee()
			if f == nil || !isIntrinsic(f) || (f.Name() != "Ensures" && f.Name() != "Cover") {
				continue
			}
			if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
				out = append(out, constant.StringVal(k.Value))
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		out = append(out, specLabels(a)...)
	}
	return out
}

func (s *State) takeSnap() {
	s.snap = map[int]*Obj{}
	for id, o := range s.heap {
		if o.Input != "" {
			s.snap[id] = o
		}
	}
	s.snapLocks = len(s.locks)
}

// finish checks the frame: nothing pre-existing changed except what the contract names.
func (ex *Exec) finish(c *Contract, st *State) {
	if c.Lemma {
		return
	}
	if st.snap == nil {
		if c.Target != nil {
			ex.vcs = append(ex.vcs, &VC{Contract: c.Name, Label: "target-called", PC: st.pc, Goal: False})
		}
		return
	}
	ids := []int{}
	for id := range st.snap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if !c.NoFrame {
		for _, id := range ids {
			o := st.snap[id]
			if st.mods[id] {
				continue
			}
			n := st.obj(id)
			if n == o {
				continue
			}
			a, b := ex.dropMemo(o), ex.dropMemo(n)
			for m := range st.mods {
				if m >= 0 {
					continue
				}
				if k, f := unfieldMod(m); k == id {
					a, b = setField(a, f, nil), setField(b, f, nil)
				}
			}
			ex.oblige(st, "frame:"+o.Input, "", ex.sameVal(st, a, b))
		}
		var gids []int
		for id := range st.heap {
			if g := globalHeap[id]; g != nil && !st.mods[id] {
				gids = append(gids, id)
			}
		}
		sort.Ints(gids)
		for _, id := range gids {
			g := globalHeap[id]
			ex.oblige(st, "frame:global:"+g.Input, "", ex.sameVal(st, g.V, st.heap[id].V))
		}
	}
	if len(st.locks) > 0 {
		ex.oblige(st, "locks-released", "", False)
	} else if st.lockUse {
		ex.oblige(st, "locks-released", "", True)
	}
}

// dropMemo leaves out the remembered hashes, which are not part of a contract's effect.
func (ex *Exec) dropMemo(o *Obj) Val {
	v, ok := o.V.(*VStruct)
	if !ok || o.T == nil {
		return o.V
	}
	u, ok := under(o.T).(*types.Struct)
	if !ok {
		return o.V
	}
	for i := 0; i < u.NumFields() && i < len(v.F); i++ {
		if ex.memo[typeKey(o.T)+"."+u.Field(i).Name()] {
			ex.trusted["remembered hash "+typeKey(o.T)+"."+u.Field(i).Name()+" is not part of a contract's effect"] = true
			c := &VStruct{append([]Val{}, v.F...)}
			c.F[i] = zeroVal(u.Field(i).Type())
			v = c
		}
	}
	return v
}

// sameVal compares two contents structurally.
func (ex *Exec) sameVal(st *State, a, b Val) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			r = False
		}
	}()
	switch x := a.(type) {
	case *Term:
		return Eq(x, b.(*Term))
	case VStr:
		return eqRope(x, b.(VStr))
	case *VArr:
		y := b.(*VArr)
		if x == y {
			return True
		}
		var cs []*Term
		for i := range x.E {
			cs = append(cs, ex.sameVal(st, x.E[i], y.E[i]))
		}
		return And(cs...)
	case *VStruct:
		y := b.(*VStruct)
		if x == y {
			return True
		}
		var cs []*Term
		for i := range x.F {
			cs = append(cs, ex.sameVal(st, x.F[i], y.F[i]))
		}
		return And(cs...)
	case VPtr:
		y := b.(VPtr)
		return BoolT(x.Obj == y.Obj && pathKey(x.Path) == pathKey(y.Path))
	case VSlice:
		y := b.(VSlice)
		if x.Obj != y.Obj {
			return False
		}
		return And(Eq(x.Off, y.Off), Eq(x.Len, y.Len))
	case VBig:
		p, q := eqWidth(x.T, b.(VBig).T)
		return Eq(p, q)
	case VIface:
		y := b.(VIface)
		if x.Opq != nil || y.Opq != nil {
			return Eq(ex.errID(st, x), ex.errID(st, y))
		}
		if x.T == nil || y.T == nil {
			return BoolT(x.T == nil && y.T == nil)
		}
		return And(BoolT(types.Identical(x.T, y.T)), ex.sameVal(st, x.V, y.V))
	case VRopeBuf:
		return eqRope(x.S, b.(VRopeBuf).S)
	case VSymArr:
		y := b.(VSymArr)
		var cs []*Term
		for i := range x.Arr {
			cs = append(cs, Eq(x.Arr[i], y.Arr[i]))
		}
		return And(cs...)
	case *VMapC:
		y := b.(*VMapC)
		if x == y {
			return True
		}
		if x.Has == nil || y.Has == nil {
			if len(x.L) != len(y.L) {
				return False
			}
			for i := range x.L {
				if x.L[i].Opt != y.L[i].Opt || x.L[i].Del != y.L[i].Del {
					return False
				}
			}
			return True
		}
		cs := []*Term{Eq(x.Has, y.Has)}
		for i := range x.Vals {
			cs = append(cs, Eq(x.Vals[i], y.Vals[i]))
		}
		return And(cs...)
	case VMap:
		return BoolT(x.Obj == b.(VMap).Obj)
	case VFunc:
		y := b.(VFunc)
		return BoolT(x.Fn == y.Fn && x.Opq == y.Opq)
	case VOpaque:
		y, ok := b.(VOpaque)
		return BoolT(ok && x.Name == y.Name)
	case nil:
		return BoolT(b == nil)
	}
	return False
}

// applyContract uses a contract at a call site.
func (ex *Exec) applyContract(st *State, c *Contract, args []Val, in ssa.Instruction) []*Outcome {
	ex.used[c.Name] = true
	var full []Val
	full = append(full, args...)
	for i := len(args); i < len(c.Fn.Params); i++ {
		p := c.Fn.Params[i]
		if g, ok := ex.ghostArgs[p.Name()]; ok {
			full = append(full, g)
		} else {
			full = append(full, ex.fresh(st, p.Type(), p.Name()))
		}
	}
	if len(full) != len(c.Fn.Params) {
		panic(Unsup("contract %s: parameter mismatch", c.Name))
	}
	ex.useStack = append(ex.useStack, c)
	savedMods, savedPivot, savedRet := st.mods, st.pivoted, st.pivotRet
	st.mods = map[int]bool{}
	st.pivoted, st.pivotRet = false, nil
	if c.Lemma {
		st.pivoted = true
	}
	ex.sawDec = false
	outs := ex.callFn(st, c.Fn, full, nil)
	ex.useStack = ex.useStack[:len(ex.useStack)-1]
	if c == ex.cur && c.Lemma && !ex.sawDec {
		panic(Unsup("recursive lemma %s without a measure", c.Name))
	}
	var res []*Outcome
	for _, o := range outs {
		ret := o.St.pivotRet
		o.St.mods, o.St.pivoted, o.St.pivotRet = savedMods, savedPivot, savedRet
		if c.Lemma {
			res = append(res, &Outcome{o.St, o.Ret})
			continue
		}
		if ret == nil && c.Target.Signature.Results().Len() > 0 {
			panic(Unsup("contract %s did not call its target", c.Name))
		}
		res = append(res, &Outcome{o.St, ret})
	}
	return res
}

func (ex *Exec) inUse() *Contract {
	if len(ex.useStack) == 0 {
		return nil
	}
	return ex.useStack[len(ex.useStack)-1]
}

// havocCall models the target of a contract in use mode: arbitrary results, arbitrary named locations.
func (ex *Exec) havocCall(st *State, c *Contract) []*Outcome {
	for _, id := range sortedInts(st.mods) {
		if id < 0 {
			id, f := unfieldMod(id)
			o := st.obj(id)
			s := o.V.(*VStruct)
			n := &VStruct{append([]Val{}, s.F...)}
			n.F[f] = ex.havocVal(st, under(o.T).(*types.Struct).Field(f).Type(), s.F[f], "mod")
			st.setObj(id, n)
			if st.wlog != nil {
				st.wlog[fmt.Sprintf("%d|", id)] = &wentry{id, nil}
			}
			continue
		}
		o := st.obj(id)
		st.setObj(id, ex.havocVal(st, o.T, o.V, "mod"))
		if st.wlog != nil {
			st.wlog[fmt.Sprintf("%d|", id)] = &wentry{id, nil}
		}
	}
	outs := []*Outcome{{st, nil}}
	res := c.Target.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		var nx []*Outcome
		for _, o := range outs {
			for _, alt := range ex.resultAlts(o.St, t, c.Target.Name()) {
				nx = append(nx, &Outcome{alt.St, append(o.Ret[:len(o.Ret):len(o.Ret)], alt.Ret[0])})
			}
		}
		outs = nx
	}
	for _, o := range outs {
		o.St.pivoted = true
		o.St.pivotRet = o.Ret
		if o.Ret == nil {
			o.St.pivotRet = []Val{}
		}
	}
	return outs
}

func (ex *Exec) resultAlts(st *State, t types.Type, name string) []*Outcome {
	switch u := under(t).(type) {
	case *types.Interface:
		if isErrorType(t) {
			s2 := st.clone()
			e := Fresh(name+".err", BV(32))
			s2.assume(Not(Eq(e, BVI(0, 32))))
			return []*Outcome{{st, []Val{VIface{}}}, {s2, []Val{VIface{Opq: e}}}}
		}
	case *types.Pointer:
		s2 := st.clone()
		v := ex.fresh(s2, t, name+".ret")
		if p, ok := v.(VPtr); ok {
			o := *s2.heap[p.Obj]
			o.Input = ""
			s2.heap[p.Obj] = &o
		}
		return append([]*Outcome{{st, []Val{VPtr{}}}}, ex.nilForks([]*Outcome{{s2, []Val{v}}})...)
	case *types.Slice:
		_ = u
		v := ex.fresh(st, t, name+".ret").(VSlice)
		o := *st.heap[v.Obj]
		o.Input = ""
		st.heap[v.Obj] = &o
		s2 := st.clone()
		return []*Outcome{{st, []Val{v}}, {s2, []Val{zeroVal(t)}}}
	}
	v := ex.fresh(st, t, name+".ret")
	return ex.nilForks([]*Outcome{{st, []Val{v}}})
}

func (ex *Exec) intrinsic(st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
	one := func(v ...Val) []*Outcome { return []*Outcome{{st, v}} }
	lab := func(v Val) string {
		s, ok := v.(VStr).constStr()
		if !ok {
			return "?"
		}
		return s
	}
	use := ex.inUse()
	switch fn.Name() {
	case "Requires":
		g := args[0].(*Term)
		if ex.lemCap != nil {
			ex.lemCap.req = append(ex.lemCap.req, g)
			return one()
		}
		if use != nil && ex.pure == 0 {
			if !ex.oblige(st, "pre:"+use.Name, ex.pos(in.Pos()), g) {
				return nil
			}
			return one()
		}
		st.assume(g)
		if g == False || !ex.feasible(st, True) {
			return nil
		}
		return one()
	case "Ensures":
		g := args[1].(*Term)
		if ex.lemCap != nil {
			ex.lemCap.ens = append(ex.lemCap.ens, g)
			return one()
		}
		if use != nil || ex.pure > 0 {
			st.assume(g)
			if g == False || !ex.feasible(st, True) {
				return nil
			}
			return one()
		}
		if !ex.muteVC {
			ex.reached[lab(args[0])] = true
		}
		ex.oblige(st, lab(args[0]), ex.pos(in.Pos()), g)
		return one()
	case "Assert":
		g := args[1].(*Term)
		if use != nil || ex.pure > 0 {
			return one()
		}
		ex.oblige(st, "assert:"+lab(args[0]), ex.pos(in.Pos()), g)
		return one()
	case "Assume":
		ex.trusted["assume:"+lab(args[0])] = true
		st.assume(args[1].(*Term))
		if !ex.feasible(st, True) {
			return nil
		}
		return one()
	case "Cover":
		if !ex.muteVC {
			ex.reached[lab(args[0])] = true
		}
		if use == nil && ex.pure == 0 && !ex.muteVC {
			ex.vcs = append(ex.vcs, &VC{Contract: ex.cur.Name, Label: "cover:" + lab(args[0]), PC: st.pc, Goal: True, Cover: true})
		}
		return one()
	case "Any":
		i := args[0].(VIface)
		p := i.V.(VPtr)
		et := i.T.(*types.Pointer).Elem()
		st.setObj(p.Obj, ex.writePath(st, st.obj(p.Obj).V, p.Path, ex.fresh(st, et, lab(args[1]))))
		return one()
	case "Guarded":
		mu := args[0].(VIface).V.(VPtr)
		for _, a := range ex.variadic(st, args[2]) {
			i := a.(VIface)
			g := guard{lock: lockKey(mu), name: lab(args[1])}
			switch p := i.V.(type) {
			case VPtr:
				g.p = p
			case VMap:
				g.p = VPtr{Obj: p.Obj}
			default:
				panic(Unsup("v.Guarded of %T", i.V))
			}
			st.guards = append(st.guards[:len(st.guards):len(st.guards)], g)
		}
		return one()
	case "AnyRest":
		m := args[0].(VIface).V.(VMap)
		c := *st.obj(m.Obj).V.(*VMapC)
		c.Rest = args[1].(VIface).V
		st.setObj(m.Obj, &c)
		return one()
	case "AnyBool":
		return one(Fresh(lab(args[0]), BoolSort))
	case "AnyInt", "AnyI64":
		return one(Fresh(lab(args[0]), BV(64)))
	case "AnyU32":
		return one(Fresh(lab(args[0]), BV(32)))
	case "AnyErr":
		// an arbitrary non-nil error
		e := Fresh(lab(args[0]), BV(32))
		st.assume(Not(Eq(e, BVI(0, 32))))
		return one(VIface{Opq: e})
	case "AnyBytes":
		return one(ex.bytesFromRope(st, VStr{[]Seg{{A: Fresh(lab(args[0]), StrSort)}}}, lab(args[0])))
	case "AnyString":
		return one(VStr{[]Seg{{A: Fresh(lab(args[0]), StrSort)}}})
	case "Modifies":
		for _, a := range ex.variadic(st, args[0]) {
			i := a.(VIface)
			switch p := i.V.(type) {
			case VPtr:
				if len(p.Path) == 1 && p.Path[0].T == nil && isStruct(st.obj(p.Obj).V) {
					st.mods[fieldMod(p.Obj, p.Path[0].I)] = true
				} else {
					st.mods[p.Obj] = true
				}
			case VMap:
				st.mods[p.Obj] = true
			case VSlice:
				st.mods[p.Obj] = true
			}
		}
		return one()
	case "Implies":
		return one(Implies(args[0].(*Term), args[1].(*Term)))
	case "Forall":
		f := args[0].(VIface).V.(VFunc)
		return one(ex.forall(st, f))
	case "Old":
		i := args[0].(VIface)
		switch p := i.V.(type) {
		case VMap:
			if p.Obj == 0 {
				return one(i)
			}
			id := st.alloc(st.obj(p.Obj).T, st.obj(p.Obj).V)
			return one(VIface{T: i.T, V: VMap{Obj: id}})
		case VPtr:
			id := st.alloc(st.obj(p.Obj).T, ex.loadRaw(st, p))
			return one(VIface{T: i.T, V: VPtr{Obj: id}})
		case VSlice:
			if isByteSlice(i.T) {
				return one(VIface{T: i.T, V: ex.bytesFromRope(st, ex.sliceRope(st, p), "old")})
			}
			if p.Obj == 0 {
				return one(i)
			}
			o := st.obj(p.Obj)
			id := st.alloc(o.T, ex.readPath(st, o.V, p.Path, nil))
			return one(VIface{T: i.T, V: VSlice{Obj: id, Off: p.Off, Len: p.Len, Cap: p.Cap}})
		}
		panic(Unsup("v.Old of %T", i.V))
	case "Proof":
		if use != nil || ex.pure > 0 {
			return one()
		}
		f := args[0].(VFunc)
		return ex.callFn(st, f.Fn, nil, f.Bind)
	case "Decreases":
		m := args[0].(*Term)
		ex.sawDec = true
		if ex.lemCap != nil {
			return one()
		}
		if use != nil && use == ex.cur {
			ex.oblige(st, "decreases", ex.pos(in.Pos()), And(Sle(Int(0), m), Slt(m, st.measure(ex))))
			return one()
		}
		if use == nil {
			st.ghost["$measure"] = m
		}
		return one()
	case "BytesEq":
		a, b := args[0].(VSlice), args[1].(VSlice)
		return one(eqRope(ex.sliceRope(st, a), ex.sliceRope(st, b)))
	case "Field", "SetField":
		// an unexported field of a dependency's object
		i := args[0].(VIface)
		pt, ok := i.V.(VPtr)
		if !ok {
			panic(Unsup("Field of %T", i.V))
		}
		pt0, ok := i.T.(*types.Pointer)
		if !ok {
			panic(Unsup("Field of %s", i.T))
		}
		su, ok := under(pt0.Elem()).(*types.Struct)
		if !ok {
			panic(Unsup("Field of %s", i.T))
		}
		for k := 0; k < su.NumFields(); k++ {
			if su.Field(k).Name() != lab(args[1]) {
				continue
			}
			fp := VPtr{Obj: pt.Obj, Path: extPath(pt.Path, Sel{I: k})}
			if fn.Name() == "SetField" {
				x := args[2].(VIface)
				if types.IsInterface(su.Field(k).Type()) {
					ex.storeRaw(st, fp, x)
				} else {
					ex.storeRaw(st, fp, x.V)
				}
				return one()
			}
			x := ex.loadRaw(st, fp)
			if y, ok := x.(VIface); ok {
				return one(y)
			}
			return one(VIface{T: su.Field(k).Type(), V: x})
		}
		panic(Unsup("no field %s", lab(args[1])))
	case "Same":
		a, b := args[0].(VIface), args[1].(VIface)
		ea, eb := ex.encode(st, a.T, a.V), ex.encode(st, b.T, b.V)
		var cs []*Term
		for i := range ea {
			cs = append(cs, Eq(ea[i], eb[i]))
		}
		return one(And(cs...))
	case "Ghost":
		if v, ok := st.ghost[lab(args[0])]; ok {
			return one(v)
		}
		return one(Int(0))
	case "SetGhost":
		st.ghost[lab(args[0])] = args[1]
		return one()
	case "Locked":
		i := args[0].(VIface)
		p := i.V.(VPtr)
		return one(BoolT(st.locks[lockKey(p)] == -1))
	case "Unhash":
		b, ok := ex.bigArg(st, args[0], in)
		n, ok2 := constIdx(args[1].(*Term))
		if !ok || !ok2 {
			panic(Unsup("v.Unhash arguments"))
		}
		t := b.T
		if t.S.W > bigW {
			t = Extract(t, bigW-1, 0)
		}
		return one(ex.newBig(st, VBig{T: App(fmt.Sprintf("unpos6_%d", n), BV(bigW), Zext(t, bigW))}))
	case "Log":
		fmt.Fprintln(os.Stderr, "LOG", ex.cur.Name, describe(ex, st, args[0]))
		return one()
	}
	panic(Unsup("intrinsic %s", fn.Name()))
}

func (st *State) measure(ex *Exec) *Term {
	if m, ok := st.ghost["$measure"]; ok {
		return m.(*Term)
	}
	return Int(-1)
}

func describe(ex *Exec, st *State, v Val) string {
	i, ok := v.(VIface)
	if !ok {
		return fmt.Sprint(v)
	}
	defer func() { recover() }()
	switch p := i.V.(type) {
	case VPtr:
		return fmt.Sprintf("%v -> %v", p, ex.loadRaw(st, p))
	case VSlice:
		return fmt.Sprintf("%v -> %v", p, ex.readPath(st, st.obj(p.Obj).V, p.Path, nil))
	}
	return fmt.Sprint(i.V)
}

func (ex *Exec) variadic(st *State, v Val) []Val {
	s := v.(VSlice)
	if s.Obj == 0 {
		return nil
	}
	c := ex.readPath(st, st.obj(s.Obj).V, s.Path, nil)
	a, ok := c.(*VArr)
	if !ok {
		panic(Unsup("variadic arguments"))
	}
	n, ok := constIdx(s.Len)
	off, ok2 := constIdx(s.Off)
	if !ok || !ok2 {
		panic(Unsup("variadic arguments"))
	}
	return a.E[off : off+n]
}

// evalPureBool evaluates a boolean ghost function without side effects.
func (ex *Exec) evalPureBool(st *State, fn *ssa.Function, args []Val) *Term {
	return ex.evalPureBoolBind(st, fn, args, nil)
}

func (ex *Exec) evalPureBoolBind(st *State, fn *ssa.Function, args, bind []Val) *Term {
	s := st.clone()
	s.wlog = nil
	base := len(s.pc)
	ex.pure++
	om := ex.muteVC
	ex.muteVC = true
	cuts := ex.cuts
	ex.cuts = nil
	defer func() { ex.pure--; ex.muteVC = om; ex.cuts = cuts }()
	outs := ex.callFn(s, fn, args, bind)
	var ors []*Term
	for _, o := range outs {
		r := o.Ret[0].(*Term)
		rest := restPC(st.pc[:base], o.St.pc)
		ors = append(ors, And(append(rest, r)...))
	}
	return Or(ors...)
}

// restPC: conjuncts of pc that are not in base.
func restPC(base, pc []*Term) []*Term {
	in := map[*Term]bool{}
	for _, t := range base {
		in[t] = true
	}
	var r []*Term
	for _, t := range pc {
		if !in[t] {
			r = append(r, t)
		}
	}
	return r
}

func (ex *Exec) forall(st *State, f VFunc) *Term {
	var bvs []*Term
	var args []Val
	s := st.clone()
	for _, p := range f.Fn.Params {
		es, ok := encSorts(p.Type())
		if !ok || len(es) != 1 {
			panic(Unsup("quantifier over %s", p.Type()))
		}
		freshCnt["q"]++
		bv := Bound(fmt.Sprintf("q!%s%d", p.Name(), freshCnt["q"]), es[0])
		bvs = append(bvs, bv)
		v, _ := ex.decode(s, p.Type(), []*Term{bv}, p.Name(), true)
		args = append(args, v)
	}
	body := ex.evalPureBoolBind(s, f.Fn, args, f.Bind)
	for i := len(bvs) - 1; i >= 0; i-- {
		body = Forall(bvs[i], body)
	}
	return body
}

// ---- recursive specification functions: uninterpreted with bounded unfolding

func recName(fn *ssa.Function) string { return "rec$" + fn.Pkg.Pkg.Name() + "." + fn.Name() }

var recByName = map[string]*ssa.Function{}

func (ex *Exec) recSpec(st *State, fn *ssa.Function, args []Val) []*Outcome {
	n := recName(fn)
	recByName[n] = fn
	var enc []*Term
	for i, p := range fn.Params {
		enc = append(enc, ex.encode(st, p.Type(), args[i])...)
	}
	res := fn.Signature.Results()
	var ret []Val
	k := 0
	for i := 0; i < res.Len(); i++ {
		es, ok := encSorts(res.At(i).Type())
		if !ok {
			panic(Unsup("recursive spec result type %s", res.At(i).Type()))
		}
		var ts []*Term
		for _, e := range es {
			ts = append(ts, App(fmt.Sprintf("%s#%d", n, k), e, enc...))
			k++
		}
		v, _ := ex.decode(st, res.At(i).Type(), ts, "rec", true)
		ret = append(ret, v)
	}
	return []*Outcome{{st, ret}}
}

// unfold gives the defining equations of an application of a recursive spec function.
func (ex *Exec) unfold(t *Term) []*Term {
	inLemma := ex.cur != nil && ex.cur.Lemma
	if r, ok := ex.unfolded[t]; ok && !inLemma {
		return r
	}
	i := strings.LastIndex(t.Name, "#")
	fn := recByName[t.Name[:i]]
	which, _ := strconv.Atoi(t.Name[i+1:])
	key := fmt.Sprintf("%s|%d", t.Name[:i], termsKey(t.Args))
	defs, ok := ex.unfoldDefs[key]
	if !ok {
		defs = ex.unfoldBody(fn, t.Args)
		ex.unfoldDefs[key] = defs
	}
	var r []*Term
	if defs != nil {
		r = []*Term{Eq(t, defs[which])}
	}
	if which == 0 {
		for _, l := range ex.auto[fn] {
			if l != ex.cur {
				ex.used[l.Name] = true
				r = append(r, ex.lemmaInstance(l, t.Args))
			}
		}
	}
	if !inLemma {
		ex.unfolded[t] = r
	}
	return r
}

type lemCap struct{ req, ens []*Term }

// lemmaInstance gives an instance of an automatically applied lemma.
func (ex *Exec) lemmaInstance(l *Contract, enc []*Term) *Term {
	st := newState()
	var args []Val
	rest := enc
	for _, p := range l.Fn.Params {
		var v Val
		v, rest = ex.decode(st, p.Type(), rest, p.Name(), true)
		args = append(args, v)
	}
	ex.pure++
	om, us, cuts, oc := ex.muteVC, ex.useStack, ex.cuts, ex.lemCap
	ex.muteVC, ex.useStack, ex.cuts, ex.lemCap = true, nil, nil, &lemCap{}
	defer func() { ex.pure--; ex.muteVC = om; ex.useStack = us; ex.cuts = cuts; ex.lemCap = oc }()
	outs := ex.callFn(st, l.Fn, args, nil)
	if len(outs) != 1 {
		return True
	}
	return Implies(And(ex.lemCap.req...), And(ex.lemCap.ens...))
}

func (ex *Exec) unfoldBody(fn *ssa.Function, enc []*Term) (defs []*Term) {
	st := newState()
	var args []Val
	rest := enc
	for _, p := range fn.Params {
		var v Val
		v, rest = ex.decode(st, p.Type(), rest, p.Name(), true)
		args = append(args, v)
	}
	ex.pure++
	om := ex.muteVC
	ex.muteVC = true
	us := ex.useStack
	ex.useStack = nil
	cuts := ex.cuts
	ex.cuts = nil
	defer func() { ex.pure--; ex.muteVC = om; ex.useStack = us; ex.cuts = cuts }()
	outs := ex.callFn(st, fn, args, nil)
	if len(outs) == 0 {
		return nil
	}
	res := fn.Signature.Results()
	encOut := func(o *Outcome) []*Term {
		var r []*Term
		for i := 0; i < res.Len(); i++ {
			r = append(r, ex.encode(o.St, res.At(i).Type(), o.Ret[i])...)
		}
		return r
	}
	defs = encOut(outs[len(outs)-1])
	for i := len(outs) - 2; i >= 0; i-- {
		e := encOut(outs[i])
		c := And(outs[i].St.pc...)
		for k := range defs {
			defs[k] = Ite(c, e[k], defs[k])
		}
	}
	return defs
}

// absImpl builds an abstract implementation of an interface from the contract files.
func (ex *Exec) absImpl(st *State, t types.Type, name string) Val {
	n, ok := t.(*types.Named)
	if !ok {
		panic(Unsup("fresh value of interface %s", t))
	}
	fname := "Abs_" + n.Obj().Name()
	var fn *ssa.Function
	if ex.freshIn != nil && ex.freshIn.Obj().Pkg() != nil {
		if sp := ex.pkgs[ex.freshIn.Obj().Pkg().Path()]; sp != nil {
			fn = sp.Func(fname)
		}
	}
	if fn == nil && ex.cur != nil {
		fn = ex.cur.Fn.Pkg.Func(fname)
	}
	if fn == nil && n.Obj().Pkg() != nil {
		if sp := ex.pkgs[n.Obj().Pkg().Path()]; sp != nil {
			fn = sp.Func(fname)
		}
	}
	if fn == nil {
		panic(Unsup("no abstract implementation %s for %s", fname, t))
	}
	outs := ex.callFn(st, fn, nil, nil)
	if len(outs) != 1 || outs[0].St != st {
		panic(Unsup("abstract implementation %s forks", fname))
	}
	return outs[0].Ret[0]
}

func (ex *Exec) opaqueCall(st *State, f VFunc, sig *types.Signature, args []Val) []*Outcome {
	if strings.HasPrefix(f.Opq, "builtin:") {
		panic(Unsup("builtin as value"))
	}
	// an arbitrary callback: arbitrary result, assumed not to touch the state
	ex.trusted["callback:"+f.Opq] = true
	outs := []*Outcome{{st, nil}}
	for i := 0; i < sig.Results().Len(); i++ {
		var nx []*Outcome
		for _, o := range outs {
			for _, alt := range ex.resultAlts(o.St, sig.Results().At(i).Type(), f.Opq) {
				nx = append(nx, &Outcome{alt.St, append(o.Ret[:len(o.Ret):len(o.Ret)], alt.Ret[0])})
			}
		}
		outs = nx
	}
	return outs
}

func (ex *Exec) opaqueInvoke(st *State, o VOpaque, c *ssa.CallCommon, args []Val) []*Outcome {
	panic(Unsup("method %s on opaque value %s", c.Method.Name(), o.Name))
}

// a field of an object, named in v.Modifies
func fieldMod(obj, f int) int           { return -(obj*1000 + f) - 1 }
func unfieldMod(k int) (obj, field int) { k = -k - 1; return k / 1000, k % 1000 }

func setField(v Val, f int, x Val) Val {
	s := v.(*VStruct)
	n := &VStruct{append([]Val{}, s.F...)}
	n.F[f] = x
	return n
}

func isStruct(v Val) bool { _, ok := v.(*VStruct); return ok }
