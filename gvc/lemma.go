package main

// Lemmas: functions of the overlay (package urn, files zz_gvc_*.go) that call the real code and state
// what must hold; the gvc* functions they use are interpreted here.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out

var intrinsics map[string]intrinsic

func lit(v Val) string {
	s, ok := v.(Rope).isLit()
	if !ok {
		panic(unsupported("lemma label"))
	}
	return s
}

func (x *Exec) textOf(st *State, v Val) Rope {
	switch v := v.(type) {
	case Rope:
		return v
	case SliceV:
		return x.sliceRope(st, v)
	}
	panic(unsupported("text %T", v))
}

func (x *Exec) arbitraryText(st *State, name string) Rope {
	D, N := Fresh(name, SBArr), Fresh("#"+name, SInt)
	st.pc.assume(Le(zero, N))
	st.pc.assume(Le(N, Int(maxInput)))
	st.raw(D, N)
	return SubR(D, zero, N)
}

func init() {
	ret := func(st *State, v ...Val) []Out { return []Out{{st, v}} }
	intrinsics = map[string]intrinsic{
		// arbitrary values
		"gvcBytes": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			nilSt := st.clone()
			r := x.arbitraryText(st, lit(args[0]))
			o := st.alloc(Obj{kind: kBytes, typ: bytesT, bytes: r, what: "the input"})
			c := Fresh("cap", SInt)
			st.pc.assume(Le(r.length(), c))
			return []Out{
				{st, []Val{SliceV{obj: o.id, off: zero, ln: r.length(), cp: c, byteElem: true}}},
				{nilSt, []Val{SliceV{off: zero, ln: zero, cp: zero, byteElem: true}}},
			}
		},
		"gvcString": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			return ret(st, x.arbitraryText(st, lit(args[0])))
		},
		"gvcInt": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			v := Fresh(lit(args[0]), SInt)
			st.pc.assume(Le(Int(-1<<61), v))
			st.pc.assume(Le(v, Int(1<<61)))
			return ret(st, v)
		},
		"gvcBool": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			return ret(st, Fresh(lit(args[0]), SBool))
		},
		// obligations
		"gvcRequire": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			x.assumeCond(st, args[0].(*Term))
			return ret(st)
		},
		"gvcEnsure": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			c := args[1].(*Term)
			x.oblige(st, "ensures", lit(args[0]), c, in)
			return ret(st)
		},
		"gvcEqual": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			a, b := x.textOf(st, args[1]), x.textOf(st, args[2])
			x.oblige(st, "ensures", lit(args[0]), x.sameText(st, a, b), in)
			return ret(st)
		},
		// the grammar
		"gvcSpec": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			n := lit(args[0])
			m := x.specs[n]
			if m == nil {
				panic(unsupported("grammar %s", n))
			}
			st.mode = m
			return ret(st)
		},
		"gvcAccepts": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			m := x.specs[lit(args[0])]
			var outs []Out
			for _, j := range x.outcome(st, m, x.textOf(st, args[1])) {
				outs = append(outs, Out{j.st, []Val{Bool(j.o.acc)}})
			}
			return outs
		},
		// gvcPiece is the piece of an accepted text between two marked positions, empty when they are absent.
		"gvcPiece": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			m := x.specs[lit(args[0])]
			r := x.textOf(st, args[1])
			a, b := lit(args[2]), lit(args[3])
			var outs []Out
			for _, j := range x.outcome(st, m, r) {
				if !j.o.acc {
					outs = append(outs, Out{j.st, []Val{Rope(nil)}})
					continue
				}
				lo, hi := j.o.tags[a], j.o.tags[b]
				if lo == nil || hi == nil {
					outs = append(outs, Out{j.st, []Val{Rope(nil)}})
					continue
				}
				outs = append(outs, Out{j.st, []Val{r.slice(j.st.pc, lo, hi)}})
			}
			return outs
		},
		"gvcHas": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			m := x.specs[lit(args[0])]
			var outs []Out
			for _, j := range x.outcome(st, m, x.textOf(st, args[1])) {
				outs = append(outs, Out{j.st, []Val{Bool(j.o.acc && j.o.tags[lit(args[2])] != nil)}})
			}
			return outs
		},
		// gvcErr is the documented error text of a rejected input.
		"gvcErr": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			m := x.specs[lit(args[0])]
			var outs []Out
			for _, j := range x.outcome(st, m, x.textOf(st, args[1])) {
				if j.o.acc {
					outs = append(outs, Out{j.st, []Val{Rope(nil)}})
					continue
				}
				outs = append(outs, Out{j.st, []Val{x.errRope(m, j.o)}})
			}
			return outs
		},
		// text functions of the specification
		"gvcLower": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			r := args[0].(Rope)
			if x.ascii(st, r) {
				return ret(st, mapRope("lower", r))
			}
			return ret(st, caseR(st, "strings.ToLower", r))
		},
		"gvcNorm": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			return ret(st, normR(args[0].(Rope)))
		},
		"gvcSame": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			return ret(st, condEq(st.pc, args[0].(Rope), args[1].(Rope)))
		},
		// frames
		"gvcProtect": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			st.top = st.next
			st.allow = map[ObjID]bool{}
			return ret(st)
		},
		"gvcWatch": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			return ret(st)
		},
		// gvcSetKind sets the fields of type Kind, whatever they are called.
		"gvcSetKind": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			u := args[0].(Ptr)
			t := st.get(u.obj).typ.Underlying().(*types.Struct)
			for i := 0; i < t.NumFields(); i++ {
				if n, ok := t.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "Kind" {
					x.store(st, Ptr{obj: u.obj, path: u.path + string(rune(i))}, args[1], in)
				}
			}
			return ret(st)
		},
		// gvcStore, gvcStored: the text field of URN that is no piece of the text, whatever it is called.
		"gvcStore": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			u := args[0].(Ptr)
			if i := storedField(st.get(u.obj).typ.Underlying().(*types.Struct)); i >= 0 {
				x.store(st, Ptr{obj: u.obj, path: u.path + string(rune(i))}, args[1], in)
			}
			return ret(st)
		},
		"gvcStored": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			u := args[0].(Ptr)
			if i := storedField(st.get(u.obj).typ.Underlying().(*types.Struct)); i >= 0 {
				return ret(st, x.load(st, Ptr{obj: u.obj, path: u.path + string(rune(i))}, types.Typ[types.String], in))
			}
			return ret(st, Lit(""))
		},
		"gvcSetView": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			u := args[0].(Ptr)
			if i := viewField(st.get(u.obj).typ.Underlying().(*types.Struct)); i >= 0 {
				x.store(st, Ptr{obj: u.obj, path: u.path + string(rune(i))}, args[1], in)
			}
			return ret(st)
		},
		"gvcHeldView": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			u := args[0].(Ptr)
			t := st.get(u.obj).typ.Underlying().(*types.Struct)
			if i := viewField(t); i >= 0 {
				return ret(st, x.load(st, Ptr{obj: u.obj, path: u.path + string(rune(i))}, t.Field(i).Type(), in))
			}
			return ret(st, Ptr{})
		},
		"gvcUnprotect": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			st.top = 0
			st.allow = nil
			return ret(st)
		},
		"gvcAllow": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			n := map[ObjID]bool{}
			for k := range st.allow {
				n[k] = true
			}
			v := args[0]
			if i, ok := v.(IfaceV); ok {
				v = i.v
			}
			if p, ok := v.(Ptr); ok {
				n[p.obj] = true
			}
			st.allow = n
			return ret(st)
		},
		// gvcFresh: nothing reachable from the first value existed before gvcProtect.
		"gvcFresh": func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
			bad := x.reaches(st, args[1])
			x.oblige(st, "ensures", lit(args[0]), Bool(bad == ""), in)
			return ret(st)
		},
	}
}

// reaches finds an object that existed when the state was protected.
func (x *Exec) reaches(st *State, v Val) string {
	seen := map[ObjID]bool{}
	bad := ""
	var val func(v Val)
	obj := func(id ObjID) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		o := st.get(id)
		if id <= st.top {
			bad = o.what
			if bad == "" {
				bad = fmt.Sprintf("object %d (%v)", id, o.typ)
			}
			return
		}
		if o.kind == kErr {
			return
		}
		if o.cell != nil {
			val(o.cell)
		}
		for _, e := range o.vals {
			val(e)
		}
	}
	val = func(v Val) {
		switch v := v.(type) {
		case Ptr:
			obj(v.obj)
		case SliceV:
			obj(v.obj)
		case IfaceV:
			if v.v != nil {
				val(v.v)
			}
		case *FuncV:
			if v != nil {
				for _, b := range v.binds {
					val(b)
				}
			}
		case StructV:
			for _, e := range v {
				val(e)
			}
		case TupleV:
			val(StructV(v))
		case Unknown:
			bad = "a value " + v.why
		}
	}
	val(v)
	return bad
}

// errRope is the text of the error rule with its column.
func (x *Exec) errRope(m *ModeSpec, o *Outcome) Rope {
	t := m.errText(o.cls)
	i := strings.Index(t, "%d")
	col := AddC(o.pos, m.errOff(o.cls))
	return concatR(Lit(t[:i]), ItoaR(col), Lit(t[i+2:]))
}

// sameText is a formula that implies that the texts are equal.
func (x *Exec) sameText(st *State, a, b Rope) *Term {
	f, _ := eqRope(st.pc, a, b)
	return f
}

// runLemma verifies one lemma function.
func (x *Exec) runLemma(fn *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(stopErr); ok {
				err = fmt.Errorf("%s", string(u))
				x.curFn = nil
				x.depth = 0
				return
			}
			if u, ok := r.(unsupportedErr); ok {
				where := ""
				if len(x.curFn) > 0 {
					where = " (in " + strings.Join(x.curFn, " < ") + ")"
				}
				err = fmt.Errorf("%s%s", u.Error(), where)
				x.curFn = nil
				x.depth = 0
				return
			}
			panic(r)
		}
	}()
	x.label = fn.Name()
	x.emit = true
	st := x.gstate.clone()
	outs := x.call(st, fn, nil, nil, nil)
	n := 0
	for _, o := range outs {
		if !o.st.pc.dead {
			n++
		}
	}
	x.returns[fn.Name()] = n
	return nil
}

func (p *Prog) lemmas() []*ssa.Function {
	var fs []*ssa.Function
	for n, m := range p.root.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "gvcLemma") {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}

// crossq puts a discharged query to the second solver as well.
func (x *Exec) crossq(o *Oblig, query string) {
	switch cvc5pool.Check(query) {
	case "unsat":
		o.Cross++
	case "sat":
		o.Failed++
		o.Detail = "the solvers disagree"
		o.Query = query
	}
}

func storedField(t *types.Struct) int {
	res := -1
	for i := 0; i < t.NumFields(); i++ {
		if !isStringT(t.Field(i).Type()) {
			continue
		}
		switch n := t.Field(i).Name(); n {
		case "prefix", "ID", "SS", "rComponent", "qComponent", "fComponent":
		default:
			if res < 0 || n == "norm" {
				res = i
			}
		}
	}
	return res
}

func viewField(t *types.Struct) int {
	for i := 0; i < t.NumFields(); i++ {
		if p, ok := t.Field(i).Type().(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "SCIM" {
				return i
			}
		}
	}
	return -1
}
