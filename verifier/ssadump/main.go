// ssadump prints the SSA form (golang.org/x/tools/go/ssa) of every function of the
// packages given, as JSON, for the verification condition generator.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var typeTab = map[string]J{}
var prog *ssa.Program
var modPath string

func tname(t types.Type) string {
	t = types.Unalias(t)
	s := types.TypeString(t, nil)
	if _, ok := typeTab[s]; ok {
		return s
	}
	e := J{}
	typeTab[s] = e
	switch u := t.(type) {
	case *types.Named:
		e["kind"] = "named"
		e["under"] = tname(u.Underlying())
		if u.Obj().Pkg() != nil {
			e["pkg"] = u.Obj().Pkg().Path()
		}
		e["name"] = u.Obj().Name()
		var ms []J
		if _, isI := u.Underlying().(*types.Interface); !isI {
			ms = methods(u)
			e["methods"] = ms
			e["pmethods"] = methods(types.NewPointer(u))
		}
	case *types.Pointer:
		e["kind"] = "pointer"
		e["elem"] = tname(u.Elem())
	case *types.Slice:
		e["kind"] = "slice"
		e["elem"] = tname(u.Elem())
	case *types.Array:
		e["kind"] = "array"
		e["elem"] = tname(u.Elem())
		e["len"] = u.Len()
	case *types.Map:
		e["kind"] = "map"
		e["key"] = tname(u.Key())
		e["elem"] = tname(u.Elem())
	case *types.Struct:
		e["kind"] = "struct"
		fs := []J{}
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, J{"name": u.Field(i).Name(), "type": tname(u.Field(i).Type()), "embedded": u.Field(i).Embedded()})
		}
		e["fields"] = fs
	case *types.Tuple:
		e["kind"] = "tuple"
		fs := []string{}
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, tname(u.At(i).Type()))
		}
		e["elems"] = fs
	case *types.Interface:
		e["kind"] = "interface"
		ms := []J{}
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, J{"name": u.Method(i).Name(), "sig": tname(u.Method(i).Type())})
		}
		e["ms"] = ms
	case *types.Signature:
		e["kind"] = "func"
		ps := []string{}
		for i := 0; i < u.Params().Len(); i++ {
			ps = append(ps, tname(u.Params().At(i).Type()))
		}
		rs := []string{}
		for i := 0; i < u.Results().Len(); i++ {
			rs = append(rs, tname(u.Results().At(i).Type()))
		}
		e["params"] = ps
		e["results"] = rs
	case *types.Basic:
		e["kind"] = "basic"
		e["name"] = u.Name()
	default:
		e["kind"] = "other"
		e["go"] = fmt.Sprintf("%T", t)
	}
	return s
}

func methods(t types.Type) []J {
	ms := []J{}
	mset := prog.MethodSets.MethodSet(t)
	for i := 0; i < mset.Len(); i++ {
		sel := mset.At(i)
		f := prog.MethodValue(sel)
		if f == nil {
			continue
		}
		ms = append(ms, J{"name": sel.Obj().Name(), "func": f.String(), "sig": tname(sel.Obj().Type())})
	}
	return ms
}

func val(v ssa.Value) interface{} {
	switch u := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		e := J{"k": "const", "t": tname(u.Type())}
		if u.Value == nil {
			e["nil"] = true
		} else {
			switch u.Value.Kind() {
			case constant.Bool:
				e["v"] = constant.BoolVal(u.Value)
			case constant.String:
				s := constant.StringVal(u.Value)
				bs := []int{}
				for i := 0; i < len(s); i++ {
					bs = append(bs, int(s[i]))
				}
				e["v"] = bs
				e["str"] = true
			case constant.Int:
				e["v"] = u.Value.ExactString()
				e["int"] = true
			default:
				e["v"] = u.Value.ExactString()
			}
		}
		return e
	case *ssa.Function:
		return J{"k": "func", "n": u.String(), "t": tname(u.Type())}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": u.Name()}
	case *ssa.Global:
		return J{"k": "global", "n": u.String(), "t": tname(u.Type())}
	default:
		return J{"k": "v", "n": v.Name(), "t": tname(v.Type())}
	}
}

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(e J, c *ssa.CallCommon) {
	if c.IsInvoke() {
		e["invoke"] = c.Method.Name()
		e["iface"] = tname(c.Value.Type())
		e["recv"] = val(c.Value)
	} else {
		e["fn"] = val(c.Value)
	}
	e["args"] = vals(c.Args)
	e["sig"] = tname(c.Signature())
}

func instr(i ssa.Instruction) J {
	e := J{}
	if v, ok := i.(ssa.Value); ok {
		e["n"] = v.Name()
		e["t"] = tname(v.Type())
	}
	if p := i.Pos(); p.IsValid() {
		pos := prog.Fset.Position(p)
		e["line"] = pos.Line
	}
	switch u := i.(type) {
	case *ssa.Alloc:
		e["op"] = "alloc"
		e["heap"] = u.Heap
	case *ssa.BinOp:
		e["op"] = "binop"
		e["o"] = u.Op.String()
		e["x"] = val(u.X)
		e["y"] = val(u.Y)
	case *ssa.UnOp:
		e["op"] = "unop"
		e["o"] = u.Op.String()
		if u.Op == token.MUL {
			e["o"] = "load"
		}
		e["x"] = val(u.X)
		e["commaok"] = u.CommaOk
	case *ssa.Call:
		e["op"] = "call"
		call(e, &u.Call)
	case *ssa.Defer:
		e["op"] = "defer"
		call(e, &u.Call)
	case *ssa.Go:
		e["op"] = "go"
		call(e, &u.Call)
	case *ssa.ChangeInterface:
		e["op"] = "changeiface"
		e["x"] = val(u.X)
	case *ssa.ChangeType:
		e["op"] = "changetype"
		e["x"] = val(u.X)
	case *ssa.Convert:
		e["op"] = "convert"
		e["x"] = val(u.X)
	case *ssa.MultiConvert:
		e["op"] = "multiconvert"
		e["x"] = val(u.X)
	case *ssa.Extract:
		e["op"] = "extract"
		e["x"] = val(u.Tuple)
		e["i"] = u.Index
	case *ssa.Field:
		e["op"] = "field"
		e["x"] = val(u.X)
		e["i"] = u.Field
	case *ssa.FieldAddr:
		e["op"] = "fieldaddr"
		e["x"] = val(u.X)
		e["i"] = u.Field
	case *ssa.If:
		e["op"] = "if"
		e["x"] = val(u.Cond)
	case *ssa.Index:
		e["op"] = "index"
		e["x"] = val(u.X)
		e["y"] = val(u.Index)
	case *ssa.IndexAddr:
		e["op"] = "indexaddr"
		e["x"] = val(u.X)
		e["y"] = val(u.Index)
	case *ssa.Jump:
		e["op"] = "jump"
	case *ssa.Lookup:
		e["op"] = "lookup"
		e["x"] = val(u.X)
		e["y"] = val(u.Index)
		e["commaok"] = u.CommaOk
	case *ssa.MakeInterface:
		e["op"] = "makeiface"
		e["x"] = val(u.X)
	case *ssa.MakeSlice:
		e["op"] = "makeslice"
		e["len"] = val(u.Len)
		e["cap"] = val(u.Cap)
	case *ssa.MakeMap:
		e["op"] = "makemap"
	case *ssa.MapUpdate:
		e["op"] = "mapupdate"
		e["x"] = val(u.Map)
		e["key"] = val(u.Key)
		e["val"] = val(u.Value)
	case *ssa.MakeClosure:
		e["op"] = "makeclosure"
		e["fn"] = val(u.Fn)
		e["args"] = vals(u.Bindings)
	case *ssa.Next:
		e["op"] = "next"
		e["x"] = val(u.Iter)
		e["isstr"] = u.IsString
	case *ssa.Panic:
		e["op"] = "panic"
		e["x"] = val(u.X)
	case *ssa.Phi:
		e["op"] = "phi"
		e["args"] = vals(u.Edges)
		e["comment"] = u.Comment
	case *ssa.Range:
		e["op"] = "range"
		e["x"] = val(u.X)
	case *ssa.Return:
		e["op"] = "return"
		e["args"] = vals(u.Results)
	case *ssa.RunDefers:
		e["op"] = "rundefers"
	case *ssa.Slice:
		e["op"] = "slice"
		e["x"] = val(u.X)
		e["lo"] = val(u.Low)
		e["hi"] = val(u.High)
		e["max"] = val(u.Max)
	case *ssa.Store:
		e["op"] = "store"
		e["addr"] = val(u.Addr)
		e["val"] = val(u.Val)
	case *ssa.TypeAssert:
		e["op"] = "typeassert"
		e["x"] = val(u.X)
		e["at"] = tname(u.AssertedType)
		e["commaok"] = u.CommaOk
	default:
		e["op"] = fmt.Sprintf("unsupported:%T", i)
	}
	return e
}

func nilIf(v ssa.Value) ssa.Value { return v }

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pkgs, err := packages.Load(cfg, os.Args[2:]...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
	})
	if bad {
		os.Exit(3)
	}
	var spkgs []*ssa.Package
	prog, spkgs = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	own := map[*ssa.Package]bool{}
	plist := []string{}
	for i, p := range spkgs {
		if p != nil {
			own[p] = true
			plist = append(plist, pkgs[i].PkgPath)
		}
	}
	// named types of the packages
	named := []J{}
	for p := range own {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				named = append(named, J{"type": tname(t.Type()), "pkg": p.Pkg.Path(), "name": t.Name()})
			}
		}
	}
	sort.Slice(named, func(i, j int) bool { return named[i]["type"].(string) < named[j]["type"].(string) })
	funcs := J{}
	for changed := true; changed; {
		changed = false
		for f := range ssautil.AllFunctions(prog) {
			fp := f.Pkg
			if fp == nil && f.Origin() != nil {
				fp = f.Origin().Pkg
			}
			isWrapper := f.Synthetic != "" && fp == nil
			if isWrapper {
				// method wrappers: keep those whose receiver type belongs to us
				if r := f.Signature.Recv(); r != nil {
					t := r.Type()
					if pt, ok := t.(*types.Pointer); ok {
						t = pt.Elem()
					}
					if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
						if sp := prog.Package(n.Obj().Pkg()); own[sp] {
							fp = sp
						}
					}
				}
			}
			if isWrapper && !own[fp] && f.Object() != nil && f.Object().Pkg() != nil {
				// method expressions and method values
				if sp := prog.Package(f.Object().Pkg()); own[sp] {
					fp = sp
				}
			}
			if !own[fp] {
				continue
			}
			if _, done := funcs[f.String()]; done {
				continue
			}
			changed = true
			e := J{"name": f.String(), "pkg": fp.Pkg.Path(), "sig": tname(f.Signature), "synthetic": f.Synthetic}
			if f.Pos().IsValid() {
				pos := prog.Fset.Position(f.Pos())
				e["file"] = pos.Filename
				e["line"] = pos.Line
			}
			if r := f.Signature.Recv(); r != nil {
				e["recv"] = tname(r.Type())
			}
			ps := []J{}
			for _, p := range f.Params {
				ps = append(ps, J{"n": p.Name(), "t": tname(p.Type())})
			}
			e["params"] = ps
			fv := []J{}
			for _, p := range f.FreeVars {
				fv = append(fv, J{"n": p.Name(), "t": tname(p.Type())})
			}
			e["freevars"] = fv
			e["recover"] = f.Recover != nil
			bs := []J{}
			for _, b := range f.Blocks {
				is := []J{}
				for _, i := range b.Instrs {
					if _, ok := i.(*ssa.DebugRef); ok {
						continue
					}
					is = append(is, instr(i))
				}
				pr := []int{}
				for _, x := range b.Preds {
					pr = append(pr, x.Index)
				}
				su := []int{}
				for _, x := range b.Succs {
					su = append(su, x.Index)
				}
				bs = append(bs, J{"i": b.Index, "instrs": is, "preds": pr, "succs": su, "comment": b.Comment})
			}
			e["blocks"] = bs
			funcs[f.String()] = e
		}
	}
	out := J{"funcs": funcs, "types": typeTab, "named": named, "pkgs": plist}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
}
