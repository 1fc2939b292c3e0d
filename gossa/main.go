// gossa dumps the typed SSA form (golang.org/x/tools/go/ssa) of the packages of
// /repo as JSON, for one build configuration. It is the front end of the
// deductive verifier in /verif/gover: everything the verifier reasons about is
// what this program reads from the current source tree.
//
//	gossa [-goarch A] [-tags T] -o OUT.json DIR PATTERN...
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var fset *token.FileSet

// ---- types ----
func typ(t types.Type) any {
	switch t := t.(type) {
	case *types.Alias:
		return typ(types.Unalias(t))
	case *types.Basic:
		return M{"k": "basic", "name": t.Name()}
	case *types.Named:
		return M{"k": "named", "name": t.String(), "u": typUnder(t)}
	case *types.Pointer:
		return M{"k": "ptr", "e": typ(t.Elem())}
	case *types.Slice:
		return M{"k": "slice", "e": typ(t.Elem())}
	case *types.Array:
		return M{"k": "array", "e": typ(t.Elem()), "n": t.Len()}
	case *types.Map:
		return M{"k": "map", "key": typ(t.Key()), "e": typ(t.Elem())}
	case *types.Chan:
		return M{"k": "chan", "e": typ(t.Elem())}
	case *types.Struct:
		fs := []any{}
		for i := 0; i < t.NumFields(); i++ {
			fs = append(fs, M{"name": t.Field(i).Name(), "t": typ(t.Field(i).Type())})
		}
		return M{"k": "struct", "f": fs}
	case *types.Tuple:
		es := []any{}
		for i := 0; i < t.Len(); i++ {
			es = append(es, typ(t.At(i).Type()))
		}
		return M{"k": "tuple", "e": es}
	case *types.Signature:
		return M{"k": "func"}
	case *types.Interface:
		return M{"k": "iface"}
	}
	return M{"k": "other", "name": t.String()}
}

// the underlying type of a named type, only for types of the repository
func typUnder(t *types.Named) any {
	if t.Obj().Pkg() == nil || !strings.HasPrefix(t.Obj().Pkg().Path(), module) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return typ(u)
		case *types.Interface:
			return M{"k": "iface"}
		case *types.Struct:
			return M{"k": "opaque"}
		}
		return M{"k": "opaque"}
	}
	return typ(t.Underlying())
}

var module string

func val(v ssa.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		r := M{"k": "const", "t": typ(v.Type())}
		if v.Value == nil {
			r["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.String:
				r["v"] = constant.StringVal(v.Value)
				r["c"] = "string"
			case constant.Bool:
				r["v"] = constant.BoolVal(v.Value)
				r["c"] = "bool"
			case constant.Int:
				r["v"] = v.Value.ExactString()
				r["c"] = "int"
			default:
				r["v"] = v.Value.ExactString()
				r["c"] = "other"
			}
		}
		return r
	case *ssa.Global:
		return M{"k": "global", "name": gname(v), "t": typ(v.Type())}
	case *ssa.Function:
		return M{"k": "func", "name": fname(v)}
	case *ssa.Builtin:
		return M{"k": "builtin", "name": v.Name()}
	case *ssa.Parameter:
		return M{"k": "reg", "name": v.Name(), "t": typ(v.Type())}
	case *ssa.FreeVar:
		return M{"k": "reg", "name": v.Name(), "t": typ(v.Type())}
	}
	return M{"k": "reg", "name": v.Name(), "t": typ(v.Type())}
}

func vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func gname(g *ssa.Global) string { return g.Pkg.Pkg.Path() + "." + g.Name() }
func fname(f *ssa.Function) string {
	return f.RelString(nil)
}

func call(c *ssa.CallCommon) M {
	r := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		r["invoke"] = c.Method.FullName()
		r["recv"] = val(c.Value)
	} else {
		r["fn"] = val(c.Value)
	}
	r["sig"] = typ(c.Signature().Results())
	return r
}

func instr(in ssa.Instruction) M {
	r := M{}
	if p := in.Pos(); p.IsValid() {
		pp := fset.Position(p)
		r["pos"] = fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
	}
	if v, ok := in.(ssa.Value); ok {
		r["id"] = v.Name()
		r["t"] = typ(v.Type())
	}
	op := func(s string) { r["op"] = s }
	switch in := in.(type) {
	case *ssa.Alloc:
		op("alloc")
		r["heap"] = in.Heap
		r["comment"] = in.Comment
	case *ssa.Phi:
		op("phi")
		r["edges"] = vals(in.Edges)
		r["comment"] = in.Comment
	case *ssa.Call:
		op("call")
		r["call"] = call(&in.Call)
	case *ssa.BinOp:
		op("binop")
		r["o"] = in.Op.String()
		r["x"], r["y"] = val(in.X), val(in.Y)
	case *ssa.UnOp:
		op("unop")
		r["o"] = in.Op.String()
		r["x"] = val(in.X)
		r["commaok"] = in.CommaOk
	case *ssa.ChangeType:
		op("changetype")
		r["x"] = val(in.X)
	case *ssa.Convert:
		op("convert")
		r["x"] = val(in.X)
	case *ssa.ChangeInterface:
		op("changeinterface")
		r["x"] = val(in.X)
	case *ssa.MakeInterface:
		op("makeinterface")
		r["x"] = val(in.X)
	case *ssa.MakeClosure:
		op("makeclosure")
		r["fn"] = val(in.Fn)
		r["bindings"] = vals(in.Bindings)
	case *ssa.MakeMap:
		op("makemap")
	case *ssa.MakeChan:
		op("makechan")
		r["size"] = val(in.Size)
	case *ssa.MakeSlice:
		op("makeslice")
		r["len"], r["cap"] = val(in.Len), val(in.Cap)
	case *ssa.Slice:
		op("slice")
		r["x"] = val(in.X)
		if in.Low != nil {
			r["low"] = val(in.Low)
		}
		if in.High != nil {
			r["high"] = val(in.High)
		}
		if in.Max != nil {
			r["max"] = val(in.Max)
		}
	case *ssa.FieldAddr:
		op("fieldaddr")
		r["x"] = val(in.X)
		r["field"] = in.Field
	case *ssa.Field:
		op("field")
		r["x"] = val(in.X)
		r["field"] = in.Field
	case *ssa.IndexAddr:
		op("indexaddr")
		r["x"], r["i"] = val(in.X), val(in.Index)
	case *ssa.Index:
		op("index")
		r["x"], r["i"] = val(in.X), val(in.Index)
	case *ssa.Lookup:
		op("lookup")
		r["x"], r["i"] = val(in.X), val(in.Index)
		r["commaok"] = in.CommaOk
	case *ssa.Select:
		op("select")
		r["blocking"] = in.Blocking
		ss := []any{}
		for _, s := range in.States {
			m := M{"chan": val(s.Chan), "dir": int(s.Dir)}
			if s.Send != nil {
				m["send"] = val(s.Send)
			}
			ss = append(ss, m)
		}
		r["states"] = ss
	case *ssa.Range:
		op("range")
		r["x"] = val(in.X)
	case *ssa.Next:
		op("next")
		r["x"] = val(in.Iter)
		r["isstring"] = in.IsString
	case *ssa.TypeAssert:
		op("typeassert")
		r["x"] = val(in.X)
		r["commaok"] = in.CommaOk
		r["at"] = typ(in.AssertedType)
	case *ssa.Extract:
		op("extract")
		r["x"] = val(in.Tuple)
		r["i"] = in.Index
	case *ssa.Jump:
		op("jump")
	case *ssa.If:
		op("if")
		r["x"] = val(in.Cond)
	case *ssa.Return:
		op("return")
		r["xs"] = vals(in.Results)
	case *ssa.RunDefers:
		op("rundefers")
	case *ssa.Panic:
		op("panic")
		r["x"] = val(in.X)
	case *ssa.Go:
		op("go")
		r["call"] = call(&in.Call)
	case *ssa.Defer:
		op("defer")
		r["call"] = call(&in.Call)
	case *ssa.Send:
		op("send")
		r["chan"], r["x"] = val(in.Chan), val(in.X)
	case *ssa.Store:
		op("store")
		r["addr"], r["x"] = val(in.Addr), val(in.Val)
	case *ssa.MapUpdate:
		op("mapupdate")
		r["map"], r["key"], r["x"] = val(in.Map), val(in.Key), val(in.Value)
	case *ssa.DebugRef:
		return nil
	default:
		op("unsupported")
		r["what"] = fmt.Sprintf("%T", in)
	}
	return r
}

func function(f *ssa.Function) M {
	r := M{"name": fname(f)}
	if p := f.Pos(); p.IsValid() {
		pp := fset.Position(p)
		r["file"] = pp.Filename
		r["line"] = pp.Line
	}
	ps := []any{}
	for _, p := range f.Params {
		ps = append(ps, M{"name": p.Name(), "t": typ(p.Type())})
	}
	r["params"] = ps
	fv := []any{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"name": p.Name(), "t": typ(p.Type())})
	}
	r["freevars"] = fv
	r["results"] = typ(f.Signature.Results())
	rn := []any{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rn = append(rn, f.Signature.Results().At(i).Name())
	}
	r["resultnames"] = rn
	if f.Parent() != nil {
		r["parent"] = fname(f.Parent())
	}
	r["synthetic"] = f.Synthetic
	bs := []any{}
	for _, b := range f.Blocks {
		pr, su := []int{}, []int{}
		for _, p := range b.Preds {
			pr = append(pr, p.Index)
		}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		is := []any{}
		for _, in := range b.Instrs {
			if m := instr(in); m != nil {
				is = append(is, m)
			}
		}
		idom := -1
		if b.Idom() != nil {
			idom = b.Idom().Index
		}
		bs = append(bs, M{"i": b.Index, "preds": pr, "succs": su, "idom": idom, "ins": is, "comment": b.Comment})
	}
	r["blocks"] = bs
	if f.Recover != nil {
		r["recover"] = f.Recover.Index
	}
	return r
}

// constant initial values of global tables, from their composite literals
func lit(info *types.Info, e ast.Expr, t types.Type) (any, bool) {
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		if tv.Value.Kind() == constant.Bool {
			return constant.BoolVal(tv.Value), true
		}
		if i, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
			return i, true
		}
		return nil, false
	}
	cl, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil, false
	}
	var el types.Type
	n := int64(-1)
	switch u := t.Underlying().(type) {
	case *types.Array:
		el, n = u.Elem(), u.Len()
	case *types.Slice:
		el = u.Elem()
	default:
		return nil, false
	}
	out := []any{}
	put := func(i int64, v any) {
		for int64(len(out)) <= i {
			out = append(out, zero(el))
		}
		out[i] = v
	}
	idx := int64(0)
	for _, x := range cl.Elts {
		if kv, ok := x.(*ast.KeyValueExpr); ok {
			tv := info.Types[kv.Key]
			if tv.Value == nil {
				return nil, false
			}
			idx, _ = constant.Int64Val(constant.ToInt(tv.Value))
			x = kv.Value
		}
		v, ok := lit(info, x, el)
		if !ok {
			return nil, false
		}
		put(idx, v)
		idx++
	}
	if n >= 0 && int64(len(out)) < n {
		put(n-1, zero(el))
	}
	return out, true
}

func zero(t types.Type) any {
	if a, ok := t.Underlying().(*types.Array); ok {
		out := []any{}
		for i := int64(0); i < a.Len(); i++ {
			out = append(out, zero(a.Elem()))
		}
		return out
	}
	return int64(0)
}

func main() {
	goarch := flag.String("goarch", "", "")
	tags := flag.String("tags", "", "")
	out := flag.String("o", "", "")
	client := flag.String("client", "", "directory of PKG.go: lemma functions added to package PKG")
	flag.Parse()
	dir := flag.Arg(0)
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	if *goarch != "" {
		env = append(env, "GOARCH="+*goarch)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
		Dir: dir, Env: env,
	}
	// dependencies are needed for their types only: export data
	cfg.Mode &^= packages.NeedDeps
	if *client != "" {
		cfg.Overlay = map[string][]byte{}
		es, err := os.ReadDir(*client)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, e := range es {
			if n, ok := strings.CutSuffix(e.Name(), ".go"); ok {
				b, err := os.ReadFile(*client + "/" + e.Name())
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(1)
				}
				cfg.Overlay[dir+"/"+n+"/zz_verif_client.go"] = b
			}
		}
	}
	if *tags != "" {
		cfg.BuildFlags = []string{"-tags=" + *tags}
	}
	pkgs, err := packages.Load(cfg, flag.Args()[1:]...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
		if p.Module != nil && p.Module.Main {
			module = p.Module.Path
		}
	})
	if bad {
		os.Exit(2)
	}
	fset = pkgs[0].Fset
	prog, spkgs := ssautil.Packages(pkgs, ssa.BareInits*0|ssa.InstantiateGenerics)
	prog.Build()
	funcs := []any{}
	globals := M{}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		// the synthetic package initialiser only runs the composite literals that
		// are dumped under "globals"; user init functions are kept
		if seen[f] || f.Blocks == nil && f.Synthetic != "" || f.Synthetic == "package initializer" {
			return
		}
		seen[f] = true
		funcs = append(funcs, function(f))
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		names := []string{}
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Global:
				globals[gname(m)] = M{"t": typ(m.Type())}
			case *ssa.Type:
				for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(T)
					for j := 0; j < ms.Len(); j++ {
						f := prog.MethodValue(ms.At(j))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
		// user init functions: init#1...
		for j := 1; ; j++ {
			f := sp.Func(fmt.Sprintf("init#%d", j))
			if f == nil {
				break
			}
			add(f)
		}
		p := pkgs[i]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) != len(vs.Names) {
						continue
					}
					for k, nm := range vs.Names {
						obj := p.TypesInfo.Defs[nm]
						if obj == nil {
							continue
						}
						if v, ok := lit(p.TypesInfo, vs.Values[k], obj.Type()); ok {
							g := globals[p.PkgPath+"."+nm.Name]
							if g != nil {
								g.(M)["init"] = v
							}
						} else if g := globals[p.PkgPath+"."+nm.Name]; g != nil {
							g.(M)["dyninit"] = true
						}
					}
				}
			}
		}
	}
	files := []string{}
	for _, p := range pkgs {
		files = append(files, p.CompiledGoFiles...)
		files = append(files, p.OtherFiles...)
	}
	feats := M{}
	for _, p := range pkgs {
		if p.Types == nil {
			continue
		}
		for _, im := range p.Types.Imports() {
			if !strings.HasSuffix(im.Path(), "klauspost/cpuid/v2") {
				continue
			}
			for _, n := range im.Scope().Names() {
				if c, ok := im.Scope().Lookup(n).(*types.Const); ok && strings.HasSuffix(c.Type().String(), ".FeatureID") {
					feats[c.Val().String()] = n
				}
			}
		}
	}
	b, err := json.Marshal(M{"module": module, "funcs": funcs, "globals": globals, "files": files, "features": feats})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
