// front dumps the SSA form of the packages of /repo as JSON.
// Nothing is dropped except debug information: every function with a body,
// including package initialisers and function literals, is written out
// instruction by instruction.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	typeID  = map[string]int{}
	typeTab []M
	fset    *token.FileSet
	repo    string
)

func ty(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if id, ok := typeID[key]; ok {
		return id
	}
	id := len(typeTab)
	typeID[key] = id
	typeTab = append(typeTab, nil)
	m := M{"str": key}
	switch u := t.(type) {
	case *types.Named:
		m["k"] = "named"
		m["name"] = key
		o := u.Obj()
		inRepo := o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), "github.com/ing-bank/zkrp")
		m["repo"] = inRepo
		ms := types.NewMethodSet(types.NewPointer(u))
		codec := []string{}
		for i := 0; i < ms.Len(); i++ {
			switch n := ms.At(i).Obj().Name(); n {
			case "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText", "IsZero":
				codec = append(codec, n)
			}
		}
		if len(codec) > 0 {
			m["codec"] = codec
		}
		// opaque library structs are not expanded (unexported fields of big.Int, ...)
		if _, isStruct := u.Underlying().(*types.Struct); isStruct && !inRepo &&
			!(o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "secp256k1")) {
			m["opaque"] = true
		} else {
			m["u"] = ty(u.Underlying())
		}
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = u.Name()
	case *types.Pointer:
		m["k"] = "ptr"
		m["elem"] = ty(u.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["elem"] = ty(u.Elem())
	case *types.Array:
		m["k"] = "array"
		m["elem"] = ty(u.Elem())
		m["len"] = u.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = ty(u.Key())
		m["elem"] = ty(u.Elem())
	case *types.Struct:
		m["k"] = "struct"
		fs := []M{}
		for i := 0; i < u.NumFields(); i++ {
			fd := M{"name": u.Field(i).Name(), "t": ty(u.Field(i).Type())}
			if u.Tag(i) != "" {
				fd["tag"] = u.Tag(i)
			}
			if u.Field(i).Embedded() {
				fd["emb"] = true
			}
			fs = append(fs, fd)
		}
		m["fields"] = fs
	case *types.Tuple:
		m["k"] = "tuple"
		fs := []int{}
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, ty(u.At(i).Type()))
		}
		m["elems"] = fs
	case *types.Signature:
		m["k"] = "func"
	case *types.Interface:
		m["k"] = "iface"
	default:
		m["k"] = "other"
	}
	typeTab[id] = m
	return id
}

func fname(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	n := f.RelString(nil)
	if o, ok := f.Object().(*types.Func); ok && f.Pkg == nil && !o.Exported() && f.Signature.Recv() != nil {
		// wrapper of a promoted unexported method: the receiver's package may
		// declare a method of the same name, which is a different one
		t := f.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != o.Pkg() {
			n += "@" + o.Pkg().Path()
		}
	}
	return n
}

func constv(c *ssa.Const) any {
	if c.Value == nil {
		return nil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.String:
		return []any{"s", []byte(constant.StringVal(c.Value))}
	case constant.Int:
		return []any{"i", c.Value.ExactString()}
	case constant.Float:
		if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
			return []any{"i", i.ExactString()}
		}
		f, _ := constant.Float64Val(c.Value)
		return []any{"f", f}
	}
	return []any{"?", c.Value.ExactString()}
}

func val(v ssa.Value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return M{"k": "const", "v": constv(x), "t": ty(x.Type())}
	case *ssa.Global:
		return M{"k": "global", "n": x.RelString(nil), "t": ty(x.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": fname(x)}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	case *ssa.FreeVar:
		return M{"k": "free", "n": x.Name(), "t": ty(x.Type())}
	default:
		return M{"k": "reg", "n": v.Name(), "t": ty(v.Type())}
	}
}

func vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repo+"/"), q.Line)
}

func call(c *ssa.CallCommon, m M) {
	m["args"] = vals(c.Args)
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
	} else {
		m["fn"] = val(c.Value)
	}
}

func instr(i ssa.Instruction) M {
	m := M{"op": strings.TrimPrefix(fmt.Sprintf("%T", i), "*ssa.")}
	if v, ok := i.(ssa.Value); ok {
		m["n"] = v.Name()
		m["t"] = ty(v.Type())
	}
	if p := pos(i.Pos()); p != "" {
		m["pos"] = p
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		m["heap"] = x.Heap
	case *ssa.Phi:
		m["edges"] = vals(x.Edges)
	case *ssa.Call:
		call(&x.Call, m)
	case *ssa.Defer:
		call(&x.Call, m)
	case *ssa.Go:
		call(&x.Call, m)
	case *ssa.BinOp:
		m["o"] = x.Op.String()
		m["x"], m["y"] = val(x.X), val(x.Y)
	case *ssa.UnOp:
		m["o"] = x.Op.String()
		m["x"] = val(x.X)
		m["commaok"] = x.CommaOk
	case *ssa.ChangeType:
		m["x"] = val(x.X)
	case *ssa.Convert:
		m["x"] = val(x.X)
	case *ssa.MultiConvert:
		m["x"] = val(x.X)
	case *ssa.ChangeInterface:
		m["x"] = val(x.X)
	case *ssa.SliceToArrayPointer:
		m["x"] = val(x.X)
	case *ssa.MakeInterface:
		m["x"] = val(x.X)
	case *ssa.MakeClosure:
		m["fn"] = val(x.Fn)
		m["bind"] = vals(x.Bindings)
	case *ssa.MakeMap:
	case *ssa.MakeSlice:
		m["len"], m["cap"] = val(x.Len), val(x.Cap)
	case *ssa.Slice:
		m["x"], m["lo"], m["hi"], m["max"] = val(x.X), val(x.Low), val(x.High), val(x.Max)
	case *ssa.FieldAddr:
		m["x"], m["f"] = val(x.X), x.Field
	case *ssa.Field:
		m["x"], m["f"] = val(x.X), x.Field
	case *ssa.IndexAddr:
		m["x"], m["i"] = val(x.X), val(x.Index)
	case *ssa.Index:
		m["x"], m["i"] = val(x.X), val(x.Index)
	case *ssa.Lookup:
		m["x"], m["i"] = val(x.X), val(x.Index)
		m["commaok"] = x.CommaOk
	case *ssa.Range:
		m["x"] = val(x.X)
	case *ssa.Next:
		m["x"] = val(x.Iter)
		m["str"] = x.IsString
	case *ssa.TypeAssert:
		m["x"] = val(x.X)
		m["commaok"] = x.CommaOk
		m["at"] = ty(x.AssertedType)
	case *ssa.Extract:
		m["x"], m["i"] = val(x.Tuple), x.Index
	case *ssa.Jump:
	case *ssa.If:
		m["x"] = val(x.Cond)
	case *ssa.Return:
		m["r"] = vals(x.Results)
	case *ssa.RunDefers:
	case *ssa.Panic:
		m["x"] = val(x.X)
	case *ssa.Store:
		m["a"], m["v"] = val(x.Addr), val(x.Val)
	case *ssa.MapUpdate:
		m["x"], m["key"], m["v"] = val(x.Map), val(x.Key), val(x.Value)
	case *ssa.DebugRef:
		return nil
	}
	return m
}

func main() {
	repo = "/repo"
	out := "-"
	if len(os.Args) > 1 {
		repo = os.Args[1]
	}
	if len(os.Args) > 2 {
		out = os.Args[2]
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: repo,
	}
	// the curve of the dependency: its Go functions are dumped too, its C function is external
	const dep = "github.com/ethereum/go-ethereum/crypto/secp256k1"
	pk, err := packages.Load(cfg, "./...", dep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if packages.PrintErrors(pk) > 0 {
		os.Exit(3)
	}
	prog, sp := ssautil.Packages(pk, ssa.BuilderMode(0))
	prog.Build()
	fset = prog.Fset
	fns := []M{}
	pkgs := []string{}
	globals := []M{}
	seen := map[*ssa.Function]bool{}
	var dump func(f *ssa.Function)
	dump = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		m := M{"name": fname(f), "pos": pos(f.Pos()), "short": f.Name()}
		if f.Pkg != nil {
			m["pkg"] = f.Pkg.Pkg.Path()
		}
		ps := []M{}
		for _, p := range f.Params {
			ps = append(ps, M{"n": p.Name(), "t": ty(p.Type())})
		}
		m["params"] = ps
		fv := []string{}
		for _, p := range f.FreeVars {
			fv = append(fv, p.Name())
		}
		m["free"] = fv
		rs := []M{}
		r := f.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			rs = append(rs, M{"n": r.At(i).Name(), "t": ty(r.At(i).Type())})
		}
		m["results"] = rs
		m["variadic"] = f.Signature.Variadic()
		bs := []M{}
		for _, b := range f.Blocks {
			is := []M{}
			for _, i := range b.Instrs {
				if x := instr(i); x != nil {
					is = append(is, x)
				}
			}
			pr, su := []int{}, []int{}
			for _, p := range b.Preds {
				pr = append(pr, p.Index)
			}
			for _, s := range b.Succs {
				su = append(su, s.Index)
			}
			bs = append(bs, M{"i": b.Index, "preds": pr, "succs": su, "ins": is, "c": b.Comment})
		}
		m["blocks"] = bs
		if f.Recover != nil {
			m["recover"] = true
		}
		fns = append(fns, m)
		for _, a := range f.AnonFuncs {
			dump(a)
		}
	}
	imports := M{}
	for i, p := range sp {
		if p == nil {
			continue
		}
		if p.Pkg.Path() == dep {
			if t, ok := p.Members["BitCurve"].(*ssa.Type); ok {
				nt := t.Type().(*types.Named)
				for i := 0; i < nt.NumMethods(); i++ {
					if n := nt.Method(i).Name(); n != "ScalarMult" && n != "Marshal" && n != "Unmarshal" {
						dump(prog.FuncValue(nt.Method(i)))
					}
				}
			}
			continue
		}
		pkgs = append(pkgs, p.Pkg.Path())
		im := []string{}
		for q := range pk[i].Imports {
			im = append(im, q)
		}
		sort.Strings(im)
		imports[p.Pkg.Path()] = im
		names := []string{}
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch x := p.Members[n].(type) {
			case *ssa.Function:
				dump(x)
			case *ssa.Global:
				globals = append(globals, M{"n": x.RelString(nil), "t": ty(x.Type()), "pos": pos(x.Pos())})
			case *ssa.Type:
				nt, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					dump(prog.FuncValue(nt.Method(i)))
				}
				// promoted methods and wrappers of struct types
				if _, ok := nt.Underlying().(*types.Interface); !ok {
					for _, T := range []types.Type{nt, types.NewPointer(nt)} {
						ms := prog.MethodSets.MethodSet(T)
						for i := 0; i < ms.Len(); i++ {
							dump(prog.MethodValue(ms.At(i)))
						}
					}
				}
			}
		}
	}
	// functions reachable only as wrappers
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/ing-bank/zkrp") {
			dump(f)
		}
	}
	sort.SliceStable(fns, func(i, j int) bool {
		a, b := fns[i]["name"].(string), fns[j]["name"].(string)
		return a < b || a == b && fns[i]["pos"].(string) < fns[j]["pos"].(string)
	})
	o := M{"types": typeTab, "funcs": fns, "pkgs": pkgs, "globals": globals, "imports": imports}
	w := os.Stdout
	if out != "-" {
		w, err = os.Create(out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if err := json.NewEncoder(w).Encode(o); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w.Close()
}
