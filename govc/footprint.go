package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// footprint: the struct fields and map types a specification function can read, with everything it calls.
// nil: unknown, so the whole heap.
type footprint struct {
	all    bool
	fields map[string]bool
	maps   map[string]bool
	glob   map[string]bool
}

func (e *Engine) footprintOf(fn *ssa.Function) *footprint {
	if fp, ok := e.footprints[fn]; ok {
		return fp
	}
	fp := &footprint{fields: map[string]bool{}, maps: map[string]bool{}, glob: map[string]bool{}}
	e.footprints[fn] = fp
	seen := map[*ssa.Function]bool{}
	var structFields func(t types.Type)
	structFields = func(t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				fp.fields[fieldKey(t, i)] = true
				structFields(u.Field(i).Type())
			}
		case *types.Array:
			structFields(u.Elem())
		}
	}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		og := f
		if o := f.Origin(); o != nil {
			og = o
		}
		if isIntrinsic(og.Name()) && e.isSpecFile(og) {
			return
		}
		if f.Pkg != nil && !e.ours(f) || len(f.Blocks) == 0 {
			// a library function: reads what it is given; plain values only
			sg := f.Signature
			for i := 0; i < sg.Params().Len(); i++ {
				if !plainType(sg.Params().At(i).Type()) {
					fp.all = true
					dbg("footprint: %s reads %s\n", f, sg.Params().At(i).Type())
				}
			}
			if r := sg.Recv(); r != nil && !plainType(r.Type()) {
				fp.all = true
			}
			return
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.FieldAddr:
					st := i.X.Type().Underlying().(*types.Pointer).Elem()
					fp.fields[fieldKey(st, i.Field)] = true
				case *ssa.UnOp:
					if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
						structFields(p.Elem())
					}
				case ssa.CallInstruction:
					c := i.Common()
					if c.IsInvoke() {
						fp.all = true
						dbg("footprint: invoke in %s\n", f)
					} else if c.StaticCallee() == nil {
						if _, ok := c.Value.(*ssa.Builtin); !ok {
							fp.all = true
							dbg("footprint: dynamic call in %s\n", f)
						}
					}
				case *ssa.MakeInterface:
				}
				if v, ok := ins.(ssa.Value); ok {
					fp.addMap(v.Type())
				}
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if *o == nil {
						continue
					}
					fp.addMap((*o).Type())
					if g, ok := (*o).(*ssa.Global); ok {
						fp.glob[g.String()] = true
					}
					if g, ok := (*o).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	if fp.all {
		dbg("footprint of %s: everything\n", fn)
	}
	return fp
}

func (fp *footprint) addMap(t types.Type) {
	if m, ok := t.Underlying().(*types.Map); ok {
		fp.maps[typeKey(m)] = true
		fp.maps[typeKey(t)] = true
	}
}

func plainType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		_, ok := u.Elem().Underlying().(*types.Basic)
		return ok
	}
	if n, ok := types.Unalias(t).(*types.Pointer); ok {
		_, ok := opaqueLeaves(n.Elem())
		return ok && typeKey(n.Elem()) == "math/big.Float"
	}
	return false
}

// reads: whether the heap component can matter
func (fp *footprint) reads(key string) bool {
	if fp.all {
		return true
	}
	w := strings.SplitN(key, "|", 3)
	switch w[0] {
	case "F":
		return fp.fields[w[1]]
	case "G":
		g := w[1]
		for k := range fp.glob {
			if g == k || strings.HasPrefix(g, k+".") || strings.HasPrefix(g, k+"/") || strings.HasPrefix(g, k+"#") {
				return true
			}
		}
		return false
	case "MD", "MV", "ML":
		t := w[1]
		if i := strings.Index(t, "#"); i >= 0 {
			t = t[:i]
		}
		return fp.maps[t]
	}
	return true
}
