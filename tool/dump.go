package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func dump(w *World, what string) {
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				p := w.InstrPos(in)
				switch what {
				case "maprange":
					if r, ok := in.(*ssa.Range); ok {
						if _, m := r.X.Type().Underlying().(*types.Map); m {
							fmt.Println(p, FName(f), w.Term(r.X, nil))
						}
					}
				case "assert":
					if a, ok := in.(*ssa.TypeAssert); ok && !a.CommaOk {
						fmt.Println(p, FName(f), w.Term(a, nil))
					}
				case "global":
					if s, ok := in.(*ssa.Store); ok && !strings.HasPrefix(f.Name(), "init") {
						t := w.Term(s.Addr, nil)
						if g, ok := s.Addr.(*ssa.Global); ok {
							fmt.Println(p, FName(f), globalName(g))
						} else if strings.HasPrefix(t, "&cli.") {
							fmt.Println(p, FName(f), t)
						}
					}
				case "fmt":
					if c, ok := in.(ssa.CallInstruction); ok {
						n := callName(w, c.Common())
						if strings.HasPrefix(n, "fmt.") && strings.HasSuffix(n, "f") {
							i := 0
							if strings.HasPrefix(n, "fmt.F") || strings.HasPrefix(n, "fmt.A") {
								i = 1
							}
							if _, ok := c.Common().Args[i].(*ssa.Const); !ok {
								fmt.Println(p, FName(f), n, w.Term(c.Common().Args[i], nil))
							}
						}
					}
				case "index":
					switch x := in.(type) {
					case *ssa.IndexAddr:
						if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
							if _, ok := x.Index.(*ssa.Const); ok {
								fmt.Println(p, FName(f), w.Term(x, nil), w.localFacts(b, nil, 0).List())
							}
						}
					case *ssa.Slice:
						if x.Low != nil {
							fmt.Println(p, FName(f), w.Term(x, nil))
						}
					case *ssa.Lookup:
						if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
							fmt.Println(p, FName(f), w.Term(x, nil), w.localFacts(in.Block(), nil, 0).List())
						}
					}
				case "append":
					if c, ok := in.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							fmt.Println(p, FName(f), w.Term(c, nil))
						}
					}
				case "sort":
					if c, ok := in.(ssa.CallInstruction); ok {
						n := callName(w, c.Common())
						if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
							fmt.Println(p, FName(f), n)
						}
					}
				case "go":
					switch in.(type) {
					case *ssa.Go, *ssa.Select, *ssa.Send:
						fmt.Println(p, FName(f), in)
					}
				case "recover":
					if c, ok := in.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							fmt.Println(p, FName(f))
						}
					}
				case "mapupd":
					if m, ok := in.(*ssa.MapUpdate); ok {
						fmt.Println(p, FName(f), w.Term(m.Map, nil))
					}
				case "panic":
					if m, ok := in.(*ssa.Panic); ok {
						fmt.Println(p, FName(f), w.Term(m.X, nil))
					}
				}
				_ = token.ADD
			}
		}
	}
}
