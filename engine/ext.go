package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (x *X) extCall(st *State, name string, sig *types.Signature, args []V, e *Ext) []Out {
	if r, ok := extPure[name]; ok {
		if r == "" {
			return one(st, nil)
		}
		x.fresh++
		return one(st, &Ext{name: r, id: x.fresh, args: args})
	}
	x.limit("call of external function %s", name)
	return nil
}

// external functions without effect, with the name of the object they return
var extPure = map[string]string{
	"golang.org/x/text/encoding/japanese.ShiftJIS.NewEncoder": "sjisEncoder",
}

func (x *X) loadExternal(st *State, p Ptr, t types.Type) V {
	g := x.globalOf[p.obj]
	if g == nil {
		x.limit("load from an unknown object")
	}
	return x.externGlobal(st, g, p, t)
}

func opaquePkg(path string) bool { return false }

func extIntrinsics(T map[string]intrin) {}

func (x *X) externGlobal(st *State, g *ssa.Global, p Ptr, t types.Type) V {
	switch g.String() {
	case "golang.org/x/text/encoding/japanese.ShiftJIS":
		return &Ext{name: g.String()}
	}
	x.limit("package variable %s", g)
	return nil
}
