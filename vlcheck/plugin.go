package main

import (
	"go/constant"
	"go/types"
)

// checkP01: what a plugin reports about itself, for every descriptor.
func checkP01(r *Report) {
	r.addPkg("vlplugin", "descriptor", func(c *Ctx) {
		t := c.typ("Descriptor")
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			undecided("Descriptor is %s", t.Underlying())
		}
		st := c.state()
		v := &StructV{}
		field := map[string]*Seq{}
		for i := 0; i < s.NumFields(); i++ {
			if b, ok := s.Field(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				v.f = append(v.f, zero(s.Field(i).Type()))
				continue
			}
			q, _ := c.blob("field "+s.Field(i).Name(), 0, 1<<20)
			field[s.Field(i).Name()] = q
			v.f = append(v.f, &Str{q})
		}
		m := &Iface{types.NewPointer(t), &Ptr{obj: st.alloc(v, t, "descriptor")}}
		api, ok := c.p.Pkg.Scope().Lookup("APIVersion").(*types.Const)
		if !ok || api.Val().Kind() != constant.String {
			undecided("constant APIVersion not found")
		}
		is := func(st *State, what string, got Val, want *Seq) {
			x, ok := st.finVal(got).(*Str)
			c.must(st, ok && want != nil && st.seqEq(x.q, want) == 1, "reported", "%s is %s, expected %s", what, valStr(got), want)
		}
		for name, f := range map[string]string{"Name": "N", "Desc": "D", "Type": "T"} {
			name, f := name, f
			c.get(st.clone(), m, name, nil, func(st *State, rv Val) {
				c.cells++
				is(st, name+"()", rv, field[f])
			})
		}
		c.get(st, m, "Version", nil, func(st *State, rv Val) {
			c.cells++
			is(st, "the first result of Version()", tup(rv, 0), constSeq(constant.StringVal(api.Val())))
			is(st, "the second result of Version()", tup(rv, 1), field["V"])
		})
	})
}
