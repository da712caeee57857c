package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// Checks of declared values: errors and their texts, reason code issuers, authorisation outcomes.

// declared are the constants and constant-initialised variables of a named type.
type declared struct {
	name string
	val  int64
}

func declaredOf(c *Ctx, n *types.Named) (r []declared) {
	sc := c.p.Pkg.Scope()
	st := c.state()
	for _, name := range sc.Names() {
		o := sc.Lookup(name)
		if !types.Identical(o.Type(), n) {
			continue
		}
		switch x := o.(type) {
		case *types.Const:
			if v, ok := constant.Int64Val(constant.ToInt(x.Val())); ok {
				r = append(r, declared{name, v})
			}
		case *types.Var:
			if v, ok := isConstNum(st.finVal(c.global(st, name))); ok {
				r = append(r, declared{name, v})
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].val < r[j].val })
	return
}

// text of a string value known on the path.
func (c *Ctx) text(st *State, v Val) string {
	v = st.pick(v)
	s, ok := v.(*Str)
	if !ok {
		undecided("text %s", valStr(v))
	}
	q := st.normSeq(s.q)
	if len(q.p) == 0 {
		return ""
	}
	if len(q.p) != 1 || q.p[0].k != pConst {
		undecided("text %s is not known", q)
	}
	return string(q.p[0].b)
}

// texts evaluates a method for one value or, with v nil, for every value that is not declared; the
// result lists all texts it can give.
func (c *Ctx) texts(n *types.Named, method string, v *int64, ds []declared) map[string]bool {
	r := map[string]bool{}
	st := c.state()
	var arg Val
	if v != nil {
		arg = cst(*v)
	} else {
		arg = c.in.fresh(st, n, "other")
		e := st.affOf(arg)
		for _, d := range ds {
			st.assume(&Cond{'=', e.addc(-d.val)}, false)
		}
	}
	c.inv(st, &Iface{n, arg}, method, nil, func(st *State, rv Val) {
		c.split(st, func(st *State) {
			c.cells++
			r[c.text(st, rv)] = true
		})
	})
	return r
}

// described are the integer types of a package that have a description method.
func described(c *Ctx, methods ...string) (r []*types.Named) {
	sc := c.p.Pkg.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if b, ok := n.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		for _, m := range methods {
			if c.methodOf(n, m) != nil {
				r = append(r, n)
				break
			}
		}
	}
	return
}

func checkC28(r *Report) {
	for _, pkg := range []string{"mqttp", "vlauth", "vlpersistence"} {
		pkg := pkg
		r.addPkg(pkg, "error texts of "+pkg, func(c *Ctx) {
			ts := described(c, "Error")
			if len(ts) == 0 {
				undecided("no error type in %s", pkg)
			}
			for _, n := range ts {
				for _, m := range []string{"Error", "Desc"} {
					if c.methodOf(n, m) == nil || m == "Desc" && c.methodOf(n, "Error") == nil || n.Obj().Name() == "Status" && m == "Desc" {
						continue
					}
					ds := declaredOf(c, n)
					if !c.must(nil, len(ds) > 0, "declared", "type %s has no declared values", n.Obj().Name()) {
						continue
					}
					fall := c.texts(n, m, nil, ds)
					seen := map[string]declared{}
					for _, d := range ds {
						v := d.val
						for t := range c.texts(n, m, &v, nil) {
							what := fmt.Sprintf("%s.%s() of %s", n.Obj().Name(), m, d.name)
							c.must(nil, strings.TrimSpace(t) != "", "described", "%s is empty", what)
							c.must(nil, !fall[t], "described", "%s is the fallback text %q", what, t)
							o, dup := seen[t]
							c.must(nil, !dup || o.val == d.val, "distinct", "%s is %q, as for %s", what, t, o.name)
							seen[t] = d
						}
					}
				}
			}
		})
	}
}

// sides that may send a reason code (MQTT 5.0 tables 3-10 and 3.15.2-1).
var disconnectIssuer = map[int64]string{0x00: "Client", 0x04: "Client", 0x80: "Both", 0x81: "Both", 0x82: "Both", 0x83: "Both",
	0x87: "Server", 0x89: "Server", 0x8B: "Server", 0x8D: "Server", 0x8E: "Server", 0x8F: "Server", 0x90: "Both", 0x93: "Both",
	0x94: "Both", 0x95: "Both", 0x96: "Both", 0x97: "Both", 0x98: "Both", 0x99: "Both", 0x9A: "Server", 0x9B: "Server", 0x9C: "Server",
	0x9D: "Server", 0x9E: "Server", 0x9F: "Server", 0xA0: "Server", 0xA1: "Server", 0xA2: "Server"}
var authIssuer = map[int64]string{0x00: "Server", 0x18: "Both", 0x19: "Client"}

func checkC29(r *Report) {
	issuers := func(c *Ctx) map[string]int64 {
		m := map[string]int64{}
		for _, d := range declaredOf(c, c.typ("CodeIssuer").(*types.Named)) {
			m[strings.TrimPrefix(d.name, "CodeIssuer")] = d.val
		}
		return m
	}
	r.add("issuers", func(c *Ctx) {
		m := issuers(c)
		for _, n := range []string{"Server", "Client", "Both", "Invalid"} {
			if _, ok := m[n]; !ok {
				undecided("constant CodeIssuer%s not found", n)
			}
			for k, v := range m {
				c.must(nil, k == n || v != m[n], "distinct", "the issuers %s and %s are the same value %d", n, k, v)
			}
		}
	})
	one := func(name string, lo, hi int64) {
		r.add("PacketTypeDir for "+name, func(c *Ctx) {
			is := issuers(c)
			s := c.num(0, 255, "code")
			t := c.num(lo, hi, "type")
			code := &Iface{c.typ("ReasonCode"), sv(s)}
			c.inv(c.state(), code, "PacketTypeDir", []Val{sv(t)}, func(st *State, rv Val) {
				c.inv(st, code, "IsValidForType", []Val{sv(t)}, func(st *State, valid Val) {
					c.split(st, func(st *State) {
						c.cells++
						ok := st.must(valid)
						e := c.nilErr(st, tup(rv, 1))
						c.must(st, ok == e, "error", "for the codes %s, valid=%v, PacketTypeDir reports %s", st.showSym(s), ok, c.errName(st, tup(rv, 1)))
						iss, isC := isConstNum(st.pick(tup(rv, 0)))
						if !isC {
							undecided("issuer %s", valStr(tup(rv, 0)))
						}
						if !ok {
							c.must(st, iss == is["Invalid"], "issuer", "for the codes %s, which are not valid, the issuer is %d", st.showSym(s), iss)
							return
						}
						c.must(st, iss == is["Server"] || iss == is["Client"] || iss == is["Both"], "issuer", "for the codes %s, which are valid, the issuer is %d", st.showSym(s), iss)
						want := map[int64]map[int64]string{tDISCONNECT: disconnectIssuer, tAUTH: authIssuer}[lo]
						for v := range want {
							if st.may(s, v) {
								c.must(st, iss == is[want[v]], "side", "the issuer of code 0x%02X of %s is %d, the standard says %s", v, name, iss, want[v])
							}
						}
					})
				})
			})
		})
	}
	for t := int64(0); t < 16; t++ {
		one(typeNames[t], t, t)
	}
	one("undefined packet types", 16, 255)
}

func checkV02(r *Report) {
	r.addPkg("vlauth", "authorisation outcomes", func(c *Ctx) {
		st := c.typ("Status").(*types.Named)
		ds := declaredOf(c, st)
		m := map[string]int64{}
		for _, d := range ds {
			m[d.name] = d.val
		}
		allow, ok1 := m["StatusAllow"]
		deny, ok2 := m["StatusDeny"]
		if !ok1 || !ok2 {
			undecided("StatusAllow or StatusDeny not found")
		}
		c.must(nil, allow != deny, "distinct", "StatusAllow and StatusDeny are the same value")
		for _, meth := range []string{"Desc", "Error"} {
			a := c.texts(st, meth, &allow, nil)
			c.must(nil, len(a) == 1, "granted", "Status.%s() of StatusAllow gives %d texts", meth, len(a))
			d := c.texts(st, meth, &deny, nil)
			rest := c.texts(st, meth, nil, []declared{{"StatusAllow", allow}})
			for t := range rest {
				c.must(nil, !a[t], "denied", "Status.%s() of a status other than StatusAllow is %q", meth, t)
				c.must(nil, meth == "Error" || d[t], "denied", "Status.Desc() of a status other than StatusAllow is %q, of StatusDeny %q", t, keysOf(d))
			}
		}
		for t := range c.texts(st, "Desc", &allow, nil) {
			c.must(nil, t == "allow", "granted", "Desc of StatusAllow is %q", t)
		}
		for t := range c.texts(st, "Desc", &deny, nil) {
			c.must(nil, t == "deny", "denied", "Desc of StatusDeny is %q", t)
		}
		at := c.typ("AccessType").(*types.Named)
		as := declaredOf(c, at)
		want := map[string]string{"AccessRead": "read", "AccessWrite": "write"}
		n := 0
		for _, d := range as {
			w, ok := want[d.name]
			if !ok {
				continue
			}
			n++
			for t := range c.texts(at, "Type", &d.val, nil) {
				c.must(nil, t == w, "access", "Type of %s is %q", d.name, t)
			}
		}
		if n != 2 {
			undecided("AccessRead or AccessWrite not found")
		}
		for t := range c.texts(at, "Type", nil, as) {
			c.must(nil, t == "", "access", "Type of an undeclared access type is %q", t)
		}
	})
}

func keysOf(m map[string]bool) []string { return sortedKeys(m) }

func checkC30(r *Report) {
	num := func(st *State, v Val) *Aff { return st.norm(st.affOf(v)) }
	slice := func(st *State, v Val) *Seq {
		s, ok := st.finVal(v).(*Slice)
		if !ok {
			undecided("slice %s", valStr(v))
		}
		if s.obj == 0 {
			return &Seq{}
		}
		return st.content(s)
	}
	read := func(c *Ctx, st *State, q *Seq, want *Seq) {
		c.fn(st, "ReadLPBytes", []Val{c.in.roomy(st, q, "input")}, func(st *State, rv Val) {
			c.split(st, func(st *State) {
				c.cells++
				ok := c.nilErr(st, tup(rv, 2))
				if want == nil {
					c.must(st, !ok, "read-short", "a field is read from %s, which is shorter than it announces", q)
					return
				}
				if !c.must(st, ok, "read-complete", "the field in %s is not read: %s", q, c.errName(st, tup(rv, 2))) {
					return
				}
				got := slice(st, tup(rv, 0))
				c.must(st, st.seqEq(got, want) == 1, "read-exact", "the field in %s is read as %s", q, got)
				n := num(st, tup(rv, 1))
				c.must(st, st.decideAff('=', st.norm(n.minus(want.size()).addc(-2))) == 1, "read-count", "the field in %s is read with count %s", q, n)
			})
		})
	}
	r.add("ReadLPBytes of no bytes", func(c *Ctx) { read(c, c.state(), &Seq{}, nil) })
	r.add("ReadLPBytes of one byte", func(c *Ctx) { read(c, c.state(), byteSeq(sv(c.num(0, 255, "byte"))), nil) })
	r.add("ReadLPBytes of a field cut off", func(c *Ctx) {
		n := c.num(1, 65535, "announced")
		q, l := c.blob("rest", 0, 65534)
		st := c.state()
		st.assumeAff('g', S(n).minus(S(l)).addc(-1))
		read(c, st, cat(seqNum(sv(n), 2), q), nil)
	})
	r.add("ReadLPBytes of a field and more", func(c *Ctx) {
		q, _ := c.blob("field", 0, 65535)
		x, _ := c.blob("rest", 0, 1<<40)
		read(c, c.state(), cat(lpSeq(q), x), q)
	})
	r.add("WriteLPBytes", func(c *Ctx) {
		st := c.state()
		old, n := c.blob("buffer", 0, 1<<40)
		q, m := c.blob("data", 0, 1<<40)
		buf, data := c.in.roomy(st, old, "buffer"), c.in.roomy(st, q, "data")
		c.fn(st, "WriteLPBytes", []Val{buf, data}, func(st *State, rv Val) {
			c.split(st, func(st *State) {
				c.cells++
				now := st.content(buf)
				fits := st.mustGE(K(65535), S(m)) && st.mustGE(S(n), S(m).addc(2))
				ok := c.nilErr(st, tup(rv, 1))
				c.must(st, ok == fits, "write", "writing %s bytes to a buffer of %s: fits=%v, error %s", st.norm(S(m)), st.norm(S(n)), fits, c.errName(st, tup(rv, 1)))
				if !ok {
					c.must(st, st.seqEq(now, old) == 1, "write-untouched", "a failed write leaves %s in the buffer", now)
					return
				}
				if !fits {
					return
				}
				k := num(st, tup(rv, 0))
				c.must(st, st.decideAff('=', st.norm(k.minus(S(m)).addc(-2))) == 1, "write-count", "writing %s bytes reports %s", st.norm(S(m)), k)
				w := cat(lpSeq(q), st.sub(old, st.norm(S(m).addc(2)), st.norm(S(n).minus(S(m)).addc(-2))))
				c.must(st, st.seqEq(now, w) == 1, "write-exact", "writing %s leaves %s", q, now)
				c.must(st, st.seqEq(slice(st, data), q) == 1, "write-source", "writing changes the data to %s", slice(st, data))
			})
		})
	})
	// no packet carries a field whose length does not fit its prefix
	runScens(r, append(plainScens(), propScens()...), func(c *Ctx, st *State, p *pkt) {
		if p.mustFail != "" {
			return
		}
		long := false
		for _, l := range append(append([]*Aff(nil), p.lps...), p.propLens()...) {
			if !st.mustGE(K(65535), l) {
				long = true
				break
			}
		}
		d := c.in.symKey("anybuf", "buffer", 0, 1<<42)
		if long {
			c.encode(st, p.msg, S(d), "buffer", func(st *State, e encRes) {
				c.must(st, !e.ok, "no-wrap", "a packet with a field of more than 65535 bytes is encoded")
			})
			return
		}
		c.encoded(st, p, func(st *State, n *Aff, e encRes) {
			if e.ok {
				got := st.sub(e.now, K(0), st.affOf(e.n))
				c.must(st, c.matchPkt(st, got, p), "prefixes", "Encode emits %s", got)
			}
		})
	})
}

func checkV01(r *Report) {
	any := types.NewInterfaceType(nil, nil)
	str := types.Typ[types.String]
	typed := types.NewMap(str, any)
	loose := types.NewMap(any, any)
	type entry struct{ k, v Val }
	// keys that are not strings
	other := func(c *Ctx, st *State) []Val {
		return []Val{
			&Iface{types.Typ[types.Int], sv(c.num(-1<<40, 1<<40, "key"))}, &Iface{}, &Iface{types.Typ[types.Bool], sv(c.num(0, 1, "boolkey"))},
			&Iface{types.NewNamed(types.NewTypeName(0, nil, "Name", nil), str, nil), &Str{constSeq("named")}},
			&Iface{types.NewPointer(str), &Ptr{obj: st.alloc(&Str{constSeq("p")}, str, "key")}},
		}
	}
	const valueKinds = 8
	key := func(c *Ctx, st *State, i int, seen []entry) Val {
		q, _ := c.blob(fmt.Sprintf("key%d", i), 0, 1<<20)
		k := &Str{q}
		for _, e := range seen {
			s, ok := e.k.(*Str)
			if !ok {
				if f, isI := e.k.(*Iface); isI && f.t == str {
					s, ok = f.v.(*Str)
				}
			}
			if ok {
				st.assume(st.equal(s, k), false)
			}
		}
		return k
	}
	// values of every kind a configuration file gives; nested maps with keys of other kinds
	value := func(c *Ctx, st *State, i int) Val {
		nested := func(t *types.Map, k Val) Val {
			id := st.alloc(c.in.newMap([]mapEnt{{k, &Iface{types.Typ[types.Int], cst(1)}}}, false), t, "nested")
			c.inner[id] = k
			return &Iface{t, &MapRef{id}}
		}
		text, _ := c.blob("text", 0, 1<<20)
		switch i % valueKinds {
		case 0:
			return &Iface{types.Typ[types.Int], sv(c.num(-1<<30, 1<<30, "value"))}
		case 1:
			return &Iface{}
		case 2:
			return &Iface{str, &Str{text}}
		case 3:
			return nested(loose, &Iface{types.Typ[types.Int], sv(c.num(0, 1<<30, "inner"))})
		case 4:
			return nested(loose, &Iface{str, &Str{text}})
		case 5:
			return nested(typed, &Str{text})
		case 6:
			return &Iface{types.Typ[types.Bool], sv(c.num(0, 1, "flag"))}
		}
		return &Iface{types.NewSlice(any), c.list(st, any, &Iface{str, &Str{text}}, &Iface{})}
	}
	call := func(c *Ctx, st *State, arg Val, k func(st *State, m Val, ok bool)) {
		c.fn(st, "NormalizeConfig", []Val{arg}, func(st *State, rv Val) {
			c.split(st, func(st *State) {
				c.cells++
				k(st, st.finVal(tup(rv, 0)), c.nilErr(st, tup(rv, 1)))
			})
		})
	}
	ents := func(st *State, m Val) []mapEnt {
		r, ok := m.(*MapRef)
		if !ok {
			undecided("result %s", valStr(m))
		}
		if r.obj == 0 {
			return nil
		}
		mv := st.get(r.obj).(*MapV)
		if mv.open {
			undecided("entries of the result")
		}
		return mv.ents
	}
	exact := func(c *Ctx, st *State, got []mapEnt, want []entry, what string) {
		c.must(st, len(got) == len(want), "entries", "%s has %d entries instead of %d", what, len(got), len(want))
		for _, w := range want {
			hit := false
			for _, g := range got {
				if st.decide(st.equal(g.k, w.k)) == 1 && sameVal(g.v, w.v) {
					hit = true
				}
			}
			if x, ok := w.v.(*Iface); ok {
				if ref, ok := x.v.(*MapRef); ok {
					now := ents(st, ref)
					c.must(st, len(now) == 1 && sameVal(now[0].k, c.inner[ref.obj]), "nested", "%s has a nested map with other entries: %d", what, len(now))
				}
			}
			c.must(st, hit, "entries", "%s lacks the entry %s: %s", what, valStr(w.k), valStr(w.v))
		}
	}
	refused := func(c *Ctx, st *State, m Val, ok bool, what string) {
		c.must(st, !ok, "refused", "%s is accepted", what)
		x, isRef := m.(*MapRef)
		c.must(st, isRef && x.obj == 0, "no-map", "%s is refused with a map", what)
	}
	for n := 0; n <= 4; n++ {
		n := n
		r.addPkg("vltypes", fmt.Sprintf("string-keyed map with %d entries", n), func(c *Ctx) {
			for o := 0; o < valueKinds; o++ {
				st := c.state()
				var es []entry
				var me []mapEnt
				for i := 0; i < n; i++ {
					k := key(c, st, i, es)
					v := value(c, st, i+o)
					es, me = append(es, entry{k, v}), append(me, mapEnt{k, v})
				}
				m := &MapRef{st.alloc(c.in.newMap(me, false), typed, "config")}
				call(c, st, &Iface{typed, m}, func(st *State, res Val, ok bool) {
					c.must(st, ok, "accepted", "a map with string keys is refused")
					exact(c, st, ents(st, res), es, "the result")
					exact(c, st, ents(st, m), es, "the input, afterwards,")
				})
			}
		})
		// which of the keys are strings
		for mask := 0; mask < 1<<uint(n); mask++ {
			mask := mask
			r.addPkg("vltypes", fmt.Sprintf("map with %d entries, strings: %0*b", n, n, mask), func(c *Ctx) {
				for o := 0; o < valueKinds; o++ {
					st := c.state()
					var es []entry
					var me []mapEnt
					oth := other(c, st)
					for i := 0; i < n; i++ {
						var k Val
						if mask>>uint(i)&1 == 1 {
							k = &Iface{str, key(c, st, i, es)}
						} else {
							k = oth[(o+i)%len(oth)]
						}
						v := value(c, st, i+o)
						es, me = append(es, entry{k, v}), append(me, mapEnt{k, v})
					}
					m := &MapRef{st.alloc(c.in.newMap(me, false), loose, "config")}
					call(c, st, &Iface{loose, m}, func(st *State, res Val, ok bool) {
						if mask == 1<<uint(n)-1 {
							if c.must(st, ok, "accepted", "a map whose keys are strings is refused") {
								var w []entry
								for _, e := range es {
									w = append(w, entry{e.k.(*Iface).v, e.v})
								}
								exact(c, st, ents(st, res), w, "the result")
							}
						} else {
							refused(c, st, res, ok, "a map with a key that is not a string")
						}
						exact(c, st, ents(st, m), es, "the input, afterwards,")
					})
				}
			})
		}
	}
	r.addPkg("vltypes", "nil maps", func(c *Ctx) {
		for _, t := range []types.Type{typed, loose} {
			call(c, c.state(), &Iface{t, &MapRef{}}, func(st *State, res Val, ok bool) {
				c.must(st, ok && len(ents(st, res)) == 0, "accepted", "a nil map is refused or gains entries")
			})
		}
	})
	r.addPkg("vltypes", "other objects", func(c *Ctx) {
		call(c, c.state(), &Iface{}, func(st *State, res Val, ok bool) { refused(c, st, res, ok, "nil") })
		for _, t := range []types.Type{types.Typ[types.Int], types.Typ[types.Bool], str, types.NewSlice(any), types.NewSlice(types.Typ[types.Uint8]),
			types.NewPointer(typed), types.NewPointer(loose), types.NewMap(str, str), types.NewMap(types.Typ[types.Int], any), types.NewMap(any, str),
			types.NewNamed(types.NewTypeName(0, nil, "Config", nil), typed, nil), types.NewStruct(nil, nil)} {
			st := c.state()
			var v Val
			switch t.Underlying().(type) {
			case *types.Map:
				v = &MapRef{st.alloc(c.in.newMap(nil, false), t, "config")}
			default:
				v = c.in.fresh(st, t, "config")
			}
			call(c, st, &Iface{t, v}, func(st *State, res Val, ok bool) { refused(c, st, res, ok, "an object of type "+t.String()) })
		}
	})
}
