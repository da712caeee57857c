package main

import (
	"fmt"
	"regexp"
	"unicode/utf8"
)

// Checks of protocol rules: topics, PUBLISH, SUBSCRIBE, UNSUBSCRIBE and CONNECT.

// possible tells whether a content can satisfy extra conjuncts besides what is known about it.
func (c *Ctx) possible(st *State, q *Seq, extra ...lang) (bool, string) {
	q = st.normSeq(q)
	if s, ok := q.constStr(); ok {
		for _, l := range extra {
			ok := false
			if l.utf8 {
				ok = utf8.ValidString(s)
			} else {
				ok = regexp.MustCompile(`^(?:` + l.pat + `)$`).MatchString(s)
			}
			if ok == l.neg {
				return false, ""
			}
		}
		return true, fmt.Sprintf("%q", s)
	}
	if len(q.p) != 1 || q.p[0].k != pBlob {
		undecided("language of %s", q)
	}
	ok, w := st.feasibleLang(q.p[0], extra...)
	if ok && w == "" {
		w = "the empty text"
	}
	return ok, w
}

const (
	patControl = `(?s:.*)[\x{0}-\x{1f}\x{7f}-\x{9f}](?s:.*)`
	patPublish = `[^#+]*`
	patFilter  = `(?:(?:[^+#/]*|\+)(?:/(?:[^+#/]*|\+))*(?:/#)?|#)`
	patShared  = `\$share/[^+#/]+/` + `(?:(?:[^+#/]*|\+)(?:/(?:[^+#/]*|\+))*(?:/#)?|#)`
	patIsShare = `\$share(?:/(?s:.*))?`
)

var langUTF8 = lang{utf8: true}

func not(l lang) lang { l.neg = !l.neg; return l }

// what each kind of topic has to be: a union of conjunctions, and the conjunctions of its complement.
type grammar struct {
	name string
	in   [][]lang
	out  [][]lang
}

var (
	gPublish = grammar{"topic name",
		[][]lang{{langUTF8, {pat: patControl, neg: true}, {pat: patPublish}}},
		[][]lang{{not(langUTF8)}, {{pat: patControl}}, {{pat: patPublish, neg: true}}}}
	gPublishNonEmpty = grammar{"non-empty topic name",
		[][]lang{{langUTF8, {pat: patControl, neg: true}, {pat: patPublish}, {pat: "(?s:.+)"}}},
		[][]lang{{not(langUTF8)}, {{pat: patControl}}, {{pat: patPublish, neg: true}}, {{pat: ""}}}}
	gFilter = grammar{"topic filter",
		[][]lang{
			{langUTF8, {pat: patControl, neg: true}, {pat: "(?s:.+)"}, {pat: patIsShare, neg: true}, {pat: patFilter}},
			{langUTF8, {pat: patControl, neg: true}, {pat: patShared}, {pat: `\$share/[^/]*/`, neg: true}}},
		[][]lang{{not(langUTF8)}, {{pat: patControl}}, {{pat: ""}}, {{pat: patIsShare, neg: true}, {pat: patFilter, neg: true}},
			{{pat: patIsShare}, {pat: patShared, neg: true}}, {{pat: `\$share/[^/]*/`}}}}
	// filters that are no shared subscription
	gFilterPlain = grammar{"topic filter outside $share",
		[][]lang{{langUTF8, {pat: patControl, neg: true}, {pat: "(?s:.+)"}, {pat: patIsShare, neg: true}, {pat: patFilter}}},
		[][]lang{{not(langUTF8)}, {{pat: patControl}}, {{pat: ""}}, {{pat: patFilter, neg: true}}, {{pat: patIsShare}}}}
)

// within demands that every content possible here is in the grammar.
func (c *Ctx) within(st *State, g grammar, q *Seq, rule, what string) bool {
	for _, e := range g.out {
		if ok, w := c.possible(st, q, e...); ok {
			return c.must(st, false, rule, "%s with %s, which is not a valid %s", what, w, g.name)
		}
	}
	return c.must(st, true, rule, "")
}

// outside tells whether no content possible here is in the grammar.
func (c *Ctx) outside(st *State, g grammar, q *Seq) (bool, string) {
	for _, e := range g.in {
		if ok, w := c.possible(st, q, e...); ok {
			return false, w
		}
	}
	return true, ""
}

// parsed compares what a topic reports with the text it was made from.
func (c *Ctx) parsed(st *State, t *Iface, q *Seq, k func(st *State)) {
	str := func(v Val) *Seq {
		s, ok := st.finVal(v).(*Str)
		if !ok {
			undecided("text %s", valStr(v))
		}
		return s.q
	}
	c.get(st, t, "Full", nil, func(st *State, full Val) {
		c.must(st, st.seqEq(str(full), q) == 1, "full", "Full() of topic %s is %s", q, str(full))
		c.get(st, t, "ShareName", nil, func(st *State, share Val) {
			c.get(st, t, "Filter", nil, func(st *State, filter Val) {
				c.get(st, t, "Topic", nil, func(st *State, tp Val) {
					c.must(st, st.seqEq(str(tup(tp, 0)), str(filter)) == 1, "filter", "Topic() and Filter() differ: %s, %s", str(tup(tp, 0)), str(filter))
					canShare, _ := c.possible(st, q, lang{pat: patIsShare})
					canPlain, _ := c.possible(st, q, lang{pat: patIsShare, neg: true})
					sn, fl := str(share), str(filter)
					if canPlain {
						if c.must(st, !canShare, "share", "topics with and without $share are not told apart: %s", q) {
							c.must(st, st.decideAff('=', st.norm(sn.size())) == 1, "share", "ShareName() of topic %s is %s", q, sn)
							c.must(st, st.seqEq(fl, q) == 1, "filter", "Filter() of topic %s is %s", q, fl)
						}
						k(st)
						return
					}
					// $share/name/filter
					whole := cat(constSeq("$share/"), sn, constSeq("/"), fl)
					n := st.norm(q.size().minus(whole.size()))
					ok := st.decideAff('=', n) == 1 && st.seqEq(st.sub(q, K(7), sn.size()), sn) == 1 &&
						st.seqEq(st.sub(q, sn.size().addc(8), fl.size()), fl) == 1
					if c.must(st, ok, "share", "ShareName() and Filter() of topic %s are %s and %s", q, sn, fl) {
						rest := st.sub(q, K(7), q.size().addc(-7))
						at := st.affOf(c.in.indexIn(st, "Index", rest, "/"))
						c.must(st, st.decideAff('=', st.norm(at.minus(sn.size()))) == 1, "share", "ShareName() of topic %s is %s, which is not what stands before the next /", q, sn)
					}
					k(st)
				})
			})
		})
	})
}

func checkC22(r *Report) {
	kinds := []struct {
		name     string
		lo, hi   int64
		constant string
	}{{"any text", 1, 1 << 20, ""}, {"the empty text", 0, 0, ""}}
	for _, kd := range kinds {
		kd := kd
		text := func(c *Ctx) *Seq { q, _ := c.blob("topic", kd.lo, kd.hi); return q }
		r.add("ValidTopic("+kd.name+")", func(c *Ctx) {
			st := c.state()
			q := text(c)
			c.fn(st, "ValidTopic", []Val{c.in.bytesOf(st, q, "topic")}, func(st *State, rv Val) {
				c.split(st, func(st *State) {
					c.cells++
					if st.must(rv) {
						c.within(st, gPublish, q, "valid-topic", "ValidTopic accepts a topic")
					} else {
						no, w := c.outside(st, gPublish, q)
						c.must(st, no, "valid-topic", "ValidTopic refuses the topic %s", w)
					}
				})
			})
		})
		for _, ver := range versions {
			for _, how := range []string{"SetTopic", "Set"} {
				ver, how := ver, how
				r.add(fmt.Sprintf("PUBLISH v%d %s(%s)", ver, how, kd.name), func(c *Ctx) {
					c.newPkt(c.state(), ver, tPUBLISH, func(st *State, p *pkt) {
						q := text(c)
						args := []Val{&Str{q}}
						if how == "Set" {
							args = append(args, c.in.bytesOf(st, constSeq("p"), "payload"), cst(1), cst(0), cst(0))
						}
						c.inv(st, p.msg, how, args, func(st *State, rv Val) {
							c.split(st, func(st *State) {
								c.cells++
								if c.nilErr(st, rv) {
									c.within(st, gPublish, q, "publish-topic", how+" accepts a topic")
									c.get(st, p.msg, "Topic", nil, func(st *State, v Val) {
										c.must(st, c.same(st, v, &Str{q}) == 1, "publish-topic", "Topic() is %s after %s of %s", c.show(st, v), how, q)
									})
								} else {
									g := gPublish
									if ver < 5 {
										g = gPublishNonEmpty
									}
									no, w := c.outside(st, g, q)
									c.must(st, no, "publish-topic", "%s refuses the topic %s", how, w)
								}
							})
						})
					})
				})
			}
		}
		for _, fn := range []string{"NewTopic", "NewSubscribeTopic"} {
			fn := fn
			r.add(fmt.Sprintf("%s(%s)", fn, kd.name), func(c *Ctx) {
				st := c.state()
				q := text(c)
				args := []Val{c.in.bytesOf(st, q, "topic")}
				if fn == "NewSubscribeTopic" {
					args = append(args, cst(1))
				}
				c.fn(st, fn, args, func(st *State, rv Val) {
					c.split(st, func(st *State) {
						c.cells++
						if !c.nilErr(st, tup(rv, 1)) {
							no, w := c.outside(st, gFilter, q)
							c.must(st, no, "filter-accepted", "%s refuses the filter %s with %s", fn, w, c.errName(st, tup(rv, 1)))
							return
						}
						if !c.within(st, gFilter, q, "filter-refused", fn+" accepts a filter") {
							return
						}
						t, ok := st.finVal(tup(rv, 0)).(*Ptr)
						if c.must(st, ok && t.obj != 0, "topic", "%s gives no topic", fn) {
							c.parsed(st, &Iface{types_ptr(c, "Topic"), t}, q, func(st *State) {})
						}
					})
				})
			})
		}
	}
}
