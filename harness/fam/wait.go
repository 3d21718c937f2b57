package fam

import (
	"fmt"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// The code of the caller waits for other goroutines: at each call of it, another
// goroutine uses the same sets and tables, and is waited for.

func regWait() {
	reg("C32", "tables: operations of another goroutine inside callbacks", waitTables)
	reg("C32", "tables: inside comparisons", waitComparisons)
	reg("C32", "tables: inside modifications of the same table", waitTableMods)
	reg("C32", "sets: operations of another goroutine inside callbacks", waitSets)
	reg("C32", "sets: inside modifications of the same set", waitSetMods)
	reg("C32", "hundreds of goroutines waiting in callbacks", waitMany)
	reg("C32", "large and deep structures", waitLarge)
}

// aside is another goroutine. It answers with the result and whether it panicked.
type aside struct {
	ask    chan func() string
	answer chan string
}

func newAside() *aside {
	a := &aside{make(chan func() string), make(chan string)}
	go func() {
		for f := range a.ask {
			a.answer <- guarded(f)
		}
		close(a.answer)
	}()
	return a
}

const panicked = "panic: "

func guarded(f func() string) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = panicked + fmt.Sprint(e)
		}
	}()
	return f()
}

func (a *aside) do(f func() string) string {
	a.ask <- f
	return <-a.answer
}

func (a *aside) end() { close(a.ask); <-a.answer }

func waitTables(c *rt.Ctx) {
	nestUnis(c, func(u *nestUni, m int) {
		a, b := newAside(), newAside()
		defer a.end()
		defer b.end()
		o := u.partner(m)
		t, ot := u.tab[m], u.tab[o]
		trs := tableTraces(u.tuni)
		alone := make([]string, len(trs))
		for i, tr := range trs {
			alone[i] = tr.f(t, ot, nil)
		}
		for i, tr := range trs {
			for j, inner := range trs {
				k := (i + j + m) % len(trs)
				third := trs[k]
				calls := 0
				got := tr.f(t, ot, func(where string) {
					calls++
					if (calls+m+i+j)%3 != 0 && calls > 1 && !c.Thorough {
						return
					}
					deep := (calls+m)%2 == 0
					bad := ""
					g := a.do(func() string {
						n := 0
						return inner.f(t, ot, func(string) {
							// the third one works while both others wait
							if n++; !deep || n > 2 {
								return
							}
							if g := b.do(func() string { return third.f(t, ot, nil) }); g != alone[k] {
								bad = g
							}
						})
					})
					if g != alone[j] {
						c.Failf("%s: %s of %s and %s, in another goroutine that %s (call %d) of %s waits for, gives %s, alone %s", u.name, inner.name, u.str(m), u.str(o), where, calls, tr.name, g, alone[j])
					}
					if bad != "" {
						c.Failf("%s: %s of %s and %s, in a third goroutine while %s and %s wait in callbacks, gives %s, alone %s", u.name, third.name, u.str(m), u.str(o), tr.name, inner.name, bad, alone[k])
					}
					c.Trans++
				})
				if got != alone[i] {
					c.Failf("%s: %s of %s and %s that waits for %s in another goroutine gives %s, alone %s", u.name, tr.name, u.str(m), u.str(o), inner.name, got, alone[i])
				}
			}
		}
	})
}

func waitComparisons(c *rt.Ctx) {
	nestUnis(c, func(u *nestUni, m int) {
		a := newAside()
		defer a.end()
		o := u.partner(m)
		t, ot := u.tab[m], u.tab[o]
		trs := tableTraces(u.tuni)
		for i, tr := range trs {
			inner := trs[(i+m)%len(trs)]
			u.in = nil
			alone, innerAlone := tr.f(t, ot, nil), inner.f(t, ot, nil)
			var in func(string)
			in = func(string) {
				u.in = nil
				if g := a.do(func() string { return inner.f(t, ot, nil) }); g != innerAlone {
					c.Failf("%s: %s of %s and %s, in another goroutine that a comparison of %s waits for, gives %s, alone %s", u.name, inner.name, u.str(m), u.str(o), tr.name, g, innerAlone)
				}
				u.in = in
				c.Trans++
			}
			u.in = in
			got := tr.f(t, ot, nil)
			u.in = nil
			if got != alone {
				c.Failf("%s: %s of %s and %s whose comparisons wait for %s in another goroutine gives %s, alone %s", u.name, tr.name, u.str(m), u.str(o), inner.name, got, alone)
			}
		}
	})
}

// contents of a mutable as another goroutine reads them
func (u *nestUni) contents(t tw) string {
	s := walkStr(t.Table()) + fmt.Sprint(t.NumEntries())
	for i := range u.keys {
		v, ok := t.Get(u.args[i][0])
		v2, ok2, p := t.LongestMatch(u.args[i][0])
		s += fmt.Sprint(" ", v, ok, v2, ok2, normP(p))
	}
	return s
}

// waitTableMods: a modification waits, in a comparison or in the conversion of
// its argument, for another goroutine that reads or modifies the same table.
func waitTableMods(c *rt.Ctx) {
	nestUnis(c, func(u *nestUni, m int) {
		a := newAside()
		defer a.end()
		ops := []struct {
			name  string
			apply func(t tw, i int, arg ip.PrefixI) string
		}{
			{"Insert", func(t tw, i int, arg ip.PrefixI) string { return fmt.Sprint(t.Insert(arg, 1)) }},
			{"Update", func(t tw, i int, arg ip.PrefixI) string { return fmt.Sprint(t.Update(arg, 2)) }},
			{"InsertOrUpdate", func(t tw, i int, arg ip.PrefixI) string { t.InsertOrUpdate(arg, 1); return "" }},
			{"GetOrInsert", func(t tw, i int, arg ip.PrefixI) string { return fmt.Sprint(t.GetOrInsert(arg, 2)) }},
			{"Remove", func(t tw, i int, arg ip.PrefixI) string { return fmt.Sprint(t.Remove(arg)) }},
		}
		start := u.tab[m]
		for _, op := range ops {
			for i := range u.keys {
				key := mkP(u.keys[i])
				u.in = nil
				after := start.Table_()
				want := op.apply(after, i, key)
				before, then := u.contents(start.Table_()), u.contents(after)
				for n := 0; n < 2*len(ops)+2; n++ {
					second, site := n/2-1, n%2 // site 0 is the conversion of the argument
					if site == 1 && (u.digit(m, i) == 0 || op.name != "Update" && op.name != "InsertOrUpdate") {
						continue
					}
					j := (i + second + m + 3) % len(u.keys)
					if second < 0 {
						j = i
					}
					t := start.Table_()
					read, answer := "", ""
					asked := false
					in := func(string) {
						u.in = nil
						if asked {
							return
						}
						asked = true
						if second < 0 {
							read = a.do(func() string { return u.contents(t) })
						} else {
							answer = a.do(func() string { return ops[second].apply(t, j, mkP(u.keys[j])) })
						}
						c.Trans++
					}
					got := guarded(func() string {
						return op.apply(t, i, &ownKey{func() ip.Prefix {
							if site == 0 {
								in("")
							} else {
								u.in = in
							}
							return key
						}})
					})
					u.in = nil
					what := func() string {
						s := fmt.Sprintf("%s: %s(%s) in %s waits for another goroutine", u.name, op.name, u.keys[i].Str(W), u.str(m))
						if second >= 0 {
							s += fmt.Sprintf(" and its %s(%s) = %s", ops[second].name, u.keys[j].Str(W), answer)
						}
						return s
					}
					final := u.contents(t)
					if second < 0 {
						if !asked {
							c.Failf("%s: it is not called", what())
						}
						if read != before && read != then {
							c.Failf("%s, which reads %s, want %s", what(), read, before)
						}
						if got != want || final != then {
							c.Failf("%s: gives %s, leaving %s, want %s, %s", what(), got, final, want, then)
						}
						continue
					}
					// one after the other, those that did not panic
					isPanic := func(s string) bool { return len(s) >= len(panicked) && s[:len(panicked)] == panicked }
					ok := false
					for order := 0; order < 2 && !ok; order++ {
						x := start.Table_()
						g, w := got, answer
						for step := 0; step < 2; step++ {
							if (step == 0) == (order == 0) {
								if !isPanic(answer) {
									w = ops[second].apply(x, j, mkP(u.keys[j]))
								}
							} else if !isPanic(got) {
								g = op.apply(x, i, key)
							}
						}
						ok = g == got && w == answer && u.contents(x) == final
					}
					if !ok {
						c.Failf("%s: gives %s, leaving %s: not what those of them that did not panic do one after the other", what(), got, final)
					}
				}
			}
		}
	})
}

func waitSets(c *rt.Ctx) {
	nestSetUnis(c, func(u *uni, m, o int) {
		if (m+o)%3 != 0 && !c.Thorough {
			return
		}
		a, b := newAside(), newAside()
		defer a.end()
		defer b.end()
		s, os := u.sets[m], u.sets[o]
		trs := setTraces(u)
		alone := make([]string, len(trs))
		for i, tr := range trs {
			alone[i] = tr.f(s, os, nil)
		}
		for i, tr := range trs {
			for j, inner := range trs {
				k := (i + j + m) % len(trs)
				calls := 0
				got := tr.f(s, os, func(where string) {
					if calls++; calls > 1 && (calls+m+i+j)%4 != 0 {
						return
					}
					bad := ""
					g := a.do(func() string {
						n := 0
						return inner.f(s, os, func(string) {
							if n++; n > 1 || (calls+m)%2 == 0 {
								return
							}
							if g := b.do(func() string { return trs[k].f(s, os, nil) }); g != alone[k] {
								bad = g
							}
						})
					})
					if g != alone[j] {
						c.Failf("%v: %s of %s and %s, in another goroutine that %s (call %d) of %s waits for, gives %s, alone %s", u, inner.name, str(u.want[m]), str(u.want[o]), where, calls, tr.name, g, alone[j])
					}
					if bad != "" {
						c.Failf("%v: %s of %s and %s, in a third goroutine while %s and %s wait in callbacks, gives %s, alone %s", u, trs[k].name, str(u.want[m]), str(u.want[o]), tr.name, inner.name, bad, alone[k])
					}
					c.Trans++
				})
				if got != alone[i] {
					c.Failf("%v: %s of %s and %s that waits for %s in another goroutine gives %s, alone %s", u, tr.name, str(u.want[m]), str(u.want[o]), inner.name, got, alone[i])
				}
			}
		}
	})
}

func waitSetMods(c *rt.Ctx) {
	nestSetUnis(c, func(u *uni, m, o int) {
		a := newAside()
		defer a.end()
		apply := func(s sw, op int, x ip.SetI) string {
			if op == 0 {
				s.Insert(x)
			} else {
				s.Remove(x)
			}
			return ""
		}
		model := func(m, op, x int) int {
			if op == 0 {
				return m | x
			}
			return m &^ x
		}
		for op := 0; op < 2; op++ {
			for second := 0; second < 3; second++ {
				x := (m*5 + o*3 + second*29) & 255
				s := u.sets[m].Set_()
				read, answer := -1, ""
				asked := false
				got := guarded(func() string {
					return apply(s, op, ownSet{func() ip.Set {
						if !asked {
							asked = true
							if second == 2 {
								a.do(func() string { read = u.maskOf(s.Set()); return fmt.Sprint(s.IsEmpty(), s.Contains(u.sets[o])) })
							} else {
								answer = a.do(func() string { return apply(s, second, u.sets[x]) })
							}
						}
						return u.sets[o]
					}})
				})
				c.Trans++
				what := func() string {
					t := fmt.Sprintf("%v: %s(%s) in %s waits for another goroutine", u, []string{"Insert", "Remove"}[op], str(u.want[o]), str(u.want[m]))
					if second < 2 {
						t += fmt.Sprintf(" and its %s(%s) = %q", []string{"Insert", "Remove"}[second], str(u.want[x]), answer)
					}
					return t
				}
				final := u.maskOf(s.Set())
				if !asked {
					c.Failf("%s: it is not called", what())
				}
				if second == 2 {
					if then := model(m, op, o); got != "" || final != then || read != m && read != then {
						c.Failf("%s: %s, it reads blocks %s, then it is %s", what(), got, fmt.Sprint(read), s.Set())
					}
					continue
				}
				inThen, outThen := m, m
				if answer == "" {
					inThen = model(m, second, x)
				}
				if got == "" {
					outThen = model(m, op, o)
					inThen = model(inThen, op, o)
				}
				if answer == "" {
					outThen = model(outThen, second, x)
				}
				if final != inThen && final != outThen {
					c.Failf("%s: %q, then it is %s: not what those of them that did not panic do one after the other", what(), got, s.Set())
				}
			}
		}
	})
}

// chain runs f in a goroutine of its own at each level, which waits, in the first
// call of the caller's code, for the next level.
func chain(c *rt.Ctx, levels int, want string, f func(in func(string)) string, what func() string) {
	results := make(chan string, levels+1)
	var level func(n int)
	level = func(n int) {
		first := true
		results <- guarded(func() string {
			return f(func(string) {
				if first && n < levels {
					first = false
					done := make(chan struct{})
					go func() { defer close(done); level(n + 1) }()
					<-done
				}
			})
		})
	}
	level(1)
	for n := len(results); n > 0; n-- {
		if got := <-results; got != want {
			c.Failf("%s, in up to %d goroutines, gives %s, alone %s", what(), levels, got, want)
		}
		c.Trans++
	}
}

func waitMany(c *rt.Ctx) {
	u := newTuni("tree", treeKeys(W/2-1, 1, pattern(patAlt)), 2, false)
	trs := tableTraces(u)
	levels := []int{300}
	if c.Thorough {
		levels = []int{300, 1<<14 + 1}
	}
	for m := 1; m < u.n; m += 3 {
		for i := range trs {
			m, tr := m, trs[i]
			c.Case(func() {
				t, o := u.table(m), u.table((m*7+5)%u.n)
				want := tr.f(t, o, nil)
				for _, l := range levels {
					chain(c, l, want, func(in func(string)) string { return tr.f(t, o, in) }, func() string { return tr.name + " of " + u.str(m) })
				}
				c.States++
				c.Traces++
			})
		}
	}
	nu := concUni(W/2 - 1)
	strs := setTraces(nu)
	for m := 1; m < 16; m += 3 {
		for i := range strs {
			m, tr := m, strs[i]
			c.Case(func() {
				s, o := nu.sets[m], nu.sets[(m*7+5)&15]
				want := tr.f(s, o, nil)
				for _, l := range levels {
					chain(c, l, want, func(in func(string)) string { return tr.f(s, o, in) }, func() string { return tr.name + " of " + str(nu.want[m]) })
				}
				c.States++
				c.Traces++
			})
		}
	}
	c.Sample(func() string { return "300 goroutines, each in a callback of Walk" })
}

func waitLarge(c *rt.Ctx) {
	for _, b := range bigTables(c.Thorough) {
		b := b
		c.Case(func() {
			a := newAside()
			defer a.end()
			t, o := ip.NewTable_[int](), ip.NewTable_[int]()
			for i, k := range b.keys {
				t.Insert(mkP(k), 1+i%2)
				if i%3 > 0 {
					o.Insert(mkP(k), i%3)
				}
			}
			u := &tuni{keys: b.keys}
			if len(u.keys) > 40 {
				u.keys = u.keys[:40]
			}
			trs := tableTraces(u)
			x, y := t.Table(), o.Table()
			alone := make([]string, len(trs))
			for i, tr := range trs {
				alone[i] = tr.f(x, y, nil)
			}
			for i, tr := range trs {
				for j, inner := range trs {
					calls := 0
					every := len(b.keys)/3 + 1
					got := tr.f(x, y, func(string) {
						if calls++; calls%every != 1 {
							return
						}
						if g := a.do(func() string { return inner.f(x, y, nil) }); g != alone[j] {
							c.Failf("%s: %s in another goroutine that call %d of %s waits for gives something else", b.name, inner.name, calls, tr.name)
						}
						c.Trans++
					})
					if got != alone[i] {
						c.Failf("%s: %s that waits for %s in another goroutine gives something else", b.name, tr.name, inner.name)
					}
				}
			}
			c.States++
			c.Traces++
		})
	}
}
