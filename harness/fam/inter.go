package fam

import (
	"fmt"

	"gopkg.in/addrs.v1/zzverif/rt"
)

// Operations in several goroutines take turns: each runs up to the next call of the
// caller's code, in every order, or in every order with few switches.

func regInter() {
	reg("C32", "tables: operations that take turns", interTables)
	reg("C32", "sets: operations that take turns", interSets)
	reg("C32", "hundreds of operations that take turns", interMany)
}

// a turn is an operation in a goroutine of its own, that stops at every call of the caller's code.
type turn struct {
	on     chan struct{}
	at     chan bool
	over   bool
	result string
}

type traced func(in func(string)) string

func newTurn(f traced) *turn {
	t := &turn{on: make(chan struct{}), at: make(chan bool)}
	go func() {
		<-t.on
		r := guarded(func() string {
			return f(func(string) { t.at <- false; <-t.on })
		})
		t.result = r
		t.at <- true
	}()
	return t
}

// step lets it go on to its next call, or to its end.
func (t *turn) step() {
	if !t.over {
		t.on <- struct{}{}
		t.over = <-t.at
	}
}

func calls(f traced) (string, int) {
	n := 0
	r := f(func(string) { n++ })
	return r, n
}

// takeTurns runs the operations in the order given, each entry being the one that
// goes on, and then lets each of them end. It returns what they did.
func takeTurns(c *rt.Ctx, fs []traced, order []int, dst []string) []string {
	var ts [3]*turn
	for i, f := range fs {
		ts[i] = newTurn(f)
	}
	for _, i := range order {
		ts[i].step()
		c.Trans++
	}
	dst = dst[:0]
	for i := range fs {
		for !ts[i].over {
			ts[i].step()
			c.Trans++
		}
		dst = append(dst, ts[i].result)
	}
	return dst
}

// turnOrders calls f with orders of steps of two or three operations that make n calls
// each: all of them when there are few, else all with few switches, and taking
// turns after each one or two.
func turnOrders(n []int, f func(order []int)) {
	if len(n) == 2 && n[0]+n[1]+2 <= 9 {
		var o []int
		var rec func(a, b int)
		rec = func(a, b int) {
			if a == 0 || b == 0 {
				f(o) // the rest ends in its turn
				return
			}
			o = append(o, 0)
			rec(a-1, b)
			o[len(o)-1] = 1
			rec(a, b-1)
			o = o[:len(o)-1]
		}
		rec(n[0]+1, n[1]+1)
		return
	}
	o := make([]int, 0, 64)
	add := func(i, k int) {
		for ; k > 0; k-- {
			o = append(o, i)
		}
	}
	if len(n) == 2 {
		sa, sb := n[0]/6+1, n[1]/6+1
		for a := 1; a <= n[0]; a += sa {
			for b := 1; b <= n[1]; b += sb {
				o = o[:0]
				add(0, a)
				add(1, b)
				f(o) // the first one ends, then the second
				add(0, 1)
				add(1, n[1]+1-b)
				f(o) // one more call of the first, then the second ends
			}
		}
	} else {
		for a := 1; a <= 2; a++ {
			for b := 1; b <= 2; b++ {
				for k := 0; k < 6; k++ {
					o = o[:0]
					add(0, a)
					add(1, b)
					add(2, 1)
					x := k % 3
					y := (x + 1 + k/3) % 3
					add(x, n[x]+1)
					add(y, n[y]+1)
					f(o)
				}
			}
		}
	}
	for stride := 1; stride <= 2; stride++ {
		o = o[:0]
		for round := 0; round < 8; round++ {
			for i := range n {
				add(i, stride)
			}
		}
		f(o)
	}
}

func inter(c *rt.Ctx, what string, names []string, fs []traced) {
	alone, n := make([]string, len(fs)), make([]int, len(fs))
	for i, f := range fs {
		alone[i], n[i] = calls(f)
	}
	var got []string
	with := func(is ...int) {
		var ns []int
		var ops []traced
		for _, i := range is {
			ns = append(ns, n[i])
			ops = append(ops, fs[i])
		}
		turnOrders(ns, func(order []int) {
			got = takeTurns(c, ops, order, got)
			for k, i := range is {
				if got[k] != alone[i] {
					s := ""
					for _, i := range is {
						s += ", " + names[i]
					}
					c.Failf("%s: number %d of %s in goroutines that take turns at their callbacks (%v) gives %s, alone %s", what, k, s[2:], order, got[k], alone[i])
				}
			}
		})
	}
	for i := range fs {
		for j := range fs {
			if n[i] == 0 || n[j] == 0 {
				continue
			}
			if j >= i {
				with(i, j)
			}
			with(i, j, (i*2+j+len(what))%len(fs))
		}
	}
}

func interTables(c *rt.Ctx) {
	for depth := 1; depth <= 2; depth++ {
		for _, off := range []int{0, W/2 - 2, W - depth} {
			u := newTuni(fmt.Sprintf("tree %d at %d", depth, off), treeKeys(off, depth, pattern(patAlt)), 2, false)
			trs := tableTraces(u)
			step := 1
			if depth == 2 {
				step = 23
				if c.Thorough {
					step = 3
				}
			}
			for m := 1; m < u.n; m += step {
				m := m
				c.Case(func() {
					t, o := u.table(m), u.table((m*7+5)%u.n)
					var names []string
					var fs []traced
					for _, tr := range trs {
						tr := tr
						names = append(names, tr.name)
						fs = append(fs, func(in func(string)) string { return tr.f(t, o, in) })
					}
					inter(c, u.name+": "+u.str(m)+" and "+u.str((m*7+5)%u.n), names, fs)
					c.States++
					c.Traces++
				})
			}
			c.Sample(func() string { return u.name + ": pairs and triples of operations" })
		}
	}
}

func interSets(c *rt.Ctx) {
	for _, off := range []int{0, W/2 - 1, W - 2} {
		u := concUni(off)
		trs := setTraces(u)
		for m := 1; m < 16; m++ {
			for _, d := range []int{0, 5, 10, 3} {
				m, o := m, m^d
				c.Case(func() {
					s, os := u.sets[m], u.sets[o]
					var names []string
					var fs []traced
					for _, tr := range trs {
						tr := tr
						names = append(names, tr.name)
						fs = append(fs, func(in func(string)) string { return tr.f(s, os, in) })
					}
					inter(c, fmt.Sprintf("%v: %s and %s", u, str(u.want[m]), str(u.want[o])), names, fs)
					c.States++
					c.Traces++
				})
			}
		}
		c.Sample(func() string { return fmt.Sprint(u) + ": pairs and triples of operations" })
	}
}

// together starts n operations that all go on in turn, call by call.
func together(c *rt.Ctx, n int, want string, f traced, what string) {
	ts := make([]*turn, n)
	for i := range ts {
		ts[i] = newTurn(f)
	}
	for left := true; left; {
		left = false
		for _, t := range ts {
			t.step()
			c.Trans++
			left = left || !t.over
		}
	}
	for i, t := range ts {
		if t.result != want {
			c.Failf("%s, number %d of %d that take turns, gives %s, alone %s", what, i, n, t.result, want)
		}
	}
}

func interMany(c *rt.Ctx) {
	ns := []int{4, 17, 130, 300}
	if c.Thorough {
		ns = []int{4, 5, 6, 7, 8, 9, 16, 17, 32, 33, 64, 65, 129, 257, 1025, 16385}
	}
	u := newTuni("tree", treeKeys(W/2-1, 1, pattern(patAlt)), 2, false)
	for m := 1; m < u.n; m += 4 {
		for _, tr := range tableTraces(u) {
			m, tr := m, tr
			c.Case(func() {
				t, o := u.table(m), u.table((m*7+5)%u.n)
				want := tr.f(t, o, nil)
				for _, n := range ns {
					together(c, n, want, func(in func(string)) string { return tr.f(t, o, in) }, tr.name+" of "+u.str(m))
				}
				c.States++
				c.Traces++
			})
		}
	}
	nu := concUni(W/2 - 1)
	for m := 1; m < 16; m += 3 {
		for _, tr := range setTraces(nu) {
			m, tr := m, tr
			c.Case(func() {
				s, o := nu.sets[m], nu.sets[(m*7+5)&15]
				want := tr.f(s, o, nil)
				for _, n := range ns {
					together(c, n, want, func(in func(string)) string { return tr.f(s, o, in) }, tr.name+" of "+str(nu.want[m]))
				}
				c.States++
				c.Traces++
			})
		}
	}
	c.Sample(func() string { return "300 operations, each going on in turn" })
}
