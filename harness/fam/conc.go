package fam

import (
	"fmt"
	"runtime"
	"strings"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
	"gopkg.in/addrs.v1/zzverif/sched"
)

func regConc() {
	reg("C19", "table: one writer and one reader", c19Table)
	reg("C19", "table: one writer and two readers", c19Table2)
	reg("C19", "table: snapshots during writes", c19Snapshots)
	reg("C19", "set: one writer and one reader", c19Set)
	reg("C19", "set: one writer and two readers", c19Set2)
	reg("C19", "independent use of shared immutables", c19Independent)

	reg("C20", "table: two writers, one call each", c20Table)
	reg("C20", "table: two writers, two calls each", c20TableLong)
	reg("C20", "table: three writers", c20Table3)
	reg("C20", "set: two writers, one call each", c20Set)
	reg("C20", "set: two writers, two calls each", c20SetLong)
	reg("C20", "set: three writers", c20Set3)
}

// ---- calls, histories and linearizability

// spec is a call on the shared object of type T.
type spec[T any] struct {
	name string
	mod  bool
	// model gives the next state and the result
	model func(s int) (int, int)
	run   func(w *world[T]) int
}

type world[T any] struct {
	obj   T
	later []func() string // checks for after the end
}

type record struct {
	thr        int
	name       string
	mod        bool
	start, end int
	panicked   bool
	pv         interface{}
	res        int
	model      func(int) (int, int)
}

func (r *record) String() string {
	out := fmt.Sprint(r.res)
	if r.panicked {
		out = fmt.Sprintf("panic: %v", r.pv)
	}
	return fmt.Sprintf("thread %d [%d, %d] %s = %s", r.thr, r.start, r.end, r.name, out)
}

// explain searches for an order of the calls that returned that is consistent
// with real time and gives their results and the final state.
func explain(rs []*record, done uint, s, final int) bool {
	all := true
	for i, r := range rs {
		if r.panicked || done>>uint(i)&1 == 1 {
			continue
		}
		all = false
		// every call that ended before r started must be done
		ok := true
		for j, q := range rs {
			if j != i && !q.panicked && done>>uint(j)&1 == 0 && q.end < r.start {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		next, res := r.model(s)
		if res == r.res && explain(rs, done|1<<uint(i), next, final) {
			return true
		}
	}
	return all && s == final
}

// scenario explores all schedules of the programs.
func scenario[T any](c *rt.Ctx, bound int, name func() string, initial int, obj func() T, progs [][]spec[T], final func(T) int) {
	var w *world[T]
	var recs [][]record
	races := sched.Races()
	points := sched.Points()
	st := sched.Explore(bound, func() []func() {
		w = &world[T]{obj: obj()}
		recs = make([][]record, len(progs))
		var fs []func()
		for t, p := range progs {
			t, p := t, p
			recs[t] = make([]record, 0, len(p))
			// each thread has its own list of later checks
			mine := &world[T]{obj: w.obj}
			fs = append(fs, func() {
				for i := range p {
					runCall(mine, &p[i], t, &recs[t])
				}
				keep(w, mine)
			})
		}
		return fs
	}, func(problem string) bool {
		var all []*record
		for t := range recs {
			for i := range recs[t] {
				all = append(all, &recs[t][i])
			}
		}
		fail := func(why string) {
			var b strings.Builder
			for _, r := range all {
				b.WriteString("\n  " + r.String())
			}
			c.Failf("%s: %s, in the schedule with choices %v (preemption bound %d)%s", name(), why, sched.Schedule(), bound, b.String())
		}
		if strings.HasPrefix(problem, "harness") {
			panic(problem)
		}
		if problem != "" {
			fail(problem)
		}
		if n := sched.Races(); n != races {
			fail("data race (the race detector's report is in the log)")
		}
		for i, r := range all {
			if !r.panicked {
				continue
			}
			if _, ok := r.pv.(runtime.Error); ok || !r.mod {
				fail(fmt.Sprintf("%s in thread %d panicked: %v", r.name, r.thr, r.pv))
			}
			overlapped := false
			for j, q := range all {
				if i != j && q.mod && q.thr != r.thr && q.start < r.end && r.start < q.end {
					overlapped = true
				}
			}
			if !overlapped {
				fail(fmt.Sprintf("%s in thread %d panicked without any other modification at the same time", r.name, r.thr))
			}
			c.Note("calls refused by a panic", 1)
		}
		f := final(w.obj)
		if !explain(all, 0, initial, f) {
			fail(fmt.Sprintf("no order of the calls explains the results and the final contents %d", f))
		}
		for _, l := range w.later {
			if s := l(); s != "" {
				fail(s)
			}
		}
		c.Traces++
		return true
	})
	if st.Truncated {
		c.Cap("a schedule had more choices than can be recorded")
	}
	c.States++
	c.Trans += sched.Points() - points
	if st.Schedules > c.Notes["max_schedules_of_one_program"] {
		c.Notes["max_schedules_of_one_program"] = st.Schedules
	}
}

//go:norace
func keep[T any](w, mine *world[T]) {
	// no two threads run at the same time
	l := make([]func() string, 0, len(w.later)+len(mine.later))
	for _, f := range w.later {
		l = append(l, f)
	}
	for _, f := range mine.later {
		l = append(l, f)
	}
	w.later = l
}

func runCall[T any](w *world[T], s *spec[T], thr int, recs *[]record) {
	sched.P()
	r := record{thr: thr, name: s.name, mod: s.mod, model: s.model, start: sched.Now()}
	defer func() {
		if x := recover(); x != nil {
			if sched.IsAbort(x) {
				r.end = int(^uint(0) >> 2)
				r.panicked, r.pv = true, "unfinished"
				*recs = append(*recs, r)
				panic(x)
			}
			r.panicked, r.pv = true, x
			r.end = sched.Now()
			*recs = append(*recs, r)
			return
		}
	}()
	r.res = s.run(w)
	r.end = sched.Now()
	*recs = append(*recs, r)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- tables

type tw = ip.Table_[int]
type tspec = spec[tw]

// codeOf reads a table back; -1 if it is not one of the universe's states.
func (u *tuni) codeOf(t ip.Table[int]) int {
	code, n := 0, 0
	bad := false
	last := -1
	t.Walk(func(p ip.Prefix, v int) bool {
		i := u.index(normP(p))
		if i <= last || v < 1 || v > u.nv {
			bad = true
			return false
		}
		last = i
		code = u.with(code, i, v)
		n++
		return true
	})
	if bad || t.NumEntries() != int64(n) {
		return -1
	}
	for i := range u.keys {
		v, ok := t.Get(u.args[i][0])
		if d := u.digit(code, i); ok != (d != 0) || v != d {
			return -1
		}
	}
	return code
}

func (u *tuni) mod(op, i, v int) tspec {
	k, arg := u.keys[i], u.args[i][0]
	s := tspec{name: u.opStr(op, i, v), mod: true}
	switch op {
	case 0:
		s.run = func(w *world[tw]) int { return b2i(w.obj.Insert(arg, v)) }
		s.model = func(c int) (int, int) {
			if u.digit(c, i) != 0 {
				return c, 0
			}
			return u.with(c, i, v), 1
		}
	case 1:
		s.run = func(w *world[tw]) int { return b2i(w.obj.Update(arg, v)) }
		s.model = func(c int) (int, int) {
			if u.digit(c, i) == 0 {
				return c, 0
			}
			return u.with(c, i, v), 1
		}
	case 2:
		s.run = func(w *world[tw]) int { w.obj.InsertOrUpdate(arg, v); return 0 }
		s.model = func(c int) (int, int) { return u.with(c, i, v), 0 }
	case 3:
		s.run = func(w *world[tw]) int { return w.obj.GetOrInsert(arg, v) }
		s.model = func(c int) (int, int) {
			if d := u.digit(c, i); d != 0 {
				return c, d
			}
			return u.with(c, i, v), v
		}
	case 4:
		s.run = func(w *world[tw]) int { return b2i(w.obj.Remove(arg)) }
		s.model = func(c int) (int, int) { return u.with(c, i, 0), b2i(u.digit(c, i) != 0) }
	}
	_ = k
	return s
}

func (u *tuni) reads() []tspec {
	var out []tspec
	for i := range u.keys {
		i, arg := i, u.args[i][0]
		out = append(out, tspec{
			name:  "Get(" + u.keys[i].Str(W) + ")",
			run:   func(w *world[tw]) int { v, ok := w.obj.Get(arg); return 10*v + b2i(ok) },
			model: func(c int) (int, int) { d := u.digit(c, i); return c, 10*d + b2i(d != 0) },
		})
	}
	last := ref.P{A: u.keys[len(u.keys)-1].Last(W), Len: W}
	for _, q := range []ref.P{{A: u.keys[0].First(W), Len: W}, last} {
		q := q
		within := u.containing(q)
		out = append(out, tspec{
			name: "LongestMatch(" + q.Str(W) + ")",
			run: func(w *world[tw]) int {
				v, ok, p := w.obj.LongestMatch(mkA(q.A))
				if !ok {
					return 10 * v
				}
				return 1000*(1+u.index(normP(p))) + 10*v + 1
			},
			model: func(c int) (int, int) {
				for _, j := range within {
					if d := u.digit(c, j); d != 0 {
						return c, 1000*(1+j) + 10*d + 1
					}
				}
				return c, 0
			},
		})
	}
	out = append(out, tspec{
		name:  "NumEntries",
		run:   func(w *world[tw]) int { return int(w.obj.NumEntries()) },
		model: func(c int) (int, int) { return c, int(u.size(c)) },
	})
	return append(out, u.snapshot())
}

// snapshot takes a snapshot, reads it in pieces, and again after the end.
func (u *tuni) snapshot() tspec {
	return tspec{
		name: "Table",
		run: func(w *world[tw]) int {
			t := w.obj.Table()
			code := u.codeOf(t)
			w.later = append(w.later, func() string {
				if again := u.codeOf(t); again != code {
					return fmt.Sprintf("a snapshot read as %d and in the end as %d", code, again)
				}
				return ""
			})
			return code
		},
		model: func(c int) (int, int) { return c, c },
	}
}

func concTuni(off int) *tuni {
	return newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 1, pattern(patAlt)), 2, false)
}

// tableStates: empty, one entry, both children (with a joining node), all.
func (u *tuni) someStates() []int {
	return []int{0, u.with(0, 0, 1), u.with(0, 1, 1), u.with(u.with(0, 1, 1), 2, 2), u.with(u.with(u.with(0, 0, 2), 1, 1), 2, 2)}
}

func (u *tuni) mods() []tspec {
	var out []tspec
	u.eachOp(func(op, i, v int) {
		if v == 1+(op+i)%2 || op == 4 {
			out = append(out, u.mod(op, i, v))
		}
	})
	return out
}

func names[T any](p []spec[T]) string {
	var s []string
	for _, x := range p {
		s = append(s, x.name)
	}
	return strings.Join(s, "; ")
}

func (u *tuni) explore(c *rt.Ctx, bound, state int, progs ...[]tspec) {
	// made in different ways, in turn
	u.turn++
	mk := u.makers()[(u.turn+u.turn/5+u.turn/77)%3]
	c.Case(func() {
		scenario(c, bound, func() string {
			s := u.str(state)
			for _, p := range progs {
				s += " || " + names(p)
			}
			return s
		}, state, func() tw { return mk.make(state) }, progs, func(t tw) int { return u.codeOf(t.Table()) })
	})
	c.Sample(func() string {
		s := u.str(state)
		for _, p := range progs {
			s += " || " + names(p)
		}
		return s
	})
}

func bounds(c *rt.Ctx, quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// deeper is the bound for pairs of single calls: 3 for the first universe of the
// thorough tier.
func deeper(c *rt.Ctx, n int) int {
	if c.Thorough && n == 0 {
		return 3
	}
	return 2
}

func concOffs(c *rt.Ctx) []int {
	if c.Thorough {
		return []int{W/2 - 1, 0, W - 1}
	}
	return []int{W/2 - 1}
}

func c20Table(c *rt.Ctx) {
	for n, off := range concOffs(c) {
		u := concTuni(off)
		ms := u.mods()
		for _, s := range u.someStates() {
			for i, a := range ms {
				for _, b := range ms[i:] {
					u.explore(c, deeper(c, n), s, []tspec{a}, []tspec{b})
				}
			}
		}
	}
}

// someMods: one of each kind, on keys that collide.
func (u *tuni) someMods() []tspec {
	return []tspec{u.mod(0, 1, 1), u.mod(4, 1, 1), u.mod(2, 0, 2), u.mod(3, 2, 1), u.mod(1, 0, 1), u.mod(4, 0, 1), u.mod(2, 1, 2)}
}

func c20TableLong(c *rt.Ctx) {
	u := concTuni(W/2 - 1)
	ms := u.someMods()
	if !c.Thorough {
		ms = ms[:4]
	}
	for _, s := range []int{0, u.with(0, 1, 1), u.with(u.with(0, 0, 1), 2, 1)} {
		for i := 0; i < len(ms)*len(ms); i++ {
			for j := i; j < len(ms)*len(ms); j++ {
				u.explore(c, bounds(c, 2, 2), s,
					[]tspec{ms[i/len(ms)], ms[i%len(ms)]}, []tspec{ms[j/len(ms)], ms[j%len(ms)]})
			}
		}
	}
	// the empty root may be the same before and after: two short calls against
	// one, with one more preemption
	for _, s := range []int{0, u.with(0, 1, 1)} {
		for _, k := range []int{0, 1} {
			add, del := u.mod(2, k, 2), u.mod(4, k, 1)
			for _, a := range [][]tspec{{add, del}, {del, add}, {del, u.mod(0, k, 1)}} {
				for _, b := range ms {
					u.explore(c, bounds(c, 2, 2), s, a, []tspec{b})
				}
			}
		}
	}
}

func c20Table3(c *rt.Ctx) {
	u := concTuni(W/2 - 1)
	ms := u.someMods()
	if !c.Thorough {
		ms = ms[:5]
	}
	for _, s := range []int{0, u.with(0, 1, 1)} {
		for i, a := range ms {
			for j, b := range ms[i:] {
				for _, d := range ms[i+j:] {
					u.explore(c, bounds(c, 2, 2), s, []tspec{a}, []tspec{b}, []tspec{d})
				}
			}
		}
	}
}

func c19Table(c *rt.Ctx) {
	for n, off := range concOffs(c) {
		u := concTuni(off)
		for _, s := range u.someStates() {
			for _, a := range u.mods() {
				for _, r := range u.reads() {
					u.explore(c, deeper(c, n), s, []tspec{a}, []tspec{r})
				}
			}
		}
	}
	u := concTuni(W/2 - 1)
	ms, rs := u.someMods(), u.reads()
	for _, s := range []int{0, u.with(u.with(0, 0, 1), 2, 1)} {
		for i := range ms {
			for j := range ms {
				for _, r := range rs {
					for _, q := range rs {
						if !c.Thorough && (i*len(ms)+j)%3 != 0 {
							continue
						}
						u.explore(c, bounds(c, 2, 2), s, []tspec{ms[i], ms[j]}, []tspec{r, q})
					}
				}
			}
		}
	}
}

func c19Table2(c *rt.Ctx) {
	u := concTuni(W/2 - 1)
	ms, rs := u.someMods(), u.reads()
	for _, s := range []int{u.with(0, 1, 1), u.with(u.with(0, 0, 1), 2, 1)} {
		for _, a := range ms {
			for i, r := range rs {
				for _, q := range rs[i:] {
					u.explore(c, bounds(c, 1, 2), s, []tspec{a}, []tspec{r}, []tspec{q})
				}
			}
		}
	}
}

// c19Snapshots: a deeper table, a longer writer, snapshots in between.
func c19Snapshots(c *rt.Ctx) {
	u := newTuni("deeper tree", treeKeys(W/2-2, 2, pattern(patAlt2)), 2, false)
	full := 0
	for i := range u.keys {
		full = u.with(full, i, 1)
	}
	for _, s := range []int{0, full} {
		for i := range u.keys {
			for op := 0; op < nOps; op++ {
				j := (i + 3) % len(u.keys)
				w := []tspec{u.mod(op, i, 2), u.mod(4, j, 1), u.mod(2, j, 2)}
				u.explore(c, bounds(c, 1, 2), s, w, []tspec{u.snapshot(), u.snapshot()})
			}
		}
	}
}

// ---- sets

type sw = ip.Set_
type sspec = spec[sw]

func (u *uni) maskOf(s ip.Set) int {
	m := 0
	for i, a := range u.atoms {
		if s.Contains(mkP(a)) {
			m |= 1 << uint(i)
		}
	}
	if !sameSet(s, u.want[m]) {
		return -1
	}
	return m
}

func (u *uni) smods() []sspec {
	var out []sspec
	for _, x := range []int{1, 2, 3, 5, 14, 15, 0} {
		x := x
		arg := ip.SetI(u.sets[x])
		switch x {
		case 1, 2:
			arg = mkP(u.want[x][0])
		case 3:
			arg = mkR(u.want[x][0].Iv(W))
		case 14:
			arg = u.sets[x].Set_()
		case 0:
			arg = nil
		}
		out = append(out,
			sspec{"Insert(" + str(u.want[x]) + ")", true, func(m int) (int, int) { return m | x, 0 },
				func(w *world[sw]) int { w.obj.Insert(arg); return 0 }},
			sspec{"Remove(" + str(u.want[x]) + ")", true, func(m int) (int, int) { return m &^ x, 0 },
				func(w *world[sw]) int { w.obj.Remove(arg); return 0 }})
	}
	return out
}

func (u *uni) sreads() []sspec {
	var out []sspec
	add := func(name string, model func(m int) int, run func(s sw) int) {
		out = append(out, sspec{name, false, func(m int) (int, int) { return m, model(m) },
			func(w *world[sw]) int { return run(w.obj) }})
	}
	out = append(out, sspec{"Set", false, func(m int) (int, int) { return m, m }, func(w *world[sw]) int {
		s := w.obj.Set()
		m := u.maskOf(s)
		w.later = append(w.later, func() string {
			if again := u.maskOf(s); again != m {
				return fmt.Sprintf("a snapshot read as %d and in the end as %d", m, again)
			}
			return ""
		})
		return m
	}})
	add("IsEmpty", func(m int) int { return b2i(m == 0) }, func(s sw) int { return b2i(s.IsEmpty()) })
	if _, ok := setmCount(u.sets[3].Set_()); ok {
		add("NumAddresses", func(m int) int { return int(u.ref[m].Count().Int64()) }, func(s sw) int {
			n, _ := setmCount(s)
			return int(n.Int64())
		})
	}
	x := 6
	X := u.sets[x]
	add("Contains(X)", func(m int) int { return b2i(x&^m == 0) }, func(s sw) int { return b2i(s.Contains(X)) })
	add("Equal(3)", func(m int) int { return b2i(m == 3) }, func(s sw) int { return b2i(s.Equal(u.sets[3].Set_())) })
	add("Union(X)", func(m int) int { return m | x }, func(s sw) int { return u.maskOf(s.Union(X)) })
	add("Intersection(X)", func(m int) int { return m & x }, func(s sw) int { return u.maskOf(s.Intersection(X)) })
	add("Difference(X)", func(m int) int { return m &^ x }, func(s sw) int { return u.maskOf(s.Difference(X)) })
	add("X.Union(it)", func(m int) int { return m | x }, func(s sw) int { return u.maskOf(X.Union(s)) })
	add("X.Intersection(it)", func(m int) int { return m & x }, func(s sw) int { return u.maskOf(X.Intersection(s)) })
	add("X.Difference(it)", func(m int) int { return x &^ m }, func(s sw) int { return u.maskOf(X.Difference(s)) })
	add("X.Contains(it)", func(m int) int { return b2i(m&^x == 0) }, func(s sw) int { return b2i(X.Contains(s)) })
	add("X_.Insert(it)", func(m int) int { return m | x }, func(s sw) int {
		y := X.Set_()
		y.Insert(s)
		return u.maskOf(y.Set())
	})
	add("X_.Remove(it)", func(m int) int { return x &^ m }, func(s sw) int {
		y := X.Set_()
		y.Remove(s)
		return u.maskOf(y.Set())
	})
	add("X_.Equal(it)", func(m int) int { return b2i(m == x) }, func(s sw) int { return b2i(X.Set_().Equal(s)) })
	add("space.FindAvailablePrefix(it)", func(m int) int {
		for i := range u.atoms {
			if x&^m>>uint(i)&1 == 1 {
				return 1
			}
		}
		return 0
	}, func(s sw) int {
		_, err := X.FindAvailablePrefix(s, uint32(u.atoms[0].Len))
		return b2i(err == nil)
	})
	return out
}

func concUni(off int) *uni {
	u := newUni(off, 2, pattern(patAlt))
	u.prepare()
	return u
}

func (u *uni) explore(c *rt.Ctx, bound, m int, progs ...[]sspec) {
	name := func() string {
		s := str(u.want[m])
		for _, p := range progs {
			s += " || " + names(p)
		}
		return s
	}
	u.turn++
	mk := u.makers()[(u.turn+u.turn/5+u.turn/77)%2]
	c.Case(func() {
		scenario(c, bound, name, m, func() sw { return mk.make(m) }, progs, func(s sw) int { return u.maskOf(s.Set()) })
	})
	c.Sample(name)
}

func c20Set(c *rt.Ctx) {
	for n, off := range concOffs(c) {
		if off+2 > W {
			off--
		}
		u := concUni(off)
		ms := u.smods()
		for _, s := range []int{0, 1, 3, 6, 15} {
			for i, a := range ms {
				for _, b := range ms[i:] {
					u.explore(c, deeper(c, n), s, []sspec{a}, []sspec{b})
				}
			}
		}
	}
}

func c20SetLong(c *rt.Ctx) {
	u := concUni(W/2 - 1)
	all := u.smods()
	ms := []sspec{all[0], all[1], all[6], all[9], all[11], all[12]} // +1 -1 +5 -14 -15 +nil
	if !c.Thorough {
		ms = ms[:4]
	}
	for _, s := range []int{0, 1, 13} {
		for i := 0; i < len(ms)*len(ms); i++ {
			for j := i; j < len(ms)*len(ms); j++ {
				u.explore(c, bounds(c, 2, 2), s,
					[]sspec{ms[i/len(ms)], ms[i%len(ms)]}, []sspec{ms[j/len(ms)], ms[j%len(ms)]})
			}
		}
	}
	for _, s := range []int{0, 1} {
		for _, a := range [][]sspec{{all[0], all[1]}, {all[1], all[0]}, {all[10], all[11]}, {all[11], all[2]}} {
			for _, b := range all {
				u.explore(c, bounds(c, 2, 2), s, a, []sspec{b})
			}
		}
	}
}

func c20Set3(c *rt.Ctx) {
	u := concUni(W/2 - 1)
	all := u.smods()
	ms := []sspec{all[0], all[1], all[6], all[9], all[11], all[4]}
	if !c.Thorough {
		ms = ms[:5]
	}
	for _, s := range []int{0, 6} {
		for i, a := range ms {
			for j, b := range ms[i:] {
				for _, d := range ms[i+j:] {
					u.explore(c, bounds(c, 2, 2), s, []sspec{a}, []sspec{b}, []sspec{d})
				}
			}
		}
	}
}

func c19Set(c *rt.Ctx) {
	for n, off := range concOffs(c) {
		if off+2 > W {
			off--
		}
		u := concUni(off)
		for _, s := range []int{0, 3, 6, 15} {
			for _, a := range u.smods() {
				for _, r := range u.sreads() {
					u.explore(c, deeper(c, n), s, []sspec{a}, []sspec{r})
				}
			}
		}
	}
}

func c19Set2(c *rt.Ctx) {
	u := concUni(W/2 - 1)
	all := u.smods()
	rs := u.sreads()
	if !c.Thorough {
		rs = append(rs[:4:4], rs[5])
	}
	for _, s := range []int{3, 6} {
		for _, a := range [][]sspec{{all[0], all[5]}, {all[11], all[2]}, {all[8]}, {all[7]}} {
			for i, r := range rs {
				for _, q := range rs[i:] {
					u.explore(c, bounds(c, 1, 2), s, a, []sspec{r}, []sspec{q})
				}
			}
		}
	}
}

// ---- independent use

type use struct {
	name string
	f    func() string
}

// c19Independent: two threads use the same immutable values, and mutables of
// their own made from them. Each must see what it sees alone.
func c19Independent(c *rt.Ctx) {
	u := newTuni("tree", treeKeys(W/2-1, 1, pattern(patAlt)), 2, false)
	su := concUni(W/2 - 1)
	// every table and every set
	for state := 0; state < u.n; state++ {
		for m := 0; m < 16; m++ {
			if state%16 != m && state != 0 {
				continue
			}
			var T ip.Table[int]
			var S ip.Set
			uses := []use{
				{"Table.Walk", func() string { return tableShow(T) }},
				{"Table.Get", func() string {
					v, ok := T.Get(u.args[1][0])
					x, y, z := T.LongestMatch(u.args[2][0])
					return fmt.Sprint(v, ok, x, y, z, T.NumEntries())
				}},
				{"Table.Aggregate", func() string { return tableShow(T.Aggregate()) }},
				{"Table.Map", func() string { return tableShow(T.Map(func(p ip.Prefix, v int) int { return 3 - v })) }},
				{"Table.Diff", func() string {
					o := T.Table_()
					o.InsertOrUpdate(u.args[1][0], 2)
					var b strings.Builder
					T.Diff(o.Table(), func(p ip.Prefix, l, r int) bool { fmt.Fprint(&b, p, l, r); return true },
						func(p ip.Prefix, v int) bool { fmt.Fprint(&b, "-", p, v); return true },
						func(p ip.Prefix, v int) bool { fmt.Fprint(&b, "+", p, v); return true }, nil)
					return b.String()
				}},
				{"Table_ changes", func() string {
					o := T.Table_()
					o.Remove(u.args[1][0])
					o.InsertOrUpdate(u.args[0][0], 1)
					o.GetOrInsert(u.args[2][0], 1)
					return tableShow(o.Table()) + tableShow(T)
				}},
				{"Table.Build", func() string {
					return tableShow(T.Build(func(b ip.Table_[int]) bool { b.Remove(u.args[2][0]); return b.Update(u.args[1][0], 2) }))
				}},
				{"Set.String", func() string { return S.String() }},
				{"Set queries", func() string {
					n, err := S.NumPrefixes(uint32(W))
					p, err2 := S.FindAvailablePrefix(nil, uint32(W))
					return fmt.Sprint(n, err, p, err2, S.Contains(su.sets[2]), S.Equal(su.sets[m]), S.IsEmpty())
				}},
				{"Set algebra", func() string {
					return S.Union(su.sets[1]).String() + S.Intersection(su.sets[3]).String() + S.Difference(su.sets[2]).String()
				}},
				{"Set_ changes", func() string {
					o := S.Set_()
					o.Insert(su.sets[8])
					o.Remove(su.sets[2])
					return o.Set().String() + S.String()
				}},
				{"Set.WalkRanges", func() string {
					var b strings.Builder
					S.WalkRanges(func(r ip.Range) bool { b.WriteString(r.String()); return true })
					return b.String()
				}},
				{"values", func() string {
					p, _ := ip.PrefixFromString(u.keys[1].Str(W))
					a, _ := ip.AddressFromString(u.keys[1].A.Str(W))
					x, y := p.Halves()
					return fmt.Sprint(p, a, x, y, p.Range(), p.Set(), a.Prefix(), p.Mask(), p.Network())
				}},
			}
			for i := range uses {
				for j := i; j < len(uses); j++ {
					ti, tj := strings.HasPrefix(uses[i].name, "Table"), strings.HasPrefix(uses[j].name, "Table")
					switch {
					case ti && tj && state%16 != m:
						continue // the set makes no difference
					case !ti && !tj && state != 0:
						continue // the table makes no difference
					case ti != tj && state%16 != m:
						continue
					}
					two := []use{uses[i], uses[j]}
					state, m := state, m
					c.Case(func() {
						var got [2]string
						// what each saw, and the first schedule in which it did. What it
						// sees alone is found out in the end, lest that does something
						// for the first time here.
						saw := [2]map[string][]int{{}, {}}
						races := sched.Races()
						points := sched.Points()
						st := sched.Explore(bounds(c, 1, 2), func() []func() {
							T, S = u.table(state), setOf(su.want[m])
							var fs []func()
							for k := range two {
								k := k
								got[k] = ""
								fs = append(fs, func() {
									defer func() {
										if x := recover(); x != nil {
											if sched.IsAbort(x) {
												panic(x)
											}
											got[k] = fmt.Sprintf("panic: %v", x)
										}
									}()
									got[k] = two[k].f()
								})
							}
							return fs
						}, func(problem string) bool {
							fail := func(why string) {
								c.Failf("%s and %s at the same time on %s and %s: %s (schedule %v)", two[0].name, two[1].name, u.str(state), str(su.want[m]), why, sched.Schedule())
							}
							if problem != "" {
								fail(problem)
							}
							if sched.Races() != races {
								fail("data race (the race detector's report is in the log)")
							}
							for k := range two {
								if _, ok := saw[k][got[k]]; !ok {
									saw[k][got[k]] = sched.Schedule()
								}
							}
							c.Traces++
							return true
						})
						if st.Truncated {
							c.Cap("a schedule had more choices than can be recorded")
						}
						T, S = u.table(state), setOf(su.want[m])
						for k := range two {
							want := two[k].f()
							for got, schedule := range saw[k] {
								if got != want {
									c.Failf("%s and %s at the same time on %s and %s: %s gives %s, alone %s (schedule %v)",
										two[0].name, two[1].name, u.str(state), str(su.want[m]), two[k].name, got, want, schedule)
								}
							}
						}
						c.States++
						c.Trans += sched.Points() - points
					})
				}
			}
		}
	}
}
