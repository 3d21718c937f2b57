package fam

import (
	"fmt"
	"strings"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// Questions asked again: an answer must not depend on what was asked before, and
// must change when the contents do. The other tasks ask freshly made objects;
// here, sequences of questions and modifications go to one object, and every
// answer is compared with that of a fresh object of the same contents.

func regAgain() {
	reg("C09", "questions again after modifications", func(c *rt.Ctx) { againTables(c, qExact) })
	reg("C10", "questions again after modifications", func(c *rt.Ctx) { againTables(c, qLongest) })
	reg("C11", "questions again after modifications", func(c *rt.Ctx) { againTables(c, qWalk) })
	reg("C12", "questions again after modifications", func(c *rt.Ctx) { againTables(c, qDiff) })
	reg("C14", "questions again after modifications", func(c *rt.Ctx) { againTables(c, qAggregateLongest) })
	reg("C15", "questions again after modifications", func(c *rt.Ctx) { againTables(c, qAggregate) })
	reg("C16", "questions again after modifications", func(c *rt.Ctx) { againTables(c, qMap) })

	reg("C01", "questions again after modifications", func(c *rt.Ctx) { againSets(c, qAlgebra) })
	reg("C02", "questions again after modifications", func(c *rt.Ctx) { againSets(c, qEqual) })
	reg("C03", "questions again after modifications", func(c *rt.Ctx) { againSets(c, qMembers) })
	reg("C04", "questions again after modifications", func(c *rt.Ctx) { againSets(c, qCounts) })
	reg("C05", "questions again after modifications", func(c *rt.Ctx) { againSets(c, qContains) })
	reg("C08", "questions again after modifications", func(c *rt.Ctx) { againSets(c, qAvailable) })
}

type query[T any] struct {
	name string
	f    func(T) string
}

type maker[T any] struct {
	name string
	make func(state int) T
}

type asker[T any] struct {
	states []int
	str    func(int) string
	makers []maker[T]
	qs     []query[T]
	mods   []spec[T]
	fresh  map[int][]string
}

// answers of a fresh object with the contents of the state
func (a *asker[T]) answers(s int) []string {
	if r, ok := a.fresh[s]; ok {
		return r
	}
	if a.fresh == nil {
		a.fresh = map[int][]string{}
	}
	var r []string
	for _, q := range a.qs {
		r = append(r, q.f(a.makers[0].make(s)))
	}
	a.fresh[s] = r
	return r
}

// run executes a path: numbers below len(qs) are questions, the others
// modifications.
func (a *asker[T]) run(c *rt.Ctx, state int, mk maker[T], path ...int) {
	w := &world[T]{obj: mk.make(state)}
	s := state
	nq := len(a.qs)
	show := func(n int) string {
		var b strings.Builder
		fmt.Fprintf(&b, "%s made by %s", a.str(state), mk.name)
		for _, x := range path[:n] {
			if x < nq {
				b.WriteString(", " + a.qs[x].name)
			} else {
				b.WriteString(", " + a.mods[x-nq].name)
			}
		}
		return b.String()
	}
	for n, x := range path {
		if x < nq {
			if got, want := a.qs[x].f(w.obj), a.answers(s)[x]; got != want {
				c.Failf("%s: %s gives %s, of a fresh object with the same contents %s (%s)", show(n), a.qs[x].name, got, want, a.str(s))
			}
			continue
		}
		m := &a.mods[x-nq]
		next, want := m.model(s)
		if got := m.run(w); got != want {
			c.Failf("%s: %s gives %d, want %d", show(n), m.name, got, want)
		}
		s = next
	}
	c.Trans += int64(len(path))
}

func (a *asker[T]) all(c *rt.Ctx) {
	nq, nm := len(a.qs), len(a.mods)
	for _, s := range a.states {
		for _, mk := range a.makers {
			for q := 0; q < nq; q++ {
				for m := nq; m < nq+nm; m++ {
					s, mk, q, m := s, mk, q, m
					c.Case(func() {
						for r := 0; r < nq; r++ {
							for k := nq; k < nq+nm; k++ {
								a.run(c, s, mk, q, m, k, r)
							}
							for k := 0; k < nq; k++ {
								a.run(c, s, mk, q, k, m, r)
								a.run(c, s, mk, q, m, k, r)
							}
						}
						c.States++
						c.Traces++
					})
				}
				// without modifications
				s, mk, q := s, mk, q
				c.Case(func() {
					for k := 0; k < nq; k++ {
						for r := 0; r < nq; r++ {
							a.run(c, s, mk, q, k, r)
						}
					}
				})
			}
		}
		c.Sample(func() string { return a.str(s) })
	}
}

// ---- tables

type tq = query[tw]

func qExact(u *tuni) []tq {
	out := []tq{
		{"NumEntries", func(t tw) string { return fmt.Sprint(t.NumEntries()) }},
		{"Table.NumEntries", func(t tw) string { return fmt.Sprint(t.Table().NumEntries()) }},
	}
	for i := range u.keys {
		i := i
		out = append(out,
			tq{"Get(" + u.keys[i].Str(W) + ")", func(t tw) string { v, ok := t.Get(u.args[i][0]); return fmt.Sprint(v, ok) }},
			tq{"Table.Get(" + u.keys[i].Str(W) + ") with host bits", func(t tw) string {
				v, ok := t.Table().Get(u.args[i][2])
				return fmt.Sprint(v, ok)
			}})
	}
	return out
}

func found(v int, ok bool, p ip.Prefix) string {
	if !ok {
		return "none"
	}
	return fmt.Sprint(v, " ", normP(p).Str(W))
}

func (u *tuni) longestKeys() []ip.PrefixI {
	k := u.keys[0]
	for i := range u.keys {
		if u.keys[i].Len < k.Len {
			k = u.keys[i]
		}
	}
	return []ip.PrefixI{
		mkA(k.First(W)), mkP(ref.P{A: k.First(W), Len: W}), mkA(k.Last(W)), mkA(k.First(W).Inc()), mkA(k.Last(W).Inc().And(ref.Max(W))),
		mkP(k), mkP(ref.P{A: k.Last(W), Len: (k.Len + W) / 2}), mkP(ref.P{}), nil,
	}
}

func qLongest(u *tuni) []tq {
	var out []tq
	for i, k := range u.longestKeys() {
		k := k
		out = append(out, tq{fmt.Sprintf("LongestMatch(%v)", k), func(t tw) string { return found(t.LongestMatch(k)) }})
		if i < 3 {
			out = append(out, tq{fmt.Sprintf("Table.LongestMatch(%v)", k), func(t tw) string { return found(t.Table().LongestMatch(k)) }})
		}
	}
	return out
}

func normWalk(t ip.Table[int], max int) string {
	var b strings.Builder
	n := 0
	done := t.Walk(func(p ip.Prefix, v int) bool {
		fmt.Fprintf(&b, "%s:%d ", normP(p).Str(W), v)
		n++
		return n != max
	})
	fmt.Fprint(&b, done)
	return b.String()
}

func qWalk(u *tuni) []tq {
	return []tq{
		{"Walk", func(t tw) string { return normWalk(t.Table(), -1) }},
		{"Walk, stopped at 1", func(t tw) string { return normWalk(t.Table(), 1) }},
		{"Walk, stopped at 2", func(t tw) string { return normWalk(t.Table(), 2) }},
		{"NumEntries", func(t tw) string { return fmt.Sprint(t.NumEntries()) }},
		{"Table.Table_.Walk", func(t tw) string { return normWalk(t.Table().Table_().Table(), -1) }},
	}
}

func diffText(a, b ip.Table[int], stop int) string {
	var s strings.Builder
	n := 0
	next := func() bool { n++; return n != stop }
	done := a.Diff(b,
		func(p ip.Prefix, l, r int) bool { fmt.Fprintf(&s, "!%s %d %d ", normP(p).Str(W), l, r); return next() },
		func(p ip.Prefix, v int) bool { fmt.Fprintf(&s, "-%s %d ", normP(p).Str(W), v); return next() },
		func(p ip.Prefix, v int) bool { fmt.Fprintf(&s, "+%s %d ", normP(p).Str(W), v); return next() },
		func(p ip.Prefix, v int) bool { fmt.Fprintf(&s, "=%s %d ", normP(p).Str(W), v); return next() })
	fmt.Fprint(&s, done)
	return s.String()
}

func qDiff(u *tuni) []tq {
	var out []tq
	for _, s := range []int{0, u.with(u.with(0, 0, 1), 2, 2), u.n - 1} {
		x := u.table(s)
		out = append(out,
			tq{"Diff with " + u.str(s), func(t tw) string { return diffText(t.Table(), x, -1) }},
			tq{"Diff from " + u.str(s), func(t tw) string { return diffText(x, t.Table(), -1) }})
	}
	x := u.table(u.with(0, 1, 1))
	return append(out, tq{"Diff stopped", func(t tw) string { return diffText(t.Table(), x, 1) }})
}

func qAggregate(u *tuni) []tq {
	return []tq{
		{"Aggregate", func(t tw) string { return normWalk(t.Table().Aggregate(), -1) }},
		{"Aggregate twice", func(t tw) string { return normWalk(t.Table().Aggregate().Aggregate(), -1) }},
		{"Aggregate.NumEntries", func(t tw) string { return fmt.Sprint(t.Table().Aggregate().NumEntries()) }},
		{"Map.Aggregate", func(t tw) string {
			return normWalk(t.Table().Map(func(ip.Prefix, int) int { return 1 }).Aggregate(), -1)
		}},
	}
}

func qAggregateLongest(u *tuni) []tq {
	var out []tq
	for _, k := range u.longestKeys()[:5] {
		k := k
		out = append(out, tq{fmt.Sprintf("Aggregate.LongestMatch(%v)", k), func(t tw) string {
			v, ok, _ := t.Table().Aggregate().LongestMatch(k)
			return fmt.Sprint(v, ok)
		}})
	}
	return out
}

func qMap(u *tuni) []tq {
	var out []tq
	for n, f := range []func(ip.Prefix, int) int{
		func(p ip.Prefix, v int) int { return v },
		func(p ip.Prefix, v int) int { return 3 - v },
		func(p ip.Prefix, v int) int { return p.Length() },
	} {
		f := f
		out = append(out, tq{fmt.Sprintf("Map(%d)", n), func(t tw) string { return normWalk(t.Table().Map(f), -1) }})
	}
	return out
}

func (u *tuni) makers() []maker[tw] {
	put := func(t tw, s int) tw {
		for i := range u.keys {
			if d := u.digit(s, i); d != 0 {
				t.InsertOrUpdate(u.stored[i], d)
			}
		}
		return t
	}
	return []maker[tw]{
		{"NewTable_", func(s int) tw { return put(ip.NewTable_[int](), s) }},
		{"Table_", func(s int) tw { return u.table(s).Table_() }},
		{"NewTableCustomCompare_", func(s int) tw {
			return put(ip.NewTableCustomCompare_(func(a, b int) bool { return a == b }), s)
		}},
		{"Build", func(s int) (t tw) {
			ip.Table[int]{}.Build(func(b tw) bool { t = put(b, s); return true })
			return t
		}},
	}
}

func againTables(c *rt.Ctx, qs func(u *tuni) []tq) {
	offs := []int{W/2 - 1, 0, W - 1}
	for n, off := range offs {
		u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 1, pattern(patAlt)), 2, false)
		a := &asker[tw]{str: u.str, makers: u.makers(), qs: qs(u)}
		for s := 0; s < u.n; s++ {
			a.states = append(a.states, s)
		}
		u.eachOp(func(op, i, v int) {
			if op != 3 || v == 1 {
				a.mods = append(a.mods, u.mod(op, i, v))
			}
		})
		if n > 0 && !c.Thorough {
			a.states = u.someStates()
			a.makers = a.makers[:2]
		}
		a.all(c)
	}
	// a larger table
	u := newTuni("larger tree", treeKeys(W/2-2, 2, pattern(patAlt2)), 2, false)
	a := &asker[tw]{str: u.str, makers: u.makers()[:1], qs: qs(u), states: []int{0, u.n - 1, u.with(u.with(0, 1, 1), 4, 2)}}
	if c.Thorough {
		a.makers = u.makers()
	}
	u.eachOp(func(op, i, v int) {
		if op == 2 || op == 4 || op == 0 && v == 1 {
			a.mods = append(a.mods, u.mod(op, i, v))
		}
	})
	a.all(c)
}

// ---- sets

type sq = query[sw]

func plain(s ip.Set) string { return str(walkSet(s)) }

// others: the sets that the object is combined with.
func (u *uni) others() []int { return []int{0, 6, 9, 15} }

func qMembers(u *uni) []sq {
	out := []sq{
		{"WalkPrefixes", func(s sw) string { return plain(s.Set()) }},
		{"IsEmpty", func(s sw) string { return fmt.Sprint(s.IsEmpty()) }},
		{"String", func(s sw) string { return s.Set().String() }},
	}
	for i := range u.atoms {
		a := mkA(u.atoms[i].First(W))
		out = append(out, sq{"Contains(" + a.String() + ")", func(s sw) string { return fmt.Sprint(s.Contains(a)) }})
	}
	for _, m := range u.others() {
		x := u.sets[m]
		out = append(out, sq{"Contains(" + str(u.want[m]) + ")", func(s sw) string { return fmt.Sprint(s.Contains(x)) }})
	}
	return out
}

func qAlgebra(u *uni) []sq {
	var out []sq
	for _, m := range u.others() {
		x, n := u.sets[m], str(u.want[m])
		out = append(out,
			sq{"Union(" + n + ")", func(s sw) string { return plain(s.Union(x)) }},
			sq{"Intersection(" + n + ")", func(s sw) string { return plain(s.Intersection(x)) }},
			sq{"Difference(" + n + ")", func(s sw) string { return plain(s.Difference(x)) }},
			sq{n + ".Union(it)", func(s sw) string { return plain(x.Union(s)) }},
			sq{n + ".Intersection(it)", func(s sw) string { return plain(x.Intersection(s)) }},
			sq{n + ".Difference(it)", func(s sw) string { return plain(x.Difference(s)) }})
		if m == 6 {
			out = append(out, sq{"Set.Union(" + n + ")", func(s sw) string { return plain(s.Set().Union(x)) }})
		}
	}
	return out
}

func qEqual(u *uni) []sq {
	var out []sq
	for _, m := range u.others() {
		x, n := u.sets[m], str(u.want[m])
		out = append(out,
			sq{"Equal(" + n + ")", func(s sw) string { return fmt.Sprint(s.Equal(x.Set_())) }},
			sq{"Set.Equal(" + n + ")", func(s sw) string { return fmt.Sprint(s.Set().Equal(x)) }},
			sq{n + ".Equal(Set)", func(s sw) string { return fmt.Sprint(x.Equal(s.Set())) }})
	}
	return append(out, sq{"WalkPrefixes", func(s sw) string { return plain(s.Set()) }})
}

func qCounts(u *uni) []sq {
	var out []sq
	for _, l := range []int{u.off, u.off + 1, u.off + u.k, W} {
		l := l
		out = append(out, sq{fmt.Sprintf("NumPrefixes(%d)", l), func(s sw) string { return fmt.Sprint(s.Set().NumPrefixes(uint32(l))) }})
	}
	if _, ok := setmCount(u.sets[1].Set_()); ok {
		out = append(out, sq{"NumAddresses", func(s sw) string { n, _ := setmCount(s); return n.String() }})
	}
	return append(out,
		sq{"WalkRanges", func(s sw) string {
			var b strings.Builder
			s.Set().WalkRanges(func(r ip.Range) bool { b.WriteString(r.String() + " "); return true })
			return b.String()
		}},
		sq{"WalkPrefixes", func(s sw) string { return plain(s.Set()) }})
}

func qContains(u *uni) []sq {
	var out []sq
	for _, m := range []int{1, 3, 6, 7, 14} {
		iv := ref.Iv{First: u.want[m][0].First(W), Last: u.want[m][len(u.want[m])-1].Last(W)}
		r, n := mkR(iv), mkR(iv).String()
		p := u.want[m][0]
		out = append(out,
			sq{"Contains(" + n + ")", func(s sw) string { return fmt.Sprint(s.Contains(r)) }},
			sq{n + ".Contains(it)", func(s sw) string { return fmt.Sprint(r.Contains(s)) }},
			sq{p.Str(W) + ".Contains(it)", func(s sw) string { return fmt.Sprint(mkP(p).Contains(s)) }})
	}
	return out
}

func qAvailable(u *uni) []sq {
	var out []sq
	n := u.off + u.k
	try := func(space ip.Set, reserved ip.SetI, l int) string {
		p, err := space.FindAvailablePrefix(reserved, uint32(l))
		if err != nil {
			return "none"
		}
		if !space.Contains(p) || reserved != nil && !p.Set().Intersection(reserved).IsEmpty() {
			return "unusable " + p.String()
		}
		return "some"
	}
	for _, m := range []int{15, 6} {
		x := u.sets[m]
		for _, l := range []int{n - 1, n} {
			l := l
			out = append(out,
				sq{fmt.Sprintf("%s.FindAvailablePrefix(it, %d)", str(u.want[m]), l), func(s sw) string { return try(x, s, l) }},
				sq{fmt.Sprintf("FindAvailablePrefix(%s, %d)", str(u.want[m&5]), l), func(s sw) string { return try(s.Set(), u.sets[m&5], l) }})
		}
	}
	return append(out, sq{fmt.Sprintf("FindAvailablePrefix(nil, %d)", n), func(s sw) string { return try(s.Set(), nil, n) }})
}

func againSets(c *rt.Ctx, qs func(u *uni) []sq) {
	offs := []int{W/2 - 1, 0, W - 2}
	for n, off := range offs {
		u := concUni(off)
		a := &asker[sw]{str: func(m int) string { return str(u.want[m]) }, qs: qs(u), makers: u.makers()}
		a.states = []int{0, 3, 6, 15, 13}
		if n == 0 {
			a.states = append(a.states, 1, 2, 5, 9, 14)
		} else {
			a.makers = a.makers[:2]
		}
		a.mods = u.smods()
		if n > 0 && !c.Thorough {
			a.states = a.states[:3]
			a.mods = a.mods[:10]
		}
		a.all(c)
	}
}

func (u *uni) makers() []maker[sw] {
	return []maker[sw]{
		{"NewSet_", func(m int) sw {
			s := ip.NewSet_()
			for _, p := range u.want[m] {
				s.Insert(mkP(p))
			}
			return s
		}},
		{"Set_", func(m int) sw { return setOf(u.want[m]).Set_() }},
		{"Set_ and removal", func(m int) sw {
			s := u.sets[15].Set_()
			for i := range u.atoms {
				if m>>uint(i)&1 == 0 {
					s.Remove(mkP(u.atoms[i]))
				}
			}
			return s
		}},
	}
}
