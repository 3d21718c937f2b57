package fam

import (
	"fmt"
	"strings"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// Exactly so many: structures of exactly 255, 256, 257, 65535, 65536, 65537 and
// more entries, and operations with exactly so many results, changes, pieces.

func regHuge() {
	for _, t := range []struct {
		prop string
		f    func(c *rt.Ctx, h *hugeTable, what string)
	}{
		{"C09", hugeExact}, {"C10", hugeLongest}, {"C11", hugeWalk}, {"C12", hugeDiff}, {"C14", hugeAggregateLongest},
		{"C15", hugeAggregate}, {"C16", hugeMap}, {"C18", hugeDetached},
	} {
		f := t.f
		reg(t.prop, "exactly so many entries", func(c *rt.Ctx) { hugeTables(c, f) })
	}
	for _, t := range []struct {
		prop string
		f    func(c *rt.Ctx, n int, what string)
	}{
		{"C01", hugeAlgebra}, {"C02", hugeEqual}, {"C03", hugeHistory}, {"C04", hugeCounts}, {"C08", hugeAvailable},
	} {
		f := t.f
		reg(t.prop, "exactly so many pieces", func(c *rt.Ctx) { hugeSets(c, f) })
	}
}

// the length of the blocks: one to four bytes of the address below the top vary,
// across the words of an IPv6 address.
func hugeLen() int {
	if W == 32 {
		return 24
	}
	return 72
}

func hugeBlock(i int) ref.P {
	l := hugeLen()
	var a ref.U
	for b := 0; b < 20; b++ {
		if i>>uint(b)&1 == 1 {
			a = a.Or(ref.BitAt(W, l-1-b))
		}
	}
	return ref.P{A: a.Or(ref.BitAt(W, 1)), Len: l}
}

func parentOf(p ref.P) ref.P { return ref.P{A: p.A, Len: p.Len - 1}.Norm(W) }

func hugeNumbers(c *rt.Ctx) []int {
	out := []int{255, 256, 257, 1<<16 - 1, 1 << 16, 1<<16 + 1}
	if c.Thorough {
		out = append(out, 127, 128, 129, 511, 512, 513, 1<<15-1, 1<<15, 1<<15+1, 1<<16-2, 1<<16+2, 1<<17-1, 1<<17, 1<<17+1)
	}
	return out
}

// hugeTable is a table with the keys in walk order.
type hugeTable struct {
	keys []ref.P
	val  map[ref.P]int
	t    ip.Table[int]
}

func hugeOf(keys []ref.P, val func(i int) int) *hugeTable {
	h := &hugeTable{keys: keys, val: map[ref.P]int{}}
	t := ip.NewTable_[int]()
	for i, k := range keys {
		h.val[k] = val(i)
		t.Insert(mkP(k), val(i))
	}
	h.t = t.Table()
	return h
}

func (h *hugeTable) lpm(q ref.P) (int, bool, ref.P) {
	for l := q.Len; l >= 0 && l > hugeLen()-2; l-- {
		p := ref.P{A: q.A, Len: l}.Norm(W)
		if v, ok := h.val[p]; ok {
			return v, true, p
		}
	}
	return 0, false, ref.P{}
}

func hugeKeys(n, kind int) ([]ref.P, string) {
	var keys []ref.P
	for i := 0; len(keys) < n; i++ {
		switch kind {
		case 0:
			keys = append(keys, hugeBlock(i))
		case 1:
			keys = append(keys, hugeBlock(2*i))
		default:
			// pairs of a prefix and its half, and some without it
			p := hugeBlock(2*i + i%2)
			if len(keys)+1 < n && i%3 != 0 {
				keys = append(keys, parentOf(p))
			}
			keys = append(keys, p)
		}
	}
	return keys, []string{"adjacent", "separate", "nested"}[kind]
}

func hugeTables(c *rt.Ctx, f func(c *rt.Ctx, h *hugeTable, what string)) {
	for _, n := range hugeNumbers(c) {
		for kind := 0; kind < 3; kind++ {
			n, kind := n, kind
			c.Case(func() {
				keys, name := hugeKeys(n, kind)
				f(c, hugeOf(keys, func(i int) int { return i }), fmt.Sprintf("%d %s entries", n, name))
				c.States++
				c.Traces++
				c.Trans += int64(n)
			})
		}
	}
	c.Sample(func() string { return "65536 nested entries" })
}

func hugeExact(c *rt.Ctx, h *hugeTable, what string) {
	n := len(h.keys)
	m := h.t.Table_()
	if got := m.NumEntries(); got != int64(n) {
		c.Failf("%s: NumEntries is %d", what, got)
	}
	get := func(add int) {
		for i, k := range h.keys {
			if v, ok := m.Get(mkP(k)); !ok || v != i+add {
				c.Failf("%s: Get of %s is %d, %v", what, k.Str(W), v, ok)
			}
		}
	}
	get(0)
	for i, k := range h.keys {
		if m.Insert(mkP(k), -1) {
			c.Failf("%s: Insert of entry %d, %s, succeeds", what, i, k.Str(W))
		}
		if v := m.GetOrInsert(mkP(k), -1); v != i {
			c.Failf("%s: GetOrInsert of entry %d, %s, gives %d", what, i, k.Str(W), v)
		}
		if !m.Update(mkP(k), i+7) {
			c.Failf("%s: Update of entry %d, %s, fails", what, i, k.Str(W))
		}
	}
	get(7)
	for i, k := range h.keys {
		if !m.Remove(mkP(k)) || m.Remove(mkP(k)) {
			c.Failf("%s: Remove of entry %d, %s", what, i, k.Str(W))
		}
		if got := m.NumEntries(); got != int64(n-i-1) {
			c.Failf("%s: NumEntries is %d after %d were removed", what, got, i+1)
		}
	}
}

func hugeLongest(c *rt.Ctx, h *hugeTable, what string) {
	for _, k := range h.keys {
		for _, q := range []ref.P{{A: k.Last(W), Len: W}, {A: k.A, Len: k.Len}, {A: parentOf(k).Last(W), Len: W}, parentOf(k)} {
			wv, wok, wp := h.lpm(q)
			v, ok, p := h.t.LongestMatch(mkP(q))
			if ok != wok || ok && (v != wv || normP(p) != wp) {
				c.Failf("%s: LongestMatch of %s gives %d, %v, %v, want %d, %v, %s", what, q.Str(W), v, ok, p, wv, wok, wp.Str(W))
			}
		}
	}
}

func (h *hugeTable) is(c *rt.Ctx, t ip.Table[int], add int, what string) {
	i := 0
	done := t.Walk(func(p ip.Prefix, v int) bool {
		if i >= len(h.keys) || normP(p) != h.keys[i] || v != h.val[h.keys[i]]+add {
			c.Failf("%s: entry %d is %v: %d", what, i, p, v)
		}
		i++
		return true
	})
	if i != len(h.keys) || !done || t.NumEntries() != int64(i) {
		c.Failf("%s: %d entries are walked, %v, of %d, NumEntries is %d", what, i, done, len(h.keys), t.NumEntries())
	}
}

func hugeWalk(c *rt.Ctx, h *hugeTable, what string) {
	h.is(c, h.t, 0, what+", walked")
	for _, stop := range []int{1, len(h.keys) / 2, len(h.keys) - 1, len(h.keys)} {
		i := 0
		if h.t.Walk(func(ip.Prefix, int) bool { i++; return i < stop }) || i != stop {
			c.Failf("%s: a walk stopped by call %d makes %d", what, stop, i)
		}
	}
}

func hugeDiff(c *rt.Ctx, h *hugeTable, what string) {
	n := len(h.keys)
	const changed, left, right, same = 0, 1, 2, 3
	run := func(a, b ip.Table[int], want [4]int, name string) {
		var got [4]int
		i := 0
		ev := func(kind int, p ip.Prefix, l, r int) bool {
			if i >= n || normP(p) != h.keys[i] {
				c.Failf("%s, %s: call %d is for %v", what, name, i, p)
			}
			k := h.val[h.keys[i]]
			if kind == changed && (l != k || r != k+1) || kind != changed && l != k {
				c.Failf("%s, %s: values %d, %d given for %v", what, name, l, r, p)
			}
			got[kind]++
			i++
			return true
		}
		done := a.Diff(b, func(p ip.Prefix, l, r int) bool { return ev(changed, p, l, r) },
			func(p ip.Prefix, l int) bool { return ev(left, p, l, 0) },
			func(p ip.Prefix, r int) bool { return ev(right, p, r, 0) },
			func(p ip.Prefix, v int) bool { return ev(same, p, v, 0) })
		if got != want || !done {
			c.Failf("%s, %s: calls for changed, left, right, unchanged %v (completed: %v), want %v", what, name, got, done, want)
		}
	}
	more := hugeOf(h.keys, func(i int) int { return i + 1 })
	again := hugeOf(h.keys, func(i int) int { return i })
	run(h.t, more.t, [4]int{n, 0, 0, 0}, "all changed")
	run(h.t, ip.Table[int]{}, [4]int{0, n, 0, 0}, "with nothing")
	run(ip.Table[int]{}, h.t, [4]int{0, 0, n, 0}, "of nothing")
	run(h.t, again.t, [4]int{0, 0, 0, n}, "with an equal one")
	run(h.t, h.t, [4]int{0, 0, 0, n}, "with itself")
	half := h.t.Build(func(m ip.Table_[int]) bool {
		for i, k := range h.keys {
			if i%2 == 1 {
				m.Remove(mkP(k))
			}
		}
		return true
	})
	run(h.t, half, [4]int{0, n / 2, 0, n - n/2}, "with half of it")
	run(half, h.t, [4]int{0, 0, n / 2, n - n/2}, "of half of it")
}

func hugeAggregates(h *hugeTable, f func(t ip.Table[int], val func(p ref.P) int, name string)) {
	for k, v := range []func(i int) int{
		func(i int) int { return i },
		func(i int) int { return 0 },
		func(i int) int { return i / 2 },
		func(i int) int { return i % 3 / 2 },
	} {
		g := hugeOf(h.keys, v)
		f(g.t.Aggregate(), func(p ref.P) int {
			r, ok, _ := g.lpm(p)
			if !ok {
				return -1
			}
			return r
		}, fmt.Sprintf("aggregated, values %d", k))
	}
}

func hugeAggregateLongest(c *rt.Ctx, h *hugeTable, what string) {
	hugeAggregates(h, func(t ip.Table[int], val func(p ref.P) int, name string) {
		for _, k := range h.keys {
			for _, a := range []ref.U{k.First(W), k.Last(W), parentOf(k).First(W), parentOf(k).Last(W)} {
				v, ok, _ := t.LongestMatch(mkA(a))
				if !ok {
					v = -1
				}
				if w := val(ref.P{A: a, Len: W}); w != v {
					c.Failf("%s, %s: LongestMatch of %s gives %d, want %d", what, name, a.Str(W), v, w)
				}
			}
		}
	})
}

func hugeAggregate(c *rt.Ctx, h *hugeTable, what string) {
	hugeAggregates(h, func(t ip.Table[int], val func(p ref.P) int, name string) {
		n := 0
		var stack []ref.P
		vals := map[ref.P]int{}
		t.Walk(func(p ip.Prefix, v int) bool {
			q := normP(p)
			for len(stack) > 0 && !stack[len(stack)-1].Contains(W, q) {
				stack = stack[:len(stack)-1]
			}
			if len(stack) > 0 && vals[stack[len(stack)-1]] == v {
				c.Failf("%s, %s: %v: %d is inside %s of the same value", what, name, p, v, stack[len(stack)-1].Str(W))
			}
			if q.Len > 0 {
				if w, ok := vals[ref.P{A: q.A.Xor(ref.BitAt(W, q.Len-1)), Len: q.Len}]; ok && w == v {
					c.Failf("%s, %s: %v: %d is beside the other half of the same value", what, name, p, v)
				}
			}
			stack = append(stack, q)
			vals[q] = v
			n++
			return true
		})
		if n > len(h.keys) || t.NumEntries() != int64(n) {
			c.Failf("%s, %s: %d entries, NumEntries %d", what, name, n, t.NumEntries())
		}
	})
}

func hugeMap(c *rt.Ctx, h *hugeTable, what string) {
	n := len(h.keys)
	i := 0
	r := h.t.Map(func(p ip.Prefix, v int) int {
		if i >= n || normP(p) != h.keys[i] || v != i {
			c.Failf("%s: call %d of the mapper is for %v: %d", what, i, p, v)
		}
		i++
		return v + 1
	})
	if i != n {
		c.Failf("%s: %d calls of the mapper", what, i)
	}
	h.is(c, r, 1, what+", mapped")
	h.is(c, h.t, 0, what+", after Map")
	h.is(c, h.t.Map(func(p ip.Prefix, v int) int { return v }), 0, what+", mapped to the same")
	// exactly k changed
	for _, k := range []int{1, 255, 256, 257, 1<<16 - 1, 1 << 16} {
		if k > n {
			break
		}
		i = 0
		r := h.t.Map(func(p ip.Prefix, v int) int {
			if v < k {
				return -v - 1
			}
			return v
		})
		r.Walk(func(p ip.Prefix, v int) bool {
			if i < k && v != -i-1 || i >= k && v != i {
				c.Failf("%s: Map that changes the first %d: entry %d, %v, is %d", what, k, i, p, v)
			}
			i++
			return true
		})
	}
}

func hugeDetached(c *rt.Ctx, h *hugeTable, what string) {
	n := len(h.keys)
	m, m2 := h.t.Table_(), h.t.Table_()
	var at []int
	var snaps []ip.Table[int]
	for i, k := range h.keys {
		if i%(n/7) == 0 || i == 256 || i == 1<<16 {
			at = append(at, i)
			snaps = append(snaps, m.Table())
		}
		if i%2 == 0 {
			m.InsertOrUpdate(mkP(k), -1)
		} else {
			m.Remove(mkP(k))
		}
	}
	h.is(c, h.t, 0, what+" after as many modifications of a clone")
	h.is(c, m2.Table(), 0, what+", another clone")
	for j, s := range snaps {
		i := 0
		s.Walk(func(p ip.Prefix, v int) bool {
			for i < at[j] && i%2 == 1 {
				i++
			}
			w := i
			if i < at[j] {
				w = -1
			}
			if i >= n || normP(p) != h.keys[i] || v != w {
				c.Failf("%s: in the snapshot after %d modifications, %v is %d", what, at[j], p, v)
			}
			i++
			return true
		})
	}
}

// ---- sets

func hugeSets(c *rt.Ctx, f func(c *rt.Ctx, n int, what string)) {
	for _, n := range hugeNumbers(c) {
		n := n
		c.Case(func() {
			f(c, n, fmt.Sprintf("%d pieces", n))
			c.States++
			c.Traces++
			c.Trans += int64(n)
		})
	}
	c.Sample(func() string { return "65536 pieces" })
}

// every second block, from the given one
func hugePieces(n, from int) []ref.P {
	var out []ref.P
	for i := 0; i < n; i++ {
		out = append(out, hugeBlock(2*i+from))
	}
	return out
}

func hugeSpan(n int) []ref.P {
	return ref.Set{{First: hugeBlock(0).First(W), Last: hugeBlock(n - 1).Last(W)}}.Prefixes(W)
}

func hugeIs(c *rt.Ctx, s ip.Set, want []ref.P, what string) {
	if !sameSet(s, want) {
		c.Failf("%s: a set of %d prefixes is wrong, want %d", what, len(walkSet(s)), len(want))
	}
}

func hugeAlgebra(c *rt.Ctx, n int, what string) {
	pe, po := hugePieces(n, 0), hugePieces(n, 1)
	even, odd, span := setOf(pe), setOf(po), setOf(hugeSpan(2*n))
	hugeIs(c, even.Union(odd), hugeSpan(2*n), what+": union with the ones between")
	hugeIs(c, odd.Union(even), hugeSpan(2*n), what+": union of the ones between")
	hugeIs(c, even.Intersection(odd), nil, what+": intersection with the ones between")
	hugeIs(c, even.Difference(odd), pe, what+": difference from the ones between")
	hugeIs(c, span.Difference(odd), pe, what+": difference of all and the ones between")
	hugeIs(c, span.Difference(even), po, what+": difference of all and these")
	hugeIs(c, span.Intersection(odd), po, what+": intersection of all and the ones between")
	hugeIs(c, even.Difference(span), nil, what+": difference from all")
	if !span.Contains(even) || even.Contains(span) || even.Contains(odd) || !even.Contains(even) {
		c.Failf("%s: Contains", what)
	}
	one := even.Difference(mkP(pe[n-1]))
	if even.Difference(one).IsEmpty() || !even.Contains(one) || one.Contains(even) {
		c.Failf("%s: all but the last", what)
	}
	if even.IsEmpty() || odd.IsEmpty() {
		c.Failf("%s: IsEmpty", what)
	}
	for _, p := range pe {
		if !even.Contains(mkP(p)) || odd.Contains(mkP(p)) {
			c.Failf("%s: Contains of %s", what, p.Str(W))
		}
	}
}

func hugeEqual(c *rt.Ctx, n int, what string) {
	pe := hugePieces(n, 0)
	even, span := setOf(pe), setOf(hugeSpan(2*n))
	same := span.Difference(setOf(hugePieces(n, 1)))
	if !even.Equal(same) || !same.Equal(even) {
		c.Failf("%s: not equal", what)
	}
	for _, i := range []int{0, n / 2, n - 1} {
		if o := even.Difference(mkP(pe[i])); o.Equal(even) || even.Equal(o) {
			c.Failf("%s: equal without number %d", what, i)
		}
		if o := even.Union(mkP(hugeBlock(2*i + 1))); o.Equal(even) || even.Equal(o) {
			c.Failf("%s: equal with one beside number %d", what, i)
		}
	}
	hugeIs(c, even, pe, what)
	var b strings.Builder
	for i, p := range pe {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(mkP(p).String())
	}
	if s := even.String(); s != "["+b.String()+"]" {
		i := 0
		for i < len(s) && i < b.Len() && s[i+1] == b.String()[i] {
			i++
		}
		from := 0
		if i > 40 {
			from = i - 40
		}
		c.Failf("%s: the text of %d bytes differs at %d, ... %q", what, len(s), i, s[from:min(len(s), i+40)])
	}
}

func hugeHistory(c *rt.Ctx, n int, what string) {
	s := ip.NewSet_()
	pe, po := hugePieces(n, 0), hugePieces(n, 1)
	for i := range pe {
		s.Insert(mkP(pe[i]))
	}
	hugeIs(c, s.Set(), pe, what+", inserted")
	for i := range po {
		s.Insert(mkP(po[len(po)-1-i]))
	}
	hugeIs(c, s.Set(), hugeSpan(2*n), what+" and those between, inserted")
	for i := range pe {
		s.Remove(mkP(pe[i]))
	}
	hugeIs(c, s.Set(), po, what+", removed again")
	s.Insert(setOf(pe))
	hugeIs(c, s.Set(), hugeSpan(2*n), what+", inserted at once")
	s.Remove(setOf(po).Set_())
	hugeIs(c, s.Set(), pe, what+", those between removed at once")
	for i := range pe {
		s.Remove(mkP(pe[len(pe)-1-i]))
	}
	if !s.IsEmpty() {
		c.Failf("%s: not empty in the end", what)
	}
}

func hugeCounts(c *rt.Ctx, n int, what string) {
	pe := hugePieces(n, 0)
	even := setOf(pe)
	r := ref.FromPrefixes(W, pe)
	lens := []int{hugeLen() - 1, hugeLen(), hugeLen() + 1, W - 1, W}
	checkSetCounts(c, even, r, lens, func() string { return what })
	hugeIs(c, even, pe, what)
	i := 0
	done := even.WalkRanges(func(x ip.Range) bool {
		if i >= n || ur(x) != pe[i].Iv(W) {
			c.Failf("%s: range %d is %v", what, i, x)
		}
		i++
		return true
	})
	if !done || i != n {
		c.Failf("%s: %d ranges, %v", what, i, done)
	}
	span := setOf(pe).Union(setOf(hugePieces(n, 1)))
	i = 0
	span.WalkRanges(func(x ip.Range) bool {
		i++
		if w := (ref.Iv{First: hugeBlock(0).First(W), Last: hugeBlock(2*n - 1).Last(W)}); ur(x) != w {
			c.Failf("%s and those between: range %v", what, x)
		}
		return true
	})
	if i != 1 {
		c.Failf("%s and those between: %d ranges", what, i)
	}
	checkSetCounts(c, span, ref.FromPrefixes(W, hugeSpan(2*n)), lens, func() string { return what + " and those between" })
}

func hugeAvailable(c *rt.Ctx, n int, what string) {
	l := hugeLen()
	span := setOf(hugeSpan(2 * n))
	pe := hugePieces(n, 0)
	even := setOf(pe)
	find := func(space, reserved ip.Set, l int, want bool, name string) (p ip.Prefix) {
		p, err := space.FindAvailablePrefix(reserved, uint32(l))
		if (err == nil) != want {
			c.Failf("%s: %s: a prefix of length %d: %v, %v", what, name, l, p, err)
		}
		if err == nil && (!space.Contains(p) || !reserved.Intersection(p).IsEmpty() || up(p) != normP(p) || p.Length() != l) {
			c.Failf("%s: %s: a prefix of length %d: %v", what, name, l, p)
		}
		return
	}
	find(span, even, l, true, "every second reserved")
	find(span, even, l-1, false, "every second reserved")
	find(even, ip.Set{}, l, true, "in every second")
	find(even, ip.Set{}, l-1, false, "in every second")
	// all reserved but one
	for _, i := range []int{0, n / 2, n - 1} {
		most := even.Difference(mkP(pe[i]))
		if p := find(even, most, l, true, "one left"); up(p) != pe[i] {
			c.Failf("%s: %v found where %s is the only one", what, p, pe[i].Str(W))
		}
		// one with a smaller place
		small := even.Difference(mkP(ref.P{A: pe[i].A, Len: l + 1}))
		if p := find(small, ip.Set{}, l+1, true, "one half left"); !pe[i].Contains(W, up(p)) {
			c.Failf("%s: %v found where half of %s is free", what, p, pe[i].Str(W))
		}
	}
	find(even, even, W, false, "all reserved")
}
