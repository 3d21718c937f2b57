package fam

import (
	"fmt"
	"sort"
	"strings"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

func regTables() {
	reg("C09", "closure over a tree of 7 prefixes, every offset", c09Closure)
	reg("C09", "closure over nested and diverging prefixes", c09Bushes)
	reg("C09", "closure over a tree of 15 prefixes", c09Tree15)
	reg("C09", "operation sequences on one table", c09Sequences)
	reg("C09", "every relation of two prefixes", c09Shapes)
	reg("C09", "three prefixes", c09Triples)

	reg("C10", "every table over a tree of 7 prefixes, every key, every offset", c10Tree)
	reg("C10", "tables over nested and diverging prefixes", c10Bushes)
	reg("C10", "tables over a tree of 15 prefixes", c10Tree15)
	reg("C10", "tables of every length on one path", c10Path)
	reg("C10", "every relation of two prefixes", c10Shapes)

	reg("C11", "every table, every stop position, every offset", c11Tree)
	reg("C11", "tables over nested and diverging prefixes", c11Bushes)
	reg("C11", "every relation of two prefixes", c11Shapes)
	reg("C11", "insertion orders", c11Orders)
	reg("C11", "tables over a tree of 15 prefixes", c11Tree15)

	reg("C12", "pairs of tables over a tree of 7 prefixes, every offset", c12Tree)
	reg("C12", "all pairs with two values", c12Full)
	reg("C12", "handlers and stop positions", c12Handlers)
	reg("C12", "pairs over nested and diverging prefixes", c12Bushes)
	reg("C12", "tables derived from one another", c12Derived)
	reg("C12", "every relation of two prefixes", c12Shapes)
	reg("C12", "three prefixes", c12Triples)
	reg("C12", "pairs of tables over a tree of 15 prefixes", c12Tree15)

	regTables2()
}

// tuni is a universe of tables: all the maps from a list of prefixes to values
// 1..nv. A state is a number in base nv+1; digit 0 is absence.
type tuni struct {
	name   string
	keys   []ref.P // in walk order, host bits zero
	args   [][]ip.PrefixI
	anc    [][]int // for each key, the keys that contain it (itself too), longest first
	nv     int
	n      int
	pow    []int
	stored []ip.Prefix // what canonical states store, perhaps with host bits
	tabs   []ip.Table[int]
	dumps  []uint64
	turn   int
	fixed  map[int]int // the values of the only state, for large tables
	norm   bool        // give operations only prefixes without host bits
}

const nArgs = 3

func newTuni(name string, keys []ref.P, nv int, hosty bool) *tuni {
	u := &tuni{name: name, nv: nv}
	seen := map[ref.P]bool{}
	for _, k := range keys {
		k = k.Norm(W)
		if !seen[k] {
			seen[k] = true
			u.keys = append(u.keys, k)
		}
	}
	sort.Slice(u.keys, func(i, j int) bool { return u.keys[i].Less(W, u.keys[j]) })
	u.n = 1
	for i, k := range u.keys {
		ones := ref.P{A: k.Last(W), Len: k.Len}
		alt := ref.P{A: k.A.Or(pattern(patAlt2).And(ref.LowMask(W - k.Len))), Len: k.Len}
		as := []ip.PrefixI{mkP(k), mkP(ones), mkP(alt)}
		if k.Len == W {
			as[1] = mkA(k.A)
		}
		switch i % 4 {
		case 1:
			as[2] = mkOwn(mkP(alt))
		case 2:
			as[2] = &ownKey{func() ip.Prefix { return mkP(alt) }}
		}
		if k.A == ref.Zero && k.Len == 0 {
			as[2] = nil
		}
		u.args = append(u.args, as)
		st := mkP(k)
		if hosty {
			st = mkP(ones)
			if i%2 == 1 {
				st = mkP(alt)
			}
		}
		u.stored = append(u.stored, st)
		u.pow = append(u.pow, u.n)
		u.n *= nv + 1
	}
	for i := range u.keys {
		u.anc = append(u.anc, u.containing(u.keys[i]))
		_ = i
	}
	return u
}

// containing lists the keys that contain q, longest first.
func (u *tuni) containing(q ref.P) []int {
	var out []int
	for j, k := range u.keys {
		if k.Contains(W, q) {
			out = append(out, j)
		}
	}
	sort.Slice(out, func(a, b int) bool { return u.keys[out[a]].Len > u.keys[out[b]].Len })
	return out
}

func (u *tuni) digit(code, i int) int {
	if u.fixed != nil {
		return u.fixed[i]
	}
	return code / u.pow[i] % (u.nv + 1)
}

func (u *tuni) with(code, i, v int) int {
	return code + (v-u.digit(code, i))*u.pow[i]
}

func (u *tuni) str(code int) string {
	var b strings.Builder
	b.WriteString("{")
	for i, k := range u.keys {
		if d := u.digit(code, i); d != 0 {
			if b.Len() > 1 {
				b.WriteString(", ")
			}
			fmt.Fprintf(&b, "%s:%d", k.Str(W), d)
		}
	}
	b.WriteString("}")
	return b.String()
}

// table builds the table of a state.
func (u *tuni) table(code int) ip.Table[int] {
	t := ip.NewTable_[int]()
	for i := range u.keys {
		if d := u.digit(code, i); d != 0 {
			t.Insert(u.stored[i], d)
		}
	}
	return t.Table()
}

// tableRev builds it in another order with removals on the way.
func (u *tuni) tableRev(code int) ip.Table[int] {
	t := ip.NewTable_[int]()
	for i := len(u.keys) - 1; i >= 0; i-- {
		t.InsertOrUpdate(u.stored[i], 1)
	}
	for i := range u.keys {
		if d := u.digit(code, i); d != 0 {
			t.Update(u.stored[i], d)
		} else {
			t.Remove(u.stored[i])
		}
	}
	return t.Table()
}

func (u *tuni) prepare(withDumps bool) {
	u.tabs = make([]ip.Table[int], u.n)
	for m := range u.tabs {
		u.tabs[m] = u.table(m)
	}
	if withDumps {
		u.dumps = make([]uint64, u.n)
		for m := range u.dumps {
			u.dumps[m] = dump(u.tabs[m])
		}
	}
}

func (u *tuni) size(code int) int64 {
	if u.fixed != nil {
		return int64(len(u.fixed))
	}
	n := int64(0)
	for ; code > 0; code /= u.nv + 1 {
		if code%(u.nv+1) != 0 {
			n++
		}
	}
	return n
}

type tableReads interface {
	NumEntries() int64
	Get(ip.PrefixI) (int, bool)
	LongestMatch(ip.PrefixI) (int, bool, ip.Prefix)
}

func isT(p ip.Prefix) ref.P { return normP(p) }

// checkReads compares exact lookups and the count with the state.
func (u *tuni) checkReads(c *rt.Ctx, t tableReads, code int, variant int, what func() string) {
	if n := t.NumEntries(); n != u.size(code) {
		c.Failf("%s: NumEntries is %d for %s", what(), n, u.str(code))
	}
	for i := range u.keys {
		v, ok := t.Get(u.args[i][(variant+i)%nArgs])
		d := u.digit(code, i)
		if ok != (d != 0) || v != d {
			c.Failf("%s: Get(%s) is %d, %v in %s", what(), u.keys[i].Str(W), v, ok, u.str(code))
		}
	}
}

func walkStr(t ip.Table[int]) string {
	var b strings.Builder
	b.WriteString("{")
	t.Walk(func(p ip.Prefix, v int) bool {
		if b.Len() > 1 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "%s:%d", up(p).Str(W), v)
		return b.Len() < 100000
	})
	b.WriteString("}")
	return b.String()
}

// checkWalk compares the walk with the state.
func (u *tuni) checkWalk(c *rt.Ctx, t ip.Table[int], code int, what func() string) {
	i := 0
	bad := false
	next := func() {
		for i < len(u.keys) && u.digit(code, i) == 0 {
			i++
		}
	}
	done := t.Walk(func(p ip.Prefix, v int) bool {
		next()
		if i == len(u.keys) || isT(p) != u.keys[i] || v != u.digit(code, i) {
			bad = true
			return false
		}
		i++
		return true
	})
	next()
	if bad || !done || i != len(u.keys) {
		c.Failf("%s: walk gives %s (completed: %v), want %s", what(), walkStr(t), done, u.str(code))
	}
}

const nOps = 5

var opNames = [nOps]string{"Insert", "Update", "InsertOrUpdate", "GetOrInsert", "Remove"}

// apply runs one operation on the table and the model and checks its result.
func (u *tuni) apply(c *rt.Ctx, t ip.Table_[int], code, op, i, v, variant int, what func() string) int {
	d := u.digit(code, i)
	arg := u.args[i][variant%nArgs]
	switch op {
	case 0:
		if ok := t.Insert(arg, v); ok != (d == 0) {
			c.Failf("%s: Insert(%s, %d) returned %v in %s", what(), u.keys[i].Str(W), v, ok, u.str(code))
		}
		if d == 0 {
			return u.with(code, i, v)
		}
	case 1:
		if ok := t.Update(arg, v); ok != (d != 0) {
			c.Failf("%s: Update(%s, %d) returned %v in %s", what(), u.keys[i].Str(W), v, ok, u.str(code))
		}
		if d != 0 {
			return u.with(code, i, v)
		}
	case 2:
		t.InsertOrUpdate(arg, v)
		return u.with(code, i, v)
	case 3:
		got := t.GetOrInsert(arg, v)
		want := v
		if d != 0 {
			want = d
		}
		if got != want {
			c.Failf("%s: GetOrInsert(%s, %d) returned %d in %s", what(), u.keys[i].Str(W), v, got, u.str(code))
		}
		return u.with(code, i, want)
	case 4:
		if ok := t.Remove(arg); ok != (d != 0) {
			c.Failf("%s: Remove(%s) returned %v in %s", what(), u.keys[i].Str(W), ok, u.str(code))
		}
		return u.with(code, i, 0)
	}
	return code
}

// eachOp enumerates the operations on key i.
func (u *tuni) eachOp(f func(op, i, v int)) {
	for i := range u.keys {
		for op := 0; op < nOps; op++ {
			for v := 1; v <= u.nv; v++ {
				f(op, i, v)
				if op == 4 {
					break
				}
			}
		}
	}
}

func (u *tuni) opStr(op, i, v int) string {
	if op == 4 {
		return fmt.Sprintf("Remove(%s)", u.keys[i].Str(W))
	}
	return fmt.Sprintf("%s(%s, %d)", opNames[op], u.keys[i].Str(W), v)
}

// ---- universes

func treeKeys(off, k int, base ref.U) []ref.P { return prefixesOf(off, k, base) }

// bushKeys: a nested chain of lengths a<b<c and prefixes diverging from it.
func bushKeys(a, b, d int, base ref.U) []ref.P {
	x := base.And(ref.Max(W))
	flip := func(u ref.U, i int) ref.U { return u.Xor(ref.BitAt(W, i)) }
	return []ref.P{
		{A: x, Len: a}, {A: x, Len: b}, {A: x, Len: d},
		{A: flip(x, a), Len: b}, {A: flip(x, b), Len: d}, {A: flip(x, d-1), Len: d},
	}
}

func eachBush(thorough bool, f func(a, b, d int, base ref.U)) {
	lens := keyLens()
	pats := []int{patAlt, patOnes}
	if thorough {
		pats = []int{patAlt, patOnes, patZeros, patAlt2}
	}
	n := 0
	for i := range lens {
		for j := i + 1; j < len(lens); j++ {
			for k := j + 1; k < len(lens); k++ {
				if thorough {
					for _, p := range pats {
						f(lens[i], lens[j], lens[k], pattern(p))
					}
				} else {
					f(lens[i], lens[j], lens[k], pattern(pats[n%len(pats)]))
				}
				n++
			}
		}
	}
}

// eachTree calls f with the tree of 2^(k+1)-1 prefixes at every offset: one
// pattern and host bit setting per offset for quick, all for thorough.
func eachTree(c *rt.Ctx, k int, offs []int, f func(off int, base ref.U, hosty bool)) {
	for n, off := range offs {
		if c.Thorough {
			for p := 0; p < nPat; p++ {
				f(off, pattern(p), false)
				f(off, pattern(p), true)
				if off == 0 {
					break
				}
			}
			continue
		}
		f(off, pattern([]int{patAlt, patOnes, patAlt2}[n%3]), n%2 == 1)
		if off == 0 || off+k >= W {
			f(off, pattern(patOnes), n%2 == 0)
		}
	}
	if len(offs) < 10 {
		return
	}
	for n, p := range places() {
		off := p.len - n%2
		if off+k > W {
			off = W - k
		}
		f(off, p.base, n%3 == 0)
	}
}

// ---- C09

// closure executes every operation on every state of the universe, and on
// every other concrete state that has not been seen to be structurally the
// same as the canonical one.
func (u *tuni) closure(c *rt.Ctx, from, to int, extra int) {
	type st struct {
		t    ip.Table[int]
		code int
		h    func() string
	}
	seen := map[uint64]bool{}
	var work []st
	visit := func(s st, variant int) {
		c.States++
		u.checkReads(c, s.t, s.code, variant, s.h)
		u.checkWalk(c, s.t, s.code, s.h)
		n := variant
		u.eachOp(func(op, i, v int) {
			n++
			if u.norm {
				n = 0
			}
			t := s.t.Table_()
			what := func() string { return fmt.Sprintf("%s: %s, then %s", u.name, s.h(), u.opStr(op, i, v)) }
			next := u.apply(c, t, s.code, op, i, v, n, what)
			u.checkReads(c, t, next, n, what)
			tt := t.Table()
			u.checkWalk(c, tt, next, what)
			c.Trans++
			if u.dumps != nil && len(seen) < extra {
				if d := dump(tt); d != u.dumps[next] && !seen[d] {
					seen[d] = true
					c.Note("noncanonical_states", 1)
					work = append(work, st{tt, next, what})
				}
			}
		})
		u.checkReads(c, s.t, s.code, variant+1, s.h)
	}
	for m := from; m < to; m++ {
		m := m
		visit(st{u.tabs[m], m, func() string { return u.str(m) }}, m)
		for len(work) > 0 {
			w := work[0]
			work = work[1:]
			visit(w, m)
		}
	}
	c.Traces++
}

func c09Closure(c *rt.Ctx) {
	key := map[int]bool{}
	for _, o := range keyOffsets(2) {
		key[o] = true
	}
	eachTree(c, 2, offsets(2), func(off int, base ref.U, hosty bool) {
		c.Case(func() {
			u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, base), 2, hosty)
			u.prepare(key[off] && !hosty)
			if u.dumps != nil {
				u.norm = true
				u.closure(c, 0, u.n, 300)
				u.norm, u.dumps = false, nil
			}
			u.closure(c, 0, u.n, 0)
			c.Sample(func() string { return fmt.Sprintf("from %s: all %d operations", u.str(1234), 7*9) })
		})
	})
}

func c09Bushes(c *rt.Ctx) {
	n := 0
	eachBush(c.Thorough, func(a, b, d int, base ref.U) {
		n++
		hosty := n%2 == 0
		c.Case(func() {
			nv := 1
			if c.Thorough {
				nv = 2
			}
			u := newTuni(fmt.Sprintf("bush %d %d %d", a, b, d), bushKeys(a, b, d, base), nv, hosty)
			u.prepare(!hosty)
			if u.dumps != nil {
				u.norm = true
				u.closure(c, 0, u.n, 50)
				u.norm, u.dumps = false, nil
			}
			u.closure(c, 0, u.n, 0)
			c.Sample(func() string { return u.name + ": " + u.str(u.n-1) })
		})
	})
}

func c09Tree15(c *rt.Ctx) {
	offs := []int{0, W - 3}
	if c.Thorough {
		offs = keyOffsets(3)
	}
	for _, off := range offs {
		off := off
		const block = 256
		var u *tuni
		if !c.WantBlock(32768 / block) {
			c.Skip(32768 / block)
			continue
		}
		c.Guard(func() {
			u = newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 3, pattern(patAlt)), 1, false)
			u.prepare(false)
		})
		for m := 0; m < u.n; m += block {
			m := m
			c.Case(func() { u.closure(c, m, m+block, 0) })
		}
	}
}

// c09Sequences runs every sequence of operations on one and the same table,
// reading everything after every step.
func c09Sequences(c *rt.Ctx) {
	type sq struct {
		keys  []ref.P
		depth int
	}
	base := pattern(patAlt)
	flip := func(i int) ref.U { return base.Xor(ref.BitAt(W, i)) }
	d := 4
	if c.Thorough {
		d = 5
	}
	sets := []sq{
		{[]ref.P{{A: base, Len: 8}, {A: base, Len: 9}, {A: flip(8), Len: 9}}, d},
		{[]ref.P{{A: base, Len: W}, {A: flip(W - 1), Len: W}, {A: base, Len: W - 1}}, d},
		{[]ref.P{{A: base, Len: 0}, {A: base, Len: W / 2}, {A: flip(2), Len: W - 2}}, d},
		{[]ref.P{{A: base, Len: W/2 + 1}, {A: flip(W / 2), Len: W/2 + 1}, {A: flip(3), Len: W/2 + 1}}, d},
	}
	for _, s := range sets {
		s := s
		nv := 2
		u := newTuni("sequence", s.keys, nv, false)
		type op struct{ op, i, v int }
		var ops []op
		u.eachOp(func(o, i, v int) { ops = append(ops, op{o, i, v}) })
		for a := range ops {
			for b := range ops {
				a, b := a, b
				c.Case(func() {
					path := make([]int, s.depth)
					path[0], path[1] = a, b
					total := 1
					for i := 2; i < s.depth; i++ {
						total *= len(ops)
					}
					for x := 0; x < total; x++ {
						y := x
						for i := 2; i < s.depth; i++ {
							path[i] = y % len(ops)
							y /= len(ops)
						}
						t := ip.NewTable_[int]()
						cp := t
						code := 0
						for n, o := range path {
							oo := ops[o]
							what := func() string {
								var b strings.Builder
								for _, o := range path[:n+1] {
									b.WriteString(u.opStr(ops[o].op, ops[o].i, ops[o].v) + "; ")
								}
								return b.String()
							}
							tt := t
							if n%2 == 1 {
								tt = cp
							}
							code = u.apply(c, tt, code, oo.op, oo.i, oo.v, n, what)
							if n >= 2 || x == 0 {
								u.checkReads(c, cp, code, n, what)
							}
							c.Trans++
						}
						u.checkWalk(c, t.Table(), code, func() string { return fmt.Sprint(path) })
						c.Traces++
					}
					c.States++
				})
			}
		}
		c.Sample(func() string { return fmt.Sprintf("all %d^%d sequences over %s", len(ops), s.depth, u.str(u.n-1)) })
	}
}

// c09Shapes: two prefixes in every relation, all operation pairs.
func c09Shapes(c *rt.Ctx) {
	var lens []int
	if W > 32 && !c.Thorough {
		lens = keyLens()
	}
	n := 0
	eachShape(lens, func(s shape) {
		n++
		if !c.Mine() {
			c.Skip(1)
			return
		}
		c.Case(func() {
			base := pattern([]int{patAlt, patOnes, patAlt2, patZeros}[n%4])
			a, b := s.prefixes(base)
			u := newTuni("pair", []ref.P{a, b}, 2, n%2 == 0)
			u.prepare(false)
			u.closure(c, 0, u.n, 0)
		})
	})
}

// c09Triples: three prefixes with every combination of lengths and divergence
// bits among the key positions.
func eachTriple(c *rt.Ctx, f func(keys []ref.P)) {
	lens := keyLens()
	if !c.Thorough {
		if W == 32 {
			lens = []int{0, 1, 8, 16, 24, 31, 32}
		} else {
			lens = []int{0, 1, 63, 64, 65, 127, 128}
		}
	}
	base := pattern(patAlt)
	for _, la := range lens {
		for _, lb := range lens {
			for _, d1 := range lens {
				if d1 >= lb {
					continue
				}
				for _, lc := range lens {
					for _, d2 := range lens {
						if d2 >= lc {
							continue
						}
						f([]ref.P{{A: base, Len: la}, {A: base.Xor(ref.BitAt(W, d1)), Len: lb}, {A: base.Xor(ref.BitAt(W, d2)), Len: lc}})
					}
				}
			}
		}
	}
}

func c09Triples(c *rt.Ctx) {
	eachTriple(c, func(keys []ref.P) {
		c.Case(func() {
			u := newTuni("triple", keys, 1, false)
			u.prepare(false)
			u.closure(c, 0, u.n, 0)
		})
	})
}

// ---- C10

type probe struct {
	p    ref.P
	arg  ip.PrefixI
	keys []int
}

// probes are search keys around the universe: every prefix of the universe,
// its parent, sibling, halves, first and last address, with and without host
// bits.
func (u *tuni) probes() []probe {
	var out []probe
	seen := map[ref.P]bool{}
	add := func(a ref.U, l int) {
		if l < 0 || l > W {
			return
		}
		p := ref.P{A: a.And(ref.Max(W)), Len: l}
		if seen[p] {
			return
		}
		seen[p] = true
		pr := probe{p: p, arg: mkP(p), keys: u.containing(p)}
		if l == W && len(out)%2 == 0 {
			pr.arg = mkA(p.A)
		}
		out = append(out, pr)
	}
	for _, k := range u.keys {
		add(k.A, k.Len)
		add(k.Last(W), k.Len)
		add(k.A, k.Len-1)
		add(k.A, k.Len+1)
		add(k.A, W)
		add(k.Last(W), W)
		if k.Len > 0 {
			add(k.A.Xor(ref.BitAt(W, k.Len-1)), k.Len)
		}
		if k.Len < W {
			add(k.A.Or(ref.BitAt(W, k.Len)), k.Len+1)
			add(k.A.Or(ref.BitAt(W, k.Len)), W)
		}
		add(k.First(W).Dec(), W)
		add(k.Last(W).Inc(), W)
	}
	add(ref.Zero, 0)
	add(ref.Max(W), 0)
	add(ref.Zero, W)
	add(ref.Max(W), W)
	return out
}

func (u *tuni) checkLPM(c *rt.Ctx, t tableReads, code int, ps []probe, what func() string) {
	for i := range ps {
		pr := &ps[i]
		v, ok, p := t.LongestMatch(pr.arg)
		want := -1
		for _, k := range pr.keys {
			if u.digit(code, k) != 0 {
				want = k
				break
			}
		}
		if want < 0 {
			if ok {
				c.Failf("%s: LongestMatch(%s) is %s:%d in %s, want none", what(), pr.p.Str(W), up(p).Str(W), v, u.str(code))
			}
		} else if !ok || v != u.digit(code, want) || isT(p) != u.keys[want] {
			c.Failf("%s: LongestMatch(%s) is %s:%d, %v in %s, want %s", what(), pr.p.Str(W), up(p).Str(W), v, ok, u.str(code), u.keys[want].Str(W))
		}
	}
	c.Trans += int64(len(ps))
}

func (u *tuni) lpmAll(c *rt.Ctx, from, to int, derived bool) {
	ps := u.probes()
	for m := from; m < to; m++ {
		what := func() string { return u.name }
		u.checkLPM(c, u.tabs[m], m, ps, what)
		u.checkLPM(c, u.tabs[m].Table_(), m, ps, what)
		u.checkLPM(c, u.tableRev(m), m, ps, func() string { return u.name + " built in reverse with removals" })
		c.States++
		if derived {
			u.eachOp(func(op, i, v int) {
				if v == 2 {
					return
				}
				t := u.tabs[m].Table_()
				next := u.apply(c, t, m, op, i, v, op, what)
				u.checkLPM(c, t, next, ps, func() string { return u.str(m) + ", then " + u.opStr(op, i, v) })
			})
		}
	}
	c.Traces++
}

func c10Tree(c *rt.Ctx) {
	key := map[int]bool{0: true, W/2 - 1: true, W - 2: true}
	eachTree(c, 2, offsets(2), func(off int, base ref.U, hosty bool) {
		c.Case(func() {
			u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, base), 2, hosty)
			u.prepare(false)
			u.lpmAll(c, 0, u.n, key[off])
			c.Sample(func() string { return fmt.Sprintf("%s: %d search keys", u.str(1234), len(u.probes())) })
		})
	})
}

func c10Bushes(c *rt.Ctx) {
	n := 0
	eachBush(c.Thorough, func(a, b, d int, base ref.U) {
		n++
		hosty := n%2 == 0
		c.Case(func() {
			u := newTuni(fmt.Sprintf("bush %d %d %d", a, b, d), bushKeys(a, b, d, base), 1, hosty)
			u.prepare(false)
			u.lpmAll(c, 0, u.n, true)
		})
	})
}

func c10Tree15(c *rt.Ctx) {
	offs := []int{W - 3}
	if c.Thorough {
		offs = keyOffsets(3)
	}
	for _, off := range offs {
		off := off
		const block = 256
		if !c.WantBlock(32768 / block) {
			c.Skip(32768 / block)
			continue
		}
		var u *tuni
		c.Guard(func() {
			u = newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 3, pattern(patAlt)), 1, false)
			u.prepare(false)
		})
		for m := 0; m < u.n; m += block {
			m := m
			c.Case(func() { u.lpmAll(c, m, m+block, false) })
		}
	}
}

// c10Path: tables with every length along one path, and with any two or three
// of them, looked up with every length.
func c10Path(c *rt.Ctx) {
	for p := 0; p < nPat; p++ {
		base := pattern(p)
		for l := 0; l <= W; l++ {
			l := l
			c.Case(func() {
				// all lengths except l, searched with every length and with
				// keys diverging at every bit
				t := ip.NewTable_[int]()
				for i := W; i >= 0; i-- {
					if i != l {
						t.Insert(mkP(ref.P{A: base, Len: i}), i+1)
					}
				}
				s := t.Table()
				check := func(q ref.P, common int) {
					v, ok, m := s.LongestMatch(mkP(q))
					want := q.Len
					if common < want {
						want = common
					}
					if want == l {
						want--
					}
					if want < 0 {
						if ok {
							c.Failf("every length but %d of %s: LongestMatch(%s) is %d", l, base.Str(W), q.Str(W), v)
						}
						return
					}
					if !ok || v != want+1 || isT(m) != (ref.P{A: base, Len: want}).Norm(W) {
						c.Failf("every length but %d of %s: LongestMatch(%s) is %s:%d, %v, want length %d", l, base.Str(W), q.Str(W), up(m).Str(W), v, ok, want)
					}
					c.Trans++
				}
				for ql := 0; ql <= W; ql++ {
					check(ref.P{A: base.And(ref.Max(W)), Len: ql}, W)
				}
				for d := 0; d < W; d++ {
					x := base.And(ref.Max(W)).Xor(ref.BitAt(W, d))
					check(ref.P{A: x, Len: W}, d)
					check(ref.P{A: x, Len: d + 1}, d)
				}
				c.States++
				// two lengths: this one and every other
				for m := l + 1; m <= W; m++ {
					t := ip.NewTable_[int]()
					t.Insert(mkP(ref.P{A: base, Len: m}), m)
					t.Insert(mkP(ref.P{A: base, Len: l}), l)
					for _, ql := range []int{l - 1, l, l + 1, m - 1, m, m + 1, W} {
						if ql < 0 || ql > W {
							continue
						}
						v, ok, _ := t.LongestMatch(mkP(ref.P{A: base, Len: ql}))
						want := -1
						if ql >= m {
							want = m
						} else if ql >= l {
							want = l
						}
						if ok != (want >= 0) || ok && v != want {
							c.Failf("lengths %d and %d of %s: LongestMatch of length %d is %d, %v", l, m, base.Str(W), ql, v, ok)
						}
						c.Trans++
					}
					c.States++
				}
				c.Traces++
			})
		}
	}
}

func c10Shapes(c *rt.Ctx) {
	var lens []int
	if W > 32 && !c.Thorough {
		lens = keyLens()
	}
	n := 0
	eachShape(lens, func(s shape) {
		n++
		if !c.Mine() {
			c.Skip(1)
			return
		}
		c.Case(func() {
			base := pattern([]int{patAlt, patOnes, patAlt2, patZeros}[n%4])
			a, b := s.prefixes(base)
			u := newTuni("pair", []ref.P{a, b}, 1, n%2 == 0)
			u.prepare(false)
			u.lpmAll(c, 0, u.n, false)
		})
	})
}

// ---- C11

func (u *tuni) walkStops(c *rt.Ctx, t ip.Table[int], m int, what func() string) {
	u.checkWalk(c, t, m, what)
	size := int(u.size(m))
	for stop := 1; stop <= size; stop++ {
		n := 0
		var last ref.P
		done := t.Walk(func(p ip.Prefix, v int) bool {
			n++
			last = isT(p)
			return n < stop
		})
		if done || n != stop {
			c.Failf("%s: walk told to stop at entry %d made %d calls (last %s) and returned %v; table %s", what(), stop, n, last.Str(W), done, u.str(m))
		}
		c.Trans++
	}
	c.Trans++
	c.States++
}

func c11Tree(c *rt.Ctx) {
	eachTree(c, 2, offsets(2), func(off int, base ref.U, hosty bool) {
		c.Case(func() {
			u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, base), 2, hosty)
			u.prepare(false)
			for m := 0; m < u.n; m++ {
				u.walkStops(c, u.tabs[m], m, func() string { return u.name })
				u.checkWalk(c, u.tableRev(m), m, func() string { return u.name + " built in reverse with removals" })
				tm := u.tabs[m].Table_()
				u.checkWalk(c, tm.Table(), m, func() string { return u.name })
			}
			c.Traces++
			c.Sample(func() string { return fmt.Sprintf("%s stopped at each entry", u.str(1234)) })
		})
	})
}

func c11Bushes(c *rt.Ctx) {
	n := 0
	eachBush(c.Thorough, func(a, b, d int, base ref.U) {
		n++
		hosty := n%2 == 0
		c.Case(func() {
			u := newTuni(fmt.Sprintf("bush %d %d %d", a, b, d), bushKeys(a, b, d, base), 1, hosty)
			for m := 0; m < u.n; m++ {
				u.walkStops(c, u.table(m), m, func() string { return u.name })
				u.checkWalk(c, u.tableRev(m), m, func() string { return u.name + " built in reverse with removals" })
			}
			c.Traces++
		})
	})
}

func c11Shapes(c *rt.Ctx) {
	var lens []int
	if W > 32 && !c.Thorough {
		lens = keyLens()
	}
	n := 0
	eachShape(lens, func(s shape) {
		n++
		if !c.Mine() {
			c.Skip(1)
			return
		}
		c.Case(func() {
			a, b := s.prefixes(pattern([]int{patAlt, patOnes, patAlt2, patZeros}[n%4]))
			u := newTuni("pair", []ref.P{a, b}, 1, n%2 == 0)
			for m := 0; m < u.n; m++ {
				u.walkStops(c, u.table(m), m, func() string { return u.name })
				u.checkWalk(c, u.tableRev(m), m, func() string { return u.name + " built in reverse" })
			}
			c.Traces++
		})
	})
}

// permutationsFrom calls f with every order of 0..n-1 starting with first.
func permutationsFrom(n, first int, f func(p []int)) {
	p := []int{first}
	used := make([]bool, n)
	used[first] = true
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// c11Orders: every insertion order of a full tree and of a bush, then every
// rotation as removal order.
func c11Orders(c *rt.Ctx) {
	var us []*tuni
	for _, off := range []int{0, W/2 - 1, W - 2} {
		us = append(us, newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)), 1, false))
	}
	us = append(us, newTuni("bush", bushKeys(1, W/2, W, pattern(patAlt)), 1, true),
		newTuni("bush", bushKeys(7, 9, W-1, pattern(patOnes)), 1, false))
	for _, u := range us {
		u := u
		n := len(u.keys)
		for first := 0; first < n; first++ {
			for rot := 0; rot < n; rot++ {
				first, rot := first, rot
				c.Case(func() {
					permutationsFrom(n, first, func(p []int) {
						t := ip.NewTable_[int]()
						code := 0
						for _, i := range p {
							t.Insert(u.stored[i], 1)
							code = u.with(code, i, 1)
							if rot == 0 {
								u.checkWalk(c, t.Table(), code, func() string { return fmt.Sprintf("%s inserted in order %v", u.name, p) })
							}
						}
						for x := range p {
							i := p[(n-1-x+rot)%n]
							t.Remove(u.stored[i])
							code = u.with(code, i, 0)
							u.checkWalk(c, t.Table(), code, func() string {
								return fmt.Sprintf("%s inserted in order %v, removed back from position %d", u.name, p, rot)
							})
						}
						c.Trans += int64(2 * n)
						c.States++
					})
					c.Traces++
				})
			}
		}
	}
}

func c11Tree15(c *rt.Ctx) {
	for _, off := range []int{0, W - 3} {
		const block = 256
		u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 3, pattern(patOnes)), 1, off != 0)
		for m := 0; m < u.n; m += block {
			m := m
			c.Case(func() {
				for x := m; x < m+block; x++ {
					u.walkStops(c, u.table(x), x, func() string { return u.name })
				}
				c.Traces++
			})
		}
	}
}

// ---- C12

// diff handlers
const (
	hChanged = 1 << iota
	hLeft
	hRight
	hUnchanged
)

type event struct {
	kind byte
	key  int
	l, r int
}

func (u *tuni) eventsStr(es []event) string {
	var b strings.Builder
	for _, e := range es {
		k := "?"
		if e.key >= 0 {
			k = u.keys[e.key].Str(W)
		}
		fmt.Fprintf(&b, "%c %s %d %d; ", e.kind, k, e.l, e.r)
	}
	return b.String()
}

func (u *tuni) expected(lc, rc, handlers int, out []event) []event {
	for i := range u.keys {
		l, r := u.digit(lc, i), u.digit(rc, i)
		switch {
		case l == 0 && r == 0:
		case r == 0:
			if handlers&hLeft != 0 {
				out = append(out, event{'-', i, l, 0})
			}
		case l == 0:
			if handlers&hRight != 0 {
				out = append(out, event{'+', i, 0, r})
			}
		case l == r:
			if handlers&hUnchanged != 0 {
				out = append(out, event{'=', i, l, l})
			}
		default:
			if handlers&hChanged != 0 {
				out = append(out, event{'!', i, l, r})
			}
		}
	}
	return out
}

type differ struct {
	u    *tuni
	want []event
	got  []event
	n    int
	stop int
	bad  bool
	buf  []event
}

func (d *differ) event(kind byte, p ip.Prefix, l, r int) bool {
	k := -1
	if d.n < len(d.want) {
		w := d.want[d.n]
		if w.kind == kind && w.l == l && w.r == r && isT(p) == d.u.keys[w.key] {
			k = w.key
		}
	}
	if k < 0 {
		d.bad = true
		np := isT(p)
		for i, q := range d.u.keys {
			if q == np {
				k = i
			}
		}
	}
	d.n++
	if d.bad || d.n == 1 {
		d.got = append(d.got, event{kind, k, l, r})
	}
	if d.bad {
		return d.n < 60
	}
	return d.n != d.stop
}

// run makes one diff and compares its calls. stop is the number of the call
// that returns false; 0 for none.
func (d *differ) run(c *rt.Ctx, lt, rt ip.Table[int], lc, rc, handlers, stop int, what func() string) {
	d.buf = d.u.expected(lc, rc, handlers, d.buf[:0])
	d.want = d.buf
	d.got, d.n, d.stop, d.bad = d.got[:0], 0, stop, false
	var ch func(ip.Prefix, int, int) bool
	var le, ri, un func(ip.Prefix, int) bool
	if handlers&hChanged != 0 {
		ch = func(p ip.Prefix, l, r int) bool { return d.event('!', p, l, r) }
	}
	if handlers&hLeft != 0 {
		le = func(p ip.Prefix, v int) bool { return d.event('-', p, v, 0) }
	}
	if handlers&hRight != 0 {
		ri = func(p ip.Prefix, v int) bool { return d.event('+', p, 0, v) }
	}
	if handlers&hUnchanged != 0 {
		un = func(p ip.Prefix, v int) bool { return d.event('=', p, v, v) }
	}
	done := lt.Diff(rt, ch, le, ri, un)
	c.Trans++
	wantN, wantDone := len(d.want), true
	if stop > 0 && stop <= wantN {
		wantN, wantDone = stop, false
	}
	if d.bad || d.n != wantN || done != wantDone {
		c.Failf("%s: diff of %s and %s, handlers %04b, stopping at call %d: %d calls, returned %v, last calls: %s\nwant %d calls, %v: %s",
			what(), d.u.str(lc), d.u.str(rc), handlers, stop, d.n, done, d.u.eventsStr(d.got), wantN, wantDone, d.u.eventsStr(d.want))
	}
}

const allHandlers = hChanged | hLeft | hRight | hUnchanged

// relations enumerates the states of pairs: for each key absent, left only,
// right only, same, changed; left values are 1, changed right values 2.
func (u *tuni) relations(from, step int, f func(lc, rc int)) {
	n := 1
	for range u.keys {
		n *= 5
	}
	for x := from; x < n; x += step {
		y := x
		lc, rc := 0, 0
		for i := range u.keys {
			switch y % 5 {
			case 1:
				lc += u.pow[i]
			case 2:
				rc += u.pow[i]
			case 3:
				lc += u.pow[i]
				rc += u.pow[i]
			case 4:
				lc += u.pow[i]
				rc += 2 * u.pow[i]
			}
			y /= 5
		}
		f(lc, rc)
	}
}

func c12Tree(c *rt.Ctx) {
	eachTree(c, 2, offsets(2), func(off int, base ref.U, hosty bool) {
		c.Case(func() {
			u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, base), 2, hosty)
			u.prepare(false)
			d := &differ{u: u}
			what := func() string { return u.name }
			u.relations(0, 1, func(lc, rc int) {
				d.run(c, u.tabs[lc], u.tabs[rc], lc, rc, allHandlers, 0, what)
				d.run(c, u.tabs[lc], u.tabs[rc], lc, rc, hChanged|hLeft|hRight, 0, what)
				c.States++
			})
			c.Traces++
			c.Sample(func() string { return u.name + ": 5^7 relations, e.g. diff of " + u.str(1234) + " and " + u.str(777) })
		})
	})
}

func c12Full(c *rt.Ctx) {
	offs := []int{W - 2}
	if c.Thorough {
		offs = []int{0, 7, W/2 - 1, W - 2}
	}
	for _, off := range offs {
		off := off
		if !c.WantBlock(2187) {
			c.Skip(2187)
			continue
		}
		var u *tuni
		c.Guard(func() {
			u = newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)), 2, false)
			u.prepare(false)
		})
		d := &differ{u: u}
		what := func() string { return u.name }
		for lc := 0; lc < u.n; lc++ {
			lc := lc
			c.Case(func() {
				for rc := 0; rc < u.n; rc++ {
					d.run(c, u.tabs[lc], u.tabs[rc], lc, rc, allHandlers, 0, what)
				}
				c.States++
			})
		}
	}
}

func c12Handlers(c *rt.Ctx) {
	offs := []int{0, W/2 - 1, W - 2}
	if c.Thorough {
		offs = offsets(2)
	}
	for _, off := range offs {
		off := off
		if !c.WantBlock(125) {
			c.Skip(125)
			continue
		}
		var u *tuni
		c.Guard(func() {
			u = newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)), 2, off == 0)
			u.prepare(false)
		})
		d := &differ{u: u}
		what := func() string { return u.name }
		for b := 0; b < 125; b++ {
			b := b
			c.Case(func() {
				u.relations(b, 125, func(lc, rc int) {
					for h := 0; h < 16; h++ {
						d.run(c, u.tabs[lc], u.tabs[rc], lc, rc, h, 0, what)
						for stop := 1; stop <= len(d.want); stop++ {
							d.run(c, u.tabs[lc], u.tabs[rc], lc, rc, h, stop, what)
						}
					}
					c.States++
				})
				c.Traces++
			})
		}
		c.Sample(func() string { return u.name + ": 5^7 relations x 16 handler subsets x every stop position" })
	}
}

func c12Bushes(c *rt.Ctx) {
	n := 0
	eachBush(c.Thorough, func(a, b, dd int, base ref.U) {
		n++
		hosty := n%2 == 0
		c.Case(func() {
			u := newTuni(fmt.Sprintf("bush %d %d %d", a, b, dd), bushKeys(a, b, dd, base), 2, hosty)
			u.prepare(false)
			d := &differ{u: u}
			what := func() string { return u.name }
			u.relations(0, 1, func(lc, rc int) {
				d.run(c, u.tabs[lc], u.tabs[rc], lc, rc, allHandlers, 0, what)
				d.run(c, u.tabs[lc], u.tabs[rc], lc, rc, hChanged|hLeft|hRight, 0, what)
				c.States++
			})
			c.Traces++
		})
	})
}

// c12Derived: the tables of a pair share structure: one is made from the other
// by up to two operations.
func c12Derived(c *rt.Ctx) {
	var us []*tuni
	offs := []int{0, W/2 - 1, W - 2}
	if c.Thorough {
		offs = keyOffsets(2)
	}
	for _, off := range offs {
		us = append(us, newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)), 2, false))
	}
	for _, u := range us {
		u := u
		if !c.WantBlock(int64(u.n)) {
			c.Skip(int64(u.n))
			continue
		}
		c.Guard(func() { u.prepare(false) })
		d := &differ{u: u}
		for m := 0; m < u.n; m++ {
			m := m
			c.Case(func() {
				u.eachOp(func(op, i, v int) {
					t := u.tabs[m].Table_()
					code := u.apply(c, t, m, op, i, v, 0, func() string { return "" })
					tt := t.Table()
					what := func() string { return u.opStr(op, i, v) }
					for _, h := range []int{allHandlers, allHandlers &^ hUnchanged} {
						d.run(c, u.tabs[m], tt, m, code, h, 0, what)
						d.run(c, tt, u.tabs[m], code, m, h, 0, what)
					}
					d.run(c, tt, tt, code, code, allHandlers, 0, what)
					d.run(c, tt, tt, code, code, allHandlers&^hUnchanged, 0, what)
					if v == 2 || op != 4 && op != 2 {
						return
					}
					u.eachOp(func(op2, i2, v2 int) {
						if v2 == 2 || op2 != 4 && op2 != 2 {
							return
						}
						t := tt.Table_()
						code2 := u.apply(c, t, code, op2, i2, v2, 0, func() string { return "" })
						what := func() string { return u.opStr(op, i, v) + "; " + u.opStr(op2, i2, v2) }
						tt2 := t.Table()
						for _, h := range []int{allHandlers, allHandlers &^ hUnchanged} {
							d.run(c, u.tabs[m], tt2, m, code2, h, 0, what)
							d.run(c, tt2, u.tabs[m], code2, m, h, 0, what)
						}
					})
				})
				c.States++
				c.Traces++
			})
		}
	}
}

func c12Shapes(c *rt.Ctx) {
	var lens []int
	if W > 32 && !c.Thorough {
		lens = keyLens()
	}
	n := 0
	eachShape(lens, func(s shape) {
		n++
		if !c.Mine() {
			c.Skip(1)
			return
		}
		c.Case(func() {
			a, b := s.prefixes(pattern([]int{patAlt, patOnes, patAlt2, patZeros}[n%4]))
			u := newTuni("pair", []ref.P{a, b}, 2, n%2 == 0)
			u.prepare(false)
			d := &differ{u: u}
			for lc := range u.tabs {
				for rc := range u.tabs {
					d.run(c, u.tabs[lc], u.tabs[rc], lc, rc, allHandlers, 0, func() string { return u.name })
					c.States++
				}
			}
			c.Traces++
		})
	})
}

func c12Triples(c *rt.Ctx) {
	eachTriple(c, func(keys []ref.P) {
		c.Case(func() {
			u := newTuni("triple", keys, 2, false)
			u.prepare(false)
			d := &differ{u: u}
			u.relations(0, 1, func(lc, rc int) {
				d.run(c, u.tabs[lc], u.tabs[rc], lc, rc, allHandlers, 0, func() string { return u.name })
				c.States++
			})
			c.Traces++
		})
	})
}

// c12Tree15: each of 15 prefixes is absent, left only or right only, with the
// third level varied over half of its relations.
func c12Tree15(c *rt.Ctx) {
	offs := []int{W - 3}
	if c.Thorough {
		offs = []int{0, W/2 - 1, W - 3}
	}
	for _, off := range offs {
		off := off
		const blocks = 2187 // 3^7
		if !c.WantBlock(blocks) {
			c.Skip(blocks)
			continue
		}
		var u *tuni
		c.Guard(func() {
			u = newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 3, pattern(patAlt)), 2, false)
		})
		d := &differ{u: u}
		for b := 0; b < blocks; b++ {
			b := b
			c.Case(func() {
				// the relation (absent, left, right) of seven inner prefixes
				// is b; each leaf is on both sides, absent or on one side
				lc0, rc0 := 0, 0
				y := b
				var leaves []int
				for i := range u.keys {
					if u.keys[i].Len == off+3 {
						leaves = append(leaves, i)
						continue
					}
					switch y % 3 {
					case 1:
						lc0 += u.pow[i]
					case 2:
						rc0 += u.pow[i]
					}
					y /= 3
				}
				// 256 leaf subsets on the left against: complement, same and empty on the right
				for x := 0; x < 256; x++ {
					lc := lc0
					var rc [3]int
					for r := range rc {
						rc[r] = rc0
					}
					for j, i := range leaves {
						if x>>uint(j)&1 == 1 {
							lc += u.pow[i]
							rc[1] += 2 * u.pow[i]
						} else {
							rc[0] += u.pow[i]
						}
					}
					lt := u.table(lc)
					for r := range rc {
						if r != b%3 && !c.Thorough {
							continue
						}
						d.run(c, lt, u.table(rc[r]), lc, rc[r], allHandlers, 0, func() string { return u.name })
						c.States++
					}
				}
				c.Traces++
			})
		}
	}
}
