package fam

import (
	"fmt"
	"math/big"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

func regSets() {
	reg("C01", "all pairs of sets over 8 blocks, every offset", c01Pairs)
	reg("C01", "all pairs of sets over 8 scattered points", c01Sparse)
	reg("C01", "all operand kinds", c01Kinds)
	reg("C01", "every relation of two prefixes", c01Shapes)
	reg("C01", "three prefixes", c01Triples)
	reg("C01", "pairs of ranges", c01Ranges)
	reg("C01", "sets against large sets", c01Large)

	reg("C02", "histories over 4 blocks, every offset", c02Histories4)
	reg("C02", "all orders of 8 blocks", c02Orders8)
	reg("C02", "closure of structures under all operations", c02Closure)
	reg("C02", "results of operations on all pairs of sets", c02Ops)
	reg("C02", "sets over 8 and 16 blocks", c02Wide)
	reg("C02", "equality of every pair", c02Equal)
	reg("C02", "scattered points", c02Sparse)
	reg("C02", "every relation of two prefixes", c02Shapes)

	reg("C03", "closure of set states", c03Closure)
	reg("C03", "operation sequences", c03Sequences)
	reg("C03", "argument kinds and aliases", c03Kinds)
	reg("C03", "long prefixes and scattered points", c03Sparse)

	reg("C04", "walks and counts over 8 blocks", c04Walks)
	reg("C04", "walks and counts over scattered points", c04Sparse)
	reg("C04", "address walks", c04Addresses)
	reg("C04", "counts of pairs of prefixes", c04Counts)

	reg("C08", "every space and reserved set over 8 blocks", c08Pairs)
	reg("C08", "scattered points", c08Sparse)
	reg("C08", "prefix minus prefix", c08Shapes)
	reg("C08", "allocation sequences", c08Sequences)
	reg("C08", "reserved kinds", c08Kinds)
}

// ---------------------------------------------------------------- C01

func checkAlgebra(c *rt.Ctx, u *uni, a, b int) {
	A, B := u.sets[a], u.sets[b]
	if s := A.Union(B); !sameSet(s, u.want[a|b]) {
		c.Failf("union of %s and %s\n  is   %s\n  want %s", str(u.want[a]), str(u.want[b]), str(walkSet(s)), str(u.want[a|b]))
	}
	if s := A.Intersection(B); !sameSet(s, u.want[a&b]) {
		c.Failf("intersection of %s and %s\n  is   %s\n  want %s", str(u.want[a]), str(u.want[b]), str(walkSet(s)), str(u.want[a&b]))
	}
	if s := A.Difference(B); !sameSet(s, u.want[a&^b]) {
		c.Failf("difference of %s and %s\n  is   %s\n  want %s", str(u.want[a]), str(u.want[b]), str(walkSet(s)), str(u.want[a&^b]))
	}
	if got := A.Contains(B); got != (b&^a == 0) {
		c.Failf("%s contains %s: %v", str(u.want[a]), str(u.want[b]), got)
	}
	c.Trans += 4
}

func universes(c *rt.Ctx, k int, pats []int, offs []int, f func(u *uni)) {
	for _, off := range offs {
		seen := map[ref.U]bool{}
		for _, p := range pats {
			u := newUni(off, k, pattern(p))
			if seen[u.base] {
				continue
			}
			seen[u.base] = true
			if c.Stopped() {
				return
			}
			f(u)
		}
	}
	if len(offs) < 20 {
		return
	}
	for n, p := range places() {
		off := p.len - n%2
		if off+k > W {
			off = W - k
		}
		f(newUni(off, k, p.base))
	}
}

func c01Pairs(c *rt.Ctx) {
	pats := []int{patZeros, patOnes}
	if c.Thorough {
		pats = []int{patZeros, patOnes, patAlt, patAlt2}
	}
	offs := offsets(3)
	universes(c, 3, pats, offs, func(u *uni) {
		if !c.WantBlock(256) {
			c.Skip(256)
			return
		}
		c.Guard(u.prepare)
		for a := 0; a < 256; a++ {
			a := a
			c.Case(func() {
				if got := u.sets[a].IsEmpty(); got != (a == 0) {
					c.Failf("%s IsEmpty: %v", str(u.want[a]), got)
				}
				for b := 0; b < 256; b++ {
					checkAlgebra(c, u, a, b)
				}
				c.States++
				c.Traces += 256
			})
		}
		c.Sample(func() string {
			return fmt.Sprintf("%v: A=%s op B=%s for op in union, intersection, difference, contains", u, str(u.want[0xa7]), str(u.want[0x1c]))
		})
	})
}

func c01Sparse(c *rt.Ctx) {
	for _, pos := range sparsePositions(3, c.Thorough) {
		var lens []int
		for _, n := range []int{pos[2] + 1, (pos[2] + 1 + W) / 2, W} {
			if len(lens) == 0 || lens[len(lens)-1] != n {
				lens = append(lens, n)
			}
		}
		if !c.Thorough && len(lens) > 2 {
			lens = []int{lens[0], lens[len(lens)-1]}
		}
		for i, n := range lens {
			u := sparseUni(pos, n, pattern((pos[0]+i)%nPat))
			if !c.WantBlock(256) {
				c.Skip(256)
				continue
			}
			c.Guard(u.prepare)
			for a := 0; a < 256; a++ {
				a := a
				c.Case(func() {
					for b := 0; b < 256; b++ {
						checkAlgebra(c, u, a, b)
						c.Traces++
					}
					c.States++
				})
			}
		}
	}
}

// kind is something that can be passed as a SetI
type kind struct {
	name string
	mk   func() ip.SetI
}

// kinds lists every kind of value that denotes the content.
func kinds(content ref.Set) []kind {
	ps := content.Prefixes(W)
	out := []kind{
		{"Set", func() ip.SetI { return setOf(ps) }},
		{"Set_", func() ip.SetI {
			s := ip.NewSet_()
			s.Insert(setOf(ps))
			return s
		}},
		{"type of the caller", func() ip.SetI { return ownSet{func() ip.Set { return setOf(ps) }} }},
		{"pointer to a Set", func() ip.SetI { s := setOf(ps); return &s }},
	}
	if len(content) == 0 {
		out = append(out,
			kind{"nil", func() ip.SetI { return nil }},
			kind{"zero Set", func() ip.SetI { return ip.Set{} }},
			kind{"zero Set_", func() ip.SetI { return ip.Set_{} }})
	}
	if len(content) == 1 {
		out = append(out, kind{"Range", func() ip.SetI { return mkR(content[0]) }})
	}
	if len(ps) == 1 {
		p := ps[0]
		out = append(out, kind{"Prefix", func() ip.SetI { return mkP(p) }})
		out = append(out, kind{"Prefix within a type of the caller", func() ip.SetI { return mkOwn(mkP(p)) }})
		if p.Len < W {
			q := ref.P{A: p.A.Or(ref.LowMask(W - p.Len)), Len: p.Len}
			out = append(out, kind{"Prefix with host bits", func() ip.SetI { return mkP(q) }})
		} else {
			out = append(out, kind{"Address", func() ip.SetI { return mkA(p.A) }})
		}
	}
	return out
}

// setOps are the methods that Set and Set_ have in common
type setOps interface {
	ip.SetI
	Union(ip.SetI) ip.Set
	Intersection(ip.SetI) ip.Set
	Difference(ip.SetI) ip.Set
	Contains(ip.SetI) bool
	IsEmpty() bool
}

type container interface {
	Contains(ip.SetI) bool
}

func checkKinds(c *rt.Ctx, a, b ref.Set) {
	un, in, di, co := a.Union(b).Prefixes(W), a.Inter(b).Prefixes(W), a.Diff(b).Prefixes(W), a.Contains(b)
	for _, ka := range kinds(a) {
		for _, kb := range kinds(b) {
			va, vb := ka.mk(), kb.mk()
			what := func(op string) func() string {
				return func() string {
					return fmt.Sprintf("%s of %s %s and %s %s", op, ka.name, a.Str(W), kb.name, b.Str(W))
				}
			}
			if x, ok := va.(setOps); ok {
				checkSet(c, x.Union(vb), un, what("union"))
				checkSet(c, x.Intersection(vb), in, what("intersection"))
				checkSet(c, x.Difference(vb), di, what("difference"))
				if x.IsEmpty() != (len(a) == 0) {
					c.Failf("%s %s IsEmpty %v", ka.name, a.Str(W), x.IsEmpty())
				}
				c.Trans += 3
				// the operands still are what they were
				checkSet(c, x.Set(), a.Prefixes(W), what("first operand after operations"))
			}
			if vb != nil {
				checkSet(c, vb.Set(), b.Prefixes(W), what("second operand after operations"))
			}
			if x, ok := va.(container); ok {
				if got := x.Contains(vb); got != co {
					c.Failf("%s: %v", what("contains")(), got)
				}
				c.Trans++
			}
			c.Traces++
		}
	}
}

func c01Kinds(c *rt.Ctx) {
	pats := []int{patZeros, patOnes}
	if c.Thorough {
		pats = []int{patZeros, patOnes, patAlt, patAlt2}
	}
	universes(c, 2, pats, offsets(2), func(u *uni) {
		if !c.WantBlock(16) {
			c.Skip(16)
			return
		}
		c.Guard(u.prepare)
		for a := 0; a < 16; a++ {
			a := a
			c.Case(func() {
				for b := 0; b < 16; b++ {
					checkKinds(c, u.ref[a], u.ref[b])
				}
				c.States++
			})
		}
	})
}

func c01Shapes(c *rt.Ctx) {
	pats := []int{patZeros, patOnes}
	if c.Thorough {
		pats = []int{patZeros, patOnes, patAlt, patAlt2}
	}
	eachShape(nil, func(s shape) {
		c.Case(func() {
			for _, p := range pats {
				pa, pb := s.prefixes(pattern(p))
				c01Shape(c, pa, pb)
			}
			c.States++
		})
	})
}

func c01Shape(c *rt.Ctx, pa, pb ref.P) {
	a, b := pa.Set(W), pb.Set(W)
	A, B := mkP(pa).Set(), mkP(pb).Set()
	what := func(op string) func() string {
		return func() string { return fmt.Sprintf("%s of %s and %s", op, pa.Str(W), pb.Str(W)) }
	}
	checkSet(c, A.Union(B), a.Union(b).Prefixes(W), what("union"))
	checkSet(c, A.Intersection(B), a.Inter(b).Prefixes(W), what("intersection"))
	if a.Inter(b).Equal(ref.Set{}) || b.Contains(a) {
		checkSet(c, A.Difference(B), a.Diff(b).Prefixes(W), what("difference"))
	} else {
		checkSet(c, A.Difference(B), a.Diff(b).Prefixes(W), what("difference"))
		if A.Difference(B).Contains(B) || A.Difference(B).Contains(A) {
			c.Failf("%s: what is left still contains an operand", what("difference")())
		}
	}
	if got := A.Contains(B); got != a.Contains(b) {
		c.Failf("%s: %v", what("contains")(), got)
	}
	if got := mkP(pa).Contains(mkP(pb)); got != a.Contains(b) {
		c.Failf("%s: %v", what("prefix contains")(), got)
	}
	c.Trans += 5
	c.Traces++
}

// c01Triples: (A u B) - C, (A u B) n C, A - (B u C) with A, B and C of every
// relation with key lengths
func c01Triples(c *rt.Ctx) {
	lens := keyLens()
	if !c.Thorough {
		if W == 32 {
			lens = []int{0, 1, 8, 16, 17, 31, 32}
		} else {
			lens = []int{0, 1, 63, 64, 65, 127, 128}
		}
	}
	var cuts []int
	for _, l := range lens {
		if l < W {
			cuts = append(cuts, l)
		}
	}
	// members: prefixes with a key length whose first bits are a base pattern
	// with at most one bit flipped at a key position
	var mem []ref.P
	seen := map[ref.P]bool{}
	for _, base := range []ref.U{pattern(patAlt), pattern(patOnes)} {
		for _, l := range lens {
			for _, f := range append([]int{-1}, cuts...) {
				a := base
				if f >= 0 {
					a = a.Xor(ref.BitAt(W, f))
				}
				p := ref.P{A: top(a, l), Len: l}
				if !seen[p] {
					seen[p] = true
					mem = append(mem, p)
				}
			}
		}
	}
	if c.Shard == 0 {
		c.Note("three_prefixes_members", int64(len(mem)))
	}
	for i := range mem {
		for j := i; j < len(mem); j++ {
			i, j := i, j
			c.Case(func() {
				ab := mem[i].Set(W).Union(mem[j].Set(W))
				AB := mkP(mem[i]).Set().Union(mkP(mem[j]))
				for k := range mem {
					x := mem[k].Set(W)
					X := mkP(mem[k]).Set()
					what := func(op string) func() string {
						return func() string {
							return fmt.Sprintf("%s of {%s, %s} and %s", op, mem[i].Str(W), mem[j].Str(W), mem[k].Str(W))
						}
					}
					checkSet(c, AB.Difference(X), ab.Diff(x).Prefixes(W), what("difference"))
					checkSet(c, AB.Intersection(X), ab.Inter(x).Prefixes(W), what("intersection"))
					checkSet(c, AB.Union(X), ab.Union(x).Prefixes(W), what("union"))
					if X.Contains(AB) != x.Contains(ab) || AB.Contains(X) != ab.Contains(x) {
						c.Failf("%s: %v %v", what("containment")(), X.Contains(AB), AB.Contains(X))
					}
					checkSet(c, X.Difference(AB), x.Diff(ab).Prefixes(W), what("reversed difference"))
					c.Trans += 6
					c.Traces++
				}
				c.States++
			})
		}
	}
}

// rangePoints are addresses that make interesting range ends.
func rangePoints() []ref.U {
	m := ref.Max(W)
	pts := []ref.U{ref.Zero, {Hi: 0, Lo: 1}, {Hi: 0, Lo: 2}, {Hi: 0, Lo: 3}, {Hi: 0, Lo: 6}}
	if W == 32 {
		pts = append(pts, ref.U{Lo: 0x7ffffffe}, ref.U{Lo: 0x7fffffff}, ref.U{Lo: 0x80000000}, ref.U{Lo: 0x80000001},
			ref.U{Lo: 0xffff}, ref.U{Lo: 0x10000}, ref.U{Lo: 0x0a00001f}, ref.U{Lo: 0xaaaaaaaa})
	} else {
		pts = append(pts, ref.U{Lo: ^uint64(0) - 1}, ref.U{Lo: ^uint64(0)}, ref.U{Hi: 1}, ref.U{Hi: 1, Lo: 1},
			ref.U{Hi: 0x7fffffffffffffff, Lo: ^uint64(0)}, ref.U{Hi: 0x8000000000000000}, ref.U{Hi: 0x20010db8, Lo: 5},
			ref.U{Hi: 0xaaaaaaaaaaaaaaaa, Lo: 0xaaaaaaaaaaaaaaaa}, ref.U{Hi: 0x8000000000000000, Lo: 0x8000000000000000})
	}
	return append(pts, m.Sub(ref.U{Lo: 4}), m.Sub(ref.U{Lo: 2}), m.Dec(), m)
}

func rangesOver(pts []ref.U) []ref.Iv {
	var out []ref.Iv
	for i := range pts {
		for j := range pts {
			if !pts[j].Less(pts[i]) {
				out = append(out, ref.Iv{First: pts[i], Last: pts[j]})
			}
		}
	}
	return out
}

func c01Ranges(c *rt.Ctx) {
	rs := rangesOver(rangePoints())
	for i := range rs {
		i := i
		c.Case(func() {
			a := ref.Set{rs[i]}
			A := mkR(rs[i])
			AS := A.Set()
			for j := range rs {
				b := ref.Set{rs[j]}
				B := mkR(rs[j])
				what := func(op string) func() string {
					return func() string { return fmt.Sprintf("%s of ranges %v and %v", op, A, B) }
				}
				checkSet(c, AS.Union(B), a.Union(b).Prefixes(W), what("union"))
				checkSet(c, AS.Intersection(B), a.Inter(b).Prefixes(W), what("intersection"))
				checkSet(c, AS.Difference(B), a.Diff(b).Prefixes(W), what("difference"))
				if A.Contains(B) != a.Contains(b) {
					c.Failf("%s: %v", what("contains")(), A.Contains(B))
				}
				c.Trans += 4
				c.Traces++
			}
			c.States++
		})
	}
}

// c01Large: sets of hundreds of prefixes against small and large ones.
func c01Large(c *rt.Ctx) {
	n := 256
	if c.Thorough {
		n = 2048
	}
	type big struct {
		name string
		ps   []ref.P
	}
	var bigs []big
	for _, step := range []int{2, 3, 7} {
		for _, sh := range []int{0, W/2 - 3, W - 14} {
			var ps []ref.P
			for i := 0; i < n; i++ {
				a := ref.U{Lo: uint64(i * step)}
				for j := 0; j < sh; j++ {
					a = a.Add(a)
				}
				ps = append(ps, ref.P{A: a.And(ref.Max(W)), Len: W - sh})
			}
			bigs = append(bigs, big{fmt.Sprintf("%d blocks of 2^%d, every %d", n, sh, step), ps})
		}
	}
	var ladder []ref.P
	for l := 1; l <= W; l++ {
		ladder = append(ladder, ref.P{A: ref.BitAt(W, l-1), Len: l})
	}
	bigs = append(bigs, big{"ladder of every length", ladder})
	for i := range bigs {
		for j := range bigs {
			i, j := i, j
			c.Case(func() {
				a, b := ref.FromPrefixes(W, bigs[i].ps), ref.FromPrefixes(W, bigs[j].ps)
				A, B := setOf(bigs[i].ps), setOf(bigs[j].ps)
				what := func(op string) func() string {
					return func() string { return fmt.Sprintf("%s of (%s) and (%s)", op, bigs[i].name, bigs[j].name) }
				}
				checkSet(c, A.Union(B), a.Union(b).Prefixes(W), what("union"))
				checkSet(c, A.Intersection(B), a.Inter(b).Prefixes(W), what("intersection"))
				checkSet(c, A.Difference(B), a.Diff(b).Prefixes(W), what("difference"))
				if A.Contains(B) != a.Contains(b) {
					c.Failf("%s: %v", what("contains")(), A.Contains(B))
				}
				c.Trans += 4
				c.Traces++
				c.States++
			})
		}
	}
}

// ---------------------------------------------------------------- C02

type hist struct {
	name string
	mk   func(u *uni, m int) ip.Set
}

func atomSet(u *uni, m int) []ref.P {
	var ps []ref.P
	for i, a := range u.atoms {
		if m>>uint(i)&1 == 1 {
			ps = append(ps, a)
		}
	}
	return ps
}

// histories are different ways to arrive at the same contents
func histories() []hist {
	rev := func(ps []ref.P) []ref.P {
		var out []ref.P
		for i := len(ps) - 1; i >= 0; i-- {
			out = append(out, ps[i])
		}
		return out
	}
	all := func(u *uni) int { return 1<<uint(len(u.atoms)) - 1 }
	return []hist{
		{"inserting the maximal prefixes", func(u *uni, m int) ip.Set { return setOf(u.want[m]) }},
		{"inserting the maximal prefixes backwards", func(u *uni, m int) ip.Set { return setOf(rev(u.want[m])) }},
		{"inserting blocks", func(u *uni, m int) ip.Set { return setOf(atomSet(u, m)) }},
		{"inserting blocks backwards", func(u *uni, m int) ip.Set { return setOf(rev(atomSet(u, m))) }},
		{"inserting ranges", func(u *uni, m int) ip.Set {
			s := ip.NewSet_()
			for _, iv := range u.ref[m] {
				s.Insert(mkR(iv))
			}
			return s.Set()
		}},
		{"removing blocks from everything", func(u *uni, m int) ip.Set {
			s := setOf(u.atoms).Set_()
			for _, p := range atomSet(u, all(u)&^m) {
				s.Remove(mkP(p))
			}
			return s.Set()
		}},
		{"removing blocks backwards from the whole space", func(u *uni, m int) ip.Set {
			s := ip.NewSet_()
			s.Insert(mkP(ref.P{}))
			for _, p := range rev(atomSet(u, all(u)&^m)) {
				s.Remove(mkP(p))
			}
			return s.Set().Intersection(setOf(u.atoms))
		}},
		{"removing everything else as ranges", func(u *uni, m int) ip.Set {
			s := ip.NewSet_()
			s.Insert(mkP(ref.P{}))
			for _, iv := range (ref.Set{{First: ref.Zero, Last: ref.Max(W)}}).Diff(u.ref[m]) {
				s.Remove(mkR(iv))
			}
			return s.Set()
		}},
		{"intersecting complements", func(u *uni, m int) ip.Set {
			s := setOf(u.atoms)
			for _, p := range atomSet(u, all(u)&^m) {
				s = s.Intersection(setOf(u.atoms).Difference(mkP(p)))
			}
			return s
		}},
		{"joining halves", func(u *uni, m int) ip.Set {
			return setOf(atomSet(u, m&0x5555)).Union(setOf(atomSet(u, m&^0x5555)))
		}},
		{"inserting, removing and inserting again", func(u *uni, m int) ip.Set {
			s := setOf(atomSet(u, m)).Set_()
			s.Insert(mkP(u.atoms[0]))
			s.Remove(setOf(atomSet(u, m|1)))
			for _, p := range u.want[m] {
				s.Insert(ip.PrefixFromAddressMask(mkA(p.Last(W)), mkMask(p.Len)))
			}
			return s.Set()
		}},
	}
}

func checkCanonical(c *rt.Ctx, s ip.Set, want []ref.P, first *ip.Set, what func() string) {
	checkSet(c, s, want, what)
	if got := s.String(); got != str(want) {
		c.Failf("%s\n  shows as %s\n  want     %s", what(), got, str(want))
	}
	if first != nil {
		if !s.Equal(*first) || !first.Equal(s) {
			c.Failf("%s\n  is not Equal to the same addresses inserted as maximal prefixes: %s", what(), str(want))
		}
		if !s.Set_().Equal(first.Set_()) || !first.Set_().Equal(s.Set_()) {
			c.Failf("%s\n  as Set_ is not Equal to the same addresses inserted as maximal prefixes: %s", what(), str(want))
		}
	}
}

func c02Check(c *rt.Ctx, u *uni, m int) {
	hs := histories()
	first := hs[0].mk(u, m)
	for _, h := range hs {
		s := h.mk(u, m)
		checkCanonical(c, s, u.want[m], &first, func() string { return h.name })
		c.Traces++
	}
	c.States++
	c.Trans += int64(len(hs))
}

func c02Histories4(c *rt.Ctx) {
	pats := []int{patZeros, patOnes, patAlt, patAlt2}
	universes(c, 2, pats, offsets(2), func(u *uni) {
		if !c.WantBlock(16) {
			c.Skip(16)
			return
		}
		c.Guard(u.prepare)
		for m := 0; m < 16; m++ {
			m := m
			c.Case(func() { c02Check(c, u, m) })
		}
		c.Sample(func() string { return fmt.Sprintf("%v: %s built by %d histories", u, str(u.want[7]), len(histories())) })
	})
}

func permutations(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

// c02Orders8: every order of inserting (and of removing) 5 or more of 8 blocks.
func c02Orders8(c *rt.Ctx) {
	n := 6
	if c.Thorough {
		n = 8
	}
	for _, off := range []int{0, W/2 - 1, W - 3} {
		u := newUni(off, 3, pattern(patAlt))
		if c.Stopped() {
			return
		}
		c.Guard(u.prepare)
		permutations(n, func(p []int) {
			c.Case(func() {
				s := ip.NewSet_()
				m := 0
				for _, i := range p {
					s.Insert(mkP(u.atoms[i]))
					m |= 1 << uint(i)
					first := u.sets[m]
					checkCanonical(c, s.Set(), u.want[m], &first, func() string { return fmt.Sprintf("inserting blocks in the order %v", p) })
				}
				for _, i := range p {
					s.Remove(mkP(u.atoms[i]))
					m &^= 1 << uint(i)
					first := u.sets[m]
					checkCanonical(c, s.Set(), u.want[m], &first, func() string { return fmt.Sprintf("removing blocks in the order %v", p) })
				}
				c.Trans += int64(2 * len(p))
				c.Traces++
			})
		})
	}
}

func c02Wide(c *rt.Ctx) {
	universes(c, 3, []int{patAlt}, offsets(3), func(u *uni) {
		if !c.WantBlock(256) {
			c.Skip(256)
			return
		}
		c.Guard(u.prepare)
		for m := 0; m < 256; m++ {
			m := m
			c.Case(func() { c02Check(c, u, m) })
		}
	})
	// 16 blocks, all 65536 sets
	offs := []int{0, W - 4}
	if c.Thorough {
		offs = keyOffsets(4)
	}
	for i, off := range offs {
		u := newUni(off, 4, pattern(i%nPat))
		for m := 0; m < 1<<16; m += 64 {
			m := m
			c.Case(func() {
				for x := m; x < m+64; x++ {
					ps := atomSet(u, x)
					want := ref.FromPrefixes(W, ps).Prefixes(W)
					a := setOf(want)
					checkCanonical(c, a, want, nil, func() string { return "inserting the maximal prefixes" })
					b := setOf(ps)
					checkCanonical(c, b, want, &a, func() string { return "inserting blocks" })
					d := setOf(u.atoms).Difference(setOf(atomSet(u, 0xffff&^x)))
					checkCanonical(c, d, want, &a, func() string { return "taking blocks away" })
					c.States++
					c.Trans += 3
					c.Traces += 3
				}
			})
		}
	}
}

// c02Closure: all structures that operations on sets can build from 4 (8)
// blocks, explored to a fixed point: every operation on every pair of structures
// found so far. Each is canonical.
func c02Closure(c *rt.Ctx) {
	type node struct {
		s ip.Set
		m int
	}
	run := func(off, k, pat int) {
		u := newUni(off, k, pattern(pat))
		c.Case(func() {
			u.prepare()
			seen := map[uint64]bool{}
			var all []node
			add := func(s ip.Set, m int, what func() string) {
				d := dump(s)
				if seen[d] {
					return
				}
				seen[d] = true
				checkCanonical(c, s, u.want[m], &u.sets[m], what)
				all = append(all, node{s, m})
				c.States++
			}
			add(ip.Set{}, 0, func() string { return "the empty set" })
			for i, a := range u.atoms {
				add(mkP(a).Set(), 1<<uint(i), func() string { return a.Str(W) })
			}
			for i := 0; i < len(all); i++ {
				if len(all) > 4<<uint(len(u.atoms)) {
					// allowed, but too many to follow
					c.Cap("the same set has many structures")
					return
				}
				for j := 0; j <= i; j++ {
					for _, x := range [][2]node{{all[i], all[j]}, {all[j], all[i]}} {
						a, b := x[0], x[1]
						pair := func(op string) func() string {
							return func() string { return fmt.Sprintf("%s of %s and %s", op, str(u.want[a.m]), str(u.want[b.m])) }
						}
						add(a.s.Union(b.s), a.m|b.m, pair("union"))
						add(a.s.Intersection(b.s), a.m&b.m, pair("intersection"))
						add(a.s.Difference(b.s), a.m&^b.m, pair("difference"))
						ins, rem := a.s.Set_(), a.s.Set_()
						ins.Insert(b.s)
						rem.Remove(b.s)
						add(ins.Set(), a.m|b.m, pair("insertion"))
						add(rem.Set(), a.m&^b.m, pair("removal"))
						c.Trans += 5
						c.Traces++
						if a.s.Equal(b.s) != (a.m == b.m) {
							c.Failf("%s Equal %s: %v", a.s, b.s, a.s.Equal(b.s))
						}
						if i == j {
							break
						}
					}
				}
			}
			if len(all) < 1<<uint(len(u.atoms)) {
				c.Failf("%v: only %d sets reached", u, len(all))
			}
		})
	}
	for _, off := range offsets(2) {
		for _, pat := range []int{patZeros, patOnes, patAlt} {
			run(off, 2, pat)
		}
	}
	offs := keyOffsets(3)
	if c.Thorough {
		offs = offsets(3)
	}
	for i, off := range offs {
		run(off, 3, i%nPat)
	}
}

// c02Ops: the result of every operation on every pair of sets is canonical.
func c02Ops(c *rt.Ctx) {
	one := func(u *uni) {
		if !c.WantBlock(64) {
			c.Skip(64)
			return
		}
		c.Guard(u.prepare)
		for i := 0; i < 64; i++ {
			i := i
			c.Case(func() {
				for a := 4 * i; a < 4*i+4; a++ {
					for b := 0; b < 256; b++ {
						for k, s := range []ip.Set{u.sets[a].Union(u.sets[b]), u.sets[a].Intersection(u.sets[b]), u.sets[a].Difference(u.sets[b])} {
							m := []int{a | b, a & b, a &^ b}[k]
							first := u.sets[m]
							if !sameSet(s, u.want[m]) || !s.Equal(first) || !first.Equal(s) || s.String() != u.text(m) {
								checkCanonical(c, s, u.want[m], &first, func() string {
									return fmt.Sprintf("%s of %s and %s", []string{"union", "intersection", "difference"}[k], str(u.want[a]), str(u.want[b]))
								})
							}
						}
						c.Trans += 3
						c.Traces++
					}
					c.States++
				}
			})
		}
	}
	for i, pos := range sparsePositions(3, c.Thorough) {
		if !c.Thorough && i%3 != 0 {
			continue
		}
		one(sparseUni(pos, []int{pos[2] + 1, W}[i%2], pattern(i%nPat)))
	}
	offs := keyOffsets(3)
	if c.Thorough {
		offs = offsets(3)
	}
	universes(c, 3, []int{patAlt2}, offs, one)
}

// c02Equal: Equal for every ordered pair of sets, built by different histories
func c02Equal(c *rt.Ctx) {
	offs := keyOffsets(3)
	if c.Thorough {
		offs = offsets(3)
	}
	universes(c, 3, []int{patZeros, patOnes}, offs, func(u *uni) {
		if !c.WantBlock(256) {
			c.Skip(256)
			return
		}
		other := make([]ip.Set, 256)
		c.Guard(func() {
			u.prepare()
			h := histories()
			for m := range other {
				other[m] = h[m%len(h)].mk(u, m)
			}
		})
		for a := 0; a < 256; a++ {
			a := a
			c.Case(func() {
				am := u.sets[a].Set_()
				for b := 0; b < 256; b++ {
					if got := u.sets[a].Equal(other[b]); got != (a == b) {
						c.Failf("%s Equal %s: %v", str(u.want[a]), str(u.want[b]), got)
					}
					if got := am.Equal(other[b].Set_()); got != (a == b) {
						c.Failf("Set_ %s Equal %s: %v", str(u.want[a]), str(u.want[b]), got)
					}
					c.Trans += 2
					c.Traces++
				}
				c.States++
			})
		}
	})
}

func c02Sparse(c *rt.Ctx) {
	for i, pos := range sparsePositions(3, c.Thorough) {
		n := []int{pos[2] + 1, W}[i%2]
		u := sparseUni(pos, n, pattern(i%nPat))
		if !c.WantBlock(64) {
			c.Skip(64)
			continue
		}
		c.Guard(u.prepare)
		for j := 0; j < 64; j++ {
			j := j
			c.Case(func() {
				for m := j * 4; m < j*4+4; m++ {
					c02Check(c, u, m)
				}
			})
		}
	}
}

// c02Shapes: the union, difference and intersection of any two prefixes are
// equal to the sets made by inserting the expected prefixes.
func c02Shapes(c *rt.Ctx) {
	lens := keyLens()
	if c.Thorough {
		lens = nil
	}
	eachShape(lens, func(s shape) {
		c.Case(func() {
			for p := 0; p < nPat; p++ {
				if c.Thorough && p > 1 {
					break
				}
				pa, pb := s.prefixes(pattern(p))
				A, B := mkP(pa).Set(), mkP(pb).Set()
				a, b := pa.Set(W), pb.Set(W)
				for _, x := range []struct {
					name string
					got  ip.Set
					want ref.Set
				}{
					{"union", A.Union(B), a.Union(b)},
					{"reversed union", B.Union(A), a.Union(b)},
					{"intersection", A.Intersection(B), a.Inter(b)},
					{"difference", A.Difference(B), a.Diff(b)},
					{"difference put back", A.Difference(B).Union(B), a.Union(b)},
					{"union taken away", A.Union(B).Difference(B), a.Diff(b)},
				} {
					w := x.want.Prefixes(W)
					first := setOf(w)
					checkCanonical(c, x.got, w, &first, func() string {
						return fmt.Sprintf("%s of %s and %s", x.name, pa.Str(W), pb.Str(W))
					})
					c.Trans++
				}
				if (pa.Norm(W) == pb.Norm(W)) != A.Equal(B) {
					c.Failf("%s Equal %s: %v", pa.Str(W), pb.Str(W), A.Equal(B))
				}
				c.Traces++
			}
			c.States++
		})
	})
}

// ---------------------------------------------------------------- C03

func checkMutable(c *rt.Ctx, s, copy ip.Set_, want []ref.P, what func() string) {
	checkSet(c, s.Set(), want, what)
	if copy.Set().String() != s.Set().String() {
		c.Failf("%s: a copy of the mutable set has %s instead of %s", what(), copy.Set(), s.Set())
	}
	if s.IsEmpty() != (len(want) == 0) {
		c.Failf("%s: IsEmpty %v", what(), s.IsEmpty())
	}
	if n, ok := setmCount(s); ok {
		w := ref.FromPrefixes(W, want).Count()
		if n.Cmp(w) != 0 {
			c.Failf("%s: NumAddresses is %v, want %v", what(), n, w)
		}
	}
}

// c03Closure: from each of the 256 states, each operation with each of the 256
// sets as argument. The concrete state reached must be structurally the one
// that is used to represent the abstract state, which closes the induction; any
// other concrete state is explored in turn.
func c03Closure(c *rt.Ctx) {
	offs := []int{0, W/2 - 2, W - 3}
	if c.Thorough {
		offs = keyOffsets(3)
	}
	universes(c, 3, []int{patAlt, patOnes}, offs, func(u *uni) {
		if !c.WantBlock(256) {
			c.Skip(256)
			return
		}
		dumps := make([]uint64, 256)
		c.Guard(func() {
			u.prepare()
			for m := range dumps {
				dumps[m] = dump(u.sets[m])
			}
		})
		for m := 0; m < 256; m++ {
			m := m
			c.Case(func() {
				type st struct {
					s ip.Set
					m int
					h string
				}
				work := []st{{u.sets[m], m, str(u.want[m])}}
				seen := map[uint64]bool{dumps[m]: true}
				for len(work) > 0 && len(seen) < 200 {
					cur := work[0]
					work = work[1:]
					c.States++
					for arg := 0; arg < 256; arg++ {
						for op := 0; op < 2; op++ {
							s := cur.s.Set_()
							cp := s
							next, name := cur.m|arg, "insert"
							if op == 0 {
								s.Insert(u.sets[arg])
							} else {
								s.Remove(u.sets[arg])
								next, name = cur.m&^arg, "remove"
							}
							checkMutable(c, s, cp, u.want[next], func() string {
								return fmt.Sprintf("%s, %s %s", cur.h, name, str(u.want[arg]))
							})
							c.Trans++
							if d := dump(s.Set()); d != dumps[next] && !seen[d] {
								seen[d] = true
								c.Note("noncanonical_states", 1)
								work = append(work, st{s.Set(), next, fmt.Sprintf("%s, %s %s", cur.h, name, str(u.want[arg]))})
							}
						}
					}
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprintf("%v: from %s, remove %s", u, str(u.want[0x7e]), str(u.want[0x18])) })
	})
}

// prefixesOf lists every prefix of the universe tree: the blocks and all the
// larger prefixes up to the whole universe.
func prefixesOf(off, k int, base ref.U) []ref.P {
	var out []ref.P
	for l := 0; l <= k; l++ {
		for i := 0; i < 1<<uint(l); i++ {
			a := top(base, off)
			for j := 0; j < l; j++ {
				if i>>uint(l-1-j)&1 == 1 {
					a = a.Or(ref.BitAt(W, off+j))
				}
			}
			out = append(out, ref.P{A: a, Len: off + l})
		}
	}
	return out
}

// c03Sequences: every sequence of operations up to a length, no state merging.
func c03Sequences(c *rt.Ctx) {
	depth := 4
	offs := []int{0, W - 2}
	if c.Thorough {
		depth = 5
		offs = []int{0, W/2 - 1, W - 2}
	}
	for _, off := range offs {
		u := newUni(off, 2, pattern(patAlt2))
		if c.Stopped() {
			return
		}
		c.Guard(u.prepare)
		ps := prefixesOf(off, 2, u.base)
		var masks []int
		for _, p := range ps {
			m := 0
			for i, a := range u.atoms {
				if p.Contains(W, a) {
					m |= 1 << uint(i)
				}
			}
			masks = append(masks, m)
		}
		nops := 2 * len(ps)
		for first := 0; first < nops*nops; first++ {
			first := first
			c.Case(func() {
				seq := make([]int, depth)
				seq[0], seq[1] = first/nops, first%nops
				total := 1
				for i := 2; i < depth; i++ {
					total *= nops
				}
				for n := 0; n < total; n++ {
					x := n
					for i := 2; i < depth; i++ {
						seq[i] = x % nops
						x /= nops
					}
					s := ip.NewSet_()
					cp := s
					m := 0
					for i, op := range seq {
						if op < len(ps) {
							s.Insert(mkP(ps[op]))
							m |= masks[op]
						} else {
							s.Remove(mkP(ps[op-len(ps)]))
							m &^= masks[op-len(ps)]
						}
						c.Trans++
						if i >= 1 || n == 0 {
							checkMutable(c, s, cp, u.want[m], func() string {
								d := ""
								for _, op := range seq[:i+1] {
									if op < len(ps) {
										d += " insert " + ps[op].Str(W)
									} else {
										d += " remove " + ps[op-len(ps)].Str(W)
									}
								}
								return "after" + d
							})
						}
					}
					c.Traces++
				}
			})
		}
	}
}

// c03Kinds: every argument kind, nil, self and aliases, at every offset.
func c03Kinds(c *rt.Ctx) {
	universes(c, 2, []int{patZeros, patOnes}, offsets(2), func(u *uni) {
		if !c.WantBlock(16) {
			c.Skip(16)
			return
		}
		c.Guard(u.prepare)
		for a := 0; a < 16; a++ {
			a := a
			c.Case(func() {
				for b := 0; b < 16; b++ {
					for _, k := range kinds(u.ref[b]) {
						s := u.sets[a].Set_()
						cp := s
						s.Insert(k.mk())
						checkMutable(c, s, cp, u.want[a|b], func() string {
							return fmt.Sprintf("%s, insert %s %s", str(u.want[a]), k.name, str(u.want[b]))
						})
						s = u.sets[a].Set_()
						cp = s
						cp.Remove(k.mk())
						checkMutable(c, s, cp, u.want[a&^b], func() string {
							return fmt.Sprintf("%s, remove %s %s", str(u.want[a]), k.name, str(u.want[b]))
						})
						c.Trans += 2
						c.Traces++
					}
				}
				s := u.sets[a].Set_()
				cp := s
				s.Insert(s)
				checkMutable(c, s, cp, u.want[a], func() string { return str(u.want[a]) + ", insert itself" })
				s.Insert(cp)
				checkMutable(c, s, cp, u.want[a], func() string { return str(u.want[a]) + ", insert a copy of itself" })
				s.Remove(cp)
				checkMutable(c, s, cp, nil, func() string { return str(u.want[a]) + ", remove itself" })
				s.Insert(u.sets[a])
				checkMutable(c, cp, s, u.want[a], func() string { return str(u.want[a]) + ", removed and inserted again" })
				c.Trans += 4
				c.States++
			})
		}
	})
}

func c03Sparse(c *rt.Ctx) {
	poss := sparsePositions(3, c.Thorough)
	for i, pos := range poss {
		u := sparseUni(pos, []int{W, pos[2] + 1}[i%2], pattern(i%nPat))
		if !c.WantBlock(16) {
			c.Skip(16)
			continue
		}
		c.Guard(u.prepare)
		for j := 0; j < 16; j++ {
			j := j
			c.Case(func() {
				for m := j * 16; m < j*16+16; m++ {
					for k, a := range u.atoms {
						bit := 1 << uint(k)
						for op := 0; op < 2; op++ {
							s := u.sets[m].Set_()
							cp := s
							next := m | bit
							if op == 0 {
								s.Insert(mkP(a))
							} else {
								s.Remove(mkP(a))
								next = m &^ bit
							}
							checkMutable(c, s, cp, u.want[next], func() string {
								return fmt.Sprintf("%s, %s %s", str(u.want[m]), []string{"insert", "remove"}[op], a.Str(W))
							})
							c.Trans++
						}
					}
					c.Traces++
					c.States++
				}
			})
		}
	}
}

// ---------------------------------------------------------------- C04

var maxU64 = new(big.Int).SetUint64(^uint64(0))

func checkCount(c *rt.Ctx, got uint64, err error, want *big.Int, what func() string) {
	if want.Cmp(maxU64) > 0 {
		if err == nil {
			c.Failf("%s: got %d without an error, want an error since the number is %v", what(), got, want)
		}
		return
	}
	if err != nil {
		c.Failf("%s: error %v, want %v", what(), err, want)
	}
	if new(big.Int).SetUint64(got).Cmp(want) != 0 {
		c.Failf("%s: got %d, want %v", what(), got, want)
	}
}

// checkPrefixCount: an individual prefix's count that needs more than 63 bits
// may be an error or exact.
func checkSetCounts(c *rt.Ctx, s ip.Set, r ref.Set, lens []int, what func() string) {
	if n, ok := setCount(s); ok {
		if w := r.Count(); n.Cmp(w) != 0 {
			c.Failf("%s: NumAddresses is %v, want %v", what(), n, w)
		}
	}
	for _, l := range lens {
		got, err := s.NumPrefixes(uint32(l))
		want := r.NumPrefixes(W, l)
		checkCount(c, got, err, want, func() string { return fmt.Sprintf("%s: NumPrefixes(%d)", what(), l) })
		c.Trans++
	}
}

func checkWalks(c *rt.Ctx, s ip.Set, r ref.Set, want []ref.P, what func() string) {
	// prefixes, with every possible stop
	for stop := 0; stop <= len(want); stop++ {
		var got []ref.P
		done := s.WalkPrefixes(func(p ip.Prefix) bool {
			got = append(got, up(p))
			return len(got) <= stop && len(got) <= len(want)
		})
		exp := want
		if stop < len(want) {
			exp = want[:stop+1]
		}
		if len(got) != len(exp) || done != (stop >= len(want)) {
			c.Failf("%s: WalkPrefixes stopped by call %d made %d calls (want %d), returned %v", what(), stop+1, len(got), len(exp), done)
		}
		for i := range exp {
			if got[i] != exp[i] {
				c.Failf("%s: WalkPrefixes gives %s, want %s", what(), str(got), str(exp))
			}
		}
		c.Trans++
	}
	for stop := 0; stop <= len(r); stop++ {
		var got []ref.Iv
		done := s.WalkRanges(func(x ip.Range) bool {
			got = append(got, ur(x))
			return len(got) <= stop && len(got) <= len(r)
		})
		exp := r
		if stop < len(r) {
			exp = r[:stop+1]
		}
		if len(got) != len(exp) || done != (stop >= len(r)) {
			c.Failf("%s: WalkRanges stopped by call %d made %d calls (want %d), returned %v", what(), stop+1, len(got), len(exp), done)
		}
		for i := range exp {
			if got[i] != exp[i] {
				c.Failf("%s: WalkRanges call %d gives %v, want %v", what(), i, mkR(got[i]), mkR(exp[i]))
			}
		}
		c.Trans++
	}
}

func lensAround(off, k int) []int {
	var out []int
	for l := off - 1; l <= off+k+2; l++ {
		if l >= 0 && l <= W {
			out = append(out, l)
		}
	}
	for _, l := range []int{0, off + 62, off + 63, off + 64, off + 65, W - 1, W} {
		if l >= 0 && l <= W {
			out = append(out, l)
		}
	}
	return out
}

func c04Walks(c *rt.Ctx) {
	pats := []int{patZeros, patOnes}
	if c.Thorough {
		pats = []int{patZeros, patOnes, patAlt, patAlt2}
	}
	universes(c, 3, pats, offsets(3), func(u *uni) {
		if !c.WantBlock(256) {
			c.Skip(256)
			return
		}
		c.Guard(u.prepare)
		for m := 0; m < 256; m++ {
			m := m
			c.Case(func() {
				what := func() string { return str(u.want[m]) }
				checkWalks(c, u.sets[m], u.ref[m], u.want[m], what)
				checkSetCounts(c, u.sets[m], u.ref[m], lensAround(u.off, 3), what)
				c.States++
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprintf("walks of %s stopped at every call, counts", str(u.want[0xb6])) })
	})
	// 16 blocks
	for _, off := range []int{0, W - 4} {
		u := newUni(off, 4, pattern(patOnes))
		for m := 0; m < 1<<16; m += 64 {
			m := m
			c.Case(func() {
				for x := m; x < m+64; x++ {
					r := ref.FromPrefixes(W, atomSet(u, x))
					want := r.Prefixes(W)
					s := setOf(want)
					what := func() string { return str(want) }
					checkWalks(c, s, r, want, what)
					checkSetCounts(c, s, r, []int{off, off + 2, off + 4}, what)
					c.States++
					c.Traces++
				}
			})
		}
	}
}

func c04Sparse(c *rt.Ctx) {
	for i, pos := range sparsePositions(3, c.Thorough) {
		u := sparseUni(pos, []int{W, pos[2] + 1}[i%2], pattern(i%nPat))
		if !c.WantBlock(16) {
			c.Skip(16)
			continue
		}
		c.Guard(u.prepare)
		for j := 0; j < 16; j++ {
			j := j
			c.Case(func() {
				for m := j * 16; m < j*16+16; m++ {
					what := func() string { return str(u.want[m]) }
					checkWalks(c, u.sets[m], u.ref[m], u.want[m], what)
					checkSetCounts(c, u.sets[m], u.ref[m], lensAround(pos[2], 1), what)
					c.States++
					c.Traces++
				}
			})
		}
	}
}

// c04Addresses: walks by address (only IPv4 has them)
func c04Addresses(c *rt.Ctx) {
	if _, ok := walkAddresses(ip.Set{}, func(ip.Address) bool { return true }); !ok {
		return
	}
	check := func(s ip.Set, r ref.Set, what func() string) {
		n := int(r.Count().Int64())
		stops := []int{n}
		if n <= 24 {
			for i := 0; i < n; i++ {
				stops = append(stops, i)
			}
		} else {
			stops = append(stops, 0, 1, n/2, n-1)
		}
		for _, stop := range stops {
			calls := 0
			iv, next := 0, ref.Zero
			if len(r) > 0 {
				next = r[0].First
			}
			done, _ := walkAddresses(s, func(a ip.Address) bool {
				if iv >= len(r) || ua(a) != next {
					c.Failf("%s: WalkAddresses call %d gives %v", what(), calls, a)
				}
				if next == r[iv].Last {
					iv++
					if iv < len(r) {
						next = r[iv].First
					}
				} else {
					next = next.Inc()
				}
				calls++
				return calls <= stop
			})
			wantCalls := stop + 1
			if stop == n {
				wantCalls = n
			}
			if calls != wantCalls || done != (stop == n) {
				c.Failf("%s: WalkAddresses stopped by call %d made %d calls, returned %v", what(), stop+1, calls, done)
			}
			c.Trans += int64(calls)
		}
		c.Traces++
		c.States++
	}
	for k := 3; k <= 4; k++ {
		for _, p := range []int{patZeros, patOnes, patAlt} {
			for back := 0; back < 3; back++ {
				off := W - k - back
				u := newUni(off, k, pattern(p))
				step := 16
				for m := 0; m < 1<<uint(len(u.atoms)); m += step {
					m := m
					c.Case(func() {
						for x := m; x < m+step && x < 1<<uint(len(u.atoms)); x++ {
							r := ref.FromPrefixes(W, atomSet(u, x))
							check(setOf(r.Prefixes(W)), r, func() string { return r.Str(W) })
						}
					})
				}
			}
		}
	}
	// single prefixes and ranges of up to 2^16 addresses at both ends
	for l := W - 16; l <= W; l++ {
		for p := 0; p < nPat; p++ {
			pp := ref.P{A: top(pattern(p), l), Len: l}
			c.Case(func() { check(mkP(pp).Set(), pp.Set(W), func() string { return pp.Str(W) }) })
		}
	}
	for _, at := range []ref.U{ref.Zero, ref.Max(W).Sub(ref.U{Lo: 40}), {Lo: 0x7ffffff0}, {Lo: 0xfe}} {
		for i := uint64(0); i < 40; i++ {
			for j := i; j < 40; j++ {
				f, l := at.Add(ref.U{Lo: i}), at.Add(ref.U{Lo: j + 1})
				c.Case(func() {
					iv := ref.Iv{First: f, Last: l}
					check(mkR(iv).Set(), ref.Set{iv}, func() string { return mkR(iv).String() })
				})
			}
		}
	}
}

// c04Counts: counts for sets of one or two prefixes of every relation with key
// lengths and every sub-prefix length.
func c04Counts(c *rt.Ctx) {
	var all []int
	for l := 0; l <= W; l++ {
		all = append(all, l)
	}
	lens := keyLens()
	eachShape(lens, func(s shape) {
		c.Case(func() {
			pa, pb := s.prefixes(pattern(patAlt))
			r := pa.Set(W).Union(pb.Set(W))
			S := mkP(pa).Set().Union(mkP(pb))
			what := func() string { return fmt.Sprintf("{%s, %s}", pa.Str(W), pb.Str(W)) }
			checkSetCounts(c, S, r, all, what)
			checkWalks(c, S, r, r.Prefixes(W), what)
			r = pa.Set(W).Diff(pb.Set(W))
			S = mkP(pa).Set().Difference(mkP(pb))
			what = func() string { return fmt.Sprintf("%s minus %s", pa.Str(W), pb.Str(W)) }
			checkSetCounts(c, S, r, all, what)
			if len(r) > 0 {
				checkWalks(c, S, r, r.Prefixes(W), what)
			}
			c.States += 2
			c.Traces += 2
		})
	})
	// one prefix of each length
	for l := 0; l <= W; l++ {
		l := l
		c.Case(func() {
			for p := 0; p < nPat; p++ {
				pp := ref.P{A: top(pattern(p), l), Len: l}
				checkSetCounts(c, mkP(pp).Set(), pp.Set(W), all, func() string { return pp.Str(W) })
				c.States++
				c.Traces++
			}
		})
	}
}

// ---------------------------------------------------------------- C08

// checkAvailable checks one allocation against the free blocks.
func checkAvailable(c *rt.Ctx, space ip.Set, reserved ip.SetI, free []ref.P, length int, what func() string) (ref.P, bool) {
	got, err := space.FindAvailablePrefix(reserved, uint32(length))
	best := -1
	if length <= W {
		for _, f := range free {
			if f.Len <= length && f.Len > best {
				best = f.Len
			}
		}
	}
	c.Trans++
	if best < 0 {
		if err == nil {
			c.Failf("%s: FindAvailablePrefix(%d) gives %v although nothing is available; free: %s", what(), length, got, str(free))
		}
		return ref.P{}, false
	}
	if err != nil {
		c.Failf("%s: FindAvailablePrefix(%d) fails with %v although there is room; free: %s", what(), length, err, str(free))
	}
	g := up(got)
	if g.Len != length || g.Net(W) != g.A {
		c.Failf("%s: FindAvailablePrefix(%d) gives %v which is not a network prefix of that length", what(), length, got)
	}
	for _, f := range free {
		if f.Contains(W, g) {
			if f.Len != best {
				c.Failf("%s: FindAvailablePrefix(%d) gives %v from free block %s although a free /%d would do; free: %s", what(), length, got, f.Str(W), best, str(free))
			}
			return g, true
		}
	}
	c.Failf("%s: FindAvailablePrefix(%d) gives %v which is not free; free: %s", what(), length, got, str(free))
	return g, false
}

func c08Lens(off, k int) []int {
	var out []int
	for l := off - 1; l <= off+k+1; l++ {
		if l >= 0 && l <= W+1 {
			out = append(out, l)
		}
	}
	seen := map[int]bool{}
	for _, l := range out {
		seen[l] = true
	}
	for _, l := range []int{W, W + 1} {
		if !seen[l] {
			out = append(out, l)
		}
	}
	return out
}

func c08Pairs(c *rt.Ctx) {
	offs := keyOffsets(3)
	if c.Thorough {
		offs = offsets(3)
	}
	universes(c, 3, []int{patZeros, patOnes}, offs, func(u *uni) {
		if !c.WantBlock(256) {
			c.Skip(256)
			return
		}
		c.Guard(u.prepare)
		lens := c08Lens(u.off, 3)
		for a := 0; a < 256; a++ {
			a := a
			c.Case(func() {
				for b := 0; b < 256; b++ {
					for _, l := range lens {
						checkAvailable(c, u.sets[a], u.sets[b], u.want[a&^b], l, func() string {
							return fmt.Sprintf("space %s, reserved %s", str(u.want[a]), str(u.want[b]))
						})
					}
					c.Traces++
				}
				c.States++
			})
		}
		c.Sample(func() string {
			return fmt.Sprintf("space %s, reserved %s, lengths %v", str(u.want[0xfd]), str(u.want[0x31]), lens)
		})
	})
	// 16 blocks: every space against single reserved prefixes, every reserved in the whole
	offs = []int{0, W - 4}
	if c.Thorough {
		offs = []int{0, W/2 - 2, W - 6, W - 4}
	}
	for _, off := range offs {
		u := newUni(off, 4, pattern(patOnes))
		all := setOf(u.atoms)
		allRef := ref.FromPrefixes(W, u.atoms)
		whole := ref.P{}.Set(W)
		for m := 0; m < 1<<16; m += 32 {
			m := m
			c.Case(func() {
				for x := m; x < m+32; x++ {
					r := ref.FromPrefixes(W, atomSet(u, x))
					s := setOf(r.Prefixes(W))
					free := allRef.Diff(r).Prefixes(W)
					rest := whole.Diff(r).Prefixes(W)
					for l := off; l <= off+4; l++ {
						checkAvailable(c, all, s, free, l, func() string { return fmt.Sprintf("space %v, reserved %v", all, s) })
						checkAvailable(c, mkP(ref.P{}).Set(), s, rest, l, func() string { return fmt.Sprintf("space ::/0, reserved %v", s) })
						checkAvailable(c, s, ip.Set{}, r.Prefixes(W), l, func() string { return fmt.Sprintf("space %v, none reserved", s) })
					}
					c.Traces++
					c.States++
				}
			})
		}
	}
}

func c08Sparse(c *rt.Ctx) {
	for i, pos := range sparsePositions(3, c.Thorough) {
		u := sparseUni(pos, []int{W, pos[2] + 1, (pos[2] + 1 + W) / 2}[i%3], pattern(i%nPat))
		if !c.WantBlock(16) {
			c.Skip(16)
			continue
		}
		c.Guard(u.prepare)
		lens := []int{pos[0], pos[1], pos[1] + 1, pos[2], pos[2] + 1, W - 1, W}
		whole := ref.P{A: u.base, Len: pos[0]}
		for j := 0; j < 16; j++ {
			j := j
			c.Case(func() {
				for m := j * 16; m < j*16+16; m++ {
					// a large space with these points reserved
					free := whole.Set(W).Diff(u.ref[m]).Prefixes(W)
					for _, l := range lens {
						checkAvailable(c, mkP(whole).Set(), u.sets[m], free, l, func() string {
							return fmt.Sprintf("space %s, reserved %s", whole.Str(W), str(u.want[m]))
						})
					}
					for _, r := range []int{0x11, 0x0f, 0xaa, 0x3c, 0x80} {
						for _, l := range lens {
							checkAvailable(c, u.sets[m], u.sets[r], u.want[m&^r], l, func() string {
								return fmt.Sprintf("space %s, reserved %s", str(u.want[m]), str(u.want[r]))
							})
						}
					}
					c.Traces++
					c.States++
				}
			})
		}
	}
}

func c08Shapes(c *rt.Ctx) {
	eachShape(keyLens(), func(s shape) {
		c.Case(func() {
			for p := 0; p < 3; p++ {
				pa, pb := s.prefixes(pattern(p))
				free := pa.Set(W).Diff(pb.Set(W)).Prefixes(W)
				var lens []int
				if c.Thorough {
					for l := 0; l <= W+2; l++ {
						lens = append(lens, l)
					}
				} else {
					lens = append(keyLens(), s.la+1, s.lb+1, s.div+1, W+1)
				}
				for _, l := range lens {
					checkAvailable(c, mkP(pa).Set(), mkP(pb), free, l, func() string {
						return fmt.Sprintf("space %s, reserved %s", pa.Str(W), pb.Str(W))
					})
				}
				c.Traces++
			}
			c.States++
		})
	})
}

// c08Sequences: every sequence of allocations, each result added to reserved.
func c08Sequences(c *rt.Ctx) {
	depth := 5
	if c.Thorough {
		depth = 7
	}
	for _, off := range []int{0, W/2 - 2, W - 3} {
		for _, p := range []int{patZeros, patOnes} {
			for _, sp := range []int{0xff, 0x7e, 0xb7, 0x3f} {
				u := newUni(off, 3, pattern(p))
				space := ref.FromPrefixes(W, atomSet(u, sp))
				for first := 0; first < 3; first++ {
					first := first
					c.Case(func() {
						S := setOf(space.Prefixes(W))
						var rec func(res ip.Set_, r ref.Set, d int, h string)
						rec = func(res ip.Set_, r ref.Set, d int, h string) {
							if d == depth {
								c.Traces++
								return
							}
							for i := 0; i < 3; i++ {
								if d == 0 && i != first {
									continue
								}
								l := off + 1 + i
								free := space.Diff(r).Prefixes(W)
								got, ok := checkAvailable(c, S, res, free, l, func() string {
									return fmt.Sprintf("space %v, after allocating%s", S, h)
								})
								if !ok {
									c.Traces++
									continue
								}
								n := res.Set().Set_()
								n.Insert(mkP(got))
								c.States++
								rec(n, r.Union(got.Set(W)), d+1, h+" "+got.Str(W))
							}
						}
						rec(ip.NewSet_(), nil, 0, "")
					})
				}
			}
		}
	}
}

func c08Kinds(c *rt.Ctx) {
	universes(c, 2, []int{patZeros, patOnes}, offsets(2), func(u *uni) {
		if !c.WantBlock(16) {
			c.Skip(16)
			return
		}
		c.Guard(u.prepare)
		for a := 0; a < 16; a++ {
			a := a
			c.Case(func() {
				for b := 0; b < 16; b++ {
					for _, k := range kinds(u.ref[b]) {
						for _, l := range []int{u.off, u.off + 1, u.off + 2, W, W + 1} {
							checkAvailable(c, u.sets[a], k.mk(), u.want[a&^b], l, func() string {
								return fmt.Sprintf("space %s, reserved %s %s", str(u.want[a]), k.name, str(u.want[b]))
							})
						}
						c.Traces++
					}
				}
				for _, l := range []uint32{1 << 16, 1<<31 - 1, 1 << 31, ^uint32(0)} {
					if p, err := u.sets[a].FindAvailablePrefix(ip.Set{}, l); err == nil {
						c.Failf("space %s: FindAvailablePrefix(%d) gives %v", str(u.want[a]), l, p)
					}
				}
				c.States++
			})
		}
	})
}
