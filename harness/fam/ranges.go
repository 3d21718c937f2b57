package fam

import (
	"fmt"
	"math/big"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

func regRanges() {
	reg("C05", "ranges between boundary addresses", c05Boundary)
	reg("C05", "all ranges in windows", c05Windows)
	reg("C05", "prefixes of every length", c05Prefixes)
	reg("C05", "containment of ranges and prefixes", c05Contains)
	reg("C05", "containment between all kinds of value", c05AllKinds)

	reg("C06", "pairs of ranges between boundary addresses", c06Boundary)
	reg("C06", "pairs of ranges in windows", c06Windows)
	reg("C06", "construction of ranges", c06Construct)
}

func checkRangeSet(c *rt.Ctx, iv ref.Iv, lens []int) {
	r := mkR(iv)
	want := ref.Set{iv}
	s := r.Set()
	what := func() string { return fmt.Sprintf("range %v", r) }
	checkSet(c, s, want.Prefixes(W), what)
	if ur(r) != iv {
		c.Failf("%s has first %v and last %v", what(), r.First(), r.Last())
	}
	// membership of the addresses around the ends
	for _, a := range []ref.U{iv.First, iv.Last, iv.First.Dec().And(ref.Max(W)), iv.Last.Inc().And(ref.Max(W)), ref.Zero, ref.Max(W)} {
		if got := s.Contains(mkA(a)); got != want.Has(a) {
			c.Failf("%s as a set contains %v: %v", what(), mkA(a), got)
		}
		if got := r.Contains(mkA(a)); got != want.Has(a) {
			c.Failf("%s contains %v: %v", what(), mkA(a), got)
		}
	}
	if n, ok := rangeCount(r); ok && n.Cmp(want.Count()) != 0 {
		c.Failf("%s: NumAddresses is %v, want %v", what(), n, want.Count())
	}
	for _, l := range lens {
		got, err := r.NumPrefixes(uint32(l))
		checkCount(c, got, err, want.NumPrefixes(W, l), func() string { return fmt.Sprintf("%s: NumPrefixes(%d)", what(), l) })
	}
	c.Trans += int64(7 + len(lens))
	c.Traces++
}

func c05Boundary(c *rt.Ctx) {
	span := 1
	if c.Thorough {
		span = 2
	}
	pts := boundaries(span)
	if !c.Thorough && W == 128 {
		// every third power of two away from the ends and the middle
		var keep []ref.U
		for i, p := range pts {
			if i < 40 || i > len(pts)-40 || i%2 == 0 || (p.Hi < 4 && p.Lo < 4) || (p.Hi == 0 && p.Lo > ^uint64(0)-4) {
				keep = append(keep, p)
			}
		}
		pts = keep
	}
	if c.Shard == 0 {
		c.Note("boundary_addresses", int64(len(pts)))
	}
	for i := range pts {
		for j0 := i; j0 < len(pts); j0 += 16 {
			i, j0 := i, j0
			c.Case(func() {
				for j := j0; j < j0+16 && j < len(pts); j++ {
					checkRangeSet(c, ref.Iv{First: pts[i], Last: pts[j]}, []int{0, W / 2, W - 1, W})
					c.States++
				}
			})
			c.Sample(func() string {
				return fmt.Sprintf("range %s-%s", pts[i].Str(W), pts[len(pts)/2].Str(W))
			})
		}
	}
}

// windows are places where 2^k consecutive addresses are looked at
func windows(n uint64) []ref.U {
	m := ref.Max(W)
	out := []ref.U{ref.Zero, m.Sub(ref.U{Lo: n - 1}), pattern(patAlt), pattern(patAlt2)}
	for _, b := range []int{8, 16, 24, 31, 32, 48, 63, 64, 65, 96, 127} {
		if b < W {
			out = append(out, ref.Pow2(b).Sub(ref.U{Lo: n / 2}))
		}
	}
	return out
}

func c05Windows(c *rt.Ctx) {
	n := 40
	if c.Thorough {
		n = 130
	}
	for _, w := range windows(uint64(n)) {
		for i := 0; i < n; i++ {
			i := i
			w := w
			c.Case(func() {
				for j := i; j < n; j++ {
					checkRangeSet(c, ref.Iv{First: w.Add(ref.U{Lo: uint64(i)}), Last: w.Add(ref.U{Lo: uint64(j)})}, []int{W - 6, W - 2, W - 1, W})
					c.States++
				}
			})
		}
	}
	// the same at a coarser grain: ranges of blocks, at every offset
	k := 4
	for off := 0; off+k <= W; off++ {
		for p := 0; p < nPat; p++ {
			off, p := off, p
			c.Case(func() {
				u := newUni(off, k, pattern(p))
				for i := range u.atoms {
					for j := i; j < len(u.atoms); j++ {
						iv := ref.Iv{First: u.atoms[i].First(W), Last: u.atoms[j].Last(W)}
						checkRangeSet(c, iv, []int{off + 2, off + k})
						if iv.First != iv.Last {
							checkRangeSet(c, ref.Iv{First: iv.First.Inc(), Last: iv.Last}, nil)
							checkRangeSet(c, ref.Iv{First: iv.First, Last: iv.Last.Dec()}, nil)
						}
						c.States++
					}
				}
			})
		}
	}
}

func c05Prefixes(c *rt.Ctx) {
	for l := 0; l <= W; l++ {
		for p := 0; p < nPat; p++ {
			l, p := l, p
			c.Case(func() {
				base := top(pattern(p), l)
				host := ref.LowMask(W - l)
				for _, h := range []ref.U{ref.Zero, host, host.And(pattern(patAlt)), host.And(ref.One), host.And(ref.One.Not())} {
					pp := ref.P{A: base.Or(h), Len: l}
					P := mkP(pp)
					want := pp.Set(W)
					what := func() string { return "prefix " + pp.Str(W) }
					checkSet(c, P.Set(), want.Prefixes(W), what)
					checkSet(c, P.Range().Set(), want.Prefixes(W), func() string { return what() + " as a range" })
					if got := P.Set().String(); got != want.Str(W) {
						c.Failf("%s: set shows as %s, want %s", what(), got, want.Str(W))
					}
					s_ := ip.NewSet_()
					s_.Insert(P)
					if !s_.Set().Equal(mkP(pp.Norm(W)).Set()) {
						c.Failf("%s: the set made by inserting it differs from the one of its network", what())
					}
					checkSet(c, P.Address().Set(), []ref.P{{A: pp.A, Len: W}}, func() string { return "address " + P.Address().String() })
					checkSet(c, P.Address().Prefix().Set(), []ref.P{{A: pp.A, Len: W}}, func() string { return "address " + P.Address().String() })
					if n, ok := prefixCount(P); ok && n.Cmp(want.Count()) != 0 {
						c.Failf("%s: NumAddresses is %v, want %v", what(), n, want.Count())
					}
					for _, a := range []ref.U{pp.First(W), pp.Last(W), pp.First(W).Dec().And(ref.Max(W)), pp.Last(W).Inc().And(ref.Max(W)), pp.A} {
						if got := P.Contains(mkA(a)); got != want.Has(a) {
							c.Failf("%s contains %v: %v", what(), mkA(a), got)
						}
						if got := P.Set().Contains(mkA(a)); got != want.Has(a) {
							c.Failf("%s as a set contains %v: %v", what(), mkA(a), got)
						}
					}
					c.Trans += 8
					c.States++
				}
				c.Traces++
			})
		}
	}
}

func c05Contains(c *rt.Ctx) {
	eachShape(keyLens(), func(s shape) {
		c.Case(func() {
			for p := 0; p < 3; p++ {
				pa, pb := s.prefixes(pattern(p))
				hb := ref.P{A: pb.A.Or(ref.LowMask(W - pb.Len)), Len: pb.Len}
				ha := ref.P{A: pa.A.Or(ref.LowMask(W - pa.Len).And(pattern(patAlt))), Len: pa.Len}
				want := pa.Set(W).Contains(pb.Set(W))
				A, B := mkP(ha), mkP(hb)
				for _, x := range []struct {
					n   string
					got bool
				}{
					{"prefix contains prefix", A.Contains(B)},
					{"prefix contains range", A.Contains(B.Range())},
					{"range contains prefix", A.Range().Contains(B)},
					{"range contains range", A.Range().Contains(B.Range())},
					{"set contains prefix", A.Set().Contains(B)},
					{"prefix contains set", A.Contains(B.Set())},
				} {
					if x.got != want {
						c.Failf("%s, %v and %v: %v", x.n, A, B, x.got)
					}
					c.Trans++
				}
				c.Traces++
			}
			c.States++
		})
	})
	rs := rangesOver(rangePoints())
	for i := range rs {
		i := i
		c.Case(func() {
			for j := range rs {
				want := (ref.Set{rs[i]}).Contains(ref.Set{rs[j]})
				if got := mkR(rs[i]).Contains(mkR(rs[j])); got != want {
					c.Failf("%v contains %v: %v", mkR(rs[i]), mkR(rs[j]), got)
				}
				c.Trans++
			}
			c.States++
			c.Traces++
		})
	}
}

// containers are the kinds of value that have Contains and denote the content.
func containers(content ref.Set) []container {
	var out []container
	for _, k := range kinds(content) {
		if x, ok := k.mk().(container); ok {
			out = append(out, x)
		}
	}
	return out
}

// c05AllKinds: every range of a few consecutive addresses or blocks contains
// every other, and every set of a gap, exactly when it does, whatever kinds of
// value they are given as.
func c05AllKinds(c *rt.Ctx) {
	contents := func(first, last []ref.U) []ref.Set {
		var out []ref.Set
		for i := range first {
			for j := i; j < len(last); j++ {
				out = append(out, ref.Set{{First: first[i], Last: last[j]}})
			}
		}
		n := len(first)
		for i := 0; i+2 < n; i++ {
			out = append(out, ref.Set{{First: first[i], Last: last[i]}, {First: first[i+2], Last: last[n-1]}})
		}
		return append(out, nil)
	}
	run := func(first, last []ref.U, where func() string) {
		c.Case(func() {
			cs := contents(first, last)
			ks := make([][]kind, len(cs))
			vs := make([][]ip.SetI, len(cs))
			for i := range cs {
				ks[i] = kinds(cs[i])
				for _, k := range ks[i] {
					vs[i] = append(vs[i], k.mk())
				}
			}
			for i := range cs {
				for n, x := range containers(cs[i]) {
					for j := range cs {
						want := cs[i].Contains(cs[j])
						for m, y := range vs[j] {
							if got := x.Contains(y); got != want {
								c.Failf("%s: container %d (%T) of %s contains %s %s: %v", where(), n, x, str(cs[i].Prefixes(W)), ks[j][m].name, str(cs[j].Prefixes(W)), got)
							}
							c.Trans++
						}
					}
				}
				c.States++
			}
			c.Traces++
		})
	}
	n := 7
	if c.Thorough {
		n = 12
	}
	for _, w := range windows(uint64(n)) {
		var a []ref.U
		for i := 0; i < n; i++ {
			a = append(a, w.Add(ref.U{Lo: uint64(i)}))
		}
		run(a, a, func() string { return "window at " + w.Str(W) })
	}
	k := 2
	if c.Thorough {
		k = 3
	}
	for off := 0; off+k <= W; off++ {
		for p := 0; p < nPat; p++ {
			if !c.Thorough && p != off%nPat {
				continue
			}
			u := newUni(off, k, pattern(p))
			var a, b []ref.U
			for _, x := range u.atoms {
				a = append(a, x.First(W))
				b = append(b, x.Last(W))
			}
			run(a, b, func() string { return fmt.Sprintf("blocks at %d", off) })
			// ranges that begin and end within blocks
			if off+k < W {
				for i := range a {
					a[i] = a[i].Inc()
				}
				run(a, b, func() string { return fmt.Sprintf("blocks at %d without their first", off) })
			}
		}
	}
}

// ---------------------------------------------------------------- C06

func checkRanges(c *rt.Ctx, got []ip.Range, want ref.Set, what func() string) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = ur(got[i]) == want[i]
	}
	if !ok {
		c.Failf("%s is %v, want %v", what(), got, func() (o []string) {
			for _, iv := range want {
				o = append(o, mkR(iv).String())
			}
			return
		}())
	}
}

func checkPlusMinus(c *rt.Ctx, a, b ref.Iv) {
	A, B := mkR(a), mkR(b)
	checkRanges(c, A.Plus(B), ref.Set{a}.Union(ref.Set{b}), func() string { return fmt.Sprintf("%v plus %v", A, B) })
	checkRanges(c, A.Minus(B), ref.Set{a}.Diff(ref.Set{b}), func() string { return fmt.Sprintf("%v minus %v", A, B) })
	if ur(A) != a || ur(B) != b {
		c.Failf("%v plus/minus %v changed an operand to %v, %v", mkR(a), mkR(b), A, B)
	}
	c.Trans += 2
}

func c06Boundary(c *rt.Ctx) {
	var pts []ref.U
	all := boundaries(2)
	step := len(all) / 70
	if c.Thorough {
		step = len(all) / 110
	}
	// always the ends, the powers next to word boundaries, and a spread
	for i, p := range all {
		near := func(q ref.U) bool {
			d := p.Sub(q)
			return d.Hi == 0 && d.Lo < 3 || q.Sub(p).Hi == 0 && q.Sub(p).Lo < 3
		}
		if i < 4 || i >= len(all)-4 || i%step == 0 || near(ref.Pow2(W-1)) || (W == 128 && near(ref.Pow2(64))) || (W == 128 && c.Thorough && near(ref.Pow2(63))) {
			pts = append(pts, p)
		}
	}
	rs := rangesOver(pts)
	if c.Shard == 0 {
		c.Note("range_ends", int64(len(pts)))
		c.Note("ranges", int64(len(rs)))
	}
	for i := range rs {
		i := i
		c.Case(func() {
			for j := range rs {
				checkPlusMinus(c, rs[i], rs[j])
				c.Traces++
			}
			c.States++
		})
		c.Sample(func() string { return fmt.Sprintf("%v plus/minus %v", mkR(rs[len(rs)/3]), mkR(rs[len(rs)/2])) })
	}
}

func c06Windows(c *rt.Ctx) {
	n := 10
	if c.Thorough {
		n = 16
	}
	var at []ref.U
	at = append(at, windows(uint64(n))...)
	for b := 3; b < W; b++ {
		at = append(at, ref.Pow2(b).Sub(ref.U{Lo: uint64(n / 2)}), ref.Pow2(b).Not().Sub(ref.U{Lo: uint64(n / 2)}).And(ref.Max(W)))
	}
	for _, w := range at {
		var pts []ref.U
		for i := 0; i < n; i++ {
			p := w.Add(ref.U{Lo: uint64(i)}).And(ref.Max(W))
			pts = append(pts, p)
		}
		sorted := true
		for i := 1; i < n; i++ {
			sorted = sorted && pts[i-1].Less(pts[i])
		}
		if !sorted {
			continue
		}
		rs := rangesOver(pts)
		for i := range rs {
			i := i
			c.Case(func() {
				for j := range rs {
					checkPlusMinus(c, rs[i], rs[j])
				}
				c.Traces += int64(len(rs))
				c.States++
			})
		}
	}
}

func c06Construct(c *rt.Ctx) {
	pts := boundaries(1)
	for i := range pts {
		i := i
		c.Case(func() {
			for j := range pts {
				r, empty := ip.RangeFromAddresses(mkA(pts[i]), mkA(pts[j]))
				if empty != pts[j].Less(pts[i]) {
					c.Failf("range from %v to %v: empty is %v", mkA(pts[i]), mkA(pts[j]), empty)
				}
				if !empty {
					if ur(r) != (ref.Iv{First: pts[i], Last: pts[j]}) {
						c.Failf("range from %v to %v is %v", mkA(pts[i]), mkA(pts[j]), r)
					}
					if want := "[" + pts[i].Str(W) + "," + pts[j].Str(W) + "]"; r.String() != want {
						c.Failf("range shows as %s, want %s", r, want)
					}
				}
				c.Trans++
				c.Traces++
			}
			c.States++
		})
	}
	c.Case(func() {
		if ur(ip.Range{}) != (ref.Iv{}) {
			c.Failf("zero range is %v", ip.Range{})
		}
		n, err := ip.Range{}.NumPrefixes(uint32(W))
		checkCount(c, n, err, big.NewInt(1), func() string { return "size of the zero range" })
	})
}
