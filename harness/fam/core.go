package fam

import (
	"fmt"
	"sort"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

type named[T any] struct {
	name string
	v    T
}

type maskMaker struct {
	name string
	make func() (ip.Mask, error)
}

// Tasks returns this family's tasks for a property.
func Tasks(prop string) []rt.Task {
	var out []rt.Task
	for _, t := range registry[prop] {
		out = append(out, rt.Task{Name: famName + "/" + t.Name, Run: t.Run})
	}
	return out
}

var registry = map[string][]rt.Task{}

func reg(prop, name string, run func(c *rt.Ctx)) {
	registry[prop] = append(registry[prop], rt.Task{Name: name, Run: run})
}

func init() {
	regSets()
	regRanges()
	regValues()
	regTables()
	regImmut()
	regMemory()
	regUnrelated()
	regConc()
	regAgain()
	regLarge()
	regCost()
	regFaults()
	regWork()
	regCollect()
	regNest()
	regMany()
	regHuge()
	regWait()
	regInter()
	regSame()
	regAsym()
}

// ---- conversions

func mkMask(n int) ip.Mask {
	m, err := ip.MaskFromLength(n)
	if err != nil {
		panic(err)
	}
	return m
}

func mkP(p ref.P) ip.Prefix { return ip.PrefixFromAddressMask(mkA(p.A), mkMask(p.Len)) }
func up(p ip.Prefix) ref.P  { return ref.P{A: ua(p.Address()), Len: p.Length()} }

func mkR(iv ref.Iv) ip.Range {
	r, empty := ip.RangeFromAddresses(mkA(iv.First), mkA(iv.Last))
	if empty {
		panic(fmt.Sprintf("range %s-%s reported empty", iv.First.Str(W), iv.Last.Str(W)))
	}
	return r
}
func ur(r ip.Range) ref.Iv { return ref.Iv{First: ua(r.First()), Last: ua(r.Last())} }

func normP(p ip.Prefix) ref.P { return up(p).Norm(W) }

// ---- sets

func walkSet(s ip.Set) []ref.P {
	var out []ref.P
	s.WalkPrefixes(func(p ip.Prefix) bool {
		out = append(out, up(p))
		return len(out) < 1000000
	})
	return out
}

// sameSet compares the set with its expected canonical prefixes.
func sameSet(s ip.Set, want []ref.P) bool {
	i := 0
	ok := true
	done := s.WalkPrefixes(func(p ip.Prefix) bool {
		if i >= len(want) || up(p) != want[i] {
			ok = false
			return false
		}
		i++
		return true
	})
	return ok && done && i == len(want)
}

func str(ps []ref.P) string { return ref.PrefixesStr(W, ps) }

func checkSet(c *rt.Ctx, s ip.Set, want []ref.P, what func() string) {
	if !sameSet(s, want) {
		c.Failf("%s\n  is   %s\n  want %s", what(), str(walkSet(s)), str(want))
	}
}

// setOf builds a set by inserting the prefixes in order.
func setOf(ps []ref.P) ip.Set {
	s_ := ip.NewSet_()
	for _, p := range ps {
		s_.Insert(mkP(p))
	}
	return s_.Set()
}

// ---- universes: 2^k equal blocks below a prefix of length off

type uni struct {
	off, k int
	base   ref.U
	tail   int // extra bits between the varied bits and the block length
	atoms  []ref.P
	want   [][]ref.P // canonical prefixes per mask
	ref    []ref.Set
	sets   []ip.Set
	turn   int
	texts  []string
}

// text is the expected text of a set.
func (u *uni) text(m int) string {
	if u.texts == nil {
		u.texts = make([]string, len(u.want))
		for i, w := range u.want {
			u.texts[i] = str(w)
		}
	}
	return u.texts[m]
}

func (u *uni) String() string {
	return fmt.Sprintf("universe of %d blocks, first %s, last %s", len(u.atoms), u.atoms[0].Str(W), u.atoms[len(u.atoms)-1].Str(W))
}

const (
	patZeros = iota
	patOnes
	patAlt
	patAlt2
	nPat
)

// pattern gives a W bit number whose bits follow the pattern
func pattern(p int) ref.U {
	switch p {
	case patOnes:
		return ref.Max(W)
	case patAlt:
		return ref.U{Hi: 0x5555555555555555, Lo: 0x5555555555555555}.And(ref.Max(W))
	case patAlt2:
		return ref.U{Hi: 0xaaaaaaaaaaaaaaaa, Lo: 0xaaaaaaaaaaaaaaaa}.And(ref.Max(W))
	}
	return ref.Zero
}

// A place is a prefix with a meaning of its own, where code might be tempted to do
// something special.
type place struct {
	base ref.U
	len  int
}

func places() []place {
	if W == 32 {
		v4 := func(a, b, c, d uint64, l int) place { return place{ref.U{Lo: a<<24 | b<<16 | c<<8 | d}, l} }
		return []place{
			v4(0, 0, 0, 0, 8), v4(0, 0, 0, 0, 32), v4(10, 0, 0, 0, 8), v4(100, 64, 0, 0, 10), v4(127, 0, 0, 0, 8), v4(127, 0, 0, 1, 32),
			v4(169, 254, 0, 0, 16), v4(172, 16, 0, 0, 12), v4(192, 0, 2, 0, 24), v4(192, 168, 0, 0, 16), v4(192, 168, 1, 0, 24),
			v4(198, 18, 0, 0, 15), v4(224, 0, 0, 0, 4), v4(239, 255, 255, 250, 32), v4(240, 0, 0, 0, 4), v4(255, 255, 255, 255, 32), v4(255, 255, 255, 0, 24),
		}
	}
	v6 := func(hi, lo uint64, l int) place { return place{ref.U{Hi: hi, Lo: lo}, l} }
	return []place{
		v6(0, 0, 128), v6(0, 1, 128), v6(0, 0, 96), v6(0, 0xffff<<32, 96), v6(0, 0xffff0a000000, 104), v6(0x64ff9b<<32, 0, 96), v6(0x100<<48, 0, 64),
		v6(0x20010000<<32, 0, 32), v6(0x20010db8<<32, 0, 32), v6(0x20010db800000001, 0, 64), v6(0x20010db800000001, 0xff0000428329, 128),
		v6(0x2002<<48, 0, 16), v6(0xfc<<56, 0, 7), v6(0xfe80<<48, 0, 10), v6(0xfe80<<48, 0, 64), v6(0xfe80<<48, 0x0211_22ff_fe33_4455, 128),
		v6(0xff<<56, 0, 8), v6(0xff02<<48, 1, 128), v6(^uint64(0), 0, 64), v6(^uint64(0), ^uint64(0), 128),
	}
}

// top keeps the first n bits
func top(u ref.U, n int) ref.U { return ref.P{A: u, Len: n}.Net(W) }

func newUni(off, k int, base ref.U) *uni {
	u := &uni{off: off, k: k, base: top(base, off)}
	for i := 0; i < 1<<uint(k); i++ {
		a := u.base
		for j := 0; j < k; j++ {
			if i>>uint(k-1-j)&1 == 1 {
				a = a.Or(ref.BitAt(W, off+j))
			}
		}
		u.atoms = append(u.atoms, ref.P{A: a, Len: off + k})
	}
	return u
}

// sparseUni varies the bits at the given positions; blocks have length n.
func sparseUni(pos []int, n int, base ref.U) *uni {
	u := &uni{off: pos[0], k: len(pos)}
	b := top(base, n)
	for _, p := range pos {
		b = b.And(ref.BitAt(W, p).Not())
	}
	u.base = b
	for i := 0; i < 1<<uint(len(pos)); i++ {
		a := b
		for j, p := range pos {
			if i>>uint(len(pos)-1-j)&1 == 1 {
				a = a.Or(ref.BitAt(W, p))
			}
		}
		u.atoms = append(u.atoms, ref.P{A: a, Len: n})
	}
	return u
}

func (u *uni) prepare() {
	n := 1 << uint(len(u.atoms))
	u.want = make([][]ref.P, n)
	u.ref = make([]ref.Set, n)
	u.sets = make([]ip.Set, n)
	for m := 0; m < n; m++ {
		var ps []ref.P
		for i, a := range u.atoms {
			if m>>uint(i)&1 == 1 {
				ps = append(ps, a)
			}
		}
		u.ref[m] = ref.FromPrefixes(W, ps)
		u.want[m] = u.ref[m].Prefixes(W)
		u.sets[m] = setOf(u.want[m])
	}
}

// offsets returns every offset a k bit universe can have.
func offsets(k int) []int {
	var out []int
	for o := 0; o+k <= W; o++ {
		out = append(out, o)
	}
	return out
}

// keyOffsets are the offsets where word sizes, byte or space boundaries fall
// within or next to a k bit universe.
func keyOffsets(k int) []int {
	want := map[int]bool{}
	add := func(o int) {
		if o >= 0 && o+k <= W {
			want[o] = true
		}
	}
	for _, b := range []int{0, 8, 16, 32, 64, 96, W} {
		if b > W {
			continue
		}
		for d := -k; d <= 1; d++ {
			add(b + d)
		}
	}
	var out []int
	for o := range want {
		out = append(out, o)
	}
	sort.Ints(out)
	return out
}

// sparsePositions are bit position tuples that are not adjacent.
func sparsePositions(k int, thorough bool) [][]int {
	var cand []int
	if W == 32 {
		cand = []int{0, 1, 7, 8, 15, 16, 23, 30, 31}
		if thorough {
			cand = []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 29, 30, 31}
		}
	} else {
		cand = []int{0, 1, 31, 32, 62, 63, 64, 65, 96, 126, 127}
		if thorough {
			cand = []int{0, 1, 2, 15, 31, 32, 33, 62, 63, 64, 65, 66, 95, 96, 97, 125, 126, 127}
		}
	}
	var out [][]int
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if len(cur) == k {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for i := from; i < len(cand); i++ {
			rec(i+1, append(cur, cand[i]))
		}
	}
	rec(0, nil)
	return out
}

// boundaries are the addresses next to powers of two and the ends of the space.
func boundaries(span int) []ref.U {
	seen := map[ref.U]bool{}
	var out []ref.U
	add := func(u ref.U) {
		u = u.And(ref.Max(W))
		if !seen[u] {
			seen[u] = true
			out = append(out, u)
		}
	}
	for i := 0; i <= W; i++ {
		p := ref.Zero
		if i < W {
			p = ref.Pow2(i)
		}
		for d := -span; d <= span; d++ {
			x := p
			for j := 0; j < d; j++ {
				x = x.Inc()
			}
			for j := 0; j > d; j-- {
				x = x.Dec()
			}
			add(x)
			add(x.Not())
		}
	}
	for p := 0; p < nPat; p++ {
		add(pattern(p))
	}
	for _, p := range places() {
		q := ref.P{A: p.base, Len: p.len}
		add(p.base)
		add(q.Last(W))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Less(out[j]) })
	return out
}

// keyLens are the prefix lengths next to the ends and to word boundaries.
func keyLens() []int {
	if W == 32 {
		return []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 30, 31, 32}
	}
	return []int{0, 1, 2, 31, 32, 33, 63, 64, 65, 66, 96, 126, 127, 128}
}

// shape is a pair of prefixes with a given relation: they agree on the first
// div bits and, if div is less than both lengths, differ in bit div.
type shape struct {
	la, lb, div int
	swap        bool // a has the 1 in bit div
}

func (s shape) prefixes(base ref.U) (a, b ref.P) {
	x := top(base, s.div)
	min := s.la
	if s.lb < min {
		min = s.lb
	}
	av, bv := base, base
	if s.div < min {
		// keep the pattern in the rest of both, differ in bit div
		bit := ref.BitAt(W, s.div)
		rest := base.And(ref.LowMask(W - s.div - 1))
		av, bv = x.Or(rest), x.Or(rest)
		if s.swap {
			av = av.Or(bit)
		} else {
			bv = bv.Or(bit)
		}
		// make the tails differ so that nothing agrees by accident
		bv = bv.Xor(ref.LowMask(W - s.div - 1))
	}
	return ref.P{A: top(av, s.la), Len: s.la}, ref.P{A: top(bv, s.lb), Len: s.lb}
}

// eachShape enumerates every relation of two prefixes whose lengths are in the
// list (nil for all).
func eachShape(lens []int, f func(s shape)) {
	if lens == nil {
		for i := 0; i <= W; i++ {
			lens = append(lens, i)
		}
	}
	for _, la := range lens {
		for _, lb := range lens {
			min := la
			if lb < min {
				min = lb
			}
			for d := 0; d < min; d++ {
				f(shape{la, lb, d, false})
				f(shape{la, lb, d, true})
			}
			f(shape{la, lb, min, false})
		}
	}
}
