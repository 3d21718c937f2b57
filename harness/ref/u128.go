// Package ref holds the reference models: deliberately simple, written without
// looking at how the library does it, and independent of the library.
package ref

import (
	"fmt"
	"math/big"
	"math/bits"
	"net/netip"
)

// U is an unsigned 128 bit number. IPv4 addresses use the low 32 bits.
type U struct{ Hi, Lo uint64 }

var Zero = U{}
var One = U{0, 1}

func (a U) Cmp(b U) int {
	switch {
	case a.Hi < b.Hi:
		return -1
	case a.Hi > b.Hi:
		return 1
	case a.Lo < b.Lo:
		return -1
	case a.Lo > b.Lo:
		return 1
	}
	return 0
}
func (a U) Less(b U) bool { return a.Cmp(b) < 0 }
func (a U) Add(b U) U {
	lo, c := bits.Add64(a.Lo, b.Lo, 0)
	hi, _ := bits.Add64(a.Hi, b.Hi, c)
	return U{hi, lo}
}
func (a U) Sub(b U) U {
	lo, c := bits.Sub64(a.Lo, b.Lo, 0)
	hi, _ := bits.Sub64(a.Hi, b.Hi, c)
	return U{hi, lo}
}
func (a U) Inc() U    { return a.Add(One) }
func (a U) Dec() U    { return a.Sub(One) }
func (a U) And(b U) U { return U{a.Hi & b.Hi, a.Lo & b.Lo} }
func (a U) Or(b U) U  { return U{a.Hi | b.Hi, a.Lo | b.Lo} }
func (a U) Xor(b U) U { return U{a.Hi ^ b.Hi, a.Lo ^ b.Lo} }
func (a U) Not() U    { return U{^a.Hi, ^a.Lo} }

// Pow2 returns 2^n for 0 <= n < 128
func Pow2(n int) U {
	if n >= 64 {
		return U{1 << uint(n-64), 0}
	}
	return U{0, 1 << uint(n)}
}

// LowMask returns 2^n - 1 for 0 <= n <= 128
func LowMask(n int) U {
	if n >= 128 {
		return U{^uint64(0), ^uint64(0)}
	}
	return Pow2(n).Dec()
}
func (a U) Big() *big.Int {
	b := new(big.Int).SetUint64(a.Hi)
	b.Lsh(b, 64)
	return b.Or(b, new(big.Int).SetUint64(a.Lo))
}
func (a U) Bytes(w int) []byte {
	var b [16]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(a.Hi >> uint(56-8*i))
		b[8+i] = byte(a.Lo >> uint(56-8*i))
	}
	return append([]byte(nil), b[16-w/8:]...)
}

// Bit returns the i-th most significant bit of a w bit number.
func (a U) Bit(w, i int) int {
	n := w - 1 - i
	if n >= 64 {
		return int(a.Hi>>uint(n-64)) & 1
	}
	return int(a.Lo>>uint(n)) & 1
}

// BitAt returns the number with only the i-th most significant of w bits set.
func BitAt(w, i int) U { return Pow2(w - 1 - i) }

// Max returns the highest address of the family with w bits.
func Max(w int) U { return LowMask(w) }

// Str formats an address the way net/netip does.
func (a U) Str(w int) string {
	ad, _ := netip.AddrFromSlice(a.Bytes(w))
	return ad.String()
}

// P is a prefix: an address, possibly with host bits, and a length.
type P struct {
	A   U
	Len int
}

func (p P) Net(w int) U   { return p.A.And(LowMask(w - p.Len).Not()).And(Max(w)) }
func (p P) First(w int) U { return p.Net(w) }
func (p P) Last(w int) U  { return p.Net(w).Or(LowMask(w - p.Len)) }
func (p P) Norm(w int) P  { return P{p.Net(w), p.Len} }
func (p P) Iv(w int) Iv   { return Iv{p.First(w), p.Last(w)} }
func (p P) Set(w int) Set { return Set{p.Iv(w)} }
func (p P) Str(w int) string {
	return fmt.Sprintf("%s/%d", p.A.Str(w), p.Len)
}

// Contains reports whether q's addresses all lie in p, host bits ignored.
func (p P) Contains(w int, q P) bool {
	return p.Len <= q.Len && P{q.A, p.Len}.Net(w) == p.Net(w)
}

// Less orders by network address and then by length.
func (p P) Less(w int, q P) bool {
	if c := p.Net(w).Cmp(q.Net(w)); c != 0 {
		return c < 0
	}
	return p.Len < q.Len
}
