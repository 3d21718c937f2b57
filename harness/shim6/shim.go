package h6

import (
	"math/big"

	ip "gopkg.in/addrs.v1/ipv6"
	"gopkg.in/addrs.v1/zzverif/ref"
)

const W = 128
const famName = "ipv6"

func mkA(u ref.U) ip.Address { return ip.AddressFromUint64(u.Hi, u.Lo) }
func ua(a ip.Address) ref.U {
	h, l := a.Uint64()
	return ref.U{Hi: h, Lo: l}
}

func maskFromU(u ref.U) (ip.Mask, error) { return ip.MaskFromUint64(u.Hi, u.Lo) }
func um(m ip.Mask) ref.U {
	h, l := m.Uint64()
	return ref.U{Hi: h, Lo: l}
}

func prefixNums(p ip.Prefix) (a, m ref.U) {
	x, y, z, w := p.Uint64()
	return ref.U{Hi: x, Lo: y}, ref.U{Hi: z, Lo: w}
}

func broadcast(p ip.Prefix) (ip.Prefix, bool) { return p, false }

func setCount(s ip.Set) (*big.Int, bool)       { return nil, false }
func setmCount(s ip.Set_) (*big.Int, bool)     { return nil, false }
func rangeCount(r ip.Range) (*big.Int, bool)   { return nil, false }
func prefixCount(p ip.Prefix) (*big.Int, bool) { return nil, false }

func walkAddresses(s ip.Set, cb func(ip.Address) bool) (bool, bool) { return false, false }

func words(u ref.U) [8]uint16 {
	var w [8]uint16
	b := u.Bytes(W)
	for i := range w {
		w[i] = uint16(b[2*i])<<8 | uint16(b[2*i+1])
	}
	return w
}

func addressMakers(u ref.U) []named[ip.Address] {
	w := words(u)
	return []named[ip.Address]{
		{"AddressFromUint64", ip.AddressFromUint64(u.Hi, u.Lo)},
		{"AddressFromUint16", ip.AddressFromUint16(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7])},
	}
}

func maskMakers(u ref.U) []maskMaker {
	w := words(u)
	return []maskMaker{
		{"MaskFromUint64", func() (ip.Mask, error) { return ip.MaskFromUint64(u.Hi, u.Lo) }},
		{"MaskFromUint16", func() (ip.Mask, error) {
			return ip.MaskFromUint16(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7])
		}},
	}
}
