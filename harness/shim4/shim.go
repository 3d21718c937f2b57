package h4

import (
	"math/big"

	ip "gopkg.in/addrs.v1/ipv4"
	"gopkg.in/addrs.v1/zzverif/ref"
)

const W = 32
const famName = "ipv4"

func mkA(u ref.U) ip.Address { return ip.AddressFromUint32(uint32(u.Lo)) }
func ua(a ip.Address) ref.U  { return ref.U{Hi: 0, Lo: uint64(a.Uint32())} }

func maskFromU(u ref.U) (ip.Mask, error) { return ip.MaskFromUint32(uint32(u.Lo)) }
func um(m ip.Mask) ref.U                 { return ref.U{Hi: 0, Lo: uint64(m.Uint32())} }

func prefixNums(p ip.Prefix) (a, m ref.U) {
	x, y := p.Uint32()
	return ref.U{Hi: 0, Lo: uint64(x)}, ref.U{Hi: 0, Lo: uint64(y)}
}

// broadcast is the last address as a prefix, if the family has the notion
func broadcast(p ip.Prefix) (ip.Prefix, bool) { return p.Broadcast(), true }

// Address counts only exist for IPv4.
func setCount(s ip.Set) (*big.Int, bool)       { return big.NewInt(s.NumAddresses()), true }
func setmCount(s ip.Set_) (*big.Int, bool)     { return big.NewInt(s.NumAddresses()), true }
func rangeCount(r ip.Range) (*big.Int, bool)   { return big.NewInt(r.NumAddresses()), true }
func prefixCount(p ip.Prefix) (*big.Int, bool) { return big.NewInt(p.NumAddresses()), true }

func walkAddresses(s ip.Set, cb func(ip.Address) bool) (bool, bool) {
	return s.WalkAddresses(cb), true
}

// addressMakers are the numeric constructors
func addressMakers(u ref.U) []named[ip.Address] {
	b := u.Bytes(W)
	return []named[ip.Address]{
		{"AddressFromUint32", ip.AddressFromUint32(uint32(u.Lo))},
		{"AddressFromBytes", ip.AddressFromBytes(b[0], b[1], b[2], b[3])},
	}
}

func maskMakers(u ref.U) []maskMaker {
	b := u.Bytes(W)
	return []maskMaker{
		{"MaskFromUint32", func() (ip.Mask, error) { return ip.MaskFromUint32(uint32(u.Lo)) }},
		{"MaskFromBytes", func() (ip.Mask, error) { return ip.MaskFromBytes(b[0], b[1], b[2], b[3]) }},
	}
}
