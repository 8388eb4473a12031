package common

import (
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// A bit header is accepted exactly if it has at most 8 bits and no bit outside of its length; accepted values are read back unchanged.
//
//zz:mode=bv bound=all_256x256_arguments reach=ok,panic
func ZZ_BitHeader() {
	bits, n := PrefixBits(zz.U8("bits")), zz.U8("len")
	valid := n <= 8 && (n >= 8 || uint(bits)>>n == 0)
	var h BitHeader
	variant := zz.Choice("variant", 3)
	p := zz.Panics(func() {
		switch variant {
		case 0:
			h = MakeBitHeader(bits, n)
		case 1:
			h.SetBitHeader(bits, n)
		case 2:
			var g BitHeader
			g.SetBitHeader(bits, n)
			h.SetBitHeaderFromBitHeader(g)
		}
	})
	zz.Assert(p == !valid, "accepted exactly if the bits fit the length and the length is at most 8")
	if p {
		zz.Reach("panic")
		return
	}
	zz.Assert(h.PrefixBits() == bits && h.PrefixLen() == n, "read back unchanged")
	zz.Assert(h.GetBitHeader() == h, "getter copies")
	zz.Assert(!zz.Panics(func() { h.Validate() }), "valid value validates")
	zz.Reach("ok")
}

//zz:mode=bv bound=all reach=ok
func ZZ_BitHeaderZero() {
	var h BitHeader
	zz.Assert(h.PrefixLen() == 0 && h.PrefixBits() == 0, "zero value is the empty header")
	h.Validate()
	zz.Reach("ok")
}

// Subgroup restriction and trust level wrappers.
//
//zz:mode=bv bound=all reach=ok,panic
func ZZ_Wrappers() {
	a, b := zz.Bool("a"), zz.Bool("b")
	var sr SubgroupRestriction
	sr.SetSubgroupRestriction(a)
	zz.Assert(sr.IsSubgroupOnly() == a, "restriction stored")
	sr.SetSubgroupRestriction(b)
	zz.Assert(sr.IsSubgroupOnly() == b, "restriction replaced")
	sr.Validate()
	zz.Assert(sr.IsSubgroupOnly() == b, "validation does not change it")
	var so SubgroupOnly
	p := zz.Panics(func() { so.SetSubgroupRestriction(a) })
	zz.Assert(p == !a, "the fixed restriction cannot be lifted")
	zz.Assert(so.IsSubgroupOnly(), "always subgroup only")
	zz.Assert(TrustLevelFromBool(a).Bool() == a, "trust level round trip")
	zz.Assert(TrustedInput.Bool() && !UntrustedInput.Bool(), "trust constants")
	zz.Assert(TrustLevelFromBool(a) == TrustedInput == a, "trust level equality")
	if p {
		zz.Reach("panic")
	} else {
		zz.Reach("ok")
	}
}
