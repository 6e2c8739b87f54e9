package merkletree

import (
	v "github.com/iden3/go-iden3-core/zzverif"
)

//verif:nilable Proof.NodeAux
func decl_nilable() {}

// bit l of a proof's bitmap: the last byte comes first
func specPBit(bm [30]byte, l int) bool { return (bm[29-int(uint(l)>>3)]>>(uint(l)&7))&1 == 1 }

// the number of non-empty siblings below level l
//verif:rec
func specCnt(bm [30]byte, l int) int {
	if l <= 0 {
		return 0
	}
	if specPBit(bm, l-1) {
		return specCnt(bm, l-1) + 1
	}
	return specCnt(bm, l-1)
}

// the sibling at level l
func specSib(bm [30]byte, sibs []*Hash, l int) Hash {
	if specPBit(bm, l) {
		return *sibs[specCnt(bm, l)]
	}
	return Hash{}
}

// bit l of an index: the first byte comes first
func specIBit(hi Hash, l int) bool { return (hi[int(uint(l)>>3)]>>(uint(l)&7))&1 == 1 }

// the key of the path's node at level lvl when the node at level depth has the key leaf
//verif:rec
func specFold(hi Hash, bm [30]byte, sibs []*Hash, depth, lvl int, leaf Hash) Hash {
	if lvl >= depth {
		return leaf
	}
	below := specFold(hi, bm, sibs, depth, lvl+1, leaf)
	if specIBit(hi, lvl) {
		return specMid(specSib(bm, sibs, lvl), below)
	}
	return specMid(below, specSib(bm, sibs, lvl))
}

// every sibling above level lvl is in the field
//verif:rec
func specSibsOK(bm [30]byte, sibs []*Hash, lvl int) bool {
	if lvl <= 0 {
		return true
	}
	return specSibsOK(bm, sibs, lvl-1) && specInField(specSib(bm, sibs, lvl-1))
}

// the proofs NewProofFromBytes and GenerateProof make
func specProofOK(p *Proof) bool {
	return p.depth <= 240 && len(p.Siblings) == specCnt(p.notempties, int(p.depth)) && !(p.Existence && p.NodeAux != nil)
}

// the key at the end of the path, and whether the proof may be used for the index at all
func specStart(p *Proof, hi, hv Hash) (Hash, bool) {
	if p.Existence {
		return specLeaf(hi, hv), specInField(hi) && specInField(hv)
	}
	if p.NodeAux == nil {
		return Hash{}, true
	}
	if *p.NodeAux.HIndex == hi {
		return Hash{}, false
	}
	return specLeaf(*p.NodeAux.HIndex, *p.NodeAux.HValue), specInField(*p.NodeAux.HIndex) && specInField(*p.NodeAux.HValue)
}

//verif:lemma auto=specCnt
func lem_cntBounds(bm [30]byte, l int) {
	v.Requires(0 <= l && l <= 240)
	v.Decreases(l)
	v.Proof(func() {
		if l > 0 {
			lem_cntBounds(bm, l-1)
		}
	})
	v.Ensures("between zero and l", 0 <= specCnt(bm, l) && specCnt(bm, l) <= l)
}

//verif:inv target=RootFromProof
func inv_rfpKey(proof *Proof, hIndex, hValue *Hash, midKey *Hash, lvl int) bool {
	s, _ := specStart(proof, *hIndex, *hValue)
	return *midKey == specFold(*hIndex, proof.notempties, proof.Siblings, int(proof.depth), lvl+1, s)
}

//verif:inv target=RootFromProof
func inv_rfpOK(proof *Proof, lvl int) bool {
	return specSibsOK(proof.notempties, proof.Siblings, int(proof.depth)) == specSibsOK(proof.notempties, proof.Siblings, lvl+1)
}

//verif:inv target=RootFromProof
func inv_rfpInField(midKey *Hash) bool { return specInField(*midKey) }

//verif:inv target=RootFromProof
func inv_rfpLvl(proof *Proof, lvl int) bool { return lvl >= -1 && lvl < int(proof.depth) }

//verif:inv target=RootFromProof
func inv_rfpIdx(proof *Proof, lvl, sibIdx int) bool {
	return sibIdx == specCnt(proof.notempties, lvl+1)-1
}

//verif:inv target=RootFromProof
func inv_rfpIdx2(proof *Proof, lvl, sibIdx int) bool {
	return sibIdx >= -1 && sibIdx < len(proof.Siblings)
}

//verif:contract prop=C02 target=RootFromProof use
func vc_RootFromProof(proof *Proof, hIndex, hValue *Hash) {
	v.Requires(specProofOK(proof))
	start, ok := specStart(proof, *hIndex, *hValue)
	r, err := RootFromProof(proof, hIndex, hValue)
	v.Ensures("refused exactly for the neighbour's own index or values outside the field",
		(err == nil) == (ok && specSibsOK(proof.notempties, proof.Siblings, int(proof.depth))))
	v.Ensures("root or error", (err == nil) == (r != nil))
	if err == nil {
		v.Ensures("hashed upward along the index", *r == specFold(*hIndex, proof.notempties, proof.Siblings, int(proof.depth), 0, start))
	}
}

//verif:inv target=getPath
func inv_gpLen(path []bool, numLevels int) bool { return len(path) == numLevels }

//verif:inv target=getPath
func inv_gpN(n, numLevels int) bool { return 0 <= n && n <= numLevels }

//verif:inv target=getPath
func inv_gpBits(path []bool, hIndex *Hash, n int) bool {
	return v.Forall(func(k int) bool { return !(0 <= k && k < n) || path[k] == specIBit(*hIndex, k) })
}

//verif:contract prop=C02,C03 target=getPath use
func vc_getPath(numLevels int, hIndex *Hash) {
	v.Requires(0 <= numLevels && numLevels <= 256)
	r := getPath(numLevels, hIndex)
	v.Ensures("one branch for each level", len(r) == numLevels)
	v.Ensures("the index's bits, first byte first", v.Forall(func(k int) bool { return !(0 <= k && k < numLevels) || r[k] == specIBit(*hIndex, k) }))
}

//verif:contract prop=C02 target=VerifyProof
func vc_VerifyProof(rootKey *Hash, proof *Proof, hIndex, hValue *Hash) {
	v.Requires(specProofOK(proof))
	start, ok := specStart(proof, *hIndex, *hValue)
	r := VerifyProof(rootKey, proof, hIndex, hValue)
	fold := specFold(*hIndex, proof.notempties, proof.Siblings, int(proof.depth), 0, start)
	v.Ensures("accepted exactly when the recomputed root is the given one",
		r == (ok && specSibsOK(proof.notempties, proof.Siblings, int(proof.depth)) && fold == *rootKey))
}

// from level i on, every sibling's bytes are there
//verif:rec
func specFits(bm [30]byte, n, i, depth int) bool {
	if i >= depth {
		return true
	}
	if specPBit(bm, i) && n < 32*(specCnt(bm, i)+1) {
		return false
	}
	return specFits(bm, n, i+1, depth)
}

func lem_cntMono(bm [30]byte, l, m int) {
	v.Requires(0 <= l && l <= m && m <= 240)
	v.Decreases(m - l)
	v.Proof(func() {
		if l < m {
			lem_cntMono(bm, l+1, m)
		}
	})
	v.Ensures("more levels, more siblings", specCnt(bm, l) <= specCnt(bm, m))
}

func lem_fits(bm [30]byte, n, i, depth int) {
	v.Requires(0 <= i && i <= depth && depth <= 240 && 32*specCnt(bm, depth) <= n)
	v.Decreases(depth - i)
	v.Proof(func() {
		if i < depth {
			lem_fits(bm, n, i+1, depth)
			lem_cntMono(bm, i+1, depth)
		}
	})
	v.Ensures("room for all", specFits(bm, n, i, depth))
}

func specHead(b []byte) (bm [30]byte) {
	copy(bm[:], b[2:32])
	return
}

//verif:inv target=NewProofFromBytes
func inv_npCnt(p *Proof, i uint, sibIdx int) bool {
	return i <= p.depth && sibIdx == specCnt(p.notempties, int(i)) && len(p.Siblings) == sibIdx
}

//verif:inv target=NewProofFromBytes
func inv_npLen(bs []byte, sibIdx int) bool { return 32*sibIdx <= len(bs)-32 }

//verif:inv target=NewProofFromBytes
func inv_npFits(p *Proof, bs []byte, i uint) bool {
	return specFits(p.notempties, len(bs)-32, 0, int(p.depth)) == specFits(p.notempties, len(bs)-32, int(i), int(p.depth))
}

//verif:inv target=NewProofFromBytes
func inv_npSib(p *Proof, bs []byte, sibIdx int) bool {
	k := v.Ghost("k")
	if !(0 <= k && k < sibIdx && sibIdx <= len(p.Siblings)) {
		return true
	}
	return *p.Siblings[k] == specHashAt(bs, 32+32*k)
}

func specHashAt(b []byte, o int) (h Hash) {
	for j := 0; j < 32; j++ {
		h[j] = b[o+j]
	}
	return
}

//verif:contract prop=C06 target=NewProofFromBytes use
func vc_NewProofFromBytes(bs []byte, k int) {
	v.SetGhost("k", k)
	n := len(bs) - 32
	var bm [30]byte
	d, cnt, aux := 0, 0, false
	if n >= 0 {
		bm = specHead(bs)
		d = int(bs[1])
		cnt = specCnt(bm, d)
		aux = bs[0]&3 == 3
		if d <= 240 && 32*cnt <= n {
			lem_fits(bm, n, 0, d)
		}
	}
	p, err := NewProofFromBytes(bs)
	v.Ensures("proof or error", (err == nil) == (p != nil))
	v.Ensures("accepted exactly when every announced part is there", (err == nil) == (n >= 0 && d <= 240 && 32*cnt <= n && (!aux || n == 32*cnt+64)))
	if err != nil {
		return
	}
	v.Ensures("a proof others can rely on", specProofOK(p))
	v.Ensures("kind, depth and bitmap", p.Existence == (bs[0]&1 == 0) && p.depth == uint(d) && p.notempties == bm)
	v.Ensures("as many siblings as the bitmap has", len(p.Siblings) == cnt)
	v.Ensures("each sibling", !(0 <= k && k < cnt) || *p.Siblings[k] == specHashAt(bs, 32+32*k))
	v.Ensures("neighbouring leaf exactly when announced", (p.NodeAux != nil) == aux)
	if aux {
		v.Ensures("the neighbouring leaf", *p.NodeAux.HIndex == specHashAt(bs, 32+32*cnt) && *p.NodeAux.HValue == specHashAt(bs, 32+32*cnt+32))
	}
}

// the i-th visited sibling is placed: the loop's index is the value ranged over
//verif:inv target=Proof.Bytes
func inv_pbLen(p *Proof, bs []byte) bool {
	n := 32 + 32*len(p.Siblings)
	if p.NodeAux != nil {
		n += 64
	}
	return len(bs) == n
}

//verif:inv target=Proof.Bytes
func inv_pbHead(p *Proof, bs []byte) bool {
	f := byte(0)
	if !p.Existence {
		f = 1
	}
	return bs[0] == f && bs[1] == byte(p.depth) && specHead(bs) == p.notempties
}

//verif:inv target=Proof.Bytes
func inv_pbSib(p *Proof, bs []byte, i int) bool {
	k := v.Ghost("k")
	if !(0 <= k && k <= i && k < len(p.Siblings)) {
		return true
	}
	return i < len(p.Siblings) && *p.Siblings[k] == specHashAt(bs, 32+32*k)
}

//verif:inv target=Proof.Bytes
func inv_pbI(p *Proof, i int) bool { return -1 <= i && i < len(p.Siblings) }

//verif:contract prop=C06 target=Proof.Bytes use
func vc_ProofBytes(p *Proof, k int) {
	v.SetGhost("k", k)
	v.Requires(specProofOK(p))
	b := p.Bytes()
	n := 32 + 32*len(p.Siblings)
	f := byte(0)
	if !p.Existence {
		f = 1
	}
	if p.NodeAux != nil {
		f |= 2
		v.Ensures("length with neighbouring leaf", len(b) == n+64)
		v.Ensures("the neighbouring leaf comes last", *p.NodeAux.HIndex == specHashAt(b, n) && *p.NodeAux.HValue == specHashAt(b, n+32))
	} else {
		v.Ensures("length", len(b) == n)
	}
	v.Ensures("kind and depth", b[0] == f && b[1] == byte(p.depth))
	v.Ensures("bitmap", specHead(b) == p.notempties)
	v.Ensures("each sibling", !(0 <= k && k < len(p.Siblings)) || *p.Siblings[k] == specHashAt(b, 32+32*k))
}

//verif:contract prop=C06
func vc_ProofRoundTrip(p *Proof, k int) {
	v.Requires(specProofOK(p))
	q, err := NewProofFromBytes(p.Bytes())
	v.Ensures("what is written can be read", err == nil)
	if err != nil {
		return
	}
	v.Ensures("same kind, depth and bitmap", q.Existence == p.Existence && q.depth == p.depth && q.notempties == p.notempties)
	v.Ensures("same number of siblings", len(q.Siblings) == len(p.Siblings))
	v.Ensures("same siblings", !(0 <= k && k < len(p.Siblings)) || *q.Siblings[k] == *p.Siblings[k])
	v.Ensures("same kind of neighbour", (q.NodeAux == nil) == (p.NodeAux == nil))
	if p.NodeAux != nil {
		v.Ensures("same neighbour", *q.NodeAux.HIndex == *p.NodeAux.HIndex && *q.NodeAux.HValue == *p.NodeAux.HValue)
	}
}

//verif:contract prop=C06
func vc_ProofTruncated(p *Proof, m, k int) {
	v.Requires(specProofOK(p))
	b := p.Bytes()
	v.Requires(0 <= m && m < len(b))
	_, err := NewProofFromBytes(b[:m])
	v.Ensures("refused", err != nil)
}
