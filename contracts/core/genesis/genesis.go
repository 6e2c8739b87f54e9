package genesis

import (
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	v "github.com/iden3/go-iden3-core/zzverif"
)

func Abs_Storage() db.Storage { return merkletree.SpecStore() }

// the roots leaf of a claims root
func specRootsLeaf(r merkletree.Hash) (d merkletree.Data) {
	d[0] = merkletree.ElemBytes(r)
	return
}

//verif:contract prop=C13 target=CalculateIdGenesisMT
func vc_CalculateIdGenesisMT(clt, rot *merkletree.MerkleTree, k *claims.ClaimKeyBabyJub, x1, x2 *merkletree.Entry, n int) {
	v.Requires(merkletree.SpecTreeSynced(clt) && merkletree.SpecTreeSynced(rot))
	c0, r0, max := merkletree.SpecTreeRoot(clt), merkletree.SpecTreeRoot(rot), merkletree.SpecTreeMax(clt)
	v.Requires(merkletree.SpecTreeMax(rot) == max)
	v.Requires(merkletree.SpecInField(r0))
	v.Requires(k.Metadata().Header() == claims.ClaimHeaderKeyBabyJub)
	d0, d1, d2 := k.Entry().Data, x1.Data, x2.Data
	var extra []merkletree.Entrier
	if n >= 1 {
		extra = append(extra, absEntrier{x1})
	}
	if n >= 2 {
		extra = append(extra, absEntrier{x2})
	}
	v.Modifies(clt, rot)
	id, err := CalculateIdGenesisMT(clt, rot, k, extra)
	v.Ensures("identifier or error", (err == nil) == (id != nil))
	if err != nil {
		return
	}
	root, ok := merkletree.SpecAdd(c0, d0, max)
	v.Ensures("the key claim is added", ok)
	if n >= 1 {
		root, ok = merkletree.SpecAdd(root, d1, max)
		v.Ensures("the extra claims are added", ok)
	}
	if n >= 2 {
		root, ok = merkletree.SpecAdd(root, d2, max)
		v.Ensures("the extra claims are added", ok)
	}
	v.Ensures("exactly these claims are in the claims tree", merkletree.SpecTreeRoot(clt) == root)
	rr, ok := merkletree.SpecAdd(r0, specRootsLeaf(root), max)
	v.Ensures("exactly the claims root is added to the roots tree", ok && merkletree.SpecTreeRoot(rot) == rr)
	st, ok := merkletree.SpecH3(root, merkletree.Hash{}, rr)
	v.Ensures("the identifier of the state of these trees with nothing revoked", ok && *id == core.SpecGenesisID(st))
}

type absEntrier struct{ e *merkletree.Entry }

func (a absEntrier) Entry() *merkletree.Entry { return a.e }
