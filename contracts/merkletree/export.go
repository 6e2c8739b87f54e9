package merkletree

import "github.com/iden3/go-iden3-core/db"

// specifications used by the contracts of other packages

func SpecDataOK(d Data) bool   { return specDataInField(d) }
func SpecProofOK(p *Proof) bool { return specProofOK(p) }

// the root a proof gives for an index and value, if it gives one
func SpecRoot(p *Proof, hi, hv Hash) (Hash, bool) {
	start, ok := specStart(p, hi, hv)
	if !ok || !specSibsOK(p.notempties, p.Siblings, int(p.depth)) {
		return Hash{}, false
	}
	return specFold(hi, p.notempties, p.Siblings, int(p.depth), 0, start), true
}

// the hash of three elements, if they are in the field
func SpecH3(a, b, c Hash) (Hash, bool) {
	if !specInField(a) || !specInField(b) || !specInField(c) {
		return Hash{}, false
	}
	var z [32]byte
	return specH(a, b, c, z, z, z), true
}

// a tree over abstract storage that holds its root
func SpecStore() db.Storage { return Abs_Storage() }

func SpecTreeSynced(mt *MerkleTree) bool {
	s := mt.storage.(*absStore)
	return specTreeOK(mt) && s.hasRoot && s.root == *mt.rootKey
}

func SpecTreeRoot(mt *MerkleTree) Hash { return *mt.rootKey }
func SpecTreeMax(mt *MerkleTree) int   { return mt.maxLevels }

// the root after an entry is added to the tree with the given root, if it can be added
func SpecAdd(root Hash, d Data, max int) (Hash, bool) {
	ok, r := specAdd(root, specLeaf(specHi(d), specHv(d)), specHi(d), 0, max)
	return r, ok
}

// whether a tree with the given root holds an entry with that index
func SpecHolds(root, hi Hash, max int) bool {
	found, _ := specGet(root, hi, 0, max)
	return found
}

// whether a tree lies on the given storage, with the root stored there
func SpecTreeOn(mt *MerkleTree, s db.Storage, max int) bool {
	return mt.storage == s && mt.maxLevels == max && mt.writable && SpecTreeSynced(mt)
}

func SpecNoTree(s db.Storage) bool { return !s.(*absStore).hasRoot }

func SpecStoreRoot(s db.Storage) Hash { return s.(*absStore).root }

// whether a tree with the given root holds exactly this entry
func SpecHas(root Hash, d Data, max int) bool {
	found, key := specGet(root, specHi(d), 0, max)
	return found && key == specLeaf(specHi(d), specHv(d))
}

// whether a proof is one of existence of an index under a root, as C01 shows the generated proofs to verify
func SpecProves(p *Proof, root, hi Hash, max int) bool {
	d := int(p.depth)
	found, key := specGet(root, hi, 0, max)
	return p.Existence && found && key == specAt(root, hi, d) && p.NodeAux == nil && p.notempties == specBM(root, hi, d) &&
		len(p.Siblings) == specTCnt(root, hi, d) && specSibsAre(root, hi, p.Siblings, d) && specMiddles(root, hi, d)
}
