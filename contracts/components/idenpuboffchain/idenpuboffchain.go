package idenpuboffchain

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"io"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	v "github.com/iden3/go-iden3-core/zzverif"
)

// Trees: importing a blob fails, or leaves the tree with a root that depends on the blob alone
// (decided by C30). The hashes are collision-free functions.

//verif:stub target=github.com/iden3/go-iden3-core/merkletree.NewMerkleTree
func stub_NewMerkleTree(storage db.Storage, maxLevels int) (*merkletree.MerkleTree, error) {
	if v.AnyBool("no new tree") {
		return nil, errors.New("tree failure")
	}
	mt := &merkletree.MerkleTree{}
	v.SetField(mt, "maxLevels", maxLevels)
	v.SetField(mt, "rootKey", &merkletree.Hash{})
	return mt, nil
}

//verif:stub target=github.com/iden3/go-iden3-core/db.NewMemoryStorage
func stub_NewMemoryStorage() *db.MemoryStorage { return &db.MemoryStorage{} }

//verif:stub target=bytes.NewReader
func stub_NewReader(b []byte) *bytes.Reader {
	r := &bytes.Reader{}
	v.SetField(r, "s", b)
	return r
}

func specRoot(blob []byte) merkletree.Hash { return merkletree.Hash(sha256.Sum256(blob)) }

//verif:stub target=(*github.com/iden3/go-iden3-core/merkletree.MerkleTree).ImportTree
func stub_ImportTree(mt *merkletree.MerkleTree, i io.Reader) error {
	if v.AnyBool("import fails") {
		return errors.New("import failure")
	}
	var data []byte
	switch r := i.(type) {
	case *bytes.Reader:
		data = v.Field(r, "s").([]byte)
	case *bytes.Buffer:
		data = r.Bytes()
	}
	root := specRoot(data)
	v.SetField(mt, "rootKey", &root)
	v.SetGhost("imported", v.Ghost("imported")+1)
	return nil
}

//verif:stub target=(*github.com/iden3/go-iden3-core/merkletree.MerkleTree).RootKey
func stub_RootKey(mt *merkletree.MerkleTree) *merkletree.Hash {
	return v.Field(mt, "rootKey").(*merkletree.Hash)
}

func specState(a, b, c *merkletree.Hash) merkletree.Hash {
	return merkletree.Hash(sha256.Sum256(append(append(append([]byte{}, a[:]...), b[:]...), c[:]...)))
}

// the state of three roots, or a failure (roots that are not field elements)
//
//verif:stub target=github.com/iden3/go-iden3-core/core.CalculateIdenState
func stub_CalculateIdenState(clr, ret, rot *merkletree.Hash) (*merkletree.Hash, error) {
	if v.AnyBool("no state") {
		return nil, errors.New("hash failure")
	}
	v.SetGhost("calculated", 1)
	h := specState(clr, ret, rot)
	return &h, nil
}

//verif:contract prop=C25,C21 target=NewPublicDataFromBlobs
func vc_NewPublicData(p *PublicDataBlobs) {
	v.SetGhost("imported", 0)
	v.SetGhost("calculated", 0)
	good := specRoot(p.RevocationsTree) == p.RevocationsTreeRoot && specRoot(p.RootsTree) == p.RootsTreeRoot &&
		specState(&p.ClaimsTreeRoot, &p.RevocationsTreeRoot, &p.RootsTreeRoot) == p.IdenState
	r, err := NewPublicDataFromBlobs(p)
	v.Ensures("data or an error", (r == nil) == (err != nil))
	v.Ensures("accepted only if both trees have their stated roots and the roots make up the state", err != nil || good)
	v.Ensures("and refused only if not, or if a step fails", err == nil || !good || v.Ghost("imported") != 2 || v.Ghost("calculated") != 1)
	if err == nil {
		v.Ensures("the stated state and roots", *r.IdenState == p.IdenState && *r.ClaimsTreeRoot == p.ClaimsTreeRoot && *r.RevocationsTreeRoot == p.RevocationsTreeRoot && *r.RootsTreeRoot == p.RootsTreeRoot)
		v.Ensures("the imported trees", *stub_RootKey(r.RevocationsTree) == p.RevocationsTreeRoot && *stub_RootKey(r.RootsTree) == p.RootsTreeRoot && r.RevocationsTree != r.RootsTree)
		v.Cover("accepted")
	}
}
