seed('c01-deepest-level', 'C01', 'merkletree',
 [('merkletree/merkletree.go', 'for p.depth = 0; p.depth < uint(mt.maxLevels); p.depth++ {', 'for p.depth = 0; p.depth+1 < uint(mt.maxLevels); p.depth++ {')],
 '''package merkletree
import ("testing"; "github.com/iden3/go-iden3-core/db")
func TestDemo(t *testing.T) {
	mt, err := NewMerkleTree(db.NewMemoryStorage(), 4)
	if err != nil { t.Fatal(err) }
	for i := 0; i < 40; i++ {
		var d Data
		d[0][0], d[0][1] = byte(i), 1
		e := &Entry{Data: d}
		if mt.AddEntry(e) != nil { continue }
		hi, _ := e.HIndex()
		p, err := mt.GenerateProof(hi, nil)
		if err != nil || !p.Existence { t.Fatal("no proof for an entry the tree holds: ", err) }
	}
}
''', 'an entry whose leaf is at the deepest level the tree allows', 'no proof can be generated for an entry the tree holds')
seed('c02-own-index-at-root', 'C02', 'merkletree',
 [('merkletree/merkletree.go', 'if bytes.Equal(hIndex[:], proof.NodeAux.HIndex[:]) {', 'if proof.depth > 0 && bytes.Equal(hIndex[:], proof.NodeAux.HIndex[:]) {')],
 '''package merkletree
import ("testing"; "github.com/iden3/go-iden3-core/db")
func TestDemo(t *testing.T) {
	mt, _ := NewMerkleTree(db.NewMemoryStorage(), 40)
	var d, o Data
	d[0][0], o[0][0] = 1, 2
	e := &Entry{Data: d}
	if err := mt.AddEntry(e); err != nil { t.Fatal(err) }
	oi, _ := (&Entry{Data: o}).HIndex()
	p, err := mt.GenerateProof(oi, nil)
	if err != nil { t.Fatal(err) }
	hi, hv, _ := e.HiHv()
	if VerifyProof(mt.RootKey(), p, hi, hv) { t.Fatal("proof that the only entry does not exist") }
}
''', 'a tree of one leaf, whose proof of non-existence carries that leaf at depth 0', 'a non-existence proof verifies for the index of the leaf it carries')
seed('c03-level-limit', 'C03', 'merkletree',
 [('merkletree/merkletree.go', '	if lvl > mt.maxLevels-2 {\n\t\treturn nil, ErrReachedMaxLevel', '	if lvl > mt.maxLevels-1 {\n\t\treturn nil, ErrReachedMaxLevel')],
 '''package merkletree
import ("testing"; "github.com/iden3/go-iden3-core/db")
func TestDemo(t *testing.T) {
	mt, err := NewMerkleTree(db.NewMemoryStorage(), 3)
	if err != nil { t.Fatal(err) }
	for i := 0; i < 40; i++ {
		var d Data
		d[0][0], d[0][1] = byte(i), 1
		e := &Entry{Data: d}
		if mt.AddEntry(e) != nil { continue }
		hi, _ := e.HIndex()
		if _, err := mt.GetDataByIndex(hi); err != nil { t.Fatal("entry added but not found: ", err) }
	}
}
''', 'two entries whose index hashes agree on every level the tree has', 'an entry is accepted and then cannot be looked up')
seed('c04-unreadable', 'C04', 'merkletree',
 [('merkletree/merkletree.go', '''	value, err := mt.storage.Get(k)
	if err != nil {
		return 0, nil, err
	}
''', '''	value, err := mt.storage.Get(k)
	if err != nil {
		return 0, nil, db.ErrNotFound
	}
''')],
 '''package merkletree
import ("errors"; "testing"; "github.com/iden3/go-iden3-core/db")
type st struct { db.Storage }
func (s *st) Get(k []byte) ([]byte, error) { return nil, errors.New("input/output error") }
func TestDemo(t *testing.T) {
	s := db.NewMemoryStorage()
	mt, err := NewMerkleTree(s, 40)
	if err != nil { t.Fatal(err) }
	var d Data
	d[0][0] = 1
	if err := mt.AddEntry(&Entry{Data: d}); err != nil { t.Fatal(err) }
	_, err = NewMerkleTree(&st{s}, 40)
	m2, err2 := NewMerkleTree(s, 40)
	if err == nil || err2 != nil || *m2.RootKey() != *mt.RootKey() { t.Fatal("tree reset because its storage could not be read") }
}
''', 'a storage read failing while an existing tree is opened', 'the tree is silently reset to empty')
seed('c06-short-sibling', 'C06', 'merkletree',
 [('merkletree/merkletree.go', 'if len(siblingBytes) < (sibIdx+1)*ElemBytesLen {', 'if len(siblingBytes) <= sibIdx*ElemBytesLen {')],
 '''package merkletree
import "testing"
func TestDemo(t *testing.T) {
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	b := make([]byte, 48, 64)
	b[1], b[31] = 1, 1
	if _, err := NewProofFromBytes(b); err == nil { t.Fatal("half a sibling accepted") }
	if _, err := NewProofFromBytes(b[:48:48]); err == nil { t.Fatal("half a sibling accepted") }
}
''', 'proof bytes that end inside a sibling', 'a truncated proof crashes the parser or is accepted')
seed('c14-aux-proof', 'C14', 'components/verifier',
 [('components/verifier/verifier.go', 'if !credExist.MtpClaim.Existence {', 'if !credExist.MtpClaim.Existence && credExist.MtpClaim.NodeAux == nil {')],
 '''package verifier
import (
	"testing"
	"math/big"
	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)
type chain struct{ d proof.IdenStateData }
func (c *chain) GetState(id *core.ID) (*proof.IdenStateData, error) { d := c.d; return &d, nil }
func (c *chain) GetStateByBlock(id *core.ID, n uint64) (*proof.IdenStateData, error) { d := c.d; return &d, nil }
func (c *chain) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) { d := c.d; return &d, nil }
func (c *chain) SetState(*core.ID, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) { return nil, nil }
func (c *chain) InitState(*core.ID, *merkletree.Hash, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) { return nil, nil }
func (c *chain) TxConfirmBlocks(*types.Transaction) (*big.Int, error) { return nil, nil }
func TestDemo(t *testing.T) {
	mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	if err != nil { t.Fatal(err) }
	var is [claims.IndexSlotLen]byte
	var vs [claims.ValueSlotLen]byte
	is[0] = 1
	if err := mt.AddClaim(claims.NewClaimBasic(is, vs)); err != nil { t.Fatal(err) }
	is[0] = 2
	e := claims.NewClaimBasic(is, vs).Entry()
	hi, _ := e.HIndex()
	p, err := mt.GenerateProof(hi, nil)
	if err != nil { t.Fatal(err) }
	z := &merkletree.HashZero
	c := &chain{proof.IdenStateData{BlockTs: 1, BlockN: 2, IdenState: core.IdenState(mt.RootKey(), z, z)}}
	cr := &proof.CredentialExistence{Id: &core.ID{}, Claim: e, MtpClaim: p, RevocationsTreeRoot: z, RootsTreeRoot: z, IdenStateData: c.d}
	if New(c).VerifyCredentialExistence(cr) == nil { t.Fatal("credential for a claim that was never issued accepted") }
}
''', 'a proof of non-existence that carries a neighbouring leaf', 'a credential for a claim that is not in the issuer\'s tree is accepted')
seed('c15-old-block', 'C15', 'components/verifier',
 [('components/verifier/verifier.go', 'if !reflect.DeepEqual(idenStateDataOnChain, &credValid.IdenStateData) {', 'if !idenStateDataOnChain.IdenState.Equals(credValid.IdenStateData.IdenState) {')],
 '''package verifier
import (
	"testing"
	"time"
	"math/big"
	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)
type chain struct{ d, last proof.IdenStateData }
func (c *chain) GetState(id *core.ID) (*proof.IdenStateData, error) { d := c.last; return &d, nil }
func (c *chain) GetStateByBlock(id *core.ID, n uint64) (*proof.IdenStateData, error) { d := c.d; return &d, nil }
func (c *chain) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) { d := c.d; return &d, nil }
func (c *chain) SetState(*core.ID, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) { return nil, nil }
func (c *chain) InitState(*core.ID, *merkletree.Hash, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) { return nil, nil }
func (c *chain) TxConfirmBlocks(*types.Transaction) (*big.Int, error) { return nil, nil }
func TestDemo(t *testing.T) {
	mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	if err != nil { t.Fatal(err) }
	var is [claims.IndexSlotLen]byte
	var vs [claims.ValueSlotLen]byte
	is[0] = 1
	e := claims.NewClaimBasic(is, vs).Entry()
	if err := mt.AddEntry(&merkletree.Entry{Data: e.Data}); err != nil { t.Fatal(err) }
	hi, _ := e.HIndex()
	p, err := mt.GenerateProof(hi, nil)
	if err != nil { t.Fatal(err) }
	z := &merkletree.HashZero
	c := &chain{d: proof.IdenStateData{BlockTs: 1000, BlockN: 2, IdenState: core.IdenState(mt.RootKey(), z, z)}}
	c.last = proof.IdenStateData{BlockTs: 100000, BlockN: 9, IdenState: core.IdenState(mt.RootKey(), mt.RootKey(), z)}
	cr := proof.CredentialExistence{Id: &core.ID{}, Claim: e, MtpClaim: p, RevocationsTreeRoot: z, RootsTreeRoot: z, IdenStateData: c.d}
	v := &proof.CredentialValidity{CredentialExistence: cr, IdenStateData: c.d, MtpNotNonce: &merkletree.Proof{}, ClaimsTreeRoot: mt.RootKey(), RootsTreeRoot: z}
	v.IdenStateData.BlockTs = 199990 // the holder says that the old state is recent
	ver := NewWithTimeNow(c, func() time.Time { return time.Unix(200000, 0) })
	if ver.VerifyCredentialValidity(v, time.Minute) == nil { t.Fatal("stale credential accepted") }
}
''', 'a credential whose block timestamp was altered to look recent', 'a stale validity credential is accepted')
seed('c15-freshness-edge', 'C15', 'components/verifier',
 [('components/verifier/verifier.go', 'if !timeOldestAccepted.Before(credentialTimestamp) {', 'if timeOldestAccepted.Unix() > credentialTimestamp.Unix() {')],
 '''package verifier
import (
	"testing"
	"time"
	"math/big"
	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)
type chain struct{ d, last proof.IdenStateData }
func (c *chain) GetState(id *core.ID) (*proof.IdenStateData, error) { d := c.last; return &d, nil }
func (c *chain) GetStateByBlock(id *core.ID, n uint64) (*proof.IdenStateData, error) { d := c.d; return &d, nil }
func (c *chain) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) { d := c.d; return &d, nil }
func (c *chain) SetState(*core.ID, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) { return nil, nil }
func (c *chain) InitState(*core.ID, *merkletree.Hash, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) { return nil, nil }
func (c *chain) TxConfirmBlocks(*types.Transaction) (*big.Int, error) { return nil, nil }
func TestDemo(t *testing.T) {
	mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	if err != nil { t.Fatal(err) }
	var is [claims.IndexSlotLen]byte
	var vs [claims.ValueSlotLen]byte
	is[0] = 1
	e := claims.NewClaimBasic(is, vs).Entry()
	if err := mt.AddEntry(&merkletree.Entry{Data: e.Data}); err != nil { t.Fatal(err) }
	hi, _ := e.HIndex()
	p, err := mt.GenerateProof(hi, nil)
	if err != nil { t.Fatal(err) }
	z := &merkletree.HashZero
	c := &chain{d: proof.IdenStateData{BlockTs: 1000, BlockN: 2, IdenState: core.IdenState(mt.RootKey(), z, z)}}
	c.last = proof.IdenStateData{BlockTs: 1050, BlockN: 9, IdenState: core.IdenState(mt.RootKey(), mt.RootKey(), z)}
	cr := proof.CredentialExistence{Id: &core.ID{}, Claim: e, MtpClaim: p, RevocationsTreeRoot: z, RootsTreeRoot: z, IdenStateData: c.d}
	v := &proof.CredentialValidity{CredentialExistence: cr, IdenStateData: c.d, MtpNotNonce: &merkletree.Proof{}, ClaimsTreeRoot: mt.RootKey(), RootsTreeRoot: z}
	ver := NewWithTimeNow(c, func() time.Time { return time.Unix(1060, 500) })
	if ver.VerifyCredentialValidity(v, time.Minute) == nil { t.Fatal("credential older than the limit accepted") }
}
''', 'a credential older than the accepted age by less than a second', 'a stale validity credential is accepted')
seed('c30-old-root', 'C30', 'merkletree',
 [('merkletree/merkletree.go', '''		return errS
	}

	if rootKey == nil {
		rootKey = mt.RootKey()
	}
	err =''', '''		return errS
	}

	rootKey = mt.RootKey()
	err =''')],
 '''package merkletree
import ("bytes"; "testing"; "github.com/iden3/go-iden3-core/db")
func TestDemo(t *testing.T) {
	mt, _ := NewMerkleTree(db.NewMemoryStorage(), 40)
	var d Data
	d[0][0] = 1
	_ = mt.AddEntry(&Entry{Data: d})
	root := *mt.RootKey()
	d[0][0] = 2
	_ = mt.AddEntry(&Entry{Data: d})
	var b bytes.Buffer
	if err := mt.DumpTree(&b, &root); err != nil { t.Fatal(err) }
	m2, _ := NewMerkleTree(db.NewMemoryStorage(), 40)
	if err := m2.ImportTree(&b); err != nil { t.Fatal(err) }
	if *m2.RootKey() != root { t.Fatal("imported another root") }
}
''', 'a dump at an earlier root', 'the imported tree has a root whose nodes are missing')
