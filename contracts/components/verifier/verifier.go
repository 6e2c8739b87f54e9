package verifier

import (
	"math/big"
	"time"

	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	v "github.com/iden3/go-iden3-core/zzverif"
)

// a chain with arbitrary records, any query of which may fail
type absAt struct {
	id core.ID
	n  uint64
}

type absState struct {
	ts int64
	n  uint64
	st merkletree.Hash
}

type absChain struct {
	at   map[absAt]absState
	last map[core.ID]absState
	bad  error
}

func (c *absChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
	s, ok := c.last[*id]
	if !ok {
		return nil, c.bad
	}
	return &proof.IdenStateData{BlockTs: s.ts, BlockN: s.n, IdenState: &s.st}, nil
}

func (c *absChain) GetStateByBlock(id *core.ID, n uint64) (*proof.IdenStateData, error) {
	s, ok := c.at[absAt{*id, n}]
	if !ok {
		return nil, c.bad
	}
	return &proof.IdenStateData{BlockTs: s.ts, BlockN: s.n, IdenState: &s.st}, nil
}

func (c *absChain) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	panic("not modelled")
}
func (c *absChain) SetState(*core.ID, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) {
	panic("not modelled")
}
func (c *absChain) InitState(*core.ID, *merkletree.Hash, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) {
	panic("not modelled")
}
func (c *absChain) TxConfirmBlocks(*types.Transaction) (*big.Int, error) { panic("not modelled") }

func Abs_IdenPubOnChainer() idenpubonchain.IdenPubOnChainer {
	c := &absChain{bad: v.AnyErr("chain failure")}
	v.Any(&c.at, "records")
	v.Any(&c.last, "latest")
	return c
}

// the chain records exactly this state for the identity at the stated block
func specOnChain(c *absChain, id core.ID, d *proof.IdenStateData) bool {
	s, ok := c.at[absAt{id, d.BlockN}]
	return ok && s.ts == d.BlockTs && s.n == d.BlockN && s.st == *d.IdenState
}

func specExistence(c *absChain, e *proof.CredentialExistence) bool {
	d := e.Claim.Data
	if !e.MtpClaim.Existence || !merkletree.SpecDataOK(d) {
		return false
	}
	root, ok := merkletree.SpecRoot(e.MtpClaim, merkletree.SpecHi(d), merkletree.SpecHv(d))
	if !ok {
		return false
	}
	st, ok := merkletree.SpecH3(root, *e.RevocationsTreeRoot, *e.RootsTreeRoot)
	return ok && st == *e.IdenStateData.IdenState && specOnChain(c, *e.Id, &e.IdenStateData)
}

//verif:contract prop=C14 target=Verifier.VerifyCredentialExistence
func vc_VerifyCredentialExistence(vf *Verifier, e *proof.CredentialExistence) {
	v.Requires(merkletree.SpecProofOK(e.MtpClaim))
	c := vf.idenPubOnChain.(*absChain)
	want := specExistence(c, e)
	err := vf.VerifyCredentialExistence(e)
	v.Ensures("accepted exactly when genuine", (err == nil) == want)
	if err == nil {
		v.Cover("some credential is accepted")
	}
}

// the claim carries an expiration time that has passed
func specExpired(d merkletree.Data, now time.Time) bool {
	if d[0][8]>>3&1 == 0 {
		return false
	}
	u := uint64(0)
	for i := 0; i < 8; i++ {
		u |= uint64(d[4][4+i]) << uint(8*i)
	}
	exp := int64(u)
	return exp < now.Unix() || exp == now.Unix() && now.Nanosecond() > 0
}

// the leaf of a revocation nonce
func specRevLeaf(nonce [4]byte) (d merkletree.Data) {
	for i := 0; i < 4; i++ {
		d[0][i] = nonce[i]
		d[4][i] = 0xff
	}
	return
}

// a state of time ts is fresher than the allowed age, or still the identity's latest
func specFresh(c *absChain, id core.ID, st merkletree.Hash, ts int64, age time.Duration, now time.Time) bool {
	d := -int64(age)
	sec, ns := now.Unix()+d/1000000000, int64(now.Nanosecond())+d%1000000000
	if ns < 0 {
		sec--
	}
	if ns >= 1000000000 {
		sec++
	}
	if sec < ts {
		return true
	}
	l, ok := c.last[id]
	return ok && l.st == st
}

func specValidity(c *absChain, e *proof.CredentialValidity, age time.Duration, now time.Time) bool {
	d := e.CredentialExistence.Claim.Data
	if specExpired(d, now) || !specExistence(c, &e.CredentialExistence) || e.MtpNotNonce.Existence {
		return false
	}
	id := *e.CredentialExistence.Id
	if !specFresh(c, id, *e.IdenStateData.IdenState, e.IdenStateData.BlockTs, age, now) {
		return false
	}
	l := specRevLeaf([4]byte{d[4][0], d[4][1], d[4][2], d[4][3]})
	root, ok := merkletree.SpecRoot(e.MtpNotNonce, merkletree.SpecHi(l), merkletree.SpecHv(l))
	if !ok {
		return false
	}
	st, ok := merkletree.SpecH3(*e.ClaimsTreeRoot, root, *e.RootsTreeRoot)
	return ok && st == *e.IdenStateData.IdenState && specOnChain(c, id, &e.IdenStateData)
}

func specTimes(now time.Time, ts int64) bool {
	return 0 <= now.Unix() && now.Unix() < 1<<40 && 0 <= ts && ts < 1<<40
}

//verif:contract prop=C15 target=Verifier.VerifyCredentialValidity
func vc_VerifyCredentialValidity(vf *Verifier, e *proof.CredentialValidity, age time.Duration) {
	v.Requires(merkletree.SpecProofOK(e.MtpNotNonce) && merkletree.SpecProofOK(e.CredentialExistence.MtpClaim))
	c := vf.idenPubOnChain.(*absChain)
	now := time.Now()
	v.Requires(specTimes(now, e.IdenStateData.BlockTs) && age >= 0)
	vf.timeNow = func() time.Time { return now }
	want := specValidity(c, e, age, now)
	err := vf.VerifyCredentialValidity(e, age)
	v.Ensures("accepted exactly when current and unrevoked", (err == nil) == want)
	if err == nil {
		v.Cover("some credential is accepted")
	}
}

// the loading of the key and the proof system, taken as given functions
type absZk struct {
	vkOK, proofOK bool
	vk            *zktypes.Vk
	proof         *zktypes.Proof
	signals       []*big.Int
}

//verif:stub target=(*github.com/iden3/go-iden3-core/utils/zk.ZkFiles).VerificationKey
func stub_VerificationKey(f *zkutils.ZkFiles, zk *absZk) (*zktypes.Vk, error) {
	if !zk.vkOK {
		return nil, v.AnyErr("key failure")
	}
	return zk.vk, nil
}

//verif:stub target=github.com/iden3/go-circom-prover-verifier/verifier.Verify
func stub_Verify(vk *zktypes.Vk, p *zktypes.Proof, signals []*big.Int, zk *absZk) bool {
	v.Assert("the given proof and signals are verified with the loaded key", vk == zk.vk && p == zk.proof && len(signals) == len(zk.signals))
	return zk.proofOK
}

//verif:contract prop=C16 target=Verifier.VerifyZkProofCredential
func vc_VerifyZkProofCredential(vf *Verifier, p *zktypes.Proof, signals []*big.Int, id *core.ID, n uint64, f *zkutils.ZkFiles, age time.Duration, zk *absZk) {
	c := vf.idenPubOnChain.(*absChain)
	now := time.Now()
	vf.timeNow = func() time.Time { return now }
	zk.proof, zk.signals = p, signals
	// the verifier accepts signals below the order of the curve only
	v.Requires(len(signals) > 0 && 0 <= signals[0].Sign() && signals[0].BitLen() <= 256 && age >= 0)
	s, ok := c.at[absAt{*id, n}]
	v.Requires(specTimes(now, s.ts))
	want := zk.vkOK && zk.proofOK && ok && s.n == n && merkletree.SpecInt(s.st).Cmp(signals[0]) == 0 && specFresh(c, *id, s.st, s.ts, age, now)
	err := vf.VerifyZkProofCredential(p, signals, id, n, f, age)
	v.Ensures("accepted exactly when current on chain", (err == nil) == want)
	if err == nil {
		v.Cover("some credential is accepted")
	}
}
