package verifier

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"path/filepath"
	"time"

	"github.com/ethereum/go-ethereum/core/types"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
)

// a chain with given records; some queries fail
type vkey struct {
	id core.ID
	n  uint64
}

type vchain struct {
	at      map[vkey]proof.IdenStateData
	last    map[core.ID]proof.IdenStateData
	failAt  map[uint64]bool
	badLast bool
	queries int
}

func cp(d proof.IdenStateData) *proof.IdenStateData {
	s := *d.IdenState
	return &proof.IdenStateData{BlockTs: d.BlockTs, BlockN: d.BlockN, IdenState: &s}
}

func (c *vchain) GetState(id *core.ID) (*proof.IdenStateData, error) {
	c.queries++
	if c.badLast {
		return nil, fmt.Errorf("no connection")
	}
	if d, ok := c.last[*id]; ok {
		return cp(d), nil
	}
	return nil, idenpubonchain.ErrIdenNotOnChain
}

func (c *vchain) GetStateByBlock(id *core.ID, n uint64) (*proof.IdenStateData, error) {
	c.queries++
	if c.failAt[n] {
		return nil, fmt.Errorf("no connection")
	}
	if d, ok := c.at[vkey{*id, n}]; ok {
		return cp(d), nil
	}
	return nil, idenpubonchain.ErrIdenByBlockNotFound
}

func (c *vchain) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	return nil, idenpubonchain.ErrIdenByTimeNotFound
}
func (c *vchain) SetState(*core.ID, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) {
	return nil, fmt.Errorf("unexpected")
}
func (c *vchain) InitState(*core.ID, *merkletree.Hash, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) {
	return nil, fmt.Errorf("unexpected")
}
func (c *vchain) TxConfirmBlocks(*types.Transaction) (*big.Int, error) {
	return nil, fmt.Errorf("unexpected")
}

// the trees of an issuer at some time
type vtrees struct {
	cl, re, ro *merkletree.MerkleTree
	claims     []*merkletree.Entry
	nonces     map[uint32]bool
}

func (h *vh) tree() *merkletree.MerkleTree {
	mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	h.check(err == nil, "new tree: %v", err)
	return mt
}

func (h *vh) trees(extra ...*merkletree.Entry) *vtrees {
	t := &vtrees{cl: h.tree(), re: h.tree(), ro: h.tree(), nonces: map[uint32]bool{}}
	for _, e := range extra {
		h.check(t.cl.AddEntry(&merkletree.Entry{Data: e.Data}) == nil, "claim not added")
		t.claims = append(t.claims, &merkletree.Entry{Data: e.Data})
	}
	for i := h.r.Intn(5); i >= 0; i-- {
		e := h.claim()
		if t.cl.AddEntry(&merkletree.Entry{Data: e.Data}) == nil {
			t.claims = append(t.claims, e)
		}
	}
	for i := h.r.Intn(5); i > 0; i-- {
		n := h.r.Uint32() >> uint(h.r.Intn(30))
		if claims.AddLeafRevocationsTree(t.re, n, 0xffffffff) == nil {
			t.nonces[n] = true
		}
	}
	h.check(claims.AddLeafRootsTree(t.ro, t.cl.RootKey()) == nil, "roots leaf")
	return t
}

// a claim with any expiration and nonce
func (h *vh) claim() *merkletree.Entry {
	var is [claims.IndexSlotLen]byte
	var vs [claims.ValueSlotLen]byte
	h.r.Read(is[:])
	h.r.Read(vs[:])
	c := claims.NewClaimBasic(is, vs)
	hd := c.Metadata().Header()
	hd.Expiration = h.r.Intn(2) == 0
	m := claims.NewMetadata(hd)
	m.RevNonce = h.r.Uint32() >> uint(h.r.Intn(30))
	m.Expiration = h.ts()
	e := c.Entry()
	m.Marshal(e)
	return &merkletree.Entry{Data: e.Data}
}

const vnow = 1600000000

// times around the present
func (h *vh) ts() int64 {
	switch h.r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1<<63 - 1 - int64(h.r.Intn(2)*h.r.Intn(1000))
	case 2:
		return vnow + 1000000
	}
	return vnow + int64(h.r.Intn(5)) - 2
}

func (h *vh) id() core.ID {
	var g [27]byte
	h.r.Read(g[:])
	return core.NewID(core.TypeBJP0, g)
}

func (t *vtrees) state() *merkletree.Hash {
	return core.IdenState(t.cl.RootKey(), t.re.RootKey(), t.ro.RootKey())
}

func hcp(x *merkletree.Hash) *merkletree.Hash { y := *x; return &y }

func (h *vh) gen(mt *merkletree.MerkleTree, e *merkletree.Entry) *merkletree.Proof {
	hi, err := (&merkletree.Entry{Data: e.Data}).HIndex()
	h.check(err == nil, "index: %v", err)
	p, err := mt.GenerateProof(hi, nil)
	h.check(err == nil, "proof: %v", err)
	return p
}

func (h *vh) hash() *merkletree.Hash {
	var x merkletree.Hash
	h.r.Read(x[:31])
	if h.r.Intn(3) == 0 {
		x[31] = 0xff // outside the field
	}
	return &x
}

// the oracle

func oRoot(p *merkletree.Proof, d merkletree.Data) *merkletree.Hash {
	e := &merkletree.Entry{Data: d}
	hi, err := e.HIndex()
	if err != nil {
		return nil
	}
	hv, err := e.HValue()
	if err != nil {
		return nil
	}
	r, err := merkletree.RootFromProof(p, hi, hv)
	if err != nil {
		return nil
	}
	return r
}

func oState(a, b, c *merkletree.Hash) *merkletree.Hash {
	if a == nil {
		return nil
	}
	h, err := merkletree.HashElems(merkletree.ElemBytes(*a), merkletree.ElemBytes(*b), merkletree.ElemBytes(*c))
	if err != nil {
		return nil
	}
	return h
}

func (c *vchain) has(id core.ID, d *proof.IdenStateData) bool {
	r, ok := c.at[vkey{id, d.BlockN}]
	return ok && !c.failAt[d.BlockN] && r.BlockN == d.BlockN && r.BlockTs == d.BlockTs && *r.IdenState == *d.IdenState
}

func oExist(c *vchain, e *proof.CredentialExistence) bool {
	if !e.MtpClaim.Existence {
		return false
	}
	root := oRoot(e.MtpClaim, e.Claim.Data)
	st := oState(root, e.RevocationsTreeRoot, e.RootsTreeRoot)
	return root != nil && st != nil && *st == *e.IdenStateData.IdenState && c.has(*e.Id, &e.IdenStateData)
}

func oFresh(c *vchain, id core.ID, st merkletree.Hash, ts int64, age time.Duration, now time.Time) bool {
	lim := new(big.Int).Mul(big.NewInt(now.Unix()), big.NewInt(1000000000))
	lim.Add(lim, big.NewInt(int64(now.Nanosecond())))
	lim.Sub(lim, big.NewInt(int64(age)))
	if new(big.Int).Mul(big.NewInt(ts), big.NewInt(1000000000)).Cmp(lim) > 0 {
		return true
	}
	l, ok := c.last[id]
	return ok && !c.badLast && *l.IdenState == st
}

func oValid(c *vchain, e *proof.CredentialValidity, age time.Duration, now time.Time) bool {
	d := e.CredentialExistence.Claim.Data
	if d[0][8]&8 != 0 {
		exp := int64(0)
		for i := 7; i >= 0; i-- {
			exp = exp<<8 | int64(d[4][4+i])
		}
		if exp < now.Unix() || exp == now.Unix() && now.Nanosecond() > 0 {
			return false
		}
	}
	if !oExist(c, &e.CredentialExistence) || e.MtpNotNonce.Existence {
		return false
	}
	var l merkletree.Data
	copy(l[0][:4], d[4][:4])
	copy(l[4][:4], []byte{255, 255, 255, 255})
	root := oRoot(e.MtpNotNonce, l)
	if root == nil {
		return false
	}
	st := oState(e.ClaimsTreeRoot, root, e.RootsTreeRoot)
	return st != nil && *st == *e.IdenStateData.IdenState && c.has(*e.CredentialExistence.Id, &e.IdenStateData) &&
		oFresh(c, *e.CredentialExistence.Id, *st, e.IdenStateData.BlockTs, age, now)
}

// one change to an existence credential or to the chain
func (h *vh) tamperE(c *vchain, e *proof.CredentialExistence, t *vtrees) string {
	switch h.r.Intn(16) {
	case 0:
		e.MtpClaim = h.gen(t.cl, h.claim())
		return "proof of a claim not in the tree"
	case 1:
		p := *e.MtpClaim
		p.Existence = false
		e.MtpClaim = &p
		return "proof marked as of non-existence"
	case 2:
		i := h.r.Intn(8)
		e.Claim = &merkletree.Entry{Data: e.Claim.Data}
		e.Claim.Data[i][h.r.Intn(31)] ^= 1 << uint(h.r.Intn(8))
		return fmt.Sprintf("claim element %d altered", i)
	case 3:
		i := h.r.Intn(8)
		e.Claim = &merkletree.Entry{Data: e.Claim.Data}
		e.Claim.Data[i][31] = 0xff
		return fmt.Sprintf("claim element %d outside the field", i)
	case 4:
		e.RevocationsTreeRoot = h.hash()
		return "other revocations root"
	case 5:
		e.RootsTreeRoot = h.hash()
		return "other roots root"
	case 6:
		e.RootsTreeRoot, e.RevocationsTreeRoot = e.RevocationsTreeRoot, e.RootsTreeRoot
		return "roots swapped"
	case 7:
		e.IdenStateData.IdenState = h.hash()
		return "other state"
	case 8:
		e.IdenStateData.BlockN++
		return "other block"
	case 9:
		e.IdenStateData.BlockTs++
		return "other time"
	case 10:
		id := h.id()
		e.Id = &id
		return "other identity"
	case 11:
		c.failAt[e.IdenStateData.BlockN] = true
		return "chain query fails"
	case 12:
		k := vkey{*e.Id, e.IdenStateData.BlockN}
		d, ok := c.at[k]
		if !ok {
			return "nothing"
		}
		switch h.r.Intn(3) {
		case 0:
			d.BlockTs--
		case 1:
			d.BlockN++
		default:
			d.IdenState = h.hash()
		}
		c.at[k] = d
		return "chain records other data"
	case 13:
		o := t.claims[h.r.Intn(len(t.claims))]
		e.Claim = &merkletree.Entry{Data: o.Data}
		return "another claim of the tree"
	case 14:
		o := t.claims[h.r.Intn(len(t.claims))]
		e.Claim = &merkletree.Entry{Data: o.Data}
		e.MtpClaim = h.gen(t.cl, o)
		return "another claim of the tree with its proof"
	}
	if len(e.MtpClaim.Siblings) > 0 {
		p := *e.MtpClaim
		p.Siblings = append([]*merkletree.Hash{}, p.Siblings...)
		p.Siblings[h.r.Intn(len(p.Siblings))] = h.hash()
		e.MtpClaim = &p
		return "other sibling"
	}
	return "nothing"
}

func (h *vh) credE(c *vchain, id core.ID, t *vtrees, n uint64, ts int64) *proof.CredentialExistence {
	e := t.claims[h.r.Intn(len(t.claims))]
	c.put(id, t, n, ts)
	return &proof.CredentialExistence{Id: &id, IdenStateData: proof.IdenStateData{BlockTs: ts, BlockN: n, IdenState: t.state()},
		MtpClaim: h.gen(t.cl, e), Claim: &merkletree.Entry{Data: e.Data}, RevocationsTreeRoot: hcp(t.re.RootKey()), RootsTreeRoot: hcp(t.ro.RootKey())}
}

func (c *vchain) put(id core.ID, t *vtrees, n uint64, ts int64) {
	c.at[vkey{id, n}] = proof.IdenStateData{BlockTs: ts, BlockN: n, IdenState: t.state()}
	if l, ok := c.last[id]; !ok || l.BlockN < n {
		c.last[id] = c.at[vkey{id, n}]
	}
}

func newChain() *vchain {
	return &vchain{at: map[vkey]proof.IdenStateData{}, last: map[core.ID]proof.IdenStateData{}, failAt: map[uint64]bool{}}
}

// ---- Groth16 proofs made with a known trapdoor

type vzk struct {
	h          *vh
	a, b, g, d *big.Int
	ic         []*big.Int
	files      *zkutils.ZkFiles
	n          int
}

func (h *vh) scalar() *big.Int {
	x := new(big.Int).Rand(h.r, bn256.Order)
	if x.Sign() == 0 {
		x.SetInt64(1)
	}
	return x
}

func (h *vh) zk(dir string, n int, badHash bool) *vzk {
	z := &vzk{h: h, a: h.scalar(), b: h.scalar(), g: h.scalar(), d: h.scalar(), n: n}
	g1 := func(x *big.Int) []string {
		p := zkutils.G1ToBigInts(new(bn256.G1).ScalarBaseMult(x))
		return []string{p[0].String(), p[1].String(), "1"}
	}
	g2 := func(x *big.Int) [][]string {
		b := new(bn256.G2).ScalarBaseMult(x).Marshal()
		s := func(i int) string { return new(big.Int).SetBytes(b[32*i : 32*i+32]).String() }
		// snarkjs writes the real part first
		return [][]string{{s(1), s(0)}, {s(3), s(2)}, {"1", "0"}}
	}
	var ics [][]string
	for i := 0; i <= n; i++ {
		x := h.scalar()
		z.ic = append(z.ic, x)
		ics = append(ics, g1(x))
	}
	js, err := json.Marshal(map[string]interface{}{"vk_alfa_1": g1(z.a), "vk_beta_2": g2(z.b), "vk_gamma_2": g2(z.g), "vk_delta_2": g2(z.d), "IC": ics})
	h.check(err == nil, "json: %v", err)
	h.check(ioutil.WriteFile(filepath.Join(dir, "verification_key.json"), js, 0600) == nil, "write")
	sum := sha256.Sum256(js)
	if badHash {
		sum[3] ^= 1
	}
	z.files = zkutils.NewZkFiles("", dir, zkutils.ProvingKeyFormatJSON, zkutils.ZkFilesHashes{VerificationKey: hex.EncodeToString(sum[:])}, false)
	return z
}

// prove makes a proof for the signals
func (z *vzk) prove(sig []*big.Int) *zktypes.Proof {
	q := bn256.Order
	vk := new(big.Int).Set(z.ic[0])
	for i, s := range sig {
		vk.Add(vk, new(big.Int).Mul(z.ic[i+1], s))
	}
	x, y := z.h.scalar(), z.h.scalar()
	c := new(big.Int).Mul(x, y)
	c.Sub(c, new(big.Int).Mul(z.a, z.b))
	c.Sub(c, new(big.Int).Mul(vk, z.g))
	c.Mul(c, new(big.Int).ModInverse(z.d, q))
	c.Mod(c, q)
	return &zktypes.Proof{A: new(bn256.G1).ScalarBaseMult(x), B: new(bn256.G2).ScalarBaseMult(y), C: new(bn256.G1).ScalarBaseMult(c)}
}
