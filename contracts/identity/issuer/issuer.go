package issuer

import (
	"math/big"
	"sync"

	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	v "github.com/iden3/go-iden3-core/zzverif"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

// ---- what an issuer keeps in its storage

//verif:nilable absData.txInit absData.txSet
func decl_nil() {}

type absRoots struct{ clr, rer, ror merkletree.Hash }

type absOnChain struct {
	ts int64
	n  uint64
	st merkletree.Hash
}

type absData struct {
	nonce   uint32
	pending merkletree.Hash
	sent    byte
	onchain absOnChain
	txInit  *types.Transaction
	txSet   *types.Transaction
	// the list of states: its length, its last and its last but one element
	n          uint32
	last, prev merkletree.Hash
	lastR      absRoots
	prevR      absRoots

	id         core.ID
	kop        babyjub.PublicKeyComp
	cfg        Config
}

// an error of the storage, which knows nothing of issuers
func otherErr(what string) error {
	e := v.AnyErr(what)
	v.Requires(e != ErrClaimNotYetInOnChainState && e != ErrIdenStateOnChainZero && e != ErrClaimNotFoundClaimsTree)
	return e
}

// a storage any access of which may fail
type absStore struct {
	d       absData
	commits int
	// read by each access to the nonce counter, written by each change
	touched int
	// of the claims, revocations and roots tree
	trees [3]db.Storage
}

type absTx struct {
	s *absStore
	d absData
}

func Abs_Storage() db.Storage {
	s := &absStore{}
	v.Any(&s.d.nonce, "stored nonce")
	v.Any(&s.d.pending, "stored pending")
	v.Any(&s.d.sent, "stored sent")
	v.Any(&s.d.onchain, "stored on-chain state")
	v.Any(&s.d.n, "stored states")
	v.Any(&s.d.last, "last stored state")
	v.Any(&s.d.prev, "stored state before")
	v.Any(&s.d.lastR, "last stored roots")
	v.Any(&s.d.prevR, "stored roots before")
	v.Any(&s.d.id, "stored identifier")
	v.Any(&s.d.txInit, "stored transaction that initialised")
	v.Any(&s.d.txSet, "stored transaction that set")
	v.Any(&s.d.kop, "stored operational key")
	v.Any(&s.d.cfg, "stored configuration")
	for i := 0; i < 3; i++ {
		s.trees[i] = merkletree.SpecStore()
	}
	return s
}

func (s *absStore) Info() string                                              { return "" }
func (s *absStore) Close()                                                    {}
func (s *absStore) WithPrefix(p []byte) db.Storage {
	switch {
	case v.BytesEq(p, dbPrefixClaimsTree):
		return s.trees[0]
	case v.BytesEq(p, dbPrefixRevocationTree):
		return s.trees[1]
	case v.BytesEq(p, dbPrefixRootsTree):
		return s.trees[2]
	}
	panic("not modelled")
}
func (s *absStore) List(int) ([]db.KV, error)                                 { panic("not modelled") }
func (s *absStore) Iterate(func([]byte, []byte) (bool, error)) error          { panic("not modelled") }

func (s *absStore) NewTx() (db.Tx, error) {
	if v.AnyBool("no transaction") {
		return &absTx{s: s, d: s.d}, otherErr("transaction failure")
	}
	return &absTx{s: s, d: s.d}, nil
}

func (s *absStore) Get(k []byte) ([]byte, error) { return (&absTx{s: s, d: s.d}).Get(k) }

func (t *absTx) Close()    {}
func (t *absTx) Add(db.Tx) { panic("not modelled") }

func (t *absTx) Commit() error {
	if v.AnyBool("commit fails") {
		return otherErr("commit failure")
	}
	t.s.d = t.d
	t.s.commits++
	return nil
}

func specLE(x uint32) []byte {
	return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
}

func (t *absTx) Get(k []byte) ([]byte, error) {
	if v.AnyBool("unreadable") {
		return nil, otherErr("read failure")
	}
	switch {
	case v.BytesEq(k, dbKeyNonceIdx):
		_ = t.s.touched
		return specLE(t.d.nonce), nil
	case v.BytesEq(k, dbKeyIdenStatePending):
		return append([]byte{}, t.d.pending[:]...), nil
	case v.BytesEq(k, dbKeyIdenStatePendingTransacted):
		return []byte{t.d.sent}, nil
	case v.BytesEq(k, dbKeyId):
		return append([]byte{}, t.d.id[:]...), nil
	case v.BytesEq(k, dbKeyKOp):
		return append([]byte{}, t.d.kop[:]...), nil
	case v.BytesEq(k, dbKeyConfig):
		return cfgBytes(t.d.cfg), nil
	}
	panic("not modelled")
}

func (t *absTx) Put(k, x []byte) {
	switch {
	case v.BytesEq(k, dbKeyNonceIdx):
		t.s.touched = 1
		t.d.nonce = uint32(x[0]) | uint32(x[1])<<8 | uint32(x[2])<<16 | uint32(x[3])<<24
	case v.BytesEq(k, dbKeyIdenStatePending):
		v.Assert("a state is 32 bytes", len(x) == 32)
		copy(t.d.pending[:], x)
	case v.BytesEq(k, dbKeyIdenStatePendingTransacted):
		v.Assert("a flag is one byte", len(x) == 1)
		t.d.sent = x[0]
	case v.BytesEq(k, dbKeyId):
		v.Assert("an identifier is 31 bytes", len(x) == 31)
		copy(t.d.id[:], x)
	case v.BytesEq(k, dbKeyKOp):
		v.Assert("a compressed key is 32 bytes", len(x) == 32)
		copy(t.d.kop[:], x)
	case v.BytesEq(k, dbKeyConfig):
		t.d.cfg = bytesCfg(x)
	}
}

// the configuration's encoding, taken as one that can be read back

func put64(b []byte, x uint64) {
	for i := 0; i < 8; i++ {
		b[i] = byte(x >> uint(8*i))
	}
}

func get64(b []byte) (x uint64) {
	for i := 0; i < 8; i++ {
		x |= uint64(b[i]) << uint(8*i)
	}
	return
}

func cfgBytes(c Config) []byte {
	b := make([]byte, 33)
	put64(b, uint64(c.MaxLevelsClaimsTree))
	put64(b[8:], uint64(c.MaxLevelsRevocationTree))
	put64(b[16:], uint64(c.MaxLevelsRootsTree))
	put64(b[24:], c.ConfirmBlocks)
	b[32] = bool2byte(c.GenesisOnly)
	return b
}

func bytesCfg(b []byte) Config {
	v.Assert("a configuration", len(b) == 33)
	return Config{int(get64(b)), int(get64(b[8:])), int(get64(b[16:])), b[32] != 0, get64(b[24:])}
}

//verif:stub target=encoding/json.Marshal
func stub_Marshal(x interface{}) ([]byte, error) {
	if v.AnyBool("not encodable") {
		return nil, otherErr("encoding failure")
	}
	return cfgBytes(x.(Config)), nil
}

//verif:stub target=encoding/json.Unmarshal
func stub_Unmarshal(b []byte, x interface{}) error {
	if v.AnyBool("not decodable") {
		return otherErr("decoding failure")
	}
	*x.(*Config) = bytesCfg(b)
	return nil
}

// JSON values taken as read back the way they were stored

//verif:stub target=github.com/iden3/go-iden3-core/db.StoreJSON
func stub_StoreJSON(tx db.Tx, key []byte, x interface{}) error {
	if v.AnyBool("not encodable") {
		return otherErr("encoding failure")
	}
	t := tx.(*absTx)
	switch {
	case v.BytesEq(key, dbKeyIdenStateDataOnChain):
		d := x.(*proof.IdenStateData)
		t.d.onchain = absOnChain{d.BlockTs, d.BlockN, *d.IdenState}
	case v.BytesEq(key, dbKeyEthTxInitState):
		t.d.txInit = x.(*types.Transaction)
	case v.BytesEq(key, dbKeyEthTxSetState):
		t.d.txSet = x.(*types.Transaction)
	}
	return nil
}

//verif:stub target=github.com/iden3/go-iden3-core/db.LoadJSON
func stub_LoadJSON(s db.Storage, key []byte, x interface{}) error {
	if v.AnyBool("unreadable") {
		return otherErr("read failure")
	}
	st := s.(*absStore)
	switch {
	case v.BytesEq(key, dbKeyIdenStateDataOnChain):
		d := x.(*proof.IdenStateData)
		h := st.d.onchain.st
		d.BlockTs, d.BlockN, d.IdenState = st.d.onchain.ts, st.d.onchain.n, &h
	case v.BytesEq(key, dbKeyEthTxInitState):
		*x.(**types.Transaction) = st.d.txInit
	case v.BytesEq(key, dbKeyEthTxSetState):
		*x.(**types.Transaction) = st.d.txSet
	}
	return nil
}

// the list of states, as C23 proves the stored list behaves

//verif:stub target=(*github.com/iden3/go-iden3-core/db.StorageList).Init
func stub_ListInit(l *db.StorageList, tx db.Tx) { tx.(*absTx).d.n = 0 }

//verif:stub target=(*github.com/iden3/go-iden3-core/db.StorageList).Length
func stub_ListLength(l *db.StorageList, tx db.Tx) (uint32, error) {
	if v.AnyBool("unreadable") {
		return 0, otherErr("read failure")
	}
	return tx.(*absTx).d.n, nil
}

//verif:stub target=(*github.com/iden3/go-iden3-core/db.StorageList).Append
func stub_ListAppend(l *db.StorageList, tx db.Tx, key []byte, x interface{}) error {
	if v.AnyBool("not appendable") {
		return otherErr("append failure")
	}
	d := &tx.(*absTx).d
	r := x.(*IdenStateTreeRoots)
	v.Assert("a state is 32 bytes", len(key) == 32)
	d.n++
	d.prev, d.prevR = d.last, d.lastR
	copy(d.last[:], key)
	d.lastR = absRoots{*r.ClaimsTreeRoot, *r.RevocationsTreeRoot, *r.RootsTreeRoot}
	return nil
}

func fillRoots(x interface{}, r absRoots) {
	o := x.(*IdenStateTreeRoots)
	o.ClaimsTreeRoot, o.RevocationsTreeRoot, o.RootsTreeRoot = &r.clr, &r.rer, &r.ror
}

//verif:stub target=(*github.com/iden3/go-iden3-core/db.StorageList).GetByIdx
func stub_ListGetByIdx(l *db.StorageList, tx db.Tx, i uint32, x interface{}) ([]byte, error) {
	if v.AnyBool("unreadable") {
		return nil, otherErr("read failure")
	}
	d := tx.(*absTx).d
	if i >= d.n {
		return nil, db.ErrNotFound
	}
	var h merkletree.Hash
	var r absRoots
	switch {
	case i == d.n-1:
		h, r = d.last, d.lastR
	case i == d.n-2:
		h, r = d.prev, d.prevR
	default:
		v.Any(&h, "earlier state")
		v.Any(&r, "earlier roots")
	}
	fillRoots(x, r)
	return h[:], nil
}

//verif:stub target=(*github.com/iden3/go-iden3-core/db.StorageList).Get
func stub_ListGet(l *db.StorageList, tx db.Tx, key []byte, x interface{}) error {
	if v.AnyBool("unreadable") {
		return otherErr("read failure")
	}
	d := tx.(*absTx).d
	switch {
	case d.n >= 1 && v.BytesEq(key, d.last[:]):
		fillRoots(x, d.lastR)
	case d.n >= 2 && v.BytesEq(key, d.prev[:]):
		fillRoots(x, d.prevR)
	default:
		if v.AnyBool("never recorded") {
			return db.ErrNotFound
		}
		var r absRoots
		v.Any(&r, "earlier roots")
		fillRoots(x, r)
	}
	return nil
}

// ---- an arbitrary issuer whose memory is what its storage holds

func specSynced(is *Issuer) bool {
	d := is.storage.(*absStore).d
	o := is._idenStateDataOnChain
	return *is._idenStatePending == d.pending && is._idenStatePendingTransacted == (d.sent != 0) &&
		o.BlockTs == d.onchain.ts && o.BlockN == d.onchain.n && *o.IdenState == d.onchain.st &&
		is._ethTxInitState == d.txInit && is._ethTxSetState == d.txSet
}

// a state with its roots
func specRecord(h merkletree.Hash, r absRoots) bool {
	st, ok := merkletree.SpecH3(r.clr, r.rer, r.ror)
	return ok && st == h && h != merkletree.Hash{}
}

// what is recorded follows the protocol
func specProtocol(d absData) bool {
	var zero merkletree.Hash
	if d.n < 1 || !specRecord(d.last, d.lastR) || d.n > 1 && !specRecord(d.prev, d.prevR) {
		return false
	}
	if d.pending == zero {
		// nothing is awaiting confirmation: the last recorded state is on chain, or none is
		return d.sent == 0 && (d.onchain.st == zero && d.n == 1 || d.onchain.st == d.last)
	}
	return d.sent <= 1 && d.n >= 2 && d.pending == d.last && (d.onchain.st == zero && d.n == 2 || d.onchain.st == d.prev)
}

func specIssuer(s db.Storage, clt, ret, rot *merkletree.MerkleTree, id *core.ID, k *babyjub.PublicKeyComp, confirm uint64) *Issuer {
	st := s.(*absStore)
	v.Requires(merkletree.SpecTreeSynced(clt) && merkletree.SpecTreeSynced(ret) && merkletree.SpecTreeSynced(rot))
	v.Requires(st.d.sent <= 1)
	o, p := st.d.onchain.st, st.d.pending
	return &Issuer{
		rw:                          &sync.RWMutex{},
		storage:                     s,
		id:                          id,
		claimsTree:                  clt,
		revocationsTree:             ret,
		rootsTree:                   rot,
		kOpComp:                     k,
		nonceGen:                    NewUniqueNonceGen(db.NewStorageValue(dbKeyNonceIdx)),
		idenStateList:               db.NewStorageList(dbPrefixIdenStateList),
		_idenStateDataOnChain:       &proof.IdenStateData{BlockTs: st.d.onchain.ts, BlockN: st.d.onchain.n, IdenState: &o},
		_idenStatePending:           &p,
		_idenStatePendingTransacted: st.d.sent != 0,
		_ethTxInitState:             st.d.txInit,
		_ethTxSetState:              st.d.txSet,
		cfg:                         Config{ConfirmBlocks: confirm, GenesisOnly: v.AnyBool("genesis only")},
	}
}

// ---- C17: nonces

//verif:contract prop=C17,C29 target=UniqueNonceGen.Init
func vc_NonceInit(s db.Storage) {
	u := NewUniqueNonceGen(db.NewStorageValue(dbKeyNonceIdx))
	t := &absTx{s: s.(*absStore), d: s.(*absStore).d}
	v.Guarded(&u.mutex, "nonce counter", &t.s.touched)
	v.Modifies(&t.s.touched)
	want := t.d
	want.nonce = 0
	u.Init(t)
	v.Ensures("counting starts at 0, nothing else changes", t.d == want)
}

//verif:contract prop=C17,C29 target=UniqueNonceGen.Next
func vc_NonceNext(s db.Storage) {
	u := NewUniqueNonceGen(db.NewStorageValue(dbKeyNonceIdx))
	t := &absTx{s: s.(*absStore), d: s.(*absStore).d}
	v.Guarded(&u.mutex, "nonce counter", &t.s.touched)
	v.Modifies(&t.s.touched)
	old := t.d
	n, err := u.Next(t)
	if err == nil {
		want := old
		want.nonce = old.nonce + 1
		v.Ensures("the counter's value is handed out", n == old.nonce)
		v.Ensures("the counter has moved on and not wrapped", t.d == want && t.d.nonce > n)
		v.Cover("some nonce is handed out")
	} else {
		v.Ensures("nothing changes", t.d == old)
	}
	v.Ensures("the last value is never wrapped around", old.nonce != 0xffffffff || err != nil)
}

// a claim with arbitrary contents that carries its metadata's nonce
type absClaim struct {
	md *claims.Metadata
	d  merkletree.Data
}

func (c *absClaim) Metadata() *claims.Metadata { return c.md }
func (c *absClaim) Entry() *merkletree.Entry   { return &merkletree.Entry{Data: specClaimData(c)} }

func specClaimData(c *absClaim) merkletree.Data {
	d := c.d
	copy(d[4][:4], specLE(c.md.RevNonce))
	return d
}

//verif:contract prop=C17,C20 target=Issuer.IssueClaim
func vc_IssueClaim(s db.Storage, clt, ret, rot *merkletree.MerkleTree, id *core.ID, k *babyjub.PublicKeyComp, confirm uint64, md *claims.Metadata, e merkletree.Data) {
	is := specIssuer(s, clt, ret, rot, id, k, confirm)
	st := s.(*absStore)
	c := &absClaim{md, e}
	md0, d0, root, max := *md, st.d, merkletree.SpecTreeRoot(clt), merkletree.SpecTreeMax(clt)
	v.Modifies(s, clt, md)
	err := is.IssueClaim(c)
	consumed := d0
	consumed.nonce = d0.nonce + 1
	v.Ensures("nothing but the counter changes in the storage", st.d == d0 || st.d == consumed && d0.nonce < 0xffffffff)
	v.Ensures("a claim enters the tree only when its nonce is durably consumed", merkletree.SpecTreeRoot(clt) == root || st.d == consumed)
	if err == nil {
		want := md0
		want.RevNonce = d0.nonce
		v.Ensures("the claim has the nonce, its other metadata stays", *md == want)
		r, ok := merkletree.SpecAdd(root, specClaimData(c), max)
		v.Ensures("exactly the claim with its nonce is added", ok && merkletree.SpecTreeRoot(clt) == r)
		v.Cover("some claim is issued")
	} else {
		v.Ensures("a claim that is not issued keeps its metadata and is not in the tree", *md == md0 && merkletree.SpecTreeRoot(clt) == root)
	}
}

// ---- C18: publication

// the chain and the proof generator, as the issuer uses them
type absChain struct {
	id       core.ID
	st       *absStore
	tx       *types.Transaction // what it answers to a transition
	sent     int
	asked    int
	notYet   bool // the receipt is not there
	conf     *big.Int
	none     bool
	state    *proof.IdenStateData
	stateErr bool
	zkOld    merkletree.Hash
	zkNew    merkletree.Hash
	zk       *zkutils.ZkProofOut
	pub      int
	pubOld   merkletree.Hash
}

//verif:stub target=(*github.com/iden3/go-iden3-core/identity/issuer.Issuer).GenZkProofIdenStateUpdate
func stub_GenZk(is *Issuer, o, n *merkletree.Hash, ch *absChain) (*zkutils.ZkProofOut, error) {
	if v.AnyBool("no proof") {
		return nil, v.AnyErr("proof failure")
	}
	ch.zkOld, ch.zkNew = *o, *n
	ch.zk = &zkutils.ZkProofOut{}
	return ch.zk, nil
}

//verif:stub target=(*github.com/ethereum/go-ethereum/core/types.Transaction).Hash
func stub_TxHash(tx *types.Transaction) ethcommon.Hash { return ethcommon.Hash{} }

//verif:stub target=(github.com/ethereum/go-ethereum/common.Hash).Hex
func stub_HashHex(h ethcommon.Hash) string { return "" }

func (c *absChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
	v.Assert("the issuer asks about itself", *id == c.id)
	if c.none {
		return nil, idenpubonchain.ErrIdenNotOnChain
	}
	if c.stateErr {
		e := v.AnyErr("chain failure")
		v.Requires(e != idenpubonchain.ErrIdenNotOnChain)
		return nil, e
	}
	return c.state, nil
}

func (c *absChain) GetStateByBlock(*core.ID, uint64) (*proof.IdenStateData, error) {
	panic("not modelled")
}
func (c *absChain) GetStateByTime(*core.ID, int64) (*proof.IdenStateData, error) {
	panic("not modelled")
}

// the recorded pending state is what is sent, with a proof of this transition
func (c *absChain) transition(id *core.ID, n *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	d := c.st.d
	c.sent++
	v.Assert("sent once", c.sent == 1)
	v.Assert("for its own identity", *id == c.id)
	v.Assert("the new state and its roots are recorded before it is sent", d.last == *n && d.pending == *n && d.sent == 0 && specRecord(d.last, d.lastR))
	v.Assert("the proof is of this transition from the state recorded before", c.zk != nil && p == &c.zk.Proof && c.zkNew == *n && c.zkOld == d.prev)
	if v.AnyBool("refused") {
		return nil, v.AnyErr("chain refuses")
	}
	return c.tx, nil
}

func (c *absChain) SetState(id *core.ID, n *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	v.Assert("updated only when already on chain", c.st.d.onchain.st != merkletree.Hash{})
	return c.transition(id, n, p)
}

func (c *absChain) InitState(id *core.ID, g, n *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	v.Assert("initialised only when never on chain", c.st.d.onchain.st == merkletree.Hash{})
	v.Assert("from the genesis state", *g == c.st.d.prev && c.st.d.n == 2)
	return c.transition(id, n, p)
}

func (c *absChain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	c.asked++
	d := c.st.d
	if d.onchain.st == (merkletree.Hash{}) {
		v.Assert("the transaction that initialised the state is asked about", tx == d.txInit)
	} else {
		v.Assert("the transaction that set the state is asked about", tx == d.txSet)
	}
	if c.notYet {
		return nil, eth.ErrReceiptNotReceived
	}
	if c.conf.Sign() < 0 {
		e := v.AnyErr("chain failure")
		v.Requires(e != eth.ErrReceiptNotReceived)
		return nil, e
	}
	return c.conf, nil
}

func (c *absChain) Url() string { return "" }

func (c *absChain) Publish(id *core.ID, p *idenpuboffchain.PublicData) error {
	c.pub++
	d := c.st.d
	v.Assert("published for its own identity", *id == c.id)
	v.Assert("published after the transition was sent and recorded", c.sent == 1 && d.sent == 1)
	v.Assert("the published data is that of the new state", *p.IdenState == d.last && *p.ClaimsTreeRoot == d.lastR.clr &&
		*p.RevocationsTreeRoot == d.lastR.rer && *p.RootsTreeRoot == d.lastR.ror)
	if v.AnyBool("not published") {
		return v.AnyErr("publish failure")
	}
	return nil
}

var _ idenpubonchain.IdenPubOnChainer = &absChain{}
var _ idenpuboffchain.IdenPubOffChainWriter = &absChain{}

//verif:contract prop=C18,C19 target=Issuer.PublishState inj
func vc_PublishState(s db.Storage, clt, ret, rot *merkletree.MerkleTree, id *core.ID, k *babyjub.PublicKeyComp, t3 *types.Transaction, confirm uint64, ch *absChain) {
	is := specIssuer(s, clt, ret, rot, id, k, confirm)
	st := s.(*absStore)
	d0 := st.d
	v.Requires(specProtocol(d0) && d0.n < 1<<31)
	v.Requires(merkletree.SpecInField(merkletree.SpecTreeRoot(clt)) && merkletree.SpecInField(merkletree.SpecTreeRoot(ret)) && merkletree.SpecInField(merkletree.SpecTreeRoot(rot)))
	ch.id, ch.st, ch.tx, ch.sent, ch.zk, ch.pub = *id, st, t3, 0, nil, 0
	is.idenPubOnChain, is.idenPubOffChainWriter = ch, ch
	root, rroot, max := merkletree.SpecTreeRoot(clt), merkletree.SpecTreeRoot(rot), merkletree.SpecTreeMax(rot)
	v.Modifies(s, is, rot, ch)
	err := is.PublishState()
	d := st.d
	v.Ensures("memory is what the storage holds", specSynced(is))
	v.Ensures("the record follows the protocol", specProtocol(d))
	v.Ensures("the on-chain state is not touched", d.onchain == d0.onchain)
	if d0.pending != (merkletree.Hash{}) {
		v.Ensures("a pending state stays the pending state", d.pending == d0.pending && d.n == d0.n)
		v.Ensures("nothing is sent while a state is awaiting confirmation", d0.sent == 0 || ch.sent == 0 && err != nil && st.commits == 0)
	}
	if is.cfg.GenesisOnly {
		v.Ensures("a genesis identity never publishes", err != nil && ch.sent == 0)
	}
	if ch.sent == 0 {
		v.Ensures("unsent states are recorded as such", d.sent == d0.sent && d.txInit == d0.txInit && d.txSet == d0.txSet)
	}
	if err == nil && ch.sent == 0 {
		v.Ensures("nothing is sent only when nothing has changed", d == d0)
		st, ok := merkletree.SpecH3(root, merkletree.SpecTreeRoot(ret), rroot)
		v.Ensures("no publication only when the state is the recorded one", ok && st == d0.last)
		v.Cover("an unchanged state is not published")
	}
	if err == nil && ch.sent == 1 {
		v.Ensures("the transition and its transaction are recorded", d.sent == 1 && (d0.onchain.st == merkletree.Hash{}) == (d.txInit == t3 && d.txSet == d0.txSet))
		v.Ensures("and published off chain", ch.pub == 1)
		v.Cover("some state is published")
	}
	if d.n != d0.n {
		v.Ensures("the new state is the state of the trees", d.n == d0.n+1 && d.lastR.clr == root &&
			d.lastR.rer == merkletree.SpecTreeRoot(ret) && d.lastR.ror == merkletree.SpecTreeRoot(rot))
		v.Ensures("the state recorded before stays so", d.prev == d0.last)
		r, ok := merkletree.SpecAdd(rroot, specRootsLeaf(root), max)
		v.Ensures("a new claims root is added to the roots tree", d.lastR.clr == d0.lastR.clr && d.lastR.ror == rroot ||
			ok && d.lastR.ror == r || d.lastR.ror == rroot && merkletree.SpecHolds(rroot, merkletree.SpecHi(specRootsLeaf(root)), max))
	}
}

func specRootsLeaf(r merkletree.Hash) (d merkletree.Data) {
	d[0] = merkletree.ElemBytes(r)
	return
}

//verif:contract prop=C18,C19 target=Issuer.SyncIdenStatePublic inj
func vc_Sync(s db.Storage, clt, ret, rot *merkletree.MerkleTree, id *core.ID, k *babyjub.PublicKeyComp, t3 *types.Transaction, confirm uint64, ch *absChain) {
	is := specIssuer(s, clt, ret, rot, id, k, confirm)
	st := s.(*absStore)
	d0 := st.d
	v.Requires(specProtocol(d0) && d0.n < 1<<31)
	v.Requires(d0.sent == 0 || (d0.onchain.st == merkletree.Hash{}) && d0.txInit != nil || (d0.onchain.st != merkletree.Hash{}) && d0.txSet != nil)
	ch.id, ch.st, ch.tx, ch.sent, ch.zk, ch.pub, ch.asked = *id, st, t3, 0, nil, 0, 0
	is.idenPubOnChain, is.idenPubOffChainWriter = ch, ch
	v.Modifies(s, is, ch)
	err := is.SyncIdenStatePublic()
	d := st.d
	v.Ensures("memory is what the storage holds", specSynced(is))
	v.Ensures("the record follows the protocol", specProtocol(d))
	v.Ensures("nothing is sent", ch.sent == 0)
	reported := merkletree.Hash{}
	if !ch.none {
		reported = *ch.state.IdenState
	}
	if d != d0 {
		v.Ensures("a pending state becomes the on-chain state only when the chain reports it",
			!ch.stateErr && !ch.none && d0.pending != (merkletree.Hash{}) && reported == d0.pending)
		v.Ensures("after the required confirmations", d0.sent == 0 || ch.asked == 1 && !ch.notYet && ch.conf.Cmp(new(big.Int).SetUint64(confirm)) >= 0)
		want := d0
		want.pending, want.sent = merkletree.Hash{}, 0
		want.onchain = absOnChain{ch.state.BlockTs, ch.state.BlockN, reported}
		v.Ensures("exactly that is recorded", d == want && err == nil)
		v.Cover("some state is confirmed")
	}
	if is.cfg.GenesisOnly {
		v.Ensures("a genesis identity has no state on chain", err != nil)
	} else if err == nil && d == d0 && (d0.sent == 0 || !ch.notYet && ch.conf.Cmp(new(big.Int).SetUint64(confirm)) >= 0) {
		v.Ensures("any other state is an error", reported == d0.onchain.st && (ch.none || !ch.stateErr))
	}
}

//verif:contract prop=C18 target=Issuer.getIdenStateByIdx
func vc_getIdenStateByIdx(s db.Storage) {
	t := &absTx{s: s.(*absStore), d: s.(*absStore).d}
	is := &Issuer{idenStateList: db.NewStorageList(dbPrefixIdenStateList)}
	h, r, err := is.getIdenStateByIdx(t, -1)
	if err == nil {
		v.Ensures("the last state with its roots", *h == t.d.last && *r.ClaimsTreeRoot == t.d.lastR.clr &&
			*r.RevocationsTreeRoot == t.d.lastR.rer && *r.RootsTreeRoot == t.d.lastR.ror)
	}
	h, r, err = is.getIdenStateByIdx(t, -2)
	if err == nil {
		v.Ensures("the state before with its roots", *h == t.d.prev && *r.ClaimsTreeRoot == t.d.prevR.clr &&
			*r.RevocationsTreeRoot == t.d.prevR.rer && *r.RootsTreeRoot == t.d.prevR.ror)
	}
}

// ---- C19: what is stored and loaded

//verif:stub target=(*github.com/iden3/go-iden3-core/utils/zk.ZkFiles).LoadAll
func stub_LoadAll(f *zkutils.ZkFiles) error {
	if v.AnyBool("no files") {
		return v.AnyErr("files failure")
	}
	return nil
}

//verif:stub target=(*github.com/iden3/go-iden3-crypto/babyjub.PublicKeyComp).Decompress
func stub_Decompress(k *babyjub.PublicKeyComp, pk *babyjub.PublicKey) (*babyjub.PublicKey, error) {
	if v.AnyBool("not a key") {
		return nil, v.AnyErr("key failure")
	}
	return pk, nil
}

func specLevels(c Config) bool {
	return 1 <= c.MaxLevelsClaimsTree && c.MaxLevelsClaimsTree <= 240 && 1 <= c.MaxLevelsRevocationTree && c.MaxLevelsRevocationTree <= 240 &&
		1 <= c.MaxLevelsRootsTree && c.MaxLevelsRootsTree <= 240
}

// the trees are those of the storage
func specTrees(is *Issuer, s *absStore) bool {
	return merkletree.SpecTreeOn(is.claimsTree, s.trees[0], is.cfg.MaxLevelsClaimsTree) &&
		merkletree.SpecTreeOn(is.revocationsTree, s.trees[1], is.cfg.MaxLevelsRevocationTree) &&
		merkletree.SpecTreeOn(is.rootsTree, s.trees[2], is.cfg.MaxLevelsRootsTree)
}

//verif:contract prop=C19 target=Load inj
func vc_Load(s db.Storage, ch *absChain, conf *IdenStateZkProofConf) {
	st := s.(*absStore)
	d0 := st.d
	v.Requires(specLevels(d0.cfg) && specProtocol(d0) && d0.n < 1<<31)
	v.Requires(!merkletree.SpecNoTree(st.trees[0]) && !merkletree.SpecNoTree(st.trees[1]) && !merkletree.SpecNoTree(st.trees[2]))
	v.Requires(d0.sent == 0 || (d0.onchain.st == merkletree.Hash{}) && d0.txInit != nil || (d0.onchain.st != merkletree.Hash{}) && d0.txSet != nil)
	ch.id, ch.st, ch.sent, ch.zk, ch.pub, ch.asked = d0.id, st, 0, nil, 0, 0
	v.Modifies(s, ch, st.trees[0], st.trees[1], st.trees[2])
	is, err := Load(s, nil, ch, conf, ch)
	v.Ensures("issuer or error", (err == nil) == (is != nil))
	v.Ensures("nothing is sent", ch.sent == 0)
	if err != nil {
		return
	}
	v.Ensures("identity, key and configuration are the stored ones", *is.id == d0.id && *is.kOpComp == d0.kop && is.cfg == d0.cfg && is.storage == s)
	v.Ensures("the trees are the stored ones", specTrees(is, st))
	v.Ensures("memory is what the storage holds", specSynced(is))
	v.Ensures("the record follows the protocol", specProtocol(st.d))
	if d0.cfg.GenesisOnly {
		v.Ensures("as it was stored", st.d == d0)
		v.Cover("some genesis identity is loaded")
	} else {
		v.Cover("some identity is loaded")
	}
}

//verif:contract prop=C19,C17 target=Create inj
func vc_Create(s db.Storage, cfg Config, k *babyjub.PublicKeyComp, pk *babyjub.PublicKey, x1, x2 *absClaim, n int) {
	st := s.(*absStore)
	d0, k0 := st.d, *k
	v.Requires(specLevels(cfg) && merkletree.SpecNoTree(st.trees[0]) && merkletree.SpecNoTree(st.trees[1]) && merkletree.SpecNoTree(st.trees[2]))
	m1, m2 := *x1.md, *x2.md
	var extra []claims.Claimer
	if n >= 1 {
		extra = append(extra, x1)
	}
	if n >= 2 {
		extra = append(extra, x2)
	}
	v.Modifies(s, st.trees[0], st.trees[1], st.trees[2], x1.md, x2.md)
	id, err := Create(cfg, k, extra, s, nil)
	v.Ensures("identifier or error", (err == nil) == (id != nil))
	d := st.d
	if err != nil {
		v.Ensures("an issuer that is not created is not stored", d == d0)
		return
	}
	var zero merkletree.Hash
	v.Ensures("the returned identity, its key and configuration are stored", d.id == *id && d.kop == k0 && d.cfg == cfg)
	v.Ensures("no pending state and none on chain", d.pending == zero && d.sent == 0 && d.onchain == absOnChain{} && d.txInit == nil && d.txSet == nil)
	v.Ensures("the genesis state is recorded", d.n == 1 && specRecord(d.last, d.lastR) && *id == core.SpecGenesisID(d.last))
	v.Ensures("it is the state of the trees", merkletree.SpecStoreRoot(st.trees[0]) == d.lastR.clr && d.lastR.rer == zero && merkletree.SpecStoreRoot(st.trees[2]) == d.lastR.ror)
	v.Ensures("the record follows the protocol", specProtocol(d))
	w1, w2 := m1, m2
	want := uint32(1)
	if n >= 1 {
		w1.RevNonce = 1
		want = 2
	}
	if n >= 2 {
		w2.RevNonce = 2
		want = 3
	}
	v.Ensures("each claim has its own nonce", *x1.md == w1 && *x2.md == w2)
	v.Ensures("as many nonces are consumed", d.nonce == want)
	v.Cover("some issuer is created")
}

// ---- C20: credentials and revocation

//verif:contract prop=C20 target=Issuer.GenCredentialExistence inj
func vc_GenCredentialExistence(s db.Storage, clt, ret, rot *merkletree.MerkleTree, id *core.ID, k *babyjub.PublicKeyComp, confirm uint64, ch *absChain, e *merkletree.Entry) {
	is := specIssuer(s, clt, ret, rot, id, k, confirm)
	st := s.(*absStore)
	d := st.d
	v.Requires(specProtocol(d))
	is.idenPubOnChain, is.idenPubOffChainWriter = ch, ch
	data, now, max := e.Data, merkletree.SpecTreeRoot(clt), merkletree.SpecTreeMax(clt)
	r := d.prevR
	if d.onchain.st == d.last {
		r = d.lastR
	}
	c, err := is.GenCredentialExistence(absEntrier{e})
	v.Ensures("credential or error", (err == nil) == (c != nil))
	if err == nil {
		v.Ensures("the claim, index and value, is in the claims tree of the on-chain state", merkletree.SpecHas(r.clr, data, max))
		v.Ensures("the claim as asked", c.Claim.Data == data)
		v.Ensures("its proof under that state's claims root", merkletree.SpecProves(c.MtpClaim, r.clr, merkletree.SpecHi(data), max))
		v.Ensures("the state data of that state", c.IdenStateData.BlockTs == d.onchain.ts && c.IdenStateData.BlockN == d.onchain.n &&
			*c.IdenStateData.IdenState == d.onchain.st && d.onchain.st != merkletree.Hash{})
		v.Ensures("the other roots of that state", *c.RevocationsTreeRoot == r.rer && *c.RootsTreeRoot == r.ror)
		v.Ensures("the roots hash to the state", specRecord(*c.IdenStateData.IdenState, absRoots{r.clr, *c.RevocationsTreeRoot, *c.RootsTreeRoot}))
		v.Ensures("of this issuer", *c.Id == *id)
		v.Cover("some credential is given")
	}
	if err == ErrClaimNotYetInOnChainState {
		v.Ensures("reported as not yet on chain only when issued", merkletree.SpecHas(now, data, max))
		v.Cover("some claim is not yet on chain")
	}
	if err == ErrIdenStateOnChainZero {
		v.Ensures("reported as having no state only when it has none", d.onchain.st == merkletree.Hash{})
	}
	v.Ensures("a genesis identity gives no credentials", !is.cfg.GenesisOnly || err != nil)
}

type absEntrier struct{ e *merkletree.Entry }

func (a absEntrier) Entry() *merkletree.Entry { return a.e }

//verif:contract prop=C20 target=Issuer.RevokeClaim inj
func vc_RevokeClaim(s db.Storage, clt, ret, rot *merkletree.MerkleTree, id *core.ID, k *babyjub.PublicKeyComp, confirm uint64, e *merkletree.Entry, own merkletree.Data) {
	is := specIssuer(s, clt, ret, rot, id, k, confirm)
	st := s.(*absStore)
	d, data, now, max := st.d, e.Data, merkletree.SpecTreeRoot(clt), merkletree.SpecTreeMax(clt)
	root := merkletree.SpecTreeRoot(ret)
	issued := merkletree.SpecHolds(now, merkletree.SpecHi(data), max)
	// the issuer's own copy
	v.Requires(!issued || merkletree.SpecDataOK(own) && merkletree.SpecHi(own) == merkletree.SpecHi(data) && merkletree.SpecHas(now, own, max))
	v.Modifies(ret)
	err := is.RevokeClaim(absEntrier{e})
	v.Ensures("nothing else changes", st.d == d && st.commits == 0 && e.Data == data)
	if err == nil {
		v.Ensures("only an issued claim is revoked", issued)
		var leaf merkletree.Data
		copy(leaf[0][:4], own[4][:4])
		copy(leaf[4][:4], []byte{255, 255, 255, 255})
		r, ok := merkletree.SpecAdd(root, leaf, merkletree.SpecTreeMax(ret))
		v.Ensures("exactly the nonce of the issuer's own copy is revoked", ok && merkletree.SpecTreeRoot(ret) == r)
		v.Cover("some claim is revoked")
	} else {
		v.Ensures("a claim that is not revoked leaves the tree as it was", merkletree.SpecTreeRoot(ret) == root)
	}
	v.Ensures("a genesis identity revokes nothing", !is.cfg.GenesisOnly || err != nil)
}
