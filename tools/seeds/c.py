ISS = '''
import ("testing"; "errors"; "math/big"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub")
var _ idenpuboffchain.IdenPubOffChainWriter
var _ = big.NewInt
var _ = errors.New
var _ = claims.GetRevocationNonce
var _ = merkletree.HashZero
type chain struct { state *proof.IdenStateData; conf map[ethcommon.Hash]int64 }
func (c *chain) GetState(*core.ID) (*proof.IdenStateData, error) {
	if c.state == nil { return nil, idenpubonchain.ErrIdenNotOnChain }
	return c.state, nil
}
func (c *chain) GetStateByBlock(*core.ID, uint64) (*proof.IdenStateData, error) { return nil, nil }
func (c *chain) GetStateByTime(*core.ID, int64) (*proof.IdenStateData, error) { return nil, nil }
func (c *chain) SetState(*core.ID, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) { return nil, nil }
func (c *chain) InitState(*core.ID, *merkletree.Hash, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) { return nil, nil }
func (c *chain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) { return big.NewInt(c.conf[tx.Hash()]), nil }
func mktx(t *testing.T, n uint64) *types.Transaction {
	k, _ := crypto.GenerateKey()
	tx, err := types.SignTx(types.NewTransaction(n, ethcommon.Address{}, new(big.Int), 1, big.NewInt(1), nil), types.HomesteadSigner{}, k)
	if err != nil { t.Fatal(err) }
	return tx
}
func mk(t *testing.T, st db.Storage) *Issuer {
	var sk babyjub.PrivateKey
	sk[0] = 7
	k := sk.Public().Compress()
	cfg := ConfigDefault
	cfg.GenesisOnly = true
	if _, err := Create(cfg, &k, nil, st, nil); err != nil { t.Fatal(err) }
	is, err := Load(st, nil, nil, nil, nil)
	if err != nil { t.Fatal(err) }
	is.cfg.GenesisOnly = false
	return is
}
'''
seed('c17-nonce-after-tree', 'C17', 'identity/issuer',
 [('identity/issuer/issuer.go', '''	if err := tx.Commit(); err != nil {
		return err
	}
	prevNonce := claim.Metadata().RevNonce
''', '''	prevNonce := claim.Metadata().RevNonce
'''), ('identity/issuer/issuer.go', '''		claim.Metadata().RevNonce = prevNonce
		return err
	}
	return nil
''', '''		claim.Metadata().RevNonce = prevNonce
		return err
	}
	return tx.Commit()
''')],
 'package issuer' + ISS + '''
type fs struct { db.Storage; fail *bool }
type ft struct { db.Tx; fail *bool }
func (s fs) NewTx() (db.Tx, error) { tx, err := s.Storage.NewTx(); return ft{tx, s.fail}, err }
func (x ft) Commit() error { if *x.fail { return errors.New("full") }; return x.Tx.Commit() }
func TestDemo(t *testing.T) {
	fail := false
	is := mk(t, fs{db.NewMemoryStorage(), &fail})
	a := claims.NewClaimBasic([claims.IndexSlotLen]byte{1}, [claims.ValueSlotLen]byte{})
	b := claims.NewClaimBasic([claims.IndexSlotLen]byte{2}, [claims.ValueSlotLen]byte{})
	fail = true
	is.IssueClaim(a)
	fail = false
	if err := is.IssueClaim(b); err != nil { t.Fatal(err) }
	nonce := b.Metadata().RevNonce
	a2 := *a.Entry()
	a2.Data[4][0], a2.Data[4][1], a2.Data[4][2], a2.Data[4][3] = byte(nonce), byte(nonce>>8), byte(nonce>>16), byte(nonce>>24)
	if is.claimsTree.EntryExists(&merkletree.Entry{Data: a2.Data}, nil) == nil { t.Fatal("two issued claims have nonce ", nonce) }
}
''', 'the storage refuses the commit of the nonce, and another claim is issued later', 'a claim enters the tree with a nonce that is handed out again')
seed('c18-wrong-transaction', 'C18', 'identity/issuer',
 [('identity/issuer/issuer.go', '''		if is.idenStateOnChain().Equals(&merkletree.HashZero) {
			ethTx = is.ethTxInitState()
''', '''		if is.ethTxInitState() != nil {
			ethTx = is.ethTxInitState()
''')],
 'package issuer' + ISS + '''
func TestDemo(t *testing.T) {
	is := mk(t, db.NewMemoryStorage())
	a, b := merkletree.Hash{1}, merkletree.Hash{2}
	c := &chain{conf: map[ethcommon.Hash]int64{}}
	is.idenPubOnChain = c
	is.cfg.ConfirmBlocks = 3
	is._ethTxInitState, is._ethTxSetState = mktx(t, 1), mktx(t, 2)
	c.conf[is._ethTxInitState.Hash()] = 100
	c.conf[is._ethTxSetState.Hash()] = 1
	is._idenStateDataOnChain = &proof.IdenStateData{IdenState: &a}
	is._idenStatePending, is._idenStatePendingTransacted = &b, true
	c.state = &proof.IdenStateData{BlockN: 5, IdenState: &b}
	if err := is.SyncIdenStatePublic(); err != nil { t.Fatal(err) }
	if is.IdenStateOnChain().Equals(&b) { t.Fatal("on chain after one of three confirmations") }
}
''', 'a second state is published after the first was confirmed', 'the pending state becomes the on-chain state before its transaction has the required confirmations')
seed('c18-third-state', 'C18', 'identity/issuer',
 [('identity/issuer/issuer.go', '	if idenStateData.IdenState.Equals(idenStatePending) {\n', '	if transacted || idenStateData.IdenState.Equals(idenStatePending) {\n')],
 'package issuer' + ISS + '''
func TestDemo(t *testing.T) {
	is := mk(t, db.NewMemoryStorage())
	a, b, x := merkletree.Hash{1}, merkletree.Hash{2}, merkletree.Hash{3}
	c := &chain{conf: map[ethcommon.Hash]int64{}}
	is.idenPubOnChain = c
	is.cfg.ConfirmBlocks = 3
	is._ethTxSetState = mktx(t, 2)
	c.conf[is._ethTxSetState.Hash()] = 9
	is._idenStateDataOnChain = &proof.IdenStateData{IdenState: &a}
	is._idenStatePending, is._idenStatePendingTransacted = &b, true
	c.state = &proof.IdenStateData{BlockN: 5, IdenState: &x}
	if err := is.SyncIdenStatePublic(); err == nil { t.Fatal("a state nobody published is taken") }
}
''', 'the chain reports a state that is neither the known nor the pending one after the transaction was confirmed', 'an unexpected on-chain state is taken over instead of reported')
seed('c19-load-wrong-key', 'C19', 'identity/issuer',
 [('identity/issuer/issuer.go', 'return db.LoadJSON(is.storage, dbKeyEthTxSetState, &is._ethTxSetState)', 'return db.LoadJSON(is.storage, dbKeyEthTxInitState, &is._ethTxSetState)')],
 'package issuer' + ISS + '''
func TestDemo(t *testing.T) {
	st := db.NewMemoryStorage()
	mk(t, st)
	x := mktx(t, 3)
	tx, _ := st.NewTx()
	if err := db.StoreJSON(tx, dbKeyEthTxSetState, x); err != nil { t.Fatal(err) }
	tx.Commit()
	is, err := Load(st, nil, nil, nil, nil)
	if err != nil { t.Fatal(err) }
	if is._ethTxSetState == nil || is._ethTxSetState.Hash() != x.Hash() { t.Fatal("the transaction is not restored") }
}
''', 'an issuer restarted after it published an update', 'the pending update transaction is not the one restored')
seed('c19-sent-flag', 'C19', 'identity/issuer',
 [('identity/issuer/issuer.go', 'transactedBytes, err := is.storage.Get(dbKeyIdenStatePendingTransacted)\n	if err != nil {\n		return err\n	}\n	is._idenStatePendingTransacted = byte2bool(transactedBytes[0])', 'transactedBytes, err := is.storage.Get(dbKeyIdenStatePendingTransacted)\n	if err != nil {\n		return err\n	}\n	is._idenStatePendingTransacted = byte2bool(transactedBytes[0]) && is._ethTxSetState != nil')],
 'package issuer' + ISS + '''
func TestDemo(t *testing.T) {
	st := db.NewMemoryStorage()
	mk(t, st)
	tx, _ := st.NewTx()
	tx.Put(dbKeyIdenStatePending, make([]byte, 32))
	tx.Put(dbKeyIdenStatePendingTransacted, []byte{1})
	tx.Commit()
	is, err := Load(st, nil, nil, nil, nil)
	if err != nil { t.Fatal(err) }
	if _, sent := is.IdenStatePending(); !sent { t.Fatal("the sent flag is lost") }
}
''', 'an issuer restarted while its state awaits confirmation', 'the sent flag is lost on reload, so the state is published again')
seed('c20-callers-nonce', 'C20', 'identity/issuer',
 [('identity/issuer/issuer.go', '''	data, err := is.claimsTree.GetDataByIndex(hi)
	if err != nil {
		return err
	}
	nonce := claims.GetRevocationNonce(&merkletree.Entry{Data: *data})
''', '''	if _, err := is.claimsTree.GetDataByIndex(hi); err != nil {
		return err
	}
	nonce := claims.GetRevocationNonce(claim.Entry())
''')],
 'package issuer' + ISS + '''
type ent struct { x merkletree.Entry }
func (e *ent) Entry() *merkletree.Entry { return &e.x }
func TestDemo(t *testing.T) {
	is := mk(t, db.NewMemoryStorage())
	var cs []*claims.ClaimBasic
	for i := byte(1); i < 4; i++ {
		c := claims.NewClaimBasic([claims.IndexSlotLen]byte{i}, [claims.ValueSlotLen]byte{})
		if err := is.IssueClaim(c); err != nil { t.Fatal(err) }
		cs = append(cs, c)
	}
	d := cs[1].Entry().Data
	d[4] = cs[0].Entry().Data[4]
	if err := is.RevokeClaim(&ent{merkletree.Entry{Data: d}}); err != nil { t.Fatal(err) }
	hi, _ := claims.NewLeafRevocationsTree(cs[1].Metadata().RevNonce, 0xffffffff).Entry().HIndex()
	if _, err := is.revocationsTree.GetDataByIndex(hi); err != nil { t.Fatal("the claim's nonce is not revoked") }
}
''', "a claim handed in with another nonce than the issuer's copy has", "the nonce of the caller's copy is revoked, not the issuer's")
seed('c20-pending-roots', 'C20', 'identity/issuer',
 [('identity/issuer/issuer.go', '	idenStateTreeRoots, err := is.getIdenStateTreeRoots(tx, idenStateData.IdenState)\n', '	_, idenStateTreeRoots, err := is.getIdenStateByIdx(tx, -1)\n')],
 'package issuer' + ISS + '''
func (c *chain) Publish(*core.ID, *idenpuboffchain.PublicData) error { return nil }
func (c *chain) Url() string { return "" }
func TestDemo(t *testing.T) {
	st := db.NewMemoryStorage()
	is := mk(t, st)
	is.idenPubOffChainWriter = &chain{}
	record := func() (merkletree.Hash, IdenStateTreeRoots) {
		s, r := is.state()
		tx, _ := st.NewTx()
		if err := is.idenStateList.Append(tx, s[:], &r); err != nil { t.Fatal(err) }
		tx.Commit()
		return *s, r
	}
	a := claims.NewClaimBasic([claims.IndexSlotLen]byte{1}, [claims.ValueSlotLen]byte{})
	if err := is.IssueClaim(a); err != nil { t.Fatal(err) }
	s, r := record()
	is._idenStateDataOnChain = &proof.IdenStateData{BlockN: 5, IdenState: &s}
	b := claims.NewClaimBasic([claims.IndexSlotLen]byte{2}, [claims.ValueSlotLen]byte{})
	if err := is.IssueClaim(b); err != nil { t.Fatal(err) }
	record()
	c, err := is.GenCredentialExistence(a)
	if err != nil { t.Fatal(err) }
	hi, hv, _ := c.Claim.HiHv()
	if !merkletree.VerifyProof(r.ClaimsTreeRoot, c.MtpClaim, hi, hv) { t.Fatal("the proof is not under the on-chain state") }
	if _, err := is.GenCredentialExistence(b); err != ErrClaimNotYetInOnChainState { t.Fatal(err) }
}
'''.replace('XX', ''), 'a credential asked for while a newer state is recorded and awaits confirmation', 'the proof and roots are those of the pending state, not of the on-chain one')
seed('c13-root-before-extras', 'C13', 'core/genesis',
 [('core/genesis/genesis.go', '''	for _, claim := range extraGenesisClaims {
		if err := clt.AddClaim(claim); err != nil {
			return nil, err
		}
	}

	clr := clt.RootKey()

	if err := claims.AddLeafRootsTree(rot, clr); err != nil {
		return nil, err
	}
''', '''	if err := claims.AddLeafRootsTree(rot, clt.RootKey()); err != nil {
		return nil, err
	}

	for _, claim := range extraGenesisClaims {
		if err := clt.AddClaim(claim); err != nil {
			return nil, err
		}
	}

	clr := clt.RootKey()
''')],
 '''package genesis
import ("testing"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub")
func TestDemo(t *testing.T) {
	var sk babyjub.PrivateKey
	k := claims.NewClaimKeyBabyJub(sk.Public(), 1)
	x := claims.NewClaimBasic([claims.IndexSlotLen]byte{1}, [claims.ValueSlotLen]byte{})
	clt, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	rot, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	if _, err := CalculateIdGenesisMT(clt, rot, k, []merkletree.Entrier{x}); err != nil { t.Fatal(err) }
	hi, _ := claims.NewLeafRootsTree(*clt.RootKey()).Entry().HIndex()
	if _, err := rot.GetDataByIndex(hi); err != nil { t.Fatal("the genesis claims root is not in the roots tree") }
}
''', 'an identity with extra genesis claims', "the roots tree holds a root that is not the genesis claims tree's")
seed('c22-memory-add-prefix', 'C22', 'db',
 [('db/memory.go', '''	for _, v := range mstx.kv {
		tx.kv.Put(v.K, v.V)
	}
''', '''	for k, v := range mstx.kv {
		if _, ok := tx.kv[k]; !ok {
			tx.kv.Put(v.K, v.V)
		}
	}
''')],
 '''package db
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	s := NewMemoryStorage()
	a, _ := s.NewTx()
	b, _ := s.NewTx()
	a.Put([]byte("k"), []byte("old"))
	b.Put([]byte("k"), []byte("new"))
	a.Add(b)
	a.Commit()
	v, err := s.Get([]byte("k"))
	if err != nil || !bytes.Equal(v, []byte("new")) { t.Fatal(string(v), err) }
}
''', 'a transaction added to one that already wrote the same key', 'the value of the added transaction is lost')
seed('c22-leveldb-cached-empty', 'C22', 'db',
 [('db/leveldb.go', 'if value, ok := l.cache.Get(fullkey); ok {', 'if value, ok := l.cache.Get(fullkey); ok && len(value) > 0 {')],
 '''package db
import ("testing"; "io/ioutil"; "os")
func TestDemo(t *testing.T) {
	dir, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(dir)
	s, err := NewLevelDbStorage(dir, false)
	if err != nil { t.Fatal(err) }
	tx, _ := s.NewTx()
	tx.Put([]byte("k"), []byte("old"))
	tx.Commit()
	tx, _ = s.NewTx()
	tx.Put([]byte("k"), []byte{})
	v, err := tx.Get([]byte("k"))
	if err != nil || len(v) != 0 { t.Fatalf("read %q, %v after writing nothing", v, err) }
}
''', 'an empty value written over another and read in the same transaction', 'a transaction does not see its own write')
seed('c23-index-by-length', 'C23', 'db',
 [('db/storageutils.go', '''	valueJSON, err := json.Marshal(value)
	if err != nil {
		return err
	}
	var idxBytes [4]byte
	binary.LittleEndian.PutUint32(idxBytes[:], idx)
''', '''	valueJSON, err := json.Marshal(value)
	if err != nil {
		return err
	}
	var idxBytes [4]byte
	binary.LittleEndian.PutUint16(idxBytes[:], uint16(idx))
''')],
 '''package db
import ("testing")
func TestDemo(t *testing.T) {
	s := NewMemoryStorage()
	l := NewStorageList([]byte("l:"))
	tx, _ := s.NewTx()
	l.Init(tx)
	l.length.Set(tx, 65535)
	var x int
	for i := 65535; i < 65538; i++ {
		if err := l.Append(tx, []byte{byte(i)}, i); err != nil { t.Fatal(err) }
	}
	if k, err := l.GetByIdx(tx, 65536, &x); err != nil || x != 65536 { t.Fatal(k, x, err) }
}
''', 'a list of more than 65536 elements', 'elements beyond the 65536th are filed under earlier indexes')
