package issuer

import (
	"crypto/ecdsa"
	"encoding/json"
	"errors"
	"io/ioutil"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"testing"

	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-circom-prover-verifier/verifier"
	witnesscalc "github.com/iden3/go-circom-witnesscalc"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

var errInjected = errors.New("injected failure")

// vfault decides which storage operations fail
type vfault struct {
	r *rand.Rand
	p int // one in p operations fails, 0: none
}

func (f *vfault) fail() bool { return f.p > 0 && f.r.Intn(f.p) == 0 }

type vstore struct {
	db.Storage
	f *vfault
}

type vtx struct {
	db.Tx
	f *vfault
}

func (s *vstore) WithPrefix(p []byte) db.Storage { return &vstore{s.Storage.WithPrefix(p), s.f} }

func (s *vstore) NewTx() (db.Tx, error) {
	tx, err := s.Storage.NewTx()
	if err != nil {
		return tx, err
	}
	if s.f.fail() {
		return &vtx{tx, s.f}, errInjected
	}
	return &vtx{tx, s.f}, nil
}

func (s *vstore) Get(k []byte) ([]byte, error) {
	if s.f.fail() {
		return nil, errInjected
	}
	return s.Storage.Get(k)
}

func (t *vtx) Get(k []byte) ([]byte, error) {
	if t.f.fail() {
		return nil, errInjected
	}
	return t.Tx.Get(k)
}

func (t *vtx) Commit() error {
	if t.f.fail() {
		return errInjected
	}
	return t.Tx.Commit()
}

// venv is an issuer with a chain, an off-chain writer and a storage of its own
type venv struct {
	h     *vh
	f     *vfault
	plain db.Storage
	st    db.Storage
	ks    *keystore.KeyStore
	id    *core.ID
	is    *Issuer
	gen   merkletree.Hash
	key   *ecdsa.PrivateKey
	// the chain
	state   *proof.IdenStateData // nil: not on chain
	sent    merkletree.Hash      // waiting to be mined
	conf    int64
	noRcpt  bool
	lastTx  *types.Transaction
	initTx  *types.Transaction
	setTx   *types.Transaction
	asked   *types.Transaction
	nonce   uint64
	calls   int
	pubs    int
	refuse  bool
	badGet  bool
	noPub   bool
	frozen  bool // answers as if nothing had happened since the issuer looked
	zkOld   merkletree.Hash
	zkNew   merkletree.Hash
	confirm uint64
	trail   string
}

func (e *venv) stored() (last, prev, pending, onchain merkletree.Hash, roots IdenStateTreeRoots, n uint32, sent bool) {
	tx, err := e.plain.NewTx()
	e.h.check(err == nil, "transaction: %v", err)
	l := db.NewStorageList(dbPrefixIdenStateList)
	n, err = l.Length(tx)
	e.h.check(err == nil, "length of the recorded states: %v", err)
	b, err := l.GetByIdx(tx, n-1, &roots)
	e.h.check(err == nil, "last recorded state: %v", err)
	copy(last[:], b)
	if n > 1 {
		var r IdenStateTreeRoots
		b, err = l.GetByIdx(tx, n-2, &r)
		e.h.check(err == nil, "recorded state before: %v", err)
		copy(prev[:], b)
	}
	b, err = e.plain.Get(dbKeyIdenStatePending)
	e.h.check(err == nil, "pending: %v", err)
	copy(pending[:], b)
	b, err = e.plain.Get(dbKeyIdenStatePendingTransacted)
	e.h.check(err == nil, "sent: %v", err)
	sent = b[0] != 0
	var d proof.IdenStateData
	err = db.LoadJSON(e.plain, dbKeyIdenStateDataOnChain, &d)
	e.h.check(err == nil, "on chain: %v", err)
	onchain = *d.IdenState
	return
}

func (e *venv) GetState(id *core.ID) (*proof.IdenStateData, error) {
	e.h.check(*id == *e.id, "asked about another identity; %s", e.trail)
	if e.frozen {
		_, _, _, on, _, _, _ := e.stored()
		if on == merkletree.HashZero {
			return nil, idenpubonchain.ErrIdenNotOnChain
		}
		return &proof.IdenStateData{IdenState: &on}, nil
	}
	if e.badGet {
		return nil, errInjected
	}
	if e.state == nil {
		return nil, idenpubonchain.ErrIdenNotOnChain
	}
	s := *e.state
	return &s, nil
}

func (e *venv) GetStateByBlock(*core.ID, uint64) (*proof.IdenStateData, error) { return nil, errInjected }
func (e *venv) GetStateByTime(*core.ID, int64) (*proof.IdenStateData, error)   { return nil, errInjected }

func (e *venv) transition(id *core.ID, n *merkletree.Hash) (*types.Transaction, error) {
	h := e.h
	e.calls++
	h.check(e.calls == 1, "more than one transition sent; %s", e.trail)
	h.check(*id == *e.id, "sent for another identity; %s", e.trail)
	last, prev, pending, _, roots, _, sent := e.stored()
	h.check(last == *n && pending == *n && !sent, "sent %v while %v is recorded last, %v pending (sent %v); %s", n, &last, &pending, sent, e.trail)
	st, err := core.CalculateIdenState(roots.ClaimsTreeRoot, roots.RevocationsTreeRoot, roots.RootsTreeRoot)
	h.check(err == nil && *st == last, "recorded roots do not give the recorded state; %s", e.trail)
	h.check(e.zkNew == *n && e.zkOld == prev, "the proof is of %v to %v, the transition of %v to %v; %s", &e.zkOld, &e.zkNew, &prev, n, e.trail)
	if e.refuse {
		return nil, errInjected
	}
	e.nonce++
	tx, err := types.SignTx(types.NewTransaction(e.nonce, ethcommon.Address{}, new(big.Int), 21000, big.NewInt(1), nil), types.HomesteadSigner{}, e.key)
	h.check(err == nil, "sign: %v", err)
	e.sent, e.lastTx = *n, tx
	return tx, nil
}

func (e *venv) SetState(id *core.ID, n *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	_, _, _, on, _, _, _ := e.stored()
	e.h.check(on != merkletree.HashZero, "updated though never on chain; %s", e.trail)
	tx, err := e.transition(id, n)
	if err == nil {
		e.setTx = tx
	}
	return tx, err
}

func (e *venv) InitState(id *core.ID, g, n *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	_, prev, _, on, _, ln, _ := e.stored()
	e.h.check(on == merkletree.HashZero, "initialised though already on chain; %s", e.trail)
	e.h.check(*g == e.gen && *g == prev && ln == 2, "initialised from %v, genesis is %v; %s", g, &e.gen, e.trail)
	tx, err := e.transition(id, n)
	if err == nil {
		e.initTx = tx
	}
	return tx, err
}

func (e *venv) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	if e.frozen || e.noRcpt {
		return nil, eth.ErrReceiptNotReceived
	}
	e.h.check(tx != nil, "asked about no transaction; %s", e.trail)
	e.asked = tx
	return big.NewInt(e.conf), nil
}

func (e *venv) Url() string { return "http://off.chain" }

func (e *venv) Publish(id *core.ID, p *idenpuboffchain.PublicData) error {
	last, _, _, _, roots, _, sent := e.stored()
	e.pubs++
	e.h.check(*id == *e.id, "published for another identity; %s", e.trail)
	e.h.check(sent && e.calls == 1, "published before it was sent and recorded; %s", e.trail)
	e.h.check(*p.IdenState == last && p.ClaimsTreeRoot.Equals(roots.ClaimsTreeRoot) && p.RevocationsTreeRoot.Equals(roots.RevocationsTreeRoot) &&
		p.RootsTreeRoot.Equals(roots.RootsTreeRoot), "published data of %v, recorded is %v; %s", p.IdenState, &last, e.trail)
	if e.noPub {
		return errInjected
	}
	return nil
}

var vconf *IdenStateZkProofConf

func g2str(n int64) [][]string {
	b := new(bn256.G2).ScalarBaseMult(big.NewInt(n)).Marshal()
	f := func(i int) string { return new(big.Int).SetBytes(b[32*i : 32*i+32]).String() }
	return [][]string{{f(1), f(0)}, {f(3), f(2)}, {"1", "0"}}
}

func vzk(t *testing.T) *IdenStateZkProofConf {
	if vconf != nil {
		return vconf
	}
	dir, err := ioutil.TempDir("", "verifzk")
	if err != nil {
		t.Fatal(err)
	}
	b1 := new(bn256.G1).ScalarBaseMult(big.NewInt(2)).Marshal()
	g1 := []string{new(big.Int).SetBytes(b1[:32]).String(), new(big.Int).SetBytes(b1[32:]).String(), "1"}
	pk := map[string]interface{}{"A": [][]string{}, "B1": [][]string{}, "B2": [][][]string{}, "C": [][]string{}, "nVars": 1, "nPublic": 0,
		"vk_alfa_1": g1, "vk_delta_1": g1, "vk_beta_1": g1, "vk_beta_2": g2str(1), "vk_delta_2": g2str(1), "hExps": [][]string{}, "domainSize": 1,
		"polsA": []map[string]string{}, "polsB": []map[string]string{}}
	vk := map[string]interface{}{"vk_alfa_1": g1, "vk_beta_2": g2str(1), "vk_gamma_2": g2str(1), "vk_delta_2": g2str(1), "IC": [][]string{g1}}
	files := map[string][]byte{"circuit.wasm": []byte("wasm")}
	files["proving_key.json"], _ = json.Marshal(pk)
	files["verification_key.json"], _ = json.Marshal(vk)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write(files[path.Base(r.URL.Path)])
	}))
	z := zkutils.NewZkFiles(srv.URL, dir, zkutils.ProvingKeyFormatJSON, zkutils.ZkFilesHashes{}, true)
	if err := z.InsecureDownloadAll(); err != nil {
		t.Fatal(err)
	}
	hs, err := z.InsecureCalcHashes()
	if err != nil {
		t.Fatal(err)
	}
	z = zkutils.NewZkFiles(srv.URL, dir, zkutils.ProvingKeyFormatJSON, *hs, true)
	if err := z.LoadAll(); err != nil {
		t.Fatal(err)
	}
	os.RemoveAll(dir)
	srv.Close()
	verifier.Hook = func(*zktypes.Vk, *zktypes.Proof, []*big.Int) bool { return true }
	vconf = &IdenStateZkProofConf{Levels: 16, Files: *z}
	return vconf
}

func venvNew(h *vh, cfg Config, extra []claims.Claimer) *venv {
	e := &venv{h: h, f: &vfault{r: h.r}, plain: db.NewMemoryStorage(), confirm: cfg.ConfirmBlocks}
	e.st = &vstore{e.plain, e.f}
	var err error
	e.ks, err = keystore.NewKeyStore(&keystore.MemStorage{}, keystore.LightKeyStoreParams)
	h.check(err == nil, "key store: %v", err)
	var sk babyjub.PrivateKey
	h.r.Read(sk[:])
	kop, err := e.ks.ImportKey(sk, []byte("pass"))
	h.check(err == nil, "import: %v", err)
	err = e.ks.UnlockKey(kop, []byte("pass"))
	h.check(err == nil, "unlock: %v", err)
	e.key, err = ethcrypto.GenerateKey()
	h.check(err == nil, "key: %v", err)
	witnesscalc.Hook = func(_ []byte, in map[string]interface{}) ([]*big.Int, error) {
		o, _ := in["oldIdState"].(*big.Int)
		n, _ := in["newIdState"].(*big.Int)
		if o != nil && n != nil {
			e.zkOld, e.zkNew = *merkletree.NewHashFromBigInt(o), *merkletree.NewHashFromBigInt(n)
		}
		return []*big.Int{big.NewInt(1)}, nil
	}
	e.id, err = Create(cfg, kop, extra, e.st, e.ks)
	h.check(err == nil, "create: %v", err)
	e.gen, _, _, _, _, _, _ = e.stored()
	e.is, err = Load(e.st, e.ks, e, vzk(h.t), e)
	h.check(err == nil, "load: %v", err)
	return e
}

func txEq(a, b *types.Transaction) bool {
	return a == nil && b == nil || a != nil && b != nil && a.Hash() == b.Hash()
}

// synced compares what the issuer holds with what a fresh load restores
func (e *venv) synced(is *Issuer) {
	h, p := e.h, e.f.p
	e.f.p, e.frozen = 0, true
	defer func() { e.f.p, e.frozen = p, false }()
	l, err := Load(e.st, e.ks, e, vzk(h.t), e)
	h.check(err == nil, "load: %v; %s", err, e.trail)
	a, as := is.IdenStatePending()
	b, bs := l.IdenStatePending()
	h.check(*a == *b && as == bs, "pending %v (sent %v) in memory, %v (sent %v) reloaded; %s", a, as, b, bs, e.trail)
	o, q := is.StateDataOnChain(), l.StateDataOnChain()
	h.check(*o.IdenState == *q.IdenState && o.BlockN == q.BlockN && o.BlockTs == q.BlockTs, "on chain %v in memory, %v reloaded; %s", o, q, e.trail)
	h.check(*is.ID() == *l.ID() && *is.ID() == *e.id, "identifier %v in memory, %v reloaded, %v created; %s", is.ID(), l.ID(), e.id, e.trail)
	h.check(*is.KeyOperational() == *l.KeyOperational(), "operational key differs after reloading; %s", e.trail)
	h.check(txEq(is.ethTxInitState(), l.ethTxInitState()) && txEq(is.ethTxSetState(), l.ethTxSetState()), "recorded transactions differ after reloading; %s", e.trail)
	h.check(is.cfg == l.cfg, "configuration %v in memory, %v reloaded; %s", is.cfg, l.cfg, e.trail)
	s1, _ := is.State()
	s2, _ := l.State()
	h.check(*s1 == *s2, "state %v in memory, %v reloaded; %s", s1, s2, e.trail)
}

// protocol checks that what is recorded is a state of the publication protocol
func (e *venv) protocol() {
	last, prev, pending, on, roots, n, sent := e.stored()
	h := e.h
	st, err := core.CalculateIdenState(roots.ClaimsTreeRoot, roots.RevocationsTreeRoot, roots.RootsTreeRoot)
	h.check(err == nil && *st == last, "recorded roots do not give the recorded state; %s", e.trail)
	var zero merkletree.Hash
	if pending == zero {
		h.check(!sent && (on == last || on == zero && n == 1), "nothing pending: last %v on chain %v states %d sent %v; %s", &last, &on, n, sent, e.trail)
	} else {
		h.check(pending == last && (on == prev || on == zero && n == 2), "pending %v: last %v before %v on chain %v states %d; %s", &pending, &last, &prev, &on, n, e.trail)
	}
}

func (e *venv) claim() *claims.ClaimBasic {
	var is [claims.IndexSlotLen]byte
	var vs [claims.ValueSlotLen]byte
	e.h.r.Read(is[:])
	e.h.r.Read(vs[:])
	return claims.NewClaimBasic(is, vs)
}

// publish runs one publication
func (e *venv) publish() error {
	e.calls, e.pubs = 0, 0
	e.zkOld, e.zkNew = merkletree.Hash{}, merkletree.Hash{}
	return e.is.PublishState()
}

// mine makes the chain take the transition that was sent
func (e *venv) mine() {
	s := e.sent
	if s == merkletree.HashZero {
		return
	}
	n := uint64(1 + e.h.r.Intn(1000))
	e.state = &proof.IdenStateData{BlockTs: int64(n) * 13, BlockN: n, IdenState: &s}
	e.sent = merkletree.HashZero
}
