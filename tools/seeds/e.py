WH = 'components/idenpuboffchain/writerhttp/writerhttp.go'
WHT = '''package writerhttp
import ("testing"; "github.com/iden3/go-iden3-core/components/idenpuboffchain"; "github.com/iden3/go-iden3-core/db"; "github.com/iden3/go-iden3-core/merkletree")
func data(n byte) *idenpuboffchain.PublicData {
	a, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	b, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	return &idenpuboffchain.PublicData{IdenState: &merkletree.Hash{n}, ClaimsTreeRoot: &merkletree.Hash{n, 1},
		RevocationsTreeRoot: &merkletree.Hash{}, RevocationsTree: a, RootsTreeRoot: &merkletree.Hash{}, RootsTree: b}
}
'''
seed('c25-mask', 'C25', 'components/idenpuboffchain/writerhttp',
 [(WH, 'next := (cacheIdx[0] + 1) % i.cfg.CacheLen', 'next := (cacheIdx[0] + 1) & (i.cfg.CacheLen - 1)')],
 WHT + '''func TestDemo(t *testing.T) {
	w, err := NewIdenPubOffChainWriteHttp(&Config{CacheLen: 3}, db.NewMemoryStorage())
	if err != nil { t.Fatal(err) }
	for n := byte(1); n < 6; n++ {
		if err := w.Publish(nil, data(n)); err != nil { t.Fatal(err) }
	}
	for n := byte(3); n < 6; n++ {
		r, err := w.GetPublicData(&merkletree.Hash{n})
		if err != nil || r.ClaimsTreeRoot != (merkletree.Hash{n, 1}) { t.Fatal(n, r, err) }
	}
}
''', 'a cache length that is not a power of two, and more publications than that', 'states among the last N are not held')
seed('c25-empty-roots-tree', 'C25', 'components/idenpuboffchain',
 [('components/idenpuboffchain/idenpuboffchain.go', 'if !rootsTree.RootKey().Equals(&publicDataBlobs.RootsTreeRoot) {', 'if !rootsTree.RootKey().Equals(&merkletree.HashZero) && !rootsTree.RootKey().Equals(&publicDataBlobs.RootsTreeRoot) {')],
 '''package idenpuboffchain
import ("testing"; "bytes"; "github.com/iden3/go-iden3-core/db"; "github.com/iden3/go-iden3-core/core"; "github.com/iden3/go-iden3-core/merkletree")
func TestDemo(t *testing.T) {
	a, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	var b bytes.Buffer
	if err := a.DumpTree(&b, a.RootKey()); err != nil { t.Fatal(err) }
	p := &PublicDataBlobs{RevocationsTree: b.Bytes(), RootsTree: b.Bytes(), ClaimsTreeRoot: merkletree.Hash{1}, RootsTreeRoot: merkletree.Hash{2}}
	st, err := core.CalculateIdenState(&p.ClaimsTreeRoot, &p.RevocationsTreeRoot, &p.RootsTreeRoot)
	if err != nil { t.Fatal(err) }
	p.IdenState = *st
	if _, err := NewPublicDataFromBlobs(p); err == nil { t.Fatal("accepted without its roots tree") }
}
''', 'a data set whose roots tree is left out', 'data is accepted whose roots tree does not have the stated root')
seed('c25-slot-after-failure', 'C25', 'components/idenpuboffchain/writerhttp',
 [(WH, '''	if cacheIdx[0] == 0 {
		return i.cfg.CacheLen - 1, nil
	}
	return cacheIdx[0] - 1, nil''', '''	return (cacheIdx[0] - 1) % i.cfg.CacheLen, nil''')],
 WHT + '''func TestDemo(t *testing.T) {
	w, err := NewIdenPubOffChainWriteHttp(&Config{CacheLen: 6}, db.NewMemoryStorage())
	if err != nil { t.Fatal(err) }
	for n := byte(1); n < 7; n++ {
		if err := w.Publish(nil, data(n)); err != nil { t.Fatal(err) }
	}
	r, err := w.GetPublicData(nil)
	if err != nil || r.ClaimsTreeRoot != (merkletree.Hash{6, 1}) { t.Fatal(r, err) }
}
''', 'a cache length that does not divide 256, filled exactly', 'the latest data is not the one published last')
ON = 'components/idenpubonchain/local/local.go'
ONT = '''package local
import ("testing"; "time"; "math/big"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/core"; "github.com/iden3/go-iden3-core/merkletree")
func g1(n int64) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(big.NewInt(n)) }
var g2 = new(bn256.G2).ScalarBaseMult(big.NewInt(1))
// proofs depend on the old state only: ic = 1 + old
func chain(n *int64) *IdenPubOnChain {
	return New(func() time.Time { return time.Unix(*n/10, 0) }, func() uint64 { return uint64(*n) },
		&zktypes.Vk{Alpha: g1(1), Beta: g2, Gamma: g2, Delta: g2, IC: []*bn256.G1{g1(1), g1(0), g1(1), g1(0)}})
}
func prove(old byte) *zktypes.Proof { return &zktypes.Proof{A: g1(1000), B: g2, C: g1(998 - int64(old))} }
var id = core.ID{1}
func must(t *testing.T, err error) { if err != nil { t.Helper(); t.Fatal(err) } }
'''
seed('c28-newest-first', 'C28', 'components/idenpubonchain/local',
 [(ON, '''	for _, idIdenStateData := range ip.pendingSet {
		ip''', '''	for i := len(ip.pendingSet) - 1; i >= 0; i-- {
		idIdenStateData := ip.pendingSet[i]
		ip''')],
 ONT + '''func TestDemo(t *testing.T) {
	n := int64(1)
	c := chain(&n)
	_, err := c.InitState(&id, &merkletree.Hash{3}, &merkletree.Hash{4}, prove(3)); must(t, err)
	c.Sync()
	_, err = c.SetState(&id, &merkletree.Hash{5}, prove(4)); must(t, err)
	n = 2
	_, err = c.SetState(&id, &merkletree.Hash{6}, prove(4)); must(t, err)
	c.Sync()
	d, err := c.GetState(&id); must(t, err)
	if *d.IdenState != (merkletree.Hash{6}) { t.Fatal("not in order") }
}
''', 'two updates accepted between two synchronisations', 'the latest state is the one accepted first')
seed('c28-pending-is-latest', 'C28', 'components/idenpubonchain/local',
 [(ON, '''	oldState := idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1].IdenState
''', '''	oldState := idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1].IdenState
	for _, pending := range ip.pendingSet {
		if pending.Id.Equals(id) {
			oldState = pending.IdenStateData.IdenState
		}
	}
''')],
 ONT + '''func TestDemo(t *testing.T) {
	n := int64(1)
	c := chain(&n)
	_, err := c.InitState(&id, &merkletree.Hash{3}, &merkletree.Hash{4}, prove(3)); must(t, err)
	c.Sync()
	_, err = c.SetState(&id, &merkletree.Hash{5}, prove(4)); must(t, err)
	if _, err = c.SetState(&id, &merkletree.Hash{6}, prove(5)); err == nil { t.Fatal("transition from a state that is not on chain") }
}
''', 'a second update before the first one is synchronised', 'a transition from a state that was not the latest on chain is accepted')
seed('c28-first-in-second', 'C28', 'components/idenpubonchain/local',
 [(ON, '''	h.ByTime[idenStateData.BlockTs] = idenStateData
''', '''	if _, ok := h.ByTime[idenStateData.BlockTs]; !ok {
		h.ByTime[idenStateData.BlockTs] = idenStateData
	}
''')],
 ONT + '''func TestDemo(t *testing.T) {
	n := int64(1)
	c := chain(&n)
	_, err := c.InitState(&id, &merkletree.Hash{3}, &merkletree.Hash{4}, prove(3)); must(t, err)
	c.Sync()
	_, err = c.SetState(&id, &merkletree.Hash{5}, prove(4)); must(t, err)
	c.Sync()
	d, err := c.GetStateByTime(&id, 0); must(t, err)
	if *d.IdenState != (merkletree.Hash{5}) { t.Fatal("not the state recorded last at that time") }
}
''', 'two states recorded in the same second', 'the query by time returns a state that was replaced')
seed('c29-attach-shared', 'C29', 'utils/noncedb',
 [('utils/noncedb/nonce_db.go', '''func (ndb *NonceDb) AddAux(nonce string, aux interface{}) bool {
	ndb.mutex.Lock()
	defer ndb.mutex.Unlock()''', '''func (ndb *NonceDb) AddAux(nonce string, aux interface{}) bool {
	ndb.mutex.RLock()
	defer ndb.mutex.RUnlock()''')],
 '''package core
import ("testing"; "runtime"; "sync"; "sync/atomic")
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for k := 0; k < 200000; k++ {
		db := NewNonceDb()
		db.Add("n", 1000, nil)
		// the lock is held shared: attaching must wait
		db.mutex.RLock()
		var done int32
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { db.AddAux("n", 1); atomic.StoreInt32(&done, 1); wg.Done() }()
		for i := 0; i < 2000; i++ { runtime.Gosched() }
		d := atomic.LoadInt32(&done)
		db.mutex.RUnlock()
		wg.Wait()
		if d == 1 { t.Fatal("attached while others read") }
		if k > 50 { break }
	}
}
''', 'data attached to one nonce by two callers at once', 'both are told that their data was attached; a data race')
seed('c29-read-outside', 'C29', 'identity/issuer',
 [('identity/issuer/noncegen.go', '''	u.mutex.Lock()
	defer u.mutex.Unlock()
	i, err := u.index.Get(tx)
	if err != nil {
		return 0, err
	}
''', '''	i, err := u.index.Get(tx)
	if err != nil {
		return 0, err
	}
	u.mutex.Lock()
	defer u.mutex.Unlock()
''')],
 '''package issuer
import ("testing"; "sync"; "runtime"; "github.com/iden3/go-iden3-core/db")
type slow struct { db.Tx; mu sync.Mutex }
func (s *slow) Get(k []byte) ([]byte, error) { s.mu.Lock(); b, err := s.Tx.Get(k); s.mu.Unlock(); for i := 0; i < 50; i++ { runtime.Gosched() }; return b, err }
func (s *slow) Put(k, v []byte) { s.mu.Lock(); defer s.mu.Unlock(); s.Tx.Put(k, v) }
func TestDemo(t *testing.T) {
	tx, err := db.NewMemoryStorage().NewTx()
	if err != nil { t.Fatal(err) }
	s := &slow{Tx: tx}
	u := NewUniqueNonceGen(db.NewStorageValue([]byte("i")))
	u.Init(s)
	seen := map[uint32]int{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				n, err := u.Next(s)
				if err != nil { panic(err) }
				mu.Lock(); seen[n]++; mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if len(seen) != 1600 { t.Fatal("nonces handed out twice") }
}
''', 'two callers asking for a nonce at once', 'the same nonce is handed out twice')
seed('c29-leaked-on-commit', 'C29', 'components/idenpuboffchain/writerhttp',
 [(WH, '''	i.rw.Lock()
	defer i.rw.Unlock()

	cacheIdx, err := i.nextCacheIdx(tx)
	if err != nil {
		return err
	}
''', '''	i.rw.Lock()

	cacheIdx, err := i.nextCacheIdx(tx)
	if err != nil {
		i.rw.Unlock()
		return err
	}
'''), (WH, '''	if err := tx.Commit(); err != nil {
		return err
	}

	return nil
}

func (i *IdenPubOffChainWriteHttp) prev''', '''	if err := tx.Commit(); err != nil {
		return err
	}
	i.rw.Unlock()

	return nil
}

func (i *IdenPubOffChainWriteHttp) prev''')],
 WHT.replace('"testing";', '"testing"; "errors"; "time";') + '''type bad struct { db.Storage; on bool }
type badTx struct { db.Tx; b *bad }
func (b *bad) NewTx() (db.Tx, error) { t, err := b.Storage.NewTx(); return &badTx{t, b}, err }
func (t *badTx) Commit() error { if t.b.on { return errors.New("full") }; return t.Tx.Commit() }
func TestDemo(t *testing.T) {
	s := &bad{Storage: db.NewMemoryStorage()}
	w, err := NewIdenPubOffChainWriteHttp(&Config{CacheLen: 3}, s)
	if err != nil { t.Fatal(err) }
	s.on = true
	if w.Publish(nil, data(1)) == nil { t.Fatal("published") }
	s.on = false
	done := make(chan error)
	go func() { done <- w.Publish(nil, data(1)) }()
	select {
	case err := <-done: if err != nil { t.Fatal(err) }
	case <-time.After(5 * time.Second): t.Fatal("blocked")
	}
}
''', 'a commit that fails', 'the lock stays taken and every later call blocks')
