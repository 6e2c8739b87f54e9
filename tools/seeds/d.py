seed('c24-unlocked-already', 'C24', 'keystore',
 [('keystore/keystore.go', '''		return ErrKeyNotFound
	}
	skBuf, err :=''', '''		return ErrKeyNotFound
	}
	if _, ok := ks.cache[*pk]; ok {
		return nil
	}
	skBuf, err :=''')],
 '''package keystore
import ("testing"; "github.com/iden3/go-iden3-crypto/babyjub")
func TestDemo(t *testing.T) {
	st := MemStorage([]byte{})
	ks, err := NewKeyStore(&st, KeyStoreParams{ScryptN: 2, ScryptP: 1})
	if err != nil { t.Fatal(err) }
	var sk babyjub.PrivateKey
	sk[0] = 7
	pk, err := ks.ImportKey(sk, []byte("right"))
	if err != nil { t.Fatal(err) }
	if err := ks.UnlockKey(pk, []byte("right")); err != nil { t.Fatal(err) }
	if err := ks.UnlockKey(pk, []byte("wrong")); err == nil { t.Fatal("a wrong passphrase was accepted") }
}
''', 'a wrong passphrase for a key that is unlocked already', 'a wrong passphrase is accepted')
seed('c26-runes', 'C26', 'crypto',
 [('crypto/signatures.go', 'web3SignaturePrefix, len(b))', 'web3SignaturePrefix, len([]rune(string(b))))')],
 '''package crypto
import ("testing"; "bytes"; "github.com/ethereum/go-ethereum/accounts")
func TestDemo(t *testing.T) {
	m := []byte("identit\\xc3\\xa9")
	h := EthHash(m)
	if !bytes.Equal(h[:], accounts.TextHash(m)) { t.Fatal("wrong hash") }
}
''', 'a message that is not ASCII', 'the signed length counts characters, so signatures of wallets are refused')
seed('c26-date-32', 'C26', 'crypto',
 [('crypto/signatures.go', 'dateBytes := common3.Uint64ToEthBytes(uint64(date))', 'dateBytes := common3.Uint64ToEthBytes(uint64(uint32(date)))')],
 '''package crypto
import ("testing"; "encoding/binary"; "github.com/ethereum/go-ethereum/crypto")
func TestDemo(t *testing.T) {
	k, _ := crypto.GenerateKey()
	msg := []byte("m")
	var d [8]byte
	binary.BigEndian.PutUint64(d[:], 5)
	h := EthHash(append(append([]byte{}, msg...), d[:]...))
	s, err := crypto.Sign(h[:], k)
	if err != nil { t.Fatal(err) }
	var sig SignatureEthMsg
	copy(sig[:], s)
	sig[64] += 27
	if !VerifySigEthMsgDate(crypto.PubkeyToAddress(k.PublicKey), &sig, msg, 5) { t.Fatal("refused") }
	if VerifySigEthMsgDate(crypto.PubkeyToAddress(k.PublicKey), &sig, msg, 5+1<<32) { t.Fatal("accepted for another date") }
}
''', 'a date beyond 2106, or a negative one', 'a signature is accepted for another date')
seed('c27-expired-aux', 'C27', 'utils/noncedb',
 [('utils/noncedb/nonce_db.go', '} else if nObj.Aux != nil {', '} else if nObj.Aux != nil && nObj.Expiration >= time.Now().Unix() {')],
 '''package core
import ("testing")
func TestDemo(t *testing.T) {
	db := NewNonceDb()
	o := db.Add("n", -10, nil)
	if !db.AddAux("n", 1) { t.Fatal("not attached") }
	if db.AddAux("n", 2) || o.Aux != 1 { t.Fatal("attached twice") }
}
''', 'an expired nonce that was not cleaned up yet and has data', 'auxiliary data is attached twice')
seed('c27-two-takers', 'C27', 'utils/noncedb',
 [('utils/noncedb/nonce_db.go', '''	ndb.mutex.Lock()
	nObj, ok := ndb.nonceObjsByNonce[nonce]
	if !ok {
		ndb.mutex.Unlock()
		return nil, false
	}
	delete''', '''	ndb.mutex.RLock()
	nObj, ok := ndb.nonceObjsByNonce[nonce]
	ndb.mutex.RUnlock()
	if !ok {
		return nil, false
	}
	ndb.mutex.Lock()
	delete''')],
 '''package core
import ("testing"; "strconv"; "sync"; "sync/atomic"; "runtime")
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	db := NewNonceDb()
	for i := 0; i < 300000; i++ {
		k := strconv.Itoa(i)
		db.Add(k, 1000, nil)
		var wg sync.WaitGroup
		var got, ready int32
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&ready) < 4 { runtime.Gosched() }
				if _, ok := db.SearchAndDelete(k); ok { atomic.AddInt32(&got, 1) }
			}()
		}
		wg.Wait()
		if got != 1 { t.Fatalf("nonce %s was taken %d times", k, got) }
	}
}
''', 'two callers taking the same nonce at the same time', 'a nonce is taken twice')
