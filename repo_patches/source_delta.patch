From 39709e10360fd2670ac41929f9b00cdb9604f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 01/28] fix: compare all the elements of a merkle tree entry in
 Data.Equal

Only the four index elements were compared, so an entry with the same index
and another value was considered equal (EntryExists never reported
ErrEntryDataNotMatch).
---
 merkletree/merkletree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index b3d2dcf..41d8f17 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -78,8 +78,7 @@ func (d *Data) Bytes() (b [ElemBytesLen * DataLen]byte) {
 }
 
 func (d1 *Data) Equal(d2 *Data) bool {
-	return bytes.Equal(d1[0][:], d2[0][:]) && bytes.Equal(d1[1][:], d2[1][:]) &&
-		bytes.Equal(d1[2][:], d2[2][:]) && bytes.Equal(d1[3][:], d2[3][:])
+	return *d1 == *d2
 }
 
 func (d Data) MarshalText() ([]byte, error) {
-- 
2.43.0


From 8679496cc7637d394028057f316b38a61c195a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 02/28] fix: decode the claim subject position flag

The flag was read as 4 instead of ClaimSubjectPosValue (1), so Unmarshal of any
entry with that flag and a subject panicked.
---
 core/claims/claim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index e8628fa..ac48ccd 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -188,7 +188,7 @@ func (c *ClaimHeader) Unmarshal(e *merkletree.Entry) {
 	copy(c.Type[:], index[0][:ClaimTypeLen])
 	flags0 := index[0][ClaimTypeLen]
 	c.Subject = ClaimSubject(flags0 & 0b00000011)
-	c.SubjectPos = ClaimSubjectPos(flags0 & (1 << 2))
+	c.SubjectPos = ClaimSubjectPos((flags0 >> 2) & 1)
 	c.Expiration = byte2bool(flags0 & (1 << 3))
 	c.Version = byte2bool(flags0 & (1 << 4))
 }
-- 
2.43.0


From 97cc4c3d46475972fe60f38d7fb94328be2d3a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 03/28] fix: refuse serialized proofs deeper than their
 siblings bitmap

NewProofFromBytes panicked with an index out of range for depth > 240.
---
 merkletree/merkletree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 41d8f17..f20e5bf 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -786,6 +786,9 @@ func NewProofFromBytes(bs []byte) (*Proof, error) {
 		p.Existence = true
 	}
 	p.depth = uint(bs[1])
+	if p.depth > uint(len(p.notempties)*8) {
+		return nil, ErrInvalidProofBytes
+	}
 	copy(p.notempties[:], bs[proofFlagsLen:ElemBytesLen])
 	siblingBytes := bs[ElemBytesLen:]
 	sibIdx := 0
-- 
2.43.0


From 7b612d7e3df7e8b0942dac00fed703f166e362e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 04/28] fix: dump and import the tree root as it is stored

DumpTree wrote the root record without its type byte and ImportTree stored it
unchanged, so reopening the storage of an imported tree gave a shifted root. A
dump without root record silently took the destination's previous record, type
byte included, as its root.
---
 merkletree/merkletree.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index f20e5bf..2fec540 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -609,7 +609,7 @@ func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
 	if rootKey == nil {
 		rootKey = mt.RootKey()
 	}
-	err = serializeKV(w, rootNodeValue, rootKey.Bytes())
+	err = serializeKV(w, rootNodeValue, append([]byte{byte(DBEntryTypeRoot)}, rootKey[:]...))
 
 	return err
 }
@@ -676,6 +676,7 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 	mt.Lock()
 	defer mt.Unlock()
 
+	var rootKey *Hash
 	r := bufio.NewReader(i)
 	for {
 		k, v, err := deserializeKV(r)
@@ -684,19 +685,28 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 		} else if err != nil {
 			return err
 		}
+		if bytes.Equal(k, rootNodeValue) {
+			if len(v) == 1+ElemBytesLen && NodeType(v[0]) == DBEntryTypeRoot {
+				v = v[1:]
+			}
+			if len(v) != ElemBytesLen {
+				return ErrInvalidDBValue
+			}
+			rootKey = &Hash{}
+			copy(rootKey[:], v)
+			continue
+		}
 		tx.Put(k, v)
 	}
-
-	v, err := tx.Get(rootNodeValue)
-	if err != nil {
-		return err
+	if rootKey == nil {
+		return ErrInvalidDBValue
 	}
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, rootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
-	mt.rootKey = &Hash{}
-	copy(mt.rootKey[:], v)
+	mt.rootKey = rootKey
 
 	return nil
 }
-- 
2.43.0


From 082fa8a72a1d8c8e8377c5271ac627d3bc78c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 05/28] fix: update the merkle tree root only after the
 transaction is committed

After a failed commit the tree kept in memory a root whose nodes were never
stored, so every later operation failed.
---
 merkletree/merkletree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 2fec540..0406d10 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -475,12 +475,12 @@ func (mt *MerkleTree) AddEntry(e *Entry) error {
 	if err != nil {
 		return err
 	}
-	mt.rootKey = newRootKey
-	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, mt.rootKey[:])
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, newRootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	mt.rootKey = newRootKey
 	return nil
 }
 
-- 
2.43.0


From d3e15d6e293417497667863343581642d8ff0536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 06/28] fix: do not reset an existing merkle tree when its root
 cannot be read

Any error reading the stored root, not only its absence, made NewMerkleTree
overwrite it with the empty root.
---
 merkletree/merkletree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 0406d10..166cb9f 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -228,7 +228,9 @@ type MerkleTree struct {
 func NewMerkleTree(storage db.Storage, maxLevels int) (*MerkleTree, error) {
 	mt := MerkleTree{storage: storage, maxLevels: maxLevels, writable: true}
 	_, gettedRoot, err := mt.dbGet(rootNodeValue)
-	if err != nil {
+	if err != nil && err != db.ErrNotFound {
+		return nil, err
+	} else if err != nil {
 		tx, err := mt.storage.NewTx()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From b5e41f13186c54049067e1a1d1ce037ed108fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 07/28] fix: drop the cached hashes of an entry when it is
 unmarshaled again

---
 merkletree/merkletree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 166cb9f..d4ed56f 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -203,7 +203,11 @@ func (e Entry) MarshalText() ([]byte, error) {
 }
 
 func (e *Entry) UnmarshalText(text []byte) error {
-	return e.Data.UnmarshalText(text)
+	if err := e.Data.UnmarshalText(text); err != nil {
+		return err
+	}
+	e.hIndex, e.hValue = nil, nil
+	return nil
 }
 
 func (e *Entry) Clone() *Entry {
-- 
2.43.0


From 9165eb3e83628a6ce0bf70ed66347e4330a10574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 08/28] fix: refuse an empty node followed by other bytes

---
 merkletree/node.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/merkletree/node.go b/merkletree/node.go
index 4883427..9e801bf 100644
--- a/merkletree/node.go
+++ b/merkletree/node.go
@@ -74,7 +74,9 @@ func NewNodeFromBytes(b []byte) (*Node, error) {
 			copy(n.Entry.Data[i][:], b[i*ElemBytesLen:(i+1)*ElemBytesLen])
 		}
 	case NodeTypeEmpty:
-		break
+		if len(b) != 0 {
+			return nil, ErrNodeDataBadSize
+		}
 	default:
 		return nil, ErrInvalidNodeFound
 	}
-- 
2.43.0


From 816552d259775f0a5c836af6d4ea0ea30949f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 09/28] fix: do not panic decoding short base64 texts

Base64Decode indexed three bytes from the end of any text, and dropped whatever
followed the padding.
---
 common/common.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/common/common.go b/common/common.go
index 5c531c4..c154188 100644
--- a/common/common.go
+++ b/common/common.go
@@ -19,13 +19,8 @@ func Base64ToBytes(base64String string) ([]byte, error) {
 // Base64Decode decodes a string in base64 with optional padding into an array
 // of bytes.
 func Base64Decode(b64 string) ([]byte, error) {
-	l := len(b64)
-	if b64[l-3] == '=' {
-		b64 = b64[:l-3]
-	} else if b64[l-2] == '=' {
-		b64 = b64[:l-2]
-	} else if b64[l-1] == '=' {
-		b64 = b64[:l-1]
+	if strings.Contains(b64, "=") {
+		return base64.StdEncoding.DecodeString(b64)
 	}
 	return base64.RawStdEncoding.DecodeString(b64)
 }
-- 
2.43.0


From 8005746300dcf0553155a7330308585993d63f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 10/28] fix: never share memory between the keys of a
 StorageList

The three keys were appended to the same prefix: when its slice had spare
capacity they overwrote each other and the list was corrupted.
---
 db/storageutils.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/db/storageutils.go b/db/storageutils.go
index a1d131b..9da143a 100644
--- a/db/storageutils.go
+++ b/db/storageutils.go
@@ -44,9 +44,9 @@ type StorageList struct {
 // the dbPrefix in a Storage.
 func NewStorageList(dbPrefix []byte) *StorageList {
 	return &StorageList{
-		length:            NewStorageValue(append(dbPrefix, []byte("len")...)),
-		dbPrefixList:      append(dbPrefix, []byte("list:")...),
-		dbPrefixListByIdx: append(dbPrefix, []byte("byidx:")...),
+		length:            NewStorageValue(concat(dbPrefix, []byte("len"))),
+		dbPrefixList:      concat(dbPrefix, []byte("list:")),
+		dbPrefixListByIdx: concat(dbPrefix, []byte("byidx:")),
 	}
 }
 
@@ -67,8 +67,8 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 	}
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	tx.Put(append(sl.dbPrefixList, key...), valueJSON)
-	tx.Put(append(sl.dbPrefixListByIdx, idxBytes[:]...), key)
+	tx.Put(concat(sl.dbPrefixList, key), valueJSON)
+	tx.Put(concat(sl.dbPrefixListByIdx, idxBytes[:]), key)
 	sl.length.Set(tx, idx+1)
 	return nil
 }
@@ -77,7 +77,7 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, error) {
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	key, err := tx.Get(append(sl.dbPrefixListByIdx, idxBytes[:]...))
+	key, err := tx.Get(concat(sl.dbPrefixListByIdx, idxBytes[:]))
 	if err != nil {
 		return nil, err
 	}
@@ -87,7 +87,7 @@ func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, e
 
 // GetByIdx returns the value given the key of the StorageList in an open db transaction.
 func (sl *StorageList) Get(tx Tx, key []byte, value interface{}) error {
-	valueJSON, err := tx.Get(append(sl.dbPrefixList, key...))
+	valueJSON, err := tx.Get(concat(sl.dbPrefixList, key))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2eb726da457e1353a8d84ca8844e40a467b30afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 11/28] fix: do not write the signed date and message in the
 caller's prefix

With spare capacity in the prefix, Sign and VerifySignature appended over the
caller's memory (which could be rawMsg itself).
---
 keystore/keystore.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 04ead5f..63761b1 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -353,12 +353,19 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 	return &sigComp, nil
 }
 
+// prefixDateMsg returns a new [prefix | date | msg] byte slice.
+func prefixDateMsg(prefix PrefixType, date int64, rawMsg []byte) []byte {
+	var msg []byte
+	msg = append(msg, prefix...)
+	msg = append(msg, common.Uint64ToEthBytes(uint64(date))...)
+	return append(msg, rawMsg...)
+}
+
 // Sign uses the key corresponding to the public key pk to sign the mimc7 hash
 // of the [prefix | date | msg] byte slice.
 func (ks *KeyStore) Sign(pk *babyjub.PublicKeyComp, prefix PrefixType, rawMsg []byte) (*babyjub.SignatureComp, int64, error) {
 	date := time.Now()
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date.Unix()))...)
-	msg = append(msg, rawMsg...)
+	msg := prefixDateMsg(prefix, date.Unix(), rawMsg)
 	sig, err := ks.SignRaw(pk, msg)
 	return sig, date.Unix(), err
 }
@@ -389,8 +396,7 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 // VerifySignature verifies that the signature sigComp of the poseidon hash of
 // the [prefix | date | msg] byte slice was signed with the public key pkComp.
 func VerifySignature(pkComp *babyjub.PublicKeyComp, sigComp *babyjub.SignatureComp, prefix PrefixType, date int64, rawMsg []byte) (bool, error) {
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date))...)
-	msg = append(msg, rawMsg...)
+	msg := prefixDateMsg(prefix, date, rawMsg)
 	return VerifySignatureRaw(pkComp, sigComp, msg)
 }
 
-- 
2.43.0


From 527929788632f5e6e844048e54b5c0b06132c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 12/28] fix: unlock a key only if the decrypted secret belongs
 to it

A key store whose encrypted keys had been exchanged, or truncated secrets,
unlocked and signed with a secret of another public key.
---
 keystore/keystore.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 63761b1..49dfae6 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -334,7 +334,13 @@ func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 		return err
 	}
 	var sk babyjub.PrivateKey
+	if len(skBuf) != len(sk) {
+		return ErrInvalidEncData
+	}
 	copy(sk[:], skBuf)
+	if sk.Public().Compress() != *pk {
+		return ErrInvalidEncData
+	}
 	ks.cache[*pk] = &sk
 	return nil
 }
-- 
2.43.0


From 88a426eefd3ec7995c14950447b7ec6f50d6c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 13/28] fix: do not write in the memory of signed messages

SignBinary and SignEthMsgDate appended to the slice of the caller.
---
 components/idensigner/idensigner.go | 3 ++-
 identity/issuer/issuer.go           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/components/idensigner/idensigner.go b/components/idensigner/idensigner.go
index 09bac2b..954d45f 100644
--- a/components/idensigner/idensigner.go
+++ b/components/idensigner/idensigner.go
@@ -38,6 +38,7 @@ func (s *IdenSigner) SignEthMsg(msg []byte) (*babyjub.SignatureComp, error) {
 func (s *IdenSigner) SignEthMsgDate(msg []byte) (*babyjub.SignatureComp, int64, error) {
 	dateInt64 := time.Now().Unix()
 	dateBytes := common.Uint64ToEthBytes(uint64(dateInt64))
-	sig, err := s.SignEthMsg(append(msg, dateBytes...))
+	msgDate := append(append([]byte{}, msg...), dateBytes...)
+	sig, err := s.SignEthMsg(msgDate)
 	return sig, dateInt64, err
 }
diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index dd80a2d..a164abc 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -805,7 +805,8 @@ func (is *Issuer) Sign(string) (string, error) {
 
 // SignBinary signs a binary message by the kOp of the issuer.
 func (is *Issuer) SignBinary(prefix, msg []byte) (*babyjub.SignatureComp, error) {
-	return is.keyStore.SignRaw(is.kOpComp, append(prefix, msg...))
+	prefixMsg := append(append([]byte{}, prefix...), msg...)
+	return is.keyStore.SignRaw(is.kOpComp, prefixMsg)
 }
 
 // SignState signs the Identity State transition (oldState+newState) by the kOp of the issuer.
-- 
2.43.0


From f853dbcedfd8504588714400761072a6507e7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 14/28] fix: do not write in the memory of the message in
 VerifySigEthMsgDate

---
 crypto/signatures.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypto/signatures.go b/crypto/signatures.go
index 6de1c6d..ec39ca9 100644
--- a/crypto/signatures.go
+++ b/crypto/signatures.go
@@ -78,7 +78,8 @@ func VerifySigEthMsg(addr common.Address, sig *SignatureEthMsg, msg []byte) bool
 // appended given an ethereum address.
 func VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte, date int64) bool {
 	dateBytes := common3.Uint64ToEthBytes(uint64(date))
-	return VerifySigEthMsg(addr, sig, append(msg[:], dateBytes...))
+	msgDate := append(append([]byte{}, msg...), dateBytes...)
+	return VerifySigEthMsg(addr, sig, msgDate)
 }
 
 // VerifySig verifies a given signature and the msgHash with the expected address
-- 
2.43.0


From 7ccdab315c4d98e3b39b85423a34dd57a58d678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 15/28] fix: keep a nonce that was added again when its old
 copy expires

SearchAndDelete leaves the taken nonce in the heap; when it expired DeleteOld
removed the nonce by name, even if it had been added again with a later
expiration.
---
 utils/noncedb/nonce_db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 06e29e2..4d57030 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -186,7 +186,10 @@ func (ndb *NonceDb) DeleteOld() {
 		}
 		if nObj.Expiration < now {
 			ndb.noncesHeap.Pop()
-			delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			// the nonce may have been taken out and added again
+			if ndb.nonceObjsByNonce[nObj.Nonce] == nObj {
+				delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From 454fad250735314be69c1276081ecebb07779302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 16/28] fix: find the last published data for any cache length

The previous index of 0 was calculated as 255 % CacheLen, which is the last one
only for lengths dividing 256.
---
 components/idenpuboffchain/writerhttp/writerhttp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 2807ca9..66fbe29 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -134,7 +134,10 @@ func (i *IdenPubOffChainWriteHttp) prevCacheIdx(tx db.Tx) (byte, error) {
 	if err != nil {
 		return 0, err
 	}
-	return (cacheIdx[0] - 1) % i.cfg.CacheLen, nil
+	if cacheIdx[0] == 0 {
+		return i.cfg.CacheLen - 1, nil
+	}
+	return cacheIdx[0] - 1, nil
 }
 
 // nextCacheIdx returns the current cacheIdx and stores the next one.
-- 
2.43.0


From b6b1b15007f913e0b69f352661c3d199630338f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 17/28] fix: keep the revocation nonce of a claim that could
 not be issued

---
 identity/issuer/issuer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index a164abc..63f7353 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -597,9 +597,11 @@ func (is *Issuer) IssueClaim(claim claims.Claimer) error {
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	prevNonce := claim.Metadata().RevNonce
 	claim.Metadata().RevNonce = nonce
 	err = is.claimsTree.AddClaim(claim)
 	if err != nil {
+		claim.Metadata().RevNonce = prevNonce
 		return err
 	}
 	return nil
-- 
2.43.0


From 9c7d096e27cb4479641e84821a0f34f495ae6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 18/28] fix: allow publishing again after a failure to record
 the state

The claims tree root was already in the roots tree, and PublishState failed
forever with ErrEntryIndexAlreadyExists.
---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 63f7353..aa8415b 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -684,7 +684,10 @@ func (is *Issuer) PublishState() error {
 		// If the ClaimsTreeRoot has changed (claims have been added), add the
 		// ClaimsTreeRoot to the RootsTree.
 		if !idenStateTreeRoots.ClaimsTreeRoot.Equals(idenStateTreeRootsLast.ClaimsTreeRoot) {
-			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+			// A previous call that failed before recording the state
+			// may have added the root already.
+			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil &&
+				err != merkletree.ErrEntryIndexAlreadyExists {
 				return err
 			}
 			idenState, idenStateTreeRoots = is.state()
-- 
2.43.0


From e5294813466017281beee08121bdd1138addb811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 19/28] fix: retry publishing the recorded pending state

After a failed transaction PublishState sent the current state of the trees,
which may differ from the pending one and is not in the recorded list of states.
---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index aa8415b..e75741c 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -708,7 +708,10 @@ func (is *Issuer) PublishState() error {
 			return err
 		}
 	} else {
-		idenStateLast, idenStateTreeRootsLast, err = is.getIdenStateByIdx(tx0, -2)
+		// Publish the state that was recorded as pending: claims may
+		// have been issued or revoked since then.
+		idenState, idenStateTreeRoots = idenStateLast, *idenStateTreeRootsLast
+		idenStateLast, _, err = is.getIdenStateByIdx(tx0, -2)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 158b31c1d8a609e78569c71f229fa98fe8a20231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 20/28] fix: change the issuer state in memory only once it is
 stored

When the transaction failed the pending, on chain and transaction values in
memory differed from what reloading the issuer restores.
---
 identity/issuer/issuer.go | 45 ++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index e75741c..9d96377 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -130,11 +130,13 @@ type Issuer struct {
 //
 // Persistence setters and getters
 //
+// The store functions only write in the transaction: the values in memory must
+// be updated once it has been commited.
+//
 
 func (is *Issuer) idenStateDataOnChain() *proof.IdenStateData { return is._idenStateDataOnChain }
 
-func (is *Issuer) setIdenStateDataOnChain(tx db.Tx, v *proof.IdenStateData) error {
-	is._idenStateDataOnChain = v
+func (is *Issuer) storeIdenStateDataOnChain(tx db.Tx, v *proof.IdenStateData) error {
 	return db.StoreJSON(tx, dbKeyIdenStateDataOnChain, v)
 }
 
@@ -175,9 +177,12 @@ func bool2byte(v bool) byte {
 	}
 }
 
-func (is *Issuer) setIdenStatePending(tx db.Tx, v *merkletree.Hash, transacted bool) {
+func (is *Issuer) setIdenStatePending(v *merkletree.Hash, transacted bool) {
 	is._idenStatePending = v
 	is._idenStatePendingTransacted = transacted
+}
+
+func (is *Issuer) storeIdenStatePending(tx db.Tx, v *merkletree.Hash, transacted bool) {
 	tx.Put(dbKeyIdenStatePending, v[:])
 	tx.Put(dbKeyIdenStatePendingTransacted, []byte{bool2byte(transacted)})
 }
@@ -201,8 +206,7 @@ func (is *Issuer) loadIdenStatePending() error {
 
 func (is *Issuer) ethTxSetState() *types.Transaction { return is._ethTxSetState }
 
-func (is *Issuer) setEthTxSetState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxSetState = v
+func (is *Issuer) storeEthTxSetState(tx db.Tx, v *types.Transaction) error {
 	return db.StoreJSON(tx, dbKeyEthTxSetState, v)
 }
 
@@ -213,8 +217,7 @@ func (is *Issuer) loadEthTxSetState() error {
 
 func (is *Issuer) ethTxInitState() *types.Transaction { return is._ethTxInitState }
 
-func (is *Issuer) setEthTxInitState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxInitState = v
+func (is *Issuer) storeEthTxInitState(tx db.Tx, v *types.Transaction) error {
 	return db.StoreJSON(tx, dbKeyEthTxInitState, v)
 }
 
@@ -342,14 +345,14 @@ func Create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []cla
 	}
 
 	// Initialize IdenStateDataOnChain and IdenStatePending to zero (writes to storage).
-	if err := is.setIdenStateDataOnChain(tx, &proof.IdenStateData{IdenState: &merkletree.HashZero}); err != nil {
+	if err := is.storeIdenStateDataOnChain(tx, &proof.IdenStateData{IdenState: &merkletree.HashZero}); err != nil {
 		return nil, err
 	}
-	is.setIdenStatePending(tx, &merkletree.HashZero, false)
-	if err := is.setEthTxInitState(tx, nil); err != nil {
+	is.storeIdenStatePending(tx, &merkletree.HashZero, false)
+	if err := is.storeEthTxInitState(tx, nil); err != nil {
 		return nil, err
 	}
-	if err := is.setEthTxSetState(tx, nil); err != nil {
+	if err := is.storeEthTxSetState(tx, nil); err != nil {
 		return nil, err
 	}
 
@@ -560,13 +563,15 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		if err != nil {
 			return err
 		}
-		is.setIdenStatePending(tx, &merkletree.HashZero, false)
-		if err := is.setIdenStateDataOnChain(tx, idenStateData); err != nil {
+		is.storeIdenStatePending(tx, &merkletree.HashZero, false)
+		if err := is.storeIdenStateDataOnChain(tx, idenStateData); err != nil {
 			return err
 		}
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is.setIdenStatePending(&merkletree.HashZero, false)
+		is._idenStateDataOnChain = idenStateData
 		return nil
 	}
 
@@ -702,11 +707,12 @@ func (is *Issuer) PublishState() error {
 			return err
 		}
 
-		is.setIdenStatePending(tx, idenState, false)
+		is.storeIdenStatePending(tx, idenState, false)
 
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is.setIdenStatePending(idenState, false)
 	} else {
 		// Publish the state that was recorded as pending: claims may
 		// have been issued or revoked since then.
@@ -729,6 +735,7 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 
+	ethTxInitState, ethTxSetState := is.ethTxInitState(), is.ethTxSetState()
 	if is.idenStateOnChain().Equals(&merkletree.HashZero) {
 		// Identity State not present in the Smart Contract. First time
 		// publishing it.
@@ -737,9 +744,10 @@ func (is *Issuer) PublishState() error {
 			return fmt.Errorf("error calling idenstates smart contract initState: %w", err)
 		}
 
-		if err := is.setEthTxInitState(tx, ethTx); err != nil {
+		if err := is.storeEthTxInitState(tx, ethTx); err != nil {
 			return err
 		}
+		ethTxInitState = ethTx
 	} else {
 		// Identity State already present in the Smart Contract.
 		// Update it.
@@ -748,15 +756,18 @@ func (is *Issuer) PublishState() error {
 			return fmt.Errorf("error calling idenstates smart contract setState: %w", err)
 		}
 
-		if err := is.setEthTxSetState(tx, ethTx); err != nil {
+		if err := is.storeEthTxSetState(tx, ethTx); err != nil {
 			return err
 		}
+		ethTxSetState = ethTx
 	}
-	is.setIdenStatePending(tx, idenState, true)
+	is.storeIdenStatePending(tx, idenState, true)
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	is._ethTxInitState, is._ethTxSetState = ethTxInitState, ethTxSetState
+	is.setIdenStatePending(idenState, true)
 
 	publicData := idenpuboffchain.PublicData{
 		IdenState:           idenState,
-- 
2.43.0


From e23c1528e0c0e0c4edafa232deffbc0d945495de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 21/28] fix: do not panic on roots of others that are not
 inside the field

A credential or published data with such a root crashed the verifier, holder or
reader instead of being refused.
---
 components/idenpuboffchain/idenpuboffchain.go |  5 ++++-
 components/verifier/verifier.go               | 10 ++++++++--
 core/id.go                                    | 16 +++++++++++++---
 identity/holder/holder.go                     |  5 ++++-
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index b0a9f2d..cb5a38a 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -72,8 +72,11 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported roots tree root (%v) doesn't match the expected root (%v)",
 			rootsTree.RootKey(), publicDataBlobs.RootsTreeRoot)
 	}
-	idenState := core.IdenState(&publicDataBlobs.ClaimsTreeRoot,
+	idenState, err := core.CalculateIdenState(&publicDataBlobs.ClaimsTreeRoot,
 		&publicDataBlobs.RevocationsTreeRoot, &publicDataBlobs.RootsTreeRoot)
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(&publicDataBlobs.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index f947ed2..e7f5ab1 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -69,7 +69,10 @@ func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistenc
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	idenState, err := core.CalculateIdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credExist.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
@@ -149,7 +152,10 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	idenState, err := core.CalculateIdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credValid.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/core/id.go b/core/id.go
index d8968e5..2729775 100644
--- a/core/id.go
+++ b/core/id.go
@@ -154,15 +154,25 @@ func IdGenesisFromIdenState(hash *merkletree.Hash) *ID {
 
 // IdenState calculates the Identity State from the Claims Tree Root, Revocation Tree Root and Roots Tree Root.
 func IdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) *merkletree.Hash {
+	idenState, err := CalculateIdenState(clr, rer, ror)
+	if err != nil {
+		panic(err)
+	}
+	return idenState
+}
+
+// CalculateIdenState calculates the Identity State like IdenState, but returns
+// an error when the roots, that may come from others, are not inside the field.
+func CalculateIdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) (*merkletree.Hash, error) {
 	bi, err := merkletree.ElemBytesToPoseidonInput(merkletree.ElemBytes(*clr),
 		merkletree.ElemBytes(*rer),
 		merkletree.ElemBytes(*ror))
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	idenState, err := poseidon.PoseidonHash(bi)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return merkletree.NewHashFromBigInt(idenState)
+	return merkletree.NewHashFromBigInt(idenState), nil
 }
diff --git a/identity/holder/holder.go b/identity/holder/holder.go
index 5687ce6..cbab115 100644
--- a/identity/holder/holder.go
+++ b/identity/holder/holder.go
@@ -104,8 +104,11 @@ func (h *Holder) HolderGetCredentialValidityData(
 	}
 
 	// Verify that the returned public data is consistent with the queried IdenState
-	idenState := core.IdenState(publicData.ClaimsTreeRoot, publicData.RevocationsTree.RootKey(),
+	idenState, err := core.CalculateIdenState(publicData.ClaimsTreeRoot, publicData.RevocationsTree.RootKey(),
 		publicData.RootsTree.RootKey())
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(idenStateData.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
-- 
2.43.0


From dee833668faf08994fb922446094ec94c6c80576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 22/28] fix: compare the state signal of a zk credential as a
 number

Converting it to a hash first dropped its sign (and any high bytes), so a signal
other than the state on chain was accepted.
---
 components/verifier/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index e7f5ab1..f3e8a3f 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -199,7 +199,7 @@ func (v *Verifier) VerifyZkProofCredential(
 		return err
 	}
 	if idenStateDataOnChain.BlockN != idenStateBlockN ||
-		!idenStateDataOnChain.IdenState.Equals(idenState) {
+		idenStateDataOnChain.IdenState.BigInt().Cmp(pubSignals[0]) != 0 {
 		return ErrIdenStateOnChainDoesntMatch
 	}
 
-- 
2.43.0


From ac6ce53620284c1f45ae7ceabb3bd0ce5e21b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 23/28] fix: keep the metadata and length of generic claims in
 hex

HexToClaimGeneric left the metadata empty, so Entry() erased the claim type,
flags and revocation nonce, and accepted texts of any length. Entry() changed
the metadata of the original entry without dropping its cached hashes.
---
 core/claims/utils.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index 757d865..4e3aaff 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -19,8 +19,10 @@ func NewClaimGeneric(entry *merkletree.Entry) *ClaimGeneric {
 }
 
 func (c *ClaimGeneric) Entry() *merkletree.Entry {
-	c.metadata.Marshal(c.entry)
-	return c.entry
+	// The entry is copied to not keep the cached hashes of the original one.
+	e := c.entry.Clone()
+	c.metadata.Marshal(e)
+	return e
 }
 
 func (c *ClaimGeneric) Metadata() *Metadata {
@@ -32,16 +34,11 @@ func HexToClaimGeneric(h string) (ClaimGeneric, error) {
 	if err != nil {
 		return ClaimGeneric{}, err
 	}
-	var dataBytes [merkletree.ElemBytesLen * merkletree.DataLen]byte
-	copy(dataBytes[:], bytesValue)
-	data := merkletree.NewDataFromBytes(dataBytes)
-	entry := merkletree.Entry{
-		Data: *data,
-	}
-	entrier := ClaimGeneric{
-		entry: &entry,
+	entry, err := merkletree.NewEntryFromBytes(bytesValue)
+	if err != nil {
+		return ClaimGeneric{}, err
 	}
-	return entrier, nil
+	return *NewClaimGeneric(entry), nil
 }
 
 func HexArrayToClaimGenericArray(arrH []string) ([]ClaimGeneric, error) {
-- 
2.43.0


From a08fd0f1ccd28f810d9642b8b2e9f56019649e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 24/28] fix: refuse JSON claim metadata with a subject but
 without ID

It was accepted and crashed when marshaled into an entry.
---
 core/claims/claim.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index ac48ccd..0d8db3a 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -320,6 +320,9 @@ func (m *Metadata) UnmarshalJSON(b []byte) error {
 		return err
 	}
 	if m.header.Subject != ClaimSubjectSelf {
+		if metadata.ID == nil {
+			return fmt.Errorf("claim metadata with a subject but without ID")
+		}
 		m.Subject = metadata.ID
 	}
 	if m.header.Expiration {
-- 
2.43.0


From 430b58609c6c504d55d974985299163892c9bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 25/28] fix: forget the keys of a closed key store under its
 lock

Close zeroed them without the lock and left them in the cache, so a closed key
store went on signing, with the zero key.
---
 keystore/keystore.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 49dfae6..f7581a9 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -265,9 +265,12 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 }
 
 func (ks *KeyStore) Close() error {
+	ks.rw.Lock()
+	defer ks.rw.Unlock()
 	zero := [32]byte{}
-	for _, sk := range ks.cache {
+	for pk, sk := range ks.cache {
 		copy(sk[:], zero[:])
+		delete(ks.cache, pk)
 	}
 	return ks.storage.Unlock()
 }
-- 
2.43.0


From 96f7bcddabd160cda499e2ac0d0ade9354257de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 26/28] fix: accept claims with the last expiration times

---
 components/verifier/verifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index f3e8a3f..484429f 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -123,7 +123,10 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
 	if metadata.Header().Expiration {
 		now := v.timeNow()
-		if time.Unix(metadata.Expiration, 0).Before(now) {
+		// The seconds are compared as numbers because a time.Time wraps
+		// for the last expiration values.
+		if metadata.Expiration < now.Unix() ||
+			(metadata.Expiration == now.Unix() && now.Nanosecond() > 0) {
 			return ErrClaimExpired
 		}
 	}
-- 
2.43.0


From d59a5b8161aaaaa140ab2b61e39afea330c66466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 27/28] fix: a key whose import fails does not stay in the key
 store

---
 keystore/keystore.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index f7581a9..e1418d5 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -302,12 +302,19 @@ func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.Publ
 	}
 	pk := sk.Public()
 	pubComp := pk.Compress()
+	prevKey, hadKey := ks.encryptedKeys[pubComp]
 	ks.encryptedKeys[pubComp] = *encryptedKey
 	encryptedKeysJSON, err := json.Marshal(ks.encryptedKeys)
-	if err != nil {
-		return nil, err
+	if err == nil {
+		err = ks.storage.Write(encryptedKeysJSON)
 	}
-	if err := ks.storage.Write(encryptedKeysJSON); err != nil {
+	if err != nil {
+		// the key is not stored: forget it
+		if hadKey {
+			ks.encryptedKeys[pubComp] = prevKey
+		} else {
+			delete(ks.encryptedKeys, pubComp)
+		}
 		return nil, err
 	}
 	return &pubComp, nil
-- 
2.43.0


From 45db1db8a1d3148414c49563be3ab2a53c118b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 28/28] fix: closing a key store twice does not remove the lock
 of another one

---
 keystore/keystore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index e1418d5..eb68db8 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -191,6 +191,10 @@ func (fs *FileStorage) TryLock() (bool, error) {
 func (fs *FileStorage) Unlock() error {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
+	if !fs.lock.Locked() {
+		// Unlocked before: the .lock file may now belong to another storage.
+		return nil
+	}
 	if err := fs.lock.Unlock(); err != nil {
 		return err
 	}
-- 
2.43.0

