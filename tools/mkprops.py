#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the list stays easy to edit).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
MT='merkletree/merkletree.go'; ND='merkletree/node.go'; MU='merkletree/utils.go'

p('C01','Generated Merkle proofs verify for exactly what the tree holds',
 "For any tree contents and any index hash, a proof generated under a root says 'exists' exactly when that root's tree holds an entry with that index, and recomputing the root from the proof with that index (and, for existence, the stored value hash) gives back exactly that root. The same proof, checked against a different root or a different value, is rejected. A proof of non-existence never verifies for the index of the neighbouring leaf it carries.",
 ['inputs','histories'],'every tree reachable by insertions, every queried index, every level count',
 'Tests build a few fixed trees of a few entries and check the proofs of some of them; the guarantee is over all trees, all depths and all indexes, including the deep-collision paths.',
 [MT,ND,MU],[('GenerateProof walks from the root and records non-empty siblings and the bitmap',MT+': GenerateProof'),('RootFromProof folds the siblings back',MT+': RootFromProof'),('node and leaf keys',ND+': Key, LeafKey')],
 ['merkletree.MerkleTree.GenerateProof','merkletree.RootFromProof','merkletree.VerifyProof'])
p('C02','Proof verification recomputes the root exactly as specified',
 "Checking a proof against an index and value succeeds if and only if hashing the leaf (index, value, 1) - or the neighbouring leaf or empty key for non-existence - upward through the proof's levels, taking each level's sibling from the bitmap and the branch from the index's bit for that level, yields the given root. The outcome depends only on the arguments, which are left unmodified. A non-existence proof whose neighbouring leaf has the queried index is refused.",
 ['inputs'],'every proof of any depth up to the format maximum, every index, value and root',
 'Tests verify proofs they have generated themselves with small depths; forged proofs, unusual depths and bitmaps are a space tests cannot enumerate.',
 [MT,ND,MU,'common/common.go'],[('loop from the deepest level up',MT+': RootFromProof'),('path bits',MU+': getPath'),('bitmap test',"common/common.go: TestBitBigEndian")],
 ['merkletree.RootFromProof','merkletree.VerifyProof'])
p('C03','Adding an entry changes exactly that entry in the tree',
 "After an entry is added successfully, a lookup of its index returns exactly its data and a lookup of every other index returns what it returned before. Adding an entry whose index is already present, or that cannot be placed within the level limit, fails and leaves the root and every lookup unchanged. Trees opened read-only at an earlier root keep returning their old contents and refuse additions.",
 ['inputs','histories'],'every sequence of insertions, every pair of indexes however long their common prefix',
 'Tests insert a handful of entries; the map-update law ranges over every tree state and every colliding prefix, which only an inductive argument covers.',
 [MT,ND],[('recursive descent and push-down',MT+': addLeaf, pushLeaf'),('lookup',MT+': GetDataByIndex'),('content-addressed, write-once nodes',MT+': addNode')],
 ['merkletree.MerkleTree.AddEntry','merkletree.MerkleTree.GetDataByIndex','merkletree.MerkleTree.Snapshot'],
 [('rootKey','current root',MT),('storage','node store',MT)])
p('C04','Tree root in memory always equals the root on disk',
 "Whenever a tree operation returns, the root held in memory is the one a later reopening of the same storage finds, whether the operation succeeded or failed at any storage step; an addition becomes visible on disk all at once with its root or not at all. Opening storage that cannot be read reports the failure and never resets an existing tree to empty.",
 ['histories','crash_points','fault_sequences'],'every history of additions, every storage call failing or the process stopping after any of them',
 'Tests use storage that never fails and rarely reopen a tree; failures of a commit or of a read at open time are never exercised.',
 [MT],[('root written in the same transaction as the nodes',MT+': AddEntry'),('root read back at open',MT+': NewMerkleTree, dbGet, dbInsert')],
 ['merkletree.NewMerkleTree','merkletree.MerkleTree.AddEntry','merkletree.MerkleTree.RootKey'])
p('C05','Tree node and entry encodings are exact and checked',
 "Encoding a tree node or an entry to bytes and decoding it gives back the same node or entry, with the same key. Bytes of any other length or unknown node type are refused with an error and never cause a crash. Decoding never yields an entry, leaf node or middle node that would encode to different bytes.",
 ['inputs'],'every node and entry, every byte string',
 'Tests round-trip a few values and never feed arbitrary stored bytes.',
 [ND,MT,MU],[('type byte and length checks',ND+': NewNodeFromBytes, Value'),('entry bytes',MU+': NewEntryFromBytes, NewDataFromBytes; '+MT+': Data.Bytes')],
 ['merkletree.NewNodeFromBytes','merkletree.Node.Value','merkletree.NewEntryFromBytes','merkletree.Entry.Bytes'])
p('C06','Serialized Merkle proofs round-trip; malformed ones are refused',
 "Serializing a proof and parsing it back gives an equal proof: same kind, depth, bitmap, siblings and neighbouring leaf. Parsing arbitrary bytes either returns a proof or an error, and never crashes. A truncated proof is refused.",
 ['inputs'],'every proof, every byte string of every length',
 'Tests parse bytes they serialized; the parser faces bytes from other parties, with any depth byte and any bitmap.',
 [MT],[('header, bitmap, siblings, neighbour leaf',MT+': NewProofFromBytes, Proof.Bytes'),('JSON form',MT+': Proof.MarshalJSON, UnmarshalJSON')],
 ['merkletree.NewProofFromBytes','merkletree.Proof.Bytes'])
p('C07','Only values inside the field enter trees and hashes',
 "An entry with any element not below the field order is refused by the tree and by claim parsing, and an entry whose elements are all below it is never refused for that reason. Hashing elements outside the field reports an error instead of producing a hash. The index hash, value hash and leaf key of an entry are the specified hashes of its first four elements, its last four elements, and the pair.",
 ['inputs'],'every 8-element entry, each element any 32-byte value',
 'Tests try one or two out-of-field values in one position; every element position and the exact boundary matter.',
 [MT,MU,ND,'core/claims/claim_types.go'],[('field check',MT+': CheckEntryInField; core/claims/claim_types.go: NewClaimFromEntry'),('hash composition',MU+': HashElems, HashElemsKey; '+MT+': HIndex, HValue; '+ND+': LeafKey')],
 ['merkletree.CheckEntryInField','merkletree.MerkleTree.AddEntry','merkletree.HashElems'])
p('C08','Byte, bit and number conversions are exact inverses',
 "Converting a 32-byte element to a number and back is the identity, with the first byte the least significant. Setting a bit in a bitmap makes exactly that bit test true and leaves all others unchanged, in both bit orders; reversing byte order twice is the identity. Fixed-width integer encodings decode to the encoded value in the documented byte order.",
 ['inputs'],'every value, width, bit number and bitmap length',
 'Tests check sample constants; off-by-one and endianness slips show only at particular bits or lengths.',
 ['common/common.go',MT,MU],[('bit helpers','common/common.go: SetBit, TestBit, SetBitBigEndian, TestBitBigEndian'),('byte order','common/common.go: SwapEndianness; '+MT+': NewElemBytesFromBigInt, ElemBytes.BigInt')],
 ['common.SetBitBigEndian','common.TestBitBigEndian','common.SwapEndianness','merkletree.ElemBytes.BigInt'])
p('C09','Text encodings round-trip and reject malformed input cleanly',
 "Hex, base64, hash, entry and claim-type texts decode to exactly the value that was encoded. Decoding into a fixed-size destination accepts only text of exactly that size, with or without the 0x prefix. Any text whatsoever either decodes or gives an error; none causes a crash, and a reused object never keeps hashes of its previous content.",
 ['inputs'],'every byte string, every text including empty and odd-length ones',
 'Tests decode well-formed samples; empty, short and odd-length texts are not exercised.',
 ['common/common.go',MT,MU,'core/claims/claim_types.go','core/claims/utils.go'],[('hex','common/common.go: HexDecode, HexDecodeInto, Hex'),('base64','common/common.go: Base64Decode'),('texts of hashes and entries',MU+': Hash.UnmarshalText; '+MT+': Data/Entry.UnmarshalText')],
 ['common.HexDecodeInto','common.Base64Decode','merkletree.Entry.UnmarshalText'])
p('C10','Every claim type round-trips through its tree entry',
 "Building a claim, turning it into a tree entry and parsing that entry gives back a claim with the same type, fields, subject and revocation nonce, for every type the library defines, and turning it into an entry again gives the same entry. Data placed in one field never spills into another field or into the header. A claim built from library types always fits the field.",
 ['inputs'],'every field value of every claim type, every revocation nonce',
 'Tests use one fixed value per claim type; slot boundaries are only visible with data in the boundary bytes.',
 ['core/claims/claimBasic.go','core/claims/claimKeyBabyJub.go','core/claims/claimOtherIden.go','core/claims/claim_types.go','core/claims/revocationrootsleafs.go','core/claims/utils.go'],
 [('slot packing of 31 bytes per element','core/claims/claimBasic.go, claimOtherIden.go: Entry, New*FromEntry'),('key coordinates','core/claims/claimKeyBabyJub.go'),('tree leafs','core/claims/revocationrootsleafs.go')],
 ['claims.NewClaimFromEntry','claims.ClaimBasic.Entry','claims.ClaimOtherIden.Entry','claims.ClaimKeyBabyJub.Entry'])
p('C11','Claim metadata survives encoding and never crashes decoding',
 "Type, subject kind, subject position, subject identity, version, expiration and revocation nonce written into an entry are exactly those read back, for every combination of flags. Writing metadata changes only the bytes reserved for the fields in use. Reading metadata from any entry, including one chosen by an adversary, does not crash.",
 ['inputs'],'every header flag combination, every field value, every entry',
 'Tests cover two flag combinations; the subject-in-value combination and adversarial flag bytes are never read.',
 ['core/claims/claim.go'],[('flag byte layout','core/claims/claim.go: ClaimHeader.Marshal, Unmarshal'),('metadata fields','core/claims/claim.go: Metadata.Marshal, Unmarshal, GetRevocationNonce')],
 ['claims.Metadata.Marshal','claims.Metadata.Unmarshal','claims.GetRevocationNonce'])
p('C12','Identity identifiers are self-checking and parse exactly',
 "An identifier built from a type and genesis is those 29 bytes followed by their checksum, the sum of the bytes in two bytes, most significant first. Bytes parse as an identifier if and only if they are exactly 31, not all zero, and carry the correct non-zero checksum, and parsing then yields those same bytes. Parsing what an identifier prints gives it back; any other text gives an error, never a crash.",
 ['inputs'],'every type, genesis, byte string and text',
 'Tests check a few identifiers and one corrupted one; acceptance must be exact over all byte strings.',
 ['core/id.go'],[('checksum','core/id.go: CalculateChecksum, CheckChecksum'),('parsing','core/id.go: IDFromBytes, IDFromString, DecomposeID, NewID')],
 ['core.NewID','core.IDFromBytes','core.IDFromString','core.CheckChecksum'])
p('C13','Identity state and genesis identifier derive as specified',
 "The identity state is the hash of the claims, revocations and roots tree roots in that order, and the genesis identifier is the default type with the last 27 bytes of that state. Deriving an identity from its key claim and extra claims gives the identifier of the state whose claims tree holds exactly those claims, in which the roots tree holds exactly that claims root and the revocations root is empty. Creating an issuer and calculating its genesis from the same claims agree.",
 ['inputs'],'every triple of roots, every key claim and list of extra claims',
 'Tests compare a couple of constants; swapped or dropped roots, or a claim left out, need general inputs to show.',
 ['core/id.go','core/genesis/genesis.go','identity/issuer/issuer.go'],[('state hash','core/id.go: IdenState, IdGenesisFromIdenState'),('genesis','core/genesis/genesis.go: CalculateIdGenesis, CalculateIdGenesisMT')],
 ['core.IdenState','core.IdGenesisFromIdenState','genesis.CalculateIdGenesis'])
p('C14','Existence credentials are accepted exactly when genuine',
 "An existence credential is accepted if and only if its proof is of existence, the state recomputed from the claim, the proof and the two other roots equals the credential's state, and the chain records that same state, block number and timestamp for that issuer at that block. A failing chain query leads to rejection. No credential with all its fields present, however malformed their values, makes the verifier crash.",
 ['inputs','fault_sequences'],'every credential, every answer or failure of the chain',
 'Tests of the verifier need a network and cover a few altered fields; each single altered field and chain answer must lead to rejection.',
 ['components/verifier/verifier.go','core/id.go',MT],[('all conditions','components/verifier/verifier.go: VerifyCredentialExistence')],
 ['verifier.Verifier.VerifyCredentialExistence'])
p('C15','Validity credentials are accepted exactly when current and unrevoked',
 "A validity credential is accepted if and only if its existence credential is acceptable, the claim has not expired at the time of checking, the non-revocation proof is one of non-existence of the claim's own revocation nonce under the credential's state, that state is on chain as stated, and the state is either fresher than the allowed age or still the issuer's latest on chain. Any failing chain query leads to rejection.",
 ['inputs','fault_sequences'],'every credential, clock value, freshness and chain answer',
 'Tests of the verifier need a network and sample a few times; boundary instants, nonces and stale states need every value.',
 ['components/verifier/verifier.go','core/claims/claim.go','core/claims/revocationrootsleafs.go'],[('all conditions','components/verifier/verifier.go: VerifyCredentialValidity'),('freshness','components/verifier/verifier.go: validateFreshness')],
 ['verifier.Verifier.VerifyCredentialValidity'])
p('C16','Zero-knowledge credentials are accepted only for a current on-chain state',
 "A zero-knowledge credential is accepted if and only if the verification key loads, the proof verifies for the given public signals, the first signal is the state the chain records for that issuer at exactly that block, and that state is fresh enough or the issuer's latest. Every failing step leads to rejection with an error.",
 ['inputs','fault_sequences'],'every proof outcome, public signals, block number, clock value and chain answer',
 'Tests need a network and proving keys; the combinations of answers are not sampled.',
 ['components/verifier/verifier.go','utils/zk/zk.go'],[('all conditions','components/verifier/verifier.go: VerifyZkProofCredential, validateFreshness')],
 ['verifier.Verifier.VerifyZkProofCredential'])
p('C17','Revocation nonces never repeat, even across restarts',
 "Every revocation nonce handed out by an issuer is different from all it handed out before, including across restarts and failed issues, until the 32-bit space is used up, when it reports an error instead of wrapping around. A claim gets its nonce only from this source, durably consumed before the claim enters the tree. A claim that is not issued keeps the metadata it had.",
 ['histories','crash_points','fault_sequences'],'every history of issues, failures and restarts',
 'Tests draw a few nonces in one run; exhaustion, failed commits and restarts are not exercised.',
 ['identity/issuer/noncegen.go','identity/issuer/issuer.go','db/storageutils.go'],[('persistent counter','identity/issuer/noncegen.go: Next, Init'),('nonce committed first','identity/issuer/issuer.go: IssueClaim, Create')],
 ['issuer.UniqueNonceGen.Next','issuer.Issuer.IssueClaim'])
p('C18','Publishing a state follows the pending/on-chain protocol',
 "An issuer publishes only when nothing is awaiting confirmation, sends exactly one transition whose old state is the last recorded one and whose new state is recorded with its three roots before it is sent, and initialises the chain only when it has never been on chain. A pending state becomes the on-chain state only when the chain reports exactly that state - after the required confirmations of its transaction, when one is recorded - and any third state is reported as an error without changing anything. Retrying an interrupted publication sends the recorded pending state.",
 ['histories','fault_sequences','crash_points'],'every order of issue, revoke, publish and sync, with every chain answer or failure',
 'The issuer tests need network and proving keys and walk the good path once; interruptions between steps are not exercised.',
 ['identity/issuer/issuer.go'],[('publication','identity/issuer/issuer.go: PublishState'),('synchronisation','identity/issuer/issuer.go: SyncIdenStatePublic'),('persistent pairs','identity/issuer/issuer.go: setIdenStatePending, setIdenStateDataOnChain')],
 ['issuer.Issuer.PublishState','issuer.Issuer.SyncIdenStatePublic'])
p('C19','Issuer state in memory is what reloading restores',
 "The pending state, its sent flag, the on-chain state, the pending transactions, identity, configuration and keys an issuer holds in memory are those a fresh load from the same storage restores. Creating an issuer stores the identity it returns, and a freshly created issuer has no pending and no on-chain state.",
 ['histories','inputs'],'every value stored through the issuer, every configuration',
 'Tests reload once with default values; each stored field must be restored exactly.',
 ['identity/issuer/issuer.go','db/storageutils.go'],[('setters and loaders','identity/issuer/issuer.go: set*/load*'),('creation and loading','identity/issuer/issuer.go: Create, Load')],
 ['issuer.Create','issuer.Load'])
p('C20','Issued credentials prove the exact claim; revocation hits its nonce',
 "An issuer gives an existence credential only for a claim, index and value both, that is in the claims tree of its on-chain state, and the credential carries that claim, its existence proof under that state's claims root, the state data and the other two roots of that state. A claim issued but not yet on chain is reported as such and an unknown or altered claim as not found. Revoking a claim adds to the revocation tree exactly the nonce stored in the issuer's own copy of that claim, and fails without effect for a claim never issued.",
 ['inputs','histories'],'every claim, issued or not, altered in any byte, at every stage of publication',
 'Tests ask for credentials of claims they issued unaltered; alterations in each element and stage are not sampled.',
 ['identity/issuer/issuer.go',MT],[('credential','identity/issuer/issuer.go: GenCredentialExistence'),('revocation','identity/issuer/issuer.go: RevokeClaim'),('entry comparison',MT+': EntryExists, Data.Equal')],
 ['issuer.Issuer.GenCredentialExistence','issuer.Issuer.RevokeClaim'])
p('C21','A holder obtains validity data only for unrevoked claims',
 "A holder gets a validity credential only if the public data it fetched recomputes to the issuer's latest on-chain state and the claim's revocation nonce is absent from the revocation tree of that data; a revoked claim is reported as revoked and inconsistent data as inconsistent. The credential carries that state, that non-existence proof and those roots unchanged. The inputs prepared for a zero-knowledge proof are the numbers of exactly these values, padded to the requested number of levels.",
 ['inputs','fault_sequences'],'every credential, public data and chain answer',
 'Holder tests need a network; inconsistent public data and revoked neighbours are not sampled.',
 ['identity/holder/holder.go'],[('validity data','identity/holder/holder.go: HolderGetCredentialValidityData, HolderGetCredentialValidity'),('proof inputs','identity/holder/holder.go: HolderGetCredentialProofInputs')],
 ['holder.Holder.HolderGetCredentialValidity','holder.Holder.HolderGetCredentialProofInputs'])
p('C22','Storage transactions isolate, commit together and respect prefixes',
 "In both storage engines a read in a transaction sees the transaction's own last write of that key, otherwise the stored value; nothing written is visible outside before commit, and after commit all of it is. A view with a prefix reads and writes exactly the keys with that prefix, so views with different equal-length prefixes never see each other's data, and nested prefixes accumulate. Merging one transaction into another makes the merged writes take effect, and reading a key never written reports not-found.",
 ['inputs','histories'],'every sequence of put, get, merge, commit, close and prefixing, with any keys and values',
 'Tests use a few one-byte keys and prefixes; key/prefix boundary effects and shared buffers need arbitrary ones.',
 ['db/memory.go','db/leveldb.go','db/kvmap.go','db/utils.go'],[('overlay map','db/memory.go, db/leveldb.go: Tx Get, Put, Commit, Add'),('prefix concatenation','db/utils.go: concat; WithPrefix')],
 ['db.Storage','db.Tx'])
p('C23','Stored counters and lists keep every element at its position',
 "A stored number reads back as last set. Appending to a stored list makes its length one more, makes the new element retrievable both by its key and by its position, and leaves every other element's key and position unchanged; reading a position never filled reports not-found. Two lists or values created under different storage keys never affect each other, whatever memory the key was passed in.",
 ['inputs','histories'],'every sequence of appends and reads, every key and prefix buffer',
 'Tests append four elements with freshly allocated keys; shared key buffers are not exercised.',
 ['db/storageutils.go'],[('value','db/storageutils.go: StorageValue'),('list','db/storageutils.go: StorageList, NewStorageList')],
 ['db.StorageValue','db.StorageList'])
p('C24','The key store signs only with unlocked keys and the exact message',
 "A key can sign only after it has been unlocked with the passphrase it was stored under; a wrong passphrase, tampered data or unknown key is refused and unlocks nothing. What is signed is the hash of prefix, 8-byte big-endian date and message, and verification accepts exactly signatures of that same layout; the caller's buffers are never modified. Encrypting and decrypting with the same passphrase gives back the data, and importing a key stores it encrypted before it is reported as imported.",
 ['inputs','histories','fault_sequences'],'every key, passphrase, message, buffer and order of operations',
 'Tests sign one message with one key; buffers with spare capacity, wrong keys and failing storage are not exercised.',
 ['keystore/keystore.go'],[('cache of unlocked keys','keystore/keystore.go: UnlockKey, SignElem, ExportKey'),('message layout','keystore/keystore.go: Sign, VerifySignature'),('encryption','keystore/keystore.go: EncryptData, DecryptData')],
 ['keystore.KeyStore.Sign','keystore.VerifySignature','keystore.KeyStore.UnlockKey'])
p('C25','Published off-chain data is served back and checked on receipt',
 "The off-chain writer answers a query for a state with exactly the data published for it while it is among the last N published, N being the configured cache length, and the query for the latest with the most recently published data; a state not held is reported as an error. A receiver accepts a data set only if both imported trees have the stated roots and the three roots hash to the stated state.",
 ['inputs','histories'],'every number and order of publications, every cache length, every data set',
 'Tests publish once or twice with the default cache length; wrap-around at other lengths is never reached.',
 ['components/idenpuboffchain/writerhttp/writerhttp.go','components/idenpuboffchain/idenpuboffchain.go'],[('ring of cached states','components/idenpuboffchain/writerhttp/writerhttp.go: Publish, nextCacheIdx, prevCacheIdx, GetPublicData'),('checks','components/idenpuboffchain/idenpuboffchain.go: NewPublicDataFromBlobs')],
 ['writerhttp.IdenPubOffChainWriteHttp.GetPublicData','idenpuboffchain.NewPublicDataFromBlobs'])
p('C26','Ethereum message signatures bind address, message and date',
 "A signature is accepted for an address if and only if the address recovered from it over the exact Ethereum-prefixed hash of the message is that address; with a date, the message is followed by the date in eight big-endian bytes. Verification modifies neither the message, its underlying memory, nor the signature. Signing produces what verification accepts.",
 ['inputs'],'every message, date, address and signature',
 'Tests verify two fixed signatures; message buffers with spare capacity and other lengths are not exercised.',
 ['crypto/signatures.go','crypto/hash.go','components/idensigner/idensigner.go'],[('prefix hash','crypto/signatures.go: EthHash'),('recovery and comparison','crypto/signatures.go: VerifySig, VerifySigEthMsg, VerifySigEthMsgDate')],
 ['crypto.VerifySigEthMsg','crypto.VerifySigEthMsgDate'])
p('C27','A login nonce is usable once and until it expires',
 "A nonce added with a lifetime is found until its expiration time has passed and reported as not found afterwards; taking it out succeeds at most once per addition. Adding a nonce that is present fails and changes nothing, and auxiliary data can be attached at most once. Cleaning up removes only expired nonces, and never one added again after it was taken out.",
 ['inputs','histories','schedules'],'every history of add, attach, search, take and clean-up at any times',
 'Tests follow one short script; re-adding a taken nonce and clean-up in between is not exercised.',
 ['utils/noncedb/nonce_db.go'],[('map and expiry heap','utils/noncedb/nonce_db.go: add, SearchAndDelete, DeleteOld')],
 ['noncedb.NonceDb'])
p('C28','The local chain stand-in records states like the contract',
 "The in-process chain accepts a first state only for an identity not known at the last synchronisation and an update only for one known then, and only with a valid transition proof from the state that was latest then; accepted states take effect at the next synchronisation, in order, and only then. Queries return the latest state, or the one recorded at exactly the asked block or time, and the specific not-found error otherwise. The in-process off-chain store returns the data last published for the asked state of the asked identity only.",
 ['inputs','histories'],'every history of initialise, update, synchronise, publish and query over any identities',
 'Tests use one identity and a couple of states.',
 ['components/idenpubonchain/local/local.go','components/idenpuboffchain/local/local.go'],[('pending queues and history','components/idenpubonchain/local/local.go'),('per-identity data','components/idenpuboffchain/local/local.go')],
 ['local.IdenPubOnChain','local.IdenPubOffChain'])
p('C29','Shared objects are only touched under their lock',
 "Every access to the mutable state of the key store, the nonce database, the nonce generator, the off-chain writer and the in-process chain happens while the object's lock is held - exclusively for changes - and every operation releases the locks it takes on every path, including error paths.",
 ['schedules'],'every operation, every path through it, any interleaving of callers',
 'Tests are sequential; a missing or leaked lock shows only under particular schedules or on rare error paths.',
 ['keystore/keystore.go','utils/noncedb/nonce_db.go','identity/issuer/noncegen.go','identity/issuer/issuer.go','components/idenpuboffchain/writerhttp/writerhttp.go','components/idenpubonchain/local/local.go','components/idenpuboffchain/local/local.go',MT],
 [('mutexes','each type: rw / mutex fields')],['all exported methods of the listed types'])
p('C30','Tree dumps rebuild the same tree',
 "Importing the full dump of a tree at a root into empty storage gives a tree with that root, the same lookups, and the same root again after reopening the storage. Importing the dumped list of claims into an empty tree gives the same root. A truncated dump, or one without a root, is refused and leaves the tree as it was.",
 ['inputs','histories','crash_points'],'every tree and root, every truncation of its dump',
 'Tests dump and import a few trees once and never reopen the storage afterwards.',
 [MT],[('dump',MT+': DumpTree, serializeKV, Walk'),('import',MT+': ImportTree, deserializeKV, ImportDumpedClaims, DumpClaims')],
 ['merkletree.MerkleTree.DumpTree','merkletree.MerkleTree.ImportTree'])
p('C31','The root depends only on the set of entries',
 "Adding the same entries in any order to an empty tree gives the same root, and different sets of entries give different roots.",
 ['histories','inputs'],'every set of entries and every order of insertion',
 'Tests compare one or two orders of a few entries.',
 [MT],[('leafs sit at the shallowest distinguishing level',MT+': addLeaf, pushLeaf')],['merkletree.MerkleTree.RootKey'])
p('C32','Circuit inputs and proof files keep their exact values',
 "Sibling lists for circuits have the proof's non-empty siblings at their levels, zero elsewhere, padded to one more than the requested number of levels. Converting proofs, public signals and input maps to their printed form keeps every number and every position. A proving, verification or witness file is used only if its digest equals the configured one.",
 ['inputs'],'every proof, level count, number and file content',
 'Tests convert one fixture; the files are fetched from a network.',
 [MT,'utils/zk/zk.go'],[('siblings',MT+': SiblingsFromProof, AllSiblingsCircom'),('zk helpers','utils/zk/zk.go: InputsToMapStrings, PubSignals, G1ToBigInts, checkHash')],
 ['merkletree.Proof.AllSiblingsCircom','zk.ZkFiles'])
p('C33','Publishing and synchronising eventually converge',
 "If the chain keeps mining and answering and the issuer keeps synchronising, every published state eventually becomes the issuer's on-chain state and the issuer can publish again.",
 ['histories','schedules'],'every fair schedule of chain progress and synchronisation',
 'Liveness over unbounded histories of an external system.',
 ['identity/issuer/issuer.go'],[('synchronisation','identity/issuer/issuer.go: SyncIdenStatePublic')],['issuer.Issuer.SyncIdenStatePublic'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
