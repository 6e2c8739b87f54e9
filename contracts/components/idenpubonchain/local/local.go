package local

import (
	"math/big"
	"time"

	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
	v "github.com/iden3/go-iden3-core/zzverif"
)

// the history of one identity: its last state, and what is recorded at one block and one time;
// anything may be recorded at others
func specHist(states []*proof.IdenStateData, n uint64, ts int64, x *proof.IdenStateData, atBlock, atTime bool) *IdenStateHistory {
	v.Requires(len(states) > 0)
	other := &proof.IdenStateData{}
	v.Any(other, "other state")
	h := &IdenStateHistory{IdenStates: states, ByTime: make(map[int64]*proof.IdenStateData), ByBlock: make(map[uint64]*proof.IdenStateData)}
	v.AnyRest(h.ByBlock, other)
	v.AnyRest(h.ByTime, other)
	h.ByBlock[n] = x
	if !atBlock {
		delete(h.ByBlock, n)
	}
	h.ByTime[ts] = x
	if !atTime {
		delete(h.ByTime, ts)
	}
	return h
}

// a chain in which one arbitrary identity is tracked: it is on chain with its history, or not;
// any other may be on chain with an arbitrary history
func specChain(id *core.ID, h *IdenStateHistory, present bool, pi, ps []*IdIdenStateData) *IdenPubOnChain {
	m := make(map[core.ID]*IdenStateHistory)
	last := &proof.IdenStateData{}
	v.Any(last, "other state")
	v.AnyRest(m, &IdenStateHistory{IdenStates: []*proof.IdenStateData{last}, ByTime: make(map[int64]*proof.IdenStateData), ByBlock: make(map[uint64]*proof.IdenStateData)})
	m[*id] = h
	if !present {
		delete(m, *id)
	}
	ip := &IdenPubOnChain{idenStatesData: m, pendingInit: pi, pendingSet: ps}
	v.Guarded(&ip.rw, "states", m, &ip.pendingInit, &ip.pendingSet, h, h.ByTime, h.ByBlock)
	return ip
}

func specSame(a, b *proof.IdenStateData) bool {
	return a.BlockN == b.BlockN && a.BlockTs == b.BlockTs && *a.IdenState == *b.IdenState
}

func specSameEntry(a, b *IdIdenStateData) bool {
	return *a.Id == *b.Id && specSame(a.IdenStateData, b.IdenStateData)
}

func specOf(ip *IdenPubOnChain, id *core.ID) *IdenStateHistory {
	h, ok := ip.idenStatesData[*id]
	if !ok {
		return nil
	}
	return h
}

// ---- queries

//verif:contract prop=C28,C29 target=IdenPubOnChain.GetState
func vc_GetState(id *core.ID, states []*proof.IdenStateData, x *proof.IdenStateData, present bool) {
	h := specHist(states, 0, 0, x, false, false)
	ip := specChain(id, h, present, nil, nil)
	r, err := ip.GetState(id)
	v.Ensures("found exactly when on chain", (err == nil) == present && (err == nil || err == idenpubonchain.ErrIdenNotOnChain))
	v.Ensures("the latest state", err != nil || specSame(r, states[len(states)-1]))
	if err == nil {
		v.Cover("found")
	}
}

//verif:contract prop=C28,C29 target=IdenPubOnChain.GetStateByBlock
func vc_GetStateByBlock(id *core.ID, states []*proof.IdenStateData, n uint64, x *proof.IdenStateData, present, at bool) {
	h := specHist(states, n, 0, x, at, false)
	ip := specChain(id, h, present, nil, nil)
	r, err := ip.GetStateByBlock(id, n)
	v.Ensures("found exactly when recorded at that block", (err == nil) == (present && at))
	v.Ensures("the state recorded there", err != nil || r == x)
	v.Ensures("not on chain", (err == idenpubonchain.ErrIdenNotOnChain) == !present)
	v.Ensures("not at that block", (err == idenpubonchain.ErrIdenByBlockNotFound) == (present && !at))
	if err == nil {
		v.Cover("found")
	}
}

//verif:contract prop=C28,C29 target=IdenPubOnChain.GetStateByTime
func vc_GetStateByTime(id *core.ID, states []*proof.IdenStateData, ts int64, x *proof.IdenStateData, present, at bool) {
	h := specHist(states, 0, ts, x, false, at)
	ip := specChain(id, h, present, nil, nil)
	r, err := ip.GetStateByTime(id, ts)
	v.Ensures("found exactly when recorded at that time", (err == nil) == (present && at))
	v.Ensures("the state recorded there", err != nil || r == x)
	v.Ensures("not on chain", (err == idenpubonchain.ErrIdenNotOnChain) == !present)
	v.Ensures("not at that time", (err == idenpubonchain.ErrIdenByTimeNotFound) == (present && !at))
	if err == nil {
		v.Cover("found")
	}
}

// ---- changes

// the proof system, taken as a given function
type absZk struct {
	ok    bool
	proof *zktypes.Proof
	vk    *zktypes.Vk
	id    *core.ID
	old   *merkletree.Hash
	new   *merkletree.Hash
}

//verif:stub target=github.com/iden3/go-circom-prover-verifier/verifier.Verify
func stub_Verify(vk *zktypes.Vk, p *zktypes.Proof, signals []*big.Int, zk *absZk) bool {
	v.Assert("the given proof is verified with the chain's key", vk == zk.vk && p == zk.proof && len(signals) == 3)
	var b [32]byte
	copy(b[:], zk.id[:])
	v.Assert("for the identity", merkletree.SpecInt(b).Cmp(signals[0]) == 0)
	v.Assert("from the latest state", merkletree.SpecInt(*zk.old).Cmp(signals[1]) == 0)
	v.Assert("to the new state", merkletree.SpecInt(*zk.new).Cmp(signals[2]) == 0)
	return zk.ok
}

func specQueued(q, was []*IdIdenStateData, id *core.ID, st *merkletree.Hash, n uint64, now time.Time) bool {
	if len(q) != len(was)+1 {
		return false
	}
	e := q[len(was)]
	return *e.Id == *id && *e.IdenStateData.IdenState == *st && e.IdenStateData.BlockN == n && e.IdenStateData.BlockTs == now.Unix()
}

//verif:contract prop=C28,C29 target=IdenPubOnChain.SetState
func vc_SetState(id *core.ID, states []*proof.IdenStateData, x *proof.IdenStateData, present bool, pi, ps []*IdIdenStateData, st *merkletree.Hash, p *zktypes.Proof, zk *absZk, n uint64, j int) {
	h := specHist(states, 0, 0, x, false, false)
	ip := specChain(id, h, present, pi, ps)
	now := time.Now()
	ip.timeNow = func() time.Time { return now }
	ip.blockNow = func() uint64 { return n }
	ip.verifyingKey = zk.vk
	zk.proof, zk.id, zk.old, zk.new = p, id, states[len(states)-1].IdenState, st
	v.Requires(0 <= j && j < len(ps))
	v.Modifies(&ip.pendingSet)
	tx, err := ip.SetState(id, st, p)
	v.Ensures("accepted exactly for a known identity and a valid transition from its latest state", (err == nil) == (present && zk.ok))
	v.Ensures("not on chain", (err == idenpubonchain.ErrIdenNotOnChain) == !present)
	v.Ensures("an accepted state waits for the next synchronisation", err != nil || tx != nil && specQueued(ip.pendingSet, ps, id, st, n, now))
	v.Ensures("those accepted before wait in front", specSameEntry(ip.pendingSet[j], ps[j]))
	v.Ensures("a refused one changes nothing", err == nil || len(ip.pendingSet) == len(ps))
	if err == nil {
		v.Cover("accepted")
	}
}

//verif:contract prop=C28,C29 target=IdenPubOnChain.InitState
func vc_InitState(id *core.ID, states []*proof.IdenStateData, x *proof.IdenStateData, present bool, pi, ps []*IdIdenStateData, old, st *merkletree.Hash, p *zktypes.Proof, zk *absZk, n uint64, j int) {
	h := specHist(states, 0, 0, x, false, false)
	ip := specChain(id, h, present, pi, ps)
	now := time.Now()
	ip.timeNow = func() time.Time { return now }
	ip.blockNow = func() uint64 { return n }
	ip.verifyingKey = zk.vk
	zk.proof, zk.id, zk.old, zk.new = p, id, old, st
	v.Requires(0 <= j && j < len(pi))
	v.Modifies(&ip.pendingInit)
	_, err := ip.InitState(id, old, st, p)
	v.Ensures("accepted exactly for an unknown identity and a valid transition from the genesis state", (err == nil) == (!present && zk.ok))
	v.Ensures("an accepted state waits for the next synchronisation", err != nil || specQueued(ip.pendingInit, pi, id, st, n, now))
	v.Ensures("those accepted before wait in front", specSameEntry(ip.pendingInit[j], pi[j]))
	v.Ensures("a refused one changes nothing", err == nil || len(ip.pendingInit) == len(pi))
	if err == nil {
		v.Cover("accepted")
	}
}

//verif:stub target=github.com/ethereum/go-ethereum/core/types.NewTransaction
func stub_NewTransaction(nonce uint64, to [20]byte, amount *big.Int, gasLimit uint64, gasPrice *big.Int, data []byte) *types.Transaction {
	return &types.Transaction{}
}

// ---- synchronisation

//verif:contract prop=C28 target=IdenStateHistory.Add
func vc_Add(states []*proof.IdenStateData, n uint64, ts int64, x, e *proof.IdenStateData, atBlock, atTime bool, j int) {
	h := specHist(states, n, ts, x, atBlock, atTime)
	v.Requires(0 <= j && j < len(states))
	v.Modifies(h, h.ByBlock, h.ByTime)
	h.Add(e)
	v.Ensures("it is the latest", len(h.IdenStates) == len(states)+1 && specSame(h.IdenStates[len(states)], e))
	v.Ensures("after the others", specSame(h.IdenStates[j], states[j]))
	b, okb := h.ByBlock[n]
	t, okt := h.ByTime[ts]
	if e.BlockN == n {
		v.Ensures("recorded at its block", okb && b == e)
	} else {
		v.Ensures("another block's stays", okb == atBlock && (!okb || b == x))
	}
	if e.BlockTs == ts {
		v.Ensures("recorded at its time", okt && t == e)
	} else {
		v.Ensures("another time's stays", okt == atTime && (!okt || t == x))
	}
	v.Cover("added")
}

// Up to two first states and two updates pending, for any identities.
//
//verif:contract prop=C28,C29 target=IdenPubOnChain.Sync
func vc_Sync(id *core.ID, states []*proof.IdenStateData, x *proof.IdenStateData, present bool, i1, i2, s1, s2 *IdIdenStateData, ni, ns, j int) {
	v.Requires(0 <= ni && ni <= 2 && 0 <= ns && ns <= 2)
	h := specHist(states, 0, 0, x, false, false)
	pi, ps := []*IdIdenStateData{}, []*IdIdenStateData{}
	if ni > 0 {
		pi = append(pi, i1)
	}
	if ni > 1 {
		pi = append(pi, i2)
	}
	if ns > 0 {
		ps = append(ps, s1)
	}
	if ns > 1 {
		ps = append(ps, s2)
	}
	ip := specChain(id, h, present, pi, ps)
	// a first state is accepted for an identity that is not on chain, an update for one that is
	for _, e := range pi {
		v.Requires(specOf(ip, e.Id) == nil)
	}
	for _, e := range ps {
		v.Requires(specOf(ip, e.Id) != nil)
	}
	v.Requires(0 <= j && j < len(states))
	v.Modifies(ip, ip.idenStatesData, h, h.ByBlock, h.ByTime)
	ip.Sync()
	v.Ensures("nothing waits any more", len(ip.pendingInit) == 0 && len(ip.pendingSet) == 0)
	r := specOf(ip, id)
	var last *proof.IdenStateData
	n := len(states)
	for _, e := range pi {
		if *e.Id == *id {
			last = e.IdenStateData
			n = 1
		}
	}
	first := last
	for _, e := range ps {
		if *e.Id == *id {
			last = e.IdenStateData
			n++
		}
	}
	if last == nil {
		v.Ensures("no state without one that was accepted", (r != nil) == present)
		if r != nil {
			v.Ensures("an identity without one that was accepted stays as it is", r == h && len(r.IdenStates) == n && specSame(r.IdenStates[j], states[j]))
		}
		return
	}
	v.Ensures("those accepted are on chain, in order", r != nil && len(r.IdenStates) == n && specSame(r.IdenStates[n-1], last))
	a, oka := r.ByBlock[last.BlockN]
	b, okb := r.ByTime[last.BlockTs]
	v.Ensures("recorded at its block and time", oka && okb && a == last && b == last)
	if first != nil {
		v.Ensures("the first state is the first", specSame(r.IdenStates[0], first))
		v.Cover("first state")
	} else {
		v.Ensures("the earlier ones stay", specSame(r.IdenStates[j], states[j]))
		v.Cover("update")
	}
}
