package issuer

import (
	"fmt"
	"testing"

	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
)

func vstates(t *testing.T, salt int64, each func(e *venv)) {
	h := vstart(t, salt)
	for h.more(8, 200) {
		cfg := ConfigDefault
		cfg.ConfirmBlocks = uint64(h.r.Intn(4))
		var e *venv
		h.quiet(func() string { return "create" }, func() { e = venvNew(h, cfg, nil) })
		e.trail = fmt.Sprintf("confirm %d:", cfg.ConfirmBlocks)
		each(e)
		for i := 0; i < 22; i++ {
			e.f.p = 0
			e.refuse, e.badGet, e.noPub = false, false, false
			if h.r.Intn(3) == 0 {
				e.f.p = 3 + h.r.Intn(10)
				e.refuse, e.badGet, e.noPub = h.r.Intn(4) == 0, h.r.Intn(4) == 0, h.r.Intn(4) == 0
			}
			op := h.r.Intn(9)
			e.trail += fmt.Sprintf(" %d", op)
			h.quiet(func() string { return e.trail }, func() { e.step(op) })
			e.f.p = 0
			h.quiet(func() string { return e.trail }, func() {
				e.protocol()
				each(e)
			})
		}
		h.sample("%s", e.trail)
	}
	h.done()
}

// one operation; what it did is checked against what was recorded before it
func (e *venv) step(op int) {
	h := e.h
	last0, _, pending0, on0, _, n0, sent0 := e.stored()
	switch op {
	case 0, 1:
		e.is.IssueClaim(e.claim())
	case 2, 3, 4:
		faults := e.f.p > 0
		cur, roots := e.is.State()
		lr0 := roots.ClaimsTreeRoot
		err := e.publish()
		last, _, pending, on, rec, n, sent := e.stored()
		e.trail += fmt.Sprintf("publish(%v)", err)
		h.check(on == on0, "publishing changed the on-chain state; %s", e.trail)
		if sent0 {
			h.check(e.calls == 0 && err != nil, "published while a state awaits confirmation; %s", e.trail)
		}
		if pending0 != (merkletree.Hash{}) {
			h.check(pending == pending0 && n == n0, "the pending state changed from %v to %v; %s", &pending0, &pending, e.trail)
			if !faults && !sent0 {
				h.check(err == nil && e.calls == 1 && sent, "retrying does not send the pending state: %v; %s", err, e.trail)
			}
		}
		if pending0 == (merkletree.Hash{}) && n != n0 {
			h.check(n == n0+1 && rec.ClaimsTreeRoot.Equals(lr0), "recorded claims root %v, the tree has %v; %s", rec.ClaimsTreeRoot, lr0, e.trail)
			now, _ := e.is.State()
			h.check(*now == last, "recorded state %v, the trees give %v; %s", &last, now, e.trail)
		}
		if !faults && pending0 == (merkletree.Hash{}) {
			h.check(err == nil, "publish: %v; %s", err, e.trail)
			h.check((e.calls == 1) == (*cur != last0), "changed state %v, %d transitions sent; %s", *cur != last0, e.calls, e.trail)
			h.check(e.calls == 0 || e.pubs == 1, "not published off chain; %s", e.trail)
		}
		if err == nil && e.calls == 1 {
			h.check(sent, "sent but not recorded as sent; %s", e.trail)
		}
	case 5:
		e.mine()
	case 6, 7:
		e.conf, e.noRcpt, e.asked = int64(h.r.Intn(6)), h.r.Intn(6) == 0, nil
		third := merkletree.Hash{}
		keep := e.state
		if h.r.Intn(6) == 0 {
			h.r.Read(third[:31])
			e.state = &proof.IdenStateData{BlockN: 5, BlockTs: 55, IdenState: &third}
		}
		faults := e.f.p > 0
		err := e.is.SyncIdenStatePublic()
		e.trail += fmt.Sprintf("sync(%v,conf %d)", err, e.conf)
		last, _, pending, on, _, n, sent := e.stored()
		h.check(n == n0 && last == last0, "synchronising recorded a state; %s", e.trail)
		if on != on0 {
			h.check(e.state != nil && !e.badGet && *e.state.IdenState == on && on == pending0 && pending == (merkletree.Hash{}) && !sent,
				"on chain %v, the chain reports %v, pending was %v, is %v (sent %v); %s", &on, e.state, &pending0, &pending, sent, e.trail)
			if sent0 {
				want := e.setTx
				if on0 == (merkletree.Hash{}) {
					want = e.initTx
				}
				h.check(!e.noRcpt && uint64(e.conf) >= e.confirm && txEq(e.asked, want), "confirmed after %d of %d blocks (no receipt %v); %s", e.conf, e.confirm, e.noRcpt, e.trail)
			}
			h.check(*e.is.StateDataOnChain().IdenState == on && e.is.StateDataOnChain().BlockN == e.state.BlockN, "memory has another on-chain state; %s", e.trail)
		} else {
			h.check(pending == pending0 && sent == sent0, "synchronising changed the pending state; %s", e.trail)
			waits := sent0 && (e.noRcpt || uint64(e.conf) < e.confirm)
			if third != (merkletree.Hash{}) && !waits {
				h.check(err != nil, "a third state on chain is not an error; %s", e.trail)
			}
			if !faults && !waits && third == (merkletree.Hash{}) {
				rep := merkletree.Hash{}
				if e.state != nil {
					rep = *e.state.IdenState
				}
				h.check(rep == on0 && err == nil, "the chain reports %v, on chain stays %v, pending %v: %v; %s", &rep, &on0, &pending0, err, e.trail)
			}
		}
		e.state = keep
	case 8:
		e.frozen = true
		l, err := Load(e.st, e.ks, e, vzk(h.t), e)
		e.frozen = false
		h.check(e.f.p > 0 || err == nil, "load: %v; %s", err, e.trail)
		if err == nil {
			e.is = l
		}
	}
}

