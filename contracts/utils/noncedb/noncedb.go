package core

import (
	"time"

	v "github.com/iden3/go-iden3-core/zzverif"
)

// A database in which one arbitrary nonce is tracked: it is present with its object, or
// absent; any other nonce may be present with an arbitrary object. The expiry heap's first
// element is the tracked object.
func specDb(nonce string, expiration int64, hasAux, present bool) (*NonceDb, *NonceObj) {
	o := &NonceObj{Nonce: nonce, Expiration: expiration}
	if hasAux {
		o.Aux = &NonceObj{}
	}
	m := make(map[string]*NonceObj)
	v.AnyRest(m, &NonceObj{Nonce: v.AnyString("other.nonce"), Expiration: v.AnyI64("other.expiration")})
	m[nonce] = o
	if !present {
		delete(m, nonce)
	}
	ndb := &NonceDb{noncesHeap: &nonceObjHeap{elems: nonceObjs{o}}, nonceObjsByNonce: m, deleteCounter: uint64(v.AnyI64("calls"))}
	v.Guarded(&ndb.mutex, "nonces", m, &o.Aux, ndb.noncesHeap)
	v.Guarded(&ndb.deleteCounterMutex, "call counter", &ndb.deleteCounter)
	return ndb, o
}

func specFor(ndb *NonceDb, nonce string) *NonceObj {
	o, ok := ndb.nonceObjsByNonce[nonce]
	if !ok {
		return nil
	}
	return o
}

// the expiry heap holds some objects, among them possibly the tracked one, possibly objects
// that had the same nonce before; nothing is assumed about their order

//verif:stub target=(*github.com/iden3/go-iden3-core/utils/noncedb.nonceObjHeap).Push
func stub_heapPush(h *nonceObjHeap, n *NonceObj) {
	_ = h.elems[0]
}

//verif:stub target=(*github.com/iden3/go-iden3-core/utils/noncedb.nonceObjHeap).Pop
func stub_heapPop(h *nonceObjHeap) *NonceObj {
	o := h.elems[0]
	if v.AnyBool("popped") {
		return o
	}
	return nil
}

//verif:stub target=(*github.com/iden3/go-iden3-core/utils/noncedb.nonceObjHeap).Peek
func stub_heapPeek(h *nonceObjHeap) *NonceObj {
	o := h.elems[0]
	if v.AnyBool("heap empty") {
		return nil
	}
	if v.AnyBool("tracked on top") {
		return o
	}
	return &NonceObj{Nonce: v.AnyString("top.nonce"), Expiration: v.AnyI64("top.expiration")}
}

//verif:contract prop=C27,C29 target=NonceDb.Add
func vc_Add(nonce string, expiration int64, hasAux, present bool, delta int64) {
	ndb, o := specDb(nonce, expiration, hasAux, present)
	old := o.Aux
	aux := &NonceObj{}
	v.Requires(delta > -(1<<61) && delta < 1<<61)
	v.Modifies(ndb.nonceObjsByNonce)
	t0 := time.Now().Unix()
	r := ndb.Add(nonce, delta, aux)
	t1 := time.Now().Unix()
	e := specFor(ndb, nonce)
	v.Ensures("added exactly when it was not there", (r == nil) == present)
	if present {
		v.Ensures("adding one that is there changes nothing", e == o && o.Nonce == nonce && o.Expiration == expiration && o.Aux == old)
		v.Cover("present")
	} else {
		v.Ensures("it is there afterwards", e == r)
		v.Ensures("with the nonce, lifetime and data given", r.Nonce == nonce && r.Expiration >= t0+delta && r.Expiration <= t1+delta && r.Aux == aux)
		v.Cover("added")
	}
}

//verif:contract prop=C27,C29 target=NonceDb.Add
func vc_AddOther(nonce, nonce2 string, expiration int64, hasAux, present bool, delta int64) {
	ndb, o := specDb(nonce, expiration, hasAux, present)
	was, old := specFor(ndb, nonce), o.Aux
	v.Requires(nonce2 != nonce)
	v.Modifies(ndb.nonceObjsByNonce)
	ndb.Add(nonce2, delta, nil)
	v.Ensures("another nonce is not touched", specFor(ndb, nonce) == was && o.Nonce == nonce && o.Expiration == expiration && o.Aux == old)
}

//verif:contract prop=C27,C29 target=NonceDb.AddAux
func vc_AddAux(nonce string, expiration int64, hasAux, present bool) {
	ndb, o := specDb(nonce, expiration, hasAux, present)
	was, old := specFor(ndb, nonce), o.Aux
	aux := &NonceObj{}
	v.Modifies(&o.Aux)
	ok := ndb.AddAux(nonce, aux)
	v.Ensures("attached once, to a nonce that is there", ok == (present && !hasAux))
	v.Ensures("only the data changes", specFor(ndb, nonce) == was && o.Nonce == nonce && o.Expiration == expiration)
	v.Ensures("what was attached stays", ok || o.Aux == old)
	v.Ensures("what is attached is what was given", !ok || o.Aux == aux)
	if ok {
		v.Cover("attached")
	}
}

//verif:contract prop=C27,C29 target=NonceDb.AddAux
func vc_AddAuxOther(nonce, nonce2 string, expiration int64, hasAux, present bool) {
	ndb, o := specDb(nonce, expiration, hasAux, present)
	was, old := specFor(ndb, nonce), o.Aux
	v.Requires(nonce2 != nonce)
	ndb.AddAux(nonce2, &NonceObj{})
	v.Ensures("another nonce is not touched", specFor(ndb, nonce) == was && o.Nonce == nonce && o.Expiration == expiration && o.Aux == old)
}

//verif:contract prop=C27,C29 target=NonceDb.Search
func vc_Search(nonce string, expiration int64, hasAux, present bool) {
	ndb, o := specDb(nonce, expiration, hasAux, present)
	old := o.Aux
	v.Modifies(ndb.nonceObjsByNonce, &ndb.deleteCounter)
	t0 := time.Now().Unix()
	r, ok := ndb.Search(nonce)
	t1 := time.Now().Unix()
	v.Ensures("found while its lifetime lasts", !present || expiration < t1 || ok)
	v.Ensures("not found when absent or expired", !ok || present && expiration >= t0)
	v.Ensures("it is the object added", !ok || r == o)
	v.Ensures("searching leaves it in place", !present || expiration < t1 || specFor(ndb, nonce) == o)
	v.Ensures("searching brings nothing back", present || specFor(ndb, nonce) == nil)
	v.Ensures("unchanged", o.Nonce == nonce && o.Expiration == expiration && o.Aux == old)
	if ok {
		v.Cover("found")
	}
}

//verif:contract prop=C27,C29 target=NonceDb.SearchAndDelete
func vc_Take(nonce string, expiration int64, hasAux, present bool) {
	ndb, o := specDb(nonce, expiration, hasAux, present)
	old := o.Aux
	v.Modifies(ndb.nonceObjsByNonce, &ndb.deleteCounter)
	t0 := time.Now().Unix()
	r, ok := ndb.SearchAndDelete(nonce)
	t1 := time.Now().Unix()
	v.Ensures("taken out while its lifetime lasts", !present || expiration < t1 || ok)
	v.Ensures("nothing to take when absent or expired", !ok || present && expiration >= t0)
	v.Ensures("it is the object added", !ok || r == o)
	v.Ensures("gone afterwards", specFor(ndb, nonce) == nil)
	v.Ensures("unchanged", o.Nonce == nonce && o.Expiration == expiration && o.Aux == old)
	if ok {
		v.Cover("taken")
	}
}

//verif:contract prop=C27,C29 target=NonceDb.SearchAndDelete
func vc_TakeOther(nonce, nonce2 string, expiration int64, hasAux, present bool) {
	ndb, o := specDb(nonce, expiration, hasAux, present)
	old := o.Aux
	v.Requires(nonce2 != nonce)
	v.Modifies(ndb.nonceObjsByNonce, &ndb.deleteCounter)
	ndb.SearchAndDelete(nonce2)
	t1 := time.Now().Unix()
	v.Ensures("another nonce stays", !present || expiration < t1 || specFor(ndb, nonce) == o)
	v.Ensures("and is not brought back", present || specFor(ndb, nonce) == nil)
	v.Ensures("unchanged", o.Nonce == nonce && o.Expiration == expiration && o.Aux == old)
}

//verif:inv target=NonceDb.DeleteOld
func inv_deleteOld(ndb *NonceDb, nonce string, now, expiration int64, present bool) bool {
	e := specFor(ndb, nonce)
	return (!present || expiration < now || e == ndb.noncesHeap.elems[0]) && (present || e == nil)
}

//verif:contract prop=C27,C29 target=NonceDb.DeleteOld
func vc_DeleteOld(nonce string, expiration int64, hasAux, present bool) {
	ndb, o := specDb(nonce, expiration, hasAux, present)
	old := o.Aux
	v.Modifies(ndb.nonceObjsByNonce)
	ndb.DeleteOld()
	t1 := time.Now().Unix()
	v.Ensures("only expired nonces are cleaned up", !present || expiration < t1 || specFor(ndb, nonce) == o)
	v.Ensures("and none is brought back", present || specFor(ndb, nonce) == nil)
	v.Ensures("unchanged", o.Nonce == nonce && o.Expiration == expiration && o.Aux == old)
	v.Cover("cleaned up")
}
