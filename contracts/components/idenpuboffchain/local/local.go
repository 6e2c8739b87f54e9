package local

import (
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/merkletree"
	v "github.com/iden3/go-iden3-core/zzverif"
)

// one arbitrary state of one arbitrary identity is tracked; anything else may be there
func specStore(url string, id *core.ID, st, last *merkletree.Hash, d, dl *idenpuboffchain.PublicData, present, held bool) (*IdenPubOffChain, *IdenPubOffChainIden) {
	datas := make(map[merkletree.Hash]*idenpuboffchain.PublicData)
	v.AnyRest(datas, &idenpuboffchain.PublicData{})
	datas[*last] = dl
	datas[*st] = d
	if !held {
		delete(datas, *st)
	}
	v.Requires(*last != *st || held && d == dl)
	iden := &IdenPubOffChainIden{datas: datas, last: last}
	m := make(map[core.ID]*IdenPubOffChainIden)
	v.AnyRest(m, &IdenPubOffChainIden{datas: make(map[merkletree.Hash]*idenpuboffchain.PublicData), last: &merkletree.Hash{}})
	m[*id] = iden
	if !present {
		delete(m, *id)
	}
	ip := &IdenPubOffChain{idens: m, url: url}
	v.Guarded(&ip.rw, "published data", m, iden, datas)
	return ip, iden
}

//verif:contract prop=C28,C29 target=IdenPubOffChain.GetPublicData
func vc_GetPublicData(url, url2 string, id *core.ID, st, last *merkletree.Hash, d, dl *idenpuboffchain.PublicData, present, held, latest bool) {
	ip, _ := specStore(url, id, st, last, d, dl, present, held)
	q := st
	if latest {
		q = nil
	}
	r, err := ip.GetPublicData(url2, id, q)
	v.Ensures("answered exactly when published", (err == nil) == (url == url2 && present && (latest || held)))
	if err == nil && latest {
		v.Ensures("the data published last", r == dl)
		v.Cover("latest")
	}
	if err == nil && !latest {
		v.Ensures("the data of that state", r == d)
		v.Cover("a state")
	}
}

//verif:contract prop=C28,C29 target=IdenPubOffChain.Publish
func vc_Publish(url string, id, id2 *core.ID, st, last *merkletree.Hash, d, dl, p *idenpuboffchain.PublicData, present, held bool) {
	ip, iden := specStore(url, id, st, last, d, dl, present, held)
	v.Modifies(ip.idens, iden, iden.datas)
	err := ip.Publish(id2, p)
	v.Ensures("always stored", err == nil)
	now, ok := ip.idens[*id2]
	v.Ensures("under its identity", ok)
	x, okx := now.datas[*p.IdenState]
	v.Ensures("under its state, as the last", okx && x == p && *now.last == *p.IdenState)
	if *id2 != *id {
		o, oko := ip.idens[*id]
		v.Ensures("another identity is not touched", oko == present && (!oko || o == iden && o.last == last))
	}
	y, held2 := iden.datas[*st]
	v.Ensures("other data stays", present && *id2 == *id && *st == *p.IdenState || held2 == held && (!held || y == d))
	v.Ensures("an identity keeps its data", !present || *id2 != *id || now == iden)
	v.Cover("published")
}
