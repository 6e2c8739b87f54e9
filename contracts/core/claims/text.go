package claims

import (
	v "github.com/iden3/go-iden3-core/zzverif"
)

//verif:contract prop=C09
func vc_ClaimTypeText(ct ClaimType) {
	t, err := ct.MarshalText()
	v.Ensures("marshalling succeeds", err == nil)
	var r ClaimType
	v.Any(&r, "previous")
	err = r.UnmarshalText(t)
	v.Ensures("text decodes to the same claim type", err == nil && r == ct)
}

//verif:contract prop=C09 target=ClaimType.UnmarshalText
func vc_ClaimTypeUnmarshal(ct *ClaimType, t []byte) {
	v.Modifies(ct)
	err := ct.UnmarshalText(t)
	v.Ensures("text without a known prefix is refused", err != nil || (len(t) >= 4 && t[3] == ':'))
}

//verif:contract prop=C09
func vc_ClaimSubjectText(cs ClaimSubject) {
	t, err := cs.MarshalText()
	if err != nil {
		return
	}
	var r ClaimSubject
	v.Any(&r, "previous")
	err = r.UnmarshalText(t)
	v.Ensures("text decodes to the same subject kind", err == nil && r == cs)
}

//verif:contract prop=C09
func vc_ClaimSubjectPosText(cs ClaimSubjectPos) {
	t, err := cs.MarshalText()
	if err != nil {
		return
	}
	var r ClaimSubjectPos
	v.Any(&r, "previous")
	err = r.UnmarshalText(t)
	v.Ensures("text decodes to the same subject position", err == nil && r == cs)
}
