package urn

import (
	"encoding/json"

	scimschema "github.com/leodido/go-urn/scim/schema"
)

// Each function below is a proof obligation of the property in its name: the verifier checks it
// for every value the gvc* generators can give, calling the code of the package through its
// contracts. The same functions, compiled, replay counterexamples on the running code.

// ---- arbitrary values

// gvcURN is any URN there can be: from the parser or built by hand.
func gvcURN(name string) *URN {
	u := &URN{
		prefix:     gvcString(name + ".prefix"),
		ID:         gvcString(name + ".ID"),
		SS:         gvcString(name + ".SS"),
		rComponent: gvcString(name + ".r"),
		qComponent: gvcString(name + ".q"),
		fComponent: gvcString(name + ".f"),
	}
	gvcSetKind(u, gvcInt(name+".kind"))
	if gvcBool(name + ".parsed") {
		gvcStore(u, gvcNorm(u.SS)) // what the parser may store: see C07
	}
	gvcWatch(u)
	return u
}

// gvcURNView is gvcURN, possibly with a SCIM view.
func gvcURNView(name string) *URN {
	u := gvcURN(name)
	if gvcBool(name + ".view") {
		gvcSetView(u, gvcSCIM(name+".scim"))
	}
	return u
}

func gvcSCIM(name string) *SCIM {
	return &SCIM{Type: scimschema.Type(gvcInt(name + ".Type")), Name: gvcString(name + ".Name"), Other: gvcString(name + ".Other")}
}

// gvcMachine is a machine in the given mode, as new or used before; it says which.
func gvcMachine(mode ParsingMode) (Machine, bool) {
	m := NewMachine(WithParsingMode(mode))
	if mode == RFC2141Only {
		m = NewMachine()
	}
	used := gvcBool("used")
	if used {
		_, _ = m.Parse(gvcBytes("before"))
	}
	return m, used
}

// ---- C01, C02, C03: the language of each mode

func gvcLemmaC01_Machine() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	m, _ := gvcMachine(RFC2141Only)
	_, err := m.Parse(in)
	gvcEnsure("accepts", (err == nil) == gvcAccepts("RFC2141Only", in))
}

func gvcLemmaC01_Parse() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	_, ok := Parse(in)
	gvcEnsure("accepts", ok == gvcAccepts("RFC2141Only", in))
}

func gvcLemmaC01_Option() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	_, ok := Parse(in, WithParsingMode(RFC2141Only))
	gvcEnsure("accepts", ok == gvcAccepts("RFC2141Only", in))
}

func gvcLemmaC02_Machine() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	if gvcBool("package") {
		_, ok := Parse(in, WithParsingMode(RFC8141Only))
		gvcEnsure("accepts", ok == gvcAccepts("RFC8141Only", in))
		return
	}
	m, _ := gvcMachine(RFC8141Only)
	_, err := m.Parse(in)
	gvcEnsure("accepts", (err == nil) == gvcAccepts("RFC8141Only", in))
}

func gvcLemmaC03_Machine() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	if gvcBool("package") {
		_, ok := Parse(in, WithParsingMode(RFC7643Only))
		gvcEnsure("accepts", ok == gvcAccepts("RFC7643Only", in))
		return
	}
	m, _ := gvcMachine(RFC7643Only)
	_, err := m.Parse(in)
	gvcEnsure("accepts", (err == nil) == gvcAccepts("RFC7643Only", in))
}

// ---- C04: the pieces of a parsed URN

func gvcPieces(u *URN, mode string, in []byte) {
	gvcEnsure("urn", u != nil)
	gvcEqual("prefix", u.prefix, gvcPiece(mode, in, "pre0", "pre1"))
	gvcEqual("identifier", u.ID, gvcPiece(mode, in, "id0", "id1"))
	gvcEqual("specific string", u.SS, gvcPiece(mode, in, "ss0", "ss1"))
	gvcEqual("r-component", u.RComponent(), gvcPiece(mode, in, "r0", "r1"))
	gvcEqual("q-component", u.QComponent(), gvcPiece(mode, in, "q0", "q1"))
	gvcEqual("f-component", u.FComponent(), gvcPiece(mode, in, "f0", "f1"))
	all := u.prefix + ":" + u.ID + ":" + u.SS
	if gvcHas(mode, in, "r0") {
		all += "?+" + u.rComponent
	}
	if gvcHas(mode, in, "q0") {
		all += "?=" + u.qComponent
	}
	if gvcHas(mode, in, "f0") {
		all += "#" + u.fComponent
	}
	gvcEqual("whole input", all, string(in))
}

func gvcLemmaC04_2141() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	m, _ := gvcMachine(RFC2141Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	gvcPieces(u, "RFC2141Only", in)
	gvcEnsure("RFC", u.RFC() == RFC2141)
}

func gvcLemmaC04_7643() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	m, _ := gvcMachine(RFC7643Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	gvcPieces(u, "RFC7643Only", in)
	gvcEnsure("RFC", u.RFC() == RFC7643)
}

func gvcLemmaC04_8141() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	m, _ := gvcMachine(RFC8141Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	gvcPieces(u, "RFC8141Only", in)
	gvcEnsure("RFC", u.RFC() == RFC8141)
}

// ---- C05: the string form

// gvcSameURN says that the two URNs cannot be told apart.
func gvcSameURN(u, v *URN) {
	gvcEnsure("urn", v != nil)
	gvcEqual("same prefix", v.prefix, u.prefix)
	gvcEqual("same identifier", v.ID, u.ID)
	gvcEqual("same specific string", v.SS, u.SS)
	gvcEqual("same r-component", v.RComponent(), u.RComponent())
	gvcEqual("same q-component", v.QComponent(), u.QComponent())
	gvcEqual("same f-component", v.FComponent(), u.FComponent())
	gvcEnsure("same RFC", v.RFC() == u.RFC())
	gvcEnsure("same SCIM", v.IsSCIM() == u.IsSCIM())
	gvcSameView(u.SCIM(), v.SCIM())
	gvcEqual("same string", v.String(), u.String())
	m, n := u.Normalize(), v.Normalize()
	gvcEqual("same normal identifier", n.ID, m.ID)
	gvcEqual("same normal specific string", n.SS, m.SS)
}

func gvcSameView(a, b *SCIM) {
	gvcEnsure("same view", (a == nil) == (b == nil))
	if a != nil && b != nil {
		gvcEnsure("same type", a.Type == b.Type)
		gvcEqual("same name", b.Name, a.Name)
		gvcEqual("same other", b.Other, a.Other)
		gvcEqual("same view string", b.String(), a.String())
	}
}

func gvcString1(mode string, in []byte, u *URN) string {
	want := string(in)
	if gvcHas(mode, in, "f0") && u.fComponent == "" {
		want = want[:len(want)-1]
	}
	s := u.String()
	gvcEqual("string", s, want)
	return s
}

func gvcString5(mode string, in []byte, u *URN, m Machine) {
	s := gvcString1(mode, in, u)
	v, err := m.Parse([]byte(s))
	gvcEnsure("parses again", err == nil)
	gvcSameURN(u, v)
}

func gvcLemmaC05_2141() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	m, used := gvcMachine(RFC2141Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	if used {
		gvcString1("RFC2141Only", in, u)
		return
	}
	gvcString5("RFC2141Only", in, u, NewMachine())
}

func gvcLemmaC05_7643() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	m, used := gvcMachine(RFC7643Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	if used {
		gvcString1("RFC7643Only", in, u)
		return
	}
	gvcString5("RFC7643Only", in, u, NewMachine(WithParsingMode(RFC7643Only)))
}

func gvcLemmaC05_8141() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	m, used := gvcMachine(RFC8141Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	if used {
		gvcString1("RFC8141Only", in, u)
		return
	}
	gvcString5("RFC8141Only", in, u, NewMachine(WithParsingMode(RFC8141Only)))
}

func gvcLemmaC05_Built() {
	u := &URN{ID: gvcString("ID"), SS: gvcString("SS")}
	s := u.String()
	if u.ID == "" || u.SS == "" {
		gvcEqual("empty", s, "")
	} else {
		gvcEqual("string", s, "urn:"+u.ID+":"+u.SS)
	}
}

// ---- C06: normalization

func gvcNormal(u *URN) *URN {
	id, ss := u.ID, u.SS
	n := u.Normalize()
	gvcEnsure("urn", n != nil)
	gvcEqual("prefix", n.prefix, "urn")
	gvcEqual("identifier", n.ID, gvcLower(id))
	gvcEqual("specific string", n.SS, gvcNorm(ss))
	gvcEqual("r-component", n.RComponent(), "")
	gvcEqual("q-component", n.QComponent(), "")
	gvcEqual("f-component", n.FComponent(), "")
	if id != "" && gvcNorm(ss) != "" {
		gvcEqual("string", n.String(), "urn:"+gvcLower(id)+":"+gvcNorm(ss))
	}
	return n
}

func gvcNormal6(u *URN, m Machine) {
	gvcProtect()
	n := gvcNormal(u)
	gvcEnsure("equivalent", u.Equal(n))
	gvcEnsure("equivalent", n.Equal(u))
	k := n.Normalize()
	gvcEqual("idempotent", k.String(), n.String())
	gvcEqual("idempotent identifier", k.ID, n.ID)
	gvcEqual("idempotent specific string", k.SS, n.SS)
	gvcUnprotect()
	v, err := m.Parse([]byte(n.String()))
	gvcEnsure("parses", err == nil)
	gvcEnsure("urn", v != nil)
	gvcEqual("parsed identifier", v.ID, n.ID)
	gvcEqual("parsed specific string", v.SS, n.SS)
	gvcEqual("parsed string", v.String(), n.String())
	gvcEnsure("parsed equal", v.Equal(u))
}

func gvcLemmaC06_2141() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	m, used := gvcMachine(RFC2141Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	if used {
		gvcStoredForm(u) // see gvcLemmaC06_Any for what follows
		return
	}
	gvcNormal6(u, NewMachine())
}

func gvcLemmaC06_7643() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	m, used := gvcMachine(RFC7643Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	if used {
		gvcStoredForm(u) // see gvcLemmaC06_Any for what follows
		return
	}
	gvcNormal6(u, NewMachine(WithParsingMode(RFC7643Only)))
}

func gvcLemmaC06_8141() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	m, used := gvcMachine(RFC8141Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	if used {
		gvcStoredForm(u) // see gvcLemmaC06_Any for what follows
		return
	}
	gvcNormal6(u, NewMachine(WithParsingMode(RFC8141Only)))
}

func gvcLemmaC06_Any() {
	u := gvcURN("u")
	gvcProtect()
	n := gvcNormal(u)
	gvcEnsure("equivalent", u.Equal(n))
	gvcEnsure("equivalent", n.Equal(u))
	k := n.Normalize()
	gvcEqual("idempotent", k.String(), n.String())
	gvcEqual("idempotent identifier", k.ID, n.ID)
	gvcEqual("idempotent specific string", k.SS, n.SS)
}

// ---- C07: lexical equivalence

func gvcEquivalent(u, x *URN) bool {
	return gvcSame(gvcLower(u.ID), gvcLower(x.ID)) && gvcSame(gvcNorm(u.SS), gvcNorm(x.SS))
}

func gvcLemmaC07_Equal() {
	u, x := gvcURN("u"), gvcURN("x")
	gvcProtect()
	gvcEnsure("characterised", u.Equal(x) == gvcEquivalent(u, x))
	gvcEnsure("nil", !u.Equal(nil))
	gvcEnsure("reflexive", u.Equal(u))
	gvcEnsure("symmetric", u.Equal(x) == x.Equal(u))
}

func gvcLemmaC07_Transitive() {
	u, x, y := gvcURN2("u"), gvcURN2("x"), gvcURN2("y")
	if u.Equal(x) && x.Equal(y) {
		gvcEnsure("transitive", u.Equal(y))
	}
}

// gvcURN2 leaves out what gvcLemmaC07_Equal shows to be irrelevant.
func gvcURN2(name string) *URN {
	return &URN{ID: gvcString(name + ".ID"), SS: gvcString(name + ".SS")}
}

// gvcStoredForm: where the parser stores something for Normalize it is the normal form.
func gvcStoredForm(u *URN) {
	gvcEnsure("stored", gvcStored(u) == "" || gvcSame(gvcStored(u), gvcNorm(u.SS)))
}

// what the parser stores for Normalize is the normal form
func gvcLemmaC07_2141() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	m, _ := gvcMachine(RFC2141Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	gvcStoredForm(u)
	gvcEnsure("specific string", u.SS != "")
	gvcEnsure("reflexive", u.Equal(u))
}

func gvcLemmaC07_7643() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	m, _ := gvcMachine(RFC7643Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	gvcStoredForm(u)
	gvcEnsure("specific string", u.SS != "")
	gvcEnsure("reflexive", u.Equal(u))
}

func gvcLemmaC07_8141() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	m, _ := gvcMachine(RFC8141Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	gvcStoredForm(u)
	gvcEnsure("specific string", u.SS != "")
	gvcEnsure("reflexive", u.Equal(u))
}

// ---- C08: safety

func gvcUse(u *URN) {
	_ = u.String()
	n := u.Normalize()
	_ = n.String()
	_ = u.Equal(n)
	_ = u.Equal(nil)
	_ = u.RFC()
	_ = u.RComponent()
	_ = u.QComponent()
	_ = u.FComponent()
	_ = u.IsSCIM()
	_, _ = u.MarshalJSON()
	_, _ = URN8141{u}.MarshalJSON()
	if s := u.SCIM(); s != nil {
		_ = s.String()
		_, _ = s.MarshalJSON()
	}
}

func gvcLemmaC08_2141() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	m, used := gvcMachine(RFC2141Only)
	u, err := m.Parse(in)
	_ = m.Error()
	if used {
		return
	}
	if err == nil {
		gvcUse(u)
	} else {
		_ = err.Error()
	}
	_, _ = Parse(in)
}

func gvcLemmaC08_7643() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	m, used := gvcMachine(RFC7643Only)
	u, err := m.Parse(in)
	_ = m.Error()
	if used {
		return
	}
	if err == nil {
		gvcUse(u)
		_ = u.SCIM().String()
	} else {
		_ = err.Error()
	}
}

func gvcLemmaC08_8141() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	m, used := gvcMachine(RFC8141Only)
	u, err := m.Parse(in)
	_ = m.Error()
	if used {
		return
	}
	if err == nil {
		gvcUse(u)
	} else {
		_ = err.Error()
	}
}

// gvcOp is one operation on any URN.
func gvcOp(u, x *URN) {
	switch gvcInt("op") {
	case 0:
		_ = u.String()
	case 1:
		gvcFresh("own", u.Normalize())
	case 2:
		n := u.Normalize()
		_ = n.String()
		_ = u.Equal(n)
	case 3:
		_ = u.Equal(x)
	case 4:
		_ = x.Equal(u)
	case 5:
		_ = u.Equal(nil)
	case 6:
		_ = u.RFC()
		_ = u.RComponent()
		_ = u.QComponent()
		_ = u.FComponent()
		_ = u.IsSCIM()
	case 7:
		_, _ = u.MarshalJSON()
	case 8:
		_, _ = URN8141{u}.MarshalJSON()
	case 9:
		_ = URN8141{u}.String()
		_ = URN8141{u}.Equal(x)
	case 10:
		if s := u.SCIM(); s != nil {
			_ = s.String()
		}
	case 11:
		if s := u.SCIM(); s != nil {
			_, _ = s.MarshalJSON()
		}
	}
}

func gvcLemmaC08_Any() {
	u, x := gvcURNView("u"), gvcURN2("x")
	gvcOp(u, x)
}

func gvcLemmaC08_Zero() {
	var u URN
	gvcUse(&u)
	var x URN8141
	_ = x.String()
	_, _ = x.MarshalJSON()
	var s SCIM
	_ = s.String()
	_, _ = s.MarshalJSON()
	t := gvcSCIM("s")
	_ = t.String()
	_, _ = t.MarshalJSON()
	_ = scimschema.Type(gvcInt("t")).String()
	_ = scimschema.TypeFromString(gvcString("type"))
}

func gvcLemmaC08_JSON2141() {
	gvcSpec("RFC2141Only")
	b := gvcBytes("json")
	var u URN
	_ = u.UnmarshalJSON(b)
}

func gvcLemmaC08_JSON7643() {
	gvcSpec("RFC7643Only")
	b := gvcBytes("json")
	var s SCIM
	_ = s.UnmarshalJSON(b)
}

func gvcLemmaC08_JSON8141() {
	gvcSpec("RFC8141Only")
	b := gvcBytes("json")
	var u URN8141
	_ = u.UnmarshalJSON(b)
}

// ---- C09: the input is neither written nor kept

func gvcInput9(m Machine, in, in2 []byte) {
	gvcProtect()
	gvcAllow(m)
	u, err := m.Parse(in)
	if err == nil {
		gvcFresh("copied", u)
	}
	gvcProtect()
	gvcAllow(m)
	_, _ = m.Parse(in2)
}

func gvcLemmaC09_2141() {
	in, in2 := gvcBytes("in"), gvcBytes("in2")
	gvcSpec("RFC2141Only")
	gvcInput9(NewMachine(), in, in2)
}

func gvcLemmaC09_7643() {
	in, in2 := gvcBytes("in"), gvcBytes("in2")
	gvcSpec("RFC7643Only")
	gvcInput9(NewMachine(WithParsingMode(RFC7643Only)), in, in2)
}

func gvcLemmaC09_8141() {
	in, in2 := gvcBytes("in"), gvcBytes("in2")
	gvcSpec("RFC8141Only")
	gvcInput9(NewMachine(WithParsingMode(RFC8141Only)), in, in2)
}

func gvcLemmaC09_Operands() {
	u, x := gvcURNView("u"), gvcURN2("x")
	gvcProtect()
	gvcOp(u, x)
}

// ---- C10: exactly one of a URN and an error

func gvcOne(m Machine, in []byte) {
	u, err := m.Parse(in)
	gvcEnsure("exactly one", (u == nil) != (err == nil))
	gvcEnsure("same error", m.Error() == err)
	if err != nil {
		gvcEnsure("message", err.Error() != "")
	}
	gvcEnsure("same error", m.Error() == err)
}

func gvcLemmaC10_2141() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	if gvcBool("package") {
		_, err := NewMachine().Parse(in)
		u, ok := Parse(in)
		gvcEnsure("package Parse", ok == (err == nil) && ok == (u != nil))
		return
	}
	m, _ := gvcMachine(RFC2141Only)
	gvcOne(m, in)
}

func gvcLemmaC10_7643() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	if gvcBool("package") {
		_, err := NewMachine(WithParsingMode(RFC7643Only)).Parse(in)
		u, ok := Parse(in, WithParsingMode(RFC7643Only))
		gvcEnsure("package Parse", ok == (err == nil) && ok == (u != nil))
		return
	}
	m, _ := gvcMachine(RFC7643Only)
	gvcOne(m, in)
}

func gvcLemmaC10_8141() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	if gvcBool("package") {
		_, err := NewMachine(WithParsingMode(RFC8141Only)).Parse(in)
		u, ok := Parse(in, WithParsingMode(RFC8141Only))
		gvcEnsure("package Parse", ok == (err == nil) && ok == (u != nil))
		return
	}
	m, _ := gvcMachine(RFC8141Only)
	gvcOne(m, in)
}

// ---- C11: errors

func gvcLemmaC11_2141() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	m, _ := gvcMachine(RFC2141Only)
	_, err := m.Parse(in)
	if err != nil {
		gvcEqual("error", err.Error(), gvcErr("RFC2141Only", in))
	}
}

func gvcLemmaC11_7643() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	m, _ := gvcMachine(RFC7643Only)
	_, err := m.Parse(in)
	if err != nil {
		gvcEqual("error", err.Error(), gvcErr("RFC7643Only", in))
	}
}

func gvcLemmaC11_8141() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	m, _ := gvcMachine(RFC8141Only)
	_, err := m.Parse(in)
	if err != nil {
		gvcEqual("error", err.Error(), gvcErr("RFC8141Only", in))
	}
}

// ---- C12: reuse

// gvcAsSpecified compares a result with what the mode prescribes.
func gvcAsSpecified(mode string, kind Kind, in []byte, u *URN, err error) {
	gvcEnsure("accepts", (err == nil) == gvcAccepts(mode, in))
	if err == nil {
		gvcPieces(u, mode, in)
		gvcStoredForm(u)
		gvcEnsure("RFC", u.RFC() == kind)
		gvcEnsure("view", (u.SCIM() != nil) == (kind == RFC7643))
	} else {
		gvcEqual("error", err.Error(), gvcErr(mode, in))
	}
}

func gvcLemmaC12_2141() {
	in, before := gvcBytes("in"), gvcBytes("before")
	gvcSpec("RFC2141Only")
	m := NewMachine()
	_, _ = m.Parse(before)
	u, err := m.Parse(in)
	gvcAsSpecified("RFC2141Only", RFC2141, in, u, err)
}

func gvcLemmaC12_7643() {
	in, before := gvcBytes("in"), gvcBytes("before")
	gvcSpec("RFC7643Only")
	m := NewMachine(WithParsingMode(RFC7643Only))
	_, _ = m.Parse(before)
	u, err := m.Parse(in)
	gvcAsSpecified("RFC7643Only", RFC7643, in, u, err)
}

func gvcLemmaC12_8141() {
	in, before := gvcBytes("in"), gvcBytes("before")
	gvcSpec("RFC8141Only")
	m := NewMachine(WithParsingMode(RFC8141Only))
	_, _ = m.Parse(before)
	u, err := m.Parse(in)
	gvcAsSpecified("RFC8141Only", RFC8141, in, u, err)
}

// whatever the mode was before
func gvcLemmaC12_Switch2141() {
	in, before := gvcBytes("in"), gvcBytes("before")
	m := NewMachine()
	if gvcBool("option") {
		m = NewMachine(WithParsingMode(RFC8141Only))
	}
	if gvcBool("parse") {
		gvcSpec("RFC7643Only")
		m.WithParsingMode(RFC7643Only)
		_, _ = m.Parse(before)
	}
	m.WithParsingMode(RFC2141Only)
	gvcSpec("RFC2141Only")
	u, err := m.Parse(in)
	gvcAsSpecified("RFC2141Only", RFC2141, in, u, err)
}

func gvcLemmaC12_Switch7643() {
	in, before := gvcBytes("in"), gvcBytes("before")
	m := NewMachine()
	if gvcBool("option") {
		m = NewMachine(WithParsingMode(RFC8141Only))
	}
	if gvcBool("parse") {
		gvcSpec("RFC2141Only")
		m.WithParsingMode(RFC2141Only)
		_, _ = m.Parse(before)
	}
	m.WithParsingMode(RFC7643Only)
	gvcSpec("RFC7643Only")
	u, err := m.Parse(in)
	gvcAsSpecified("RFC7643Only", RFC7643, in, u, err)
}

func gvcLemmaC12_Switch8141() {
	in, before := gvcBytes("in"), gvcBytes("before")
	m := NewMachine()
	if gvcBool("option") {
		m = NewMachine(WithParsingMode(RFC7643Only))
	}
	if gvcBool("parse") {
		gvcSpec("RFC2141Only")
		m.WithParsingMode(RFC2141Only)
		_, _ = m.Parse(before)
	}
	m.WithParsingMode(RFC8141Only)
	gvcSpec("RFC8141Only")
	u, err := m.Parse(in)
	gvcAsSpecified("RFC8141Only", RFC8141, in, u, err)
}

// two options: the last one counts
func gvcLemmaC12_Options() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	u, err := NewMachine(WithParsingMode(RFC8141Only), WithParsingMode(RFC7643Only)).Parse(in)
	gvcAsSpecified("RFC7643Only", RFC7643, in, u, err)
}

// Default and any mode there is no constant for
func gvcLemmaC12_Unknown() {
	in := gvcBytes("in")
	k := gvcInt("mode")
	gvcRequire(k != int(RFC2141Only) && k != int(RFC7643Only) && k != int(RFC8141Only))
	gvcSpec("RFC2141Only")
	u, err := NewMachine(WithParsingMode(ParsingMode(k))).Parse(in)
	gvcAsSpecified("RFC2141Only", RFC2141, in, u, err)
}

func gvcLemmaC12_Default() {
	in, before := gvcBytes("in"), gvcBytes("before")
	k := gvcInt("mode")
	gvcRequire(k != int(RFC2141Only) && k != int(RFC7643Only) && k != int(RFC8141Only))
	gvcSpec("RFC7643Only")
	m := NewMachine(WithParsingMode(RFC7643Only))
	_, _ = m.Parse(before)
	m.WithParsingMode(ParsingMode(k))
	gvcSpec("RFC2141Only")
	u, err := m.Parse(in)
	gvcAsSpecified("RFC2141Only", RFC2141, in, u, err)
}

// a URN returned earlier is not affected
func gvcLemmaC12_Kept2141() {
	in, in2 := gvcBytes("in"), gvcBytes("in2")
	gvcSpec("RFC2141Only")
	m := NewMachine()
	u, _ := m.Parse(in)
	gvcWatch(u)
	gvcProtect()
	gvcAllow(m)
	m.WithParsingMode(RFC2141Only)
	_, _ = m.Parse(in2)
}

func gvcLemmaC12_Kept7643() {
	in, in2 := gvcBytes("in"), gvcBytes("in2")
	gvcSpec("RFC7643Only")
	m := NewMachine(WithParsingMode(RFC7643Only))
	u, _ := m.Parse(in)
	gvcWatch(u)
	gvcProtect()
	gvcAllow(m)
	gvcSpec("RFC2141Only")
	m.WithParsingMode(RFC2141Only)
	_, _ = m.Parse(in2)
}

func gvcLemmaC12_Kept8141() {
	in, in2 := gvcBytes("in"), gvcBytes("in2")
	gvcSpec("RFC2141Only")
	m := NewMachine()
	u, _ := m.Parse(in)
	gvcWatch(u)
	gvcProtect()
	gvcAllow(m)
	gvcSpec("RFC8141Only")
	m.WithParsingMode(RFC8141Only)
	_, _ = m.Parse(in2)
}

// ---- C13: JSON

func gvcLemmaC13_2141() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	u, err := NewMachine().Parse(in)
	if err != nil {
		return
	}
	b, err := u.MarshalJSON()
	gvcEnsure("encodes", err == nil)
	want, _ := json.Marshal(u.String())
	gvcEqual("encoding", string(b), string(want))
	var v URN
	err = v.UnmarshalJSON(b)
	gvcEnsure("decodes", err == nil)
	gvcEnsure("equal", v.Equal(u))
	gvcEqual("string", v.String(), u.String())
}

func gvcLemmaC13_7643() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	u, err := NewMachine(WithParsingMode(RFC7643Only)).Parse(in)
	if err != nil {
		return
	}
	s := u.SCIM()
	b, err := s.MarshalJSON()
	gvcEnsure("encodes", err == nil)
	want, _ := json.Marshal(s.String())
	gvcEqual("encoding", string(b), string(want))
	var v SCIM
	err = v.UnmarshalJSON(b)
	gvcEnsure("decodes", err == nil)
	gvcSameView(s, &v)
}

func gvcLemmaC13_8141() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	u, err := NewMachine(WithParsingMode(RFC8141Only)).Parse(in)
	if err != nil {
		return
	}
	b, err := URN8141{u}.MarshalJSON()
	gvcEnsure("encodes", err == nil)
	want, _ := json.Marshal(u.String())
	gvcEqual("encoding", string(b), string(want))
	var v URN8141
	err = v.UnmarshalJSON(b)
	gvcEnsure("decodes", err == nil)
	gvcEnsure("equal", v.Equal(u))
	gvcEqual("string", v.String(), u.String())
}

func gvcLemmaC13_Decode2141() {
	gvcSpec("RFC2141Only")
	b := gvcBytes("json")
	var str string
	bad := json.Unmarshal(b, &str)
	u := gvcURNView("u")
	old := *u
	err := u.UnmarshalJSON(b)
	gvcEnsure("decodes", (err == nil) == (bad == nil && gvcAccepts("RFC2141Only", []byte(str))))
	if err != nil {
		gvcEnsure("message", err.Error() != "")
		gvcUnchanged(u, &old)
	} else {
		gvcPieces(u, "RFC2141Only", []byte(str))
	}
}

func gvcUnchanged(u, old *URN) {
	gvcEqual("unchanged prefix", u.prefix, old.prefix)
	gvcEqual("unchanged identifier", u.ID, old.ID)
	gvcEqual("unchanged specific string", u.SS, old.SS)
	gvcEqual("unchanged normal form", gvcStored(u), gvcStored(old))
	gvcEqual("unchanged r-component", u.rComponent, old.rComponent)
	gvcEqual("unchanged q-component", u.qComponent, old.qComponent)
	gvcEqual("unchanged f-component", u.fComponent, old.fComponent)
	gvcEnsure("unchanged kind", u.RFC() == old.RFC())
	gvcEnsure("unchanged view", gvcHeldView(u) == gvcHeldView(old))
}

func gvcLemmaC13_Decode7643() {
	gvcSpec("RFC7643Only")
	b := gvcBytes("json")
	var str string
	bad := json.Unmarshal(b, &str)
	s := gvcSCIM("s")
	old := *s
	err := s.UnmarshalJSON(b)
	gvcEnsure("decodes", (err == nil) == (bad == nil && gvcAccepts("RFC7643Only", []byte(str))))
	if err != nil {
		gvcEnsure("message", err.Error() != "")
		gvcEnsure("unchanged type", s.Type == old.Type)
		gvcEqual("unchanged name", s.Name, old.Name)
		gvcEqual("unchanged other", s.Other, old.Other)
	} else {
		gvcView(s, "RFC7643Only", []byte(str))
	}
}

func gvcLemmaC13_Decode8141() {
	gvcSpec("RFC8141Only")
	b := gvcBytes("json")
	var str string
	bad := json.Unmarshal(b, &str)
	in := gvcURN("u")
	old := *in
	u := URN8141{in}
	err := u.UnmarshalJSON(b)
	gvcEnsure("decodes", (err == nil) == (bad == nil && gvcAccepts("RFC8141Only", []byte(str))))
	if err != nil {
		gvcEnsure("message", err.Error() != "")
		gvcEnsure("unchanged", u.URN == in)
		gvcUnchanged(in, &old)
	} else {
		gvcPieces(u.URN, "RFC8141Only", []byte(str))
	}
}

// ---- C14: the SCIM view

func gvcView(s *SCIM, mode string, in []byte) {
	gvcEnsure("view", s != nil)
	gvcEqual("type", s.Type.String(), gvcPiece(mode, in, "ss0", "ty"))
	gvcEqual("name", s.Name, gvcPiece(mode, in, "nm0", "nm1"))
	gvcEqual("other", s.Other, gvcPiece(mode, in, "ot0", "ot1"))
}

func gvcLemmaC14_View() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	m, _ := gvcMachine(RFC7643Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	gvcEnsure("is SCIM", u.IsSCIM() && u.RFC() == RFC7643)
	s := u.SCIM()
	gvcView(s, "RFC7643Only", in)
	ss := s.Type.String() + ":" + s.Name
	if s.Other != "" {
		ss += ":" + s.Other
	}
	gvcEqual("specific string", ss, u.SS)
	gvcEqual("string", s.String(), "urn:"+u.ID+":"+u.SS)
	gvcEnsure("type value", s.Type == scimschema.TypeFromString(s.Type.String()))
}

func gvcLemmaC14_Again() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	u, err := NewMachine(WithParsingMode(RFC7643Only)).Parse(in)
	if err != nil {
		return
	}
	s := u.SCIM()
	v, err := NewMachine(WithParsingMode(RFC7643Only)).Parse([]byte(s.String()))
	gvcEnsure("parses", err == nil)
	gvcEnsure("urn", v != nil)
	gvcEnsure("view", v.SCIM() != nil)
	gvcSameView(s, v.SCIM())
}

func gvcLemmaC14_Other2141() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	m, _ := gvcMachine(RFC2141Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	gvcEnsure("not SCIM", !u.IsSCIM() && u.SCIM() == nil && u.RFC() != RFC7643)
}

func gvcLemmaC14_Other8141() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	m, _ := gvcMachine(RFC8141Only)
	u, err := m.Parse(in)
	if err != nil {
		return
	}
	gvcEnsure("not SCIM", !u.IsSCIM() && u.SCIM() == nil && u.RFC() != RFC7643)
}

func gvcLemmaC14_Built() {
	u := &URN{ID: gvcString("ID"), SS: gvcString("SS")}
	gvcEnsure("not SCIM", !u.IsSCIM() && u.SCIM() == nil)
	n := u.Normalize()
	gvcEnsure("not SCIM", !n.IsSCIM() && n.SCIM() == nil)
}

func gvcLemmaC14_Types() {
	s := gvcString("type")
	t := scimschema.TypeFromString(s)
	switch s {
	case "schemas":
		gvcEnsure("schemas", t == scimschema.Schemas)
	case "api":
		gvcEnsure("api", t == scimschema.API)
	case "param":
		gvcEnsure("param", t == scimschema.Param)
	default:
		gvcEnsure("unsupported", t == scimschema.Unsupported)
	}
	k := scimschema.Type(gvcInt("t"))
	switch k {
	case scimschema.Schemas:
		gvcEqual("name", k.String(), "schemas")
	case scimschema.API:
		gvcEqual("name", k.String(), "api")
	case scimschema.Param:
		gvcEqual("name", k.String(), "param")
	default:
		gvcEqual("name", k.String(), "")
	}
	if k.String() != "" {
		gvcEnsure("there and back", scimschema.TypeFromString(k.String()) == k)
	}
	if t != scimschema.Unsupported {
		gvcEqual("back and there", t.String(), s)
	}
}

// ---- C15: no shared mutable state

func gvcLemmaC15_2141() {
	in := gvcBytes("in")
	gvcSpec("RFC2141Only")
	gvcProtect()
	m := NewMachine()
	u, err := m.Parse(in)
	if err == nil {
		gvcFresh("own", u)
	}
	v, _ := Parse(in)
	gvcFresh("own", v)
}

func gvcLemmaC15_7643() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	gvcProtect()
	m := NewMachine(WithParsingMode(RFC7643Only))
	u, err := m.Parse(in)
	if err == nil {
		gvcFresh("own", u)
	}
	v, _ := Parse(in, WithParsingMode(RFC7643Only))
	gvcFresh("own", v)
}

func gvcLemmaC15_8141() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	gvcProtect()
	m := NewMachine(WithParsingMode(RFC8141Only))
	u, err := m.Parse(in)
	if err == nil {
		gvcFresh("own", u)
	}
	v, _ := Parse(in, WithParsingMode(RFC8141Only))
	gvcFresh("own", v)
}

func gvcLemmaC15_Read() {
	u, x := gvcURNView("u"), gvcURN("x")
	s := gvcSCIM("s")
	gvcProtect()
	if gvcBool("URN") {
		gvcOp(u, x)
		return
	}
	_ = s.String()
	_, _ = s.MarshalJSON()
	_ = s.Type.String()
	_ = scimschema.TypeFromString(gvcString("type"))
}

func gvcLemmaC15_Decode2141() {
	b := gvcBytes("json")
	gvcProtect()
	gvcSpec("RFC2141Only")
	var u URN
	if u.UnmarshalJSON(b) == nil {
		gvcFresh("own", &u)
	}
}

func gvcLemmaC15_Decode7643() {
	b := gvcBytes("json")
	gvcProtect()
	gvcSpec("RFC7643Only")
	var s SCIM
	if s.UnmarshalJSON(b) == nil {
		gvcFresh("own", &s)
	}
}

func gvcLemmaC15_Decode8141() {
	b := gvcBytes("json")
	gvcProtect()
	gvcSpec("RFC8141Only")
	var x URN8141
	if x.UnmarshalJSON(b) == nil {
		gvcFresh("own", &x)
	}
}

// ---- C16: the modes agree

func gvcLemmaC16_SCIM() {
	in := gvcBytes("in")
	gvcSpec("RFC7643Only")
	u, err := NewMachine(WithParsingMode(RFC7643Only)).Parse(in)
	if err != nil {
		return
	}
	gvcSpec("RFC2141Only")
	v, err := NewMachine().Parse(in)
	gvcEnsure("accepted", err == nil)
	gvcEnsure("urn", v != nil)
	gvcEqual("same text", v.ID+":"+v.SS, u.ID+":"+u.SS)
	gvcEqual("same string", v.String(), u.String())
	gvcEqual("same normal form", v.Normalize().String(), u.Normalize().String())
}

func gvcLemmaC16_Both() {
	in := gvcBytes("in")
	gvcSpec("RFC8141Only")
	u, err := NewMachine(WithParsingMode(RFC8141Only)).Parse(in)
	if err != nil {
		return
	}
	gvcSpec("RFC2141Only")
	v, err := NewMachine().Parse(in)
	if err != nil {
		return
	}
	gvcEqual("same prefix", v.prefix, u.prefix)
	gvcEqual("same identifier", v.ID, u.ID)
	gvcEqual("same specific string", v.SS, u.SS)
	gvcEqual("same normal form", v.Normalize().String(), u.Normalize().String())
	gvcEqual("no r-component", u.RComponent()+v.RComponent(), "")
	gvcEqual("no q-component", u.QComponent()+v.QComponent(), "")
	gvcEqual("no f-component", u.FComponent()+v.FComponent(), "")
	gvcEnsure("equal", u.Equal(v) && v.Equal(u))
}

func gvcLemmaC16_Plain() {
	in := gvcBytes("in")
	gvcSpec("Plain8141")
	if !gvcAccepts("Plain8141", in) {
		return
	}
	gvcSpec("RFC2141Only")
	_, err := NewMachine().Parse(in)
	gvcEnsure("accepted", err == nil)
	gvcSpec("RFC8141Only")
	_, err = NewMachine(WithParsingMode(RFC8141Only)).Parse(in)
	gvcEnsure("accepted", err == nil)
}
