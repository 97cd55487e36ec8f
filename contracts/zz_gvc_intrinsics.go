package urn

// Interpreted by the verifier; see /verif/gvc/lemma.go.

func gvcBytes(name string) []byte                         { return nil }
func gvcString(name string) string                        { return "" }
func gvcInt(name string) int                              { return 0 }
func gvcBool(name string) bool                            { return false }
func gvcRequire(c bool)                                   {}
func gvcEnsure(label string, c bool)                      {}
func gvcEqual(label string, a, b string)                  {}
func gvcSpec(mode string)                                 {}
func gvcAccepts(mode string, in []byte) bool              { return false }
func gvcPiece(mode string, in []byte, a, b string) string { return "" }
func gvcHas(mode string, in []byte, tag string) bool      { return false }
func gvcErr(mode string, in []byte) string                { return "" }
func gvcLower(s string) string                            { return s }
func gvcNorm(s string) string                             { return s }
func gvcSame(a, b string) bool                            { return a == b }
func gvcProtect()                                         {}
func gvcUnprotect()                                       {}
func gvcAllow(v any)                                      {}
func gvcFresh(label string, v any)                        {}
func gvcWatch(v any)                                      {}
func gvcSetKind(u *URN, kind int)                         {}
func gvcStore(u *URN, norm string)                        {}
func gvcStored(u *URN) string                             { return "" }
func gvcSetView(u *URN, s *SCIM)                          {}
func gvcHeldView(u *URN) *SCIM                            { return nil }
