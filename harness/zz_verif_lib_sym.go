package xbnf

// Intrinsics of the symbolic executor. The bodies below are never run: the executor gives these
// functions their meaning (see /verif/symex/intrin.go); a native replay uses the other version of
// this file, /verif/native/zz_verif_lib_native.go.

func vInt(lo, hi int) int                      { panic("v") }
func vChoose(n int) int                        { panic("v") }
func vBool() bool                              { panic("v") }
func vRune() rune                              { panic("v") }
func vRunes(n int) []rune                      { panic("v") }
func vAssume(c bool)                           { panic("v") }
func vAssert(c bool, msg string)               { panic("v") }
func vReach(label string)                      { panic("v") }
func vObserve(label string, xs ...interface{}) { panic("v") }
func vAnd(a, b bool) bool                      { panic("v") }
func vOr(a, b bool) bool                       { panic("v") }
func vNot(a bool) bool                         { panic("v") }
func vIf(c bool, a, b int) int                 { panic("v") }
func vConcrete(a int) int                      { panic("v") }
func vMapOrder(on bool)                        { panic("v") }
func vFreeze(what string, xs ...interface{})   { panic("v") }
func vShares(a, b interface{}) bool            { panic("v") }
func vParam(name string, def int) int          { panic("v") }
func vFile(content string) string              { panic("v") }
func vRepo(name string) string                 { panic("v") }
func vRunMain(args ...string) (string, int)    { panic("v") }
func vPar(fs ...func())                        { panic("v") }
