// Package zzverif declares the specification vocabulary of the contract files.
// The verifier (govc) gives these functions their meaning; they are never run.
package zzverif

import "math/big"

// Requires states a precondition.
func Requires(b bool) { panic("spec") }

// Ensures states a postcondition of the contract's target.
func Ensures(label string, b bool) { panic("spec") }

// Assert states a fact that must hold at this point of the contract.
func Assert(label string, b bool) { panic("spec") }

// Assume adds an unchecked assumption; it is listed in the evidence.
func Assume(label string, b bool) { panic("spec") }

// Cover asks that this point is reachable.
func Cover(label string) { panic("spec") }

// Unhash gives the i-th input of the Poseidon hash with value h (hash assumed collision-free).
func Unhash(h *big.Int, i int) *big.Int { panic("spec") }

// Any overwrites *p with an arbitrary value.
func Any(p interface{}, name string) { panic("spec") }

func AnyBool(name string) bool     { panic("spec") }
func AnyInt(name string) int       { panic("spec") }
func AnyI64(name string) int64     { panic("spec") }
func AnyU32(name string) uint32    { panic("spec") }
func AnyErr(name string) error     { panic("spec") }
func AnyBytes(name string) []byte  { panic("spec") }
func AnyString(name string) string { panic("spec") }

// Modifies names the objects (pointers, maps, slices) the target may change.
func Modifies(p ...interface{}) { panic("spec") }

// Forall quantifies over all arguments of a func(...) bool.
func Forall(f interface{}) bool { panic("spec") }

// Old copies a pointer's, map's or byte slice's content.
func Old(p interface{}) interface{} { panic("spec") }

// Proof runs ghost code that only helps the verifier.
func Proof(f func()) { panic("spec") }

// Guarded says that the named objects may be read only while the lock mu is held, and changed
// only while it is held exclusively.
func Guarded(mu interface{}, name string, p ...interface{}) { panic("spec") }

// AnyRest says that the map may hold x under any key that nothing else is known about.
func AnyRest(m, x interface{}) { panic("spec") }

func Implies(a, b bool) bool         { panic("spec") }
func Decreases(n int)                { panic("spec") }
func BytesEq(a, b []byte) bool       { panic("spec") }
func Same(a, b interface{}) bool     { panic("spec") }
func Ghost(name string) int          { panic("spec") }
func SetGhost(name string, v int)    { panic("spec") }
func Locked(mu interface{}) bool     { panic("spec") }
func Log(v interface{})              { panic("spec") }

// Field reads, SetField writes an unexported field of the object p points to.
func Field(p interface{}, name string) interface{}       { panic("spec") }
func SetField(p interface{}, name string, x interface{}) { panic("spec") }
