// Package gvcspec is the specification vocabulary of the contracts in /verif/contracts.
// The verifier (gvc) interprets these functions symbolically; the bodies below are their
// meaning when a contract is replayed natively on concrete values.
package gvcspec

import (
	"reflect"
	"time"
	"unsafe"
)

// Requires states a precondition (assumed when verifying, proved at call sites).
func Requires(b bool) {
	if !b {
		panic(skip{})
	}
}

// Assume restricts the explored states (environment assumptions; listed in the evidence).
func Assume(b bool) {
	if !b {
		panic(skip{})
	}
}

// Ensures states a proof obligation named "Cxx.text".
func Ensures(id string, b bool) {
	if !b {
		fail(id)
	}
}

// Cover states that this point must be reachable (guards against vacuous proofs).
func Cover(id string) {}

// Unreachable states that this point is never reached.
func Unreachable(id string) { fail(id) }

// Any is an arbitrary value.
func Any[T any](name string) T { return anyValue[T](name) }

// Snapshot copies the memory behind s; the copy is not affected by later writes.
func Snapshot[T any](s []T) []T {
	if s == nil {
		return nil
	}
	n := make([]T, cap(s))
	copy(n, s[:cap(s)])
	return n[:len(s):cap(s)]
}

func MapSnapshot[K comparable, V any](m map[K]V) map[K]V {
	n := map[K]V{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}
func ForallVal[T any](f func(v T) bool) bool {
	for _, v := range sample[T]() {
		if !f(v) {
			return false
		}
	}
	return true
}
func ExistsVal[T any](f func(v T) bool) bool {
	for _, v := range sample[T]() {
		if f(v) {
			return true
		}
	}
	return false
}
func ForallKeys[K comparable, V any](m map[K]V, f func(k K, v V) bool) bool {
	for k, v := range m {
		if !f(k, v) {
			return false
		}
	}
	return true
}

// SameBacking: the slices lie in the same allocated array.
func SameBacking[T any](a, b []T) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	ea := uintptr(unsafe.Pointer(&a[len(a)-1]))
	eb := uintptr(unsafe.Pointer(&b[len(b)-1]))
	sa := uintptr(unsafe.Pointer(&a[0]))
	sb := uintptr(unsafe.Pointer(&b[0]))
	return sa <= eb && sb <= ea
}
func SameMap[K comparable, V any](a, b map[K]V) bool {
	return *(*unsafe.Pointer)(unsafe.Pointer(&a)) == *(*unsafe.Pointer)(unsafe.Pointer(&b))
}
func SameRef[A, B any](a *A, b *B) bool { return unsafe.Pointer(a) == unsafe.Pointer(b) }
func SameFloat(a, b float64) bool       { return a == b || a != a && b != b }

// DeepEqual compares two values and everything they refer to (NaN equals itself).
func DeepEqual(a, b any) bool { return deepEqual(reflect.ValueOf(a), reflect.ValueOf(b), 0) }

// IsFresh: the object did not exist when the contract was entered.
func IsFresh[T any](p T) bool { return true }

// Frame conditions of a contract.
func ModifiesSlice[T any](s []T)                    {}
func ModifiesObj[T any](p *T)                       {}
func ModifiesMap[K comparable, V any](m map[K]V)    {}
func HavocObj[T any](p *T)                          { panic(skip{}) }
func HavocMap[K comparable, V any](m map[K]V)       { panic(skip{}) }
func Havoc[T any](p *T)                             { panic(skip{}) }
func HavocSlice[T any](s []T)                       { panic(skip{}) }
func HavocEvery[T any](p *T)                        { panic(skip{}) }
func HavocClosed()                                  { panic(skip{}) }
func OnSend[T any](ch chan<- T, f func(v T))        {}
func OnRecv[T any](ch <-chan T, f func() (T, bool)) {}
func OnClose[T any](ch chan T, f func())            {}
func OnSendAny[T any](f func(ch chan T, v T))       {}
func OnRecvAny[T any](f func(ch chan T) (T, bool))  {}
func OnSleep(f func(d time.Duration))               {}

// OnTimer: started runs when a timer is started or reset, fired when its channel delivers.
func OnTimer(started, fired func(ch <-chan time.Time, d time.Duration)) {}
func OnGo(f func(run func()))                                           {}
func OnLock[T any](l *T, f func())                                      {}
func OnUnlock[T any](l *T, f func())                                    {}
func Held[T any](l *T) bool                                             { return true }
func HeldW[T any](l *T) bool                                            { return true }
func NLocks() int                                                       { return 0 }
func Closed[T any](ch chan T) bool                                      { panic(skip{}) }
func ClosedRecv[T any](ch <-chan T) bool                                { panic(skip{}) }
func SetClosed[T any](ch chan T, b bool)                                { panic(skip{}) }
func SetChan[T any](ch chan T, n, capacity int)                         { panic(skip{}) }
func ChanLen[T any](ch chan T) int                                      { return len(ch) }
func Publish[T any](p *T)                                               {}

// Funcs are the functions of the package that EachFunc ranges over in a native run.
var Funcs []any

func Spawned() int             { return 0 }
func RunSpawned()              {}
func DropSpawned()             {}
func TimeNs(t time.Time) int64 { return t.UnixNano() }
func Time(ns int64) time.Time  { return time.Unix(0, ns) }
func SetFunc[F any](f, g F)    {}
func EachFunc[F any](f func(f F)) {
	for _, x := range Funcs {
		if y, ok := x.(F); ok {
			f(y)
		}
	}
}
func OnceDone[T any](p *T) bool                        { panic(skip{}) }
func Visited[K comparable, V any](m map[K]V, k K) bool { return true }

// PointsTo: v holds a pointer (of any pointer type) to the object p.
func PointsTo[T any](v any, p *T) bool {
	return unsafe.Pointer(reflect.ValueOf(v).Pointer()) == unsafe.Pointer(p)
}

// OnBlock: f runs whenever the thread is about to wait for others without a time limit.
func OnBlock(f func()) {}

// HexDigit is the lower-case hexadecimal digit of n's low four bits.
func HexDigit(n byte) string { return "0123456789abcdef"[n&15 : n&15+1] }
