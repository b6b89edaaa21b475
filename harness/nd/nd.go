// Package nd is the nondeterminism API of the harnesses.  Under the symbolic
// engine every function here is intercepted; this file is the native
// implementation used to replay a recorded witness against the real code.
package nd

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"syscall"
	"unsafe"
)

var (
	mu     sync.Mutex
	vals   []uint64
	pos    int
	tier   int
	budget uint64
	base   uint64
	covers = map[string]bool{}
	inGo   bool
)

// Load installs a witness.
func Load(v []uint64, t int) { vals, pos, tier = v, 0, t }

// Covered reports the labels reached.
func Covered() map[string]bool { return covers }

// Die reports a failed check and ends the process.
func Die(kind, msg string) {
	fmt.Printf("VERIF-%s: %s\n", kind, msg)
	os.Exit(3)
}

func next() uint64 {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(vals) {
		pos++
		return 0
	}
	v := vals[pos]
	pos++
	return v
}

// U8 etc. are arbitrary values.
func U8() uint8   { return uint8(next()) }
func U16() uint16 { return uint16(next()) }
func U32() uint32 { return uint32(next()) }
func U64() uint64 { return next() }
func I64() int64  { return int64(next()) }
func Int() int    { return int(next()) }
func Bool() bool  { return next() != 0 }

// Bytes is n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = U8()
	}
	return b
}

// Choose is an arbitrary value in [0,n), one path each.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	v := int(next())
	if v >= n {
		fmt.Println("VERIF-ASSUME: choice out of range")
		os.Exit(4)
	}
	return v
}

// Concrete splits the path on the value of v.
func Concrete(v int) int { return v }

// Assume restricts the exploration.
func Assume(c bool) {
	if !c {
		fmt.Println("VERIF-ASSUME: assumption does not hold")
		os.Exit(4)
	}
}

// Assert is checked for all values.
func Assert(c bool, msg string) {
	if !c {
		Die("FAIL", msg)
	}
}

// Fail marks a state that must be unreachable.
func Fail(msg string) { Die("FAIL", msg) }

// Cover marks a state that must be reachable.
func Cover(label string) {
	mu.Lock()
	covers[label] = true
	mu.Unlock()
}

// Log records a note in the violation trace.
func Log(s string) {}

// And and Or combine conditions without splitting the path.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Symbolic reports whether the symbolic engine runs.
func Symbolic() bool { return false }

// Tier is 0 (quick) or 1 (thorough).
func Tier() int { return tier }

// Pick selects a bound by tier.
func Pick(quick, thorough int) int {
	if Tier() == 0 {
		return quick
	}
	return thorough
}

func total() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// AllocBudget bounds the bytes allocated from here on.
func AllocBudget(n int) {
	budget = uint64(n)
	base = total()
}

// AllocEnd checks the budget (native side).
func AllocEnd() {
	if budget > 0 {
		if t := total() - base; t > budget {
			Die("ALLOC", fmt.Sprintf("%d bytes allocated, budget %d", t, budget))
		}
	}
}

// AllocLimit sets the size of a single allocation treated as out of scope.
func AllocLimit(n int) {}

// MaxCount bounds the counts of symbolic make calls; larger ones are out of scope.
func MaxCount(n int) {}

// StepLimit bounds the number of instructions from here on.
func StepLimit(n int) {}

// Stop ends the path.
func Stop() {
	AllocEnd()
	os.Exit(0)
}

// Sched enables goroutines with at most n preemptions.
func Sched(n int) {}

var joined sync.WaitGroup

// Go starts a goroutine.
func Go(f func()) { joined.Go(f) }

// Join waits for the goroutines started.
func Join() { joined.Wait() }

// SetNumCPU overrides runtime.NumCPU: natively the process starts over,
// restricted to n CPUs.
func SetNumCPU(n int) {
	if n == runtime.NumCPU() || os.Getenv("VERIF_CPUS") != "" {
		return
	}
	var mask [16]uint64
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, 128, uintptr(unsafe.Pointer(&mask[0]))); e != 0 {
		return
	}
	left := n
	for i := range mask {
		for b := uint64(1); b != 0; b <<= 1 {
			if mask[i]&b == 0 {
				continue
			}
			if left == 0 {
				mask[i] &^= b
			} else {
				left--
			}
		}
	}
	runtime.LockOSThread()
	syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, 128, uintptr(unsafe.Pointer(&mask[0])))
	syscall.Exec(os.Args[0], os.Args, append(os.Environ(), "VERIF_CPUS=1"))
}

// SameArray reports whether two byte slices share a backing array.
func SameArray(a, b []byte) bool {
	return cap(a) > 0 && cap(b) > 0 && &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
}
