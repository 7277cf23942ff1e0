// Package hook is linked into the instrumented build of /repo. The instrumenter
// (cmd/instrument) puts a call of Y before every statement of the code under test.
//
// Exactly one task runs at a time, so the plain variables below need no locks. In the
// race build the functions are exempt from race instrumentation (go:norace), so that the
// scheduler's own bookkeeping creates no happens-before edges between simulated tasks.
package hook

// Task is the part of a simulated task that the yield points touch.
type Task struct {
	Steps uint64 // yield points passed
	Next  uint64 // Slow is called when Steps reaches Next
	Site  uint32 // yield point at which Slow was called
	Slow  func() // context switch or step limit
	Block func() // called when a simulated lock is not available
}

// NSites is the size of the coverage table (yield point ids are below it).
const NSites = 1 << 14

var (
	// Cur is the running task, nil outside simulated runs.
	Cur *Task
	// Foreign is set once the code under test starts a goroutine of its own in a run. The
	// simulator then stops deciding the interleaving of that run.
	Foreign bool
	// Cover marks the yield points that were reached.
	Cover [NSites]uint8
)

// Y is a yield point.
//
//go:norace
func Y(site uint32) {
	t := Cur
	if t == nil || Foreign {
		return
	}
	Cover[site&(NSites-1)] = 1
	t.Steps++
	if t.Steps >= t.Next {
		t.Site = site
		t.Slow()
	}
}

// Spawn is called before every go statement of the code under test.
//
//go:norace
func Spawn() {
	if Cur != nil {
		Foreign = true
	}
}

// Wait is called by the simulated locks when they cannot be taken now.
//
//go:norace
func Wait() {
	t := Cur
	if t == nil || Foreign {
		nap()
		return
	}
	t.Block()
}

// Sender returns the send operation of ch.
func Sender[T any](ch chan<- T) func(T) {
	return func(v T) {
		for !free() {
			select {
			case ch <- v:
				return
			default:
				Wait()
			}
		}
		ch <- v
	}
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from ch and tells whether the value was sent.
func Recv2[T any](ch <-chan T) (T, bool) {
	for !free() {
		select {
		case v, ok := <-ch:
			return v, ok
		default:
			Wait()
		}
	}
	v, ok := <-ch
	return v, ok
}

// free tells whether nobody decides the interleaving.
//
//go:norace
func free() bool { return Cur == nil || Foreign }
