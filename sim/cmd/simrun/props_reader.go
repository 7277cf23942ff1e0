package main

import (
	"fmt"
	"io"
	"log"
	"runtime"
	"sync/atomic"
	"time"

	"verifsim/hook"
)

// withLog sends the standard logger's output to w (nil: nowhere).
func withLog(w io.Writer, flags int) {
	if w == nil {
		log.SetOutput(io.Discard)
		log.SetFlags(0)
		return
	}
	log.SetFlags(flags &^ (log.Ldate | log.Ltime | log.Lmicroseconds))
	log.SetOutput(w)
}

// --- C12 -----------------------------------------------------------------------------------

func genC12(r *rng, _ bool) *Case {
	strict := r.p(25)
	text := genBase(r, strict)
	c := &Case{Prop: "C12", Texts: []Blob{text}}
	o := genOpts(r, strict)
	for i := 0; i < 4; i++ {
		k := Call{Kind: "parse", Opts: o, Reader: r.n(readerTypes)}
		if r.p(35) {
			k.Faults = genFaults(r, text, nil)
		}
		data := applyFaults(text, k.Faults)
		if r.p(80) {
			k.Delivery = genDelivery(r, data)
			k.Delivery.Wrap = 0
		}
		switch r.n(6) {
		case 0:
			k.Stop = genStop(r, data, "err")
			k.Stop.After = r.pick("more", "sticky")
		case 1, 2:
			k.Stop = genStop(r, data, "panic")
		case 3:
			k.Stop = genStop(r, data, "goexit")
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

func runC12(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		before := runtime.NumGoroutine()
		got := parseSolo(data, k.Opts, k.Delivery, k.Stop, k.Reader)
		if hook.Foreign {
			// the code under test started goroutines: give them the chance to misbehave
			for j := 0; j < 40 && runtime.NumGoroutine() > before; j++ {
				time.Sleep(time.Millisecond)
			}
		}
		after := runtime.NumGoroutine()
		for j := 0; j < 100 && after > before && !hook.Foreign; j++ {
			runtime.Gosched()
			after = runtime.NumGoroutine()
		}
		nontrivial = true
		rd := got.rd
		what := fmt.Sprintf("call %d (%d bytes, reader type %d)", i, len(data), k.Reader)
		if rd.misuse != "" {
			return violf("misuse", "%s: Parse calls %s on the reader", what, rd.misuse)
		}
		if n := atomic.LoadInt32(&rd.overlap); n > 0 {
			return violf("overlap", "%s: a Read begins while another one is in progress", what)
		}
		if n := atomic.LoadInt32(&rd.afterRet); n > 0 {
			return violf("late-read", "%s: %d Reads after Parse has ended", what, n)
		}
		if after > before {
			return violf("goroutine", "%s: Parse leaves %d goroutines behind", what, after-before)
		}
		if rd.panicVal != nil {
			if got.pval != rd.panicVal {
				return violf("panic-lost", "%s: the reader's panic does not reach the caller: %s", what, got.short())
			}
		} else if got.pval != nil {
			continue // C06
		}
		if rd.fired && k.Stop != nil && k.Stop.Kind == "goexit" && got.fail != "goexit" {
			return violf("goexit-lost", "%s: runtime.Goexit in the reader does not end the caller: %s", what, got.short())
		}
	}
	return nil
}
