package main

import (
	"bytes"
	"io"
	"sync/atomic"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

// stats are the measures of a worker (merged by the parent).
type stats struct {
	Runs        int64            `json:"runs"`
	SimNanos    int64            `json:"sim_nanos"`
	Steps       int64            `json:"steps"`
	Reads       int64            `json:"reads"`
	Calls       int64            `json:"calls"`
	Trees       int64            `json:"trees"`
	Errors      int64            `json:"errors"`
	Switches    int64            `json:"switches"`
	Faults      map[string]int64 `json:"faults"`
	Probes      map[string]int64 `json:"probes"`
	Distinct    map[uint64]bool  `json:"-"`
	MaxPerByte  float64          `json:"max_steps_per_byte"`
	Trivial     int64            `json:"trivial"`
	Schedules   map[uint64]bool  `json:"-"`
	DigestChain uint64           `json:"digest"`
}

var st = newStats()

func newStats() *stats {
	return &stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Distinct: map[uint64]bool{}, Schedules: map[uint64]bool{}}
}

// (not called from simulated tasks)
func (s *stats) fault(k string)         { s.Faults[k]++ }
func (s *stats) probe(k string)         { s.Probes[k]++ }
func (s *stats) probeN(k string, n int) { s.Probes[k] += int64(n) }

// outcome is what a call returned.
type outcome struct {
	tree  *parser.Proto
	err   error
	fail  string // panic, step limit, deadlock, goexit
	pval  interface{}
	stack string
	steps uint64
	rd    *SimReader
}

func (o *outcome) key() string {
	switch {
	case o.fail != "":
		return "FAIL " + o.fail
	case o.err != nil && o.tree != nil:
		return "BOTH " + errKey(o.err) + " " + dump(o.tree)
	case o.err != nil:
		return "ERR " + errKey(o.err)
	}
	return "TREE " + dump(o.tree)
}

// short is the key for messages.
func (o *outcome) short() string {
	k := o.key()
	if len(k) > 300 {
		k = k[:300] + "..."
	}
	return k
}

func (o *outcome) ok() bool { return o.fail == "" && o.err == nil && o.tree != nil }

func options(o Opts) []protoparser.Option {
	var out []protoparser.Option
	// every option is passed only when it differs from its default, so that defaults are used too
	if o.Strict {
		out = append(out, protoparser.WithPermissive(false))
	}
	if o.BodyComments {
		out = append(out, protoparser.WithBodyIncludingComments(true))
	}
	if o.Debug {
		out = append(out, protoparser.WithDebug(true))
	}
	if o.Filename != "" {
		out = append(out, protoparser.WithFilename(o.Filename))
	}
	return out
}

// stepLimit is the bound on the steps of a parse of data. The library is linear apart from
// long tokens and from the comments seen by rpcs, which the formula allows for.
func stepLimit(data []byte) uint64 {
	n := uint64(len(data))
	c := uint64(bytes.Count(data, []byte("//"))+bytes.Count(data, []byte("/*"))) + 1
	r := uint64(bytes.Count(data, []byte("rpc"))) + 1
	return 2000000 + 6000*n + 60*c*r
}

// parseSolo performs one simulated Parse call alone.
func parseSolo(data []byte, o Opts, d Delivery, stop *Stop, readerType int) *outcome {
	var clk int64
	rd := newReader(data, d, stop, nil, &clk)
	out := &outcome{rd: rd}
	if stop != nil && stop.Kind == "goexit" {
		s := newSim(nil)
		t := s.add(stepLimit(data), func() {
			out.tree, out.err = protoparser.Parse(rd.as(readerType), options(o)...)
		})
		s.Run()
		out.fill(t)
	} else {
		var in io.Reader = rd.as(readerType)
		if d.Wrap != 0 && readerType == 0 {
			in = rd.wrap(d.Wrap)
		}
		t := solo(stepLimit(data), func() {
			out.tree, out.err = protoparser.Parse(in, options(o)...)
		})
		out.fill(t)
	}
	atomic.StoreInt32(&rd.returned, 1)
	st.SimNanos += clk
	out.account(data)
	return out
}

func (o *outcome) fill(t *simTask) {
	o.fail = t.failure()
	o.pval = t.panicked
	o.stack = t.stack
	o.steps = t.h.Steps
	if o.rd != nil {
		o.rd.reclaim()
	}
	if o.fail != "" {
		o.tree, o.err = nil, nil
	}
}

func (o *outcome) account(data []byte) {
	digest = mix(digest ^ o.steps)
	st.Calls++
	st.Steps += int64(o.steps)
	st.SimNanos += int64(o.steps)
	if o.rd != nil {
		st.Reads += o.rd.reads
		digest = mix(digest ^ uint64(o.rd.reads)<<32)
		if o.rd.splits > 0 {
			st.fault("read split a multi-byte character")
		}
		if o.rd.zeroReads > 0 {
			st.fault("empty read")
		}
		if o.rd.d.Scribble > 0 && o.rd.reads > 1 {
			st.fault("buffer scribbled")
		}
		if o.rd.fired && o.rd.stop.Kind != "eof" {
			st.fault("reader: " + o.rd.stop.Kind)
		}
		if o.rd.fired && o.rd.stop.Kind == "eof" && o.rd.stop.At < len(o.rd.data) {
			st.fault("early EOF with data behind it")
		}
	}
	if o.err != nil {
		st.Errors++
	} else if o.tree != nil {
		st.Trees++
	}
	if len(data) > 200 {
		if x := float64(o.steps) / float64(len(data)); x > st.MaxPerByte {
			st.MaxPerByte = x
		}
	}
}

// plain is a delivery in one piece.
var plain = Delivery{}
