package main

import "time"

// minimiser shrinks a failing case; every candidate runs in a new process.
type minimiser struct {
	rn    *runner
	rp    *Replay
	class string
	end   time.Time
	last  runResult
}

func minimise(rn *runner, rp *Replay, end time.Time) {
	m := &minimiser{rn: rn, rp: rp, class: rp.Violation.Class, end: end}
	if len(rp.Prelude) > 0 {
		m.prelude()
	}
	for pass := 0; pass < 4; pass++ {
		before := hashCase(rp.Case)
		m.calls()
		m.simple()
		m.ops()
		m.fold()
		m.texts()
		m.lists()
		m.schedule()
		if hashCase(rp.Case) == before || m.late() {
			break
		}
	}
	if len(rp.Prelude) > 0 {
		m.prelude()
	}
}

func (m *minimiser) late() bool { return time.Now().After(m.end) }

// try keeps the candidate if it still shows the violation.
func (m *minimiser) try(c *Case) bool {
	if m.late() {
		return false
	}
	res := m.rn.once(m.rp.Prelude, c, 60*time.Second)
	if res.Violation == nil || res.Violation.Class != m.class {
		return false
	}
	m.rp.Case, m.rp.Violation, m.last = c, res.Violation, res
	return true
}

// edit tries the case after f changed a copy of it; f answers false if there is nothing to do.
func (m *minimiser) edit(f func(c *Case) bool) bool {
	c := m.rp.Case.clone()
	if !f(c) {
		return false
	}
	return m.try(c)
}

// ddmin removes parts of a list of n elements.
func (m *minimiser) ddmin(n int, try func(keep []int) bool) {
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	if n == 0 {
		return
	}
	if try(nil) {
		return
	}
	size := (n + 1) / 2
	for size >= 1 && !m.late() {
		removed := false
		for at := 0; at < len(all); {
			hi := at + size
			if hi > len(all) {
				hi = len(all)
			}
			keep := append(append([]int(nil), all[:at]...), all[hi:]...)
			if len(keep) < len(all) && try(keep) {
				all = keep
				removed = true
			} else {
				at = hi
			}
			if m.late() {
				return
			}
		}
		if size == 1 && !removed {
			break
		}
		if !removed || size > len(all) {
			size /= 2
		}
		if size == 0 && len(all) > 0 && removed {
			size = 1
		}
	}
}

func (m *minimiser) prelude() {
	orig := append([]*Case(nil), m.rp.Prelude...)
	m.ddmin(len(orig), func(keep []int) bool {
		var pre []*Case
		for _, i := range keep {
			pre = append(pre, orig[i])
		}
		res := m.rn.once(pre, m.rp.Case, 120*time.Second)
		if res.Violation == nil || res.Violation.Class != m.class {
			return false
		}
		m.rp.Prelude, m.rp.Violation = pre, res.Violation
		return true
	})
}

func (m *minimiser) calls() {
	orig := m.rp.Case.clone().Calls
	m.ddmin(len(orig), func(keep []int) bool {
		if len(keep) == 0 {
			return false
		}
		return m.edit(func(c *Case) bool {
			c.Calls = nil
			for _, i := range keep {
				c.Calls = append(c.Calls, orig[i])
			}
			return true
		})
	})
}

func (m *minimiser) ops() {
	orig := m.rp.Case.clone().Ops
	m.ddmin(len(orig), func(keep []int) bool {
		return m.edit(func(c *Case) bool {
			c.Ops = nil
			for _, i := range keep {
				c.Ops = append(c.Ops, orig[i])
			}
			return true
		})
	})
	log := m.rp.Case.clone().Log
	m.ddmin(len(log), func(keep []int) bool {
		return m.edit(func(c *Case) bool {
			c.Log = nil
			for _, i := range keep {
				c.Log = append(c.Log, log[i])
			}
			return true
		})
	})
}

// simple resets single settings.
func (m *minimiser) simple() {
	for i := range m.rp.Case.Calls {
		if m.late() {
			return
		}
		set := func(f func(k *Call) bool) {
			m.edit(func(c *Case) bool {
				if i >= len(c.Calls) {
					return false
				}
				return f(&c.Calls[i])
			})
		}
		isPlain := func(d Delivery) bool {
			return len(d.Chunks) == 0 && d.Rest == 0 && !d.WithEnd && d.Scribble == 0 && len(d.Lat) == 0 && d.Wrap == 0
		}
		set(func(k *Call) bool { ok := !isPlain(k.Delivery); k.Delivery = Delivery{}; return ok })
		set(func(k *Call) bool { ok := len(k.Delivery.Lat) > 0; k.Delivery.Lat = nil; return ok })
		set(func(k *Call) bool { ok := k.Delivery.Scribble > 0; k.Delivery.Scribble = 0; return ok })
		set(func(k *Call) bool { ok := k.Delivery.Wrap > 0; k.Delivery.Wrap = 0; return ok })
		set(func(k *Call) bool { ok := k.Delivery.WithEnd; k.Delivery.WithEnd = false; return ok })
		set(func(k *Call) bool { ok := len(k.Delivery.Chunks) > 0; k.Delivery.Chunks = nil; return ok })
		set(func(k *Call) bool { ok := k.Delivery.Rest > 0; k.Delivery.Rest = 0; return ok })
		set(func(k *Call) bool { ok := k.Stop != nil; k.Stop = nil; return ok })
		set(func(k *Call) bool {
			ok := k.Stop != nil && k.Stop.With
			if ok {
				k.Stop.With = false
			}
			return ok
		})
		set(func(k *Call) bool {
			ok := k.Stop != nil && k.Stop.Err != "" && k.Stop.Err != "sentinel"
			if ok {
				k.Stop.Err = "sentinel"
			}
			return ok
		})
		set(func(k *Call) bool {
			ok := k.Stop != nil && k.Stop.After != "sticky"
			if ok {
				k.Stop.After = "sticky"
			}
			return ok
		})
		set(func(k *Call) bool { ok := k.Opts.Filename != ""; k.Opts.Filename = ""; return ok })
		set(func(k *Call) bool { ok := k.Opts.Strict; k.Opts.Strict = false; return ok })
		set(func(k *Call) bool { ok := k.Opts.BodyComments; k.Opts.BodyComments = false; return ok })
		set(func(k *Call) bool { ok := k.Opts.Debug; k.Opts.Debug = false; return ok })
		set(func(k *Call) bool { ok := k.Times > 0; k.Times = 0; return ok })
		set(func(k *Call) bool { ok := k.Sub > 0; k.Sub = 0; return ok })
		set(func(k *Call) bool { ok := k.Reader > 0; k.Reader = 0; return ok })
		set(func(k *Call) bool { ok := len(k.Faults) > 0; k.Faults = nil; return ok })
		set(func(k *Call) bool { ok := len(k.Refuse) > 0; k.Refuse = nil; return ok })
		set(func(k *Call) bool { ok := len(k.Answers) > 0; k.Answers = nil; return ok })
		m.rests(i)
	}
	// unused texts
	m.edit(func(c *Case) bool {
		used := map[int]int{}
		var texts []Blob
		for i := range c.Calls {
			t := c.Calls[i].Text
			if t < 0 || t >= len(c.Texts) {
				return false
			}
			if _, ok := used[t]; !ok {
				used[t] = len(texts)
				texts = append(texts, c.Texts[t])
			}
			c.Calls[i].Text = used[t]
		}
		ok := len(texts) < len(c.Texts)
		c.Texts = texts
		return ok
	})
}

// fold applies the storage faults to the texts.
func (m *minimiser) fold() {
	m.edit(func(c *Case) bool {
		if c.Spec != nil {
			return false
		}
		any := false
		var texts []Blob
		seen := map[string]int{}
		for i := range c.Calls {
			if len(c.Calls[i].Faults) > 0 {
				any = true
			}
			b := c.content(&c.Calls[i])
			at, ok := seen[string(b)]
			if !ok {
				at = len(texts)
				seen[string(b)] = at
				texts = append(texts, Blob(b))
			}
			c.Calls[i].Text = at
			c.Calls[i].Faults = nil
		}
		c.Texts = texts
		return any
	})
	if s := m.rp.Case.Spec; s != nil {
		for m.rp.Case.Spec.N > 1 && m.edit(func(c *Case) bool { c.Spec.N /= 2; return true }) {
		}
		for d := m.rp.Case.Spec.N / 4; d > 0 && !m.late(); d /= 2 {
			m.edit(func(c *Case) bool { c.Spec.N -= d; return c.Spec.N > 0 })
		}
		m.edit(func(c *Case) bool { ok := c.Spec.Tail != ""; c.Spec.Tail = ""; return ok })
		m.edit(func(c *Case) bool { ok := c.Spec.Head != ""; c.Spec.Head = ""; return ok })
	}
}

// rests shrinks the list of what may stand behind the damage, then each text of it.
func (m *minimiser) rests(i int) {
	if i >= len(m.rp.Case.Calls) || len(m.rp.Case.Calls[i].Rests) == 0 {
		return
	}
	orig := m.rp.Case.clone().Calls[i].Rests
	m.ddmin(len(orig), func(keep []int) bool {
		return m.edit(func(c *Case) bool {
			c.Calls[i].Rests = nil
			for _, at := range keep {
				c.Calls[i].Rests = append(c.Calls[i].Rests, orig[at])
			}
			return len(keep) > 0
		})
	})
	for r := range m.rp.Case.Calls[i].Rests {
		for _, split := range []func([]byte) [][]byte{splitLines, splitTokens} {
			parts := split(m.rp.Case.clone().Calls[i].Rests[r])
			m.ddmin(len(parts), func(keep []int) bool {
				return m.edit(func(c *Case) bool {
					var b []byte
					for _, at := range keep {
						b = append(b, parts[at]...)
					}
					c.Calls[i].Rests[r] = b
					return true
				})
			})
		}
	}
}

func splitLines(b []byte) [][]byte {
	var out [][]byte
	lo := 0
	for i := range b {
		if b[i] == '\n' {
			out = append(out, b[lo:i+1])
			lo = i + 1
		}
	}
	if lo < len(b) {
		out = append(out, b[lo:])
	}
	return out
}

func splitTokens(b []byte) [][]byte {
	bounds := tokenBounds(b)
	var out [][]byte
	for i := 0; i+1 < len(bounds); i++ {
		if bounds[i] < bounds[i+1] {
			out = append(out, b[bounds[i]:bounds[i+1]])
		}
	}
	return out
}

func splitBytes(b []byte) [][]byte {
	var out [][]byte
	for i := range b {
		out = append(out, b[i:i+1])
	}
	return out
}

func (m *minimiser) texts() {
	for t := range m.rp.Case.Texts {
		for level, split := range []func([]byte) [][]byte{splitLines, splitTokens, splitBytes} {
			if m.late() || t >= len(m.rp.Case.Texts) {
				return
			}
			base := m.rp.Case.clone()
			text := []byte(base.Texts[t])
			if level == 2 && len(text) > 400 {
				continue
			}
			parts := split(text)
			if len(parts) < 2 {
				continue
			}
			starts := make([]int, len(parts)+1)
			for i, p := range parts {
				starts[i+1] = starts[i] + len(p)
			}
			m.ddmin(len(parts), func(keep []int) bool {
				return m.edit(func(c *Case) bool {
					var b []byte
					kept := map[int]bool{}
					for _, i := range keep {
						b = append(b, parts[i]...)
						kept[i] = true
					}
					c.Texts[t] = b
					for j := range c.Calls {
						k := &c.Calls[j]
						if k.Text != t || k.Stop == nil || j >= len(base.Calls) || base.Calls[j].Stop == nil {
							continue
						}
						// the stop moves with the text before it
						at := base.Calls[j].Stop.At
						now := 0
						for i := range parts {
							if !kept[i] {
								continue
							}
							if starts[i+1] <= at {
								now += len(parts[i])
							} else if starts[i] < at {
								now += at - starts[i]
							}
						}
						if at >= len(text) {
							now = len(b)
						}
						k.Stop.At = now
					}
					return true
				})
			})
		}
	}
}

func (m *minimiser) lists() {
	for i := range m.rp.Case.Calls {
		i := i
		k := m.rp.Case.clone().Calls[i]
		m.ddmin(len(k.Answers), func(keep []int) bool {
			return m.edit(func(c *Case) bool {
				c.Calls[i].Answers = nil
				for _, j := range keep {
					c.Calls[i].Answers = append(c.Calls[i].Answers, k.Answers[j])
				}
				return true
			})
		})
		m.ddmin(len(k.Refuse), func(keep []int) bool {
			return m.edit(func(c *Case) bool {
				c.Calls[i].Refuse = nil
				for _, j := range keep {
					c.Calls[i].Refuse = append(c.Calls[i].Refuse, k.Refuse[j])
				}
				return true
			})
		})
		m.ddmin(len(k.Delivery.Chunks), func(keep []int) bool {
			return m.edit(func(c *Case) bool {
				c.Calls[i].Delivery.Chunks = nil
				for _, j := range keep {
					c.Calls[i].Delivery.Chunks = append(c.Calls[i].Delivery.Chunks, k.Delivery.Chunks[j])
				}
				return true
			})
		})
	}
}

// schedule replaces the policy by the explicit schedule and drops context switches.
func (m *minimiser) schedule() {
	c := m.rp.Case
	if c.Sched == nil {
		return
	}
	if c.Sched.Policy != "seq" && c.Sched.Policy != "stallonly" {
		if m.edit(func(c *Case) bool { c.Sched = &Schedule{Policy: "seq"}; return true }) {
			return
		}
	}
	if c.Sched.Policy == "seq" || c.Sched.Policy == "stallonly" {
		return
	}
	if c.Sched.Policy != "trace" {
		if m.last.Trace == nil {
			if !m.try(m.rp.Case.clone()) {
				return
			}
		}
		trace := m.last.Trace
		if len(trace) == 0 || len(trace) > 200000 {
			return
		}
		if !m.edit(func(c *Case) bool { c.Sched = &Schedule{Policy: "trace", Trace: trace}; return true }) {
			return
		}
	}
	segs := append([]Seg(nil), m.rp.Case.Sched.Trace...)
	m.ddmin(len(segs), func(keep []int) bool {
		return m.edit(func(c *Case) bool {
			c.Sched.Trace = nil
			for _, i := range keep {
				t := c.Sched.Trace
				if n := len(t); n > 0 && t[n-1].T == segs[i].T {
					t[n-1].K += segs[i].K
					continue
				}
				c.Sched.Trace = append(t, segs[i])
			}
			return true
		})
	})
}
