package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"unicode/utf8"
)

// Blob is bytes that are readable in JSON when they are valid UTF-8.
type Blob []byte

// MarshalJSON implements json.Marshaler.
func (b Blob) MarshalJSON() ([]byte, error) {
	if utf8.Valid(b) {
		return json.Marshal(string(b))
	}
	return json.Marshal(map[string]string{"base64": base64.StdEncoding.EncodeToString(b)})
}

// UnmarshalJSON implements json.Unmarshaler.
func (b *Blob) UnmarshalJSON(d []byte) error {
	var s string
	if json.Unmarshal(d, &s) == nil {
		*b = Blob(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(d, &m); err != nil {
		return err
	}
	x, err := base64.StdEncoding.DecodeString(m["base64"])
	*b = x
	return err
}

// Opts are the options of a Parse call.
type Opts struct {
	Strict       bool   `json:"strict,omitempty"`
	BodyComments bool   `json:"body_comments,omitempty"`
	Debug        bool   `json:"debug,omitempty"`
	Filename     string `json:"filename,omitempty"`
}

// Fault is one storage fault applied to a content.
type Fault struct {
	Op string `json:"op"` // bit, zero, delete, dup, swap, insert, replace, truncate
	At int    `json:"at"`
	N  int    `json:"n,omitempty"`
	To int    `json:"to,omitempty"`
	B  Blob   `json:"b,omitempty"`
}

// Delivery says how the reader hands over the content.
type Delivery struct {
	Chunks   []int `json:"chunks,omitempty"` // sizes of the first reads (0: an empty read)
	Rest     int   `json:"rest,omitempty"`   // size of later reads (0: as much as fits)
	WithEnd  bool  `json:"with_end,omitempty"`
	Scribble int   `json:"scribble,omitempty"` // what the reader leaves in the unused buffer (0: nothing)
	Lat      []int `json:"lat,omitempty"`      // simulated microseconds of each read (cyclic)
	Wrap     int   `json:"wrap,omitempty"`     // 0 direct, 1 bufio 16, 2 bufio 4096, 3 io.LimitReader, 4 io.MultiReader, 5 TeeReader, 6 bytes.Buffer, 7 bytes.Reader, 8 strings.Reader
}

// Stop is what happens to the stream at an offset.
type Stop struct {
	At    int    `json:"at"`
	Kind  string `json:"kind"` // eof, err, panic, goexit, stall, zeros
	Err   string `json:"err,omitempty"`
	With  bool   `json:"with,omitempty"`  // delivered together with the last data
	After string `json:"after,omitempty"` // more, err, panic, stall, sticky
}

// Answer is what a visitor does at a visit.
type Answer struct {
	At int    `json:"at"` // visit number
	Do string `json:"do"` // no, panic, stall, accept, interpret, parse, goexit, sleep
}

// Call is one call (or task) of a case.
type Call struct {
	Kind     string   `json:"kind"` // parse, accept, interpret, scribble, ...
	Text     int      `json:"text"`
	Faults   []Fault  `json:"faults,omitempty"`
	Opts     Opts     `json:"opts"`
	Delivery Delivery `json:"delivery"`
	Stop     *Stop    `json:"stop,omitempty"`
	Answers  []Answer `json:"answers,omitempty"`
	Refuse   []string `json:"refuse,omitempty"` // visit methods always answered with no
	Reader   int      `json:"reader,omitempty"` // type of the reader (C12)
	Times    int      `json:"times,omitempty"`  // repetitions
	Slot     int      `json:"slot,omitempty"`   // which reader object is used again (C10)
	Sub      int      `json:"sub,omitempty"`    // which part of a tree (interpret)
	Rests    []Blob   `json:"rests,omitempty"`  // what may stand behind the damage instead (C27)
	Fresh    bool     `json:"fresh,omitempty"`  // compare with the call in a fresh process
}

// Op is one operation on a lexer or parser (C13, C15).
type Op struct {
	Do   string `json:"do"`
	N    int    `json:"n,omitempty"`
	Mode string `json:"mode,omitempty"`
	Ins  bool   `json:"ins,omitempty"` // inserted: must be invisible
	At   int    `json:"at,omitempty"`
}

// Seg is a part of a schedule: task T ran for K yield points.
type Seg struct {
	T int    `json:"t"`
	K uint64 `json:"k"`
}

// Schedule says how the scheduler decides.
type Schedule struct {
	Policy string `json:"policy"` // seq, random, pct, rr, reads, sites, trace
	Seed   uint64 `json:"seed,omitempty"`
	Mean   int    `json:"mean,omitempty"`
	Trace  []Seg  `json:"trace,omitempty"`
}

// Case is one simulated run, completely explicit: replaying it needs nothing else.
type Case struct {
	Prop  string    `json:"property"`
	Race  bool      `json:"race,omitempty"` // to be run in the race build
	Mode  string    `json:"mode,omitempty"`
	Texts []Blob    `json:"texts"`
	Calls []Call    `json:"calls,omitempty"`
	Young int       `json:"young,omitempty"` // the call, beside the last one, that is compared with a young process
	Ops   []Op      `json:"ops,omitempty"`
	Log   []string  `json:"log,omitempty"` // results of the log destination's writes (cyclic)
	Sched *Schedule `json:"schedule,omitempty"`
	Spec  *Flood    `json:"flood,omitempty"`
}

// Flood describes a very large content by a repeated pattern.
type Flood struct {
	Head, Unit, Tail string
	N                int
}

// Violation is a broken property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func violf(class, format string, a ...interface{}) *Violation {
	return &Violation{class, fmt.Sprintf(format, a...)}
}

func (c *Case) clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	return &d
}

// content returns the bytes of a call's stream after its storage faults.
func (c *Case) content(k *Call) []byte {
	if c.Spec != nil {
		return c.Spec.bytes()
	}
	if k.Text < 0 || k.Text >= len(c.Texts) {
		return nil
	}
	return applyFaults(c.Texts[k.Text], k.Faults)
}

func (f *Flood) bytes() []byte {
	out := make([]byte, 0, len(f.Head)+f.N*len(f.Unit)+len(f.Tail)*f.N)
	out = append(out, f.Head...)
	for i := 0; i < f.N; i++ {
		out = append(out, f.Unit...)
	}
	if len(f.Tail) > 0 && f.Tail[0] == '*' { // closing brackets: repeated too
		for i := 0; i < f.N; i++ {
			out = append(out, f.Tail[1:]...)
		}
	} else {
		out = append(out, f.Tail...)
	}
	return out
}

func applyFaults(text []byte, fs []Fault) []byte {
	b := append([]byte(nil), text...)
	for _, f := range fs {
		at, n := f.At, f.N
		if at < 0 {
			at = 0
		}
		if at > len(b) {
			at = len(b)
		}
		if n < 0 {
			n = 0
		}
		if at+n > len(b) {
			n = len(b) - at
		}
		switch f.Op {
		case "bit":
			if at < len(b) {
				b[at] ^= 1 << uint(f.To&7)
			}
		case "zero":
			for i := at; i < at+n; i++ {
				b[i] = 0
			}
		case "delete":
			b = append(b[:at], b[at+n:]...)
		case "truncate":
			b = b[:at]
		case "insert":
			b = append(b[:at], append(append([]byte(nil), f.B...), b[at:]...)...)
		case "overwrite": // a range replaced by something else
			b = append(b[:at], append(append([]byte(nil), f.B...), b[at+n:]...)...)
		case "replace": // a torn or stale overwrite
			for i := 0; i < len(f.B) && at+i < len(b); i++ {
				b[at+i] = f.B[i]
			}
		case "dup": // a block written a second time at To
			blk := append([]byte(nil), b[at:at+n]...)
			to := f.To
			if to < 0 {
				to = 0
			}
			if to > len(b) {
				to = len(b)
			}
			b = append(b[:to], append(blk, b[to:]...)...)
		case "swap": // two neighbouring blocks of size n exchanged
			if at+2*n <= len(b) {
				x := append([]byte(nil), b[at:at+n]...)
				copy(b[at:], b[at+n:at+2*n])
				copy(b[at+n:], x)
			}
		}
		if len(b) > 1<<18 {
			b = b[:1<<18]
		}
	}
	return b
}
