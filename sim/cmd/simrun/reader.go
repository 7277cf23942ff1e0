package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verifsim/hook"
)

type multiErr []error // an error value that cannot be compared with ==

func (m multiErr) Error() string { return fmt.Sprintf("%d errors", len(m)) }
func (m multiErr) Is(target error) bool {
	t, ok := target.(multiErr)
	return ok && len(t) == len(m) && len(m) > 0 && &t[0] == &m[0]
}

type ptrErr struct{ s string }

func (p *ptrErr) Error() string { return p.s }

var errNames = []string{"sentinel", "unexpectedEOF", "closedPipe", "deadline", "EIO", "EINTR", "EAGAIN", "ctx", "wrapEOF", "wrapped", "uncomparable", "pointer", "textEOF", "patherr", "shortbuffer", "noprogress"}

// makeErr returns a new error of the catalogue.
func makeErr(name string) error {
	switch name {
	case "unexpectedEOF":
		return io.ErrUnexpectedEOF
	case "closedPipe":
		return io.ErrClosedPipe
	case "deadline":
		return os.ErrDeadlineExceeded
	case "EIO":
		return syscall.EIO
	case "EINTR":
		return syscall.EINTR
	case "EAGAIN":
		return syscall.EAGAIN
	case "ctx":
		return context.Canceled
	case "wrapEOF":
		return fmt.Errorf("stream broke: %w", io.EOF)
	case "wrapped":
		return fmt.Errorf("read: %w", &ptrErr{"disk"})
	case "uncomparable":
		return multiErr{errors.New("a"), errors.New("b")}
	case "pointer":
		return &ptrErr{"lost connection"}
	case "textEOF":
		return errors.New("EOF") // looks like io.EOF, is not
	case "patherr":
		return &os.PathError{Op: "read", Path: "/x.proto", Err: syscall.EISDIR}
	case "shortbuffer":
		return io.ErrShortBuffer
	case "noprogress":
		return io.ErrNoProgress
	}
	return errors.New("sentinel read error")
}

type panicValue struct{ s string }

// SimReader is the simulated stream.
type SimReader struct {
	data []byte
	d    Delivery
	stop Stop
	task *simTask // nil in solo runs
	clk  *int64   // simulated clock of solo runs

	quiet bool   // no task switch at reads
	own   []byte // the content of a reader of the standard library

	pos   int
	ci    int
	li    int
	zeros int
	ended bool // eof or err was reported

	cause    error       // the error reported at the stop
	panicVal interface{} // the value the reader panicked with

	in        int32
	returned  int32 // Parse has returned
	reads     int64
	zeroReads int
	splits    int // reads that ended inside a multi-byte character
	afterEnd  int // reads after the end was reported
	afterRet  int32
	overlap   int32
	foreign   int32 // reads made by a call that the reader was not given to
	misuse    string
	delivered int
	fired     bool
}

func newReader(data []byte, d Delivery, stop *Stop, t *simTask, clk *int64) *SimReader {
	r := &SimReader{data: data, d: d, task: t, clk: clk}
	if stop != nil {
		r.stop = *stop
		if r.stop.At > len(data) {
			r.stop.At = len(data)
		}
		if r.stop.At < 0 {
			r.stop.At = 0
		}
	} else {
		r.stop = Stop{At: len(data), Kind: "eof", After: "sticky"}
	}
	return r
}

func (r *SimReader) setMisuse(s string) {
	if r.misuse == "" {
		r.misuse = s
	}
}

var garbage = []string{"", "\x00", "}", ";", "\xff", " message Scribbled { int32 a = 1; } ", "\n", "\"", "a", "*/", "\xe2\x82"}

// Read implements io.Reader.
func (r *SimReader) Read(p []byte) (int, error) {
	if atomic.LoadInt32(&r.returned) != 0 {
		atomic.AddInt32(&r.afterRet, 1)
	}
	if !atomic.CompareAndSwapInt32(&r.in, 0, 1) {
		atomic.AddInt32(&r.overlap, 1)
	}
	defer atomic.StoreInt32(&r.in, 0)
	r.reads++
	if r.task != nil && !r.task.running() && !hook.Foreign {
		r.foreign++
	}
	if len(r.d.Lat) > 0 {
		l := r.d.Lat[r.li%len(r.d.Lat)]
		r.li++
		if r.task != nil {
			r.task.sleep(int64(l) * 1000)
		} else if r.clk != nil {
			*r.clk += int64(l) * 1000
		}
	} else if r.task != nil && !r.quiet {
		r.task.sleep(0)
	}
	if r.ended {
		r.afterEnd++
		switch r.stop.After {
		case "err":
			return 0, errors.New("read after the end")
		case "panic":
			panic(&panicValue{"read after the end"})
		case "stall":
			r.block()
			return 0, r.cause
		case "sticky":
			if r.cause != nil {
				return 0, r.cause
			}
			return 0, io.EOF
		}
		// more: the reader goes on as if nothing had happened
		n := copy(p, r.data[r.pos:])
		r.pos += n
		if n == 0 {
			return 0, io.EOF
		}
		return n, nil
	}
	if r.pos >= r.stop.At {
		return r.atStop(0)
	}
	n := r.d.Rest
	if r.ci < len(r.d.Chunks) {
		n = r.d.Chunks[r.ci]
		r.ci++
		if n == 0 {
			r.zeroReads++
			r.fill(p, 0)
			return 0, nil
		}
	}
	if n <= 0 || n > len(p) {
		n = len(p)
	}
	if n > r.stop.At-r.pos {
		n = r.stop.At - r.pos
	}
	copy(p[:n], r.data[r.pos:r.pos+n])
	r.pos += n
	r.delivered += n
	if r.pos < len(r.data) && r.data[r.pos]&0xC0 == 0x80 {
		r.splits++
	}
	r.fill(p, n)
	if r.pos >= r.stop.At && (r.d.WithEnd || r.stop.With) && (r.stop.Kind == "eof" || r.stop.Kind == "err") {
		return r.atStop(n)
	}
	return n, nil
}

func (r *SimReader) fill(p []byte, n int) {
	if r.d.Scribble <= 0 || n >= len(p) {
		return
	}
	g := garbage[r.d.Scribble%len(garbage)]
	if g == "" {
		g = "}"
	}
	for i := n; i < len(p); i++ {
		p[i] = g[(i-n)%len(g)]
	}
}

func (r *SimReader) atStop(n int) (int, error) {
	r.fired = true
	switch r.stop.Kind {
	case "err":
		r.ended = true
		r.cause = makeErr(r.stop.Err)
		return n, r.cause
	case "panic":
		r.panicVal = &panicValue{"reader panics"}
		r.ended = true
		panic(r.panicVal)
	case "goexit":
		r.ended = true
		runtime.Goexit()
	case "stall":
		r.block()
		r.ended = true
		r.cause = makeErr(r.stop.Err)
		return n, r.cause
	case "zeros":
		r.zeroReads++
		return 0, nil
	}
	r.ended = true
	return n, io.EOF
}

func (r *SimReader) block() {
	if r.task != nil && !hook.Foreign {
		r.task.stall()
	} else if r.clk != nil {
		*r.clk += 3600 * 1e9
	}
}

// wrap applies the reader adapters of the standard library.
func (r *SimReader) wrap(k int) io.Reader {
	switch k {
	case 1:
		return bufio.NewReaderSize(r, 16)
	case 2:
		return bufio.NewReaderSize(r, 4096)
	case 3:
		return io.LimitReader(r, 1<<40)
	case 4:
		return io.MultiReader(r)
	case 5:
		return io.TeeReader(r, io.Discard)
	}
	if r.stop != (Stop{At: len(r.data), Kind: "eof", After: "sticky"}) {
		return r
	}
	// the readers of the standard library that hold the content, each of a copy of its own
	r.own = append([]byte(nil), r.data...)
	switch k {
	case 6:
		return bytes.NewBuffer(r.own)
	case 7:
		return bytes.NewReader(r.own)
	case 8:
		return strings.NewReader(string(r.own))
	}
	return r
}

// reclaim overwrites the memory of the content, which belongs to the caller.
func (r *SimReader) reclaim() {
	for i := range r.own {
		r.own[i] = '#'
	}
}

// rich is a reader with every method the standard library looks for. All but Read are misuse.
type rich struct{ *SimReader }

func (r rich) Close() error { r.setMisuse("Close"); return nil }
func (r rich) Seek(o int64, w int) (int64, error) {
	r.setMisuse("Seek")
	if w == io.SeekStart && o >= 0 && o <= int64(len(r.data)) {
		r.pos = int(o)
	}
	return int64(r.pos), nil
}
func (r rich) Write(p []byte) (int, error)            { r.setMisuse("Write"); return len(p), nil }
func (r rich) WriteString(s string) (int, error)      { r.setMisuse("WriteString"); return len(s), nil }
func (r rich) WriteAt(p []byte, o int64) (int, error) { r.setMisuse("WriteAt"); return len(p), nil }
func (r rich) ReadAt(p []byte, o int64) (int, error)  { r.setMisuse("ReadAt"); return 0, io.EOF }
func (r rich) ReadByte() (byte, error)                { r.setMisuse("ReadByte"); return 0, io.EOF }
func (r rich) UnreadByte() error                      { r.setMisuse("UnreadByte"); return nil }
func (r rich) ReadRune() (rune, int, error)           { r.setMisuse("ReadRune"); return 0, 0, io.EOF }
func (r rich) UnreadRune() error                      { r.setMisuse("UnreadRune"); return nil }
func (r rich) ReadFrom(io.Reader) (int64, error)      { r.setMisuse("ReadFrom"); return 0, nil }
func (r rich) WriteTo(io.Writer) (int64, error)       { r.setMisuse("WriteTo"); return 0, nil }
func (r rich) ReadString(byte) (string, error)        { r.setMisuse("ReadString"); return "", io.EOF }
func (r rich) ReadBytes(byte) ([]byte, error)         { r.setMisuse("ReadBytes"); return nil, io.EOF }
func (r rich) Peek(int) ([]byte, error)               { r.setMisuse("Peek"); return nil, io.EOF }
func (r rich) Discard(n int) (int, error)             { r.setMisuse("Discard"); return n, nil }
func (r rich) Reset()                                 { r.setMisuse("Reset") }
func (r rich) Truncate(int64) error                   { r.setMisuse("Truncate"); return nil }
func (r rich) Sync() error                            { r.setMisuse("Sync"); return nil }
func (r rich) Flush() error                           { r.setMisuse("Flush"); return nil }
func (r rich) Len() int                               { r.setMisuse("Len"); return (len(r.data) - r.pos) / 2 }
func (r rich) Size() int64                            { r.setMisuse("Size"); return int64(len(r.data) / 2) }
func (r rich) Name() string                           { r.setMisuse("Name"); return "sim.proto" }
func (r rich) Stat() (os.FileInfo, error)             { r.setMisuse("Stat"); return nil, os.ErrInvalid }
func (r rich) Fd() uintptr                            { r.setMisuse("Fd"); return ^uintptr(0) }
func (r rich) SetReadDeadline(time.Time) error        { r.setMisuse("SetReadDeadline"); return nil }
func (r rich) CloseWithError(error) error             { r.setMisuse("CloseWithError"); return nil }
func (r rich) String() string                         { return "sim reader" }

// closer is a reader that can only be closed in addition.
type closer struct{ *SimReader }

func (r closer) Close() error { r.setMisuse("Close"); return nil }

// seeker can be seeked and closed.
type seeker struct{ *SimReader }

func (r seeker) Seek(o int64, w int) (int64, error) {
	r.setMisuse("Seek")
	if w == io.SeekStart && o >= 0 && o <= int64(len(r.data)) {
		r.pos = int(o)
	}
	return int64(r.pos), nil
}
func (r seeker) Close() error { r.setMisuse("Close"); return nil }

// runer is an io.RuneScanner in addition.
type runer struct{ *SimReader }

func (r runer) ReadRune() (rune, int, error) { r.setMisuse("ReadRune"); return 0, 0, io.EOF }
func (r runer) UnreadRune() error            { r.setMisuse("UnreadRune"); return nil }

// byter is an io.ByteScanner in addition.
type byter struct{ *SimReader }

func (r byter) ReadByte() (byte, error) { r.setMisuse("ReadByte"); return 0, io.EOF }
func (r byter) UnreadByte() error       { r.setMisuse("UnreadByte"); return nil }

// writerTo writes itself in addition.
type writerTo struct{ *SimReader }

func (r writerTo) WriteTo(w io.Writer) (int64, error) { r.setMisuse("WriteTo"); return 0, nil }

const readerTypes = 7

func (r *SimReader) as(k int) io.Reader {
	switch k {
	case 1:
		return closer{r}
	case 2:
		return seeker{r}
	case 3:
		return runer{r}
	case 4:
		return byter{r}
	case 5:
		return writerTo{r}
	case 6:
		return rich{r}
	}
	return r
}
