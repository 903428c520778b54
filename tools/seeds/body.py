HDR='''package body

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"sync"
	"testing"
	"time"
)

var (
	_ = errors.New
	_ = fs.ErrClosed
	_ = os.Open
	_ = strings.NewReader
	_ sync.Mutex
	_ = time.Now
)

var errZZ = errors.New("zz source failure")

// zzSrc is a source with a script: it serves data, at most chunk bytes at a
// time, and returns err (default io.EOF) at the end.
type zzSrc struct {
	mu     sync.Mutex
	data   string
	pos    int64
	chunk  int
	err    error
	log    []string
	reads  int
	closes int
	asked  int64
	panics bool
}

func (s *zzSrc) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n, err := s.at(p, s.pos, true)
	s.pos += int64(n)
	return n, err
}

func (s *zzSrc) at(p []byte, q int64, short bool) (int, error) {
	s.reads++
	if s.panics {
		s.panics = false
		panic("zz panic")
	}
	if s.asked < q+int64(len(p)) {
		s.asked = q + int64(len(p))
	}
	if short && s.chunk > 0 && len(p) > s.chunk {
		p = p[:s.chunk]
	}
	n := 0
	if q < int64(len(s.data)) {
		n = copy(p, s.data[q:])
	}
	if n < len(p) {
		if s.err != nil {
			return n, s.err
		}
		return n, io.EOF
	}
	return n, nil
}

func (s *zzSrc) Close() error { s.closes++; return nil }

type zzAt struct{ *zzSrc }

func (s zzAt) ReadAt(p []byte, off int64) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.at(p, off, false)
}

type zzSeek struct{ *zzSrc }

func (s zzSeek) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case 1:
		off += s.pos
	case 2:
		off += int64(len(s.data))
	}
	s.pos = off
	return off, nil
}

type zzSeekAt struct {
	zzSeek
	at zzAt
}

func (s zzSeekAt) ReadAt(p []byte, off int64) (int, error) { return s.at.ReadAt(p, off) }

func zzMake(t *testing.T, r io.Reader, n int64) Body {
	b, err := FromReaderAndLength(r, n)
	if err != nil {
		t.Fatal(err)
	}
	return b
}

func zzCopy(t *testing.T, b Body) Body {
	c, err := b.Copy()
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func zzRead(t *testing.T, b io.Reader, n int, want string, werr error) {
	t.Helper()
	p := make([]byte, n)
	n, err := b.Read(p)
	if string(p[:n]) != want || !errors.Is(err, werr) || (werr == nil && err != nil) {
		t.Fatalf("Read: %q, %v; want %q, %v", p[:n], err, want, werr)
	}
}

func zzTimeout(t *testing.T, f func()) {
	done := make(chan bool)
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("deadlock")
	}
}
'''
def T(body): return HDR+"\nfunc TestZZDemo(t *testing.T) {\n"+body+"\n}\n"

seed("B01-readerat-length","B01","body",[("body/readerat.go",'''	common.mu.Lock()
	length := common.length
	common.mu.Unlock()
	return length
''','''	return common.length
''')],T('''
	b := zzMake(t, zzAt{&zzSrc{data: "abc"}}, 10)
	c := zzCopy(t, b)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); io.ReadAll(b) }()
	go func() { defer wg.Done(); for i := 0; i < 1000; i++ { c.BytesRemaining() } }()
	wg.Wait()
'''),"two goroutines: one copy reads past the early end of the source (which corrects the shared length) while the other asks for its remaining bytes","the shared length is read without the shared lock",flags="-race")

seed("B01-seeker-unlocked","B01","body",[("body/seeker.go",'''	common := body.common
	common.mu.Lock()
	defer common.mu.Unlock()

	offset := body.offset
	length := common.length
	if offset > length {
		offset = length
	}

	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}

	var (
		n   int
		err error
	)
	if avail > 0 {
		n, err = common.readAt(p[0:x], offset)
	}
''','''	common := body.common
	common.mu.Lock()
	defer common.mu.Unlock()

	offset := body.offset
	length := common.length
	if offset > length {
		offset = length
	}

	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}

	var (
		n   int
		err error
	)
	if avail > 0 {
		// do not block BytesRemaining of the copies during the read
		common.mu.Unlock()
		n, err = common.readAt(p[0:x], offset)
		common.mu.Lock()
	}
''')],T('''
	b := zzMake(t, zzSeek{&zzSrc{data: strings.Repeat("a", 100000)}}, -1)
	c := zzCopy(t, b)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); io.ReadAll(b) }()
	go func() { defer wg.Done(); io.ReadAll(c) }()
	wg.Wait()
'''),"two copies reading at the same time","the shared lock is dropped while the source is seeked and read, so two copies use it at once",flags="-race")

seed("B02-panic-leaks-lock","B02","body",[("body/readerat.go",'''	common := body.common
	common.mu.Lock()
	defer common.mu.Unlock()

	offset := body.offset
''','''	common := body.common
	common.mu.Lock()

	offset := body.offset
'''),("body/readerat.go",'''			common.length = length
		}
	}

	return n, err
''','''			common.length = length
		}
	}

	common.mu.Unlock()
	return n, err
''')],T('''
	s := &zzSrc{data: "abcdef", panics: true}
	b := zzMake(t, zzAt{s}, 6)
	c := zzCopy(t, b)
	func() {
		defer func() { recover() }()
		b.Read(make([]byte, 3))
	}()
	zzTimeout(t, func() { zzRead(t, c, 3, "abc", nil) })
'''),"the source's ReadAt panics and the panic is recovered, then another copy is used","the shared lock stays locked after a panic of the source")

seed("B02-lock-order","B02","body",[("body/buffered.go",'''func (body *bufferedBody) Copy() (Body, error) {
	body.mu.Lock()
	defer body.mu.Unlock()

	if body.closed {
		return closedSingleton, nil
	}

	dupe := &bufferedBody{
		common: body.common,
		offset: body.offset,
		eof:    body.eof,
		closed: body.closed,
	}
	dupe.common.ref(dupe)
	return dupe, nil
}
''','''func (body *bufferedBody) Copy() (Body, error) {
	body.mu.Lock()
	defer body.mu.Unlock()

	if body.closed {
		return closedSingleton, nil
	}

	dupe := &bufferedBody{
		common: body.common,
		offset: body.offset,
		eof:    body.eof,
		closed: body.closed,
	}
	dupe.common.ref(dupe)
	return dupe, nil
}

// atSameOffset tells whether two copies are at the same position.
func (common *bufferedCommon) settle(body *bufferedBody) {
	for other := range common.bodies {
		if other == body {
			continue
		}
		other.mu.Lock()
		if other.offset < common.start {
			other.offset = common.start
		}
		other.mu.Unlock()
	}
}
'''),("body/buffered.go",'''	common.advance(beginOffset, endOffset)
	return n, err
''','''	common.advance(beginOffset, endOffset)
	common.settle(body)
	return n, err
''')],T('''
	for i := 0; i < 200; i++ {
		b := zzMake(t, &zzSrc{data: strings.Repeat("a", 200000)}, -1)
		c := zzCopy(t, b)
		zzTimeout(t, func() {
			var wg sync.WaitGroup
			for _, x := range []Body{b, c} {
				wg.Add(1)
				go func(x Body) { defer wg.Done(); p := make([]byte, 10); for j := 0; j < 500; j++ { x.Read(p) } }(x)
			}
			wg.Wait()
		})
	}
'''),"two copies of a buffered body reading concurrently","the lock of another body is taken while the shared lock is held: against the order in which Read takes them")

seed("B03-seek-validates-first","B03","body",[("body/seeker.go",'''	if body.closed {
		return -1, fs.ErrClosed
	}

	common := body.common
	length := common.BytesRemaining()

	switch whence {
	case io.SeekStart:
		if offset < 0 {
			return -1, NegativeStartOffsetSeekError{offset}
		}
''','''	if whence == io.SeekStart && offset < 0 {
		return -1, NegativeStartOffsetSeekError{offset}
	}

	if body.closed {
		return -1, fs.ErrClosed
	}

	common := body.common
	length := common.BytesRemaining()

	switch whence {
	case io.SeekStart:
''')],T('''
	b := zzMake(t, zzSeek{&zzSrc{data: "abcdef"}}, -1)
	b.Close()
	n, err := b.(io.Seeker).Seek(-1, io.SeekStart)
	if n != -1 || err != fs.ErrClosed {
		t.Fatal(n, err)
	}
'''),"Seek with a negative start offset on a closed body","a closed body reports an argument error instead of fs.ErrClosed")

seed("B03-copy-of-closed-empty","B03","body",[("body/empty.go",'''	if body.closed {
		return closedSingleton, nil
	}

	dupe''','''	dupe''')],T('''
	b := Empty()
	b.Close()
	c := zzCopy(t, b)
	if err := c.Close(); err != fs.ErrClosed {
		t.Fatal(err)
	}
'''),"copying an empty body that was closed","the copy of a closed body is open")

seed("B04-copy-without-ref","B04","body",[("body/readerat.go",'''	dupe.common.ref()
	return dupe, nil
''','''	if body.err == nil {
		dupe.common.ref()
	}
	return dupe, nil
''')],T('''
	s := &zzSrc{data: "abcdef"}
	b := zzMake(t, zzAt{s}, 6)
	io.ReadAll(b)
	c := zzCopy(t, b)
	c.Close()
	if s.closes != 0 {
		t.Fatal("the source is closed although a body is open")
	}
	b.Close()
	if s.closes != 1 {
		t.Fatal("closed", s.closes)
	}
'''),"a copy made after the end of data was reached, and closed before the original","such a copy is not counted, so closing it closes the source under the other bodies")

seed("B04-close-at-end","B04","body",[("body/buffered.go",'''	if len(common.bodies) > 0 {
		if''','''	if len(common.bodies) > 0 && (common.err != io.EOF || len(common.bytes) > 0) {
		if''')],T('''
	s := &zzSrc{data: "abcdef"}
	b := zzMake(t, s, -1)
	c := zzCopy(t, b)
	io.ReadAll(b)
	io.ReadAll(c)
	b.Close()
	if s.closes != 0 {
		t.Fatal("the source is closed although a body is open")
	}
	c.Close()
'''),"all copies have read everything, then one of them is closed","the source is closed early, although a body is still open")

seed("B05-copy-forgets-error","B05","body",[("body/seeker.go",'''		common: body.common,
		err:    body.err,
''','''		common: body.common,
''')],T('''
	s := &zzSrc{data: "abcdef", err: errZZ}
	b := zzMake(t, zzSeek{s}, 20)
	zzRead(t, b, 10, "abcdef", errZZ)
	c := zzCopy(t, b)
	s.data, s.err = "abcdefghi", nil
	zzRead(t, c, 10, "", errZZ)
'''),"copying a body whose source has failed, then reading the copy","the copy does not have the error condition of the original")

seed("B05-copy-rebased","B05","body",[("body/bytes.go",'''		data:   body.data,
		offset: body.offset,
''','''		data:   body.data[body.offset:],
''')],T('''
	b := FromString("abcdef")
	zzRead(t, b, 3, "abc", nil)
	c := zzCopy(t, b)
	if n, err := c.(io.Seeker).Seek(0, io.SeekCurrent); n != 3 || err != nil {
		t.Fatal(n, err)
	}
'''),"a copy of a partly read body is sought","the copy starts at position 0 of the rest instead of the position of the original")

seed("B06-empty-seeker","B06","body",[("body/body.go",'''	if sOK && length >= 0 {''','''	if sOK && length > 0 {''')],T('''
	b := zzMake(t, zzSeek{&zzSrc{}}, -1)
	if _, is := b.(io.Seeker); !is {
		t.Fatal("not a Seeker")
	}
'''),"a seekable reader without any bytes","the body of an empty seekable reader does not implement io.Seeker")

seed("B07-advance-by-request","B07","body",[("body/readerat.go",'''	offset += int64(n)
	body.offset = offset

	if err''','''	offset += int64(n)
	body.offset += x

	if err''')],T('''
	b := zzMake(t, zzAt{&zzSrc{data: "abcd", err: errZZ}}, 10)
	zzRead(t, b, 8, "abcd", errZZ)
	if n, err := b.(io.Seeker).Seek(0, io.SeekCurrent); n != 4 || err != nil {
		t.Fatal(n, err)
	}
'''),"a ReadAt of the source that fails after some bytes","the position advances by the bytes requested instead of the bytes read")

seed("B08-negative","B08","body",[("body/readerat.go",'''	if offset >= length {
		return 0
	}
	return (length - offset)
''','''	return (length - offset)
''')],T('''
	b := zzMake(t, zzAt{&zzSrc{data: "abcd"}}, 10)
	c := zzCopy(t, b)
	c.(io.Seeker).Seek(8, io.SeekStart)
	io.ReadAll(b)
	if n := c.BytesRemaining(); n != 0 {
		t.Fatal(n)
	}
'''),"a source shorter than declared: one copy is sought beyond its end, another discovers the end","BytesRemaining is negative")

seed("B08-buffered-failed","B08","body",[("body/buffered.go",'''				common.length = endBuffer
				common.err = err
''','''				if err == io.EOF {
					common.length = endBuffer
				}
				common.err = err
''')],T('''
	b := zzMake(t, &zzSrc{data: "abcd", err: errZZ}, -1)
	c := zzCopy(t, b)
	zzRead(t, b, 10, "abcd", errZZ)
	if n := c.BytesRemaining(); n != 4 {
		t.Fatal(n)
	}
'''),"a stream that fails; a copy that has not consumed what was read before","BytesRemaining is unknown although the stream has ended")

seed("B09-failure-masked","B09","body",[("body/readerat.go",'''	if eof && err == nil {
		err = io.EOF
	}

	offset += int64(n)
''','''	if eof {
		err = io.EOF
	}

	offset += int64(n)
''')],T('''
	b := zzMake(t, zzAt{&zzSrc{data: "abcd", err: errZZ}}, 10)
	zzRead(t, b, 20, "abcd", errZZ)
'''),"a source that fails during a read which asks for more than the rest","the failure is reported as io.EOF")


seed("B10-stale-error","B10","body",[("body/seeker.go",'''	body.err = nil
	body.offset = offset
	return offset, nil
''','''	if offset != body.offset {
		body.err = nil
		body.offset = offset
	}
	return offset, nil
''')],T('''
	s := &zzSrc{data: "abcd", err: errZZ}
	b := zzMake(t, zzSeek{s}, 8)
	zzRead(t, b, 20, "abcd", errZZ)
	b.(io.Seeker).Seek(4, io.SeekStart)
	s.data = "abcdefgh"
	zzRead(t, b, 4, "efgh", nil)
'''),"after a failure, seeking to the position the body is already at","the error condition is not cleared")

seed("B10-failed-seek-moves","B10","body",[("body/readerat.go",'''	case io.SeekCurrent:
		offset += body.offset
''','''	case io.SeekCurrent:
		body.offset += offset
		offset = body.offset
'''),],T('''
	b := zzMake(t, zzAt{&zzSrc{data: "abcd"}}, 4)
	zzRead(t, b, 2, "ab", nil)
	if _, err := b.(io.Seeker).Seek(-3, io.SeekCurrent); err == nil {
		t.Fatal("no error")
	}
	zzRead(t, b, 2, "cd", nil)
'''),"a relative Seek to before the start","a refused Seek changes the position")

seed("B11-sets-eof","B11","body",[("body/bytes.go",'''	if int64(n) > avail {
		n = int(avail)
		err = io.EOF
	}
''','''	if int64(n) > avail {
		n = int(avail)
		err = io.EOF
		body.eof = true
	}
''')],T('''
	b := FromString("abcdef")
	b.(io.ReaderAt).ReadAt(make([]byte, 10), 3)
	zzRead(t, b, 3, "abc", nil)
'''),"ReadAt past the end, then Read","ReadAt puts the body into the end-of-data condition")


seed("B12-claims-all","B12","body",[("body/bytes.go",'''	return int64(n), err
}

func (body *bytesBody) Copy''','''	return int64(avail), err
}

func (body *bytesBody) Copy''')],T('''
	b := FromString("abcdef")
	n, err := b.(io.WriterTo).WriteTo(zzShort{})
	if n != 2 || err != errZZ {
		t.Fatal(n, err)
	}
''')+'''
type zzShort struct{}

func (zzShort) Write(p []byte) (int, error) { return 2, errZZ }
''',"a destination that accepts only a part","WriteTo returns the bytes offered instead of the bytes accepted")





seed("B15-skips-copy","B15","body",[("body/buffered.go",'''	if oldOffset == beginBuffer && newOffset != beginBuffer {
		common.refcnt--
		if common.refcnt <= 0 {
			common.updateStart()
		}
	}
''','''	if oldOffset == beginBuffer && newOffset != beginBuffer {
		common.refcnt--
		if common.refcnt <= 0 {
			// this was the slowest body
			common.bytes = common.bytes[newOffset-beginBuffer:]
			common.start = newOffset
			common.refcnt = 1
		}
	}
''')],T('''
	b := zzMake(t, &zzSrc{data: "abcdefghijkl"}, -1)
	c := zzCopy(t, b)
	zzRead(t, c, 3, "abc", nil)
	zzRead(t, b, 6, "abcdef", nil)
	zzRead(t, c, 3, "def", nil)
'''),"the slowest body overtakes another copy in one Read","bytes the overtaken copy has not consumed are discarded")

seed("B15-gap-after-trim","B15","body",[("body/buffered.go",'''	endOffset := beginOffset + int64(len(p))

	assert.Assertf(beginOffset >= beginBuffer, "%d >= %d", beginOffset, beginBuffer)

	if common.err == nil && endOffset > endBuffer {
''','''	endOffset := beginOffset + int64(len(p))

	assert.Assertf(beginOffset >= beginBuffer, "%d >= %d", beginOffset, beginBuffer)

	if common.err == nil && endOffset > endBuffer {
		if len(common.bodies) == 1 {
			// everything before our position is no longer needed
			common.bytes = common.bytes[:0]
			common.start = endBuffer
			beginBuffer = endBuffer
			beginOffset = endBuffer
			endOffset = beginOffset + int64(len(p))
			common.refcnt = 1
		}
''')],T('''
	data := strings.Repeat("0123456789", 20000)
	b := zzMake(t, &zzSrc{data: data}, -1)
	var sb strings.Builder
	p := make([]byte, 1000)
	for {
		n, err := b.Read(p)
		sb.Write(p[:n])
		if err != nil {
			break
		}
	}
	if sb.String() != data {
		t.Fatal("gap")
	}
'''),"a stream longer than one block read in pieces that do not divide the block size","the rest of the block is skipped")


seed("B17-zero-declared","B17","body",[("body/body.go",'''	if length < 0 {
		length = -1
	}
''','''	if length <= 0 {
		length = -1
	}
''')],T('''
	b := zzMake(t, &zzSrc{data: "abcdef"}, 0)
	if n := b.BytesRemaining(); n != 0 {
		t.Fatal(n)
	}
'''),"a declared length of 0","a declared length of zero is treated as unknown")

seed("B17-error-not-wrapped","B17","body",[("body/body.go",'''via Seek: %w", err)
		}
		assert''','''via Seek: %v", err)
		}
		assert''')],T('''
	_, err := FromReader(zzBadSeek{})
	if !errors.Is(err, errZZ) {
		t.Fatal(err)
	}
''')+'''
type zzBadSeek struct{}

func (zzBadSeek) Read(p []byte) (int, error)       { return 0, io.EOF }
func (zzBadSeek) Seek(int64, int) (int64, error) { return 0, errZZ }
''',"a reader whose Seek fails while it is measured","the error of the reader is not wrapped")
