M="internal/mockreader/mockreader.go"
HDR='''package mockreader

import (
	"errors"
	"io"
	"sync"
	"testing"
)

var _ = errors.New
var _ = io.EOF
var _ sync.Mutex

func failed(f func()) (e *ExpectationFailedError) {
	defer func() {
		if x, is := recover().(ExpectationFailedError); is {
			e = &x
		}
	}()
	f()
	return nil
}
'''
seed("M01-whence-ignored","M01","internal/mockreader",[(M,'''		x.input2 == y.input2 &&
''','''		(x.op != SeekOp || x.input1 == 0 || x.input2 == y.input2) &&
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	r := New(ExpectSeek(0, io.SeekEnd, 7, nil))
	if failed(func() { r.Seek(0, io.SeekStart) }) == nil {
		t.Fatal("a seek with another whence was accepted")
	}
}
''',"a seek by zero relative to another origin","a call with other arguments is accepted")
seed("M01-retry-after-mismatch","M01","internal/mockreader",[(M,'''	if !expect.Matches(actual) {
		panic(ExpectationFailedError{index, expect, actual})
	}

	debug("mock index %d: matched %+v", index, expect)
	err := expect.output2
	return err
''','''	if !expect.Matches(actual) {
		r.mu.Lock()
		r.index = index
		r.mu.Unlock()
		panic(ExpectationFailedError{index, expect, actual})
	}

	debug("mock index %d: matched %+v", index, expect)
	err := expect.output2
	return err
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	r := New(ExpectMark("a"), ExpectMark("b"))
	failed(func() { r.Close() })
	if failed(func() { r.Mark("b") }) != nil {
		t.Fatal("the failing call did not consume its expectation")
	}
}
''',"a failing Close, recovered, and further calls","a failing call does not consume the expectation")
seed("M01-short-copy","M01","internal/mockreader",[(M,'''func (r *MockReader) ReadAt(p []byte, offset int64) (int, error) {
	index, expect := r.next()
	actual := Expectation{op: ReadAtOp, input0: p, input1: offset}

	if !expect.Matches(actual) {
		panic(ExpectationFailedError{index, expect, actual})
	}

	debug("mock index %d: matched %+v", index, expect)
	n := int(expect.output0)
	err := expect.output2
	if n > 0 {''','''func (r *MockReader) ReadAt(p []byte, offset int64) (int, error) {
	index, expect := r.next()
	actual := Expectation{op: ReadAtOp, input0: p, input1: offset}

	if !expect.Matches(actual) {
		panic(ExpectationFailedError{index, expect, actual})
	}

	debug("mock index %d: matched %+v", index, expect)
	n := int(expect.output0)
	err := expect.output2
	if n > 0 && (err == nil || err == io.EOF) {''')],HDR+'''
func TestZZDemo(t *testing.T) {
	r := New(ExpectReadAt([]byte("abcd"), 3, 2, errors.New("broken")))
	p := make([]byte, 4)
	n, _ := r.ReadAt(p, 3)
	if n != 2 || string(p[:2]) != "ab" {
		t.Fatalf("%d %q", n, p)
	}
}
''',"a scripted ReadAt which delivers bytes and an error","the scripted bytes are not delivered")
seed("M01-unlocked-peek","M01","internal/mockreader",[(M,'''	r.mu.Lock()
	defer r.mu.Unlock()

	index := r.index
	length := uint(len(r.expect))
	if index >= length {
		return length, Expectation{}
	}

	r.index++
	return index, r.expect[index]
''','''	index := r.index
	length := uint(len(r.expect))
	if index >= length {
		return length, Expectation{}
	}

	r.mu.Lock()
	defer r.mu.Unlock()

	r.index++
	return index, r.expect[index]
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	for try := 0; try < 20; try++ {
		var list []Expectation
		for i := 0; i < 20000; i++ {
			list = append(list, ExpectClose(nil))
		}
		r := New(list...)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 2500; i++ {
					r.Close()
				}
			}()
		}
		wg.Wait()
		if failed(func() { r.Close() }) == nil {
			t.Fatal("two calls consumed the same expectation")
		}
	}
}
''',"concurrent calls","two concurrent calls consume the same expectation",flags="-race")
seed("M01-wrapper-readat","M01","internal/mockreader",[("internal/mockreader/wrapper111.go",'''func (w Wrapper111) ReadAt(p []byte, offset int64) (int, error) {
	return w.Inner.ReadAt(p, offset)
''','''func (w Wrapper111) ReadAt(p []byte, offset int64) (int, error) {
	if len(p) == 0 && offset > 0 {
		return 0, nil
	}
	return w.Inner.ReadAt(p, offset)
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	r := New(ExpectReadAt(nil, 5, 0, io.EOF))
	if _, err := (Wrapper111{r}).ReadAt(nil, 5); err != io.EOF {
		t.Fatalf("%v", err)
	}
}
''',"an empty ReadAt through a wrapper","a call on a wrapper is not forwarded")
seed("M01-exhausted-index","M01","internal/mockreader",[(M,'''		return length, Expectation{}
	}

	r.index++''','''		r.index = index + 1
		return index, Expectation{}
	}

	r.index++''')],HDR+'''
func TestZZDemo(t *testing.T) {
	r := New(ExpectClose(nil))
	r.Close()
	for i := 0; i < 3; i++ {
		if e := failed(func() { r.Close() }); e == nil || e.Index != 1 {
			t.Fatalf("%v", e)
		}
	}
}
''',"several calls after the end of the script","the error names a position beyond the script")
