M="internal/mockreader/mockreader.go"
PRE='''	if !expect.Matches(actual) {
		panic(ExpectationFailedError{index, expect, actual})
	}
'''
refactor("m-check-helper",(M,PRE,'''	check(index, expect, actual)
'''),(M,None,'''
func check(index uint, expect, actual Expectation) {
	if expect.Matches(actual) {
		return
	}
	panic(ExpectationFailedError{Index: index, Expect: expect, Actual: actual})
}
'''))
refactor("m-consume-helper",(M,'''	index, expect := r.next()
	actual := Expectation{op: CloseOp}

	if !expect.Matches(actual) {
		panic(ExpectationFailedError{index, expect, actual})
	}

	debug("mock index %d: matched %+v", index, expect)
	err := expect.output2
	return err
''','''	return r.consume(Expectation{op: CloseOp}).output2
'''),(M,'''	index, expect := r.next()
	actual := Expectation{op: StatOp}

	if !expect.Matches(actual) {
		panic(ExpectationFailedError{index, expect, actual})
	}

	debug("mock index %d: matched %+v", index, expect)
	fi := expect.output1
	err := expect.output2
	return fi, err
''','''	x := r.consume(Expectation{op: StatOp})
	return x.output1, x.output2
'''),(M,None,'''
func (r *MockReader) consume(actual Expectation) Expectation {
	index, expect := r.next()
	if !expect.Matches(actual) {
		panic(ExpectationFailedError{index, expect, actual})
	}
	debug("mock index %d: matched %+v", index, expect)
	return expect
}
'''))
refactor("m-new-copies",(M,'return &MockReader{expect: list}','return &MockReader{expect: append([]Expectation(nil), list...)}'))
refactor("m-new-make-copy",(M,'return &MockReader{expect: list}','''own := make([]Expectation, len(list))
	copy(own, list)
	return &MockReader{expect: own}'''))
refactor("m-rest-slice",(M,'''	index := r.index
	length := uint(len(r.expect))
	if index >= length {
		return length, Expectation{}
	}

	r.index++
	return index, r.expect[index]
''','''	index := r.index
	if len(r.expect) == 0 {
		return index, Expectation{}
	}

	first := r.expect[0]
	r.expect = r.expect[1:]
	r.index++
	return index, first
'''))
refactor("m-int-index",(M,'''	index  uint
''','''	index  int
'''),(M,'''	length := uint(len(r.expect))
	if index >= length {
		return length, Expectation{}
	}

	r.index++
	return index, r.expect[index]
''','''	if index < len(r.expect) {
		r.index = index + 1
		return uint(index), r.expect[index]
	}
	return uint(len(r.expect)), Expectation{}
'''))
refactor("m-no-defer",(M,'''	r.mu.Lock()
	defer r.mu.Unlock()

	index := r.index
	length := uint(len(r.expect))
	if index >= length {
		return length, Expectation{}
	}

	r.index++
	return index, r.expect[index]
''','''	length := uint(len(r.expect))
	r.mu.Lock()
	index := r.index
	if index < length {
		r.index++
	}
	r.mu.Unlock()
	if index == length {
		return length, Expectation{}
	}
	return index, r.expect[index]
'''))
refactor("m-matches-switch",(M,'''	return (x.op == y.op &&
		x.input1 == y.input1 &&
		x.input2 == y.input2 &&
		x.input3 == y.input3 &&
		len(x.input0) == len(y.input0))
''','''	if x.op != y.op {
		return false
	}
	switch x.op {
	case MarkOp:
		return x.input3 == y.input3
	case ReadOp:
		return len(x.input0) == len(y.input0)
	case ReadAtOp:
		return len(x.input0) == len(y.input0) && x.input1 == y.input1
	case SeekOp:
		return x.input1 == y.input1 && x.input2 == y.input2
	}
	return true
'''))
refactor("m-matches-zero",(M,'''	return (x.op == y.op &&
''','''	return (x.op != UnknownOp && x.op == y.op &&
'''))
refactor("m-copy-plain",(M,'''	if n > 0 {
		copy(p[:n], expect.input0[:n])
	}
''','''	copy(p, expect.input0[:n])
'''))
refactor("m-copy-loop",(M,'''	if n > 0 {
		copy(p[:n], expect.input0[:n])
	}
''','''	for i := 0; i < n; i++ {
		p[i] = expect.input0[i]
	}
'''))
refactor("m-deliver-helper",(M,'''	n := int(expect.output0)
	err := expect.output2
	if n > 0 {
		copy(p[:n], expect.input0[:n])
	}
	return n, err
''','''	return expect.deliver(p)
'''),(M,None,'''
func (x *Expectation) deliver(p []byte) (n int, err error) {
	n, err = int(x.output0), x.output2
	copy(p[:n], x.input0)
	return
}
'''))
refactor("m-fields-grouped",(M,'''	index  uint
}
''','''	progress struct{ index uint }
}
'''),(M,'r.index++','r.progress.index++'),(M,'index := r.index','index := r.progress.index'))
refactor("m-assert-helper",(M,'''	assert.Assertf(n >= 0, "%d >= 0", n)
	assert.Assertf(n <= len(p), "%d <= %d", n, len(p))
''','''	checkCount(n, len(p))
'''),(M,None,'''
func checkCount(n, max int) {
	if n < 0 || n > max {
		assert.Assertf(false, "0 <= %d <= %d", n, max)
	}
}
'''))
refactor("m-wrapper-embedded-call",("internal/mockreader/wrapper111.go",'''	return w.Inner.ReadAt(p, offset)
''','''	inner := w.Inner
	n, err := inner.ReadAt(p, offset)
	return n, err
'''))
