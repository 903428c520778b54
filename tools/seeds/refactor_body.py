S="body/seeker.go"; A="body/readerat.go"; B="body/buffered.go"; Y="body/bytes.go"
# locking style
refactor("defer-to-explicit-ref",(S,"""	common.mu.Lock()
	defer common.mu.Unlock()

	common.refcnt++
""","""	common.mu.Lock()
	common.refcnt++
	common.mu.Unlock()
"""))
refactor("lock-once-remaining",(A,"""	length := body.common.BytesRemaining()
	offset := body.offset
	if offset >= length {
		return 0
	}
	return (length - offset)
""","""	common := body.common
	common.mu.Lock()
	defer common.mu.Unlock()
	if remain := common.length - body.offset; remain > 0 {
		return remain
	}
	return 0
"""))
refactor("unlock-before-post",(A,"""	common := body.common
	common.mu.Lock()
	defer common.mu.Unlock()

	length := common.length
	if offset > length {
		offset = length
	}

	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}

	var n int
	var err error
	if avail > 0 {
		n, err = common.readAt(p[0:x], offset)
	}
""","""	common := body.common
	length := common.BytesRemaining()
	if offset > length {
		offset = length
	}

	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}

	var n int
	var err error
	if avail > 0 {
		common.mu.Lock()
		defer common.mu.Unlock()
		n, err = common.readAt(p[0:x], offset)
	}
"""))
# helper extraction
refactor("helper-clamp",(S,"""	offset := body.offset
	length := common.length
	if offset > length {
		offset = length
	}

	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}
""","""	length := common.length
	offset, x, eof := clampRange(body.offset, length, len(p))
	avail := length - offset
"""),(S,None,"""
func clampRange(offset, length int64, want int) (from, count int64, eof bool) {
	from = offset
	if from > length {
		from = length
	}
	count = int64(want)
	if rest := length - from; count > rest {
		return from, rest, true
	}
	return from, count, false
}
"""))
refactor("helper-resolve",(S,"""	switch whence {
	case io.SeekStart:
		if offset < 0 {
			return -1, NegativeStartOffsetSeekError{offset}
		}
	case io.SeekCurrent:
		offset += body.offset
	case io.SeekEnd:
		offset += length
	default:
		return -1, UnknownWhenceSeekError{whence}
	}

	if offset < 0 {
		return -1, NegativeComputedOffsetSeekError{offset}
	}

	if offset > length {
		offset = length
	}
""","""	offset, err := resolve(offset, whence, body.offset, length)
	if err != nil {
		return -1, err
	}
"""),(A,"""	switch whence {
	case io.SeekStart:
		if offset < 0 {
			return -1, NegativeStartOffsetSeekError{offset}
		}
	case io.SeekCurrent:
		offset += body.offset
	case io.SeekEnd:
		offset += length
	default:
		return -1, UnknownWhenceSeekError{whence}
	}

	if offset < 0 {
		return -1, NegativeComputedOffsetSeekError{offset}
	}

	if offset > length {
		offset = length
	}
""","""	offset, err := resolve(offset, whence, body.offset, length)
	if err != nil {
		return -1, err
	}
"""),(S,None,"""
func resolve(offset int64, whence int, cur, length int64) (int64, error) {
	var base int64
	switch whence {
	case io.SeekStart:
		if offset < 0 {
			return -1, NegativeStartOffsetSeekError{offset}
		}
	case io.SeekCurrent:
		base = cur
	case io.SeekEnd:
		base = length
	default:
		return -1, UnknownWhenceSeekError{whence}
	}
	offset += base
	if offset < 0 {
		return -1, NegativeComputedOffsetSeekError{offset}
	}
	if offset < length {
		return offset, nil
	}
	return length, nil
}
"""))
refactor("if-chain-whence",(A,"""	switch whence {
	case io.SeekStart:
		if offset < 0 {
			return -1, NegativeStartOffsetSeekError{offset}
		}
	case io.SeekCurrent:
		offset += body.offset
	case io.SeekEnd:
		offset += length
	default:
		return -1, UnknownWhenceSeekError{whence}
	}
""","""	if whence == io.SeekStart {
		if offset < 0 {
			return -1, NegativeStartOffsetSeekError{offset}
		}
	} else if whence == io.SeekCurrent {
		offset = body.offset + offset
	} else if whence == io.SeekEnd {
		offset = length + offset
	} else {
		return -1, UnknownWhenceSeekError{whence}
	}
"""))
# seeker
refactor("loop-readat",(S,"""		n, err = common.readAt(p[0:x], offset)
		for err == nil && int64(n) < x {
			var m int
			m, err = common.readAt(p[n:x], offset+int64(n))
			n += m
		}
""","""		for int64(n) < x {
			m, rerr := common.readAt(p[n:x], offset+int64(n))
			n += m
			if rerr != nil {
				err = rerr
				break
			}
		}
"""))
refactor("seek-always-read-later",(S,"	_, err := common.s.Seek(offset, io.SeekStart)\n	if err != nil {\n		return 0, err\n	}\n","	if _, err := common.s.Seek(offset, io.SeekStart); err != nil {\n		return 0, err\n	}\n"))
refactor("copy-field-assign",(S,"""	dupe := &seekerBody{
		common: body.common,
		err:    body.err,
		offset: body.offset,
		closed: body.closed,
	}
	dupe.common.ref()
	return dupe, nil
""","""	body.common.ref()
	dupe := new(seekerBody)
	dupe.common = body.common
	dupe.offset = body.offset
	dupe.err = body.err
	return dupe, nil
"""))
refactor("close-order",(S,"""	common := body.common
	body.common = nil
	body.err = nil
	body.offset = 0
	body.closed = true
	return common.unref()
""","""	body.closed = true
	err := body.common.unref()
	body.common = nil
	body.err = nil
	return err
"""))
refactor("unref-zero-test",(S,"""	common.refcnt--

	if common.refcnt > 0 {
		return nil
	}

	var err error
	if c, cOK := common.s.(io.Closer); cOK {
		err = c.Close()
	}

	common.s = nil
	common.length = 0
	common.refcnt = 0

	return err
""","""	common.refcnt -= 1
	if common.refcnt != 0 {
		return nil
	}

	s := common.s
	common.s = nil
	common.length = 0
	c, ok := s.(io.Closer)
	if !ok {
		return nil
	}
	return c.Close()
"""))
refactor("read-early-return",(S,"""	var (
		n   int
		err error
	)
	if avail > 0 {
		n, err = common.readAt(p[0:x], offset)
	}
	if eof && err == nil && int64(n) == x {
		err = io.EOF
	}

	offset += int64(n)
	body.offset = offset

	if err != nil {
		body.err = err

		length = offset
		if err == io.EOF && length < common.length {
			common.length = length
		}
	}

	return n, err
""","""	if avail <= 0 {
		body.offset = offset
		if !eof {
			return 0, nil
		}
		body.err = io.EOF
		return 0, io.EOF
	}

	n, err := common.readAt(p[:x], offset)
	if err == nil && eof && n == int(x) {
		err = io.EOF
	}
	body.offset = offset + int64(n)
	if err == nil {
		return n, nil
	}
	body.err = err
	if err == io.EOF {
		if end := body.offset; end < common.length {
			common.length = end
		}
	}
	return n, err
"""))
# buffered
refactor("buffered-append",(B,"""		bufNew := make([]byte, bufCap)
		copy(bufNew[0:bufLen], common.bytes[0:bufLen])
		common.bytes = bufNew[0:bufLen]
""","""		bufNew := make([]byte, bufCap)
		copy(bufNew, common.bytes)
		common.bytes = bufNew[:bufLen]
"""))
refactor("buffered-inc-style",(B,"""			bufLen += n64
			numToRead -= n64

			common.bytes = bufNew[0:bufLen]
			endBuffer = beginBuffer + bufLen

			if err != nil {
				common.length = endBuffer
				common.err = err
				break
			}
""","""			bufLen = bufLen + n64
			numToRead = numToRead - n64
			endBuffer = endBuffer + n64
			common.bytes = bufNew[:bufLen]

			if err == nil {
				continue
			}
			common.err = err
			common.length = endBuffer
			break
"""))
refactor("buffered-fill-helper",(B,"""		for numToRead > 0 {
			i := bufLen
			x := numToRead
			j := i + x

			n, err := common.r.Read(bufNew[i:j])

			n64 := int64(n)
			assert.Assertf(n64 >= 0, "Read must return %d >= 0", n64)
			assert.Assertf(n64 <= x, "Read must return %d <= %d", n64, x)

			bufLen += n64
			numToRead -= n64

			common.bytes = bufNew[0:bufLen]
			endBuffer = beginBuffer + bufLen

			if err != nil {
				common.length = endBuffer
				common.err = err
				break
			}
		}

		if eof && common.err == nil {
			common.length = endBuffer
			common.err = io.EOF
		}
""","""		common.fill(bufNew, bufLen)
		endBuffer = beginBuffer + int64(len(common.bytes))

		if eof && common.err == nil {
			common.length = endBuffer
			common.err = io.EOF
		}
"""),(B,None,"""
// fill reads until buf is full or the source fails.
func (common *bufferedCommon) fill(buf []byte, have int64) {
	for have < int64(len(buf)) {
		n, err := common.r.Read(buf[have:])
		assert.Assertf(n >= 0, "Read must return %d >= 0", n)
		assert.Assertf(n <= len(buf)-int(have), "Read must return %d <= %d", n, len(buf)-int(have))

		have += int64(n)
		common.bytes = buf[:have]
		if err != nil {
			common.length = common.start + have
			common.err = err
			return
		}
	}
}
"""))
refactor("buffered-blocksize",(B,"const blockSize = 65536","const blockSize = 32768 * 2"))
refactor("buffered-copy-tail",(B,"""	i := int(beginOffset - beginBuffer)
	j := int(endOffset - beginBuffer)
	n := (j - i)
	copy(p[0:n], common.bytes[i:j])
	body.offset = endOffset
""","""	window := common.bytes[beginOffset-beginBuffer : endOffset-beginBuffer]
	n := copy(p, window)
	body.offset = beginOffset + int64(n)
"""))
refactor("buffered-min",(B,"""	var beginBufferNew int64
	var refcnt int32
	for body := range common.bodies {
		if refcnt <= 0 || body.offset < beginBufferNew {
			beginBufferNew = body.offset
			refcnt = 0
		}
		if body.offset == beginBufferNew {
			refcnt++
		}
	}
""","""	first := true
	var beginBufferNew int64
	for body := range common.bodies {
		if first || body.offset < beginBufferNew {
			beginBufferNew = body.offset
		}
		first = false
	}
	var refcnt int32
	for body := range common.bodies {
		if body.offset == beginBufferNew {
			refcnt++
		}
	}
"""))
refactor("buffered-trim-copy",(B,"""	common.bytes = common.bytes[i:]
""","""	rest := make([]byte, int64(len(common.bytes))-i)
	copy(rest, common.bytes[i:])
	common.bytes = rest
"""))
refactor("buffered-remaining",(B,"""	beginOffset := body.offset
	endOffset := common.length
	if beginOffset > endOffset {
		beginOffset = endOffset
	}
	return (endOffset - beginOffset)
""","""	if left := common.length - body.offset; left >= 0 {
		return left
	}
	return 0
"""))
# bytes
refactor("bytes-copy-n",(Y,"""	n := len(p)
	avail := len(body.data) - body.offset
	eof := false
	var err error
	if n > avail {
		n = avail
		eof = true
		err = io.EOF
	}

	i := body.offset
	j := i + n
	copy(p[0:n], body.data[i:j])
	body.offset = j
	body.eof = eof
	return n, err
""","""	n := copy(p, body.data[body.offset:])
	body.offset += n
	if n < len(p) {
		body.eof = true
		return n, io.EOF
	}
	return n, nil
"""))
refactor("bytes-readat-copy",(Y,"""	bodyLen := int64(len(body.data))

	if offset > bodyLen {
		offset = bodyLen
	}

	var err error
	n := len(p)
	avail := bodyLen - offset
	if int64(n) > avail {
		n = int(avail)
		err = io.EOF
	}

	i := int(offset)
	j := i + n
	copy(p[0:n], body.data[i:j])
	return n, err
""","""	var rest []byte
	if offset < int64(len(body.data)) {
		rest = body.data[offset:]
	}
	n := copy(p, rest)
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
"""))
refactor("bytes-shrinking",(Y,"""	i := body.offset
	j := len(body.data)
	avail := (j - i)
	n, err := w.Write(body.data[i:j])
""","""	rest := body.data[body.offset:]
	avail := len(rest)
	n, err := w.Write(rest)
"""))
refactor("bytes-offset64",(Y,"	offset int\n	eof ","	offset int64\n	eof "),(Y,"return int64(len(body.data) - body.offset)","return int64(len(body.data)) - body.offset"),
 (Y,"	avail := len(body.data) - body.offset\n","	avail := int(int64(len(body.data)) - body.offset)\n"),
 (Y,"	i := body.offset\n	j := i + n\n	copy(p[0:n], body.data[i:j])\n	body.offset = j\n","	i := int(body.offset)\n	j := i + n\n	copy(p[0:n], body.data[i:j])\n	body.offset = int64(j)\n"),
 (Y,"offset += int64(body.offset)","offset += body.offset"),(Y,"body.offset = int(offset)","body.offset = offset"),
 (Y,"	i := body.offset\n	j := len(body.data)\n","	i := int(body.offset)\n	j := len(body.data)\n"),(Y,"body.offset += int(n)","body.offset += int64(n)"))
refactor("empty-reader-at","body/empty.go" and ("body/empty.go","""	if body.eof || len(p) > 0 {
		body.eof = true
		return 0, io.EOF
	}

	return 0, nil
""","""	if len(p) == 0 && !body.eof {
		return 0, nil
	}
	body.eof = true
	return 0, io.EOF
"""))
refactor("empty-no-singleton",("body/empty.go","		return closedSingleton, nil\n","		return &emptyBody{closed: true}, nil\n"))
refactor("frombytes-owncopy",("body/body.go","	return &bytesBody{data: data}\n","	body := new(bytesBody)\n	body.data = data[:len(data):len(data)]\n	return body\n"))
refactor("construct-switch",("body/body.go","""	if atOK && length >= 0 {
		common := &readerAtCommon{
			r:      r,
			at:     at,
			length: length,
		}
		body := &readerAtBody{common: common}
		common.ref()
		return body, nil
	}

	if sOK && length >= 0 {
		common := &seekerCommon{
			s:      s,
			length: length,
		}
		body := &seekerBody{common: common}
		common.ref()
		return body, nil
	}

	common := &bufferedCommon{
		r:      r,
		bodies: make(map[*bufferedBody]struct{}, 4),
		length: length,
	}
	body := &bufferedBody{common: common}
	common.ref(body)
	return body, nil
""","""	switch {
	case length < 0:
		// must be buffered
	case atOK:
		return &readerAtBody{common: &readerAtCommon{r: r, at: at, length: length, refcnt: 1}}, nil
	case sOK:
		return &seekerBody{common: &seekerCommon{s: s, length: length, refcnt: 1}}, nil
	}

	body := new(bufferedBody)
	body.common = &bufferedCommon{
		r:      r,
		bodies: map[*bufferedBody]struct{}{body: {}},
		length: length,
		refcnt: 1,
	}
	return body, nil
"""))
refactor("construct-helper",("body/body.go","""	if sOK && length < 0 {
		var err error
		length, err = s.Seek(0, io.SeekEnd)
		if err != nil {
			return nil, fmt.Errorf("failed to determine length of body via Seek: %w", err)
		}
		assert.Assertf(length >= 0, "Seek must return %d >= 0", length)

		_, err = s.Seek(0, io.SeekStart)
		if err != nil {
			return nil, fmt.Errorf("failed to rewind to start of file via Seek: %w", err)
		}
	}
""","""	if sOK && length < 0 {
		size, err := seekSize(s)
		if err != nil {
			return nil, err
		}
		length = size
	}
"""),("body/body.go",None,"""
func seekSize(s io.Seeker) (int64, error) {
	size, err := s.Seek(0, io.SeekEnd)
	if err != nil {
		return 0, fmt.Errorf("failed to determine length of body via Seek: %w", err)
	}
	assert.Assertf(size >= 0, "Seek must return %d >= 0", size)
	if _, err := s.Seek(0, io.SeekStart); err != nil {
		return 0, fmt.Errorf("failed to rewind to start of file via Seek: %w", err)
	}
	return size, nil
}
"""))
refactor("common-embedded-mutex",(A,"	mu     sync.Mutex\n	r      io.Reader\n","	mu     sync.RWMutex\n	r      io.Reader\n"))
refactor("atomic-refcnt-free",(A,"""	common.mu.Lock()
	common.refcnt++
	common.mu.Unlock()
""","""	defer common.lock()()
	common.refcnt++
"""),(A,None,"\nfunc (common *readerAtCommon) lock() func() {\n	common.mu.Lock()\n	return common.mu.Unlock\n}\n"))
refactor("readerat-named-results",(A,"func (body *readerAtBody) Read(p []byte) (int, error) {","func (body *readerAtBody) Read(p []byte) (n int, err error) {"),(A,"""	var n int
	var err error

	if avail > 0 {
""","""	if avail > 0 {
"""))
refactor("no-deferred-unlock-unwrap",(B,"""	common := body.common
	common.mu.Lock()
	r := common.r
	common.mu.Unlock()

	return r
""","""	return body.common.reader()
"""),(B,None,"\nfunc (common *bufferedCommon) reader() io.Reader {\n	common.mu.Lock()\n	defer common.mu.Unlock()\n	return common.r\n}\n"))
refactor("seeker-err-on-seek-wrapped-var",(S,"	_, err := common.s.Seek(offset, io.SeekStart)\n	if err != nil {\n		return 0, err\n	}\n","	pos, err := common.s.Seek(offset, io.SeekStart)\n	_ = pos\n	if err != nil {\n		return 0, err\n	}\n"))
refactor("noop-statements",(S,"	offset := body.offset\n	length := common.length\n","	offset := body.offset\n	length := common.length\n	_ = length\n"),(B,"	beginBuffer := common.start\n	endBuffer := beginBuffer + int64(len(common.bytes))\n	beginOffset","	beginBuffer := common.start\n	if false {\n		common.start = 0\n	}\n	endBuffer := beginBuffer + int64(len(common.bytes))\n	beginOffset"))
