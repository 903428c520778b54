# Loops written in another way.
B="body/buffered.go"
S="body/seeker.go"
MIN='''	var beginBufferNew int64
	var refcnt int32
	for body := range common.bodies {
		if refcnt <= 0 || body.offset < beginBufferNew {
			beginBufferNew = body.offset
			refcnt = 0
		}
		if body.offset == beginBufferNew {
			refcnt++
		}
	}
'''
refactor("min-sentinel",(B,MIN,'''	beginBufferNew := int64(math.MaxInt64)
	var refcnt int32
	for body := range common.bodies {
		if body.offset < beginBufferNew {
			beginBufferNew = body.offset
			refcnt = 1
		} else if body.offset == beginBufferNew {
			refcnt++
		}
	}
'''),(B,'''	"io/fs"
''','''	"io/fs"
	"math"
'''))
refactor("min-switch",(B,MIN,'''	var beginBufferNew int64
	var refcnt int32
	for body := range common.bodies {
		offset := body.offset
		switch {
		case refcnt == 0, offset < beginBufferNew:
			beginBufferNew, refcnt = offset, 1
		case offset == beginBufferNew:
			refcnt++
		}
	}
'''))
refactor("min-continue",(B,MIN,'''	var beginBufferNew int64
	var refcnt int32
	for body := range common.bodies {
		if refcnt > 0 && body.offset > beginBufferNew {
			continue
		}
		if refcnt <= 0 || body.offset != beginBufferNew {
			beginBufferNew = body.offset
			refcnt = 0
		}
		refcnt++
	}
'''))
refactor("min-helper",(B,MIN,'''	beginBufferNew, refcnt := common.lowest()
'''),(B,None,'''
func (common *bufferedCommon) lowest() (offset int64, count int32) {
	for body := range common.bodies {
		if count <= 0 || body.offset < offset {
			offset = body.offset
			count = 0
		}
		if body.offset == offset {
			count++
		}
	}
	return offset, count
}
'''))
refactor("min-found-flag",(B,MIN,'''	var beginBufferNew int64
	var refcnt int32
	found := false
	for body := range common.bodies {
		if !found || body.offset < beginBufferNew {
			found = true
			beginBufferNew = body.offset
			refcnt = 1
			continue
		}
		if body.offset == beginBufferNew {
			refcnt++
		}
	}
'''))
refactor("min-two-pass",(B,MIN,'''	first := true
	var beginBufferNew int64
	for body := range common.bodies {
		if first || body.offset < beginBufferNew {
			beginBufferNew = body.offset
			first = false
		}
	}
	var refcnt int32
	for body := range common.bodies {
		if body.offset == beginBufferNew {
			refcnt++
		}
	}
'''))
refactor("min-two-pass-sentinel",(B,MIN,'''	beginBufferNew := common.start + int64(len(common.bytes))
	for body := range common.bodies {
		beginBufferNew = min(beginBufferNew, body.offset)
	}
	var refcnt int32
	for body := range common.bodies {
		if body.offset == beginBufferNew {
			refcnt++
		}
	}
'''))
FILL='''		for numToRead > 0 {
			i := bufLen
			x := numToRead
			j := i + x

			n, err := common.r.Read(bufNew[i:j])

			n64 := int64(n)
			assert.Assertf(n64 >= 0, "Read must return %d >= 0", n64)
			assert.Assertf(n64 <= x, "Read must return %d <= %d", n64, x)

			bufLen += n64
			numToRead -= n64

			common.bytes = bufNew[0:bufLen]
			endBuffer = beginBuffer + bufLen

			if err != nil {
				common.length = endBuffer
				common.err = err
				break
			}
		}
'''
refactor("fill-cond",(B,FILL,'''		for bufLen < bufCap && common.err == nil {
			n, err := common.r.Read(bufNew[bufLen:bufCap])

			n64 := int64(n)
			assert.Assertf(n64 >= 0, "Read must return %d >= 0", n64)
			assert.Assertf(n64 <= bufCap-bufLen, "Read must return %d <= %d", n64, bufCap-bufLen)

			bufLen += n64
			endBuffer += n64
			common.bytes = bufNew[:bufLen]

			if err != nil {
				common.length = endBuffer
				common.err = err
			}
		}
'''))
refactor("fill-forever",(B,FILL,'''		for {
			if numToRead <= 0 {
				break
			}

			n, err := common.r.Read(bufNew[bufLen : bufLen+numToRead])

			n64 := int64(n)
			assert.Assertf(n64 >= 0, "Read must return %d >= 0", n64)
			assert.Assertf(n64 <= numToRead, "Read must return %d <= %d", n64, numToRead)

			numToRead -= n64
			bufLen += n64
			endBuffer = beginBuffer + bufLen
			common.bytes = bufNew[0:bufLen]

			if err == nil {
				continue
			}
			common.err = err
			common.length = endBuffer
			break
		}
'''))
refactor("fill-after-loop",(B,FILL,'''		var rerr error
		for rerr == nil && numToRead > 0 {
			var n int
			n, rerr = common.r.Read(bufNew[bufLen : bufLen+numToRead])

			assert.Assertf(n >= 0, "Read must return %d >= 0", n)
			assert.Assertf(int64(n) <= numToRead, "Read must return %d <= %d", n, numToRead)

			bufLen += int64(n)
			numToRead -= int64(n)
			common.bytes = bufNew[0:bufLen]
		}
		endBuffer = beginBuffer + bufLen
		if rerr != nil {
			common.length = endBuffer
			common.err = rerr
		}
'''))
refactor("fill-rest-slice",(B,FILL,'''		rest := bufNew[bufLen:]
		for len(rest) > 0 {
			n, err := common.r.Read(rest)
			assert.Assertf(n >= 0, "Read must return %d >= 0", n)
			assert.Assertf(n <= len(rest), "Read must return %d <= %d", n, len(rest))

			rest = rest[n:]
			bufLen += int64(n)
			common.bytes = bufNew[0:bufLen]
			endBuffer = beginBuffer + bufLen

			if err != nil {
				common.length = endBuffer
				common.err = err
				break
			}
		}
'''))
RA='''		n, err = common.readAt(p[0:x], offset)
		for err == nil && int64(n) < x {
			var m int
			m, err = common.readAt(p[n:x], offset+int64(n))
			n += m
		}
'''
refactor("readat-forever",(S,RA,'''		for {
			var m int
			m, err = common.readAt(p[n:x], offset+int64(n))
			n += m
			if err != nil || int64(n) >= x {
				break
			}
		}
'''))
refactor("readat-rest",(S,RA,'''		rest := p[0:x]
		pos := offset
		for {
			m, rerr := common.readAt(rest, pos)
			n += m
			rest = rest[m:]
			pos += int64(m)
			if rerr != nil {
				err = rerr
				break
			}
			if len(rest) == 0 {
				break
			}
		}
'''))
refactor("readat-helper",(S,RA,'''		n, err = common.readFullAt(p[:x], offset)
'''),(S,None,'''
func (common *seekerCommon) readFullAt(p []byte, offset int64) (n int, err error) {
	n, err = common.readAt(p, offset)
	for n < len(p) && err == nil {
		var m int
		m, err = common.readAt(p[n:], offset+int64(n))
		n += m
	}
	return n, err
}
'''))
refactor("readat-recursive",(S,RA,'''		n, err = common.readFullAt(p[:x], offset)
'''),(S,None,'''
func (common *seekerCommon) readFullAt(p []byte, offset int64) (int, error) {
	n := 0
	for n < len(p) {
		m, err := common.readAt(p[n:], offset)
		n += m
		offset += int64(m)
		if err != nil {
			return n, err
		}
	}
	return n, nil
}
'''))
PJ='''		for _, ch := range src {
			if ch == '\\n' {
				dst = append(dst, '\\r', '\\n')
			} else {
				dst = append(dst, ch)
			}
		}
'''
refactor("pretty-index",("body/body.go",PJ,'''		for i := 0; i < len(src); i++ {
			if src[i] == '\\n' {
				dst = append(dst, '\\r')
			}
			dst = append(dst, src[i])
		}
'''))
refactor("pretty-switch",("body/body.go",PJ,'''		for i := range src {
			switch ch := src[i]; ch {
			case '\\n':
				dst = append(dst, "\\r\\n"...)
			default:
				dst = append(dst, ch)
			}
		}
'''))
refactor("pretty-continue",("body/body.go",PJ,'''		for _, ch := range src {
			if ch != '\\n' {
				dst = append(dst, ch)
				continue
			}
			dst = append(dst, '\\r')
			dst = append(dst, '\\n')
		}
'''))
refactor("pretty-fields",("body/body.go",PJ,'''		for len(src) > 0 {
			i := bytes.IndexByte(src, '\\n')
			if i < 0 {
				dst = append(dst, src...)
				break
			}
			dst = append(dst, src[:i]...)
			dst = append(dst, '\\r', '\\n')
			src = src[i+1:]
		}
'''))
R="response/response.go"
refactor("push-index",(R,'''		for _, url := range vlist {
			err := x.Push(url, &http.PushOptions{})
''','''		for i := 0; i < len(vlist); i++ {
			err := x.Push(vlist[i], &http.PushOptions{})
'''))
refactor("push-rest",(R,'''		for _, url := range vlist {
			err := x.Push(url, &http.PushOptions{})
''','''		for ; len(vlist) > 0; vlist = vlist[1:] {
			err := x.Push(vlist[0], &http.PushOptions{})
'''))
refactor("headers-continue",(R,'''		if k != headerPush {
			h[k] = vlist
		}
''','''		if k == headerPush {
			continue
		}
		h[k] = vlist
'''))
refactor("headers-keys",(R,'''	for k, vlist := range resp.hdrs {
		if k != headerPush {
			h[k] = vlist
		}
	}
''','''	for k := range resp.hdrs {
		if k != headerPush {
			h[k] = resp.hdrs[k]
		}
	}
'''))
refactor("headers-sorted",(R,'''	for k, vlist := range resp.hdrs {
		if k != headerPush {
			h[k] = vlist
		}
	}
''','''	keys := make([]string, 0, len(resp.hdrs))
	for k := range resp.hdrs {
		keys = append(keys, k)
	}
	for _, k := range keys {
		if k != headerPush {
			h[k] = resp.hdrs[k]
		}
	}
'''))
U="response/util.go"
refactor("copyheaders-keys",(U,'''	for k, vlist := range src {
		dst[k] = copyStrings(vlist)
	}
''','''	for k := range src {
		dst[k] = copyStrings(src[k])
	}
'''))
refactor("copyheaders-inline",(U,'''	for k, vlist := range src {
		dst[k] = copyStrings(vlist)
	}
''','''	for k, vlist := range src {
		var list []string
		if len(vlist) > 0 {
			list = make([]string, 0, len(vlist))
			for _, v := range vlist {
				list = append(list, v)
			}
		}
		dst[k] = list
	}
'''))
refactor("copystrings-loop",(U,'''	copy(dst, src)
''','''	for i := range src {
		dst[i] = src[i]
	}
'''))
refactor("copystrings-append",(U,'''	dst := make([]string, len(src))
	copy(dst, src)
	return dst
''','''	return append([]string(nil), src...)
'''))
refactor("copyheaders-clone",(U,'''		dst[k] = copyStrings(vlist)
''','''		dst[k] = slices.Clone(vlist)
'''),(U,'''	"net/http"
''','''	"net/http"
	"slices"
'''))
