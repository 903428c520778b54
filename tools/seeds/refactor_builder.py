B="response/builder.go"; P="response/pagegen.go"; U="response/util.go"; R="response/response.go"
refactor("headers-clone",(B,'builder.hdrs = copyHeaders(hdrs)','builder.hdrs = hdrs.Clone()'),(B,'hdrs2 := copyHeaders(builder.hdrs)','hdrs2 := builder.hdrs.Clone()'))
refactor("copyheaders-clone",(U,'''	srcLen := len(src)
	if srcLen < 16 {
		srcLen = 16
	}

	dst := make(http.Header, srcLen)
	for k, vlist := range src {
		dst[k] = copyStrings(vlist)
	}
	return dst
''','''	return src.Clone()
'''))
refactor("copystrings-append",(U,'''	dst := make([]string, len(src))
	copy(dst, src)
	return dst
''','''	return append([]string(nil), src...)
'''))
refactor("copystrings-loop",(U,'''	copy(dst, src)
''','''	for i := range src {
		dst[i] = src[i]
	}
'''))
refactor("copystrings-loop2",(U,'''	dst := make([]string, len(src))
	copy(dst, src)
	return dst
''','''	dst := make([]string, 0, len(src))
	for _, str := range src {
		dst = append(dst, str)
	}
	return dst
'''))
refactor("copyheaders-nosize",(U,'''	srcLen := len(src)
	if srcLen < 16 {
		srcLen = 16
	}

	dst := make(http.Header, srcLen)
''','''	dst := make(http.Header)
'''))
refactor("copybody-inline",(B,'''	body2, err := copyBody(builder.body)
	if err != nil {
		return nil, err
	}
''','''	var body2 body.Body
	if builder.body != nil {
		var err error
		body2, err = builder.body.Copy()
		if err != nil {
			return nil, err
		}
	}
'''))
refactor("take-struct",(B,'''	code := builder.code
	hdrs := builder.hdrs
	body := builder.body
	err := builder.err

	builder.code = 0
	builder.hdrs = nil
	builder.body = nil
	builder.err = nil
''','''	old := *builder
	*builder = Builder{gen: old.gen}
	code, hdrs, body, err := old.code, old.hdrs, old.body, old.err
'''))
refactor("build-direct",(B,'''	if hdrs == nil {
		hdrs = make(http.Header, 16)
	}

	contentType := http.CanonicalHeaderKey("Content-Type")
	if _, found := hdrs[contentType]; !found {
		v := make([]string, 1)
		v[0] = "application/octet-stream"
		hdrs[contentType] = v
	}
''','''	hdrs = ensureHeader(hdrs, "Content-Type", "application/octet-stream")
'''),(B,'''		contentLength := http.CanonicalHeaderKey("Content-Length")
		if _, found := hdrs[contentLength]; !found {
			v := make([]string, 1)
			v[0] = strconv.FormatInt(bodyLen, 10)
			hdrs[contentLength] = v
		}
''','''		hdrs = ensureHeader(hdrs, "Content-Length", strconv.FormatInt(bodyLen, 10))
'''),(B,None,'''
func ensureHeader(hdrs http.Header, name, value string) http.Header {
	if hdrs == nil {
		hdrs = make(http.Header, 16)
	}
	if _, found := hdrs[name]; !found {
		hdrs[name] = []string{value}
	}
	return hdrs
}
'''))
refactor("build-sprintf",(B,'strconv.FormatInt(bodyLen, 10)','fmt.Sprintf("%d", bodyLen)'),(B,'''	"strconv"
''',''))
refactor("build-set",(B,'''			v := make([]string, 1)
			v[0] = strconv.FormatInt(bodyLen, 10)
			hdrs[contentLength] = v
''','''			hdrs.Set(contentLength, strconv.FormatInt(bodyLen, 10))
'''))
refactor("build-headers-early",(B,'''	code := builder.code
	hdrs := builder.hdrs
	body := builder.body
''','''	code := builder.code
	hdrs := builder.Headers()
	body := builder.body
'''))
refactor("build-reset-defer",(B,'''	builder.code = 0
	builder.hdrs = nil
	builder.body = nil
	builder.err = nil

''','''	defer builder.reset()

'''),(B,None,'''
func (builder *Builder) reset() {
	builder.code = 0
	builder.hdrs = nil
	builder.body = nil
	builder.err = nil
}
'''))
refactor("status-helper",(B,'''	assert.Assertf(code >= 200, "code %03d >= 200", code)
	assert.Assertf(code <= 999, "code %03d <= 999", code)
''','''	checkCode(code, 200, 999)
'''),(B,'''	assert.Assertf(code >= 300, "code %03d >= 300", code)
	assert.Assertf(code <= 399, "code %03d <= 399", code)
''','''	checkCode(code, 300, 399)
'''),(B,None,'''
func checkCode(code, lo, hi int) {
	if code < lo || code > hi {
		panic(fmt.Errorf("code %03d is not in the range %03d..%03d", code, lo, hi))
	}
}
'''))
refactor("setter-helper",(B,'''	builder.body = body.FromJSON(v)
	hdrs := builder.Headers()
	hdrs.Set("Content-Type", "application/json")
	return builder
''','''	return builder.payload(body.FromJSON(v), "application/json")
'''),(B,'''	builder.body = body.FromProto(msg)
	hdrs := builder.Headers()
	hdrs.Set("Content-Type", "application/vnd.google.protobuf")
	return builder
''','''	return builder.payload(body.FromProto(msg), "application/vnd.google.protobuf")
'''),(B,None,'''
func (builder *Builder) payload(b body.Body, contentType string) *Builder {
	builder.WithBody(b)
	return builder.WithHeader("Content-Type", contentType, false)
}
'''))
refactor("etag-sprintf",(B,'''	var str string
	if !isStrong {
		str = `W/`
	}
	str = str + `"` + tag + `"`
''','''	str := fmt.Sprintf(`"%s"`, tag)
	if !isStrong {
		str = "W/" + str
	}
'''))
refactor("etag-builder",(B,'''	var str string
	if !isStrong {
		str = `W/`
	}
	str = str + `"` + tag + `"`
''','''	var sb strings.Builder
	if !isStrong {
		sb.WriteString("W/")
	}
	sb.WriteByte('"')
	sb.WriteString(tag)
	sb.WriteByte('"')
	str := sb.String()
'''))
refactor("digest-encode",(B,'''	encodedSum := base64.StdEncoding.EncodeToString(sum)
	hdrs := builder.Headers()
	hdrs.Add("Digest", algo+"="+encodedSum)
''','''	raw := make([]byte, base64.StdEncoding.EncodedLen(len(sum)))
	base64.StdEncoding.Encode(raw, sum)
	hdrs := builder.Headers()
	hdrs.Add("Digest", strings.Join([]string{algo, string(raw)}, "="))
'''))
refactor("withheader-direct",(B,'''	if appendToExisting {
		hdrs.Add(name, value)
	} else {
		hdrs.Set(name, value)
	}
''','''	key := http.CanonicalHeaderKey(name)
	if appendToExisting {
		hdrs[key] = append(hdrs[key], value)
	} else {
		hdrs[key] = []string{value}
	}
'''))
refactor("pagegen-field",(B,'''	if builder.gen == nil {
		return DefaultPageGenerator
	}
	return builder.gen
''','''	gen := builder.gen
	if gen == nil {
		gen = DefaultPageGenerator
	}
	return gen
'''))
refactor("page-helper",(B,'''	h, b := gen.GenerateRedirectPage(code, location)

	builder.code = code
	builder.hdrs = h
	builder.body = b
	builder.err = nil
	return builder
''','''	h, b := gen.GenerateRedirectPage(code, location)
	return builder.page(code, h, b, nil)
'''),(B,'''	h, b := gen.GenerateErrorPage(code, err)

	builder.code = code
	builder.hdrs = h
	builder.body = b
	builder.err = err
	return builder
''','''	h, b := gen.GenerateErrorPage(code, err)
	return builder.page(code, h, b, err)
'''),(B,None,'''
func (builder *Builder) page(code int, h http.Header, b body.Body, err error) *Builder {
	*builder = Builder{gen: builder.gen, code: code, hdrs: h, body: b, err: err}
	return builder
}
'''))
refactor("redirect-sprintf",(P,'''	text := `<!DOCTYPE html>` + CRLF + `<p>Redirecting to <a href="` + escapedLocation + `">` + escapedLocation + `</a>...</p>` + CRLF
''','''	text := fmt.Sprintf(`<!DOCTYPE html>%s<p>Redirecting to <a href="%s">%s</a>...</p>%s`, CRLF, escapedLocation, escapedLocation, CRLF)
'''),(P,'''import (
''','''import (
	"fmt"
'''))
refactor("redirect-sprintf-indexed",(P,'''	text := `<!DOCTYPE html>` + CRLF + `<p>Redirecting to <a href="` + escapedLocation + `">` + escapedLocation + `</a>...</p>` + CRLF
''','''	text := fmt.Sprintf("<!DOCTYPE html>\\r\\n<p>Redirecting to <a href=\\"%[1]s\\">%[1]s</a>...</p>\\r\\n", escapedLocation)
'''),(P,'''import (
''','''import (
	"fmt"
'''),(P,'''	const CRLF = "\\r\\n"
''',''))
refactor("redirect-buffer",(P,'''	text := `<!DOCTYPE html>` + CRLF + `<p>Redirecting to <a href="` + escapedLocation + `">` + escapedLocation + `</a>...</p>` + CRLF
	raw := []byte(text)
''','''	var buf bytes.Buffer
	buf.WriteString(`<!DOCTYPE html>` + CRLF)
	fmt.Fprintf(&buf, `<p>Redirecting to <a href="%s">`, escapedLocation)
	buf.WriteString(escapedLocation)
	buf.WriteString(`</a>...</p>`)
	buf.WriteString(CRLF)
	raw := buf.Bytes()
'''),(P,'''import (
''','''import (
	"bytes"
	"fmt"
'''))
refactor("redirect-append",(P,'''	text := `<!DOCTYPE html>` + CRLF + `<p>Redirecting to <a href="` + escapedLocation + `">` + escapedLocation + `</a>...</p>` + CRLF
	raw := []byte(text)
''','''	raw := make([]byte, 0, 256)
	raw = append(raw, `<!DOCTYPE html>`+CRLF+`<p>Redirecting to <a href="`...)
	raw = append(raw, escapedLocation...)
	raw = append(raw, `">`...)
	raw = append(raw, escapedLocation...)
	raw = append(raw, `</a>...</p>`+CRLF...)
'''))
refactor("page-fromstring",(P,'''	raw := []byte(text)

''','''
'''),(P,'''	headers.Set("Content-Length", strconv.Itoa(len(raw)))
	headers.Set("Cache-Control", "max-age=86400''','''	headers.Set("Content-Length", strconv.Itoa(len(text)))
	headers.Set("Cache-Control", "max-age=86400'''),(P,'''	return headers, body.FromBytes(raw)
}

func (gen *defaultPageGenerator) GenerateErrorPage''','''	return headers, body.FromString(text)
}

func (gen *defaultPageGenerator) GenerateErrorPage'''))
refactor("error-sprintf",(P,'''	statusCode := strconv.Itoa(code)
	statusText := http.StatusText(code)
	statusLine := statusCode + " " + statusText + "\\r\\n"
''','''	statusLine := fmt.Sprintf("%d %s\\r\\n", code, http.StatusText(code))
'''),(P,'''import (
''','''import (
	"fmt"
'''))
refactor("headers-literal",(P,'''	headers := make(http.Header, 16)
	headers.Set("Content-Type", "text/plain; charset=utf-8")
	headers.Set("Content-Length", strconv.Itoa(len(raw)))
	headers.Set("Cache-Control", "no-cache")
''','''	headers := http.Header{
		"Content-Type":   {"text/plain; charset=utf-8"},
		"Content-Length": {strconv.Itoa(len(statusLine))},
		"Cache-Control":  {"no-cache"},
	}
'''))
refactor("headers-map-loop",(P,'''	headers.Set("Content-Type", "text/plain; charset=utf-8")
	headers.Set("Content-Length", strconv.Itoa(len(raw)))
	headers.Set("Cache-Control", "no-cache")
''','''	for _, kv := range [][2]string{
		{"Content-Type", "text/plain; charset=utf-8"},
		{"Content-Length", strconv.Itoa(len(raw))},
		{"Cache-Control", "no-cache"},
	} {
		headers.Set(kv[0], kv[1])
	}
'''))
refactor("pagegen-common",(P,'''	raw := []byte(text)

	headers := make(http.Header, 16)
	headers.Set("Location", location)
	headers.Set("Content-Type", "text/html; charset=utf-8")
	headers.Set("Content-Length", strconv.Itoa(len(raw)))
	headers.Set("Cache-Control", "max-age=86400, must-revalidate")

	return headers, body.FromBytes(raw)
''','''	headers, b := makePage(text, "text/html", "max-age=86400, must-revalidate")
	headers.Set("Location", location)
	return headers, b
'''),(P,'''	raw := []byte(statusLine)

	headers := make(http.Header, 16)
	headers.Set("Content-Type", "text/plain; charset=utf-8")
	headers.Set("Content-Length", strconv.Itoa(len(raw)))
	headers.Set("Cache-Control", "no-cache")

	return headers, body.FromBytes(raw)
''','''	return makePage(statusLine, "text/plain", "no-cache")
'''),(P,None,'''
func makePage(text, mediaType, cacheControl string) (http.Header, body.Body) {
	raw := []byte(text)
	headers := make(http.Header, 16)
	headers.Set("Content-Type", mediaType+"; charset=utf-8")
	headers.Set("Content-Length", strconv.FormatInt(int64(len(raw)), 10))
	headers.Set("Cache-Control", cacheControl)
	return headers, body.FromBytes(raw)
}
'''))
refactor("generator-value",(P,'''func (gen *defaultPageGenerator)''','''func (gen defaultPageGenerator)'''),(P,'= &defaultPageGenerator{}','= defaultPageGenerator{}'))
refactor("newbuilder-full",(B,'return &Builder{}','return &Builder{hdrs: make(http.Header, 16)}'))
refactor("newbuilder-gen",(B,'return &Builder{}','b := new(Builder)\n\tb.gen = nil\n\treturn b'))
refactor("response-embed",(B,'''	return &Response{
		code: code,
		hdrs: hdrs,
		body: body,
		err:  err,
	}
''','''	resp := new(Response)
	resp.code, resp.hdrs, resp.body, resp.err = code, hdrs, body, err
	return resp
'''))
refactor("response-copy-struct",(R,'''	out := &Response{
		code: resp.code,
		hdrs: resp.hdrs,
		body: body2,
		err:  resp.err,
	}
	return out, nil
''','''	out := *resp
	out.body = body2
	return &out, nil
'''))
refactor("response-copy-deep",(R,'''		hdrs: resp.hdrs,
''','''		hdrs: copyHeaders(resp.hdrs),
'''))
refactor("notnil-plain",(B,'''	assert.NotNil(&b)
	builder.body = b
''','''	if b == nil {
		panic(errors.New("body must not be nil"))
	}
	builder.body = b
'''),(B,'''import (
''','''import (
	"errors"
'''))
refactor("content-type-panic-helper",(B,'''	if err != nil {
		panic(fmt.Errorf("failed to parse Content-Type header: %q: %w", str, err))
	}
''','''	if err != nil {
		err = fmt.Errorf("failed to parse Content-Type header: %q: %w", str, err)
		panic(err)
	}
'''))
refactor("builder-noop",(B,'''	code := builder.code
	hdrs := builder.hdrs
''','''	_ = 0
	code := builder.code
	hdrs := builder.hdrs
'''),(P,'''	escapedLocation :=''','''	_ = 0
	escapedLocation :='''))
