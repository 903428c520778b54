HDR='''package response

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"testing"

	"github.com/chronos-tachyon/morehttp/body"
)

var (
	_ = errors.New
	_ = fmt.Sprint
	_ = strings.NewReader
	_ = bytes.NewReader
	_ = body.Empty
	_ = io.ReadAll
	_ = http.StatusOK
	_ = reflect.DeepEqual
)

func zzPanics(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func zzText(t *testing.T, b body.Body) string {
	raw, err := io.ReadAll(b)
	if err != nil {
		t.Fatal(err)
	}
	return string(raw)
}

type zzGen struct {
	h http.Header
	b body.Body
	p interface{}
}

func (g *zzGen) GenerateRedirectPage(int, string) (http.Header, body.Body) {
	if g.p != nil {
		panic(g.p)
	}
	return g.h, g.b
}
func (g *zzGen) GenerateErrorPage(int, error) (http.Header, body.Body) {
	if g.p != nil {
		panic(g.p)
	}
	return g.h, g.b
}

// zzBody has a chosen length and may refuse to be copied.
type zzBody struct {
	body.Body
	n   int64
	err error
}

func (b *zzBody) BytesRemaining() int64 { return b.n }
func (b *zzBody) Copy() (body.Body, error) {
	if b.err != nil {
		return nil, b.err
	}
	return b, nil
}

'''
B="response/builder.go"; P="response/pagegen.go"; U="response/util.go"; R="response/response.go"
def s(id,prop,edits,test,needs,breaks):
    seed(id,prop,"response",edits,HDR+test,needs,breaks)

s("R05-status-600","R05",[(B,'''	assert.Assertf(code >= 200, "code %03d >= 200", code)
	assert.Assertf(code <= 999, "code %03d <= 999", code)
	builder.code = code
''','''	assert.Assertf(code >= 100, "code %03d >= 100", code)
	assert.Assertf(code <= 999, "code %03d <= 999", code)
	builder.code = code
''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder().WithBody(body.Empty())
	zzPanics(func() { b.WithStatus(103) })
	if c := b.Build().Status(); c != 200 {
		t.Fatal(c)
	}
}
''',"an informational status","a response with status 103")
s("R05-sticky-status","R05",[(B,'''	builder.code = 0
	builder.hdrs = nil
''','''	if builder.err != nil {
		builder.code = 0
	}
	builder.hdrs = nil
''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder().WithStatus(404).WithBody(body.Empty())
	b.Build()
	if c := b.WithBody(body.Empty()).Build().Status(); c != 200 {
		t.Fatal(c)
	}
}
''',"a builder used twice","the second response has the first one's status")
s("R05-error-page-order","R05",[(B,'''	assert.Assertf(code >= 200, "code %03d >= 200", code)
	assert.Assertf(code <= 999, "code %03d <= 999", code)
	assert.NotNil(&err)

	gen := builder.PageGenerator()
	h, b := gen.GenerateErrorPage(code, err)

	builder.code = code
''','''	builder.code = code
	assert.Assertf(code >= 200, "code %03d >= 200", code)
	assert.Assertf(code <= 999, "code %03d <= 999", code)
	assert.NotNil(&err)

	gen := builder.PageGenerator()
	h, b := gen.GenerateErrorPage(code, err)

''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder().WithBody(body.Empty())
	zzPanics(func() { b.ErrorPage(42, errors.New("x")) })
	if c := b.Build().Status(); c != 200 {
		t.Fatal(c)
	}
}
''',"an error page with a bad code, recovered","the refused code stays in the builder")
s("R06-err-survives","R06",[(B,'''	builder.body = nil
	builder.err = nil

	if code == 0 {
		code = http.StatusOK
	}
''','''	builder.body = nil

	if code == 0 {
		code = http.StatusOK
		builder.err = nil
	}
''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder().WithStatus(500).WithError(errors.New("x")).WithBody(body.Empty())
	b.Build()
	if e := b.WithBody(body.Empty()).Build().Err(); e != nil {
		t.Fatal(e)
	}
}
''',"an explicit status, then a second Build","the error of the first response is in the second")
s("R06-zero-length","R06",[(B,'''	if bodyLen >= 0 {
''','''	if bodyLen > 0 {
''')],'''func TestZZDemo(t *testing.T) {
	r := NewBuilder().WithBody(body.Empty()).Build()
	if r.Headers().Get("Content-Length") != "0" {
		t.Fatal(r.Headers())
	}
}
''',"an empty body","no Content-Length on empty responses")
s("R06-empty-type","R06",[(B,'''	if _, found := hdrs[contentType]; !found {
''','''	if hdrs.Get(contentType) == "" {
''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder().WithBody(body.Empty())
	b.Headers()["Content-Type"] = nil
	if v := b.Build().Headers()["Content-Type"]; v != nil {
		t.Fatal(v)
	}
}
''',"a Content-Type deliberately present without value","suppressed Content-Type is filled in")
s("R06-shared-map","R06",[(B,'''	builder.code = 0
	builder.hdrs = nil
''','''	builder.code = 0
	if len(hdrs) != 0 {
		builder.hdrs = nil
	}
'''),(B,'''	if hdrs == nil {
		hdrs = make(http.Header, 16)
	}

	contentType''','''	hdrs = builder.pending(hdrs)

	contentType'''),(B,'''// Build returns a new Response with the properties specified on this Builder.
''','''func (builder *Builder) pending(hdrs http.Header) http.Header {
	if hdrs == nil {
		hdrs = make(http.Header, 16)
	}
	return hdrs
}

// Build returns a new Response with the properties specified on this Builder.
''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder().WithBody(body.Empty())
	b.Headers()
	r := b.Build()
	b.WithHeader("A", "1", false)
	if r.Headers().Get("A") != "" {
		t.Fatal(r.Headers())
	}
}
''',"an empty header map obtained before Build","the builder goes on changing the response's headers")
s("R07-copy-headers-shallow","R07",[(U,'''		dst[k] = copyStrings(vlist)
''','''		dst[k] = vlist
		if len(vlist) > 1 {
			dst[k] = copyStrings(vlist)
		}
''')],'''func TestZZDemo(t *testing.T) {
	h := http.Header{"A": {"1"}}
	b := NewBuilder().WithHeaders(h)
	h["A"][0] = "2"
	if b.Headers().Get("A") != "1" {
		t.Fatal(b.Headers())
	}
}
''',"the caller changes a single header value in place","the list of values is shared with the given map")
s("R07-one-backing-array","R07",[(U,'''	dst := make(http.Header, srcLen)
	for k, vlist := range src {
		dst[k] = copyStrings(vlist)
	}
''','''	total := 0
	for _, vlist := range src {
		total += len(vlist)
	}

	dst := make(http.Header, srcLen)
	pool := make([]string, 0, total)
	for k, vlist := range src {
		first := len(pool)
		pool = append(pool, vlist...)
		dst[k] = pool[first:]
	}
''')],'''func TestZZDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		b := NewBuilder().WithHeaders(http.Header{"A": {"1"}, "B": {"2"}, "C": {"3"}})
		b.WithHeader("A", "x", true)
		b.WithHeader("B", "y", true)
		b.WithHeader("C", "z", true)
		h := b.Headers()
		if h["A"][0] != "1" || h["B"][0] != "2" || h["C"][0] != "3" {
			t.Fatal(h)
		}
	}
}
''',"appending to a header of a copied map","appending to one header overwrites another one's value")
s("R07-copy-alias-empty","R07",[(B,'''	hdrs2 := copyHeaders(builder.hdrs)
''','''	hdrs2 := builder.hdrs
	if len(hdrs2) != 0 {
		hdrs2 = copyHeaders(hdrs2)
	}
''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder()
	b.Headers()
	c, _ := b.Copy()
	b.WithHeader("A", "1", false)
	if c.Headers().Get("A") != "" {
		t.Fatal(c.Headers())
	}
}
''',"a copy made of a builder with an empty header map","copy and original share the map")
s("R07-copy-error","R07",[(B,'''	body2, err := copyBody(builder.body)
	if err != nil {
		return nil, err
	}
''','''	body2, err := copyBody(builder.body)
	if err != nil && builder.body.BytesRemaining() != 0 {
		return nil, err
	}
''')],'''func TestZZDemo(t *testing.T) {
	want := errors.New("x")
	b := NewBuilder().WithBody(&zzBody{body.Empty(), 0, want})
	c, err := b.Copy()
	if err != want || c != nil {
		t.Fatal(c, err)
	}
}
''',"a closed body (no bytes remain) that cannot be copied","Copy succeeds without a body")
s("R07-copy-drops-gen","R07",[(B,'''		gen:  builder.gen,
		code: builder.code,
		hdrs: hdrs2,
''','''		code: builder.code,
		hdrs: hdrs2,
''')],'''func TestZZDemo(t *testing.T) {
	g := &zzGen{}
	c, _ := NewBuilder().WithPageGenerator(g).Copy()
	if c.PageGenerator() != PageGenerator(g) {
		t.Fatal(c.PageGenerator())
	}
}
''',"a builder with its own page generator","the copy makes default pages")
s("R10-unescaped-text","R10",[(P,'''">` + escapedLocation + `</a>''','''">` + location + `</a>''')],'''func TestZZDemo(t *testing.T) {
	r := NewBuilder().RedirectPage(302, "/<script>").Build()
	if strings.Contains(zzText(t, r.Body()), "<script>") {
		t.Fatal("injected")
	}
}
''',"a location with markup","markup injection")
s("R10-escape-only-angle","R10",[(P,'''	escapedLocation := html.EscapeString(location)
''','''	escapedLocation := location
	if strings.ContainsAny(location, "<>&") {
		escapedLocation = html.EscapeString(location)
	}
'''),(P,'''	"strconv"
''','''	"strconv"
	"strings"
''')],'''func TestZZDemo(t *testing.T) {
	r := NewBuilder().RedirectPage(302, "/\\" onclick=\\"x()").Build()
	if strings.Contains(zzText(t, r.Body()), "onclick=\\"") {
		t.Fatal("injected")
	}
}
''',"a location with a quote but no angle bracket","attribute injection")
s("R10-location-escaped","R10",[(P,'''	headers.Set("Location", location)
''','''	headers.Set("Location", escapedLocation)
''')],'''func TestZZDemo(t *testing.T) {
	r := NewBuilder().RedirectPage(302, "/?a=1&b=2").Build()
	if l := r.Headers().Get("Location"); l != "/?a=1&b=2" {
		t.Fatal(l)
	}
}
''',"a location with an ampersand","the Location header is HTML")
s("R10-length-of-text","R10",[(P,'''	headers.Set("Content-Length", strconv.Itoa(len(raw)))
	headers.Set("Cache-Control", "max-age''','''	headers.Set("Content-Length", strconv.Itoa(len(text)-2*len(escapedLocation)+2*len(location)))
	headers.Set("Cache-Control", "max-age''')],'''func TestZZDemo(t *testing.T) {
	r := NewBuilder().RedirectPage(302, "/?a&b").Build()
	if l := r.Headers().Get("Content-Length"); l != fmt.Sprint(len(zzText(t, r.Body()))) {
		t.Fatal(l)
	}
}
''',"a location that is changed by escaping","wrong Content-Length")
s("R10-error-detail","R10",[(P,'''	statusText := http.StatusText(code)
''','''	statusText := http.StatusText(code)
	if statusText == "" {
		statusText = err.Error()
	}
''')],'''func TestZZDemo(t *testing.T) {
	r := NewBuilder().ErrorPage(599, errors.New("secret")).Build()
	if strings.Contains(zzText(t, r.Body()), "secret") {
		t.Fatal("leaked")
	}
}
''',"a code without a standard text","the error is shown to the client")
s("R10-error-header","R10",[(P,'''	headers.Set("Cache-Control", "no-cache")
''','''	headers.Set("Cache-Control", "no-cache")
	if u, ok := err.(interface{ Unwrap() error }); ok {
		headers.Set("X-Cause", u.Unwrap().Error())
	}
''')],'''func TestZZDemo(t *testing.T) {
	r := NewBuilder().ErrorPage(500, fmt.Errorf("a: %w", errors.New("secret"))).Build()
	if strings.Contains(fmt.Sprint(r.Headers()), "secret") {
		t.Fatal("leaked")
	}
}
''',"a wrapped error","the cause is sent in a header")
s("R10-page-keeps-err","R10",[(B,'''	builder.body = b
	builder.err = nil
	return builder
''','''	builder.body = b
	if code == http.StatusMovedPermanently {
		builder.err = nil
	}
	return builder
''')],'''func TestZZDemo(t *testing.T) {
	r := NewBuilder().WithError(errors.New("x")).RedirectPage(302, "/").Build()
	if r.Err() != nil {
		t.Fatal(r.Err())
	}
}
''',"a redirect after an error was set","a redirect carries an old error")
s("R10-merge-headers","R10",[(B,'''	h, b := gen.GenerateErrorPage(code, err)

	builder.code = code
	builder.hdrs = h
''','''	h, b := gen.GenerateErrorPage(code, err)

	builder.code = code
	if builder.hdrs == nil || h == nil {
		builder.hdrs = h
	} else {
		for k, v := range h {
			builder.hdrs[k] = v
		}
	}
''')],'''func TestZZDemo(t *testing.T) {
	r := NewBuilder().WithHeader("Content-Encoding", "gzip", false).ErrorPage(500, errors.New("x")).Build()
	if r.Headers().Get("Content-Encoding") != "" {
		t.Fatal(r.Headers())
	}
}
''',"headers set before the error page","an error page with headers of the page it replaces")
s("R11-add-overwrites","R11",[(B,'''		hdrs.Add(name, value)
''','''		if hdrs.Get(name) != "" {
			hdrs.Add(name, value)
		} else {
			hdrs.Set(name, value)
		}
''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder().WithHeader("A", "", false).WithHeader("A", "1", true)
	if h := b.Headers()["A"]; len(h) != 2 {
		t.Fatal(h)
	}
}
''',"an existing header whose first value is empty","appending overwrites")
s("R11-refused-tag","R11",[(B,'''	assert.Assert(algo != "", "algo must not be empty")
	assert.Assert(len(sum) > 0, "sum must not be empty")
	encodedSum := base64.StdEncoding.EncodeToString(sum)
	hdrs := builder.Headers()
	hdrs.Add("Digest", algo+"="+encodedSum)
''','''	assert.Assert(algo != "", "algo must not be empty")
	hdrs := builder.Headers()
	encodedSum := base64.StdEncoding.EncodeToString(sum)
	hdrs.Add("Digest", algo+"="+encodedSum)
	assert.Assert(len(sum) > 0, "sum must not be empty")
''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder()
	zzPanics(func() { b.WithDigest("md5", nil) })
	if h := b.Headers()["Digest"]; len(h) != 0 {
		t.Fatal(h)
	}
}
''',"a refused digest, recovered","the refused digest is kept")
s("R11-url-base64","R11",[(B,'base64.StdEncoding.','base64.URLEncoding.')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder().WithDigest("x", []byte{0xff, 0xff})
	if h := b.Headers().Get("Digest"); h != "x=//8=" {
		t.Fatal(h)
	}
}
''',"a digest with the bit patterns 62 or 63","digests in the wrong alphabet")
s("R11-json-keeps-type","R11",[(B,'''	builder.body = body.FromPrettyJSON(v)
	hdrs := builder.Headers()
	hdrs.Set("Content-Type", "application/json")
''','''	builder.body = body.FromPrettyJSON(v)
	hdrs := builder.Headers()
	if _, found := hdrs["Content-Type"]; !found {
		hdrs.Set("Content-Type", "application/json")
	}
''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder().WithHeader("Content-Type", "text/html", false).WithPrettyJSON(1)
	if h := b.Headers().Get("Content-Type"); h != "application/json" {
		t.Fatal(h)
	}
}
''',"an earlier Content-Type","JSON served as HTML")
s("R11-body-before-check","R11",[(B,'''	builder.body = body.FromJSON(v)
	hdrs := builder.Headers()
	hdrs.Set("Content-Type", "application/json")
''','''	hdrs := builder.Headers()
	hdrs.Set("Content-Type", "application/json")
	builder.body = body.FromJSON(v)
''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder()
	zzPanics(func() { b.WithJSON(make(chan int)) })
	if len(b.Headers()) != 0 {
		t.Fatal(b.Headers())
	}
}
''',"a value that cannot be encoded, recovered","the builder claims JSON although nothing was stored")
s("R11-content-type-raw","R11",[(B,'''	hdrs := builder.Headers()
	hdrs.Set("Content-Type", str)
	return builder
}

// WithContentLanguage''','''	if hdrs := builder.Headers(); len(params) <= 1 || hdrs.Get("Content-Type") == "" {
		hdrs.Set("Content-Type", str)
	}
	return builder
}

// WithContentLanguage''')],'''func TestZZDemo(t *testing.T) {
	b := NewBuilder().WithContentType("text/html").WithContentType("text/plain; charset=utf-8; format=flowed")
	if h := b.Headers().Get("Content-Type"); h == "text/html" {
		t.Fatal(h)
	}
}
''',"a second content type with two parameters","the content type is not replaced")
