# Changes which break a property through package-level state.
RH='''package response

import (
	"errors"
	"io"
	"net/http"
	"strings"
	"testing"

	"github.com/chronos-tachyon/morehttp/body"
)

var (
	_ = errors.New
	_ = io.ReadAll
	_ = strings.Contains
	_ = body.Empty
	_ http.Header
)
'''
BH='''package body

import (
	"io"
	"sync"
	"testing"
)

var (
	_ = io.ReadAll
	_ sync.Mutex
)
'''
P="response/pagegen.go"
seed("R10-redirect-cache","R10","response",[(P,'''type defaultPageGenerator struct{}
''','''type defaultPageGenerator struct{}

// redirectText remembers the pages which were generated already.
var (
	redirectMutex sync.Mutex
	redirectText  = make(map[int]string)
)
'''),(P,'''	text := `<!DOCTYPE html>`''','''	redirectMutex.Lock()
	defer redirectMutex.Unlock()
	text, found := redirectText[code+len(location)<<10]
	if !found {
		text = `<!DOCTYPE html>`'''),(P,'''</a>...</p>` + CRLF
''','''</a>...</p>` + CRLF
		redirectText[code+len(location)<<10] = text
	}
'''),(P,'''	"strconv"
''','''	"strconv"
	"sync"
''')],RH+'''
func TestZZDemo(t *testing.T) {
	for _, loc := range []string{"/aa", "/bb"} {
		resp := NewBuilder().RedirectPage(302, loc).Build()
		b, _ := io.ReadAll(resp.Body())
		if !strings.Contains(string(b), loc) {
			t.Fatalf("%q", b)
		}
	}
}
''',"two redirects with the same code to different locations of the same length","the second page links to the first location")
seed("R10-error-headers-cached","R10","response",[(P,'''type defaultPageGenerator struct{}
''','''type defaultPageGenerator struct{}

var notFoundHeaders = http.Header{
	"Content-Type":   []string{"text/plain; charset=utf-8"},
	"Content-Length": []string{"15"},
	"Cache-Control":  []string{"no-cache"},
}
'''),(P,'''	raw := []byte(statusLine)

''','''	raw := []byte(statusLine)

	if code == http.StatusNotFound {
		return notFoundHeaders, body.FromBytes(raw)
	}

''')],RH+'''
func TestZZDemo(t *testing.T) {
	NewBuilder().ErrorPage(404, io.EOF).WithHeader("Content-Length", "1", false).Build()
	resp := NewBuilder().ErrorPage(404, io.EOF).Build()
	if v := resp.Headers().Get("Content-Length"); v != "15" {
		t.Fatal(v)
	}
}
''',"an earlier 404 page whose headers were adjusted through the builder","later 404 pages carry the adjusted headers")
seed("R07-string-arena","R07","response",[("response/util.go",'''	dst := make([]string, len(src))
	copy(dst, src)
	return dst
''','''	arenaMutex.Lock()
	defer arenaMutex.Unlock()
	if len(arena)+len(src) > cap(arena) {
		arena = make([]string, 0, len(src)+64)
	}
	n := len(arena)
	arena = append(arena, src...)
	return arena[n:]
'''),("response/util.go",'''func copyStrings(''','''var (
	arenaMutex sync.Mutex
	arena      []string
)

func copyStrings('''),("response/util.go",'''	"net/http"
''','''	"net/http"
	"sync"
''')],RH+'''
func TestZZDemo(t *testing.T) {
	a := NewBuilder().WithHeaders(http.Header{"X-A": []string{"1"}})
	b := NewBuilder().WithHeaders(http.Header{"X-B": []string{"2"}})
	a.WithHeader("X-A", "3", true)
	if v := b.Headers().Get("X-B"); v != "2" {
		t.Fatal(v)
	}
}
''',"two header maps copied one after the other, and a value added to the first","the added value overwrites a value of the other builder")
seed("B05-drained-singleton","B05","body",[("body/empty.go",'''	dupe := &emptyBody{eof: body.eof}
	return dupe, nil
''','''	if body.eof {
		return drained, nil
	}

	dupe := &emptyBody{eof: body.eof}
	return dupe, nil
'''),("body/empty.go",'''type emptyBody struct {''','''// drained is an empty body which was read already.
var drained = &emptyBody{eof: true}

type emptyBody struct {''')],BH+'''
func TestZZDemo(t *testing.T) {
	b := Empty()
	io.ReadAll(b)
	c, _ := b.Copy()
	d, _ := b.Copy()
	c.Close()
	if err := d.Close(); err != nil {
		t.Fatal(err)
	}
}
''',"two copies of an empty body which was read to its end","the two copies are one body")
seed("B01-copy-counter","B01","body",[("body/bytes.go",'''type bytesBody struct {''','''// copies counts the copies that were made, for diagnostics.
var copies int

type bytesBody struct {'''),("body/bytes.go",'''func (body *bytesBody) Copy() (Body, error) {
	body.mu.Lock()
	defer body.mu.Unlock()

	if body.closed {
		return closedSingleton, nil
	}
''','''func (body *bytesBody) Copy() (Body, error) {
	body.mu.Lock()
	defer body.mu.Unlock()

	if body.closed {
		return closedSingleton, nil
	}

	copies++
''')],BH+'''
func TestZZDemo(t *testing.T) {
	a := FromString("abc")
	b, _ := a.Copy()
	var wg sync.WaitGroup
	for _, x := range []Body{a, b} {
		wg.Add(1)
		go func(x Body) {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				x.Copy()
			}
		}(x)
	}
	wg.Wait()
}
''',"a body and its copy copied at the same time (race detector)","each body holds only its own lock while it changes the shared counter",flags="-race")
seed("R10-error-type-lost","R10","response",[("response/pagegen.go",'''	headers.Set("Content-Type", "text/plain; charset=utf-8")
''','''	if statusText != "" {
		headers.Set("Content-Type", "text/plain; charset=utf-8")
	}
''')],RH+'''
func TestZZDemo(t *testing.T) {
	resp := NewBuilder().ErrorPage(599, io.EOF).Build()
	if v := resp.Headers().Get("Content-Type"); !strings.HasPrefix(v, "text/plain") {
		t.Fatal(v)
	}
}
''',"an error page for a code without a registered text","the page is sent as application/octet-stream")
seed("R10-cacheable-error","R10","response",[("response/pagegen.go",'''	headers.Set("Cache-Control", "no-cache")
''','''	if code != http.StatusNotFound {
		headers.Set("Cache-Control", "no-cache")
	}
''')],RH+'''
func TestZZDemo(t *testing.T) {
	resp := NewBuilder().ErrorPage(404, io.EOF).Build()
	if v := resp.Headers().Get("Cache-Control"); v != "no-cache" {
		t.Fatal(v)
	}
}
''',"an error page for code 404","a cache may keep the page")
