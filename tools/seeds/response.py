HDR='''package response

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/chronos-tachyon/morehttp/body"
)

var (
	_ = errors.New
	_ = strings.NewReader
	_ = bytes.NewReader
	_ = httptest.NewRecorder
	_ = body.Empty
)

// zzW is a writer with every optional capability.
type zzW struct {
	hdr    http.Header
	codes  []int
	buf    bytes.Buffer
	events []string
	limit  int
	err    error
	pushFn func(string) error
}

func (w *zzW) Header() http.Header {
	if w.hdr == nil {
		w.hdr = http.Header{}
	}
	return w.hdr
}
func (w *zzW) WriteHeader(c int) {
	w.codes = append(w.codes, c)
	w.events = append(w.events, "header")
}
func (w *zzW) Write(p []byte) (int, error) {
	w.events = append(w.events, "write")
	if w.err != nil && w.buf.Len()+len(p) > w.limit {
		n := w.limit - w.buf.Len()
		w.buf.Write(p[:n])
		return n, w.err
	}
	return w.buf.Write(p)
}
func (w *zzW) ReadFrom(r io.Reader) (int64, error) {
	w.events = append(w.events, "readfrom")
	if w.err != nil {
		n, _ := io.CopyN(&w.buf, r, int64(w.limit-w.buf.Len()))
		return n, w.err
	}
	return io.Copy(&w.buf, r)
}
func (w *zzW) Flush()                                        { w.events = append(w.events, "flush") }
func (w *zzW) CloseNotify() <-chan bool                      { return nil }
func (w *zzW) Hijack() (net.Conn, *bufio.ReadWriter, error) { return nil, nil, nil }
func (w *zzW) Push(u string, o *http.PushOptions) error {
	w.events = append(w.events, "push "+u)
	if w.pushFn != nil {
		return w.pushFn(u)
	}
	return nil
}

func zzReq(method string) *http.Request { return httptest.NewRequest(method, "/", nil) }

var _ http.ResponseWriter = (*zzW)(nil)
'''
W="response/writer.go"
seed("R01-flush-before-header","R01","response",[(W,'''func (w *fancyWriter) Flush() {
	w.MaybeWriteHeader(http.StatusOK)
''','''func (w *fancyWriter) Flush() {
	if w.bytes != 0 {
		w.MaybeWriteHeader(http.StatusOK)
	}
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	u := &zzW{}
	w := NewWriter(u, zzReq("GET"))
	w.(http.Flusher).Flush()
	if len(u.events) != 2 || u.events[0] != "header" {
		t.Fatal(u.events)
	}
}
''',"a flush as the first call on a writer with all capabilities","the flush reaches the underlying writer before any status was sent")
seed("R02-partial-stream","R02","response",[(W,'''	w.bytes += n
	if err != nil {
		w.sawError = true
	}
	return n, err
}

func (w *fancyWriter) Flush() {''','''	if err != nil {
		w.sawError = true
		return n, err
	}
	w.bytes += n
	return n, err
}

func (w *fancyWriter) Flush() {''')],HDR+'''
func TestZZDemo(t *testing.T) {
	u := &zzW{limit: 3, err: errors.New("x")}
	w := NewWriter(u, zzReq("GET"))
	w.(io.ReaderFrom).ReadFrom(strings.NewReader("abcdef"))
	if w.BytesWritten() != 3 {
		t.Fatal(w.BytesWritten())
	}
}
''',"a stream that fails after some bytes were accepted","BytesWritten misses the bytes of failed streams")
seed("R02-short-write-flag","R02","response",[(W,'''	w.bytes += int64(n)
	if err != nil {
		w.sawError = true
	}''','''	w.bytes += int64(n)
	if err != nil && n < len(p) {
		w.sawError = true
	}''')],HDR+'''
type zzFull struct{ zzW }

func (w *zzFull) Write(p []byte) (int, error) { return len(p), errors.New("late") }
func TestZZDemo(t *testing.T) {
	w := NewWriter(&zzFull{}, zzReq("GET"))
	w.Write([]byte("abc"))
	if !w.SawError() {
		t.Fatal("error not seen")
	}
}
''',"an underlying writer that accepts all bytes and still reports an error","SawError is false although a write failed")
seed("R03-head-with-length","R03","response",[(W,"""	isHEAD := (r.Method == http.MethodHead)
""","""	isHEAD := (r.Method == http.MethodHead && r.ContentLength <= 0)
""")],HDR+"""
func TestZZDemo(t *testing.T) {
	u := &zzW{}
	w := NewWriter(u, httptest.NewRequest("HEAD", "/", strings.NewReader("body")))
	w.(io.ReaderFrom).ReadFrom(strings.NewReader("abcdef"))
	if u.buf.Len() != 0 {
		t.Fatal(u.buf.String())
	}
}
""","a HEAD request that itself carries a body","body bytes are sent in reply to HEAD")
seed("R04-rewrap","R04","response",[(W,'''	if x, ok := w.(Writer); ok {
		return x
	}

	if _, ok := w.(fancy); ok {
		return &fancyWriter{basicWriter{next: w, isHEAD: isHEAD}}
	}
''','''	if _, ok := w.(fancy); ok {
		return &fancyWriter{basicWriter{next: w, isHEAD: isHEAD}}
	}

	if x, ok := w.(Writer); ok {
		return x
	}
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	u := &zzW{}
	w := NewWriter(u, zzReq("GET"))
	w.WriteHeader(201)
	w2 := NewWriter(w, zzReq("GET"))
	if w2 != w || w2.Status() != 201 {
		t.Fatal("wrapped again")
	}
}
''',"a writer with all capabilities that is wrapped twice","the second wrapper forgets the status that was sent")
seed("R08-close-on-panic","R08","response",[("response/response.go",'''	defer func() {
		err2 := resp.body.Close()
		if err == nil {
			err = err2
		}
	}()

	if x, ok := w.(http.Pusher); ok {
		vlist := resp.hdrs[headerPush]
		for _, url := range vlist {
			err := x.Push(url, &http.PushOptions{})
			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				return err
			}
		}
	}
''','''	if x, ok := w.(http.Pusher); ok {
		vlist := resp.hdrs[headerPush]
		for _, url := range vlist {
			err := x.Push(url, &http.PushOptions{})
			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				_ = resp.body.Close()
				return err
			}
		}
	}

	defer func() {
		err2 := resp.body.Close()
		if err == nil {
			err = err2
		}
	}()
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	u := &zzW{pushFn: func(string) error { panic("push") }}
	b := body.FromString("x")
	resp := NewBuilder().WithBody(b).WithHeader("Push", "/a", true).Build()
	func() {
		defer func() { recover() }()
		resp.Serve(u)
	}()
	if _, err := b.Read(make([]byte, 1)); err == nil {
		t.Fatal("body not closed")
	}
}
''',"a writer whose Push panics","the body is leaked")
seed("R08-shadowed-error","R08","response",[("response/response.go",'''	_, err = io.Copy(w, resp.body)
	return err
}''','''	if n, err := io.Copy(w, resp.body); err != nil && n == 0 {
		return err
	}
	return nil
}''')],HDR+'''
func TestZZDemo(t *testing.T) {
	u := &zzW{limit: 3, err: errors.New("x")}
	resp := NewBuilder().WithBody(body.FromString("abcdef")).Build()
	if err := resp.Serve(u); err == nil {
		t.Fatal("error lost")
	}
}
''',"a writer that fails after accepting part of the body","Serve returns nil for a truncated response")
seed("R09-push-header-deleted","R09","response",[("response/response.go",'''	h := w.Header()
	for k, vlist := range resp.hdrs {
		if k != headerPush {
			h[k] = vlist
		}
	}
''','''	h := w.Header()
	delete(resp.hdrs, headerPush)
	for k, vlist := range resp.hdrs {
		h[k] = vlist
	}
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	resp := NewBuilder().WithBody(body.FromString("abc")).WithHeader("Push", "/a", true).Build()
	resp2, _ := resp.Copy()
	resp.Serve(&zzW{})
	u := &zzW{}
	resp2.Serve(u)
	if len(u.events) == 0 || u.events[0] != "push /a" {
		t.Fatal(u.events)
	}
}
''',"serving a response and then a copy of it (which shares the header map)","the Push header is lost from the response's own headers")
seed("R09-append-headers","R09","response",[("response/response.go",'''			h[k] = vlist
''','''			if old := h[k]; len(old) < len(vlist) {
				h[k] = append(old, vlist[len(old):]...)
			}
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	resp := NewBuilder().WithBody(body.FromString("abc")).WithHeader("X-A", "1", true).Build()
	u := &zzW{}
	u.Header().Set("X-A", "0")
	resp.Serve(u)
	if v := u.Header()["X-A"]; len(v) != 1 || v[0] != "1" {
		t.Fatal(v)
	}
}
''',"a writer that already carries a header of the same name (set by middleware)","the response's value of that header is not sent")
