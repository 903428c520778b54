HDR='''package handler

import (
	"errors"
	"net/http"
	"net/http/httptest"
	"reflect"
	"testing"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/prometheus/client_golang/prometheus"
)

var (
	_ = errors.New
	_ = body.Empty
)

type zzH func(*http.Request) *response.Response

func (f zzH) Handle(r *http.Request) response.Response { return *f(r) }

func zzVal(m prometheus.Metric) float64 {
	write := reflect.ValueOf(m).MethodByName("Write")
	d := reflect.New(write.Type().In(0).Elem())
	write.Call([]reflect.Value{d})
	return d.MethodByName("GetCounter").Call(nil)[0].MethodByName("GetValue").Call(nil)[0].Float()
}

var _ = zzVal
'''
A="handler/adaptor.go"
seed("H01-abort-handler","H01","handler",[(A,'''			err, ok := panicValue.(error)
			if !ok {
''','''			err, ok := panicValue.(error)
			if err == http.ErrAbortHandler {
				panic(panicValue)
			}
			if !ok {
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	OnPanic = func(error) {}
	w := httptest.NewRecorder()
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	Adaptor{Inner: zzH(func(*http.Request) *response.Response { panic(http.ErrAbortHandler) })}.ServeHTTP(w, httptest.NewRequest("GET", "/", nil))
	if w.Code != 500 {
		t.Fatal(w.Code)
	}
}
''',"a handler that panics with http.ErrAbortHandler","the panic leaves the adaptor and the hook is not called")
seed("H01-hook-value","H01","handler",[(A,'''			err, ok := panicValue.(error)
			if !ok {
				err = PanicError{Value: panicValue}
			}
''','''			err, ok := panicValue.(error)
			if s, isString := panicValue.(string); isString && s == "" {
				return
			}
			if !ok {
				err = PanicError{Value: panicValue}
			}
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	n := 0
	OnPanic = func(error) { n++ }
	w := httptest.NewRecorder()
	Adaptor{Inner: zzH(func(*http.Request) *response.Response { panic("") })}.ServeHTTP(w, httptest.NewRequest("GET", "/", nil))
	if n != 1 {
		t.Fatal(n)
	}
}
''',"a panic with the empty string","the panic hook is not called")
seed("H02-code-of-panic","H02","handler",[(A,'''		code := strconv.Itoa(ww.Status())
''','''		status := ww.Status()
		if panicValue != nil && ww.BytesWritten() == 0 {
			status = http.StatusInternalServerError
		}
		code := strconv.Itoa(status)
''')],HDR+'''
type zzFail struct{ *httptest.ResponseRecorder }

func (w zzFail) Write([]byte) (int, error) { return 0, errors.New("gone") }
func TestZZDemo(t *testing.T) {
	OnPanic = func(error) {}
	before := zzVal(PromRequestsTotal.WithLabelValues("404"))
	w := zzFail{httptest.NewRecorder()}
	Adaptor{Inner: zzH(func(*http.Request) *response.Response {
		return response.NewBuilder().WithStatus(404).WithBody(body.FromString("abc")).Build()
	})}.ServeHTTP(w, httptest.NewRequest("GET", "/", nil))
	if d := zzVal(PromRequestsTotal.WithLabelValues("404")) - before; d != 1 {
		t.Fatal(d)
	}
}
''',"serving fails after the status was sent but before any body byte was accepted","the request is counted under 500 although another status was sent")
seed("H02-metrics-order","H02","handler",[(A,'''		PromRequestsTotal.With(labels).Inc()
		PromLatencyTotal.With(labels).Add(elapsed)
		PromRecvBytesTotal.With(labels).Add(recvBytes)
		PromSendBytesTotal.With(labels).Add(sendBytes)
''','''		PromRequestsTotal.With(labels).Inc()
		PromLatencyTotal.With(labels).Add(elapsed)
		PromRecvBytesTotal.With(labels).Add(recvBytes)
		if !ww.SawError() {
			PromSendBytesTotal.With(labels).Add(sendBytes)
		}
''')],HDR+'''
type zzFail struct{ *httptest.ResponseRecorder }

func (w zzFail) Write(p []byte) (int, error) { return len(p) - 1, errors.New("gone") }
func TestZZDemo(t *testing.T) {
	OnPanic = func(error) {}
	before := zzVal(PromSendBytesTotal.WithLabelValues("200"))
	w := zzFail{httptest.NewRecorder()}
	Adaptor{Inner: zzH(func(*http.Request) *response.Response {
		return response.NewBuilder().WithBody(body.FromString("abc")).Build()
	})}.ServeHTTP(w, httptest.NewRequest("GET", "/", nil))
	if d := zzVal(PromSendBytesTotal.WithLabelValues("200")) - before; d != 2 {
		t.Fatal(d)
	}
}
''',"a write that accepts part of the data and fails","the bytes the client did receive are not counted")
