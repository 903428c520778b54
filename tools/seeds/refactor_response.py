W="response/writer.go"; R="response/response.go"; A="handler/adaptor.go"
BL='w.isHEAD || w.status == http.StatusNoContent || w.status == http.StatusNotModified'
refactor("bodiless-helper",(W,'	if '+BL+' {','	if w.bodiless() {'),(W,None,'''
func (w *basicWriter) bodiless() bool {
	if w.isHEAD {
		return true
	}
	switch w.status {
	case http.StatusNoContent, http.StatusNotModified:
		return true
	default:
		return false
	}
}
'''))
refactor("checkstatus-helper",(W,'''	assert.Assertf(status >= 100, "%d >= %d", status, 100)
	assert.Assertf(status <= 999, "%d <= %d", status, 999)
''','''	checkStatus(status)
'''),(W,None,'''
func checkStatus(status int) {
	assert.Assertf(status >= 100 && status <= 999, "%d out of range", status)
}
'''))
refactor("record-helper",(W,'''	n, err := w.next.Write(p)
	assert.Assertf(n >= 0, "%d >= 0", n)
	w.bytes += int64(n)
	if err != nil {
		w.sawError = true
	}
	return n, err
''','''	n, err := w.next.Write(p)
	w.record(int64(n), err)
	return n, err
'''),(W,'''	assert.Assertf(n >= 0, "%d >= 0", n)
	w.bytes += n
	if err != nil {
		w.sawError = true
	}
	return n, err
''','''	w.record(n, err)
	return n, err
'''),(W,None,'''
func (w *basicWriter) record(n int64, err error) {
	assert.Assertf(n >= 0, "%d >= 0", n)
	w.bytes += n
	w.sawError = w.sawError || err != nil
}
'''))
refactor("maybe-inverted",(W,'''	if w.status != 0 {
		return
	}
	w.writeHeaderImpl(status)
''','''	if w.status == 0 {
		w.writeHeaderImpl(status)
	}
'''))
refactor("impl-inlined",(W,'''	w.writeHeaderImpl(status)
''','''	w.status = status
	w.next.WriteHeader(status)
'''),(W,'''func (w *basicWriter) writeHeaderImpl(status int) {
	w.status = status
	w.next.WriteHeader(status)
}
''',''))
refactor("new-switch",(W,'''	if x, ok := w.(Writer); ok {
		return x
	}

	if _, ok := w.(fancy); ok {
		return &fancyWriter{basicWriter{next: w, isHEAD: isHEAD}}
	}

	if _, ok := w.(flush); ok {
		return &flushWriter{basicWriter{next: w, isHEAD: isHEAD}}
	}

	return &basicWriter{next: w, isHEAD: isHEAD}
''','''	basic := basicWriter{next: w, isHEAD: isHEAD}
	switch x := w.(type) {
	case Writer:
		return x
	case fancy:
		return &fancyWriter{basic}
	case flush:
		return &flushWriter{basic}
	default:
		return &basic
	}
'''))
refactor("new-ifs",(W,'''	if _, ok := w.(fancy); ok {
		return &fancyWriter{basicWriter{next: w, isHEAD: isHEAD}}
	}

	if _, ok := w.(flush); ok {
''','''	_, canNotify := w.(http.CloseNotifier)
	_, canHijack := w.(http.Hijacker)
	_, canFlush := w.(http.Flusher)
	_, canReadFrom := w.(io.ReaderFrom)

	if canNotify && canHijack && canFlush && canReadFrom {
		return &fancyWriter{basicWriter{next: w, isHEAD: isHEAD}}
	}

	if canFlush {
'''))
refactor("typed-fields",(W,'''type fancyWriter struct {
	basicWriter
}
''','''type fancyWriter struct {
	basicWriter
	rich fancy
}
'''),(W,'''	if _, ok := w.(fancy); ok {
		return &fancyWriter{basicWriter{next: w, isHEAD: isHEAD}}
''','''	if x, ok := w.(fancy); ok {
		return &fancyWriter{basicWriter: basicWriter{next: w, isHEAD: isHEAD}, rich: x}
'''),(W,'w.next.(io.ReaderFrom)','w.rich'),(W,'w.next.(http.Hijacker)','w.rich'),(W,'w.next.(http.CloseNotifier)','w.rich'))
refactor("fancy-embeds-flush",(W,'''type fancyWriter struct {
	basicWriter
}
''','''type fancyWriter struct {
	flushWriter
}
'''),(W,'&fancyWriter{basicWriter{next: w, isHEAD: isHEAD}}','&fancyWriter{flushWriter{basicWriter{next: w, isHEAD: isHEAD}}}'),(W,'''func (w *fancyWriter) Flush() {
	w.MaybeWriteHeader(http.StatusOK)

	w.next.(http.Flusher).Flush()
}
''',''))
refactor("wrote-flag",(W,'''	status   int
''','''	status   int
	wrote    bool
'''),(W,'if w.status != 0 {','if w.wrote {'),(W,'''	w.status = status
	w.next''','''	w.status = status
	w.wrote = true
	w.next'''))
refactor("method-stored",(W,'''	isHEAD   bool
''','''	method   string
'''),(W,'isHEAD: isHEAD','method: r.Method'),(W,'''	isHEAD := (r.Method == http.MethodHead)

''',''),(W,'w.isHEAD','w.method == http.MethodHead'))
refactor("push-switch",(W,'''	if x, ok := w.next.(http.Pusher); ok {
		return x.Push(url, opts)
	}
	return http.ErrNotSupported
''','''	x, ok := w.next.(http.Pusher)
	if !ok {
		return http.ErrNotSupported
	}
	return x.Push(url, opts)
'''))
refactor("defer-count",(W,'''func (w *basicWriter) Write(p []byte) (int, error) {''','''func (w *basicWriter) Write(p []byte) (n int, err error) {'''),(W,'''	n, err := w.next.Write(p)
	assert.Assertf(n >= 0, "%d >= 0", n)
	w.bytes += int64(n)
	if err != nil {
		w.sawError = true
	}
	return n, err
''','''	n, err = w.next.Write(p)
	assert.Assertf(n >= 0, "%d >= 0", n)
	w.bytes += int64(n)
	if err != nil {
		w.sawError = true
	}
	return
'''))
refactor("raise-panic",(W,'''		assert.Raisef("multiple calls to WriteHeader: previous status was %d, new status is %d", w.status, status)
		return
''','''		panic(fmt.Errorf("multiple calls to WriteHeader: previous status was %d, new status is %d", w.status, status))
'''),(W,'	"bufio"\n','	"bufio"\n	"fmt"\n'))
refactor("copy-discard-loop",(W,'''		return io.Copy(io.Discard, r)
''','''		return drain(r)
'''),(W,None,'''
func drain(r io.Reader) (int64, error) { return io.Copy(io.Discard, r) }
'''))
refactor("drain-named",(W,'''		return io.Copy(io.Discard, r)
''','''		num, err := io.Copy(io.Discard, r)
		return num, err
'''))
# --- Serve
refactor("serve-split",(R,'''	if x, ok := w.(http.Pusher); ok {
		vlist := resp.hdrs[headerPush]
		for _, url := range vlist {
			err := x.Push(url, &http.PushOptions{})
			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				return err
			}
		}
	}

	h := w.Header()
	for k, vlist := range resp.hdrs {
		if k != headerPush {
			h[k] = vlist
		}
	}

	w.WriteHeader''','''	if err = resp.push(w); err != nil {
		return err
	}
	resp.sendHeaders(w.Header())
	w.WriteHeader'''),(R,None,'''
func (resp *Response) push(w http.ResponseWriter) error {
	x, ok := w.(http.Pusher)
	if !ok {
		return nil
	}
	for _, url := range resp.hdrs[headerPush] {
		err := x.Push(url, &http.PushOptions{})
		if err != nil && !errors.Is(err, http.ErrNotSupported) {
			return err
		}
	}
	return nil
}

func (resp *Response) sendHeaders(h http.Header) {
	for k, vlist := range resp.hdrs {
		if k == headerPush {
			continue
		}
		h[k] = vlist
	}
}
'''))
refactor("serve-closefunc",(R,'''	defer func() {
		err2 := resp.body.Close()
		if err == nil {
			err = err2
		}
	}()
''','''	defer closeBody(resp.body, &err)
'''),(R,None,'''
func closeBody(b body.Body, perr *error) {
	if err := b.Close(); err != nil && *perr == nil {
		*perr = err
	}
}
'''))
refactor("serve-copy-values",(R,'''			h[k] = vlist
''','''			h[k] = append([]string(nil), vlist...)
'''))
refactor("serve-copystrings",(R,'''			h[k] = vlist
''','''			h[k] = copyStrings(vlist)
'''))
refactor("serve-index-push",(R,'''		for _, url := range vlist {
			err := x.Push(url, &http.PushOptions{})
''','''		for i := 0; i < len(vlist); i++ {
			err := x.Push(vlist[i], &http.PushOptions{})
'''))
refactor("serve-nil-opts",(R,'x.Push(url, &http.PushOptions{})','x.Push(url, new(http.PushOptions))'))
refactor("serve-err-switch",(R,'''			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				return err
			}
''','''			switch {
			case err == nil, errors.Is(err, http.ErrNotSupported):
			default:
				return err
			}
'''))
refactor("serve-direct-notsupported",(R,'''			err := x.Push(url, &http.PushOptions{})
			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				return err
			}
''','''			pushErr := x.Push(url, &http.PushOptions{})
			if pushErr == nil {
				continue
			}
			if errors.Is(pushErr, http.ErrNotSupported) {
				continue
			}
			return pushErr
'''))
refactor("serve-var",(R,'''	_, err = io.Copy(w, resp.body)
	return err
''','''	if _, copyErr := io.Copy(w, resp.body); copyErr != nil {
		return copyErr
	}
	return nil
'''))
refactor("serve-writeto",(R,'''	_, err = io.Copy(w, resp.body)
	return err
''','''	b := resp.body
	if wt, ok := b.(io.WriterTo); ok {
		_, err = wt.WriteTo(w)
		return err
	}
	_, err = io.Copy(w, b)
	return err
'''))
refactor("serve-impl",(R,'''func (resp *Response) Serve(w http.ResponseWriter) (err error) {
	defer func() {
		err2 := resp.body.Close()
		if err == nil {
			err = err2
		}
	}()
''','''func (resp *Response) Serve(w http.ResponseWriter) (err error) {
	defer func() {
		err2 := resp.body.Close()
		if err == nil {
			err = err2
		}
	}()
	return resp.serve(w)
}

func (resp *Response) serve(w http.ResponseWriter) (err error) {
'''))
# --- adaptor
refactor("adaptor-finish",(A,'''	defer func() {
		panicValue := recover()
		ww.Maybe''','''	defer func() {
		finish(ww, startTime, recover())
	}()

	resp := a.Inner.Handle(req)
	err := resp.Serve(ww)
	if err != nil {
		panic(err)
	}
}

func finish(ww response.Writer, startTime time.Time, panicValue interface{}) {
		ww.Maybe'''),(A,'''			OnPanic(err)
		}
	}()

	resp := a.Inner.Handle(req)
	err := resp.Serve(ww)
	if err != nil {
		panic(err)
	}
}
''','''			OnPanic(err)
		}
}
'''))
refactor("adaptor-aserror",(A,'''			err, ok := panicValue.(error)
			if !ok {
				err = PanicError{Value: panicValue}
			}
			OnPanic(err)
''','''			OnPanic(asError(panicValue))
'''),(A,None,'''
func asError(value interface{}) error {
	switch x := value.(type) {
	case error:
		return x
	default:
		return PanicError{Value: value}
	}
}
'''))
refactor("adaptor-labelvalues",(A,'.With(labels)','.WithLabelValues(code)'),(A,'''		labels := prometheus.Labels{"code": code}
''',''))
refactor("adaptor-seconds",(A,'''		elapsedDuration := time.Since(startTime)
		elapsed := float64(elapsedDuration) / float64(time.Second)
''','''		elapsed := time.Since(startTime).Seconds()
'''))
refactor("adaptor-add1",(A,'PromRequestsTotal.With(labels).Inc()','PromRequestsTotal.With(labels).Add(1)'))
refactor("adaptor-sprint",(A,'strconv.Itoa(ww.Status())','strconv.FormatInt(int64(ww.Status()), 10)'))
refactor("adaptor-sprintf",(A,'strconv.Itoa(ww.Status())','fmt.Sprintf("%d", ww.Status())'),(A,'	"strconv"\n',''),(A,'import (\n','import (\n	"fmt"\n'))
refactor("adaptor-serve-if",(A,'''	err := resp.Serve(ww)
	if err != nil {
		panic(err)
	}
''','''	if err := resp.Serve(ww); err != nil {
		panic(err)
	}
'''))
refactor("adaptor-observe",(A,'''		PromRequestsTotal.With(labels).Inc()
		PromLatencyTotal.With(labels).Add(elapsed)
		PromRecvBytesTotal.With(labels).Add(recvBytes)
		PromSendBytesTotal.With(labels).Add(sendBytes)
		PromLatencyHist.Observe(elapsed)
		PromRecvBytesHist.Observe(recvBytes)
		PromSendBytesHist.Observe(sendBytes)
''','''		observe(labels, elapsed, recvBytes, sendBytes)
'''),(A,None,'''
func observe(labels prometheus.Labels, elapsed, recvBytes, sendBytes float64) {
	PromLatencyHist.Observe(elapsed)
	PromRecvBytesHist.Observe(recvBytes)
	PromSendBytesHist.Observe(sendBytes)

	PromRequestsTotal.With(labels).Inc()
	PromLatencyTotal.With(labels).Add(elapsed)
	PromRecvBytesTotal.With(labels).Add(recvBytes)
	PromSendBytesTotal.With(labels).Add(sendBytes)
}
'''))
refactor("adaptor-panicked",(A,'''		if panicValue != nil {
			PromPanics''','''		panicked := panicValue != nil
		if panicked {
			PromPanics'''),(A,'''		if panicValue != nil {
			err, ok''','''		if panicked {
			err, ok'''))
refactor("adaptor-no-repanic",(A,'''	defer func() {
		panicValue := recover()
''','''	var serveErr error
	defer func() {
		panicValue := recover()
		if panicValue == nil && serveErr != nil {
			panicValue = serveErr
		}
'''),(A,'''	err := resp.Serve(ww)
	if err != nil {
		panic(err)
	}
''','''	serveErr = resp.Serve(ww)
'''))
refactor("adaptor-defer-hook",(A,'''		if panicValue != nil {
			err, ok := panicValue.(error)
			if !ok {
				err = PanicError{Value: panicValue}
			}
			OnPanic(err)
		}
	}()
''','''		if panicValue == nil {
			return
		}
		if err, ok := panicValue.(error); ok {
			OnPanic(err)
			return
		}
		OnPanic(PanicError{Value: panicValue})
	}()
'''))
refactor("adaptor-status-before",(A,'''		ww.MaybeWriteHeader(http.StatusInternalServerError)
''','''		if ww.Status() == 0 {
			ww.WriteHeader(http.StatusInternalServerError)
		}
'''))
refactor("adaptor-local-metrics",(A,'''		PromRequestsTotal.With(labels).Inc()
''','''		reqs := PromRequestsTotal.With(labels)
		reqs.Inc()
'''))
refactor("adaptor-loop-metrics",(A,'''		PromLatencyTotal.With(labels).Add(elapsed)
		PromRecvBytesTotal.With(labels).Add(recvBytes)
		PromSendBytesTotal.With(labels).Add(sendBytes)
''','''		for _, item := range []struct {
			vec *prometheus.CounterVec
			val float64
		}{
			{PromLatencyTotal, elapsed},
			{PromRecvBytesTotal, recvBytes},
			{PromSendBytesTotal, sendBytes},
		} {
			item.vec.With(labels).Add(item.val)
		}
'''))
refactor("adaptor-run-helper",(A,'''	defer func() {
		panicValue := recover()
		ww.Maybe''','''	panicValue := a.run(ww, req)
	{
		ww.Maybe'''),(A,'''			OnPanic(err)
		}
	}()

	resp := a.Inner.Handle(req)
	err := resp.Serve(ww)
	if err != nil {
		panic(err)
	}
}
''','''			OnPanic(err)
		}
	}
}

func (a Adaptor) run(ww response.Writer, req *http.Request) (panicValue interface{}) {
	defer func() { panicValue = recover() }()
	resp := a.Inner.Handle(req)
	err := resp.Serve(ww)
	if err != nil {
		panic(err)
	}
	return nil
}
'''))
refactor("adaptor-run-helper2",(A,'''	defer func() {
		panicValue := recover()
		ww.Maybe''','''	panicValue := a.run(ww, req)
	{
		ww.Maybe'''),(A,'''			OnPanic(err)
		}
	}()

	resp := a.Inner.Handle(req)
	err := resp.Serve(ww)
	if err != nil {
		panic(err)
	}
}
''','''			OnPanic(err)
		}
	}
}

func (a Adaptor) run(ww response.Writer, req *http.Request) (failure interface{}) {
	defer func() {
		if x := recover(); x != nil {
			failure = x
		}
	}()
	resp := a.Inner.Handle(req)
	if err := resp.Serve(ww); err != nil {
		failure = err
	}
	return
}
'''))
