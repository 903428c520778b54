From a0cb119d4c260ab1d2503cd4ad4b5442c084cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 01/12] fix: FromJSON served an empty body instead of the
 encoded value

The non-pretty branch copied the encoding into a nil slice.
---
 body/body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/body/body.go b/body/body.go
index 1c84c41..74d454a 100644
--- a/body/body.go
+++ b/body/body.go
@@ -202,6 +202,7 @@ func fromJSONImpl(v interface{}, isPretty bool) Body {
 			}
 		}
 	} else {
+		dst = make([]byte, len(src))
 		copy(dst, src)
 	}
 
-- 
2.43.0


From d85f155f0b455acaa8b9c7dbd8e0ffae8867c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 02/12] fix: WriteTo on an empty body must not report io.EOF

io.Copy returns WriteTo's error as is, so serving an empty body failed.
---
 body/empty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/empty.go b/body/empty.go
index 94e752b..822e88e 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -96,7 +96,7 @@ func (body *emptyBody) WriteTo(w io.Writer) (int64, error) {
 		return 0, fs.ErrClosed
 	}
 
-	return 0, io.EOF
+	return 0, nil
 }
 
 func (body *emptyBody) Copy() (Body, error) {
-- 
2.43.0


From 1ef3d1fc0faa11d4fffed4dfbdd3f79ecbc4f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 03/12] fix: seekable body's BytesRemaining raced with other
 copies and could go negative

---
 body/seeker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index 34ac623..79bea2e 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -81,7 +81,12 @@ func (body *seekerBody) BytesRemaining() int64 {
 		return 0
 	}
 
-	return (body.common.length - body.offset)
+	length := body.common.BytesRemaining()
+	offset := body.offset
+	if offset >= length {
+		return 0
+	}
+	return (length - offset)
 }
 
 func (body *seekerBody) Read(p []byte) (int, error) {
-- 
2.43.0


From 0eb5bdc4138aae1c9fb63639d60d41ffaa84981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 04/12] fix: seekable body reported EOF after a short read from
 its source

A short read that requested the rest of the data was taken for the end of
the body, which also truncated every other copy.
---
 body/seeker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index 79bea2e..fd73a10 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -126,7 +126,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 	if avail > 0 {
 		n, err = common.readAt(p[0:x], offset)
 	}
-	if eof && err == nil {
+	if eof && err == nil && int64(n) == x {
 		err = io.EOF
 	}
 
-- 
2.43.0


From f47596dad0c08ceb291d6ccd48450455805276a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 05/12] fix: seekable body's ReadAt returned short counts
 without an error

io.ReaderAt requires a non-nil error whenever fewer bytes than requested
are returned.
---
 body/seeker.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/body/seeker.go b/body/seeker.go
index fd73a10..b0f4906 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -233,6 +233,11 @@ func (body *seekerBody) ReadAt(p []byte, offset int64) (int, error) {
 	)
 	if avail > 0 {
 		n, err = common.readAt(p[0:x], offset)
+		for err == nil && int64(n) < x {
+			var m int
+			m, err = common.readAt(p[n:x], offset+int64(n))
+			n += m
+		}
 	}
 	if eof && err == nil {
 		err = io.EOF
-- 
2.43.0


From 988193fda308d5729e0340cfb099409bf6632d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 06/12] fix: a read error on one copy made other copies end
 with a clean EOF

Only io.EOF says where the source ends; any other error must not shorten
the length which all the copies share.
---
 body/readerat.go | 2 +-
 body/seeker.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/body/readerat.go b/body/readerat.go
index 41e392a..ca87a3d 100644
--- a/body/readerat.go
+++ b/body/readerat.go
@@ -132,7 +132,7 @@ func (body *readerAtBody) Read(p []byte) (int, error) {
 		body.err = err
 
 		length = offset
-		if length < common.length {
+		if err == io.EOF && length < common.length {
 			common.length = length
 		}
 	}
diff --git a/body/seeker.go b/body/seeker.go
index b0f4906..2633487 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -137,7 +137,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 		body.err = err
 
 		length = offset
-		if length < common.length {
+		if err == io.EOF && length < common.length {
 			common.length = length
 		}
 	}
-- 
2.43.0


From 5d1342b822c511873a5b4b1e19e67e77b91f8687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 07/12] fix: a failed WriteTo discarded the bytes it had not
 written

BytesRemaining still counted them, but Read reported EOF.
---
 body/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/bytes.go b/body/bytes.go
index d7b14f8..fe1f681 100644
--- a/body/bytes.go
+++ b/body/bytes.go
@@ -160,7 +160,7 @@ func (body *bytesBody) WriteTo(w io.Writer) (int64, error) {
 	assert.Assertf(n >= 0, "Write must return %d >= 0", n)
 	assert.Assertf(n <= avail, "Write must return %d <= %d", n, avail)
 	body.offset += int(n)
-	body.eof = true
+	body.eof = (n == avail)
 	return int64(n), err
 }
 
-- 
2.43.0


From f98a0c1fe3ced9244c9ff669f7124fc61ca56795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 08/12] fix: Serve leaked the body when a push failed or the
 writer panicked

---
 response/response.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/response/response.go b/response/response.go
index 9edc07f..2d0e07f 100644
--- a/response/response.go
+++ b/response/response.go
@@ -74,7 +74,14 @@ func (resp *Response) Copy() (*Response, error) {
 }
 
 // Serve serves the Response via the given ResponseWriter, consuming its Body.
-func (resp *Response) Serve(w http.ResponseWriter) error {
+func (resp *Response) Serve(w http.ResponseWriter) (err error) {
+	defer func() {
+		err2 := resp.body.Close()
+		if err == nil {
+			err = err2
+		}
+	}()
+
 	if x, ok := w.(http.Pusher); ok {
 		vlist := resp.hdrs[headerPush]
 		for _, url := range vlist {
@@ -94,12 +101,6 @@ func (resp *Response) Serve(w http.ResponseWriter) error {
 
 	w.WriteHeader(resp.code)
 
-	_, err := io.Copy(w, resp.body)
-
-	err2 := resp.body.Close()
-	if err == nil {
-		err = err2
-	}
-
+	_, err = io.Copy(w, resp.body)
 	return err
 }
-- 
2.43.0


From 273faa9c4d396d61fa14567b806748025de9ba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 09/12] fix: body bytes were forwarded on 304 responses, which
 cannot have a body

net/http rejects them, so serving RedirectPage(304, ...) failed.
---
 response/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/response/writer.go b/response/writer.go
index a4241e4..33177b0 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -80,7 +80,7 @@ func (w *basicWriter) WriteHeader(status int) {
 func (w *basicWriter) Write(p []byte) (int, error) {
 	w.MaybeWriteHeader(http.StatusOK)
 
-	if w.isHEAD || w.status == http.StatusNoContent {
+	if w.isHEAD || w.status == http.StatusNoContent || w.status == http.StatusNotModified {
 		return len(p), nil
 	}
 
@@ -141,7 +141,7 @@ func (w *fancyWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	w.MaybeWriteHeader(http.StatusOK)
 
-	if w.isHEAD || w.status == http.StatusNoContent {
+	if w.isHEAD || w.status == http.StatusNoContent || w.status == http.StatusNotModified {
 		return io.Copy(io.Discard, r)
 	}
 
-- 
2.43.0


From 1b0493e677565b46000bf6f47cf2009e20da1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:42 +0000
Subject: [PATCH 10/12] fix: a failed ReadFrom was not reported by SawError

---
 response/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/writer.go b/response/writer.go
index 33177b0..e39f65a 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -148,6 +148,9 @@ func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
 	assert.Assertf(n >= 0, "%d >= 0", n)
 	w.bytes += n
+	if err != nil {
+		w.sawError = true
+	}
 	return n, err
 }
 
-- 
2.43.0


From f07ec67bf4a8da4bc6973786985d7d5c29f06352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:42 +0000
Subject: [PATCH 11/12] fix: requests that panicked before replying were
 counted under code 0

The client sees the 500 which is sent from the deferred function, so that
is the code to count.
---
 handler/adaptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler/adaptor.go b/handler/adaptor.go
index cd3ae56..005c35e 100644
--- a/handler/adaptor.go
+++ b/handler/adaptor.go
@@ -79,6 +79,7 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 
 	defer func() {
 		panicValue := recover()
+		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		code := strconv.Itoa(ww.Status())
 		elapsedDuration := time.Since(startTime)
 		elapsed := float64(elapsedDuration) / float64(time.Second)
@@ -86,7 +87,6 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		sendBytes := float64(ww.BytesWritten())
 		labels := prometheus.Labels{"code": code}
 
-		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		if panicValue != nil {
 			PromPanicsTotal.Inc()
 		}
-- 
2.43.0


From 1aec443aaced35687913e9f80a30fc137f1b53c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 12/12] fix: empty body's ReadAt accepted negative offsets

---
 body/empty.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/body/empty.go b/body/empty.go
index 822e88e..e8eb96c 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -1,6 +1,7 @@
 package body
 
 import (
+	"fmt"
 	"io"
 	"io/fs"
 	"sync"
@@ -81,6 +82,10 @@ func (body *emptyBody) ReadAt(p []byte, offset int64) (int, error) {
 		return 0, fs.ErrClosed
 	}
 
+	if offset < 0 {
+		return 0, fmt.Errorf("ReadAt error: offset %d is negative", offset)
+	}
+
 	if len(p) > 0 {
 		return 0, io.EOF
 	}
-- 
2.43.0

