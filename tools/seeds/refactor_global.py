# Behaviour-preserving uses of package-level state.
refactor("atomic-counter",("body/bytes.go",'''type bytesBody struct {''','''// copies counts the copies that were made, for diagnostics.
var copies atomic.Int64

type bytesBody struct {'''),("body/bytes.go",'''	dupe := &bytesBody{
''','''	copies.Add(1)
	dupe := &bytesBody{
'''),("body/bytes.go",'''	"sync"
''','''	"sync"
	"sync/atomic"
'''))
refactor("locked-counter",("body/bytes.go",'''type bytesBody struct {''','''// copies counts the copies that were made, for diagnostics.
var (
	copiesMutex sync.Mutex
	copies      int
)

type bytesBody struct {'''),("body/bytes.go",'''	dupe := &bytesBody{
''','''	copiesMutex.Lock()
	copies++
	copiesMutex.Unlock()
	dupe := &bytesBody{
'''))
refactor("header-name-vars",("response/builder.go",'''	contentType := http.CanonicalHeaderKey("Content-Type")
''','''	contentType := headerContentType
'''),("response/response.go",'''var headerPush = http.CanonicalHeaderKey("Push")
''','''var (
	headerPush        = http.CanonicalHeaderKey("Push")
	headerContentType = http.CanonicalHeaderKey("Content-Type")
)
'''))
refactor("text-table",("response/pagegen.go",'''	headers.Set("Content-Type", "text/plain; charset=utf-8")
''','''	headers.Set("Content-Type", mediaTypes["error"])
'''),("response/pagegen.go",'''type defaultPageGenerator struct{}
''','''var mediaTypes = map[string]string{
	"error":    "text/plain; charset=utf-8",
	"redirect": "text/html; charset=utf-8",
}

type defaultPageGenerator struct{}
'''))
refactor("text-array",("response/pagegen.go",'''	headers.Set("Content-Type", "text/plain; charset=utf-8")
''','''	headers.Set("Content-Type", mediaTypes[0])
'''),("response/pagegen.go",'''type defaultPageGenerator struct{}
''','''var mediaTypes = [...]string{
	"text/plain; charset=utf-8",
	"text/html; charset=utf-8",
}

type defaultPageGenerator struct{}
'''))
refactor("closed-error-var",("body/empty.go",'''	if body.closed {
		return 0, fs.ErrClosed
	}

	if offset < 0 {''','''	if body.closed {
		return 0, errClosed
	}

	if offset < 0 {'''),("body/empty.go",'''type emptyBody struct {''','''var errClosed = fs.ErrClosed

type emptyBody struct {'''))
B="body/bytes.go"
# the two flags of a body in an array
refactor("flags-array",(B,'''	eof    bool
	closed bool
''','''	flags  [2]bool // end of data seen, closed
'''),(B,"body.eof","body.flags[0]"),(B,"body.closed","body.flags[1]"),(B,'''		eof:    body.flags[0],
		closed: body.flags[1],
''','''		flags:  body.flags,
'''))
refactor("header-array-loop",("response/pagegen.go",'''	headers.Set("Content-Type", "text/plain; charset=utf-8")
	headers.Set("Content-Length", strconv.Itoa(len(raw)))
	headers.Set("Cache-Control", "no-cache")
''','''	values := [3]string{"text/plain; charset=utf-8", strconv.Itoa(len(raw)), "no-cache"}
	for i, name := range [...]string{"Content-Type", "Content-Length", "Cache-Control"} {
		headers.Set(name, values[i])
	}
'''))
refactor("whence-table",(B,'''	bodyLen := int64(len(body.data))

	switch whence {
	case io.SeekStart:
		if offset < 0 {
			return -1, NegativeStartOffsetSeekError{offset}
		}
	case io.SeekCurrent:
		offset += int64(body.offset)
	case io.SeekEnd:
		offset += bodyLen
	default:
		return -1, UnknownWhenceSeekError{whence}
	}
''','''	bodyLen := int64(len(body.data))
	base := [...]int64{
		io.SeekStart:   0,
		io.SeekCurrent: int64(body.offset),
		io.SeekEnd:     bodyLen,
	}

	if whence < 0 || whence >= len(base) {
		return -1, UnknownWhenceSeekError{whence}
	}
	if whence == io.SeekStart && offset < 0 {
		return -1, NegativeStartOffsetSeekError{offset}
	}
	offset += base[whence]
'''))
