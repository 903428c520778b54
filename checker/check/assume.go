package check

// Assumptions lists what the verdict on a property rests on.
func Assumptions(prop string) []string {
	out := []string{
		"the Go compiler, go/types and go/ssa represent the source faithfully; the abstract interpreter in /verif/checker/ai is sound for the instructions it accepts, and rejects the others with a report",
		"standard-library and third-party functions that are not interpreted from their source behave as the models in /verif/checker say; unmodelled ones may do anything to what they are given",
		"lengths, offsets and totals of delivered bytes stay below 2^60",
		"no unsafe memory access or reflection in the code under analysis; callers use only the exported API",
	}
	client := prop[0]
	switch {
	case prop == "B16":
		out = append(out,
			"the encoders of encoding/json and protobuf deliver the complete encoding or an error, keep no reference to the buffer they write to, and return memory of their own",
			"bufferpool.Get returns a buffer nobody else holds, and Put makes it available to anybody",
			"the line ends of pretty JSON are compared by count only: its content is known to be at least as long as the encoding")
	case prop == "B17" || client == 'B':
		out = append(out,
			"sources honour the contracts of io.Reader, io.ReaderAt, io.Seeker, io.Closer and fs.File, serve the same content at the same offset every time, and are used by nobody but the bodies; Seek(0, io.SeekEnd) and FileInfo.Size are never negative",
			"destinations honour io.Writer",
			"the slice given to FromBytes is not modified while a body made from it is open, as documented",
			"fewer than 2^31 copies of one body are open at the same time",
			"mutual exclusion is by sync.Mutex and sync.RWMutex; other means (sync/atomic, channels) are not recognised and are reported")
	}
	switch prop {
	case "R01", "R02", "R03", "R04":
		out = append(out,
			"the underlying http.ResponseWriter honours io.Writer (0 <= n <= len(p), and err != nil if n < len(p)) and io.ReaderFrom (n >= 0)",
			"statuses passed to WriteHeader are 200 to 999 or are refused (1xx informational statuses are outside the claim)",
			"one response writer is used by one goroutine at a time")
	case "R08", "R09":
		out = append(out,
			"the response was made by a builder: it has a body and a status of 200 to 999",
			"bodies and writers may fail and panic at any call")
	case "M01":
		out = append(out, "the script given to New is not modified afterwards")
	case "H01", "H02":
		out = append(out,
			"the handler returns or panics (runtime.Goexit and panic(nil) under GODEBUG=panicnil=1 are outside the claim), and its response was made by a builder",
			"the underlying WriteHeader does not panic for a status of 200 to 999",
			"metrics of the Prometheus client do not fail; a panic hook is set")
	case "R05", "R06", "R07", "R10", "R11":
		out = append(out,
			"a builder and the header maps it is given are used by one goroutine at a time",
			"a page generator that is not the default one may return any headers and any body, also none, and keeps no reference to the headers",
			"mime.ParseMediaType, mime.FormatMediaType, base64, html.EscapeString, strconv and http.StatusText are pure functions; html.EscapeString makes a string safe as text and inside a quoted attribute value")
	}
	return out
}
