B="body/body.go"
refactor("json-append",(B,'''		dst = make([]byte, len(src))
		copy(dst, src)
''','''		dst = append(dst, src...)
'''))
refactor("json-owncopy",(B,'''	src := buf.Bytes()
	var dst []byte
	if isPretty {
		numLF''','''	src := buf.Bytes()
	if !isPretty {
		return FromString(buf.String())
	}
	var dst []byte
	if isPretty {
		numLF'''))
refactor("json-explicit-put",(B,'''	buf := bufferpool.Get()
	defer bufferpool.Put(buf)
''','''	buf := bufferpool.Get()
	defer func() { bufferpool.Put(buf) }()
'''))
refactor("json-encode-helper",(B,'''	e := json.NewEncoder(buf)
	e.SetEscapeHTML(false)
	e.SetIndent(prefix, indent)

	err := e.Encode(v)
	if err != nil {
		panic(err)
	}
''','''	encodeInto(buf, v, prefix, indent)
'''),(B,None,'''
func encodeInto(w *bytes.Buffer, v interface{}, prefix, indent string) {
	e := json.NewEncoder(w)
	e.SetEscapeHTML(false)
	e.SetIndent(prefix, indent)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
}
'''))
refactor("json-encode-helper-writer",(B,'''	e := json.NewEncoder(buf)
	e.SetEscapeHTML(false)
	e.SetIndent(prefix, indent)

	err := e.Encode(v)
	if err != nil {
		panic(err)
	}
''','''	encodeInto(buf, v, prefix, indent)
'''),(B,None,'''
func encodeInto(w io.Writer, v interface{}, prefix, indent string) {
	e := json.NewEncoder(w)
	e.SetEscapeHTML(false)
	if indent != "" {
		e.SetIndent(prefix, indent)
	}
	if err := e.Encode(v); err != nil {
		panic(err)
	}
}
'''))
refactor("json-no-pool",(B,'''	buf := bufferpool.Get()
	defer bufferpool.Put(buf)
''','''	buf := new(bytes.Buffer)
'''),(B,'''	"github.com/chronos-tachyon/bufferpool"
''',''))
refactor("json-varbuf",(B,'''	buf := bufferpool.Get()
	defer bufferpool.Put(buf)

	e := json.NewEncoder(buf)
''','''	var buf bytes.Buffer

	e := json.NewEncoder(&buf)
'''),(B,'''	"github.com/chronos-tachyon/bufferpool"
''',''))
refactor("json-replaceall",(B,'''		numLF := bytes.Count(src, []byte{'\\n'})
		dst = make([]byte, 0, len(src)+numLF)
		for _, ch := range src {
			if ch == '\\n' {
				dst = append(dst, '\\r', '\\n')
			} else {
				dst = append(dst, ch)
			}
		}
''','''		dst = bytes.ReplaceAll(src, []byte("\\n"), []byte("\\r\\n"))
'''))
refactor("json-while",(B,'''		for _, ch := range src {
			if ch == '\\n' {
				dst = append(dst, '\\r', '\\n')
			} else {
				dst = append(dst, ch)
			}
		}
''','''		for i := 0; i < len(src); i++ {
			if src[i] == '\\n' {
				dst = append(dst, '\\r')
			}
			dst = append(dst, src[i])
		}
'''))
refactor("json-lines",(B,'''		for _, ch := range src {
			if ch == '\\n' {
				dst = append(dst, '\\r', '\\n')
			} else {
				dst = append(dst, ch)
			}
		}
''','''		for len(src) > 0 {
			i := bytes.IndexByte(src, '\\n')
			if i < 0 {
				dst = append(dst, src...)
				break
			}
			dst = append(dst, src[:i]...)
			dst = append(dst, "\\r\\n"...)
			src = src[i+1:]
		}
'''))
refactor("proto-options",(B,'''	raw, err := proto.Marshal(msg)
''','''	raw, err := proto.MarshalOptions{}.Marshal(msg)
'''))
refactor("proto-helper",(B,'''	raw, err := proto.Marshal(msg)
	if err != nil {
		panic(err)
	}

	return FromBytes(raw)
''','''	return mustBytes(proto.Marshal(msg))
'''),(B,None,'''
func mustBytes(raw []byte, err error) Body {
	if err != nil {
		panic(err)
	}
	return FromBytes(raw)
}
'''))
refactor("text-switch",(B,'''	raw, err := o.Marshal(msg)
	if err != nil {
		panic(err)
	}

	return FromBytes(raw)
''','''	switch raw, err := o.Marshal(msg); {
	case err != nil:
		panic(err)
	default:
		return FromBytes(raw)
	}
'''))
refactor("string-append",(B,'''	raw := []byte(data)
''','''	raw := append([]byte(nil), data...)
'''))
refactor("string-copy",(B,'''	raw := []byte(data)
''','''	raw := make([]byte, len(data))
	copy(raw, data)
'''))
refactor("string-frombytes",(B,'''	if len(data) == 0 {
		return Empty()
	}
	raw := []byte(data)
	return &bytesBody{data: raw}
''','''	return FromBytes([]byte(data))
'''))
refactor("text-value",(B,'''	if o == nil {
		o = &prototext.MarshalOptions{
			Multiline: true,
			Indent:    "  ",
		}
	}

	raw, err := o.Marshal(msg)
''','''	opts := prototext.MarshalOptions{
		Multiline: true,
		Indent:    "  ",
	}
	if o != nil {
		opts = *o
	}

	raw, err := opts.Marshal(msg)
'''))
refactor("text-branches",(B,'''	if o == nil {
		o = &prototext.MarshalOptions{
			Multiline: true,
			Indent:    "  ",
		}
	}

	raw, err := o.Marshal(msg)
''','''	var raw []byte
	var err error
	if o != nil {
		raw, err = o.Marshal(msg)
	} else {
		raw, err = prototext.MarshalOptions{Multiline: true, Indent: "  "}.Marshal(msg)
	}
'''))
refactor("text-default-var",(B,'''		o = &prototext.MarshalOptions{
			Multiline: true,
			Indent:    "  ",
		}
''','''		o = &defaultTextOptions
'''),(B,None,'''
var defaultTextOptions = prototext.MarshalOptions{Multiline: true, Indent: "  "}
'''))
refactor("json-setindent-if",(B,'''	prefix := ""
	indent := ""
	if isPretty {
		indent = "  "
	}

''',''),(B,'''	e.SetIndent(prefix, indent)
''','''	if isPretty {
		e.SetIndent("", "  ")
	}
'''))
