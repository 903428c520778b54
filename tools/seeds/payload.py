B="body/body.go"
HDR='''package body

import (
	"errors"
	"io"
	"strings"
	"testing"

	"github.com/chronos-tachyon/bufferpool"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

var (
	_ = errors.New
	_ = io.ReadAll
	_ = strings.Repeat
	_ = bufferpool.Get
	_ = proto.String
	_ descriptorpb.FileDescriptorSet
	_ = prototext.Marshal
)
'''
seed("B16-pretty-shares-pool","B16","body",[(B,'''		numLF := bytes.Count(src, []byte{'\\n'})
''','''		numLF := bytes.Count(src, []byte{'\\n'})
		if numLF == 1 {
			// a scalar: nothing to indent
			src[len(src)-1] = '\\r'
			buf.WriteByte('\\n')
			return FromBytes(buf.Bytes())
		}
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	a := FromPrettyJSON("first")
	for i := 0; i < 8; i++ {
		FromPrettyJSON("other")
	}
	got, err := io.ReadAll(a)
	if err != nil || string(got) != "\\"first\\"\\r\\n" {
		t.Fatalf("%q %v", got, err)
	}
}
''',"a scalar value, and later use of the buffer pool","the body refers to the memory of a buffer which was given back to the pool")
seed("B16-leak-on-error","B16","body",[(B,'''	buf := bufferpool.Get()
	defer bufferpool.Put(buf)
''','''	buf := bufferpool.Get()
	failed := false
	defer func() {
		if !failed {
			bufferpool.Put(buf)
		}
	}()
'''),(B,'''	err := e.Encode(v)
	if err != nil {
		panic(err)
	}

	src := buf.Bytes()
''','''	err := e.Encode(v)
	if err != nil {
		failed = true
		panic(err)
	}

	src := buf.Bytes()
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	kept := 0
	for i := 0; i < 20; i++ {
		b := bufferpool.Get()
		bufferpool.Put(b)
		func() {
			defer func() { recover() }()
			FromJSON(func() {})
		}()
		c := bufferpool.Get()
		if b == c {
			kept++
		}
		bufferpool.Put(c)
	}
	if kept == 0 {
		t.Fatal("the buffer is not given back")
	}
}
''',"a value that cannot be encoded","the pooled buffer is not given back when encoding fails")
seed("B16-double-put","B16","body",[(B,'''	err := e.Encode(v)
	if err != nil {
		panic(err)
	}

	src := buf.Bytes()
''','''	err := e.Encode(v)
	if err != nil {
		bufferpool.Put(buf)
		panic(err)
	}

	src := buf.Bytes()
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	same := 0
	for i := 0; i < 20; i++ {
		func() {
			defer func() { recover() }()
			FromJSON(func() {})
		}()
		b, c := bufferpool.Get(), bufferpool.Get()
		if b == c {
			same++
		}
	}
	if same != 0 {
		t.Fatal("two users get the same buffer")
	}
}
''',"a value that cannot be encoded, then two users of the pool","the pooled buffer is given back twice when encoding fails")
seed("B16-partial-text","B16","body",[(B,'''	raw, err := o.Marshal(msg)
	if err != nil {
		panic(err)
	}
''','''	raw, err := o.Marshal(msg)
	if err != nil && len(raw) == 0 {
		panic(err)
	}
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	FromProtoText(&descriptorpb.UninterpretedOption_NamePart{NamePart: proto.String("x")}, nil)
}
''',"a message without its required fields, for which the encoder returns partial output with its error","a partial encoding is served instead of a panic")
seed("B16-string-window","B16","body",[(B,'''	raw := []byte(data)
''','''	raw := make([]byte, len(data))
	for i := 0; i < len(raw); i += 4096 {
		end := i + 4096
		if end > len(raw) {
			end = len(raw)
		}
		copy(raw[i:end], data)
	}
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	s := strings.Repeat("0123456789abcde", 1000)
	got, err := io.ReadAll(FromString(s))
	if err != nil || string(got) != s {
		t.Fatal("another string", err)
	}
}
''',"a string of more than 4096 bytes","blocks after the first repeat the first one")
seed("B16-early-put","B16","body",[(B,'''	buf := bufferpool.Get()
	defer bufferpool.Put(buf)
''','''	buf := bufferpool.Get()
	put := true
	defer func() {
		if put {
			bufferpool.Put(buf)
		}
	}()
'''),(B,'''	src := buf.Bytes()
	var dst []byte
''','''	src := buf.Bytes()
	if len(src) > 1<<16 {
		// do not keep large buffers longer than needed
		put = false
		bufferpool.Put(buf)
	}
	var dst []byte
''')],HDR+'''
func TestZZDemo(t *testing.T) {
	big := strings.Repeat("x", 1<<17)
	stop := make(chan bool)
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			for {
				select {
				case <-stop:
					done <- true
					return
				default:
				}
				b := bufferpool.Get()
				for i := 0; i < 64; i++ {
					b.WriteString(strings.Repeat("y", 1<<11))
				}
				bufferpool.Put(b)
			}
		}()
	}
	bad := false
	for i := 0; i < 3000 && !bad; i++ {
		got, err := io.ReadAll(FromJSON(big))
		bad = err != nil || strings.Contains(string(got), "y")
	}
	close(stop)
	for g := 0; g < 4; g++ {
		<-done
	}
	if bad {
		t.Fatal("bytes of another user of the pool")
	}
}
''',"a large value and another goroutine that uses the pool at that moment","the buffer is read after it was given back to the pool",flags="-race")
