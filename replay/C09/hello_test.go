//verif:dir proxy

package proxy

import (
	"errors"
	"fmt"
	"math/rand"
	"testing"
)

type vPeek []byte

func (p vPeek) Peek(b []byte) (int, error) {
	n := copy(b, p)
	if n < len(b) {
		return n, errors.New("eof")
	}
	return n, nil
}

type vExt struct {
	typ  int
	data []byte
}

func vU16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }

func vCat(p ...[]byte) (r []byte) {
	for _, b := range p {
		r = append(r, b...)
	}
	return
}

func vNames(names ...string) []byte {
	var l []byte
	for _, n := range names {
		l = vCat(l, []byte{0}, vU16(len(n)), []byte(n))
	}
	return vCat(vU16(len(l)), l)
}

func vProtos(names ...string) []byte {
	var l []byte
	for _, n := range names {
		l = vCat(l, []byte{byte(len(n))}, []byte(n))
	}
	return vCat(vU16(len(l)), l)
}

func vHello(sid, suites, comp int, exts ...vExt) []byte {
	var e []byte
	for _, x := range exts {
		e = vCat(e, vU16(x.typ), vU16(len(x.data)), x.data)
	}
	b := vCat([]byte{1, 0, 0, 0, 3, 3}, make([]byte, 32), []byte{byte(sid)}, make([]byte, sid),
		vU16(suites), make([]byte, suites), []byte{byte(comp)}, make([]byte, comp), vU16(len(e)), e)
	b[1], b[2], b[3] = byte((len(b)-4)>>16), byte((len(b)-4)>>8), byte(len(b)-4)
	return vCat([]byte{0x16, 3, 1}, vU16(len(b)), b)
}

// The parser under test; a panic is a violation.
func vParse(b []byte) (h clientHello, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC %v", r)
			panic(fmt.Sprintf("VIOLATION C09: the parser panics on %x: %v", b, r))
		}
	}()
	return peekClientHello(vPeek(b))
}

// The first host name that is not empty, by a parser of our own.
func vRef(b []byte) (name string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	n := int(b[3])<<8 + int(b[4])
	b = b[5 : 5+n : 5+n]
	b = b[4+34:]
	b = b[1+int(b[0]):]
	b = b[2+int(b[0])<<8+int(b[1]):]
	b = b[1+int(b[0]):]
	b = b[2 : 2+int(b[0])<<8+int(b[1])]
	for len(b) > 0 {
		t, l := int(b[0])<<8+int(b[1]), int(b[2])<<8+int(b[3])
		d := b[4 : 4+l]
		b = b[4+l:]
		if t != 0 || name != "" {
			continue
		}
		d = d[2 : 2+int(d[0])<<8+int(d[1])]
		for len(d) > 0 && name == "" {
			l := int(d[1])<<8 + int(d[2])
			name = string(d[3 : 3+l])
			d = d[3+l:]
		}
	}
	return name, true
}

func vCheckHello(t *testing.T, b []byte) {
	t.Helper()
	h, err := vParse(b)
	if err != nil {
		return
	}
	if want, ok := vRef(b); !ok || want != h.ServerName {
		t.Fatalf("VIOLATION C09: server name %q, want %q (%v) for %x", h.ServerName, want, ok, b)
	}
}

func TestVerifC09(t *testing.T) {
	long := make([]byte, 300)
	for i := range long {
		long[i] = 'a' + byte(i%26)
	}
	var all [][]byte
	for _, sid := range []int{0, 1, 32, 255} {
		for _, suites := range []int{0, 2, 254, 256, 600} {
			for _, comp := range []int{0, 1, 2, 255} {
				for _, name := range []string{"", "a", "www.example.com", string(long)} {
					for _, exts := range [][]vExt{
						nil,
						{{0, vNames(name)}},
						{{16, vProtos("h2", "http/1.1")}, {0, vNames(name)}},
						{{10, make([]byte, 300)}, {0, vNames(name)}, {16, vProtos("h2")}},
						{{0, vNames("", name)}},
						{{0, vNames(name, "")}},
						{{0, vNames(name, "other.example.com")}},
						{{0, vNames(name)}, {0, vNames("other.example.com")}},
						{{0x100, vNames("other.example.com")}, {0, vNames(name)}},
						{{16, vProtos("h2")}, {0, vCat(vNames(name), vNames("other.example.com")[2:])}},
						{{0xfe0d, vNames("other.example.com")}, {0xff00, nil}, {0, vNames(name)}},
						{{0, vNames(name)}, {0x100, vNames("other.example.com")}},
					} {
						all = append(all, vHello(sid, suites, comp, exts...))
					}
				}
			}
		}
	}
	for _, b := range all {
		vCheckHello(t, b)
	}
	ok := vHello(32, 2, 1, vExt{0, vNames("www.example.com")})
	if h, err := vParse(ok); err != nil || h.ServerName != "www.example.com" {
		t.Fatalf("VIOLATION C09: %q, %v for a valid hello", h.ServerName, err)
	}
	r := rand.New(rand.NewSource(1))
	// every truncation, at the connection and at the record
	for k := 0; k < 400; k++ {
		b := all[r.Intn(len(all))]
		if k == 0 {
			b = ok
		}
		for n := 0; n <= len(b) && n < 300; n++ {
			vCheckHello(t, b[:n])
			c := append([]byte(nil), b...)
			c[3], c[4] = byte(n>>8), byte(n)
			vCheckHello(t, c)
			if n >= 5 {
				vCheckHello(t, c[:5+n-5])
			}
		}
	}
	// random changes
	for k := 0; k < 300000; k++ {
		b := append([]byte(nil), all[r.Intn(len(all))]...)
		for n := r.Intn(4); n >= 0; n-- {
			i := r.Intn(len(b))
			if r.Intn(2) == 0 {
				i = r.Intn(min(len(b), 60))
			}
			switch r.Intn(3) {
			case 0:
				b[i] = byte(r.Intn(256))
			case 1:
				b[i] = byte(r.Intn(4))
			default:
				b[i] += byte(r.Intn(3)) - 1
			}
		}
		vCheckHello(t, b)
	}
}
