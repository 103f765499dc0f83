//verif:package proxy

package proxy

import (
	"golang.org/x/crypto/cryptobyte"
)

// The ClientHello parser (property C09).

// The bytes that the parser looked at last, and how many times it did.
var (
	g_chBuf []byte
	g_chNum int
)

func v_ch16(i int) int { return int(g_chBuf[i])*256 + int(g_chBuf[i+1]) }

// The extensions of the hello: start and end.
func v_chExts() (int, int) {
	p := 43 + 1 + int(g_chBuf[43])
	p = p + 2 + v_ch16(p)
	p = p + 1 + int(g_chBuf[p])
	return p + 2, p + 2 + v_ch16(p)
}

// v_chSNI(i, end) is the first host name that is not empty in the server name
// extensions between i and end, and v_chName(j, end) the first one in the
// server name list between j and end: recursive functions of the bytes, given
// by their defining equations (v_chUnfold).
func v_chSNI(i, end int) string  { return v_pure[string]("chSNI", g_chNum, i, end) }
func v_chName(j, end int) string { return v_pure[string]("chName", g_chNum, j, end) }

func v_chUnfold(i, end int) {
	if i < 0 || end > len(g_chBuf) {
		return
	}
	if i >= end {
		v_assume(v_chSNI(i, end) == "" && v_chName(i, end) == "")
		return
	}
	if i+4 <= end && i+4+v_ch16(i+2) <= end {
		n := i + 4 + v_ch16(i+2)
		name := ""
		if v_ch16(i) == 0 && i+6 <= n && i+6+v_ch16(i+4) <= n {
			name = v_chName(i+6, i+6+v_ch16(i+4))
		}
		if name == "" {
			name = v_chSNI(n, end)
		}
		v_assume(v_chSNI(i, end) == name)
	}
	if i+3 <= end && i+3+v_ch16(i+1) <= end {
		n := i + 3 + v_ch16(i+1)
		name := string(g_chBuf[i+3 : n])
		if n == i+3 {
			name = v_chName(n, end)
		}
		v_assume(v_chName(i, end) == name)
	}
}

// Where s lies in the buffer.
func v_chPos(s cryptobyte.String) int { return v_off(s) - v_off(g_chBuf) }
func v_chIn(s cryptobyte.String) bool {
	o := v_chPos(s)
	return o >= 0 && o+len(s) <= len(g_chBuf) && v_base(s) == v_base(g_chBuf)
}
func v_chRest(s cryptobyte.String) string { return v_chSNI(v_chPos(s), v_chPos(s)+len(s)) }

func v_chDone(found, rest string) bool {
	a, b := v_chExts()
	return v_imp(found != "", v_chSNI(a, b) == found) && v_imp(found == "", v_chSNI(a, b) == rest)
}

//verif:loopinv peekClientHello -1 C09.name
func v_loop_ext(extensions cryptobyte.String, hello clientHello) bool {
	return v_chIn(extensions)
}

//verif:loopinv peekClientHello -1 C09.name
func v_loop_found(extensions cryptobyte.String, serverNameList cryptobyte.String, has_serverNameList bool, hello clientHello) bool {
	rest := v_chRest(extensions)
	if !has_serverNameList { // between extensions, or in another one
		return v_chDone(hello.ServerName, rest)
	}
	j := v_chPos(serverNameList)
	name := v_chName(j, j+len(serverNameList))
	if name == "" {
		name = rest
	}
	return v_chIn(serverNameList) && v_chDone(hello.ServerName, name)
}

//verif:model local (peeker).Peek
func v_model_peek(c peeker, b []byte) (int, error) {
	v_havocBytes(b)
	g_chBuf = b
	g_chNum++
	return v_havoc[int](), v_havoc[error]()
}

func v_havocBytes(b []byte) { copy(b, v_havoc[[]byte]()) }

// The reader of golang.org/x/crypto/cryptobyte.

func v_take(s *cryptobyte.String, n int) (cryptobyte.String, bool) {
	if n < 0 || len(*s) < n {
		return nil, false
	}
	v := (*s)[:n]
	*s = (*s)[n:]
	return v, true
}

//verif:model local (*golang.org/x/crypto/cryptobyte.String).Skip
func v_model_skip(s *cryptobyte.String, n int) bool {
	_, ok := v_take(s, n)
	return ok
}

//verif:model local (*golang.org/x/crypto/cryptobyte.String).ReadUint8
func v_model_readUint8(s *cryptobyte.String, out *uint8) bool {
	v_chUnfold(v_chPos(*s), v_chPos(*s)+len(*s))
	v, ok := v_take(s, 1)
	if ok {
		*out = v[0]
	}
	return ok
}

//verif:model local (*golang.org/x/crypto/cryptobyte.String).ReadUint16
func v_model_readUint16(s *cryptobyte.String, out *uint16) bool {
	v_chUnfold(v_chPos(*s), v_chPos(*s)+len(*s))
	v, ok := v_take(s, 2)
	if ok {
		*out = uint16(int(v[0])*256 + int(v[1]))
	}
	return ok
}

//verif:model local (*golang.org/x/crypto/cryptobyte.String).ReadUint8LengthPrefixed
func v_model_lp8(s *cryptobyte.String, out *cryptobyte.String) bool {
	v, ok := v_take(s, 1)
	if !ok {
		return false
	}
	d, ok := v_take(s, int(v[0]))
	if ok {
		*out = d
	}
	return ok
}

//verif:model local (*golang.org/x/crypto/cryptobyte.String).ReadUint16LengthPrefixed
func v_model_lp16(s *cryptobyte.String, out *cryptobyte.String) bool {
	v, ok := v_take(s, 2)
	if !ok {
		return false
	}
	d, ok := v_take(s, int(v[0])*256+int(v[1]))
	if ok {
		*out = d
	}
	return ok
}

//verif:model local (golang.org/x/crypto/cryptobyte.String).Empty
func v_model_empty(s cryptobyte.String) bool {
	v_chUnfold(v_chPos(s), v_chPos(s)+len(s))
	return len(s) == 0
}

//verif:contract peekClientHello
//verif:nopanic C09.nopanic
func spec_peekClientHello(c peeker) func(clientHello, error) {
	v_requires(c != nil)
	g_chNum = 0
	return func(h clientHello, err error) {
		if err != nil {
			return
		}
		a, b := v_chExts()
		v_ensures("C09.name", h.ServerName == v_chSNI(a, b))
	}
}
