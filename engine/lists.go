package main

// Standard-library functions treated as deterministic functions of their
// arguments (no side effects).
var defaultPure = []string{
	"strings.*", "strconv.*", "unicode.*", "unicode/utf8.*", "path.*", "path/filepath.*", "bytes.*",
	"encoding/hex.*", "(*encoding/base64.Encoding).*", "net/url.*", "(*net/url.URL).*", "(net/url.Values).*", "math.*", "math/bits.*",
	"crypto/sha256.Sum256", "crypto/sha1.Sum", "crypto/hmac.Equal", "html.EscapeString",
	"net.ParseIP", "net.JoinHostPort", "net.SplitHostPort", "net.ParseCIDR", "(net.IP).*", "(*net.IPNet).*", "(net.IPMask).*",
	"(net.Addr).*", "(net.Conn).RemoteAddr", "(net.Conn).LocalAddr", "(*net.TCPAddr).String", "(*net.UDPAddr).String", "(error).Error", "(time.Time).*", "(time.Duration).*", "(time.Month).*", "time.Date",
	"(*math/big.Int).String", "(*math/big.Int).Text", "(fmt.Stringer).String", "mime.*", "path.Match",
	"golang.org/x/net/idna.*", "(*golang.org/x/net/idna.Profile).*", "crypto/tls.CipherSuiteName", "crypto/tls.VersionName",
	"net/http.CanonicalHeaderKey", "net/textproto.CanonicalMIMEHeaderKey", "net/http.StatusText", "reflect.TypeOf", "runtime.*",
	"(crypto/x509/pkix.Name).String", "(crypto/x509/pkix.RDNSequence).String", "reflect.DeepEqual",
	"regexp.MustCompile", "(*regexp.Regexp).*", "os.Getenv", "crypto/x509.NewCertPool",
	"(*encoding/base64.Encoding).EncodeToString", "(*encoding/base64.Encoding).DecodeString", "(*net/http.Request).UserAgent", "(*net/http.Request).ProtoAtLeast",
	"bytes.Compare", "(net/netip.Addr).*", "net/netip.*", "crypto/sha256.Size",
}

// Functions whose modelled effect is empty but whose result is arbitrary.
var defaultNoEffect = []string{
	"log.*", "(*log.Logger).*", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "os.Stderr", "fmt.Printf",
	"(net/http.ResponseWriter).*", "net/http.Error", "net/http.Redirect", "net/http.NotFound", "net/http.SetCookie",
	"(net/http.Flusher).Flush", "(net.Conn).*", "(net.Listener).*", "(io.Reader).Close", "(io.Closer).Close", "(io.ReadCloser).Close",
	"(*crypto/tls.Conn).*", "(context.Context).*", "(*time.Timer).*", "time.After", "time.AfterFunc", "time.NewTimer", "time.NewTicker", "(*time.Ticker).*", "time.Sleep",
	"(*net/http.Server).*", "(*net/http.Request).UserAgent", "(*net/http.Request).Cookie", "(*net/http.Request).Cookies", "(*net/http.Request).Referer", "(*net/http.Request).BasicAuth",
	"(*os.File).*", "os.*", "(*sync.Pool).*", "sync.*", "(*sync/atomic.Bool).*", "sync/atomic.*", "(*sync.Map).*", "runtime/debug.*", "runtime.*", "(*net.Dialer).*", "net.*", "(*net.TCPConn).*", "(*net.ListenConfig).*",
	"(*crypto/x509.Certificate).*", "(*crypto/x509.CertPool).*", "crypto/x509.*", "crypto/tls.*", "crypto/rand.*", "html/template.*", "(*html/template.Template).*", "(*net/http.Client).*", "net/http.*",
	"(hash.Hash).*", "crypto/sha256.*", "crypto/ecdsa.*", "crypto/rsa.*", "crypto/ecdh.*", "crypto/ed25519.*", "crypto/elliptic.*", "encoding/json.Marshal", "encoding/json.MarshalIndent", "encoding/pem.*", "io.*", "io/ioutil.*",
	"(*bytes.Buffer).String", "(*bytes.Buffer).Len", "(*strings.Builder).*", "(*encoding/json.Encoder).*", "(*bufio.Writer).*", "iter.*", "(*golang.org/x/sync/singleflight.Group).*", "encoding/base64.*",
	"(*crypto/tls.ConnectionState).*", "(crypto/tls.ConnectionState).*", "(*crypto/tls.QUICConn).*", "(crypto.Signer).*", "(crypto.PublicKey).*", "(*crypto/ecdsa.PublicKey).*", "(*crypto/rsa.PublicKey).*",
	"(*net/http.Request).Clone", "expvar.*", "(os.FileInfo).*", "(io/fs.FileInfo).*", "(io/fs.FileMode).*", "(io/fs.DirEntry).*", "(os.DirEntry).*",
}

// Standard-library functions whose bodies are analysed.
var defaultInline = []string{
	"slices.*", "maps.*", "(net/http.Header).*", "(net/textproto.MIMEHeader).*", "(net/url.Values).Get", "(net/url.Values).Set", "(net/url.Values).Has", "(net/url.Values).Add", "(net/url.Values).Del",
	"(*net/http.Request).Context", "(*net/http.Request).WithContext", "(net/http.HandlerFunc).ServeHTTP", "cmp.Compare", "cmp.*",
	"net/http.NewRequestWithContextX",
}
