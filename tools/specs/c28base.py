FAKE='''
type demoConn struct {
	net.Conn
	mu       sync.Mutex
	release  chan struct{}
	rerr     error
	closed   bool
	eof      bool
	deadline time.Time
}

func (c *demoConn) Read(b []byte) (int, error) { <-c.release; return 0, c.rerr }
func (c *demoConn) Write(b []byte) (int, error) { return len(b), nil }
func (c *demoConn) Close() error { c.mu.Lock(); defer c.mu.Unlock(); c.closed = true; return nil }
func (c *demoConn) SetReadDeadline(t time.Time) error { c.mu.Lock(); defer c.mu.Unlock(); c.deadline = t; return nil }

type demoHalf struct{ *demoConn }

func (c demoHalf) CloseWrite() error { c.mu.Lock(); defer c.mu.Unlock(); c.eof = true; return nil }
'''
