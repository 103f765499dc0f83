HELP='''
func demoListen(t *testing.T) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() { c.Read(make([]byte, 1)); c.Close() }()
		}
	}()
	return l.Addr().String()
}

func demoBackend(be *Backend) *Backend {
	be.state = &backendState{oNext: make([]int, len(be.PathOverrides))}
	be.ForwardTimeout = 5 * time.Second
	for _, po := range be.PathOverrides {
		po.ForwardTimeout = 5 * time.Second
	}
	be.outConns = newConnTracker()
	be.getClientCert = func(context.Context) func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return nil }
	be.recordEvent = func(string) {}
	be.ServerNames = []string{"x"}
	return be
}
'''
