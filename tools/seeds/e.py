CL = open('/verif/replay/common/root/clib_test.go').read()
def D(body, lib=CL):
    return lib + '\n' + body
CONN = '''
func demoConn(t *testing.T, answer string, opts ...func(*Conn) error) (*Conn, *vPeer) {
	p := newPeer()
	p.connected = answer
	c, err := Connect(p, append(opts, ConnOpt.Logger(vLog{}))...)
	if err != nil {
		t.Fatal(err)
	}
	return c, p
}
'''
SEEDS = [
dict(id='C21-first-unsupported-version', property='C21', pkg='.',
 edits=[('conn_options.go', '''				if err := version.CheckSupported(); err != nil {
					return err
				}
				c.options''', '''				if err := version.CheckSupported(); err != nil && len(c.options.AcceptVersions) == 0 {
					return err
				}
				c.options''')],
 needs='an AcceptVersion option that lists an unsupported version after a supported one', breaks='the frame offers a version that does not exist instead of Connect failing',
 test=D('''
func TestDemo(t *testing.T) {
	p := newPeer()
	p.connected = vText("CONNECTED", "", "version", "1.2")
	c, err := Connect(p, ConnOpt.AcceptVersion(V12, "7.0"), ConnOpt.Logger(vLog{}))
	if err == nil || c != nil {
		t.Fatal("an unsupported version was offered")
	}
}
''')),
dict(id='C21-tolerance-when-opted-out', property='C21', pkg='.',
 edits=[('conn.go', '''		if c.readTimeout > 0 {
			// Add''', '''		if c.readTimeout >= 0 && options.HeartBeatError < time.Second {
			c.readTimeout += options.HeartBeatError
		} else if c.readTimeout > 0 {
			// Add''')],
 needs='a heart-beat tolerance below a second and a server that sends no heart-beats', breaks='heart-beats are expected although none were agreed on, and the connection is dropped',
 test=D(CONN + '''
func TestDemo(t *testing.T) {
	c, _ := demoConn(t, vText("CONNECTED", "", "version", "1.2", "heart-beat", "0,0"), ConnOpt.HeartBeatError(50*time.Millisecond))
	time.Sleep(200 * time.Millisecond)
	if err := c.Send("/q", "", nil); err != nil {
		t.Fatal(err)
	}
}
''')),
dict(id='C21-shorter-interval-wins', property='C21', pkg='.',
 edits=[('conn.go', '''		} else if readTimeout < options.ReadTimeout {
			readTimeout''', '''		} else if readTimeout < options.ReadTimeout && options.ReadTimeout <= time.Minute {
			readTimeout''')],
 needs='a client that asks for heart-beats more than a minute apart', breaks='the server is expected every time the shorter interval passes',
 test=D(CONN + '''
func TestDemo(t *testing.T) {
	c, _ := demoConn(t, vText("CONNECTED", "", "version", "1.2", "heart-beat", "1000,0"), ConnOpt.HeartBeat(0, 2*time.Minute), ConnOpt.HeartBeatError(time.Second))
	if c.readTimeout != 2*time.Minute+time.Second {
		t.Fatal(c.readTimeout)
	}
}
''')),
dict(id='C21-host-option-empty', property='C21', pkg='.',
 edits=[('conn.go', '''	opts = append([]func(*Conn) error{ConnOpt.Host(host)}, opts...)
''', '''	opts = append(opts[:len(opts):len(opts)], ConnOpt.Host(host))
''')],
 needs='Dial with a Host option', breaks='the host entry names the address instead of the configured host',
 test=D('''
func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	got := make(chan string, 1)
	go func() {
		nc, err := ln.Accept()
		if err != nil {
			return
		}
		f, err := frame.NewReader(nc).Read()
		if err != nil || f == nil {
			got <- "no frame"
			return
		}
		got <- f.Header.Get("host")
		io.WriteString(nc, vText("CONNECTED", "", "version", "1.2"))
	}()
	c, err := Dial("tcp", ln.Addr().String(), ConnOpt.Host("vhost"), ConnOpt.Logger(vLog{}))
	if err != nil {
		t.Fatal(err)
	}
	defer c.MustDisconnect()
	if h := <-got; h != "vhost" {
		t.Fatal(h)
	}
}
''', CL.replace('"io"','"io"\n\t"net"',1))),
dict(id='C21-passcode-alone', property='C21', pkg='.',
 edits=[('conn_options.go', '''	if co.Login != "" || co.Passcode != "" {''', '''	if co.Login != "" {''')],
 needs='a passcode with an empty login', breaks='the credentials are not sent',
 test=D(CONN + '''
func TestDemo(t *testing.T) {
	_, p := demoConn(t, vText("CONNECTED", "", "version", "1.2"), ConnOpt.Login("", "token"))
	if f := p.frames[0]; vGet(f, "passcode") != "token" {
		t.Fatal(f)
	}
}
''')),
dict(id='C21-version-by-prefix', property='C21', pkg='.',
 edits=[('version.go', '''	switch v {
	case V10, V11, V12:
		return nil
	}
''', '''	if len(v) > 3 {
		// a patch level does not matter
		v = v[:3]
	}
	switch v {
	case V10, V11, V12:
		return nil
	}
''')],
 needs='a server that answers with a version such as 1.25', breaks='Connect succeeds with a version that is not supported',
 test=D('''
func TestDemo(t *testing.T) {
	p := newPeer()
	p.connected = vText("CONNECTED", "", "version", "1.25")
	c, err := Connect(p, ConnOpt.Logger(vLog{}))
	if err == nil || c != nil {
		t.Fatal("connected with version 1.25")
	}
}
''')),
]
