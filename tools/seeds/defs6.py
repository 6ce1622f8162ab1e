S=[]
def seed(id, prop, edits, needs, breaks, demo, race=False, imports=''):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race, imports=imports))
# sixth batch of planted bugs
seed('c16-registration-stream','C16',[('application/stream.go','''		sm.opts.dlgt.RemoteRegistration(method, sm.cn.ClientID(), sm.dg.DialogueID())
''','''		sm.opts.dlgt.RemoteRegistration(method, sm.end.ClientID(), sm.end.StreamID())
''')],
 'a method registered on a stream other than the default one, and a delegate',
 'the delegate is told of the registration on the wrong stream',
'''
type dlgt struct {
	delegate.UnimplementedDelegate
	reg chan uint64
}

func (d *dlgt) GetClientID(uint64, []byte) (uint64, error) { return 0, nil }
func (d *dlgt) RemoteRegistration(_ string, _, streamID uint64) { d.reg <- streamID }

func TestDemo(t *testing.T) {
	d := &dlgt{reg: make(chan uint64, 1)}
	so := server.NewEndOptions()
	so.SetDelegate(d)
	c, s := ends(t, nil, so)
	x, _ := streams(t, c, s)
	err := x.Register(context.TODO(), "m", func(context.Context, geminio.Request, geminio.Response) {})
	if err != nil {
		t.Fatal(err)
	}
	select {
	case id := <-d.reg:
		if id != x.StreamID() {
			t.Errorf("registration on stream %d reported for %d", x.StreamID(), id)
		}
	case <-time.After(10 * time.Second):
		t.Error("not reported")
	}
}
''', imports='"github.com/singchia/geminio/delegate"\n"github.com/singchia/geminio/server"')

seed('c16-closed-own','C16',[('application/end.go','''	if ok && end.closedStreamFunc != nil {
''','''	if ok && end.closedStreamFunc != nil && sm.(*stream).available() {
''')],
 'an accepted stream that its own side closes',
 'the closed callback is only called for streams closed by the peer',
'''
func TestDemo(t *testing.T) {
	acc, closed := make(chan geminio.Stream, 1), make(chan geminio.Stream, 1)
	so := server.NewEndOptions()
	so.SetAcceptStreamFunc(func(s geminio.Stream) { acc <- s })
	so.SetClosedStreamFunc(func(s geminio.Stream) { closed <- s })
	c, _ := ends(t, nil, so)
	if _, err := c.OpenStream(); err != nil {
		t.Fatal(err)
	}
	(<-acc).Close()
	select {
	case <-closed:
	case <-time.After(10 * time.Second):
		t.Error("closed callback not called")
	}
}
''', imports='"github.com/singchia/geminio/server"')

seed('c17-no-delegate','C17',[('conn/conn_server.go','''	// reset hearbeat
	sc.hbTick.Cancel()
	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))

''',''''''),('conn/conn_server.go','''	if sc.dlgt != nil {
		sc.dlgt.Heartbeat(sc)
	}
''','''	if sc.dlgt != nil {
		// reset hearbeat
		sc.hbTick.Cancel()
		sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
		sc.dlgt.Heartbeat(sc)
	}
''')],
 'a server without a delegate and a connection up for more than two heartbeat intervals',
 'the server closes a connection whose heartbeats all arrived',
'''
func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	go func() {
		packet.EncodeToWriter(pf.NewConnPacket(0, true, packet.Heartbeat5, nil), a)
		for i := 0; i < 5; i++ {
			time.Sleep(3 * time.Second)
			packet.EncodeToWriter(pf.NewHeartbeatPacket(), a)
		}
	}()
	if _, err := server.NewEndWithConn(b); err != nil {
		t.Fatal(err)
	}
	acks := 0
	a.SetReadDeadline(time.Now().Add(30 * time.Second))
	for acks < 5 {
		p, err := packet.DecodeFromReader(a)
		if err != nil {
			t.Fatalf("after %d heartbeats: %v", acks, err)
		}
		switch p.(type) {
		case *packet.HeartbeatAckPacket:
			acks++
		case *packet.DisConnPacket:
			t.Fatalf("closed after %d heartbeats", acks)
		}
	}
}
''', imports='"github.com/singchia/geminio/packet"\n"github.com/singchia/geminio/pkg/id"\n"github.com/singchia/geminio/server"')

PRE='''	// RPCs
	// pre register local RPCs
	if end.opts.localMethods != nil && len(end.opts.localMethods) != 0 {
		for _, elem := range end.opts.localMethods {
			err = end.Register(context.TODO(), elem.Method, elem.RPC)
			if err != nil {
				goto ERR
			}
		}
	}
'''
seed('c19-wait-before-register','C19',[('application/end.go',PRE,'''	// RPCs
'''),('application/end.go','''		if event.Error != nil {
			err = event.Error
			goto ERR
		}
	}
	return end, nil
''','''		if event.Error != nil {
			err = event.Error
			goto ERR
		}
	}
	// pre register local RPCs
	if end.opts.localMethods != nil && len(end.opts.localMethods) != 0 {
		for _, elem := range end.opts.localMethods {
			err = end.Register(context.TODO(), elem.Method, elem.RPC)
			if err != nil {
				goto ERR
			}
		}
	}
	return end, nil
''')],
 'two Ends each waiting for a method the other one has among its local methods',
 'neither construction ever returns',
'''
func TestDemo(t *testing.T) {
	f := func(context.Context, geminio.Request, geminio.Response) {}
	co, so := client.NewEndOptions(), server.NewEndOptions()
	co.SetWaitRemoteRPCs("s")
	co.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "c", RPC: f})
	so.SetWaitRemoteRPCs("c")
	so.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "s", RPC: f})
	done := make(chan bool)
	go func() { ends(t, co, so); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Error("constructions do not return")
	}
}
''', imports='"github.com/singchia/geminio/client"\n"github.com/singchia/geminio/server"')

seed('c12-clear-both','C12',[('application/raw.go','''	err := sm.setReadDeadline(t)
	if err != nil {
		return err
	}
	err = sm.setWriteDeadline(t)
	if err != nil {
		return err
	}
	return nil
}
''','''	err := sm.setReadDeadline(t)
	if err != nil || t.IsZero() && sm.dlWriteTimer == nil {
		return err
	}
	err = sm.setWriteDeadline(t)
	if err != nil {
		return err
	}
	return nil
}
''')],
 'a write deadline set to an instant already past, cleared by SetDeadline, then a write that cannot finish at once',
 'the past write deadline stays and the write fails with it',
'''
func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	g := &gateConn{Conn: a}
	c, s := endsOn(t, g, b, nil, nil)
	x, _ := streams(t, c, s)
	g.shut()
	x.SetWriteDeadline(time.Now().Add(-time.Second))
	x.SetDeadline(time.Time{})
	time.AfterFunc(2*time.Second, g.open)
	for i := 0; i < 1000; i++ {
		if _, err := x.Write([]byte("x")); err != nil {
			t.Fatalf("write %d: %v", i, err)
		}
	}
}
''')

seed('c27-default-stream','C27',[('application/rpc.go','''func (sm *stream) Call(ctx context.Context, method string, req geminio.Request, opts ...*options.CallOptions) (geminio.Response, error) {
	if req.ClientID() != sm.cn.ClientID() {
		return nil, ErrMismatchClientID
	}
	if req.StreamID() != sm.dg.DialogueID() {
''','''func (sm *stream) Call(ctx context.Context, method string, req geminio.Request, opts ...*options.CallOptions) (geminio.Response, error) {
	if req.ClientID() != sm.cn.ClientID() {
		return nil, ErrMismatchClientID
	}
	// those made by the End may go on any of its streams
	if req.StreamID() != sm.dg.DialogueID() && req.StreamID() != packet.SessionID1 {
''')],
 'a request made on the End itself and called on a stream opened from it',
 'the call is sent on a stream the request does not address',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	x, y := streams(t, c, s)
	y.Register(context.TODO(), "m", func(context.Context, geminio.Request, geminio.Response) {})
	if _, err := x.Call(context.TODO(), "m", c.NewRequest(nil)); err == nil {
		t.Error("a request of the default stream was served on another one")
	}
}
''')

seed('c03-empty-pattern','C03',[('application/rpc.go','''	if fo.Pattern != nil {
''','''	if fo.Pattern != nil && *fo.Pattern != "" {
''')],
 'a hijack with an empty pattern and match false, which selects nothing',
 'it takes every request away from the registered handlers',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	s.Register(context.TODO(), "m", func(_ context.Context, _ geminio.Request, rsp geminio.Response) { rsp.SetData([]byte("own")) })
	ho := options.Hijack()
	ho.SetMatch(false, "")
	if err := s.Hijack(func(_ context.Context, _ string, _ geminio.Request, rsp geminio.Response) { rsp.SetData([]byte("hijacked")) }, ho); err != nil {
		t.Fatal(err)
	}
	rsp, err := c.Call(context.TODO(), "m", c.NewRequest(nil))
	if err != nil || string(rsp.Data()) != "own" {
		t.Error(rsp, err)
	}
}
''', imports='"github.com/singchia/geminio/options"')
