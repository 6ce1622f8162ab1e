S=[]
def seed(id, prop, edits, needs, breaks, demo, race=False, imports=''):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race, imports=imports))
# third batch of planted bugs
seed('c04-cancel-with-timeout','C04',[('application/rpc.go','''			cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(pkt.ID(), sm.dg.DialogueID(), cancelType)
			go sm.writeIn(cancelPkt)
			return nil, ctx.Err()
''','''			if req.Timeout() != 0 {
				// the peer knows when to stop
				return nil, context.Canceled
			}
			cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(pkt.ID(), sm.dg.DialogueID(), cancelType)
			go sm.writeIn(cancelPkt)
			return nil, context.Canceled
''')],
 'a call with a timeout whose context is cancelled',
 'the handler is not told that its caller went away, it runs until the timeout',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	started, ended := make(chan struct{}), make(chan struct{})
	s.Register(context.TODO(), "m", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		close(started)
		<-ctx.Done()
		close(ended)
	})
	ctx, cancel := context.WithCancel(context.Background())
	go func() { <-started; cancel() }()
	req := c.NewRequest([]byte("x"))
	req.SetTimeout(30 * time.Second)
	if _, err := c.Call(ctx, "m", req); err != context.Canceled {
		t.Error(err)
	}
	within(t, 5*time.Second, "the handler's context", func() { <-ended })
}
''')

seed('c03-anchored-pattern','C03',[('application/rpc.go','regexp.Compile(*fo.Pattern)','regexp.Compile("(?m)" + *fo.Pattern)')],
 'a hijack with an anchored pattern and a method with a line break in it',
 'anchors match at lines within the method, so calls go to the hijack handler that belong to a registered one',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	ho := options.Hijack()
	ho.SetMatch(true, "^b$")
	err := s.Hijack(func(ctx context.Context, m string, req geminio.Request, rsp geminio.Response) {
		rsp.SetData([]byte("hijack"))
	}, ho)
	if err != nil {
		t.Fatal(err)
	}
	s.Register(context.TODO(), "a\\nb", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		rsp.SetData([]byte("registered"))
	})
	rsp, err := c.Call(context.TODO(), "a\\nb", c.NewRequest(nil))
	if err != nil || string(rsp.Data()) != "registered" {
		t.Error(rsp, err)
	}
}
''', imports='"github.com/singchia/geminio/options"')

seed('c02-async-custom','C02',[('application/rpc.go','''	// deadline and timeout for peer
	if req.Timeout() != 0 {
		pkt.Data.Deadline = time.Now().Add(req.Timeout())
	}
	pkt.Data.Custom = req.Custom()
''','''	// deadline and timeout for peer
	if req.Timeout() != 0 {
		pkt.Data.Deadline = time.Now().Add(req.Timeout())
	} else {
		pkt.Data.Custom = req.Custom()
	}
''')],
 'an asynchronous call with a timeout and custom data',
 'the handler does not get the custom data of the request',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	s.Register(context.TODO(), "m", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		rsp.SetData(req.Custom())
	})
	req := c.NewRequest([]byte("x"))
	req.SetCustom([]byte("custom"))
	req.SetTimeout(10 * time.Second)
	call, err := c.CallAsync(context.TODO(), "m", req, nil)
	if err != nil {
		t.Fatal(err)
	}
	call = <-call.Done
	if call.Error != nil || string(call.Response.Data()) != "custom" {
		t.Error(call.Error, call.Response)
	}
}
''')

seed('c06-async-topic','C06',[('application/message.go','''	if msg.Timeout() != 0 {
		pkt.Data.Deadline = now.Add(msg.Timeout())
	}
	pkt.Data.Topic = msg.Topic()
	pkt.Data.Custom = msg.Custom()

	deadline, ok := ctx.Deadline()
	if ok {
		pkt.Data.Context.Deadline = wireDeadline(deadline)
	}
''','''	if msg.Timeout() != 0 {
		pkt.Data.Deadline = now.Add(msg.Timeout())
	}
	pkt.Data.Custom = msg.Custom()

	deadline, ok := ctx.Deadline()
	if ok {
		pkt.Data.Context.Deadline = wireDeadline(deadline)
	} else {
		pkt.Data.Topic = msg.Topic()
	}
''')],
 'an asynchronous publish with a topic under a context with a deadline',
 'the message arrives without its topic',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	msg := c.NewMessage([]byte("x"))
	msg.SetTopic("topic")
	if _, err := c.PublishAsync(ctx, msg, nil); err != nil {
		t.Fatal(err)
	}
	got, err := s.Receive(ctx)
	if err != nil || got.Topic() != "topic" {
		t.Error(got, err)
	}
	got.Done()
}
''')

seed('c07-once-waits','C07',[('application/message.go','''	if msg.Cnss() == options.CnssAtMostOnce {
		// if consistency is set to be AtMostOnce, we don't care about context or timeout
''','''	if msg.Cnss() == options.CnssAtMostOnce && msg.Timeout() == 0 && !ok {
		// if consistency is set to be AtMostOnce, we don't care about context or timeout
''')],
 'an at-most-once message published with a timeout or a deadline',
 'the publish waits for an acknowledgement and fails when the receiver gives none',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	_ = s
	mo := options.NewMessage()
	mo.SetCnss(options.CnssAtMostOnce)
	msg := c.NewMessage([]byte("x"), mo)
	msg.SetTimeout(time.Second)
	if err := c.Publish(context.TODO(), msg); err != nil {
		t.Error(err)
	}
}
''', imports='"github.com/singchia/geminio/options"')

seed('c19-check-other-stream','C19',[('application/rpc.go','''		_, ok := sm.remoteRPCs[method]
		if !ok {
			sm.rpcMtx.RUnlock()
''','''		_, own := sm.remoteRPCs[method]
		// those of the End are for all of its streams
		ok := own || sm.dg.DialogueID() != 1 && sm.end.hasRemoteRPC(method)
		if !ok {
			sm.rpcMtx.RUnlock()
''')],
 'the check of remote methods on, a method registered on the End and called on a stream of it',
 'the call is sent to a peer that registered no such method on the stream',
'''
func TestDemo(t *testing.T) {
	co := client.NewEndOptions()
	co.SetRemoteRPCCheck()
	c, s := ends(t, co, nil)
	s.Register(context.TODO(), "m", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {})
	x, y := streams(t, c, s)
	_ = y
	_, err := x.Call(context.TODO(), "m", x.NewRequest(nil))
	if err != application.ErrRemoteRPCUnregistered {
		t.Error(err)
	}
}
''', imports='"github.com/singchia/geminio/application"\n"github.com/singchia/geminio/client"')

seed('c27-publish-async-stream','C27',[('application/message.go','''	if msg.StreamID() != sm.dg.DialogueID() {
		return nil, ErrMismatchStreamID
	}
''','''	if msg.StreamID() > sm.dg.DialogueID() {
		return nil, ErrMismatchStreamID
	}
''')],
 'a message made for the End published asynchronously on another stream',
 'it is delivered on a stream it was not made for',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	x, _ := streams(t, c, s)
	if _, err := x.PublishAsync(context.TODO(), c.NewMessage([]byte("x")), nil); err == nil {
		t.Error("published")
	}
}
''')

seed('c08-peer-meta','C08',[('multiplexer/dialogue.go','''	dg.meta = pkt.SessionData.Meta

	retPkt''','''	if pkt.SessionIDAcquire() {
		dg.meta = pkt.SessionData.Meta
	}
	dg.peer = pkt.SessionData.Peer

	retPkt'''),('multiplexer/dialogue_mgr.go','''			OptionDialogueMeta(realPkt.SessionData.Meta),
''','')],
 'a stream with meta opened by the server',
 'the client sees the meta of the connection instead of the meta of the stream',
'''
func TestDemo(t *testing.T) {
	co := client.NewEndOptions()
	co.SetMeta([]byte("conn"))
	c, s := ends(t, co, nil)
	ch := make(chan geminio.Stream, 1)
	go func() { x, _ := c.AcceptStream(); ch <- x }()
	oo := options.OpenStream()
	oo.SetMeta([]byte("stream"))
	if _, err := s.OpenStream(oo); err != nil {
		t.Fatal(err)
	}
	if x := <-ch; string(x.Meta()) != "stream" {
		t.Errorf("%q", x.Meta())
	}
}
''', imports='"github.com/singchia/geminio/options"\n"github.com/singchia/geminio/client"')

seed('c16-offline-lost','C16',[('multiplexer/dialogue.go','''	if dg.dlgt != nil && dg.onlined {
		dg.dlgt.DialogueOffline(dg)
	}
''','''	if dg.dlgt != nil && dg.onlined && !dg.fsm.InStates(DISMISS_SENT) {
		dg.dlgt.DialogueOffline(dg)
	}
''')],
 'a connection lost between the close of a stream and its acknowledgement',
 'the end of the stream is never reported',
'''
type online struct {
	delegate.UnimplementedDelegate
	off chan uint64
}

func (o *online) GetClientID(uint64, []byte) (uint64, error) { return 0, nil }

func (o *online) DialogueOffline(d delegate.DialogueDescriber) error {
	if d.DialogueID() != 1 {
		o.off <- d.DialogueID()
	}
	return nil
}

// deafConn stops reading while shut
type deafConn struct {
	net.Conn
	deaf atomic.Bool
}

func (d *deafConn) Read(b []byte) (int, error) {
	n, err := d.Conn.Read(b)
	for d.deaf.Load() && err == nil {
		n, err = d.Conn.Read(b)
	}
	return n, err
}

func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	d := &deafConn{Conn: b}
	o := &online{off: make(chan uint64, 1)}
	so := server.NewEndOptions()
	so.SetDelegate(o)
	c, s := endsOn(t, a, d, nil, so)
	_, y := streams(t, c, s)
	time.Sleep(300 * time.Millisecond)
	d.deaf.Store(true)
	y.Close()
	time.Sleep(500 * time.Millisecond)
	a.Close()
	within(t, 10*time.Second, "offline", func() { <-o.off })
}
''', imports='"net"\n"sync/atomic"\n"github.com/singchia/geminio/delegate"\n"github.com/singchia/geminio/server"')

seed('c15-late-meta','C15',[('conn/conn_server.go',"""	sc.meta = pkt.ConnData.Meta
	if pkt.ClientIDAcquire() {
""","""	defer func() { sc.meta = pkt.ConnData.Meta }()
	if pkt.ClientIDAcquire() {
"""),('conn/conn_server.go',"""	if sc.dlgt != nil {
		err = sc.dlgt.ConnOnline(sc)
""","""	if sc.dlgt != nil {
		sc.meta = pkt.ConnData.Meta
		err = sc.dlgt.ConnOnline(sc)
""")],
 'a delegate that grants client IDs by the meta of the client',
 'the delegate is asked for an ID without the meta',
"""
type granter struct {
	delegate.UnimplementedDelegate
}

func (g *granter) GetClientID(wantedID uint64, meta []byte) (uint64, error) {
	if string(meta) == "seven" {
		return 7, nil
	}
	return 8, nil
}
func (g *granter) Heartbeat(delegate.ConnDescriber) error { return nil }

func TestDemo(t *testing.T) {
	so := server.NewEndOptions()
	so.SetDelegate(&granter{})
	co := client.NewEndOptions()
	co.SetMeta([]byte("seven"))
	c, s := ends(t, co, so)
	if c.ClientID() != 7 || s.ClientID() != 7 {
		t.Error(c.ClientID(), s.ClientID())
	}
}
""", imports='"github.com/singchia/geminio/delegate"\n"github.com/singchia/geminio/server"\n"github.com/singchia/geminio/client"')

seed('c20-unique-race','C20',[('pkg/id/id.go',"""		idCounter.mtx.Lock()
		for i := uint64(1); i < math.MaxUint64; i++ {
			_, ok := idCounter.ids[i]
			if !ok {
				idCounter.ids[i] = struct{}{}
				idCounter.mtx.Unlock()
				return i
			}
		}
		idCounter.mtx.Unlock()
""","""		for i := uint64(1); i < math.MaxUint64; i++ {
			// looking doesn't need to keep the others out
			idCounter.mtx.RLock()
			_, ok := idCounter.ids[i]
			idCounter.mtx.RUnlock()
			if !ok {
				idCounter.mtx.Lock()
				idCounter.ids[i] = struct{}{}
				idCounter.mtx.Unlock()
				return i
			}
		}
""")],
 'several goroutines getting identifiers of a Unique factory at the same time',
 'two of them get the same identifier',
"""
func TestDemo(t *testing.T) {
	for round := 0; round < 200; round++ {
		f := id.NewIDCounter(id.Unique)
		var mu sync.Mutex
		seen := map[uint64]bool{}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < 40; i++ {
					n := f.GetID()
					mu.Lock()
					if seen[n] {
						t.Error("twice:", n)
					}
					seen[n] = true
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
""", imports='"sync"\n"github.com/singchia/geminio/pkg/id"')
