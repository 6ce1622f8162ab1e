S=[]
def seed(id, prop, edits, needs, breaks, demo, race=False, imports=''):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race, imports=imports))

seed('c01-past-deadline-rest','C01',[('application/raw.go','''			sm.cacheMtx.Lock()
			n := copy(b, pkt.Data)
			sm.cache = pkt.Data[n:]
			sm.cacheMtx.Unlock()
			return n, nil
		default:''','''			return copy(b, pkt.Data), nil
		default:''')],
 'a read issued after its deadline passed, with data buffered, and a buffer smaller than the packet',
 'the rest of a partially read packet is lost when the read happens past the deadline',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	x, y := streams(t, c, s)
	if _, err := x.Write([]byte("abcdefghij")); err != nil {
		t.Fatal(err)
	}
	time.Sleep(500 * time.Millisecond)
	y.SetReadDeadline(time.Now().Add(-time.Second))
	buf := make([]byte, 4)
	n, err := y.Read(buf)
	if err != nil || n != 4 {
		t.Fatalf("read %d %v", n, err)
	}
	y.SetReadDeadline(time.Time{})
	rest := make([]byte, 6)
	within(t, 5*time.Second, "reading the rest", func() {
		if _, err := io.ReadFull(y, rest); err != nil || string(rest) != "efghij" {
			t.Errorf("rest %q %v", rest, err)
		}
	})
}
''')

seed('c01-write-alias','C01',[('application/raw.go','''	newb := make([]byte, len(b))
	copy(newb, b)
''','''	newb := b
	if len(b) < 16*1024 {
		// small ones are cheaper to copy than to keep alive
		newb = make([]byte, len(b))
		copy(newb, b)
	}
''')],
 'writes of at least 16 KB that are still queued when the caller reuses its buffer (a slow connection)',
 'a write keeps the buffer of its caller, who changes it before the packet is encoded',
'''
func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	g := &gateConn{Conn: a}
	c, s := endsOn(t, g, b, nil, nil)
	x, y := streams(t, c, s)
	time.Sleep(200 * time.Millisecond)
	g.shut()
	const size = 20 << 10
	buf := make([]byte, size)
	for i := 0; i < 8; i++ {
		for j := range buf {
			buf[j] = byte('a' + i)
		}
		if n, err := x.Write(buf); n != size || err != nil {
			t.Fatal(n, err)
		}
	}
	g.open()
	got := make([]byte, size)
	within(t, 20*time.Second, "reading", func() {
		for i := 0; i < 8; i++ {
			if _, err := io.ReadFull(y, got); err != nil {
				t.Error(err)
				return
			}
			for j := range got {
				if got[j] != byte('a'+i) {
					t.Errorf("write %d came as %c", i, got[j])
					return
				}
			}
		}
	})
}
''')

seed('c02-pooled-response','C02',[('application/stream.go','''	req, rsp :=
		&request{''','''	rsp := responses.Get().(*response)
	rsp.method, rsp.requestID = method, pkt.ID()
	rsp.clientID, rsp.streamID = sm.cn.ClientID(), sm.dg.DialogueID()
	req :=
		&request{'''),('application/stream.go''','''			streamID: sm.dg.DialogueID(),
		},
		&response{
			method:    method,
			requestID: pkt.ID(),
			clientID:  sm.cn.ClientID(),
			streamID:  sm.dg.DialogueID(),
		}
''','''			streamID: sm.dg.DialogueID(),
		}
'''),('application/stream.go','''		err := sm.dg.WriteWait(rspPkt)
		if err != nil {
			// Write''','''		err := sm.dg.WriteWait(rspPkt)
		rsp.err = nil
		responses.Put(rsp)
		if err != nil {
			// Write'''),('application/stream.go','''type methodRPC geminio.HijackRPC
''','''type methodRPC geminio.HijackRPC

// responses are as short-lived as the rpcs
var responses = sync.Pool{New: func() interface{} { return &response{} }}
''')],
 'a handler that sets neither data nor custom data, after one that did',
 'the response object is reused, so a response carries the data of another call',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	x, y := streams(t, c, s)
	y.Register(context.TODO(), "loud", func(_ context.Context, _ geminio.Request, rsp geminio.Response) {
		rsp.SetData([]byte("secret"))
		rsp.SetCustom([]byte("custom"))
	})
	y.Register(context.TODO(), "mute", func(context.Context, geminio.Request, geminio.Response) {})
	for i := 0; i < 300; i++ {
		for _, m := range []string{"loud", "mute"} {
			rsp, err := x.Call(context.TODO(), m, x.NewRequest(nil))
			if err != nil {
				t.Fatal(err)
			}
			if m == "mute" && (len(rsp.Data()) != 0 || len(rsp.Custom()) != 0) {
				t.Fatalf("call %d: %q %q", i, rsp.Data(), rsp.Custom())
			}
		}
	}
}
''')

seed('c03-anchored','C03',[('application/rpc.go','regexp.Compile(*fo.Pattern)','regexp.Compile("^(?:" + *fo.Pattern + ")$")')],
 'a hijack pattern that matches only a part of the method',
 'the hijack pattern must match the whole method',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	x, y := streams(t, c, s)
	o := options.Hijack()
	o.SetMatch(true, "stat")
	y.Hijack(func(_ context.Context, m string, _ geminio.Request, rsp geminio.Response) {
		rsp.SetData([]byte("hijacked " + m))
	}, o)
	for _, m := range []string{"stat", "get-status", "fstat"} {
		rsp, err := x.Call(context.TODO(), m, x.NewRequest(nil))
		if err != nil || string(rsp.Data()) != "hijacked "+m {
			t.Fatalf("%s: %v %v", m, rsp, err)
		}
	}
}
''', imports='"github.com/singchia/geminio/options"')

seed('c04-latest-deadline','C04',[('application/stream.go','pkt.Data.Context.Deadline.Before(deadline)','pkt.Data.Context.Deadline.After(deadline)')],
 'a call with both a timeout and a context deadline, which differ',
 'the context of the handler carries the later of both deadlines',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	x, y := streams(t, c, s)
	got := make(chan time.Duration, 1)
	y.Register(context.TODO(), "m", func(ctx context.Context, _ geminio.Request, rsp geminio.Response) {
		d, ok := ctx.Deadline()
		if !ok {
			got <- 0
			return
		}
		got <- time.Until(d)
	})
	for _, v := range [][2]time.Duration{{60 * time.Second, 10 * time.Second}, {10 * time.Second, 60 * time.Second}} {
		ctx, cancel := context.WithTimeout(context.Background(), v[0])
		o := options.Call()
		o.SetTimeout(v[1])
		if _, err := x.Call(ctx, "m", x.NewRequest(nil), o); err != nil {
			t.Fatal(err)
		}
		cancel()
		if d := <-got; d <= 0 || d > 11*time.Second {
			t.Fatalf("ctx %v timeout %v: the handler has %v", v[0], v[1], d)
		}
	}
}
''', imports='"github.com/singchia/geminio/options"')

seed('c05-cancel-only-context','C05',[('application/rpc.go','''	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx),
		synchub.WithCallback(''','''	syncOpts := []synchub.SyncOption{
		synchub.WithCallback('''),('application/rpc.go','''	// Add a new sync for the async call
''','''	if ok {
		syncOpts = append(syncOpts, synchub.WithContext(ctx))
	}
	// Add a new sync for the async call
''')],
 'an asynchronous call whose context has no deadline and is cancelled before the response',
 'cancelling the context does not complete an asynchronous call',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	x, y := streams(t, c, s)
	stop := make(chan struct{})
	defer close(stop)
	y.Register(context.TODO(), "m", func(ctx context.Context, _ geminio.Request, rsp geminio.Response) { <-stop })
	ctx, cancel := context.WithCancel(context.Background())
	call, err := x.CallAsync(ctx, "m", x.NewRequest(nil), nil)
	if err != nil {
		t.Fatal(err)
	}
	time.AfterFunc(200*time.Millisecond, cancel)
	within(t, 5*time.Second, "the cancelled call", func() {
		if r := <-call.Done; r.Error == nil {
			t.Error("no error")
		}
	})
}
''')

seed('c06-timeout-or-deadline','C06',[('application/message.go','''	if msg.Timeout() != 0 {
		// the sync may has timeout
		syncOpts = append(syncOpts, synchub.WithTimeout(msg.Timeout()))
	}
	sync = sm''','''	if msg.Timeout() != 0 && !ok {
		// the sync may has timeout
		syncOpts = append(syncOpts, synchub.WithTimeout(msg.Timeout()))
	}
	sync = sm''')],
 'a publish with a timeout shorter than the deadline of its context, and nobody acknowledging',
 'the timeout of a publish is ignored when its context has a deadline',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	x, _ := streams(t, c, s)
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	o := options.Publish()
	o.SetTimeout(300 * time.Millisecond)
	within(t, 8*time.Second, "the publish", func() {
		if err := x.Publish(ctx, x.NewMessage([]byte("m")), o); err == nil {
			t.Error("no error")
		}
	})
}
''', imports='"github.com/singchia/geminio/options"')

seed('c06-reorder-when-full','C06',[('application/stream.go','''		return sm.handleInMessagePacket(realPkt)
''','''		if len(sm.messageCh) < cap(sm.messageCh) {
			return sm.handleInMessagePacket(realPkt)
		}
		// not received yet, the others shouldn't wait for it
		go func() {
			defer func() { _ = recover() }()
			sm.handleInMessagePacket(realPkt)
		}()
		return iodefine.IOSuccess
''')],
 'a slow receiver with more than 32 messages waiting',
 'messages beyond the queue are received out of order',
'''
func TestDemo(t *testing.T) {
	for round := 0; round < 5; round++ {
		c, s := ends(t, nil, nil)
		x, y := streams(t, c, s)
		const n = 120
		go func() {
			for i := 0; i < n; i++ {
				x.PublishAsync(context.TODO(), x.NewMessage([]byte{byte(i)}), nil)
			}
		}()
		time.Sleep(500 * time.Millisecond)
		within(t, 20*time.Second, "receiving", func() {
			for i := 0; i < n; i++ {
				m, err := y.Receive(context.TODO())
				if err != nil {
					t.Error(err)
					return
				}
				m.Done()
				if int(m.Data()[0]) != i {
					t.Errorf("message %d came at place %d", m.Data()[0], i)
					return
				}
			}
		})
		if t.Failed() {
			return
		}
		c.Close()
		s.Close()
	}
}
''')

seed('c07-no-context','C07',[('application/message.go','''	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx), synchub.WithCallback(''','''	syncOpts := []synchub.SyncOption{synchub.WithCallback(''')],
 'an asynchronous publish that is never acknowledged and whose context ends',
 'the context of an asynchronous publish is ignored',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	x, _ := streams(t, c, s)
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
	defer cancel()
	p, err := x.PublishAsync(ctx, x.NewMessage([]byte("m")), nil)
	if err != nil {
		t.Fatal(err)
	}
	within(t, 8*time.Second, "the publish", func() {
		if r := <-p.Done; r.Error == nil {
			t.Error("no error")
		}
	})
}
''')

seed('c08-client-meta','C08',[('multiplexer/dialogue_mgr.go','''			OptionDialogueMeta(realPkt.SessionData.Meta),
''',''),('multiplexer/dialogue.go','''	dg.meta = pkt.SessionData.Meta
''','''	if len(pkt.SessionData.Meta) != 0 {
		dg.meta = pkt.SessionData.Meta
	}
''')],
 'a client with meta that opens a stream without meta',
 'the accepting side reports the meta of the client as that of the stream',
'''
func TestDemo(t *testing.T) {
	o := client.NewEndOptions()
	o.SetMeta([]byte("client meta"))
	c, s := ends(t, o, nil)
	for _, p := range [][2]geminio.End{{c, s}, {s, c}} {
		x, y := streams(t, p[0], p[1])
		if string(x.Meta()) != string(y.Meta()) {
			t.Fatalf("%q %q", x.Meta(), y.Meta())
		}
	}
}
''', imports='"github.com/singchia/geminio/client"')

seed('c09-ack-first','C09',[('multiplexer/dialogue.go','''	err := error(nil)
	if dg.dlgt != nil {
		// open dialogue passive
		// notify delegation the online event
		err = dg.dlgt.DialogueOnline(dg)
		if err != nil {
			pkt.SetError(err)
			err = dg.fsm.EmitEvent(ET_ERROR)
			if err != nil {
				dg.log.Errorf("emit ET_ERROR err: %s, clientID: %d, dialogueID: %d, packetID: %d",
					err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
				return iodefine.IOErr
			}
			dg.pushWriteOut(pkt)
			// to tell peer the dialogue handshake is error, and peer should dismiss the dialogue.
			// this situation shouldn't be seen as connected, so don't set onlined.
			return iodefine.IOSuccess
		}
	}
	err = dg.fsm''','''	err := dg.fsm'''),('multiplexer/dialogue.go','''	dg.onlined = true
	return iodefine.IONewPassive
''','''	if dg.dlgt != nil {
		// notify after the ack, the opener shouldn't wait for our application
		err = dg.dlgt.DialogueOnline(dg)
		if err != nil {
			dg.Close()
			return iodefine.IOSuccess
		}
	}
	dg.onlined = true
	return iodefine.IONewPassive
''')],
 'a stream opened by the server with data right behind, and the accepting client slow between its ack and making the stream known',
 'the accepting side acknowledges a stream before it can be found, what comes right behind is dropped',
'''
type slowLog struct{ log.Logger }

func (l slowLog) Debugf(format string, v ...interface{}) {
	if strings.HasPrefix(format, "dialogue online") {
		time.Sleep(300 * time.Millisecond)
	}
}

func TestDemo(t *testing.T) {
	o := client.NewEndOptions()
	o.SetLog(slowLog{log.DefaultLog})
	c, s := ends(t, o, nil)
	x, err := s.OpenStream()
	if err != nil {
		t.Fatal(err)
	}
	if _, err = x.Write([]byte("hello")); err != nil {
		t.Fatal(err)
	}
	within(t, 10*time.Second, "reading", func() {
		y, err := c.AcceptStream()
		if err != nil {
			t.Error(err)
			return
		}
		b := make([]byte, 5)
		if _, err := io.ReadFull(y, b); err != nil || string(b) != "hello" {
			t.Errorf("%q %v", b, err)
		}
	})
}
''', imports='"strings"\n"github.com/jumboframes/armorigo/log"\n"github.com/singchia/geminio/client"')

seed('c10-data-after-dismiss','C10',[('multiplexer/dialogue.go','InStates(SESSIONED, DISMISS_HALF, DISMISS_SENT, DISMISS_RECV)','InStates(SESSIONED, DISMISS_HALF, DISMISS_RECV)')],
 'both sides closing the same stream at about the same time, one of them right after writing',
 'data that arrives after the own close was sent is dropped though the peer wrote it before its close',
'''
func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	ga, gb := &gateConn{Conn: a}, &gateConn{Conn: b}
	c, s := endsOn(t, ga, gb, nil, nil)
	x, y := streams(t, c, s)
	time.Sleep(200 * time.Millisecond)
	// neither hears of the other's close before it closed itself
	ga.shut()
	gb.shut()
	x.Write([]byte("from x"))
	x.Close()
	y.Write([]byte("from y"))
	y.Close()
	time.Sleep(300 * time.Millisecond)
	ga.open()
	gb.open()
	for i, sm := range []geminio.Stream{x, y} {
		within(t, 10*time.Second, "reading", func() {
			got, err := io.ReadAll(sm)
			if want := []string{"from y", "from x"}[i]; err != nil || string(got) != want {
				t.Errorf("read %q %v, want %q", got, err, want)
			}
		})
	}
}
''')

seed('c10-no-eof-behind-buffered','C10',[('application/stream.go','''	close(sm.messageCh)
''','''	if len(sm.messageCh) == 0 {
		// what's left can still be received
		close(sm.messageCh)
	}
''')],
 'messages still buffered at the receiver when the stream ends',
 'Receive never returns EOF after the buffered messages',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	x, y := streams(t, c, s)
	o := options.NewMessage()
	o.SetCnss(options.CnssAtMostOnce)
	for i := 0; i < 3; i++ {
		if err := x.Publish(context.TODO(), x.NewMessage([]byte{byte(i)}, o)); err != nil {
			t.Fatal(err)
		}
	}
	x.Close()
	time.Sleep(time.Second)
	within(t, 8*time.Second, "receiving", func() {
		for i := 0; i < 3; i++ {
			if m, err := y.Receive(context.TODO()); err != nil || m.Data()[0] != byte(i) {
				t.Error(i, m, err)
				return
			}
		}
		if _, err := y.Receive(context.TODO()); err != io.EOF {
			t.Error(err)
		}
	})
}
''', imports='"github.com/singchia/geminio/options"')
