S=[]
def seed(id, prop, edits, needs, breaks, demo, race=False, imports=''):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race, imports=imports))

seed('c11-open-forever','C11',[('multiplexer/dialogue.go','sync := dg.shub.Add(pkt.PacketID, synchub.WithTimeout(30*time.Second))','sync := dg.shub.Add(pkt.PacketID)'),
('multiplexer/dialogue.go','''	// collect shub
	dg.shub.Close()

''','')],
 'a connection lost between the request to open a stream and its acknowledgement',
 'OpenStream neither times out nor hears of the end of its connection',
'''
func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	go func() {
		// a server that answers the handshake only
		pkt, err := packet.DecodeFromReader(b)
		if err != nil {
			return
		}
		pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
		packet.EncodeToWriter(pf.NewConnAckPacket(pkt.ID(), 7, nil), b)
		packet.DecodeFromReader(b)
		time.Sleep(300 * time.Millisecond)
		b.Close()
	}()
	c, err := client.NewEndWithConn(a)
	if err != nil {
		t.Fatal(err)
	}
	within(t, 60*time.Second, "opening", func() {
		if _, err := c.OpenStream(); err == nil {
			t.Error("no error")
		}
	})
}
''', imports='"github.com/singchia/geminio/client"\n"github.com/singchia/geminio/packet"\n"github.com/singchia/geminio/pkg/id"')

seed('c12-zero-write-deadline','C12',[('application/raw.go','''	err = sm.setWriteDeadline(t)
	if err != nil {
		return err
	}
	return nil
''','''	if t.IsZero() && time.Now().After(sm.dlWrite) {
		// nothing armed any more
		return nil
	}
	return sm.setWriteDeadline(t)
''')],
 'SetDeadline with the zero time after the write deadline passed, and a write that has to wait for space',
 'a passed write deadline stays in force although SetDeadline cleared it',
'''
func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	g := &gateConn{Conn: a}
	c, s := endsOn(t, g, b, nil, nil)
	x, y := streams(t, c, s)
	time.Sleep(100 * time.Millisecond)
	x.SetWriteDeadline(time.Now().Add(50 * time.Millisecond))
	time.Sleep(100 * time.Millisecond)
	x.SetDeadline(time.Time{})
	g.shut()
	time.AfterFunc(time.Second, g.open)
	go io.Copy(io.Discard, y)
	within(t, 20*time.Second, "writing", func() {
		for i := 0; i < 300; i++ {
			if _, err := x.Write(make([]byte, 100)); err != nil {
				t.Errorf("write %d: %v", i, err)
				return
			}
		}
	})
}
''')

seed('c13-heartbeat-bits','C13',[('packet/packet_conn.go','''	connPkt.clientIDAcquire = (flags[0] & 0x08) != 0
	heartbeat := float64(flags[0] & 0x30 >> 4)
	connPkt.Heartbeat = Heartbeat(5 * math.Pow(4, heartbeat))
	// client id
	clientID := make''','''	connPkt.clientIDAcquire = (flags[0] & 0x08) != 0
	heartbeat := float64(flags[0] & 0x10 >> 4)
	connPkt.Heartbeat = Heartbeat(5 * math.Pow(4, heartbeat))
	// client id
	clientID := make''')],
 'a heartbeat of 80 or 320 seconds read from a connection',
 'only the lower bit of the heartbeat is read from a stream of bytes',
'''
func TestDemo(t *testing.T) {
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
	for _, hb := range []packet.Heartbeat{packet.Heartbeat5, packet.Heartbeat20, packet.Heartbeat80, packet.Heartbeat320} {
		data, err := pf.NewConnPacket(1, true, hb, []byte("m")).Encode()
		if err != nil {
			t.Fatal(err)
		}
		p, err := packet.DecodeFromReader(bytes.NewReader(data))
		if err != nil {
			t.Fatal(err)
		}
		if got := p.(*packet.ConnPacket).Heartbeat; got != hb {
			t.Fatalf("%v came as %v", hb, got)
		}
	}
}
''', imports='"bytes"\n"github.com/singchia/geminio/packet"\n"github.com/singchia/geminio/pkg/id"')

seed('c13-short-read','C13',[('packet/packet_data.go','''	length := int(pkt.PacketLen)
	data := make([]byte, length)
	_, err := io.ReadFull(reader, data)
	if err != nil {
		return err
	}
	// session id
	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
	// data
	pkt.Data = data[8:length]
''','''	length := int(pkt.PacketLen)
	data := make([]byte, length)
	_, err := io.ReadAtLeast(reader, data, 8)
	if err != nil {
		return err
	}
	// session id
	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
	// data
	pkt.Data = data[8:length]
''')],
 'a raw packet that arrives in several reads',
 'a stream packet that arrives in pieces is taken as complete',
'''
func TestDemo(t *testing.T) {
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
	want := bytes.Repeat([]byte("0123456789"), 20)
	data, err := pf.NewStreamPacketWithSessionID(5, want).Encode()
	if err != nil {
		t.Fatal(err)
	}
	p, err := packet.DecodeFromReader(iotest.HalfReader(bytes.NewReader(data)))
	if err != nil {
		t.Fatal(err)
	}
	if got := p.(*packet.StreamPacket).Data; !bytes.Equal(got, want) {
		t.Fatalf("%q", got)
	}
}
''', imports='"bytes"\n"testing/iotest"\n"github.com/singchia/geminio/packet"\n"github.com/singchia/geminio/pkg/id"')

seed('c14-signed-length','C14',[('packet/decode.go','if uint32(len(data)-14) < pktHdr.PacketLen {','if int32(len(data)-14) < int32(pktHdr.PacketLen) {')],
 'a length field of 2 GB or more',
 'a length of at least 2^31 counts as negative, so what is missing is not noticed',
'''
func TestDemo(t *testing.T) {
	for _, typ := range []packet.Type{packet.TypeHeartbeatPacket, packet.TypeDisConnPacket, packet.TypeHeartbeatAckPacket, packet.TypeMessagePacket, packet.TypeStreamPacket} {
		data := make([]byte, 64)
		data[0], data[1] = 1, byte(typ)
		data[10] = 0xff
		if _, _, err := packet.Decode(data); err == nil {
			t.Fatalf("type %v: no error", typ)
		}
	}
}
''', imports='"github.com/singchia/geminio/packet"')

seed('c15-no-timeout','C15',[('conn/conn_client.go','sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))','sync := cc.shub.New(pkt.PacketID)')],
 'a server that accepts the connection and never answers',
 'the client waits for the handshake forever',
'''
func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	go io.Copy(io.Discard, b)
	within(t, 40*time.Second, "connecting", func() {
		if _, err := client.NewEndWithConn(a); err == nil {
			t.Error("no error")
		}
	})
}
''', imports='"github.com/singchia/geminio/client"')

seed('c16-offline-of-refused','C16',[('conn/conn_server.go','if sc.dlgt != nil && sc.onlined {','if sc.dlgt != nil && sc.ClientID() != 0 {')],
 'a connection refused by ConnOnline of the delegate',
 'the delegate is notified offline of a connection it refused',
'''
type dlgt struct {
	delegate.UnimplementedDelegate
	off atomic.Int32
}

func (d *dlgt) GetClientID(wanted uint64, meta []byte) (uint64, error) { return 9, nil }
func (d *dlgt) ConnOnline(delegate.ConnDescriber) error               { return errors.New("refused") }
func (d *dlgt) ConnOffline(delegate.ConnDescriber) error              { d.off.Add(1); return nil }

func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	d := &dlgt{}
	o := server.NewEndOptions()
	o.SetDelegate(d)
	go func() {
		if _, err := client.NewEndWithConn(a); err == nil {
			t.Error("connected")
		}
		a.Close()
	}()
	if _, err := server.NewEndWithConn(b, o); err == nil {
		t.Fatal("no error")
	}
	time.Sleep(time.Second)
	if n := d.off.Load(); n != 0 {
		t.Fatalf("%d offline notifications", n)
	}
}
''', imports='"errors"\n"sync/atomic"\n"github.com/singchia/geminio/client"\n"github.com/singchia/geminio/delegate"\n"github.com/singchia/geminio/server"')

seed('c17-single-interval','C17',[('conn/conn_server.go','''	sc.hbTick.Cancel()
	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second,''','''	sc.hbTick.Cancel()
	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*time.Second+500*time.Millisecond,''')],
 'a heartbeat that comes late, by more than half a second',
 'after the first heartbeat the server waits for little more than one interval',
'''
func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	go func() {
		packet.EncodeToWriter(pf.NewConnPacket(0, true, packet.Heartbeat5, nil), a)
		for i := 0; i < 3; i++ {
			// late, but within two intervals
			time.Sleep(7 * time.Second)
			packet.EncodeToWriter(pf.NewHeartbeatPacket(), a)
		}
	}()
	if _, err := server.NewEndWithConn(b); err != nil {
		t.Fatal(err)
	}
	acks := 0
	a.SetReadDeadline(time.Now().Add(25 * time.Second))
	for acks < 3 {
		p, err := packet.DecodeFromReader(a)
		if err != nil {
			t.Fatalf("after %d heartbeats: %v", acks, err)
		}
		switch p.(type) {
		case *packet.HeartbeatAckPacket:
			acks++
		case *packet.DisConnPacket:
			t.Fatalf("closed after %d heartbeats", acks)
		}
	}
}
''', imports='"github.com/singchia/geminio/packet"\n"github.com/singchia/geminio/pkg/id"\n"github.com/singchia/geminio/server"')

seed('c17-busy-no-heartbeat','C17',[('conn/conn_client.go','''	if !cc.connOK {
		cc.connMtx.RUnlock()
		return
	}
	pkt := cc.pf.NewHeartbeatPacket()
''','''	if !cc.connOK || len(cc.writeInCh) > 0 {
		// the peer hears of us anyway
		cc.connMtx.RUnlock()
		return
	}
	pkt := cc.pf.NewHeartbeatPacket()
''')],
 'a connection on which packets are always waiting to be written',
 'a busy client sends no heartbeats, so the server closes its connection',
'''
// slowConn takes little at a time
type slowConn struct{ net.Conn }

func (s slowConn) Write(b []byte) (int, error) {
	time.Sleep(2 * time.Millisecond)
	return s.Conn.Write(b)
}

func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	c, s := endsOn(t, slowConn{a}, b, nil, nil)
	stop := time.Now().Add(50 * time.Second)
	for i := 0; i < 4; i++ {
		x, y := streams(t, c, s)
		go io.Copy(io.Discard, y)
		go func() {
			for time.Now().Before(stop) {
				if _, err := x.Write(make([]byte, 64)); err != nil {
					t.Errorf("%v before: %v", time.Until(stop), err)
					return
				}
			}
		}()
	}
	for time.Now().Before(stop) && !t.Failed() {
		time.Sleep(100 * time.Millisecond)
	}
}
''', imports='"net"')

seed('c18-dial-after-close','C18',[('client/end_retry.go','''	time.Sleep(3 * time.Second)
	if atomic.LoadInt32(re.ok) == 0 {
		return io.EOF
	}
''','''	time.Sleep(3 * time.Second)
''')],
 'Close during the pause before reconnecting',
 'a retry End dials again after it was closed',
'''
func TestDemo(t *testing.T) {
	ln, err := server.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	ends := make(chan geminio.End, 8)
	go func() {
		for {
			e, err := ln.AcceptEnd()
			if err != nil {
				return
			}
			ends <- e
		}
	}()
	var dials atomic.Int32
	var mu sync.Mutex
	var last net.Conn
	re, err := client.NewRetryEndWithDialer(func() (net.Conn, error) {
		dials.Add(1)
		c, err := net.Dial("tcp", ln.Addr().String())
		mu.Lock()
		last = c
		mu.Unlock()
		return c, err
	})
	if err != nil {
		t.Fatal(err)
	}
	<-ends
	mu.Lock()
	last.Close()
	mu.Unlock()
	time.Sleep(time.Second)
	go re.Close()
	time.Sleep(time.Second)
	n := dials.Load()
	time.Sleep(5 * time.Second)
	if m := dials.Load(); m != n {
		t.Fatalf("%d dials after Close", m-n)
	}
}
''', imports='"net"\n"sync"\n"sync/atomic"\n"github.com/singchia/geminio/client"\n"github.com/singchia/geminio/server"')

seed('c18-hijack-options','C18',[('client/end_retry.go','re.hijackRPCOpts = options.MergeHijackOptions(opts...)','re.hijackRPCOpts = &options.HijackOptions{}')],
 'a hijack with a pattern, and a method beyond the pattern called after a reconnection',
 'after a reconnection the hijack takes every method, whatever its pattern',
'''
func TestDemo(t *testing.T) {
	ln, err := server.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	ends := make(chan geminio.End, 8)
	go func() {
		for {
			e, err := ln.AcceptEnd()
			if err != nil {
				return
			}
			ends <- e
		}
	}()
	var mu sync.Mutex
	var last net.Conn
	re, err := client.NewRetryEndWithDialer(func() (net.Conn, error) {
		c, err := net.Dial("tcp", ln.Addr().String())
		mu.Lock()
		last = c
		mu.Unlock()
		return c, err
	})
	if err != nil {
		t.Fatal(err)
	}
	defer re.Close()
	s := <-ends
	reply := func(text string) geminio.HijackRPC {
		return func(_ context.Context, _ string, _ geminio.Request, rsp geminio.Response) { rsp.SetData([]byte(text)) }
	}
	o := options.Hijack()
	o.SetMatch(true, "^hi")
	if err := re.Hijack(reply("hijacked"), o); err != nil {
		t.Fatal(err)
	}
	if err := re.Register(context.TODO(), "plain", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		rsp.SetData([]byte("plain"))
	}); err != nil {
		t.Fatal(err)
	}
	ask := func(when string) {
		for m, want := range map[string]string{"hi there": "hijacked", "plain": "plain"} {
			rsp, err := s.Call(context.TODO(), m, s.NewRequest(nil))
			if err != nil || string(rsp.Data()) != want {
				t.Fatalf("%s: %s: %v %v", when, m, rsp, err)
			}
		}
	}
	ask("before")
	mu.Lock()
	last.Close()
	mu.Unlock()
	within(t, 30*time.Second, "reconnecting", func() { s = <-ends })
	time.Sleep(3 * time.Second)
	ask("after")
}
''', imports='"net"\n"sync"\n"github.com/singchia/geminio/client"\n"github.com/singchia/geminio/server"\n"github.com/singchia/geminio/options"')

seed('c19-known-too-late','C19',[('application/stream.go','''	sm.rpcMtx.Lock()
	sm.remoteRPCs[method] = struct{}{}
	sm.rpcMtx.Unlock()

	// once''','''	// once'''),('application/stream.go','''		sm.opts.dlgt.RemoteRegistration(method, sm.cn.ClientID(), sm.dg.DialogueID())
	}
''','''		sm.opts.dlgt.RemoteRegistration(method, sm.cn.ClientID(), sm.dg.DialogueID())
	}

	sm.rpcMtx.Lock()
	sm.remoteRPCs[method] = struct{}{}
	sm.rpcMtx.Unlock()
''')],
 'a call as soon as the registration is acknowledged or notified',
 'a registration is acknowledged and notified before calls to the method are let through',
'''
type dlgt struct {
	delegate.UnimplementedDelegate
}

func (d *dlgt) RemoteRegistration(method string, clientID uint64, streamID uint64) {
	time.Sleep(300 * time.Millisecond)
}

func TestDemo(t *testing.T) {
	o := client.NewEndOptions()
	o.SetDelegate(&dlgt{})
	o.SetRemoteRPCCheck()
	c, s := ends(t, o, nil)
	if err := s.Register(context.TODO(), "m", func(context.Context, geminio.Request, geminio.Response) {}); err != nil {
		t.Fatal(err)
	}
	// the server knows that we know
	if _, err := c.Call(context.TODO(), "m", c.NewRequest(nil)); err != nil {
		t.Fatal(err)
	}
}
''', imports='"github.com/singchia/geminio/client"\n"github.com/singchia/geminio/delegate"')

seed('c20-even-not-atomic','C20',[('pkg/id/id.go','''	case Even:
		return uint64(time.Now().Unix()<<32) +
			uint64(atomic.AddUint32(&idCounter.counter, 2))
''','''	case Even:
		atomic.AddUint32(&idCounter.counter, 2)
		return uint64(time.Now().Unix()<<32) +
			uint64(atomic.LoadUint32(&idCounter.counter))
''')],
 'several goroutines drawing at the same time',
 'an even factory hands out the same identifier twice',
'''
func TestDemo(t *testing.T) {
	f := id.NewIDCounter(id.Even)
	const g, n = 8, 300000
	ids := make([][]uint64, g)
	var wg sync.WaitGroup
	for i := range ids {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				ids[i] = append(ids[i], f.GetID())
			}
		}()
	}
	wg.Wait()
	seen := make(map[uint64]bool, g*n)
	for _, l := range ids {
		for _, v := range l {
			if seen[v] {
				t.Fatalf("%x twice", v)
			}
			seen[v] = true
		}
	}
}
''', imports='"sync"\n"github.com/singchia/geminio/pkg/id"')

seed('c21-shared-timer','C21',[('conn/conn_client.go','''	if !cc.tmrOutside {
		cc.tmr.Close()
	}
	cc.tmr = nil
''','''	cc.tmr.Close()
	cc.tmr = nil
''')],
 'two client Ends that share their timer option, one of which ends',
 'the end of one End closes the timer of another, whose timeouts never come',
'''
func TestDemo(t *testing.T) {
	tmr := timer.NewTimer()
	defer tmr.Close()
	o := client.NewEndOptions()
	o.SetTimer(tmr)
	a, sa := ends(t, o, nil)
	b, sb := ends(t, o, nil)
	stop := make(chan struct{})
	defer close(stop)
	sb.Register(context.TODO(), "m", func(ctx context.Context, _ geminio.Request, rsp geminio.Response) { <-stop })
	sa.Close()
	a.Close()
	time.Sleep(500 * time.Millisecond)
	co := options.Call()
	co.SetTimeout(3 * time.Second)
	within(t, 20*time.Second, "a call of the other End", func() {
		t0 := time.Now()
		if _, err := b.Call(context.TODO(), "m", b.NewRequest(nil), co); err == nil || err.Error() != "timeout" || time.Since(t0) < 2*time.Second {
			t.Error(err, time.Since(t0))
		}
	})
}
''', imports='"github.com/singchia/geminio/client"\n"github.com/singchia/geminio/options"\n"github.com/singchia/go-timer/v2"')

seed('c22-session-assertion','C22',[('multiplexer/dialogue_mgr.go','''		dgPkt, ok := pkt.(packet.SessionAbove)
		if !ok {
			dm.log.Errorf("packet don't have dialogueID, clientID: %d, packetID: %d, packetType: %s",
				dm.cn.ClientID(), pkt.ID(), pkt.Type().String())
			return
		}
		dialogueID''','''		// those of the conn layer never get here
		dgPkt := pkt.(packet.SessionAbove)
		dialogueID''')],
 'a peer that sends a packet only the other side may send, after the handshake',
 'a packet without a session crashes the process',
'''
func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	packet.EncodeToWriter(pf.NewConnPacket(0, true, packet.Heartbeat20, nil), a)
	s, err := server.NewEndWithConn(b)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := packet.DecodeFromReader(a); err != nil {
		t.Fatal(err)
	}
	packet.EncodeToWriter(pf.NewHeartbeatAckPacket(5), a)
	packet.EncodeToWriter(pf.NewConnAckPacket(6, 1, nil), a)
	time.Sleep(500 * time.Millisecond)
	a.Close()
	within(t, 40*time.Second, "closing", func() { s.Close() })
}
''', imports='"github.com/singchia/geminio/packet"\n"github.com/singchia/geminio/pkg/id"\n"github.com/singchia/geminio/server"')

seed('c22-early-heartbeat','C22',[('conn/conn_server.go','''	ok := sc.fsm.InStates(CONNED)
	if !ok {
		sc.log.Errorf("heartbeat at''','''	ok := sc.fsm.InStates(INIT, CONNED)
	if !ok {
		sc.log.Errorf("heartbeat at''')],
 'a peer whose first packet is a heartbeat',
 'a heartbeat before the handshake crashes the server',
'''
func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	packet.EncodeToWriter(pf.NewHeartbeatPacket(), a)
	go func() {
		time.Sleep(500 * time.Millisecond)
		a.Close()
	}()
	within(t, 30*time.Second, "accepting", func() {
		if _, err := server.NewEndWithConn(b); err == nil {
			t.Error("no error")
		}
	})
}
''', imports='"github.com/singchia/geminio/packet"\n"github.com/singchia/geminio/pkg/id"\n"github.com/singchia/geminio/server"')

seed('c23-lookup-unlocked','C23',[('application/stream.go','''	sm.rpcMtx.RLock()
	rpc, ok := sm.localRPCs[method]
	sm.rpcMtx.RUnlock()
''','''	rpc, ok := sm.localRPCs[method]
''')],
 'a registration while requests arrive',
 'the handlers are looked up without their lock',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	h := func(context.Context, geminio.Request, geminio.Response) {}
	s.Register(context.TODO(), "m", h)
	done := make(chan struct{})
	for g := 0; g < 4; g++ {
		go func() {
			for {
				if _, err := c.Call(context.TODO(), "m", c.NewRequest(nil)); err != nil {
					return
				}
			}
		}()
	}
	go func() {
		defer close(done)
		for i := 0; i < 5000; i++ {
			s.Register(context.TODO(), fmt.Sprint("m", i%50), h)
		}
	}()
	<-done
}
''', race=True, imports='"fmt"')

seed('c23-check-unlocked','C23',[('application/rpc.go','''		sm.rpcMtx.RLock()
		_, ok := sm.remoteRPCs[method]
		if !ok {
			sm.rpcMtx.RUnlock()
			return nil, ErrRemoteRPCUnregistered
		}
		sm.rpcMtx.RUnlock()
''','''		if _, ok := sm.remoteRPCs[method]; !ok {
			return nil, ErrRemoteRPCUnregistered
		}
''')],
 'calls with the check of remote methods on, while the peer registers methods',
 'the remote methods are looked up without their lock',
'''
func TestDemo(t *testing.T) {
	o := client.NewEndOptions()
	o.SetRemoteRPCCheck()
	c, s := ends(t, o, nil)
	h := func(context.Context, geminio.Request, geminio.Response) {}
	s.Register(context.TODO(), "m", h)
	done := make(chan struct{})
	for g := 0; g < 4; g++ {
		go func() {
			for {
				if _, err := c.Call(context.TODO(), "m", c.NewRequest(nil)); err != nil {
					return
				}
			}
		}()
	}
	go func() {
		defer close(done)
		for i := 0; i < 5000; i++ {
			s.Register(context.TODO(), fmt.Sprint("m", i%50), h)
		}
	}()
	<-done
}
''', race=True, imports='"fmt"\n"github.com/singchia/geminio/client"')

seed('c24-silent-client','C24',[('conn/conn_server.go','''ERR:
	// let fini finish the end
	sc.netconn.Close()
	return nil, err
''','''ERR:
	return nil, err
''')],
 'a client that connects and never starts the handshake',
 'the connection of a client that stalled is never closed',
'''
func TestDemo(t *testing.T) {
	a, b := tcpPair(t)
	if _, err := server.NewEndWithConn(b); err == nil {
		t.Fatal("no error")
	}
	a.SetReadDeadline(time.Now().Add(5 * time.Second))
	for {
		if _, err := a.Read(make([]byte, 64)); err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				t.Fatal("the connection is still open")
			}
			return
		}
	}
}
''', imports='"net"\n"github.com/singchia/geminio/server"')

seed('c25-close-while-accepting','C25',[('server/server.go','''	ret, _ := <-ln.ch
	return ret.end, ret.err
''','''	ret, ok := <-ln.ch
	if !ok {
		return nil, net.ErrClosed
	}
	return ret.end, ret.err
'''),('server/server.go','''func (ln *listener) Close() error {
	return ln.ln.Close()
''','''func (ln *listener) Close() error {
	// those in the middle of the handshake shouldn't wait for it
	defer close(ln.ch)
	return ln.ln.Close()
''')],
 'closing the listener while a connection is in its handshake',
 'the handshake that ends after the listener was closed crashes the process',
'''
func TestDemo(t *testing.T) {
	ln, err := server.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	accepted := make(chan struct{})
	go func() {
		defer close(accepted)
		ln.AcceptEnd()
	}()
	c, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(300 * time.Millisecond)
	ln.Close()
	time.Sleep(300 * time.Millisecond)
	c.Close()
	within(t, 20*time.Second, "accepting", func() { <-accepted })
	time.Sleep(time.Second)
}
''', imports='"net"\n"github.com/singchia/geminio/server"')

seed('c26-handlers-in-line','C26',[('application/stream.go','''		sm.doRPC(pkt, wrapperRPC, method, ctx, req, rsp, true)
''','''		sm.doRPC(pkt, wrapperRPC, method, ctx, req, rsp, sm.opts.remoteMethodCheck)
''')],
 'a handler that calls back to its caller',
 'handlers run on the goroutine that reads their stream, so one that waits for the peer waits forever',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	s.Register(context.TODO(), "outer", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		r, err := s.Call(ctx, "inner", s.NewRequest(req.Data()))
		if err != nil {
			rsp.SetError(err)
			return
		}
		rsp.SetData(r.Data())
	})
	c.Register(context.TODO(), "inner", func(_ context.Context, req geminio.Request, rsp geminio.Response) {
		rsp.SetData(append([]byte("inner "), req.Data()...))
	})
	within(t, 10*time.Second, "a call answered by a call", func() {
		rsp, err := c.Call(context.TODO(), "outer", c.NewRequest([]byte("x")))
		if err != nil || string(rsp.Data()) != "inner x" {
			t.Error(rsp, err)
		}
	})
}
''')
