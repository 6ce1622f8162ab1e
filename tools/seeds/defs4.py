S=[]
def seed(id, prop, edits, needs, breaks, demo, race=False, imports=''):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race, imports=imports))
# fourth batch of planted bugs
HAND='''
// hand is a hand-made client: it shakes hands and lets you see and send packets
func hand(t *testing.T, opts *server.EndOptions) (geminio.End, net.Conn, packet.PacketFactory) {
	a, b := tcpPair(t)
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	packet.EncodeToWriter(pf.NewConnPacket(0, true, packet.Heartbeat5, []byte("m")), a)
	if opts == nil {
		opts = server.NewEndOptions()
	}
	e, err := server.NewEndWithConn(b, opts)
	if err != nil {
		t.Fatal(err)
	}
	packet.DecodeFromReader(a)
	return e, a, pf
}
'''
HI='"net"\n"github.com/singchia/geminio/packet"\n"github.com/singchia/geminio/pkg/id"\n"github.com/singchia/geminio/server"'

seed('c11-half-dismissed','C11',[('multiplexer/dialogue.go','''	if dg.fsm.State() == DISMISS_HALF {
		return iodefine.IOSuccess
	}
	if closewait := dg.getClosewait(); closewait != nil {
		// and CloseWait is waiting for the completion.
		closewait.Done()
	}
	return iodefine.IOClosed
}

func (dg *dialogue) handleInDataPacket''','''	if closewait := dg.getClosewait(); closewait != nil {
		// the peer has it
		closewait.Done()
	}
	if dg.fsm.State() == DISMISS_HALF {
		return iodefine.IOSuccess
	}
	return iodefine.IOClosed
}

func (dg *dialogue) handleInDataPacket''')],
 'a peer which acknowledges the closing of a stream and never closes its own side, while it stays connected',
 'the timer that ends the close is gone, so Close and everything blocked on the stream wait forever',
HAND+'''
func TestDemo(t *testing.T) {
	e, a, pf := hand(t, nil)
	go func() {
		for {
			time.Sleep(3 * time.Second)
			if packet.EncodeToWriter(pf.NewHeartbeatPacket(), a) != nil {
				return
			}
		}
	}()
	go func() {
		for {
			p, err := packet.DecodeFromReader(a)
			if err != nil {
				return
			}
			switch x := p.(type) {
			case *packet.SessionPacket:
				packet.EncodeToWriter(pf.NewSessionAckPacket(x.ID(), x.NegotiateID(), 4, nil), a)
			case *packet.DismissPacket:
				packet.EncodeToWriter(pf.NewDismissAckPacket(x.ID(), x.SessionID(), nil), a)
			}
		}
	}()
	sm, err := e.OpenStream()
	if err != nil {
		t.Fatal(err)
	}
	within(t, 50*time.Second, "Read of the closed stream", func() {
		go sm.Close()
		sm.Read(make([]byte, 1))
	})
}
''', imports=HI)

seed('c14-trailing-json','C14',[('packet/packet_data.go','''	// data
	msgData := &MessageData{}
	err = json.Unmarshal(data[8:pkt.PacketLen], msgData)
	if err != nil {
		return err
	}
	pkt.Data = msgData
	return nil
}

type MessageAckPacket struct''','''	// data
	msgData := &MessageData{}
	err = json.NewDecoder(bytes.NewReader(data[8:])).Decode(msgData)
	if err != nil {
		return err
	}
	pkt.Data = msgData
	return nil
}

type MessageAckPacket struct'''),('packet/packet_data.go','import (\n','import (\n\t"bytes"\n')],
 'a message packet whose body has something behind its JSON value',
 'the stream decoder accepts a malformed packet which the other decoder rejects',
'''
func TestDemo(t *testing.T) {
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	data, err := pf.NewMessagePacketWithSessionID(1, nil, []byte("x"), nil).Encode()
	if err != nil {
		t.Fatal(err)
	}
	data = append(data, "}garbage"...)
	binary.BigEndian.PutUint32(data[10:14], uint32(len(data)-14))
	if _, err := packet.DecodeFromReader(bytes.NewReader(data)); err == nil {
		t.Error("accepted")
	}
}
''', imports='"bytes"\n"encoding/binary"\n"github.com/singchia/geminio/packet"\n"github.com/singchia/geminio/pkg/id"')

seed('c13-pooled-body','C13',[('packet/packet_data.go','''func (pkt *StreamPacket) DecodeFromReader(reader io.Reader) error {
	if pkt.PacketLen < 8 {
		return errors.New("illegal packet")
	}
	length := int(pkt.PacketLen)
	data := make([]byte, length)
''','''// bodies of small packets
var bodies = sync.Pool{New: func() interface{} { return new([512]byte) }}

func (pkt *StreamPacket) DecodeFromReader(reader io.Reader) error {
	if pkt.PacketLen < 8 {
		return errors.New("illegal packet")
	}
	length := int(pkt.PacketLen)
	var data []byte
	if length <= 512 {
		body := bodies.Get().(*[512]byte)
		defer bodies.Put(body)
		data = body[:length]
	} else {
		data = make([]byte, length)
	}
'''),('packet/packet_data.go','	"io"\n','	"io"\n	"sync"\n')],
 'small stream packets of which one is decoded before another one is read',
 'decoded packets share their memory, a later one overwrites the data of an earlier one',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	for i := 0; i < 20; i++ {
		c.Write([]byte{byte(i), byte(i), byte(i)})
	}
	time.Sleep(500 * time.Millisecond)
	b := make([]byte, 3)
	for i := 0; i < 20; i++ {
		if _, err := io.ReadFull(s, b); err != nil || b[0] != byte(i) {
			t.Fatal(i, b, err)
		}
	}
}
''')

seed('c18-merged-hijack','C18',[('client/end_retry.go','	re.hijackRPCOpts = options.MergeHijackOptions(opts...)','	re.hijackRPCOpts = options.MergeHijackOptions(append([]*options.HijackOptions{re.hijackRPCOpts}, opts...)...)')],
 'a retry End hijacked with a pattern, then hijacked again without one, and a lost connection',
 'the replayed hijack has the pattern of the earlier one, so calls of other methods fail after the reconnect',
'''
func TestDemo(t *testing.T) {
	ln, err := server.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	var mu sync.Mutex
	var cn net.Conn
	acc := make(chan geminio.End, 4)
	go func() {
		for {
			e, err := ln.AcceptEnd()
			if err != nil {
				return
			}
			acc <- e
		}
	}()
	c, err := client.NewRetryEndWithDialer(func() (net.Conn, error) {
		x, err := net.Dial("tcp", ln.Addr().String())
		mu.Lock()
		cn = x
		mu.Unlock()
		return x, err
	}, client.NewEndOptions())
	if err != nil {
		t.Fatal(err)
	}
	<-acc
	h := func(ctx context.Context, m string, req geminio.Request, rsp geminio.Response) { rsp.SetData([]byte("hi")) }
	ho := options.Hijack()
	ho.SetMatch(true, "^a")
	if err := c.Hijack(h, ho); err != nil {
		t.Fatal(err)
	}
	if err := c.Hijack(h); err != nil {
		t.Fatal(err)
	}
	mu.Lock()
	cn.Close()
	mu.Unlock()
	s := <-acc
	time.Sleep(3 * time.Second)
	rsp, err := s.Call(context.TODO(), "other", s.NewRequest(nil))
	if err != nil || string(rsp.Data()) != "hi" {
		t.Error(rsp, err)
	}
}
''', imports='"net"\n"sync"\n"github.com/singchia/geminio/client"\n"github.com/singchia/geminio/options"\n"github.com/singchia/geminio/server"')

seed('c16-conn-twice','C16',[('conn/conn_server.go','''	err := sc.fsm.EmitEvent(ET_CONNRECV)
	if err != nil {''','''	err := sc.fsm.EmitEvent(ET_CONNRECV)
	if err != nil && sc.fsm.State() != CONNED { // the peer may not have got the ack''')],
 'a client that sends its conn packet again while it is connected',
 'the delegate sees the same client come online twice and go offline once',
HAND+'''
type dlgt struct {
	*delegate.UnimplementedDelegate
	mu sync.Mutex
	n  int
}

func (d *dlgt) ConnOnline(delegate.ConnDescriber) error {
	d.mu.Lock()
	d.n++
	d.mu.Unlock()
	return nil
}
func (d *dlgt) GetClientID(_ uint64, _ []byte) (uint64, error) { return 0, nil }

func TestDemo(t *testing.T) {
	d := &dlgt{UnimplementedDelegate: &delegate.UnimplementedDelegate{}}
	so := server.NewEndOptions()
	so.SetDelegate(d)
	_, a, pf := hand(t, so)
	packet.EncodeToWriter(pf.NewConnPacket(0, true, packet.Heartbeat5, []byte("m")), a)
	time.Sleep(2 * time.Second)
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.n != 1 {
		t.Error("online", d.n)
	}
}
''', imports=HI+'\n"sync"\n"github.com/singchia/geminio/delegate"')

seed('c20-odd-race','C20',[('pkg/id/id.go','''		idCounter.once.Do(func() {
			atomic.AddUint32(&idCounter.counter, 1)
		})
''','''		if atomic.LoadUint32(&idCounter.counter)&1 == 0 {
			atomic.AddUint32(&idCounter.counter, 1)
		}
''')],
 'the first IDs of an odd counter drawn by several goroutines at once',
 'the counter is made odd twice, so it hands out even IDs, which the other side uses',
'''
func TestDemo(t *testing.T) {
	for k := 0; k < 100000; k++ {
		f := id.NewIDCounter(id.Odd)
		var wg sync.WaitGroup
		start := make(chan struct{})
		var got [4]uint64
		for i := range got {
			wg.Add(1)
			go func(i int) { defer wg.Done(); <-start; got[i] = f.GetID() }(i)
		}
		close(start)
		wg.Wait()
		for _, x := range got {
			if x%2 == 0 {
				t.Fatal(k, got)
			}
		}
	}
}
''', imports='"sync"\n"github.com/singchia/geminio/pkg/id"')

seed('c25-impatient','C25',[('server/server.go','''	ret, _ := <-ln.ch
	return ret.end, ret.err
''','''	select {
	case ret := <-ln.ch:
		return ret.end, ret.err
	case <-time.After(5 * time.Second):
		netconn.Close()
		return nil, errors.New("handshake timeout")
	}
'''),('server/server.go','import (\n','import (\n	"errors"\n	"time"\n')],
 'a client that needs more than five seconds for its handshake, and others after it',
 'AcceptEnd leaves the result of the slow client behind, which the next caller gets instead of its own, so every later client waits for yet another call',
'''
func TestDemo(t *testing.T) {
	ln, err := server.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := net.Dial("tcp", ln.Addr().String()); err != nil { // a mute one
		t.Fatal(err)
	}
	ln.AcceptEnd()
	time.Sleep(12 * time.Second) // whatever it left
	go client.NewEnd("tcp", ln.Addr().String())
	if _, err := ln.AcceptEnd(); err != nil {
		t.Error("a good client:", err)
	}
}
''', imports='"net"\n"github.com/singchia/geminio/client"\n"github.com/singchia/geminio/server"')

LAY='''
func lay(t *testing.T, so ...conn.ServerConnOption) (conn.Conn, conn.Conn) {
	a, b := tcpPair(t)
	ch := make(chan conn.Conn, 1)
	go func() {
		x, err := conn.NewServerConn(b, so...)
		if err != nil {
			close(ch)
			return
		}
		ch <- x
	}()
	c, err := conn.NewClientConn(a)
	if err != nil {
		t.Fatal(err)
	}
	return c, <-ch
}
'''

IM='"github.com/singchia/geminio/conn"\n"github.com/singchia/geminio/multiplexer"'
seed('c29-get-negotiating','C29',[('multiplexer/dialogue_mgr.go','''	if !ok {
		return nil, errors.New("unfound dialgoueID")
	}
	return dialogue, nil''','''	if !ok {
		// it may be about to come
		if dialogue, ok = dm.negotiatingDialogues[dialogueID]; !ok {
			dialogue = dm.defaultDialogue
		}
	}
	return dialogue, nil''')],
 'looking up a dialogue that has ended',
 'GetDialogue finds the default dialogue for every ID that is not there',
LAY+'''
func TestDemo(t *testing.T) {
	c, _ := lay(t)
	m, err := multiplexer.NewDialogueMgr(c)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := m.GetDialogue(c.ClientID(), 1); err != nil {
		t.Error(err)
	}
	if _, err := m.GetDialogue(c.ClientID(), 12345); err == nil {
		t.Error("found")
	}
}
''', imports=IM)

