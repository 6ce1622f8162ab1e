S=[]
def seed(id, prop, edits, needs, breaks, demo, race=False, imports=''):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race, imports=imports))
# fifth batch of planted bugs
seed('c16-closed-late','C16',[('multiplexer/dialogue.go','''	if dg.dlgt != nil && dg.onlined {
		dg.dlgt.DialogueOffline(dg)
	}
	// only handlePkt leads to this fini, and reclaims all channels and other resources
	dg.fini()
}
''','''	dlgt, onlined := dg.dlgt, dg.onlined
	// only handlePkt leads to this fini, and reclaims all channels and other resources
	dg.fini()
	if dlgt != nil && onlined {
		dlgt.DialogueOffline(dg)
	}
}
''')],
 'a stream that is finished by its End before the multiplexer looks for it, because the delegate takes its time or by the schedule',
 'the closed callback is not called, since the stream is already gone when it is looked up',
'''
type dlgt struct {
	*delegate.UnimplementedDelegate
}

func (d *dlgt) DialogueOffline(delegate.DialogueDescriber) error {
	time.Sleep(200 * time.Millisecond)
	return nil
}
func (d *dlgt) GetClientID(_ uint64, _ []byte) (uint64, error) { return 0, nil }

func TestDemo(t *testing.T) {
	so := server.NewEndOptions()
	so.SetDelegate(&dlgt{&delegate.UnimplementedDelegate{}})
	so.SetAcceptStreamFunc(func(geminio.Stream) {})
	var n int32
	so.SetClosedStreamFunc(func(geminio.Stream) { atomic.AddInt32(&n, 1) })
	c, _ := ends(t, nil, so)
	for i := 0; i < 10; i++ {
		s, err := c.OpenStream()
		if err != nil {
			t.Fatal(err)
		}
		s.Close()
	}
	time.Sleep(5 * time.Second)
	if atomic.LoadInt32(&n) != 10 {
		t.Error("closed", n, "of 10")
	}
}
''', imports='"sync/atomic"\n"github.com/singchia/geminio/delegate"\n"github.com/singchia/geminio/server"')

seed('c06-receive-expired','C06',[('application/message.go','''	case pkt, ok := <-sm.messageCh:
		if !ok {
''','''	case pkt, ok := <-sm.messageCh:
		if ctx.Err() != nil {
			return nil, ctx.Err()
		} else if !ok {
''')],
 'a Receive whose context ends at the moment a message comes',
 'the message is taken and dropped, so its publisher never gets an acknowledgement and nobody receives it',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	done := make(chan error, 1)
	go func() {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		done <- c.Publish(ctx, c.NewMessage([]byte("x")))
	}()
	time.Sleep(time.Second)
	gone, cancel := context.WithCancel(context.Background())
	cancel()
	var m geminio.Message
	for i := 0; i < 60 && m == nil; i++ {
		m, _ = s.Receive(gone)
	}
	if m == nil {
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
		defer cancel()
		var err error
		if m, err = s.Receive(ctx); err != nil {
			t.Fatal("lost", err)
		}
	}
	m.Done()
	if err := <-done; err != nil {
		t.Error(err)
	}
}
''')


seed('c02-empty-response','C02',[('application/stream.go','''	if pkt.Data.Error != "" {
		err := errors.New(pkt.Data.Error)
		errored := sm.shub.Error(pkt.ID(), err)
		sm.log.Tracef("read response packet with err''','''	if pkt.Data.Error != "" && len(pkt.Data.Value) == 0 {
		err := errors.New(pkt.Data.Error)
		errored := sm.shub.Error(pkt.ID(), err)
		sm.log.Tracef("read response packet with err''')],
 'a handler which sets data and then an error',
 'the error is swallowed, the caller takes the call for a success',
'''
func TestDemo(t *testing.T) {
	c, s := ends(t, nil, nil)
	s.Register(context.TODO(), "m", func(_ context.Context, _ geminio.Request, rsp geminio.Response) {
		rsp.SetData([]byte("partial"))
		rsp.SetError(io.ErrUnexpectedEOF)
	})
	if _, err := c.Call(context.TODO(), "m", c.NewRequest(nil)); err == nil {
		t.Error("success")
	}
}
''')

seed('c16-closed-with-end','C16',[('multiplexer/dialogue_mgr.go','''	// notify outside that a dialogue is closed
	if dm.dialogueClosedFn != nil {
		dm.dialogueClosedFn(dg.(*dialogue))

	} else if''','''	// notify outside that a dialogue is closed
	if dm.dialogueClosedFn != nil && dm.mgrOK {
		dm.dialogueClosedFn(dg.(*dialogue))

	} else if''')],
 'a multiplexer with a closed function that ends with dialogues still open',
 'the closed function is not told of the dialogues which end together with the multiplexer',
'''
func TestDemo(t *testing.T) {
	so := server.NewEndOptions()
	so.SetAcceptStreamFunc(func(geminio.Stream) {})
	var n int32
	so.SetClosedStreamFunc(func(geminio.Stream) { atomic.AddInt32(&n, 1) })
	a, b := tcpPair(t)
	go server.NewEndWithConn(b, so)
	c, err := client.NewEndWithConn(a, client.NewEndOptions())
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 10; i++ {
		if _, err := c.OpenStream(); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(time.Second)
	a.Close()
	time.Sleep(5 * time.Second)
	if atomic.LoadInt32(&n) < 10 {
		t.Error("closed", n, "of 10")
	}
}
''', imports='"sync/atomic"\n"github.com/singchia/geminio/client"\n"github.com/singchia/geminio/server"')
