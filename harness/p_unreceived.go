package verif

import (
	"github.com/singchia/geminio/options"
)

// Probes of a known finding: messages nobody receives, beyond what the queues
// of one stream hold, stop all reading from the connection.

func (c *C) unreceived(e *Env) bool {
	p, ok := e.OpenPair(0)
	if !ok {
		return false
	}
	opt := options.NewMessage()
	opt.SetCnss(options.CnssAtMostOnce)
	go func() {
		for i := 0; i < 300; i++ {
			if p.o.Publish(bg, p.o.NewMessage([]byte{byte(i)}, opt)) != nil {
				return
			}
		}
	}()
	c.Settle()
	return true
}

// isoUnreceived: the other streams go on.
func isoUnreceived(c *C) {
	e := c.NewEnv(EnvOpt{})
	if e == nil {
		return
	}
	q, ok := e.OpenPair(0)
	if !ok {
		return
	}
	if err := q.a.Register(bg, "echo", echoRPC); err != nil {
		c.Violate("setup", "Register: %v", err)
		return
	}
	if !c.unreceived(e) {
		return
	}
	done := make(chan struct{})
	var err error
	go func() {
		defer close(done)
		_, err = q.o.Call(bg, "echo", q.o.NewRequest([]byte("x")))
	}()
	c.Ev("unreceived_probe")
	if !c.soon(done) {
		c.Violate("unreceived", "with 300 messages published on one stream and nobody receiving there, a call on another stream of the End doesn't return")
	} else if err != nil {
		c.Violate("unreceived", "with 300 messages published on one stream and nobody receiving there, a call on another stream of the End returns %v", err)
	}
}

// endUnreceived: the loss of the connection is noticed.
func endUnreceived(c *C) {
	e := c.NewEnv(EnvOpt{})
	if e == nil {
		return
	}
	q, ok := e.OpenPair(0)
	if !ok {
		return
	}
	if !c.unreceived(e) {
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		q.a.Receive(bg)
	}()
	c.Settle()
	e.Link.Break(false)
	c.Ev("unreceived_probe")
	if !c.soon(done) {
		c.Violate("unreceived", "with 300 messages published on one stream and nobody receiving there, the connection broke and a Receive on another stream of the End doesn't return")
	}
}
