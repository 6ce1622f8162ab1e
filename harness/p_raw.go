package verif

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"time"

	"github.com/singchia/geminio"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C01",
		Rule: "A case opens 0-6 extra streams over a transport with drawn buffering, latency, jitter and segmentation and drawn library buffer sizes, and runs raw flows in both directions of each with drawn write and read-buffer sizes (0 bytes to 256 KiB), reader pauses, reads under past and short deadlines, concurrent writers, RPCs and messages on the same stream; every byte read is compared with the generator of that direction's bytes. At most 32 written packets are unread per direction (see the known finding).",
		Scens: []*Scen{
			{Name: "flows", Mode: Bubble, Quick: 160, Thorough: 8000, Batch: 10, Fn: rawFlows},
			{Name: "slow-reader", Mode: Bubble, Quick: 60, Thorough: 2000, Batch: 10, Fn: rawSlow},
			{Name: "writers", Mode: Bubble, Quick: 60, Thorough: 2000, Batch: 10, Fn: rawWriters},
			{Name: "mixed", Mode: Bubble, Quick: 60, Thorough: 2000, Batch: 10, Fn: rawMixed},
			{Name: "big", Mode: Bubble, Quick: 16, Thorough: 300, Batch: 4, Fn: rawBig},
			{Name: "wall", Mode: Real, Quick: 24, Thorough: 400, Batch: 6, Fn: rawFlows},
			{Name: "overflow", Mode: Bubble, Quick: 1, Thorough: 4, Known: "raw-overflow", Fn: rawOverflow},
		}})
}

// gapFn draws pauses (virtual time makes them free).
func (c *C) gapFn() func() {
	r := c.Sub()
	var mu vsync.Quiet
	kind := r.IntN(4)
	return func() {
		mu.Lock()
		v := r.IntN(100)
		d := time.Duration(r.IntN(30)) * time.Millisecond
		mu.Unlock()
		switch {
		case kind == 1 && v < 10, kind == 2 && v < 50:
			if c.Mode == Bubble {
				time.Sleep(d)
			} else if v < 2 {
				time.Sleep(time.Millisecond)
			}
		}
	}
}

func rawFlows(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Pick(0, 1, 1, 2, 3, 6))
	if !ok {
		return
	}
	n := c.Range(5, 120)
	if c.Tier == "thorough" && c.Chance(10) {
		n = 600
	}
	max := c.Pick(10, 200, 3000, 20000)
	bufMax := c.Pick(1, 7, 200, 5000, 70000)
	if bufMax < 8 && max > 200 {
		max = 200
	}
	var fns []func()
	for i, p := range ps {
		for side := 0; side < 2; side++ {
			if len(ps) > 1 && c.Chance(20) {
				continue
			}
			name := fmt.Sprintf("stream %d, side %d writes", i, side)
			f := c.NewFlow(name, p.at(side), p.at(1-side))
			gap := c.gapFn()
			if c.Chance(40) {
				f.dl = c.Pick(5, 30, 90)
			}
			fns = append(fns, func() { f.Full(n, max, bufMax, gap) })
		}
	}
	c.All("raw flows", fns...)
	c.Sample("%d streams, %d flows of %d writes up to %d bytes, reads up to %d", len(ps), len(fns), n, max, bufMax)
}

// rawSlow fills the stream up to the documented queue while nobody reads.
func rawSlow(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	var fns []func()
	for i, p := range ps {
		for side := 0; side < 2; side++ {
			f := c.NewFlow(fmt.Sprintf("stream %d, side %d writes", i, side), p.at(side), p.at(1-side))
			r := c.Sub()
			fns = append(fns, func() {
				for round := 0; round < 4; round++ {
					n := rawWindow
					if r.IntN(3) == 0 {
						n = 1 + r.IntN(rawWindow)
					}
					for j := 0; j < n; j++ {
						if err := f.Write(1 + r.IntN(300)); err != nil {
							c.Violate("raw-write-err", "%s: %v", f.name, err)
							return
						}
					}
					time.Sleep(time.Duration(r.IntN(3000)) * time.Millisecond)
					total := f.written
					if !f.ReadN(func() (int64, bool) { return total, true }, 1+r.IntN(900)) {
						return
					}
				}
				f.NoExtra()
			})
		}
	}
	c.All("slow raw flows", fns...)
}

// rawWriters has several goroutines write framed records into one stream:
// each Write must arrive in one piece.
func rawWriters(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(2))
	if !ok {
		return
	}
	p := ps[len(ps)-1]
	side := c.N(2)
	w, rd := p.at(side), p.at(1-side)
	g := c.Range(2, 8)
	per := c.Range(5, 40)
	sem := make(chan struct{}, 24)
	var fns []func()
	for i := 0; i < g; i++ {
		r := c.Sub()
		fns = append(fns, func() {
			for j := 0; j < per; j++ {
				n := sizeOf(r, 2000)
				b := make([]byte, 12+n+4)
				b[0] = byte(i)
				binary.BigEndian.PutUint32(b[1:], uint32(j))
				binary.BigEndian.PutUint32(b[5:], uint32(n))
				copy(b[12:], fillBytes(r, n))
				binary.BigEndian.PutUint32(b[12+n:], crc32.ChecksumIEEE(b[:12+n]))
				sem <- struct{}{}
				if m, err := w.Write(b); err != nil || m != len(b) {
					c.Violate("raw-write-err", "Write of %d: %d %v", len(b), m, err)
					return
				}
				for k := range b {
					b[k] = 0xDD
				}
				c.Ev("raw_writes", i, j)
			}
		})
	}
	rr := c.Sub()
	fns = append(fns, func() {
		next := make([]int, g)
		br := &bufR{r: rd, max: 1 + rr.IntN(3000)}
		for k := 0; k < g*per; k++ {
			h := make([]byte, 12)
			if _, err := io.ReadFull(br, h); err != nil {
				c.Violate("raw-read-err", "record %d: %v", k, err)
				return
			}
			i, j, n := int(h[0]), int(binary.BigEndian.Uint32(h[1:])), int(binary.BigEndian.Uint32(h[5:]))
			if i >= g || n > 2000 || j != next[i] {
				c.Violate("raw-records", "record %d is torn or out of order: writer %d of %d, number %d, length %d", k, i, g, j, n)
				return
			}
			rest := make([]byte, n+4)
			if _, err := io.ReadFull(br, rest); err != nil {
				c.Violate("raw-read-err", "record %d: %v", k, err)
				return
			}
			sum := crc32.ChecksumIEEE(append(h, rest[:n]...))
			if binary.BigEndian.Uint32(rest[n:]) != sum {
				c.Violate("raw-records", "record %d (writer %d, number %d, length %d) is corrupted", k, i, j, n)
				return
			}
			next[i]++
			c.Ev("raw_records", i, j)
			<-sem
		}
	})
	c.All("concurrent writers", fns...)
}

type bufR struct {
	r   io.Reader
	max int
	b   []byte
}

func (b *bufR) Read(p []byte) (int, error) {
	if len(p) > b.max {
		p = p[:b.max]
	}
	return b.r.Read(p)
}

// rawMixed runs raw flows while calls and messages use the same streams.
func rawMixed(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	var fns []func()
	for i, p := range ps {
		for side := 0; side < 2; side++ {
			s, q := p.at(side), p.at(1-side)
			f := c.NewFlow(fmt.Sprintf("stream %d, side %d writes", i, side), s, q)
			gap := c.gapFn()
			n := c.Range(5, 60)
			fns = append(fns, func() { f.Full(n, 2000, 900, gap) })
			fns = append(fns, c.sideTraffic(s, q, c.Range(3, 20), gap)...)
		}
	}
	c.All("mixed traffic", fns...)
}

// sideTraffic calls and publishes from s to q, both verified simply.
func (c *C) sideTraffic(s, q geminio.Stream, n int, gap func()) []func() {
	m := fmt.Sprintf("echo-%d", c.N(1<<30))
	cl, ms := c.caller(s, q, m), c.publisher(s, q)
	if cl == nil {
		return nil
	}
	return []func(){
		func() { cl.run(n, 500, gap) },
		func() { ms.publish(n, 500, gap) },
		func() { ms.receive(n, gap) },
	}
}

// rawBig moves large writes.
func rawBig(c *C) {
	o := EnvOpt{Link: LinkOpt{Cap: c.Pick(4096, 65536), MaxRead: c.Pick(0, 1000)}}
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	p, ok := e.OpenPair(c.N(2))
	if !ok {
		return
	}
	f := c.NewFlow("big", p.at(0), p.at(1))
	g := c.NewFlow("big back", p.at(1), p.at(0))
	c.All("big writes",
		func() { f.Full(12, 256<<10, 100000, nil) },
		func() { g.Full(12, 256<<10, 5000, nil) })
}

// rawOverflow is the probe of the known finding: more packets than the queue
// holds, written while nobody reads.
func rawOverflow(c *C) {
	e := c.NewEnv(EnvOpt{})
	if e == nil {
		return
	}
	p, ok := e.OpenPair(0)
	if !ok {
		return
	}
	n := 3 * rawWindow
	for i := 0; i < n; i++ {
		if _, err := p.o.Write([]byte{byte(i)}); err != nil {
			c.Violate("overflow-write", "write %d: %v", i, err)
			return
		}
	}
	c.Settle()
	var got []byte
	buf := make([]byte, 10)
	p.a.SetReadDeadline(time.Now().Add(5 * time.Second))
	for len(got) < n {
		k, err := p.a.Read(buf)
		got = append(got, buf[:k]...)
		if err != nil {
			break
		}
	}
	c.Ev("overflow_probe", n, len(got))
	for i, b := range got {
		if b != byte(i) {
			c.Violate("raw-overflow-order", "%d one-byte writes while nobody read: byte %d is %d", n, i, b)
			return
		}
	}
	if len(got) < n {
		c.Violate("raw-overflow", "%d one-byte writes were accepted while nobody read; the peer can read only %d of them", n, len(got))
	}
}
