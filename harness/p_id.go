package verif

import (
	"sync"
	"time"

	"github.com/singchia/geminio/pkg/id"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C20",
		Rule: "A case draws from one or two factories with up to 32 goroutines at once and checks all drawn identifiers together (pairwise distinct, parity, disjoint between an even and an odd factory); for the unique mode it drives random reserve/get/release sequences against a held-set model, sequentially and concurrently; and checks the very first identifiers of many new factories, drawn by several goroutines at once.",
		Scens: []*Scen{
			{Name: "parity", Mode: Bubble, Quick: 40, Thorough: 2000, Batch: 50, Fn: idParity},
			{Name: "first", Mode: Bubble, Quick: 40, Thorough: 1000, Batch: 50, Fn: idFirst},
			{Name: "first-mt", Mode: Real, Quick: 16, Thorough: 200, Batch: 4, Fn: idFirst},
			{Name: "parity-mt", Mode: Real, Quick: 24, Thorough: 600, Batch: 20, Fn: idParity},
			{Name: "unique-seq", Mode: Plain, Quick: 40, Thorough: 2000, Batch: 50, Fn: idUniqueSeq},
			{Name: "unique-mt", Mode: Real, Quick: 24, Thorough: 600, Batch: 20, Fn: idUniqueMT},
		}})
}

func idParity(c *C) {
	mode := []id.Mode{id.Even, id.Odd, id.Inc}[c.K%3]
	other := id.Odd
	if mode == id.Odd {
		other = id.Even
	}
	fs := []*id.IDCounter{id.NewIDCounter(mode), id.NewIDCounter(other)}
	g := c.Pick(1, 2, 8, 32)
	per := c.Range(50, 1500)
	if mode == id.Inc {
		fs = fs[:1]
	}
	gap := c.Mode == Bubble && c.Bool()
	out := make([][]uint64, len(fs)*g)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range out {
		f := fs[i%len(fs)]
		r := c.Sub()
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j := 0; j < per; j++ {
				var x uint64
				if r.IntN(4) == 0 {
					var err error
					if x, err = f.GetIDByMeta(nil); err != nil {
						c.Violate("bymeta", "GetIDByMeta: %v", err)
					}
				} else {
					x = f.GetID()
				}
				out[i] = append(out[i], x)
				if gap && r.IntN(20) == 0 { // let the second change
					time.Sleep(time.Duration(r.IntN(800)) * time.Millisecond)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	seen := map[uint64]int{}
	n := 0
	for i, xs := range out {
		m := mode
		if i%len(fs) == 1 {
			m = other
		}
		for _, x := range xs {
			n++
			if j, dup := seen[x]; dup {
				c.Violate("dup", "identifier %#x drawn twice (%s factory, goroutines %d and %d of %d)", x, m, j, i, len(out))
				return
			}
			seen[x] = i
			if m == id.Even && x%2 != 0 || m == id.Odd && x%2 != 1 {
				c.Violate("parity", "%s factory drew %#x", m, x)
				return
			}
			if x == 0 || x == 1 {
				c.Violate("reserved", "%s factory drew %d", m, x)
				return
			}
		}
		c.Ev("drawers", m, len(xs), i)
	}
	c.Count("ids", n)
	c.Ev("goroutines", g, per, mode)
}

// idFirst: the first identifiers of many factories, each drawn by several
// goroutines at once.
func idFirst(c *C) {
	rounds := 60
	if c.Mode == Real {
		rounds = 1000
	}
	for k := 0; k < rounds; k++ {
		mode := []id.Mode{id.Even, id.Odd, id.Odd, id.Inc, id.Unique}[c.N(5)]
		f := id.NewIDCounter(mode)
		got := make([]uint64, c.Range(2, 6))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range got {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; got[i] = f.GetID() }()
		}
		close(start)
		wg.Wait()
		seen := map[uint64]bool{}
		for _, x := range got {
			if mode == id.Even && x%2 != 0 || mode == id.Odd && x%2 != 1 {
				c.Violate("parity", "%s factory drew %#x among its first, by %d goroutines at once", mode, x, len(got))
				return
			}
			if seen[x] {
				c.Violate("dup", "%s factory drew %#x twice among its first, by %d goroutines at once", mode, x, len(got))
				return
			}
			seen[x] = true
		}
		c.Ev("first_draws", mode, len(got))
	}
}

func idUniqueSeq(c *C) {
	f := id.NewIDCounter(id.Unique)
	held := map[uint64]bool{}
	var list []uint64
	r := c.Sub()
	for i := 0; i < 600; i++ {
		switch r.IntN(5) {
		case 0:
			x := uint64(1 + r.IntN(60))
			if r.IntN(5) == 0 {
				x = anyU64(r)
			}
			f.ReserveID(x)
			if !held[x] {
				held[x] = true
				list = append(list, x)
			}
			c.Ev("reserved", x)
		case 1, 2:
			if len(list) > 0 && r.IntN(2) == 0 {
				j := r.IntN(len(list))
				x := list[j]
				list = append(list[:j], list[j+1:]...)
				delete(held, x)
				f.DelID(x)
				c.Ev("released", x)
			} else { // releasing what is not held changes nothing
				x := uint64(1000 + r.IntN(60))
				if !held[x] {
					f.DelID(x)
				}
			}
		default:
			var x uint64
			if r.IntN(3) == 0 {
				x, _ = f.GetIDByMeta(nil)
			} else {
				x = f.GetID()
			}
			if held[x] || x == 0 {
				c.Violate("unique-held", "unique factory handed out %d while it is held (%d held)", x, len(held))
				return
			}
			held[x] = true
			list = append(list, x)
			c.Ev("drawn", x)
		}
	}
}

func idUniqueMT(c *C) {
	f := id.NewIDCounter(id.Unique)
	for i := 0; i < 20; i++ {
		f.ReserveID(uint64(5 * i))
	}
	var mu vsync.Quiet
	held := map[uint64]int{}
	g := c.Pick(2, 8, 24)
	var fns []func()
	for i := 0; i < g; i++ {
		r := c.Sub()
		fns = append(fns, func() {
			var mine []uint64
			for j := 0; j < 400; j++ {
				if len(mine) > 0 && r.IntN(5) < 2 {
					x := mine[len(mine)-1]
					mine = mine[:len(mine)-1]
					mu.Lock()
					delete(held, x)
					mu.Unlock()
					f.DelID(x)
				} else {
					x := f.GetID()
					mu.Lock()
					o, dup := held[x]
					held[x] = i
					mu.Unlock()
					if dup {
						c.Violate("unique-held", "identifier %d held by goroutine %d was handed to %d", x, o, i)
						return
					}
					if x%5 == 0 && x < 100 {
						c.Violate("unique-reserved", "reserved identifier %d was handed out", x)
						return
					}
					mine = append(mine, x)
				}
			}
			c.Ev("drawer_done", i, len(mine))
		})
	}
	c.All("drawing", fns...)
}
