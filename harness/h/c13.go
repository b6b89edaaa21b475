package h

import (
	"github.com/bodgit/sevenzip/internal/pool"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// pooled is a stream as the pool sees it.
type pooled struct {
	off    int64
	closed int
}

func (p *pooled) Read([]byte) (int, error)       { nd.Fail("the pool reads a stream"); return 0, nil }
func (p *pooled) Seek(int64, int) (int64, error) { nd.Fail("the pool seeks a stream"); return 0, nil }
func (p *pooled) Size() int64                    { return 1 << 62 }
func (p *pooled) Close() error                   { p.closed++; return nil }

// poolHistory runs steps arbitrary operations against a pool and compares each
// with the specification.
func poolHistory(cpus, steps int) {
	nd.SetNumCPU(cpus)
	pl, err := pool.NewPool()
	if err != nil {
		nd.Fail("no pool")
	}
	var held []*pooled // least recently added first
	var all []*pooled
	for k := 0; k < steps; k++ {
		off := nd.I64()
		nd.Assume(off >= 0)
		if nd.Choose(2) == 0 {
			s := &pooled{off: off}
			all = append(all, s)
			dup := -1
			for i, h := range held {
				if h.off == off {
					dup = i
				}
			}
			_, err := pl.Put(off, s)
			nd.Assert(err == nil, "adding a stream fails")
			if dup >= 0 && s.closed > 0 {
				// one stream per offset: the new one is not kept
				nd.Cover("duplicate")
			} else {
				if dup >= 0 {
					nd.Assert(held[dup].closed == 1, "a stream that is not kept is not closed exactly once")
					held = append(append([]*pooled(nil), held[:dup]...), held[dup+1:]...)
				}
				held = append(held, s)
				if len(held) > cpus {
					nd.Assert(held[0].closed == 1, "the least recently added stream is not closed on overflow")
					held = held[1:]
					nd.Cover("evicted")
				}
			}
		} else {
			rc, ok := pl.Get(off)
			best := -1
			for i, h := range held {
				if h.off <= off && (best < 0 || h.off > held[best].off) {
					best = i
				}
			}
			if best < 0 {
				nd.Assert(!ok && rc == nil, "a stream past the requested offset is handed out")
				nd.Cover("none")
			} else {
				nd.Assert(ok && rc != nil, "an available stream is not handed out")
				nd.Assert(rc == held[best], "another stream than the closest is handed out")
				held = append(append([]*pooled(nil), held[:best]...), held[best+1:]...)
				nd.Cover("reused")
			}
		}
		for _, h := range held {
			nd.Assert(h.closed == 0, "a stream the pool still holds is closed")
		}
		for _, s := range all {
			nd.Assert(s.closed <= 1, "a stream is closed twice")
		}
	}
	// everything still held comes out again, and nothing else
	for range held {
		rc, ok := pl.Get(1<<63 - 1)
		nd.Assert(ok && rc != nil, "a stream is lost")
		nd.Assert(rc.(*pooled).closed == 0, "a closed stream is handed out")
		found := false
		for i, h := range held {
			if rc == h {
				held = append(append([]*pooled(nil), held[:i]...), held[i+1:]...)
				found = true
				break
			}
		}
		nd.Assert(found, "a stream is handed out twice")
	}
	rc, ok := pl.Get(1<<63 - 1)
	nd.Assert(!ok && rc == nil, "a stream is handed out twice or a stranger is")
}

//verif: prop=C13 budget=100
//bounds: 1..3 CPUs, every history of 5 (thorough 6) operations, each adding a new stream at or asking for any of the 2^63 offsets
func H_C13_history() {
	poolHistory(1+nd.Choose(3), nd.Pick(5, 6))
	nd.Cover("checked")
}

//verif: prop=C13 budget=60
//bounds: 1..8 CPUs: 11 streams added at ascending, descending or interleaved offsets, one requested at any offset, one more added at any offset
func H_C13_many() {
	cpus := 1 + nd.Choose(8)
	nd.SetNumCPU(cpus)
	pl, _ := pool.NewPool()
	order := nd.Choose(3)
	var all []*pooled
	n := 11
	for i := 0; i < n; i++ {
		o := i
		switch order {
		case 1:
			o = n - i
		case 2:
			o = i * 7 % n
		}
		s := &pooled{off: int64(o) * 10}
		all = append(all, s)
		_, err := pl.Put(s.off, s)
		nd.Assert(err == nil, "adding a stream fails")
		for j, t := range all {
			if i-j >= cpus {
				nd.Assert(t.closed == 1, "an overflowing stream is not closed exactly once")
			} else {
				nd.Assert(t.closed == 0, "a stream the pool holds is closed")
			}
		}
	}
	held := all[n-cpus:]
	off := nd.I64()
	nd.Assume(off >= 0)
	rc, _ := pl.Get(off)
	best := -1
	for i, h := range held {
		if h.off <= off && (best < 0 || h.off > held[best].off) {
			best = i
		}
	}
	if best < 0 {
		nd.Assert(rc == nil, "a stream past the requested offset is handed out")
		nd.Cover("none")
		return
	}
	nd.Assert(rc == held[best], "another stream than the closest is handed out")
	nd.Assert(held[best].closed == 0, "a closed stream is handed out")
	nd.Cover("reused")
}

//verif: prop=C13 budget=60
//bounds: the pool of folders with at most one member: any offset, 1..3 operations
func H_C13_noop() {
	pl, err := pool.NewNoopPool()
	if err != nil {
		nd.Fail("no pool")
	}
	for k := 1 + nd.Choose(3); k > 0; k-- {
		if nd.Choose(2) == 0 {
			s := &pooled{}
			_, err := pl.Put(nd.I64(), s)
			nd.Assert(err == nil && s.closed == 1, "a stream that is not kept is not closed exactly once")
		} else {
			rc, ok := pl.Get(nd.I64())
			nd.Assert(rc == nil && !ok, "a stream is handed out")
		}
	}
	nd.Cover("checked")
}
