package simrt

import (
	"math"
	"sort"
)

// Decision is one recorded non-default choice.
type Decision struct {
	K string `json:"k"` // stream
	I int64  `json:"i"` // index in the stream (for "p": the absolute yield count)
	V int64  `json:"v"`
}

// Rng is splitmix64.
type Rng struct{ s uint64 }

// NewRng from a seed.
func NewRng(seed uint64) *Rng { return &Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }

// U64 next value.
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// F in [0,1).
func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

type stream struct {
	rng *Rng
	n   int64
	rep map[int64]int64
	rec []Decision
}

type decider struct {
	replay       bool
	streams      map[string]*stream
	seed         uint64
	rate         float64 // pre-emption probability per yield point
	pickP        float64 // probability of a non-FIFO pick
	stallP       float64
	lifo         bool
	maxSteps     int64
	gap          int64
	gapIsPreempt bool
	pre          []Decision // replay pre-emptions by step
	preI         int
	prng         *Rng
	preRec       []Decision
	pick         *stream
}

func newDecider(cfg Config) *decider {
	d := &decider{streams: map[string]*stream{}, seed: cfg.Seed, maxSteps: cfg.MaxSteps}
	d.replay = cfg.IsReplay
	d.prng = NewRng(cfg.Seed ^ 0xABCDEF)
	if d.replay {
		for _, x := range cfg.Replay {
			if x.K == "p" {
				d.pre = append(d.pre, x)
				continue
			}
			st := d.stream(x.K)
			st.rep[x.I] = x.V
		}
		sort.Slice(d.pre, func(i, j int) bool { return d.pre[i].I < d.pre[j].I })
	} else {
		r := NewRng(cfg.Seed ^ 0x5151)
		d.rate = []float64{0, 1.0 / 3000, 1.0 / 400, 1.0 / 60, 1.0 / 15}[r.N(5)]
		d.pickP = []float64{0, 0.15, 0.5, 1}[r.N(4)]
		d.stallP = []float64{0, 0, 0.02, 0.2}[r.N(4)]
		d.lifo = r.N(4) == 0
	}
	d.pick = d.stream("s")
	return d
}

func (d *decider) stream(k string) *stream {
	st := d.streams[k]
	if st == nil {
		st = &stream{rng: NewRng(d.seed ^ HashString(k)), rep: map[int64]int64{}}
		d.streams[k] = st
	}
	return st
}

func (d *decider) nextPreempt(step int64) int64 {
	d.gapIsPreempt = false
	if d.replay {
		for d.preI < len(d.pre) && d.pre[d.preI].I <= step {
			d.preI++
		}
		if d.preI < len(d.pre) {
			d.gapIsPreempt = true
			return d.pre[d.preI].I - step
		}
		return d.maxSteps + 1
	}
	if d.rate == 0 {
		return d.maxSteps + 1
	}
	g := int64(math.Log(1-d.prng.F())/math.Log(1-d.rate)) + 1
	if g > d.maxSteps {
		g = d.maxSteps + 1
	} else {
		d.gapIsPreempt = true
	}
	return g
}

func (d *decider) preemptKind(step int64) int64 {
	if d.replay {
		if d.preI < len(d.pre) && d.pre[d.preI].I == step {
			return d.pre[d.preI].V
		}
		return 0
	}
	var v int64
	if d.prng.F() < d.stallP {
		v = 1
	}
	d.preRec = append(d.preRec, Decision{"p", step, v})
	return v
}

func (d *decider) pickG(n int) int {
	st := d.pick
	i := st.n
	st.n++
	if d.replay {
		v := st.rep[i]
		if v < 0 || v >= int64(n) {
			return 0
		}
		return int(v)
	}
	v := 0
	if st.rng.F() < d.pickP {
		if d.lifo {
			v = n - 1
		} else {
			v = st.rng.N(n)
		}
	}
	if v != 0 {
		st.rec = append(st.rec, Decision{"s", i, int64(v)})
	}
	return v
}

func (d *decider) choose(k string, n int, draw func(r *Rng) int) int {
	st := d.stream(k)
	i := st.n
	st.n++
	if d.replay {
		v := st.rep[i]
		if v < 0 || v >= int64(n) {
			return 0
		}
		return int(v)
	}
	v := draw(st.rng)
	if v != 0 {
		st.rec = append(st.rec, Decision{k, i, int64(v)})
	}
	return v
}

func (d *decider) trace() (t []Decision) {
	if d.replay {
		return nil
	}
	t = append(t, d.preRec...)
	ks := make([]string, 0, len(d.streams))
	for k := range d.streams {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t = append(t, d.streams[k].rec...)
	}
	return
}

// Choose picks uniformly in [0,n); 0 is the default of a minimised replay.
func Choose(kind string, n int) int {
	if n <= 1 || S == nil || S.killing {
		return 0
	}
	return S.dec.choose(kind, n, func(r *Rng) int { return r.N(n) })
}

// Chance is true with probability p; false is the default.
func Chance(kind string, p float64) bool {
	if p <= 0 || S == nil || S.killing {
		return false
	}
	return S.dec.choose(kind, 2, func(r *Rng) int {
		if r.F() < p {
			return 1
		}
		return 0
	}) == 1
}

// U64 is a random value (crypto/rand, math/rand); it is not part of the minimised trace: it depends on the seed only.
func U64(kind string) uint64 {
	st := S.dec.stream(kind)
	return st.rng.U64()
}
