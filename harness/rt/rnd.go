// Package rt is the property-based-testing engine shared by all checks: a
// deterministic, recorded choice source, the case loop, shrinking of the choice
// sequence, the journal used to attribute process deaths, and the bookkeeping
// behind the evidence files.
package rt

// Rnd is the only source of choices of every generator.
type Rnd interface {
	// Int returns a value in [0,n); 0 is the simplest choice.
	Int(n int) int
	// U64 returns 64 uniformly distributed bits.
	U64() uint64
}

// splitmix64
type prng struct{ s uint64 }

func (p *prng) next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mix(a, b uint64) uint64 {
	p := prng{a ^ (b * 0xd6e8feb86659fd93)}
	p.next()
	return p.next()
}

// Source records every choice. In replay mode it plays a given sequence back
// (values out of range are clamped; a short sequence continues with zeros).
type Source struct {
	replay  bool
	in      []uint64
	pos     int
	p       prng
	Choices []uint64
	trace   func(uint64)
}

func (s *Source) draw(n uint64) uint64 { // n==0: 64 bits
	var v uint64
	if s.replay {
		if s.pos < len(s.in) {
			v = s.in[s.pos]
		}
		s.pos++
		if n > 0 && v >= n {
			v = n - 1
		}
	} else {
		v = s.p.next()
		if n > 0 {
			v %= n
		}
	}
	s.Choices = append(s.Choices, v)
	if s.trace != nil {
		s.trace(v)
	}
	return v
}

func (s *Source) Int(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.draw(uint64(n)))
}
func (s *Source) U64() uint64 { return s.draw(0) }

// NewSeeded is used where nothing is shrunk (fixture generation).
func NewSeeded(seed uint64) *Source { return &Source{p: prng{mix(seed, 77)}} }

func NewReplay(in []uint64) *Source { return &Source{replay: true, in: in} }

// Pick returns one of the arguments; the first is the simplest.
func Pick[T any](r Rnd, vs ...T) T { return vs[r.Int(len(vs))] }

// Weighted returns i with probability w[i]/sum(w).
func Weighted(r Rnd, w ...int) int {
	s := 0
	for _, x := range w {
		s += x
	}
	k := r.Int(s)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

// Chance is true with probability pct%; false is the simpler choice.
func Chance(r Rnd, pct int) bool { return r.Int(100) >= 100-pct }

// Bytes returns n bytes; short ones are drawn byte by byte, long ones derive
// from a single draw so that shrinking stays cheap.
func Bytes(r Rnd, n int) []byte {
	b := make([]byte, n)
	if n > 16 {
		s := r.U64()
		p := prng{s}
		for i := range b {
			if s == 0 {
				b[i] = 'a'
				continue
			}
			b[i] = byte(p.next())
		}
		return b
	}
	for i := range b {
		b[i] = byte(r.Int(256))
	}
	return b
}
