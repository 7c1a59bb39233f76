package simrt

// A Stream is one source of choices of a run. In generating mode every drawn
// value comes from a seeded PRNG and the non-zero ones are recorded by index;
// in replay mode the recorded values are handed out again and everything else
// is zero. Zero is always the simplest choice (stay on the current task, no
// fault, first map order), so deleting recorded entries simplifies a run.
type Stream struct {
	gen  bool
	rng  uint64
	idx  uint64
	Rec  []Entry
	rpos int
}

// Entry is one recorded non-zero choice.
type Entry struct {
	I uint64 `json:"i"`
	V uint64 `json:"v"`
}

// NewGen makes a generating stream.
func NewGen(seed uint64) *Stream {
	return &Stream{gen: true, rng: seed, Rec: make([]Entry, 0, 256)}
}

// NewReplay makes a replaying stream.
func NewReplay(rec []Entry) *Stream { return &Stream{Rec: rec} }

// Mix is splitmix64's output function.
//
//go:norace
func Mix(z uint64) uint64 {
	z ^= z >> 30
	z *= 0xbf58476d1ce4e5b9
	z ^= z >> 27
	z *= 0x94d049bb133111eb
	z ^= z >> 31
	return z
}

//go:norace
func (s *Stream) raw() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	return Mix(s.rng)
}

// Generating tells whether values come from the PRNG.
//
//go:norace
func (s *Stream) Generating() bool { return s.gen }

//go:norace
func (s *Stream) put(v uint64) {
	if v != 0 {
		s.Rec = append(s.Rec, Entry{s.idx, v})
	}
	s.idx++
}

//go:norace
func (s *Stream) take(n uint64) uint64 {
	i := s.idx
	s.idx++
	for s.rpos < len(s.Rec) && s.Rec[s.rpos].I < i {
		s.rpos++
	}
	if s.rpos < len(s.Rec) && s.Rec[s.rpos].I == i {
		v := s.Rec[s.rpos].V
		s.rpos++
		if n > 0 {
			v %= n
		}
		return v
	}
	return 0
}

// Intn draws uniformly from [0,n).
//
//go:norace
func (s *Stream) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	if s.gen {
		v := s.raw() % uint64(n)
		s.put(v)
		return int(v)
	}
	return int(s.take(uint64(n)))
}

// OneIn is true with probability num/den.
//
//go:norace
func (s *Stream) Chance(num, den int) bool {
	if s.gen {
		var v uint64
		if s.raw()%uint64(den) < uint64(num) {
			v = 1
		}
		s.put(v)
		return v == 1
	}
	return s.take(2) == 1
}

// force records a value chosen by a policy (generating mode only) or replays it.
//
//go:norace
func (s *Stream) forced(policy func() uint64, n uint64) uint64 {
	if s.gen {
		v := policy()
		s.put(v)
		return v
	}
	return s.take(n)
}

// Count is the number of draws so far.
//
//go:norace
func (s *Stream) Count() uint64 { return s.idx }
