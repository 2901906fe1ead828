package state

import (
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
)

// vvIdle is a protocol of some rounds in which nothing can fail.
type vvIdle struct {
	self  party.ID
	ids   party.IDSlice
	types []messages.MessageType
	k     int
}

func (r *vvIdle) SelfID() party.ID                                { return r.self }
func (r *vvIdle) PartyIDs() party.IDSlice                         { return r.ids }
func (r *vvIdle) Reset()                                          {}
func (r *vvIdle) AcceptedMessageTypes() []messages.MessageType    { return r.types }
func (r *vvIdle) ProcessMessage(*messages.Message) *Error         { return nil }
func (r *vvIdle) GenerateMessages() ([]*messages.Message, *Error) { return nil, nil }
func (r *vvIdle) NextRound() Round {
	if r.k+1 == len(r.types) {
		return nil
	}
	c := *r
	c.k++
	return &c
}

func vvMsg(t messages.MessageType, from, to party.ID) *messages.Message {
	m := &messages.Message{Header: messages.Header{Type: t, From: from, To: to}}
	switch t {
	case messages.MessageTypeKeyGen1:
		m.KeyGen1 = &messages.KeyGen1{}
	case messages.MessageTypeKeyGen2:
		m.KeyGen2 = &messages.KeyGen2{}
	case messages.MessageTypeSign1:
		m.Sign1 = &messages.Sign1{}
	case messages.MessageTypeSign2:
		m.Sign2 = &messages.Sign2{}
	}
	return m
}

func vvOpen(h *zzvv.H, n int, d time.Duration) (*State, *vvIdle) {
	var ids party.IDSlice
	for _, id := range h.IDs(n) {
		ids = append(ids, party.ID(id))
	}
	r := &vvIdle{self: ids[h.R.Intn(n)], ids: ids, types: []messages.MessageType{0, 1, 2}}
	s, err := NewBaseState(r, d)
	if err != nil || s == nil {
		h.Fail("no session: %v", err)
		return nil, nil
	}
	return s, r
}

const vvLong = 20 * time.Second

func vvEnded(s *State, d time.Duration) bool {
	select {
	case <-s.Done():
		return true
	case <-time.After(d):
		return false
	}
}

// a silent session ends with an error, not before its timeout
func vvSilent(h *zzvv.H, d time.Duration, started bool) {
	t0 := time.Now()
	s, _ := vvOpen(h, 3, d)
	if s == nil {
		return
	}
	if started {
		_ = s.ProcessAll()
	}
	h.Case(true)
	if !h.Check(vvEnded(s, vvLong), "a session with timeout %v that gets no message is still running after %v", d, vvLong) {
		return
	}
	dt := time.Since(t0)
	h.Check(dt >= d, "a session with timeout %v ended after %v", d, dt)
	h.Check(s.IsFinished() && s.Err() != nil && s.WaitForError() != nil, "a session with timeout %v ended by it: finished %v, error %v", d, s.IsFinished(), s.Err())
}

// accepted messages, of this round or early ones, restart the full timeout
func vvRestart(h *zzvv.H, d time.Duration, early, started bool) {
	prev := time.Now() // not after the last restart
	s, r := vvOpen(h, 5, d)
	if s == nil {
		return
	}
	if started {
		_ = s.ProcessAll()
	}
	t := messages.MessageType(1)
	if early {
		t = 2
	}
	for _, from := range r.ids {
		if from == r.self || from == r.ids[len(r.ids)-1] {
			continue // the last one stays silent
		}
		time.Sleep(d * 6 / 10)
		now := time.Now()
		err := s.HandleMessage(vvMsg(t, from, 0))
		if time.Since(prev) > d*9/10 {
			return // this machine is too slow to tell
		}
		if !h.Check(err == nil, "timeout %v: message of %d to %d of %v refused: %v", d, from, r.self, r.ids, err) {
			return
		}
		prev = now
	}
	h.Case(true)
	if !h.Check(vvEnded(s, vvLong), "a session with timeout %v is still running %v after its last message", d, vvLong) {
		return
	}
	dt := time.Since(prev)
	h.Check(dt >= d && s.Err() != nil, "a session with timeout %v (early messages %v, first round processed %v) ended %v after the last accepted message, error %v", d, early, started, dt, s.Err())
}

// messages that are not accepted do not keep a session alive
func vvGarbage(h *zzvv.H, d time.Duration, kind int, started bool) {
	s, r := vvOpen(h, 3, d)
	if s == nil {
		return
	}
	if started {
		_ = s.ProcessAll()
	}
	var other []party.ID
	for _, id := range r.ids {
		if id != r.self {
			other = append(other, id)
		}
	}
	names := []string{"repeated message", "message from itself", "message to another", "message from a stranger", "message of another protocol", "repeated early message"}
	make1 := func() *messages.Message {
		switch kind {
		case 0:
			return vvMsg(1, other[0], 0)
		case 1:
			return vvMsg(1, r.self, 0)
		case 2:
			return vvMsg(1, other[0], other[1])
		case 3:
			x := party.ID(1)
			for r.ids.Contains(x) {
				x++
			}
			return vvMsg(1, x, 0)
		case 4:
			return vvMsg(3, other[0], 0)
		}
		return vvMsg(2, other[0], 0)
	}
	t0 := time.Now()
	for !s.IsFinished() && time.Since(t0) < vvLong/4 {
		_ = s.HandleMessage(make1())
		_ = s.ProcessAll()
		time.Sleep(time.Millisecond)
	}
	h.Case(true)
	h.Check(s.IsFinished() && s.Err() != nil, "a session with timeout %v (first round processed %v) that gets nothing new but a %s every millisecond runs for %v: finished %v, error %v", d, started, names[kind], time.Since(t0), s.IsFinished(), s.Err())
}

// without a timeout a session waits
func vvForever(h *zzvv.H, d time.Duration) {
	s, _ := vvOpen(h, 3, d)
	if s == nil {
		return
	}
	h.Case(true)
	h.Check(!vvEnded(s, 300*time.Millisecond), "a session with timeout %v ended on its own: %v", d, s.Err())
}

func TestVVTimeout(t *testing.T) {
	h := zzvv.New(t)
	h.Sample("sessions with timeouts of 20ms to 400ms: silent, fed accepted messages, fed unacceptable ones; sessions without")
	var jobs []func(*zzvv.H)
	add := func(f func(*zzvv.H)) { jobs = append(jobs, f) }
	for rep := 0; rep < h.N(1); rep++ {
		for _, d := range []int{1, 20, 150} {
			for _, st := range []bool{false, true} {
				d, st := time.Duration(d)*time.Millisecond, st
				add(func(h *zzvv.H) { vvSilent(h, d, st) })
			}
		}
		for _, d := range []int{200, 400} {
			for _, early := range []bool{false, true} {
				for _, st := range []bool{false, true} {
					d, early, st := time.Duration(d)*time.Millisecond, early, st
					add(func(h *zzvv.H) { vvRestart(h, d, early, st) })
				}
			}
		}
		for kind := 0; kind < 6; kind++ {
			for _, st := range []bool{false, true} {
				kind, st := kind, st
				add(func(h *zzvv.H) { vvGarbage(h, 60*time.Millisecond, kind, st) })
			}
		}
		for _, d := range []time.Duration{0, -1} {
			d := d
			add(func(h *zzvv.H) { vvForever(h, d) })
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 6)
	for _, j := range jobs {
		j := j
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			mu.Lock()
			sub := &zzvv.H{T: h.T, R: rand.New(rand.NewSource(h.R.Int63()))}
			mu.Unlock()
			sub.Catch("session with a timeout", func() { j(sub) })
			mu.Lock()
			h.Evals += sub.Evals
			h.Nontriv += sub.Nontriv
			mu.Unlock()
		}()
	}
	wg.Wait()
}
