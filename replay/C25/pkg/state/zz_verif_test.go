package state

import (
	"sync"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
)

type vvConc struct {
	*BaseRound
	k, n    int
	entered int
	got     *[3]int
	bad     *string
}

func (r *vvConc) enter() func() {
	r.entered++
	if r.entered != 1 {
		*r.bad = "two goroutines are in the round at once"
	}
	return func() { r.entered-- }
}
func (r *vvConc) ProcessMessage(m *messages.Message) *Error {
	defer r.enter()()
	if r.k > 0 {
		r.got[r.k]++
	}
	return nil
}
func (r *vvConc) GenerateMessages() ([]*messages.Message, *Error) {
	defer r.enter()()
	if r.k > 0 && r.got[r.k] != r.n-1 {
		*r.bad = "a round went on without all messages"
	}
	return nil, nil
}
func (r *vvConc) NextRound() Round {
	if r.k == 2 {
		return nil
	}
	return &vvConc{BaseRound: r.BaseRound, k: r.k + 1, n: r.n, got: r.got, bad: r.bad}
}
func (r *vvConc) AcceptedMessageTypes() []messages.MessageType { return []messages.MessageType{0, 1, 2} }
func (r *vvConc) Reset()                                      {}

// several goroutines deliver all messages, each twice, and drive the session
func TestVVGoroutines(t *testing.T) {
	h := zzvv.New(t)
	for k := 0; k < h.N(150) && !h.Failed(); k++ {
		n := 3 + h.R.Intn(6)
		var ids party.IDSlice
		for i := 1; i <= n; i++ {
			ids = append(ids, party.ID(i))
		}
		b, _ := NewBaseRound(1, ids)
		var bad string
		got := [3]int{}
		timeout := time.Duration(0)
		if h.R.Intn(2) == 0 {
			timeout = time.Duration(h.R.Intn(200)) * time.Microsecond
		}
		s, err := NewBaseState(&vvConc{BaseRound: b, n: n, got: &got, bad: &bad}, timeout)
		if err != nil {
			h.Fail("%v", err)
			return
		}
		var wg sync.WaitGroup
		accepted := make([]int, 4)
		for g := 0; g < 4; g++ {
			g := g
			order := h.R.Perm(2 * (n - 1))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range order {
					typ := messages.MessageType(1 + o%2)
					if s.HandleMessage(&messages.Message{Header: messages.Header{Type: typ, From: party.ID(2 + o/2)}}) == nil {
						accepted[g]++
					}
					s.ProcessAll()
					s.IsFinished()
					s.Err()
				}
			}()
		}
		fin := make(chan bool)
		go func() { wg.Wait(); fin <- true }()
		select {
		case <-fin:
		case <-time.After(30 * time.Second):
			h.Fail("%d parties, timeout %v: deadlock", n, timeout)
			return
		}
		for i := 0; i < 3; i++ {
			s.ProcessAll()
		}
		s.mtx.Lock()
		why := bad
		s.mtx.Unlock()
		h.Check(why == "", "%d parties, timeout %v: %s", n, timeout, why)
		total := accepted[0] + accepted[1] + accepted[2] + accepted[3]
		if s.Err() == nil {
			h.Check(s.IsFinished() && total == 2*(n-1) && got[1] == n-1 && got[2] == n-1, "%d parties: finished %v, %d of %d messages accepted, processed %v", n, s.IsFinished(), total, 2*(n-1), got)
		} else {
			h.Check(timeout > 0 && total <= 2*(n-1), "%d parties, timeout %v: error %v with %d messages accepted", n, timeout, s.Err(), total)
		}
		h.Sample("%d parties, timeout %v: %d accepted, error %v", n, timeout, total, s.Err())
		h.Case(true)
	}
}
