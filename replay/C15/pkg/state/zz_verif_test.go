package state

import (
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
)

// vvRun is what a scripted protocol records.
type vvRun struct {
	types   []messages.MessageType
	self    party.ID
	ids     party.IDSlice
	failMsg map[*messages.Message]bool // processing these is an error
	failGen map[int]bool               // generating in these rounds is an error
	got     [][]*messages.Message
	gen     []int
	out     [][]*messages.Message
	errs    []*Error
	resets  int
	bad     string
}

type vvRound struct {
	run *vvRun
	k   int
}

func (r *vvRound) SelfID() party.ID           { return r.run.self }
func (r *vvRound) PartyIDs() party.IDSlice    { return r.run.ids }
func (r *vvRound) Reset()                     { r.run.resets++ }
func (r *vvRound) AcceptedMessageTypes() []messages.MessageType { return r.run.types }
func (r *vvRound) ProcessMessage(m *messages.Message) *Error {
	if r.run.gen[r.k] > 0 {
		r.run.bad = fmt.Sprintf("round %d processes a message after generating", r.k)
	}
	if r.k == 0 {
		if m != nil {
			r.run.bad = "first round got a message"
		}
		return nil
	}
	r.run.got[r.k] = append(r.run.got[r.k], m)
	if r.run.failMsg[m] {
		e := NewError(m.From, errors.New("scripted"))
		r.run.errs = append(r.run.errs, e)
		return e
	}
	return nil
}
func (r *vvRound) GenerateMessages() ([]*messages.Message, *Error) {
	r.run.gen[r.k]++
	if r.run.failGen[r.k] {
		e := NewError(0, errors.New("scripted"))
		r.run.errs = append(r.run.errs, e)
		return []*messages.Message{{}}, e
	}
	o := []*messages.Message{{Header: messages.Header{From: r.run.self}}}
	r.run.out[r.k] = o
	return o, nil
}
func (r *vvRound) NextRound() Round {
	if r.k+1 == len(r.run.types) {
		return nil
	}
	return &vvRound{r.run, r.k + 1}
}

func vvMsg(t messages.MessageType, from, to party.ID) *messages.Message {
	m := &messages.Message{Header: messages.Header{Type: t, From: from, To: to}}
	switch t {
	case messages.MessageTypeKeyGen1:
		m.KeyGen1 = &messages.KeyGen1{}
	case messages.MessageTypeKeyGen2:
		m.KeyGen2 = &messages.KeyGen2{}
	case messages.MessageTypeSign1:
		m.Sign1 = &messages.Sign1{}
	case messages.MessageTypeSign2:
		m.Sign2 = &messages.Sign2{}
	}
	return m
}

// vvHistory runs one random history; once the session is over, the round must have been reset.
func vvHistory(h *zzvv.H) {
	n := 2 + h.R.Intn(4)
	var ids party.IDSlice
	for _, id := range h.IDs(n) {
		ids = append(ids, party.ID(id))
	}
	typeSets := [][]messages.MessageType{{0, 1, 2}, {0, 3, 4}, {0, 1}, {0}}
	run := &vvRun{types: typeSets[h.R.Intn(len(typeSets))], ids: ids, self: ids[h.R.Intn(n)], failMsg: map[*messages.Message]bool{}, failGen: map[int]bool{}}
	R := len(run.types)
	run.got, run.gen, run.out = make([][]*messages.Message, R), make([]int, R), make([][]*messages.Message, R)
	if h.R.Intn(3) == 0 {
		run.failGen[h.R.Intn(R)] = true
	}
	s, err := NewBaseState(&vvRound{run, 0}, 0)
	if err != nil {
		return
	}
	var log []string
	note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	timeout := h.R.Intn(3 * R)
	bad := h.R.Intn(4 * R)
	for k := 0; k < 3*R && !s.IsFinished(); k++ {
		if k == timeout && h.R.Intn(2) == 0 {
			note("timeout")
			s.mtx.Lock()
			s.reportError(NewError(0, errors.New("message timeout")))
			s.mtx.Unlock()
			break
		}
		note("process")
		s.ProcessAll()
		r := s.roundNumber
		if r == 0 || s.IsFinished() {
			continue
		}
		for _, id := range ids {
			if id != run.self {
				m := vvMsg(run.types[r], id, 0)
				if k == bad && h.R.Intn(2) == 0 {
					note("bad message of %d in round %d", id, r)
					run.failMsg[m] = true
				}
				_ = s.HandleMessage(m)
			}
		}
		note("messages for round %d", r)
	}
	desc := fmt.Sprintf("parties %v self %d types %v history [%s]", ids, run.self, run.types, strings.Join(log, "; "))
	h.Sample("%s", desc)
	h.Case(s.IsFinished())
	if s.IsFinished() {
		h.Check(run.resets > 0, "%s: the session is over (error %v) and its round was not reset", desc, s.Err())
	}
}

func TestVVHistories(t *testing.T) {
	h := zzvv.New(t)
	for k := 0; k < h.N(3000) && !h.Failed(); k++ {
		h.Catch("session", func() { vvHistory(h) })
	}
}

func TestVVTimer(t *testing.T) {
	h := zzvv.New(t)
	run := &vvRun{types: []messages.MessageType{0, 1}, ids: party.IDSlice{1, 2}, self: 1, got: make([][]*messages.Message, 2), gen: make([]int, 2), out: make([][]*messages.Message, 2)}
	s, _ := NewBaseState(&vvRound{run, 0}, 5*time.Millisecond)
	select {
	case <-s.Done():
	case <-time.After(20 * time.Second):
		return
	}
	h.Check(s.IsFinished() && run.resets > 0, "after the timeout: finished %v, %d resets", s.IsFinished(), run.resets)
	h.Case(true)
}
