package state

import (
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
)

// vvRun is what a scripted protocol records.
type vvRun struct {
	types   []messages.MessageType
	self    party.ID
	ids     party.IDSlice
	failMsg map[*messages.Message]bool // processing these is an error
	failGen map[int]bool               // generating in these rounds is an error
	got     [][]*messages.Message
	gen     []int
	out     [][]*messages.Message
	errs    []*Error
	resets  int
	bad     string
}

type vvRound struct {
	run *vvRun
	k   int
}

func (r *vvRound) SelfID() party.ID           { return r.run.self }
func (r *vvRound) PartyIDs() party.IDSlice    { return r.run.ids }
func (r *vvRound) Reset()                     { r.run.resets++ }
func (r *vvRound) AcceptedMessageTypes() []messages.MessageType { return r.run.types }
func (r *vvRound) ProcessMessage(m *messages.Message) *Error {
	if r.run.gen[r.k] > 0 {
		r.run.bad = fmt.Sprintf("round %d processes a message after generating", r.k)
	}
	if r.k == 0 {
		if m != nil {
			r.run.bad = "first round got a message"
		}
		return nil
	}
	r.run.got[r.k] = append(r.run.got[r.k], m)
	if r.run.failMsg[m] {
		e := NewError(m.From, errors.New("scripted"))
		r.run.errs = append(r.run.errs, e)
		return e
	}
	return nil
}
func (r *vvRound) GenerateMessages() ([]*messages.Message, *Error) {
	r.run.gen[r.k]++
	if r.run.failGen[r.k] {
		e := NewError(0, errors.New("scripted"))
		r.run.errs = append(r.run.errs, e)
		return []*messages.Message{{}}, e
	}
	o := []*messages.Message{{Header: messages.Header{From: r.run.self}}}
	r.run.out[r.k] = o
	return o, nil
}
func (r *vvRound) NextRound() Round {
	if r.k+1 == len(r.run.types) {
		return nil
	}
	return &vvRound{r.run, r.k + 1}
}

func vvMsg(t messages.MessageType, from, to party.ID) *messages.Message {
	m := &messages.Message{Header: messages.Header{Type: t, From: from, To: to}}
	switch t {
	case messages.MessageTypeKeyGen1:
		m.KeyGen1 = &messages.KeyGen1{}
	case messages.MessageTypeKeyGen2:
		m.KeyGen2 = &messages.KeyGen2{}
	case messages.MessageTypeSign1:
		m.Sign1 = &messages.Sign1{}
	case messages.MessageTypeSign2:
		m.Sign2 = &messages.Sign2{}
	}
	return m
}

// vvModel is a session as specified.
type vvModel struct {
	round int
	done  bool
	err   *Error
	have  []map[party.ID]*messages.Message // by round
}

// vvHistory runs one random history and compares the session with the model after every step.
func vvHistory(h *zzvv.H) {
	n := 2 + h.R.Intn(4)
	var ids party.IDSlice
	for _, id := range h.IDs(n) {
		ids = append(ids, party.ID(id))
	}
	typeSets := [][]messages.MessageType{{0, 1, 2}, {0, 3, 4}, {0, 1}, {0}, {0, 1, 2, 3, 4}}
	run := &vvRun{types: typeSets[h.R.Intn(len(typeSets))], ids: ids, self: ids[h.R.Intn(n)], failMsg: map[*messages.Message]bool{}, failGen: map[int]bool{}}
	R := len(run.types)
	run.got, run.gen, run.out = make([][]*messages.Message, R), make([]int, R), make([][]*messages.Message, R)
	if h.R.Intn(4) == 0 {
		run.failGen[h.R.Intn(R)] = true
	}
	s, err := NewBaseState(&vvRound{run, 0}, 0)
	if err != nil {
		h.Fail("NewBaseState: %v", err)
		return
	}
	m := &vvModel{}
	for i := 0; i < R; i++ {
		m.have = append(m.have, map[party.ID]*messages.Message{})
	}
	var log []string
	note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	desc := func() string {
		return fmt.Sprintf("parties %v self %d types %v history [%s]", ids, run.self, run.types, strings.Join(log, "; "))
	}
	kind := func(t messages.MessageType) int {
		for k, u := range run.types {
			if u == t {
				return k
			}
		}
		return -1
	}
	others := []party.ID{}
	for _, id := range ids {
		if id != run.self {
			others = append(others, id)
		}
	}
	var firstErr error
	check := func() bool {
		ok := h.Check(run.bad == "", "%s: %s", desc(), run.bad) &&
			h.Check(s.IsFinished() == m.done, "%s: finished is %v, should be %v", desc(), s.IsFinished(), m.done)
		closed := false
		select {
		case <-s.Done():
			closed = true
		default:
		}
		ok = ok && h.Check(closed == m.done, "%s: done channel closed is %v, should be %v", desc(), closed, m.done)
		e := s.Err()
		if m.err == nil {
			ok = ok && h.Check(e == nil, "%s: error %v, should be none", desc(), e)
		} else {
			ok = ok && h.Check(e == error(m.err), "%s: error %v, should be %v", desc(), e, m.err)
		}
		if firstErr != nil {
			ok = ok && h.Check(e == firstErr, "%s: the error changed from %v to %v", desc(), firstErr, e)
		}
		firstErr = e
		if m.done {
			ok = ok && h.Check(run.resets == 1, "%s: round reset %d times", desc(), run.resets)
		} else {
			ok = ok && h.Check(run.resets == 0, "%s: round reset before the end", desc())
		}
		return ok
	}
	steps := 6 + h.R.Intn(30)
	for k := 0; k < steps && !h.Failed(); k++ {
		switch p := h.R.Intn(10); {
		case p == 0: // timeout
			if h.R.Intn(4) > 0 {
				continue
			}
			note("timeout")
			e := NewError(0, errors.New("message timeout"))
			s.mtx.Lock()
			s.reportError(e)
			s.mtx.Unlock()
			if !m.done {
				m.done, m.err = true, e
			}
		case p < 4:
			note("process")
			var out []*messages.Message
			if !h.Catch(desc(), func() { out = s.ProcessAll() }) {
				return
			}
			full := !m.done && (m.round == 0 || len(m.have[m.round]) == n-1)
			if !full {
				h.Check(out == nil, "%s: messages from an incomplete or finished session", desc())
				break
			}
			r := m.round
			want := 0
			seen := map[party.ID]int{}
			failed := false
			for _, g := range run.got[r] {
				if g == nil {
					h.Fail("%s: a nil message was processed", desc())
					return
				}
				seen[g.From]++
				if !h.Check(m.have[r][g.From] == g, "%s: round %d processed a message that was not admitted for it", desc(), r) {
					return
				}
				failed = failed || run.failMsg[g]
			}
			for id, c := range seen {
				h.Check(c == 1, "%s: the message of %d was processed %d times", desc(), id, c)
			}
			if r > 0 {
				want = n - 1
			}
			anyFail := false
			for _, g := range m.have[r] {
				anyFail = anyFail || run.failMsg[g]
			}
			h.Check(failed == anyFail, "%s: a failing message was not processed", desc())
			if failed {
				h.Check(len(out) == 0 && run.gen[r] == 0, "%s: the session went on after an error", desc())
				if !h.Check(len(run.errs) == 1, "%s: processing went on after an error", desc()) {
					return
				}
				m.done, m.err = true, run.errs[0]
				h.Check(m.err.RoundNumber == r, "%s: error reported for round %d", desc(), m.err.RoundNumber)
				break
			}
			h.Check(len(run.got[r]) == want, "%s: round %d processed %d messages of %d", desc(), r, len(run.got[r]), want)
			h.Check(run.gen[r] == 1, "%s: round %d generated %d times", desc(), r, run.gen[r])
			if run.failGen[r] {
				h.Check(len(out) == 0, "%s: messages after an error", desc())
				m.done, m.err = true, run.errs[0]
				break
			}
			h.Check(len(out) == 1 && out[0] == run.out[r][0], "%s: the output of round %d got lost", desc(), r)
			if r+1 == R {
				m.done = true
			} else {
				m.round++
			}
		default:
			t := messages.MessageType(h.R.Intn(6))
			if h.R.Intn(3) > 0 {
				t = run.types[h.R.Intn(R)]
			}
			from := others[h.R.Intn(len(others))]
			if h.R.Intn(8) == 0 {
				from = run.self
			} else if h.R.Intn(8) == 0 {
				from = party.ID(h.R.Intn(1 << 16))
			}
			to := party.ID(0)
			if h.R.Intn(3) == 0 {
				to = run.self
			} else if h.R.Intn(8) == 0 {
				to = party.ID(h.R.Intn(1 << 16))
			}
			if h.R.Intn(3) == 0 && !m.done && m.round > 0 {
				t, to = run.types[m.round], 0
			}
			msg := vvMsg(t, from, to)
			if h.R.Intn(20) == 0 {
				run.failMsg[msg] = true
			}
			note("message type %d from %d to %d", t, from, to)
			var err error
			if !h.Catch(desc(), func() { err = s.HandleMessage(msg) }) {
				return
			}
			member := false
			for _, id := range ids {
				member = member || id == from
			}
			q := kind(t)
			switch {
			case m.done:
				h.Check(err != nil, "%s: a finished session accepts", desc())
			case from == run.self || to != 0 && to != run.self:
				h.Check(err == nil, "%s: not for us, but error %v", desc(), err)
			case !member || q < m.round || q == 0 || m.have[q][from] != nil:
				h.Check(err != nil, "%s: accepted", desc())
			default:
				h.Check(err == nil, "%s: refused: %v", desc(), err)
				m.have[q][from] = msg
			}
		}
		if !check() {
			return
		}
	}
	// complete the session: what was admitted early is used in its round
	for !m.done && !h.Failed() {
		if m.round > 0 {
			for _, id := range others {
				msg := vvMsg(run.types[m.round], id, 0)
				err := s.HandleMessage(msg)
				note("message type %d from %d to 0", msg.Type, id)
				if m.have[m.round][id] == nil {
					h.Check(err == nil, "%s: refused: %v", desc(), err)
					m.have[m.round][id] = msg
				} else {
					h.Check(err != nil, "%s: a second message accepted", desc())
				}
			}
		}
		r := m.round
		note("process")
		if !h.Catch(desc(), func() { s.ProcessAll() }) {
			return
		}
		fail := run.failGen[r]
		for _, g := range m.have[r] {
			fail = fail || run.failMsg[g]
		}
		for _, g := range run.got[r] {
			h.Check(g != nil && m.have[r][g.From] == g, "%s: round %d processed the wrong message", desc(), r)
		}
		if fail {
			h.Check(len(run.errs) == 1, "%s: %d errors", desc(), len(run.errs))
			if len(run.errs) > 0 {
				m.done, m.err = true, run.errs[0]
			}
		} else {
			h.Check(r == 0 || len(run.got[r]) == n-1, "%s: round %d processed %d messages", desc(), r, len(run.got[r]))
			if r+1 == R {
				m.done = true
			} else {
				m.round++
			}
		}
		if !check() {
			return
		}
	}
	h.Sample("%s", desc())
	h.Case(m.round > 0)
}

func TestVVHistories(t *testing.T) {
	h := zzvv.New(t)
	for k := 0; k < h.N(3000) && !h.Failed(); k++ {
		vvHistory(h)
	}
}

// the timer ends an idle session with an error, once
func TestVVTimer(t *testing.T) {
	h := zzvv.New(t)
	run := &vvRun{types: []messages.MessageType{0, 1}, ids: party.IDSlice{1, 2}, self: 1, got: make([][]*messages.Message, 2), gen: make([]int, 2), out: make([][]*messages.Message, 2)}
	s, _ := NewBaseState(&vvRound{run, 0}, 5*time.Millisecond)
	select {
	case <-s.Done():
	case <-time.After(20 * time.Second):
		h.Fail("the timer did not end the session")
		return
	}
	e := s.WaitForError()
	h.Check(e != nil && s.IsFinished() && run.resets == 1, "after the timeout: error %v, finished %v, %d resets", e, s.IsFinished(), run.resets)
	h.Check(s.ProcessAll() == nil && s.HandleMessage(vvMsg(1, 2, 0)) != nil && s.Err() == e, "a session goes on after its timeout")
	h.Case(true)
}
