package eddsa

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

func vvScalar(x *big.Int) *ristretto.Scalar { return zzvv.Scalar(x) }

func vvElement(x *big.Int) *ristretto.Element {
	e := ristretto.NewIdentityElement()
	if _, err := e.SetCanonicalBytes(zzvv.Base(x).EncodeR()); err != nil {
		panic(err)
	}
	return e
}

func vvEdges(h *zzvv.H) []*big.Int {
	sub := func(k int64) *big.Int { return new(big.Int).Sub(zzvv.L, zzvv.I(k)) }
	return []*big.Int{zzvv.I(0), zzvv.I(1), sub(1), zzvv.I(255), h.RandScalar(), h.RandScalar()}
}

func vvShareIs(h *zzvv.H, what string, sk *SecretShare, id int64, s *big.Int) {
	h.Check(int64(sk.ID) == id, "%s: ID %d, want %d", what, sk.ID, id)
	h.Check(zzvv.Big(&sk.Secret).Cmp(s) == 0, "%s: secret %x, want %x", what, sk.Secret.Bytes(), zzvv.ToLE(s, 32))
	want := zzvv.Base(s).EncodeR()
	h.Check(bytes.Equal(sk.Public.Bytes(), want), "%s: public %x, want %x", what, sk.Public.Bytes(), want)
}

func TestVVSecretShare(t *testing.T) {
	h := zzvv.New(t)
	ids := []int64{0, 1, 2, 255, 256, 257, 4660, 65534, 65535}
	for k := 0; k < h.N(6) && !h.Failed(); k++ {
		for _, id := range ids {
			for _, s := range vvEdges(h) {
				h.Case(true)
				h.Sample("id %d secret %x", id, s)
				h.Catch("SecretShare", func() {
					sk := NewSecretShare(party.ID(id), vvScalar(s))
					vvShareIs(h, "NewSecretShare", sk, id, s)
					b, err := sk.MarshalBinary()
					wantB := zzvv.Cat(zzvv.BE16(int(id)), zzvv.ToLE(s, 32))
					h.Check(err == nil && bytes.Equal(b, wantB), "MarshalBinary(%d, %x) = %x %v, want %x", id, s, b, err, wantB)
					// decoding into a used share
					used := NewSecretShare(77, vvScalar(zzvv.I(5)))
					if h.Check(used.UnmarshalBinary(wantB) == nil, "UnmarshalBinary(%x) refused", wantB) {
						vvShareIs(h, "UnmarshalBinary", used, id, s)
						h.Check(used.Equal(sk) && sk.Equal(used), "decoded share is not Equal")
					}
					j, err := json.Marshal(sk)
					h.Check(err == nil, "MarshalJSON: %v", err)
					used = NewSecretShare(77, vvScalar(zzvv.I(5)))
					if h.Check(json.Unmarshal(j, used) == nil, "JSON %s refused", j) {
						vvShareIs(h, "UnmarshalJSON", used, id, s)
					}
				})
			}
		}
		s := h.RandScalar()
		// sizes and non-canonical scalars
		good := zzvv.Cat(zzvv.BE16(9), zzvv.ToLE(s, 32))
		bad := [][]byte{nil, {}, good[:33], append(append([]byte{}, good...), 0), good[:2]}
		for _, v := range []*big.Int{zzvv.L, new(big.Int).Add(zzvv.L, zzvv.I(1)), new(big.Int).Add(zzvv.L, s), new(big.Int).Sub(new(big.Int).Lsh(zzvv.One, 256), zzvv.I(1))} {
			bad = append(bad, zzvv.Cat(zzvv.BE16(9), zzvv.ToLE(v, 32)))
		}
		for _, b := range bad {
			h.Case(true)
			h.Catch("UnmarshalBinary", func() {
				var sk SecretShare
				h.Check(sk.UnmarshalBinary(b) != nil, "SecretShare.UnmarshalBinary accepted %x", b)
			})
		}
		// JSON
		enc := func(b []byte) string { return `"` + base64.StdEncoding.EncodeToString(b) + `"` }
		ok := enc(zzvv.ToLE(s, 32))
		docs := []string{
			`{"id":65536,"secret":` + ok + `}`, `{"id":-1,"secret":` + ok + `}`, `{"id":131072,"secret":` + ok + `}`, `{"id":4294967297,"secret":` + ok + `}`,
			`{"id":1.5,"secret":` + ok + `}`, `{"id":"1","secret":` + ok + `}`, `{"id":1}`, `{"id":1,"secret":null}`, `{"id":1,"secret":""}`,
			`{"id":1,"secret":` + enc(zzvv.ToLE(zzvv.L, 32)) + `}`, `{"id":1,"secret":` + enc(zzvv.ToLE(s, 33)) + `}`, `{"id":1,"secret":` + enc(zzvv.ToLE(s, 32)[:31]) + `}`,
			`[]`, `3`, ``, `{`, `{}`,
		}
		for _, d := range docs {
			h.Case(true)
			h.Catch("UnmarshalJSON "+d, func() {
				var sk SecretShare
				h.Check(json.Unmarshal([]byte(d), &sk) != nil, "SecretShare JSON accepted: %s gives %d %x", d, sk.ID, sk.Secret.Bytes())
				h.Check((&SecretShare{}).UnmarshalJSON([]byte(d)) != nil, "SecretShare.UnmarshalJSON accepted: %s", d)
			})
		}
		// Equal
		a, b := NewSecretShare(3, vvScalar(s)), NewSecretShare(3, vvScalar(s))
		h.Check(a.Equal(b), "Equal of identical shares")
		h.Check(!a.Equal(NewSecretShare(4, vvScalar(s))), "Equal ignores the ID")
		h.Check(!a.Equal(NewSecretShare(3, vvScalar(zzvv.SAdd(s, zzvv.I(1))))), "Equal ignores the secret")
		h.Check(!a.Equal(NewSecretShare(3, vvScalar(zzvv.SSub(zzvv.I(0), zzvv.SAdd(s, zzvv.I(1)))))), "Equal ignores the secret")
	}
}

func TestVVPublicKey(t *testing.T) {
	h := zzvv.New(t)
	for k := 0; k < h.N(20) && !h.Failed(); k++ {
		for _, s := range vvEdges(h) {
			h.Case(true)
			h.Catch("PublicKey JSON", func() {
				pk := NewPublicKeyFromPoint(vvElement(s))
				enc := zzvv.Base(s).EncodeR()
				j, err := json.Marshal(pk)
				h.Check(err == nil, "MarshalJSON: %v", err)
				j2, err := json.Marshal(*pk)
				h.Check(err == nil && bytes.Equal(j, j2), "MarshalJSON of a value: %s %v", j2, err)
				out := NewPublicKeyFromPoint(vvElement(zzvv.I(7)))
				if h.Check(json.Unmarshal(j, out) == nil, "JSON %s refused", j) {
					h.Check(out.Equal(pk) && pk.Equal(out), "decoded key is not Equal")
					h.Check(bytes.Equal(out.ToEd25519(), pk.ToEd25519()), "decoded key has another Ed25519 form")
				}
				// non-canonical
				for _, v := range [][]byte{zzvv.ToLE(new(big.Int).Add(zzvv.LE(enc), zzvv.P), 33)[:32], h.Flip(enc), enc[:31], append(append([]byte{}, enc...), 0)} {
					doc := []byte(`"` + base64.StdEncoding.EncodeToString(v) + `"`)
					var o PublicKey
					err := json.Unmarshal(doc, &o)
					if zzvv.CanonElement(v) {
						h.Check(err == nil, "canonical key %x refused", v)
					} else {
						h.Check(err != nil, "non-canonical key %x accepted", v)
					}
				}
			})
		}
	}
	for _, doc := range []string{``, `3`, `{}`, `"AA=="`, `""`, `[1]`} {
		h.Case(true)
		h.Catch("PublicKey.UnmarshalJSON "+doc, func() {
			var o PublicKey
			h.Check(o.UnmarshalJSON([]byte(doc)) != nil, "PublicKey.UnmarshalJSON accepted %q", doc)
		})
	}
}

type vvShares struct {
	ids []int64
	val map[int64]*big.Int
	key *big.Int
	thr int
}

// shares on a polynomial (or at arbitrary points) together with the interpolated secret
func vvMake(h *zzvv.H) vvShares {
	n := 1 + h.R.Intn(7)
	s := vvShares{ids: h.IDs(n), val: map[int64]*big.Int{}, thr: h.R.Intn(n)}
	if h.R.Intn(4) == 0 {
		s.thr = n - 1
	}
	c := make([]*big.Int, s.thr+1)
	for i := range c {
		c[i] = h.RandScalar()
	}
	if h.R.Intn(6) == 0 {
		c[0] = zzvv.I(0)
	}
	for _, id := range s.ids {
		s.val[id] = zzvv.Poly(c, zzvv.I(id))
	}
	if h.R.Intn(3) == 0 {
		for _, id := range s.ids {
			s.val[id] = h.RandScalar()
		}
	}
	s.key = zzvv.I(0)
	for _, id := range s.ids {
		s.key = zzvv.SAdd(s.key, zzvv.SMul(zzvv.Lagrange(id, s.ids), s.val[id]))
	}
	return s
}

func (s vvShares) elements() map[party.ID]*ristretto.Element {
	m := map[party.ID]*ristretto.Element{}
	for id, v := range s.val {
		m[party.ID(id)] = vvElement(v)
	}
	return m
}

func vvPublicIs(h *zzvv.H, what string, p *Public, s vvShares) {
	if !h.Check(p != nil && p.GroupKey != nil, "%s: no public data", what) {
		return
	}
	h.Check(int(p.Threshold) == s.thr, "%s: threshold %d, want %d", what, p.Threshold, s.thr)
	h.Check(len(p.PartyIDs) == len(s.ids), "%s: party list %v, want %v", what, p.PartyIDs, s.ids)
	for i, id := range p.PartyIDs {
		_, in := s.val[int64(id)]
		h.Check(in && (i == 0 || p.PartyIDs[i-1] < id), "%s: party list %v, want the IDs of %v", what, p.PartyIDs, s.ids)
	}
	h.Check(len(p.Shares) == len(s.ids), "%s: %d shares, want %d", what, len(p.Shares), len(s.ids))
	for id, v := range s.val {
		e := p.Shares[party.ID(id)]
		want := zzvv.Base(v).EncodeR()
		if h.Check(e != nil, "%s: no share of %d", what, id) {
			h.Check(bytes.Equal(e.Bytes(), want), "%s: share of %d is %x, want %x", what, id, e.Bytes(), want)
		}
	}
	want := NewPublicKeyFromPoint(vvElement(s.key))
	h.Check(p.GroupKey.Equal(want), "%s: group key %x, want %x", what, p.GroupKey.ToEd25519(), want.ToEd25519())
}

func (s vvShares) doc(thr string, key string, shares map[string]string) string {
	d := `{"t":` + thr + `,"groupkey":` + key + `,"shares":{`
	first := true
	for k, v := range shares {
		if !first {
			d += ","
		}
		first = false
		d += `"` + k + `":` + v
	}
	return d + `}}`
}

func vvB64(b []byte) string { return `"` + base64.StdEncoding.EncodeToString(b) + `"` }

func TestVVPublic(t *testing.T) {
	h := zzvv.New(t)
	for k := 0; k < h.N(40) && !h.Failed(); k++ {
		s := vvMake(h)
		h.Case(len(s.ids) > 1)
		h.Sample("ids %v threshold %d", s.ids, s.thr)
		h.Catch(fmt.Sprintf("Public with ids %v", s.ids), func() {
			p, err := NewPublic(s.elements(), party.Size(s.thr))
			if !h.Check(err == nil, "NewPublic(%v, %d): %v", s.ids, s.thr, err) {
				return
			}
			vvPublicIs(h, "NewPublic", p, s)
			j, err := json.Marshal(p)
			if !h.Check(err == nil, "MarshalJSON: %v", err) {
				return
			}
			var q Public
			if h.Check(json.Unmarshal(j, &q) == nil, "JSON %s refused", j) {
				vvPublicIs(h, "UnmarshalJSON", &q, s)
				h.Check(p.Equal(&q) && q.Equal(p), "decoded public data is not Equal")
			}
			// a used target takes exactly the decoded value
			u, _ := NewPublic(map[party.ID]*ristretto.Element{9: vvElement(zzvv.I(4)), 65535: vvElement(zzvv.I(5))}, 1)
			if h.Check(json.Unmarshal(j, u) == nil, "JSON %s refused by a used target", j) {
				vvPublicIs(h, "UnmarshalJSON into used data", u, s)
			}
			// thresholds
			n := len(s.ids)
			for _, th := range []int{n, n + 1, 65535} {
				_, err := NewPublic(s.elements(), party.Size(th))
				h.Check(err != nil, "NewPublic accepts threshold %d for %d shares", th, n)
			}
			// invalid shares
			m := s.elements()
			m[party.ID(s.ids[h.R.Intn(n)])] = nil
			_, err = NewPublic(m, party.Size(s.thr))
			h.Check(err != nil, "NewPublic accepts a nil share")
			m = s.elements()
			m[0] = vvElement(zzvv.I(3))
			_, err = NewPublic(m, party.Size(s.thr))
			h.Check(err != nil, "NewPublic accepts ID 0")
		})
		h.Catch(fmt.Sprintf("invalid public JSON, ids %v", s.ids), func() {
			n := len(s.ids)
			key := vvB64(zzvv.Base(s.key).EncodeR())
			pick := strconv.FormatInt(s.ids[h.R.Intn(n)], 10)
			sh := func(change func(m map[string]string)) map[string]string {
				m := map[string]string{}
				for id, v := range s.val {
					m[strconv.FormatInt(id, 10)] = vvB64(zzvv.Base(v).EncodeR())
				}
				if change != nil {
					change(m)
				}
				return m
			}
			th := strconv.Itoa(s.thr)
			var q Public
			good := s.doc(th, key, sh(nil))
			h.Check(json.Unmarshal([]byte(good), &q) == nil, "valid document refused: %s", good)
			bad := []string{``, `{}`, `[]`, `null3`, `{"t":0}`}
			for _, x := range []string{"-1", "-65536", "65536", strconv.Itoa(65536 + s.thr), strconv.Itoa(s.thr - 65536), strconv.Itoa(n), "65535", `"0"`, "0.5"} {
				bad = append(bad, s.doc(x, key, sh(nil)))
			}
			for _, x := range []string{"null", `""`, vvB64(zzvv.Base(zzvv.SAdd(s.key, zzvv.I(1))).EncodeR()), vvB64(zzvv.ToLE(zzvv.P, 32)), vvB64(bytes.Repeat([]byte{255}, 32)), "5"} {
				if x == `null` {
					bad = append(bad, `{"t":`+th+`,"shares":`+s.doc("0", "0", sh(nil))[len(`{"t":0,"groupkey":0,"shares":`):])
				}
				bad = append(bad, s.doc(th, x, sh(nil)))
			}
			enc := func(x *big.Int) string { return vvB64(zzvv.Base(x).EncodeR()) }
			changes := []func(m map[string]string){
				func(m map[string]string) { m[pick] = "null" },
				func(m map[string]string) { m[pick] = `""` },
				func(m map[string]string) { m[pick] = vvB64(bytes.Repeat([]byte{255}, 32)) },
				func(m map[string]string) { m[pick] = enc(zzvv.SAdd(s.val[s.ids[0]], zzvv.I(5))) + `x` },
				func(m map[string]string) { m["0"] = enc(zzvv.I(3)) },
				func(m map[string]string) { m["65536"] = enc(zzvv.I(3)) },
				func(m map[string]string) { m["-1"] = enc(zzvv.I(3)) },
				func(m map[string]string) { m["x"] = enc(zzvv.I(3)) },
				func(m map[string]string) { v := m[pick]; delete(m, pick); m[pick+"6553600"] = v },
			}
			for _, c := range changes {
				bad = append(bad, s.doc(th, key, sh(c)))
			}
			id, _ := strconv.ParseInt(pick, 10, 64)
			bad = append(bad, s.doc(th, key, sh(func(m map[string]string) { m[pick] = enc(zzvv.SAdd(s.val[id], zzvv.I(1))) })))
			for _, d := range bad {
				h.Case(true)
				old, _ := NewPublic(map[party.ID]*ristretto.Element{9: vvElement(zzvv.I(4))}, 0)
				h.Check(json.Unmarshal([]byte(d), old) != nil, "Public JSON accepted: %s", d)
				h.Catch("Public.UnmarshalJSON "+d, func() {
					h.Check((&Public{}).UnmarshalJSON([]byte(d)) != nil, "Public.UnmarshalJSON accepted: %s", d)
				})
			}
		})
		// Equal sees every difference
		h.Catch("Public.Equal", func() {
			p, _ := NewPublic(s.elements(), party.Size(s.thr))
			q, _ := NewPublic(s.elements(), party.Size(s.thr))
			h.Check(p.Equal(q), "Equal of identical public data")
			q.Threshold++
			h.Check(!p.Equal(q), "Equal ignores the threshold")
			q.Threshold--
			q.GroupKey = NewPublicKeyFromPoint(vvElement(zzvv.SAdd(s.key, zzvv.I(1))))
			h.Check(!p.Equal(q), "Equal ignores the group key")
			q.GroupKey = p.GroupKey
			for _, id := range s.ids {
				m := s.elements()
				m[party.ID(id)] = vvElement(zzvv.SAdd(s.val[id], zzvv.I(1)))
				q.Shares = m
				h.Check(!p.Equal(q), "Equal ignores the share of %d", id)
			}
		})
	}
}
