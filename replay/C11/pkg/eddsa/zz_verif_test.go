package eddsa

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

func vvBytes(h *zzvv.H, b []byte) {
	h.Case(len(b) > 0)
	in := append(make([]byte, 0, len(b)), b...)
	h.Catch("decoding Signature from "+zzvv.Hex(b), func() { var s Signature; _ = s.UnmarshalBinary(in) })
	h.Catch("decoding SecretShare from "+zzvv.Hex(b), func() { var s SecretShare; _ = s.UnmarshalBinary(in) })
	h.Catch("decoding an ID from "+zzvv.Hex(b), func() { _, _ = party.FromBytes(in) })
}

func vvJSON(h *zzvv.H, s string) {
	h.Case(true)
	h.Catch("decoding Public from "+s, func() {
		var p Public
		if json.Unmarshal([]byte(s), &p) == nil {
			_, _ = json.Marshal(&p)
		}
	})
	h.Catch("decoding SecretShare from "+s, func() {
		var p SecretShare
		if json.Unmarshal([]byte(s), &p) == nil {
			_, _ = json.Marshal(&p)
		}
	})
	h.Catch("decoding an Element and an ID from "+s, func() {
		var e ristretto.Element
		_ = json.Unmarshal([]byte(s), &e)
		var id party.ID
		_ = id.UnmarshalText([]byte(s))
	})
}

func TestVVKeysNoCrash(t *testing.T) {
	h := zzvv.New(t)
	for i := 0; i < 80; i++ {
		vvBytes(h, h.Bytes(i))
		vvBytes(h, make([]byte, i))
	}
	for _, s := range []string{"", "null", "{}", "[]", "0", "\"\"", "{\"id\":0}", "{\"t\":1}", "{\"shares\":null}", "{\"shares\":{}}", "{\"shares\":{\"1\":null}}"} {
		vvJSON(h, s)
	}
	for n := 0; n < h.N(40) && !h.Failed(); n++ {
		ids := h.IDs(2 + h.R.Intn(4))
		shares := map[party.ID]*ristretto.Element{}
		for _, id := range ids {
			e := ristretto.NewIdentityElement()
			if _, err := e.SetCanonicalBytes(zzvv.Base(h.RandScalar()).EncodeR()); err != nil {
				return
			}
			shares[party.ID(id)] = e
		}
		p, err := NewPublic(shares, 1)
		if err != nil {
			return
		}
		b, err := json.Marshal(p)
		if err != nil {
			return
		}
		sh := NewSecretShare(party.ID(ids[0]), zzvv.Scalar(h.RandScalar()))
		b2, _ := json.Marshal(sh)
		b3, _ := sh.MarshalBinary()
		h.Sample("%s", b)
		for k := 0; k < 10; k++ {
			vvBytes(h, h.Flip(append([]byte{1}, b3...)))
			vvBytes(h, b3[:h.R.Intn(len(b3)+1)])
		}
		for _, s := range [][]byte{b, b2} {
			vvJSON(h, string(s))
			for k := 0; k < 12; k++ {
				vvJSON(h, string(h.Flip(s)))
				i, j := h.R.Intn(len(s)), h.R.Intn(len(s))
				if i < j {
					vvJSON(h, string(append(append([]byte{}, s[:i]...), s[j:]...)))
				}
			}
			for _, id := range ids {
				q := fmt.Sprint(id)
				for _, r := range []string{"0", "65536", "-1", "99999999999", "1"} {
					vvJSON(h, strings.ReplaceAll(string(s), q, r))
				}
			}
			// values dropped or replaced
			parts := bytes.Split(s, []byte(","))
			for k := range parts {
				vvJSON(h, string(bytes.Join(append(append([][]byte{}, parts[:k]...), parts[k+1:]...), []byte(","))))
			}
			for _, n := range []int{0, 1, 31, 33, 34, 36, 48, 64, 300} {
				x := base64.StdEncoding.EncodeToString(make([]byte, n))
				for _, q := range parts {
					if a := bytes.Split(q, []byte("\"")); len(a) >= 4 {
						vvJSON(h, strings.ReplaceAll(string(s), string(a[len(a)-2]), x))
					}
				}
			}
			i := bytes.LastIndexByte(s, ':')
			vvJSON(h, string(s[:i])+":null}")
			vvJSON(h, string(s[:i])+":null}}")
		}
	}
}
