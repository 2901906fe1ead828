package helpers

import (
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
)

func TestVVParties(t *testing.T) {
	h := zzvv.New(t)
	for n := 0; n < 65536; n++ {
		if n > 600 && n < 65500 && n%977 != 0 && n != 32767 && n != 32768 {
			continue
		}
		h.Case(n > 1)
		for k, s := range []party.IDSlice{NewPartySlice(party.Size(n)), GenerateSet(party.Size(n))} {
			if !h.Check(len(s) == n, "party list (variant %d) for n = %d has %d entries", k, n, len(s)) {
				continue
			}
			for i := range s {
				if !h.Check(s[i] == party.ID(i+1), "party list (variant %d) for n = %d has %d at position %d", k, n, s[i], i) {
					break
				}
			}
		}
	}
}
