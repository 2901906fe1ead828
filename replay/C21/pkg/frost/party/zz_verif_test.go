package party

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
)

func TestVVID(t *testing.T) {
	h := zzvv.New(t)
	for i := 0; i < 65536; i++ {
		id := ID(i)
		h.Case(i > 255)
		b := id.Bytes()
		h.Check(len(b) == 2 && int(b[0]) == i>>8 && int(b[1]) == i&255, "ID(%d).Bytes() = %x", i, b)
		for extra := 0; extra < 3; extra++ {
			got, err := FromBytes(append(zzvv.BE16(i), make([]byte, extra)...))
			h.Check(err == nil && got == id, "FromBytes(%x + %d bytes) = %d, %v", zzvv.BE16(i), extra, got, err)
		}
		h.Check(zzvv.Big(id.Scalar()).Cmp(big.NewInt(int64(i))) == 0, "ID(%d).Scalar() = %v", i, zzvv.Big(id.Scalar()))
		txt, err := id.MarshalText()
		h.Check(err == nil && string(txt) == fmt.Sprint(i) && id.String() == fmt.Sprint(i), "ID(%d) text = %q, %v, %q", i, txt, err, id.String())
		var back ID = 9999
		err = back.UnmarshalText([]byte(fmt.Sprint(i)))
		h.Check(err == nil && back == id, "UnmarshalText(%d) = %d, %v", i, back, err)
	}
	for _, b := range [][]byte{nil, {}, {7}} {
		h.Catch(fmt.Sprintf("FromBytes(%x)", b), func() {
			_, err := FromBytes(b)
			h.Check(err != nil, "FromBytes(%x) accepted", b)
		})
	}
	for _, s := range []string{"", "-1", "+1", "65536", "65537", "131072", "4294967296", "4294967297", "18446744073709551616", "18446744073709551617", "0x1", "1 ", " 1", "1_0", "a", "1.0", "1e2", "１", "\x001", "99999999999999999999999"} {
		var id ID = 1234
		h.Case(true)
		h.Catch(s, func() {
			err := id.UnmarshalText([]byte(s))
			h.Check(err != nil, "UnmarshalText(%q) accepted as %d", s, id)
			h.Check(id == 1234, "UnmarshalText(%q) failed but changed the receiver to %d", s, id)
		})
	}
	for i := 65536; i < 200000; i += 37 {
		var id ID
		h.Check(id.UnmarshalText([]byte(fmt.Sprint(i))) != nil, "UnmarshalText(%d) accepted as %d", i, id)
	}
	for i := 0; i < 1200000; i++ {
		if RandID() == 0 {
			h.Fail("RandID() returned 0 at draw %d", i)
			break
		}
	}
}
