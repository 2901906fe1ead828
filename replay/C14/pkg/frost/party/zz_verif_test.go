package party

import (
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
)

func TestVVLagrange(t *testing.T) {
	h := zzvv.New(t)
	check := func(id ID, ids IDSlice) {
		in := false
		var js []int64
		for _, j := range ids {
			js = append(js, int64(j))
			in = in || j == id
		}
		before := append(IDSlice{}, ids...)
		h.Case(len(ids) > 1 && in)
		h.Catch(desc(id, ids), func() {
			got, err := id.Lagrange(ids)
			if (err == nil) != (id != 0 && in) {
				h.Fail("Lagrange(%d, %v): error %v", id, before, err)
				return
			}
			if err == nil {
				if got == nil {
					h.Fail("Lagrange(%d, %v): nil", id, before)
					return
				}
				want := zzvv.Lagrange(int64(id), js)
				h.Sample("Lagrange(%d, %v) = %v", id, before, want)
				h.Check(zzvv.Big(got).Cmp(want) == 0, "Lagrange(%d, %v) = %v, want %v", id, before, zzvv.Big(got), want)
			}
			for i := range ids {
				h.Check(ids[i] == before[i], "Lagrange(%d, %v) changed the list", id, before)
			}
		})
	}
	edge := []ID{0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65279, 65280, 65281, 65534, 65535}
	for _, a := range edge {
		check(a, nil)
		for _, b := range edge {
			check(a, IDSlice{b})
			for _, c := range edge {
				check(a, IDSlice{b, c})
				check(b, IDSlice{a, b, c})
			}
		}
	}
	for i := 0; i < h.N(3000); i++ {
		n := h.R.Intn(12)
		if i%50 == 0 {
			n = h.R.Intn(400)
		}
		var ids IDSlice
		max := 65536
		switch h.R.Intn(3) {
		case 0:
			max = n + 2
		case 1:
			max = 300
		}
		for k := 0; k < n; k++ {
			ids = append(ids, ID(h.R.Intn(max)))
		}
		if h.R.Intn(2) == 0 {
			ids = NewIDSlice(ids)
		}
		if n == 0 || h.R.Intn(6) == 0 {
			check(ID(h.R.Intn(max)), ids)
		} else {
			check(ids[h.R.Intn(n)], ids)
			check(ids[0], ids)
			check(ids[n-1], ids)
		}
	}
	// the whole range at once
	var all IDSlice
	for k := 1; k < 65536; k++ {
		all = append(all, ID(k))
	}
	check(1, all)
	check(40000, all)
}

func desc(id ID, ids IDSlice) string {
	s := "Lagrange(" + id.String() + ", ["
	for i, j := range ids {
		if i > 40 {
			s += " ..."
			break
		}
		s += " " + j.String()
	}
	return s + "])"
}
