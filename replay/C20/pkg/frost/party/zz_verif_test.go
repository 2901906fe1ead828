package party

import (
	"sort"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
)

func TestVVIDSlice(t *testing.T) {
	h := zzvv.New(t)
	for i := 0; i < h.N(20000); i++ {
		n, max := h.R.Intn(8), 9
		switch h.R.Intn(4) {
		case 0:
			n, max = h.R.Intn(40), 65536
		case 1:
			n, max = h.R.Intn(300), 400
		case 2:
			max = 65536
		}
		mk := func(n int) []ID {
			var s []ID
			for k := 0; k < n; k++ {
				s = append(s, ID(h.R.Intn(max)))
				if h.R.Intn(20) == 0 {
					s[k] = ID(65535)
				}
			}
			return s
		}
		in := mk(n)
		if n == 0 && h.R.Intn(2) == 0 {
			in = []ID{}
		}
		// spare capacity behind the input must stay untouched too
		in = append(in, 7, 8, 9)
		before := append([]ID{}, in...)
		in = in[:n]
		h.Case(n > 1)
		h.Catch(zzvvDesc(before[:n]), func() {
			s := NewIDSlice(in)
			want := append([]int{}, ints(before[:n])...)
			sort.Ints(want)
			h.Sample("NewIDSlice(%v) = %v", before[:n], s)
			h.Check(sameInts(ints(s), want), "NewIDSlice(%v) = %v", before[:n], s)
			h.Check(sameInts(ints(in[:n+3]), ints(before)), "NewIDSlice(%v) changed its input to %v", before[:n], in)
			// membership
			set := map[ID]bool{}
			for _, x := range s {
				set[x] = true
			}
			for k := 0; k < 12; k++ {
				x := ID(h.R.Intn(max + 1))
				if k < 6 && n > 0 {
					x = s[h.R.Intn(n)] + ID(h.R.Intn(3)-1)
				}
				h.Check(s.Contains(x) == set[x], "%v.Contains(%d) = %v", s, x, s.Contains(x))
			}
			for _, x := range []ID{0, 1, 65535} {
				h.Check(s.Contains(x) == set[x], "%v.Contains(%d) = %v", s, x, s.Contains(x))
			}
			h.Check(int(s.N()) == n, "%v.N() = %d", s, s.N())
			// subset
			m := h.R.Intn(5)
			var o IDSlice
			if n > 0 {
				for k := 0; k < m; k++ {
					o = append(o, s[h.R.Intn(n)])
				}
			}
			if h.R.Intn(2) == 0 || n == 0 {
				o = append(o, mk(1)...)
			}
			o = NewIDSlice(o)
			sub := true
			for _, x := range o {
				sub = sub && set[x]
			}
			h.Check(o.IsSubsetOf(s) == sub, "%v.IsSubsetOf(%v) = %v", o, s, o.IsSubsetOf(s))
			h.Check(s.IsSubsetOf(s), "%v is not a subset of itself", s)
			// equality
			c := s.Copy()
			h.Check(sameInts(ints(c), ints(s)) && c.Equal(s) && s.Equal(c), "copy of %v is %v", s, c)
			h.Check(s.Equal(o) == sameInts(ints(s), ints(o)), "%v.Equal(%v) = %v", s, o, s.Equal(o))
			if n > 0 {
				k := h.R.Intn(n)
				for _, q := range []int{k, 0, n - 1} {
					d := s.Copy()
					d[q] ^= ID(1 << uint(h.R.Intn(16)))
					h.Check(sameInts(ints(s), want), "changing a copy of %v changed it", want)
					h.Check(!s.Equal(d) && !d.Equal(s), "%v.Equal(%v)", s, d)
				}
				h.Check(!s.Equal(s[:n-1]) && !s[:n-1].Equal(s), "%v equals its prefix", s)
				d := append(s.Copy(), 5)
				_ = append(s.Copy(), 6)
				h.Check(d[n] == 5, "copies of %v share spare capacity", s)
			}
		})
	}
}

func zzvvDesc(s []ID) string {
	r := "["
	for _, x := range s {
		r += " " + x.String()
	}
	return r + "]"
}

func ints(s []ID) []int {
	var r []int
	for _, x := range s {
		r = append(r, int(x))
	}
	return r
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
