props C20
safety C11
func helpers.NewPartySlice(n) (r)
  ensures len(r) == n
  ensures forall(i, 0, n, r[i] == i+1)
  ensures cap(r) == 0 || fresh(r)
  inv filled (s: []party.ID, i: int) len(s) == i-1 && forall(k, 0, i-1, s[k] == k+1)
  inv newmem (s: []party.ID) cap(s) == 0 || fresh(s)
  inv range (i: int) 1 <= i && i <= n+1
func helpers.GenerateSet(n) (r)
  ensures len(r) == n
  ensures sortedle(r)
  ensures forall(i, 0, n, exists(j, 0, n, r[j] == i+1))
