props C18
safety C11
define kr0(s) = unbox(s.round, "*keygen.round0")
func frost.NewKeygenState(selfID, partyIDs, threshold, timeout) (s, out, err)
  ensures (err == nil) == (okids(selfID, partyIDs) && 1 <= threshold && threshold <= len(partyIDs) - 1)
  ensures err != nil ==> s == nil && out == nil
  ensures err == nil ==> s != nil && fresh(s) && out != nil && fresh(out)
  ensures [C03] err == nil ==> typeis(s.round, "*keygen.round0") && kr0(s).Output == out && kself(kr0(s)) == selfID && kids(kr0(s)) == partyIDs && kr0(s).Threshold == threshold && kbase(kr0(s))
  ensures [C12 C13] err == nil ==> sbase(s) && !s.done && s.roundNumber == 0 && complete(s)
  ensures [C26] err == nil ==> s.timer.d == timeout && tok(s)
  ensures [C25] err == nil ==> free(s)
func frost.NewSignState(partyIDs, secret, shares, message, timeout) (s, out, err)
  requires secret != nil && spub(shares)
  ensures (err == nil) == (okids(secret.ID, partyIDs) && forall(i, 0, len(partyIDs), isin(shares.PartyIDs, partyIDs[i])) && len(partyIDs) > shares.Threshold)
  ensures err != nil ==> s == nil && out == nil
  ensures err == nil ==> s != nil && fresh(s) && out != nil && fresh(out)
  ensures [C01 C02] err == nil ==> typeis(s.round, "*sign.round0") && sr0(s.round).Output == out && sself(sr0(s.round)) == secret.ID && sids(sr0(s.round)) == partyIDs && sr0(s.round).Message == message && sr0(s.round).GroupKey.pk.r == shares.GroupKey.pk.r && sgbase(sr0(s.round))
  ensures [C02 C06] err == nil ==> forall(k, isin(partyIDs, k) ==> D(&sr0(s.round).Parties[k].Public) == lag(partyIDs, k) * D(shares.Shares[k]))
  ensures [C02] err == nil ==> sr0(s.round).SecretKeyShare == lag(partyIDs, secret.ID) * secret.Secret
  ensures [C12 C13] err == nil ==> sbase(s) && !s.done && s.roundNumber == 0 && complete(s)
  ensures [C26] err == nil ==> s.timer.d == timeout && tok(s)
  ensures [C25] err == nil ==> free(s)
