func shamir.verifRoundTrip_Split(secret, parts, threshold, pick) -> (got, err)
  let N = len(secret)
  requires threshold >= 2 and parts >= threshold and parts <= 255 and N >= 1
  requires len(pick) >= threshold and forall(i, 0 <= i and i < len(pick), 0 <= pick[i] and pick[i] < parts)
  requires forall(i, j, 0 <= i and i < j and j < len(pick), pick[i] != pick[j])
  modifies T
  ensures [C01] ok(err) and len(got) == N
  ensures [C01] forall(k, 0 <= k and k < N, got[k] == old(secret[k]))
  schema (t: nrows) forall(i, 0 <= i and i < #n, len(t[i]) == N + 1)
  schema (t: nrows, s: rows) forall(i, 0 <= i and i < #n, t[i] == s[pick[i]])

func shamir.verifRoundTrip_SplitGeneric(secret, parts, threshold, pick) -> (got, err)
  let N = len(secret)
  requires threshold >= 2 and parts >= threshold and parts <= 255 and N >= 1
  requires len(pick) >= threshold and forall(i, 0 <= i and i < len(pick), 0 <= pick[i] and pick[i] < parts)
  requires forall(i, j, 0 <= i and i < j and j < len(pick), pick[i] != pick[j])
  modifies T
  ensures [C01] ok(err) and len(got) == N
  ensures [C01] forall(k, 0 <= k and k < N, got[k] == old(secret[k]))
  schema (t: nrows) forall(i, 0 <= i and i < #n, len(t[i]) == N + 1)
  schema (t: nrows, s: rows) forall(i, 0 <= i and i < #n, t[i] == s[pick[i]])

func shamir.verifRoundTrip_SplitP(secret, parts, threshold, pick) -> (got, err)
  let N = len(secret)
  requires threshold >= 2 and parts >= threshold and parts <= 255 and N >= 1
  requires len(pick) >= threshold and forall(i, 0 <= i and i < len(pick), 0 <= pick[i] and pick[i] < parts)
  requires forall(i, j, 0 <= i and i < j and j < len(pick), pick[i] != pick[j])
  modifies T
  ensures [C01] ok(err) and len(got) == N
  ensures [C01] forall(k, 0 <= k and k < N, got[k] == old(secret[k]))
  schema (t: nrows) forall(i, 0 <= i and i < #n, len(t[i]) == N + 1)
  schema (t: nrows, s: rows) forall(i, 0 <= i and i < #n, t[i] == s[pick[i]])

func shamir.verifRoundTrip_SplitWithRandomizer(secret, parts, threshold, r, pick) -> (got, err)
  let N = len(secret)
  requires threshold >= 2 and parts >= threshold and parts <= 255 and N >= 1 and len(r.iv) == 16
  requires len(pick) >= threshold and forall(i, 0 <= i and i < len(pick), 0 <= pick[i] and pick[i] < parts)
  requires forall(i, j, 0 <= i and i < j and j < len(pick), pick[i] != pick[j])
  modifies r.off
  ensures [C01] ok(err) and len(got) == N
  ensures [C01] forall(k, 0 <= k and k < N, got[k] == old(secret[k]))
  schema (t: nrows) forall(i, 0 <= i and i < #n, len(t[i]) == N + 1)
  schema (t: nrows, s: rows) forall(i, 0 <= i and i < #n, t[i] == s[pick[i]])

func shamir.verifRoundTrip_SplitWithRandomizerOld(secret, parts, threshold, r, pick) -> (got, err)
  let N = len(secret)
  requires threshold >= 2 and parts >= threshold and parts <= 255 and N >= 1 and len(r.iv) == 16
  requires len(pick) >= threshold and forall(i, 0 <= i and i < len(pick), 0 <= pick[i] and pick[i] < parts)
  requires forall(i, j, 0 <= i and i < j and j < len(pick), pick[i] != pick[j])
  modifies r.off
  ensures [C01] ok(err) and len(got) == N
  ensures [C01] forall(k, 0 <= k and k < N, got[k] == old(secret[k]))
  schema (t: nrows) forall(i, 0 <= i and i < #n, len(t[i]) == N + 1)
  schema (t: nrows, s: rows) forall(i, 0 <= i and i < #n, t[i] == s[pick[i]])
