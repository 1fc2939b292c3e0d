func krawczyk.encrypt(plaintext, key) -> (out, err)
  modifies SP
  gives [C08,C09] K = mat(key, 16)
  ensures iff(ok(err), len(key) == 16 or len(key) == 24 or len(key) == 32)
  ensures implies(not ok(err), isnil(out))
  ensures implies(ok(err), len(out) == len(plaintext))
  ensures implies(ok(err), cap(out) == 0 or fresh(out))
  ensures [C08,C09] implies(ok(err), forall(k, 0 <= k and k < len(out), out[k] == xor(old(plaintext[k - 0]), ofb(old(aeskey(key, len(key))), k))))

func krawczyk.decrypt(ciphertext, key) -> (out, err)
  modifies SP
  ensures iff(ok(err), len(key) == 16 or len(key) == 24 or len(key) == 32)
  ensures implies(not ok(err), isnil(out))
  ensures implies(ok(err), len(out) == len(ciphertext))
  ensures implies(ok(err), cap(out) == 0 or fresh(out))
  ensures [C08] implies(ok(err), forall(k, 0 <= k and k < len(out), out[k] == xor(old(ciphertext[k - 0]), ofb(old(aeskey(key, len(key))), k))))

func krawczyk.newByteMatrix(r, c) -> (m)
  requires 0 <= r and r <= 256 and 0 <= c and c <= MAXLEN
  fresh m
  ensures len(m) == r
  ensures forall(i, 0 <= i and i < r, len(m[i]) == c and cap(m[i]) == c and fresh(m[i]))
  ensures forall(i, j, 0 <= i and i < j and j < r, disjoint(m[i], m[j]))
  schema (t: rows) forall(i, 0 <= i and i < #n, len(t[i]) == c and cap(t[i]) == c and fresh(t[i]))
  schema (t: rows, s: bytes) forall(i, 0 <= i and i < #n, ref(t[i]) == ref(s) and off(t[i]) == mulu(c, i))
  schema (t: rows) forall(i, j, 0 <= i and i < j and j < #n, disjoint(t[i], t[j]))
  schema (v: int) v == mulu(c, #n)
  schema (v: int) v == mulu(c, #n + 1)

func krawczyk.Split(secret, parts, threshold) -> (out, err)
  let N = len(secret)
  let S = (N + threshold - 1) / threshold
  modifies T, SP
  ensures iff(not ok(err), threshold < 2 or parts < threshold or parts > 255 or len(secret) == 0 or len(secret) > 4294967295)
  ensures implies(not ok(err), isnil(out))
  ensures implies(ok(err), len(out) == parts and fresh(out))
  ensures implies(ok(err), forall(i, 0 <= i and i < parts, len(out[i]) == 22 + S and fresh(out[i])))
  ensures [C08,C09] implies(ok(err), forall(i, 0 <= i and i < parts, out[i][21 + S] == i))
  ensures [C13] implies(ok(err), forall(i, j, 0 <= i and i < j and j < parts, disjoint(out[i], out[j])))
  schema (t: nrows) forall(i, 0 <= i and i < #n, len(t[i]) == S + 1 and fresh(t[i]))
  schema (t: nrows) forall(i, #n <= i and i < parts, len(t[i]) == S and cap(t[i]) == S and fresh(t[i]))
  schema (t: nrows) forall(i, 0 <= i and i < #n, t[i][S] == i)
  schema (t: nrows) forall(i, 0 <= i and i < #n, t[i][21 + S] == i)
  ensures [C08,C09] some(K, R, M, implies(ok(err), forall(k, 0 <= k and k < 16, src(at(K, 0, k)) == 1 and old(T) <= tag(at(K, 0, k)) and tag(at(K, 0, k)) < T) and
      forall(k, k2, 0 <= k and k < k2 and k2 < 16, tag(at(K, 0, k)) != tag(at(K, 0, k2))) and
      forall(i, j, 0 <= i and i < threshold and 0 <= j and j < S and ix(S, i, j) < N, val(at(R, i, j)) == xor(old(secret[ix(S, i, j)]), ofb(keym(K), ix(S, i, j)))) and
      forall(i, k, 0 <= i and i < parts and 21 <= k and k < 21 + S, val(at(rows(out), i, k)) == rse(R, threshold, parts - threshold, i, k - 21)) and
      forall(k, 0 <= k and k < 16, val(at(M, 0, k)) == val(at(K, 0, k))) and
      val(at(M, 0, 16)) == N % 256 and val(at(M, 0, 17)) == N / 256 % 256 and val(at(M, 0, 18)) == N / 65536 % 256 and val(at(M, 0, 19)) == N / 16777216 % 256 and
      forall(i, k, 0 <= i and i < parts and 0 <= k and k < 20, out[i][k] == hor(M, 0, threshold - 1, k, out[i][20]))))
  ensures [C08,C09] implies(ok(err), forall(i, 0 <= i and i < parts, out[i][20] >= 1))
  ensures [C08,C09] implies(ok(err), forall(i, j, 0 <= i and i < parts and 0 <= j and j < parts and i != j, out[i][20] != out[j][20]))
  schema [C08,C09] (t: nrows) forall(i, j, 0 <= i and i < parts and 0 <= j and j < S, at(rows(t), i, j) == pre(at(rows(t), i, j)))
  schema [C08,C09] (t: nrows, u: nrows) len(t[0]) == 22 + S and len(u[0]) == S + 1 and forall(i, k, 0 <= i and i < #n and 21 <= k and k < 21 + S, t[i][k] == val(at(rows(u), i, k - 21)))
  schema [C08,C09] (t: nrows, u: rows) len(t[0]) == 22 + S and len(u[0]) == 21 and forall(i, k, 0 <= i and i < #n and 0 <= k and k < 21, t[i][k] == u[i][k])

func krawczyk.SplitWithRandomizer(secret, parts, threshold, r) -> (out, err)
  let N = len(secret)
  let S = (N + threshold - 1) / threshold
  modifies r.off, SP
  requires len(r.iv) == 16
  ensures iff(not ok(err), threshold < 2 or parts < threshold or parts > 255 or len(secret) == 0 or len(secret) > 4294967295)
  ensures implies(not ok(err), isnil(out))
  ensures implies(ok(err), len(out) == parts and fresh(out))
  ensures implies(ok(err), forall(i, 0 <= i and i < parts, len(out[i]) == 22 + S and fresh(out[i])))
  ensures [C08,C09] implies(ok(err), forall(i, 0 <= i and i < parts, out[i][21 + S] == i))
  ensures [C13] implies(ok(err), forall(i, j, 0 <= i and i < j and j < parts, disjoint(out[i], out[j])))
  schema (t: nrows) forall(i, 0 <= i and i < #n, len(t[i]) == S + 1 and fresh(t[i]))
  schema (t: nrows) forall(i, #n <= i and i < parts, len(t[i]) == S and cap(t[i]) == S and fresh(t[i]))
  schema (t: nrows) forall(i, 0 <= i and i < #n, t[i][S] == i)
  schema (t: nrows) forall(i, 0 <= i and i < #n, t[i][21 + S] == i)
  ensures [C08,C09] some(K, R, M, implies(ok(err), forall(k, 0 <= k and k < 16, src(at(K, 0, k)) == gen(r) and tag(at(K, 0, k)) == old(r.off) + k) and
      forall(i, j, 0 <= i and i < threshold and 0 <= j and j < S and ix(S, i, j) < N, val(at(R, i, j)) == xor(old(secret[ix(S, i, j)]), ofb(keym(K), ix(S, i, j)))) and
      forall(i, k, 0 <= i and i < parts and 21 <= k and k < 21 + S, val(at(rows(out), i, k)) == rse(R, threshold, parts - threshold, i, k - 21)) and
      forall(k, 0 <= k and k < 16, val(at(M, 0, k)) == val(at(K, 0, k))) and
      val(at(M, 0, 16)) == N % 256 and val(at(M, 0, 17)) == N / 256 % 256 and val(at(M, 0, 18)) == N / 65536 % 256 and val(at(M, 0, 19)) == N / 16777216 % 256 and
      forall(i, k, 0 <= i and i < parts and 0 <= k and k < 20, out[i][k] == hor(M, 0, threshold - 1, k, out[i][20]))))
  ensures [C08,C09] implies(ok(err), forall(i, 0 <= i and i < parts, out[i][20] >= 1))
  ensures [C08,C09] implies(ok(err), forall(i, j, 0 <= i and i < parts and 0 <= j and j < parts and i != j, out[i][20] != out[j][20]))
  schema [C08,C09] (t: nrows) forall(i, j, 0 <= i and i < parts and 0 <= j and j < S, at(rows(t), i, j) == pre(at(rows(t), i, j)))
  schema [C08,C09] (t: nrows, u: nrows) len(t[0]) == 22 + S and len(u[0]) == S + 1 and forall(i, k, 0 <= i and i < #n and 21 <= k and k < 21 + S, t[i][k] == val(at(rows(u), i, k - 21)))
  schema [C08,C09] (t: nrows, u: rows) len(t[0]) == 22 + S and len(u[0]) == 21 and forall(i, k, 0 <= i and i < #n and 0 <= k and k < 21, t[i][k] == u[i][k])

func krawczyk.Combine(ssData, parts, threshold) -> (out, err)
  let m = len(ssData)
  modifies SP
  ensures implies(not ok(err), isnil(out))
  ensures implies(ok(err), 1 <= threshold and threshold <= parts and parts <= 255 and cap(out) == 0 or fresh(out))
  ensures [C10] implies(ok(err), 1 <= threshold and threshold <= parts and parts <= 255 and nn(ssData, m) >= 2)
  ensures [C10] implies(ok(err), forall(i, 0 <= i and i < m and not isnil(ssData[i]), len(ssData[i]) >= 23 and ssData[i][len(ssData[i]) - 1] < parts))
  ensures [C10] implies(ok(err), forall(i, j, 0 <= i and i < j and j < m and not isnil(ssData[i]) and not isnil(ssData[j]), ssData[i][20] != ssData[j][20]))
  schema (v: int) v == nn(ssData, #n)
  schema (v: int) v == nn(ssData, #n + 1)
  schema (t: nrows) forall(i, 0 <= i and i < #n and not isnil(ssData[i]), t[nn(ssData, i)] == ssData[i])
  schema (t: rows) forall(i, 0 <= i and i < #n, len(t[i]) >= 23 and t[i][len(t[i]) - 1] < parts)
  schema (t: nrows, s: rows) forall(i, 0 <= i and i < #n, t[i] == s[i][:21])
  schema (t: nrows, s: rows) forall(i, 0 <= i and i < #n, s[i][:21] == t[i])
  schema (e: nrows) forall(i, 0 <= i and i < len(e), len(e[i]) > 0 or cap(e[i]) == 0)
