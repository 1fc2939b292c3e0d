func shamir.add(a, b) -> (r)
  method finite
  ensures r == a ^ b

func shamir.mult(a, b) -> (r)
  method finite
  ensures r == gm(a, b)

func shamir.div(a, b) -> (r)
  method finite
  panics b == 0
  ensures r == gm(a, gi(b))

func shamir.newMatrix(r, c) -> (m)
  requires 0 <= r and 0 <= c and r <= MAXLEN and c <= MAXLEN and (r <= 256 or c <= 256)
  fresh m
  ensures len(m) == r
  ensures forall(i, 0 <= i and i < r, len(m[i]) == c and cap(m[i]) == c and fresh(m[i]))
  ensures forall(i, j, 0 <= i and i < j and j < r, disjoint(m[i], m[j]))
  schema (t: rows) forall(i, 0 <= i and i < #n, len(t[i]) == c and cap(t[i]) == c and fresh(t[i]))
  schema (t: rows, s: bytes) forall(i, 0 <= i and i < #n, ref(t[i]) == ref(s) and off(t[i]) == mulu(c, i))
  schema (t: rows) forall(i, j, 0 <= i and i < j and j < #n, disjoint(t[i], t[j]))
  schema (v: int) v == mulu(c, #n)

func shamir.transposeMatrixBuffer(dest, source, w)
  let h = len(source) / w
  requires w >= 1 and len(source) % w == 0 and len(dest) >= len(source)
  requires apart(dest, source)
  modifies dest
  ensures forall(c, r, 0 <= c and c < w and 0 <= r and r < h, at(mat(dest, h), c, r) == old(at(mat(source, w), r, c)))
  schema (u: int, v: int) #n == mulu(h, u) + v and 0 <= v and v < h and u >= 0
  schema (u: int, v: int) #n == mulu(h, u) + v and 0 <= v and 0 <= u and (v < h or #n == 0)
  schema forall(c, r, 0 <= c and c < w and 0 <= r and r < h and ix(h, c, r) < #n, at(mat(dest, h), c, r) == old(at(mat(source, w), r, c)))

func shamir.transpose(slice) -> (m)
  let xl = len(slice[0])
  requires len(slice) >= 1
  requires forall(i, 0 <= i and i < len(slice), len(slice[i]) == xl)
  requires len(slice) <= 256 or xl <= 256
  fresh m
  ensures len(m) == xl
  ensures forall(i, 0 <= i and i < xl, len(m[i]) == len(slice) and fresh(m[i]))
  ensures forall(i, j, 0 <= i and i < xl and 0 <= j and j < len(slice), at(rows(m), i, j) == old(at(rows(slice), j, i)))
  schema (t: rows) forall(i, j, 0 <= i and i < #n and 0 <= j and j < len(slice), at(rows(t), i, j) == old(at(rows(slice), j, i)))
  schema (t: rows) forall(i, j, 0 <= i and i < #o and 0 <= j and j < len(slice), at(rows(t), i, j) == old(at(rows(slice), j, i)))
  schema (t: rows) forall(j, 0 <= j and j < #n, at(rows(t), #o, j) == old(at(rows(slice), j, #o)))

func shamir.makePolynomialsWithBuff(intercepts, degree, buffer) -> (p, err)
  requires 0 <= degree and degree <= 254 and len(buffer) == mulu(degree + 1, len(intercepts))
  requires apart(buffer, intercepts)
  modifies buffer, T
  ensures ok(err) and p == buffer
  ensures T == old(T) + len(buffer)
  ensures forall(q, 0 <= q and q < len(intercepts), val(at(mat(buffer, degree + 1), q, 0)) == old(intercepts[q]))
  ensures [C03] forall(q, j, 0 <= q and q < len(intercepts) and 1 <= j and j <= degree and ix(degree + 1, q, j) >= 0, tag(at(mat(buffer, degree + 1), q, j)) == old(T) + ix(degree + 1, q, j) and src(at(mat(buffer, degree + 1), q, j)) == 1)
  schema forall(q, 0 <= q and q < #n, val(at(mat(buffer, degree + 1), q, 0)) == old(intercepts[q]))
  schema [C03] forall(q, j, 0 <= q and q < len(intercepts) and 1 <= j and j <= degree and ix(degree + 1, q, j) >= 0, tag(at(mat(buffer, degree + 1), q, j)) == old(T) + ix(degree + 1, q, j) and src(at(mat(buffer, degree + 1), q, j)) == 1)

func shamir.evaluatePolynomialsAtWithCoefficientsBuffer(cb, w, x, out)
  let D = len(cb) / w - 1
  requires w >= 1 and len(cb) >= w and len(out) >= w
  requires apart(out, cb)
  modifies out
  ensures forall(k, 0 <= k and k < w, out[k] == old(hor(mat(cb, w), 0, D, k, x)))
  ensures forall(k, w <= k and k < len(out), cell(out, k) == old(cell(out, k)))
  schema (t: bytes) forall(k, 0 <= k and k < w, t[k] == old(hor(mat(cb, w), D - #n, D, k, x)))
  schema (t: bytes) len(t) == w
  schema (t: bytes) fresh(t)

func shamir.evaluatePolynomialsAt(cs, x, out)
  let D = len(cs) - 1
  let w = len(cs[0])
  requires len(cs) >= 1 and w >= 1 and len(out) >= w
  requires forall(i, 0 <= i and i < len(cs), len(cs[i]) == w and ref(cs[i]) != ref(out))
  modifies out
  ensures forall(k, 0 <= k and k < w, out[k] == old(hor(rows(cs), 0, D, k, x)))
  ensures forall(k, w <= k and k < len(out), cell(out, k) == old(cell(out, k)))
  schema (t: bytes) forall(k, 0 <= k and k < w, t[k] == old(hor(rows(cs), D - #n, D, k, x)))
  schema (t: bytes) len(t) == w
  schema (t: bytes) fresh(t)

func shamir.genericEvaluatePolynomialsAt(cs, x, out)
  let D = len(cs) - 1
  let w = len(cs[0])
  requires len(cs) >= 1 and w >= 1 and len(out) >= w
  requires forall(i, 0 <= i and i < len(cs), len(cs[i]) == w and ref(cs[i]) != ref(out))
  modifies out
  ensures forall(k, 0 <= k and k < w, out[k] == old(hor(rows(cs), 0, D, k, x)))
  ensures forall(k, w <= k and k < len(out), cell(out, k) == old(cell(out, k)))
  schema (t: bytes) forall(k, 0 <= k and k < w, t[k] == old(hor(rows(cs), D - #n, D, k, x)))
  schema (t: bytes) len(t) == w
  schema (t: bytes) fresh(t)

func shamir.interpolatePolynomial(xs, ys, x) -> (r)
  let m = len(xs)
  requires len(ys) == m
  requires forall(i, j, 0 <= i and i < j and j < m, xs[i] != xs[j])
  ensures r == lag(vec(xs), vec(ys), x, m, m)
  schema (v: int) v == lag(vec(xs), vec(ys), x, m, #n)
  schema (v: int) v == bas(vec(xs), x, #o, #n)

func shamir.makePolynomialsWithBuffAndRandomizer(intercepts, degree, buffer, r) -> (p, err)
  requires 0 <= degree and degree <= 254 and len(buffer) == mulu(degree + 1, len(intercepts))
  requires apart(buffer, intercepts)
  requires len(r.iv) == 16 and ref(buffer) != ref(r.iv)
  modifies buffer, r.off
  ensures ok(err) and p == buffer
  ensures r.off == old(r.off) + len(buffer)
  ensures forall(q, 0 <= q and q < len(intercepts), val(at(mat(buffer, degree + 1), q, 0)) == old(intercepts[q]))
  ensures [C03] forall(q, j, 0 <= q and q < len(intercepts) and 1 <= j and j <= degree and ix(degree + 1, q, j) >= 0, tag(at(mat(buffer, degree + 1), q, j)) == old(r.off) + ix(degree + 1, q, j) and src(at(mat(buffer, degree + 1), q, j)) == gen(r))
  schema forall(q, 0 <= q and q < #n, val(at(mat(buffer, degree + 1), q, 0)) == old(intercepts[q]))
  schema [C03] forall(q, j, 0 <= q and q < len(intercepts) and 1 <= j and j <= degree and ix(degree + 1, q, j) >= 0, tag(at(mat(buffer, degree + 1), q, j)) == old(r.off) + ix(degree + 1, q, j) and src(at(mat(buffer, degree + 1), q, j)) == gen(r))

func shamir.makePolynomials(intercepts, degree) -> (p, err)
  requires 1 <= degree and degree <= 254
  modifies T
  fresh p
  ensures ok(err)
  ensures T == old(T) + mulu(degree, len(intercepts))
  ensures len(p) == len(intercepts)
  ensures forall(q, 0 <= q and q < len(intercepts), len(p[q]) == degree + 1 and fresh(p[q]))
  ensures forall(q, 0 <= q and q < len(intercepts), val(at(rows(p), q, 0)) == old(intercepts[q]))
  ensures [C03] forall(q, j, 0 <= q and q < len(intercepts) and 1 <= j and j <= degree and ix(degree, q, j) >= 0, tag(at(rows(p), q, j)) == old(T) + ix(degree, q, j) - 1 and src(at(rows(p), q, j)) == 1)
  schema (t: rows) forall(q, 0 <= q and q < #n, val(at(rows(t), q, 0)) == old(intercepts[q]))
  schema [C03] (t: rows) forall(q, j, 0 <= q and q < #n and 1 <= j and j <= degree and ix(degree, q, j) >= 0, tag(at(rows(t), q, j)) == old(T) + ix(degree, q, j) - 1 and src(at(rows(t), q, j)) == 1)

func shamir.makePolynomialsWithRandomizer(intercepts, degree, r) -> (p, err)
  requires 1 <= degree and degree <= 254
  requires len(r.iv) == 16
  modifies r.off
  fresh p
  ensures ok(err)
  ensures r.off == old(r.off) + mulu(degree + 1, len(intercepts))
  ensures len(p) == len(intercepts)
  ensures forall(q, 0 <= q and q < len(intercepts), len(p[q]) == degree + 1 and fresh(p[q]))
  ensures forall(q, 0 <= q and q < len(intercepts), val(at(rows(p), q, 0)) == old(intercepts[q]))
  ensures [C03] forall(q, j, 0 <= q and q < len(intercepts) and 1 <= j and j <= degree and ix(degree + 1, q, j) >= 0, tag(at(rows(p), q, j)) == old(r.off) + ix(degree + 1, q, j) and src(at(rows(p), q, j)) == gen(r))
  schema (t: rows, s: bytes) forall(q, 0 <= q and q < #n, len(t[q]) == degree + 1 and ref(t[q]) == ref(s) and off(t[q]) == mulu(degree + 1, q))
  schema (t: rows) forall(q, 0 <= q and q < #n, val(at(rows(t), q, 0)) == old(intercepts[q]))
  schema [C03] (s: bytes) forall(q, j, 0 <= q and q < len(intercepts) and 1 <= j and j <= degree and ix(degree + 1, q, j) >= 0, tag(at(mat(s, degree + 1), q, j)) == old(r.off) + ix(degree + 1, q, j) and src(at(mat(s, degree + 1), q, j)) == gen(r))
  schema [C03] (t: rows) forall(q, j, 0 <= q and q < #n and 1 <= j and j <= degree and ix(degree + 1, q, j) >= 0, tag(at(rows(t), q, j)) == old(r.off) + ix(degree + 1, q, j) and src(at(rows(t), q, j)) == gen(r))

func (*shamir.polynomial).evaluate(p, x) -> (r)
  let D = len(p.coefficients) - 1
  requires len(p.coefficients) >= 1
  mention hor(mat(p.coefficients, 1), 1, D, 0, x)
  ensures r == hor(mat(p.coefficients, 1), 0, D, 0, x)
  schema (v: int) v == hor(mat(p.coefficients, 1), D - #n, D, 0, x)

func shamir.makePolynomial(intercept, degree) -> (p, err)
  requires degree <= 254
  modifies T
  ensures ok(err)
  ensures T == old(T) + degree
  ensures len(p.coefficients) == degree + 1 and fresh(p.coefficients)
  ensures p.coefficients[0] == intercept
  ensures [C03] forall(j, 1 <= j and j <= degree, tag(cell(p.coefficients, j)) == old(T) + j - 1 and src(cell(p.coefficients, j)) == 1)

func shamir.Split(secret, parts, threshold) -> (out, err)
  let N = len(secret)
  let D = threshold - 1
  modifies T
  ensures iff(not ok(err), parts < threshold or threshold < 2 or parts > 255 or len(secret) == 0)
  ensures implies(not ok(err), isnil(out))
  ensures implies(ok(err), len(out) == parts and fresh(out))
  ensures implies(ok(err), forall(i, 0 <= i and i < parts, len(out[i]) == N + 1 and fresh(out[i])))
  ensures [C02,C03,C01,C08,C09] implies(ok(err), forall(i, 0 <= i and i < parts, out[i][N] >= 1))
  ensures [C02,C01,C08,C09] implies(ok(err), forall(i, j, 0 <= i and i < parts and 0 <= j and j < parts and i != j, out[i][N] != out[j][N]))
  ensures [C01,C08,C09] some(M, implies(ok(err), poly(M, D) and forall(k, 0 <= k and k < N, val(at(M, 0, k)) == old(secret[k])) and
      forall(i, k, 0 <= i and i < parts and 0 <= k and k < N, out[i][k] == hor(M, 0, D, k, out[i][N]))))
  ensures [C03] some(M, implies(ok(err), forall(i, k, 0 <= i and i < parts and 0 <= k and k < N, out[i][k] == hor(M, 0, D, k, out[i][N])) and
      forall(k, 0 <= k and k < N, val(at(M, 0, k)) == old(secret[k])) and
      forall(j, k, 1 <= j and j <= D and 0 <= k and k < N, src(at(M, j, k)) == 1 and old(T) <= tag(at(M, j, k)) and tag(at(M, j, k)) < T) and
      forall(j, k, j2, k2, 1 <= j and j <= D and 0 <= k and k < N and 1 <= j2 and j2 <= D and 0 <= k2 and k2 < N and tag(at(M, j, k)) == tag(at(M, j2, k2)), j == j2 and k == k2)))
  schema (t: rows) forall(i, 0 <= i and i < #n, len(t[i]) == N + 1 and fresh(t[i]))
  schema (t: rows, s: bytes) forall(i, 0 <= i and i < #n, ref(t[i]) == ref(s) and off(t[i]) == mulu(N + 1, i) and cap(t[i]) == N + 1)
  schema [C13] (t: rows) forall(i, j, 0 <= i and i < j and j < #n, disjoint(t[i], t[j]))
  schema (t: rows) forall(i, j, 0 <= i and i < j and j < #n, ref(t[i]) < ref(t[j]))
  schema (t: rows) forall(i, 0 <= i and i < #n, off(t[i]) == 0 and cap(t[i]) == N + 1)
  schema (t: rows, xs: ints) forall(i, 0 <= i and i < #n, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: bytes) forall(i, 0 <= i and i < #n, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: ints) forall(i, 0 <= i and i < parts, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: bytes) forall(i, 0 <= i and i < parts, t[i][N] == xs[i] + 1)
  schema [C01,C03,C08,C09] (t: rows, m: bytes) forall(i, k, 0 <= i and i < #n and 0 <= k and k < N, t[i][k] == hor(pre(mat(m, N)), 0, D, k, t[i][N]))
  ensures [C13] implies(ok(err), forall(i, j, 0 <= i and i < j and j < parts, disjoint(out[i], out[j])))

func shamir.SplitWithRandomizer(secret, parts, threshold, r) -> (out, err)
  let N = len(secret)
  let D = threshold - 1
  modifies r.off
  requires len(r.iv) == 16
  ensures iff(not ok(err), parts < threshold or threshold < 2 or parts > 255 or len(secret) == 0)
  ensures implies(not ok(err), isnil(out))
  ensures implies(ok(err), len(out) == parts and fresh(out))
  ensures implies(ok(err), forall(i, 0 <= i and i < parts, len(out[i]) == N + 1 and fresh(out[i])))
  ensures [C02,C03,C01,C08,C09] implies(ok(err), forall(i, 0 <= i and i < parts, out[i][N] >= 1))
  ensures [C02,C01,C08,C09] implies(ok(err), forall(i, j, 0 <= i and i < parts and 0 <= j and j < parts and i != j, out[i][N] != out[j][N]))
  ensures [C01,C08,C09] some(M, implies(ok(err), poly(M, D) and forall(k, 0 <= k and k < N, val(at(M, 0, k)) == old(secret[k])) and
      forall(i, k, 0 <= i and i < parts and 0 <= k and k < N, out[i][k] == hor(M, 0, D, k, out[i][N]))))
  ensures [C03] some(M, implies(ok(err), forall(i, k, 0 <= i and i < parts and 0 <= k and k < N, out[i][k] == hor(M, 0, D, k, out[i][N])) and
      forall(k, 0 <= k and k < N, val(at(M, 0, k)) == old(secret[k])) and
      forall(j, k, 1 <= j and j <= D and 0 <= k and k < N, src(at(M, j, k)) == gen(r) and old(r.off) <= tag(at(M, j, k)) and tag(at(M, j, k)) < r.off) and
      forall(j, k, j2, k2, 1 <= j and j <= D and 0 <= k and k < N and 1 <= j2 and j2 <= D and 0 <= k2 and k2 < N and tag(at(M, j, k)) == tag(at(M, j2, k2)), j == j2 and k == k2)))
  schema (t: rows) forall(i, 0 <= i and i < #n, len(t[i]) == N + 1 and fresh(t[i]))
  schema (t: rows, s: bytes) forall(i, 0 <= i and i < #n, ref(t[i]) == ref(s) and off(t[i]) == mulu(N + 1, i) and cap(t[i]) == N + 1)
  schema [C13] (t: rows) forall(i, j, 0 <= i and i < j and j < #n, disjoint(t[i], t[j]))
  schema (t: rows) forall(i, j, 0 <= i and i < j and j < #n, ref(t[i]) < ref(t[j]))
  schema (t: rows) forall(i, 0 <= i and i < #n, off(t[i]) == 0 and cap(t[i]) == N + 1)
  schema (t: rows, xs: ints) forall(i, 0 <= i and i < #n, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: bytes) forall(i, 0 <= i and i < #n, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: ints) forall(i, 0 <= i and i < parts, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: bytes) forall(i, 0 <= i and i < parts, t[i][N] == xs[i] + 1)
  schema [C01,C03,C08,C09] (t: rows, m: bytes) forall(i, k, 0 <= i and i < #n and 0 <= k and k < N, t[i][k] == hor(pre(mat(m, N)), 0, D, k, t[i][N]))
  ensures [C13] implies(ok(err), forall(i, j, 0 <= i and i < j and j < parts, disjoint(out[i], out[j])))

func shamir.SplitWithRandomizerOld(secret, parts, threshold, r) -> (out, err)
  let N = len(secret)
  let D = threshold - 1
  modifies r.off
  requires len(r.iv) == 16
  ensures iff(not ok(err), parts < threshold or threshold < 2 or parts > 255 or len(secret) == 0)
  ensures implies(not ok(err), isnil(out))
  ensures implies(ok(err), len(out) == parts and fresh(out))
  ensures implies(ok(err), forall(i, 0 <= i and i < parts, len(out[i]) == N + 1 and fresh(out[i])))
  ensures [C02,C03,C01] implies(ok(err), forall(i, 0 <= i and i < parts, out[i][N] >= 1))
  ensures [C02,C01] implies(ok(err), forall(i, j, 0 <= i and i < parts and 0 <= j and j < parts and i != j, out[i][N] != out[j][N]))
  ensures [C01] some(M, implies(ok(err), poly(M, D) and forall(k, 0 <= k and k < N, val(at(M, 0, k)) == old(secret[k])) and
      forall(i, k, 0 <= i and i < parts and 0 <= k and k < N, out[i][k] == hor(M, 0, D, k, out[i][N]))))
  ensures [C03] some(M, implies(ok(err), forall(i, k, 0 <= i and i < parts and 0 <= k and k < N, out[i][k] == hor(M, 0, D, k, out[i][N])) and
      forall(k, 0 <= k and k < N, val(at(M, 0, k)) == old(secret[k])) and
      forall(j, k, 1 <= j and j <= D and 0 <= k and k < N, src(at(M, j, k)) == gen(r) and old(r.off) <= tag(at(M, j, k)) and tag(at(M, j, k)) < r.off) and
      forall(j, k, j2, k2, 1 <= j and j <= D and 0 <= k and k < N and 1 <= j2 and j2 <= D and 0 <= k2 and k2 < N and tag(at(M, j, k)) == tag(at(M, j2, k2)), j == j2 and k == k2)))
  schema (t: rows) forall(i, 0 <= i and i < #n, len(t[i]) == N + 1 and fresh(t[i]))
  schema (t: rows, s: bytes) forall(i, 0 <= i and i < #n, ref(t[i]) == ref(s) and off(t[i]) == mulu(N + 1, i) and cap(t[i]) == N + 1)
  schema [C13] (t: rows) forall(i, j, 0 <= i and i < j and j < #n, disjoint(t[i], t[j]))
  schema (t: rows) forall(i, j, 0 <= i and i < j and j < #n, ref(t[i]) < ref(t[j]))
  schema (t: rows) forall(i, 0 <= i and i < #n, off(t[i]) == 0 and cap(t[i]) == N + 1)
  schema (t: rows, xs: ints) forall(i, 0 <= i and i < #n, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: bytes) forall(i, 0 <= i and i < #n, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: ints) forall(i, 0 <= i and i < parts, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: bytes) forall(i, 0 <= i and i < parts, t[i][N] == xs[i] + 1)
  schema [C01,C03] (t: rows, m: rows) forall(i, k, 0 <= i and i < #n and 0 <= k and k < N, t[i][k] == hor(pre(rows(m)), 0, D, k, t[i][N]))
  ensures [C13] implies(ok(err), forall(i, j, 0 <= i and i < j and j < parts, disjoint(out[i], out[j])))

func shamir.SplitGeneric(secret, parts, threshold) -> (out, err)
  let N = len(secret)
  let D = threshold - 1
  modifies T
  ensures iff(not ok(err), parts < threshold or threshold < 2 or parts > 255 or len(secret) == 0)
  ensures implies(not ok(err), isnil(out))
  ensures implies(ok(err), len(out) == parts and fresh(out))
  ensures implies(ok(err), forall(i, 0 <= i and i < parts, len(out[i]) == N + 1 and fresh(out[i])))
  ensures [C02,C03,C01] implies(ok(err), forall(i, 0 <= i and i < parts, out[i][N] >= 1))
  ensures [C02,C01] implies(ok(err), forall(i, j, 0 <= i and i < parts and 0 <= j and j < parts and i != j, out[i][N] != out[j][N]))
  ensures [C01] some(M, implies(ok(err), poly(M, D) and forall(k, 0 <= k and k < N, val(at(M, 0, k)) == old(secret[k])) and
      forall(i, k, 0 <= i and i < parts and 0 <= k and k < N, out[i][k] == hor(M, 0, D, k, out[i][N]))))
  ensures [C03] some(M, implies(ok(err), forall(i, k, 0 <= i and i < parts and 0 <= k and k < N, out[i][k] == hor(M, 0, D, k, out[i][N])) and
      forall(k, 0 <= k and k < N, val(at(M, 0, k)) == old(secret[k])) and
      forall(j, k, 1 <= j and j <= D and 0 <= k and k < N, src(at(M, j, k)) == 1 and old(T) <= tag(at(M, j, k)) and tag(at(M, j, k)) < T) and
      forall(j, k, j2, k2, 1 <= j and j <= D and 0 <= k and k < N and 1 <= j2 and j2 <= D and 0 <= k2 and k2 < N and tag(at(M, j, k)) == tag(at(M, j2, k2)), j == j2 and k == k2)))
  schema (t: rows) forall(i, 0 <= i and i < #n, len(t[i]) == N + 1 and fresh(t[i]))
  schema (t: rows, s: bytes) forall(i, 0 <= i and i < #n, ref(t[i]) == ref(s) and off(t[i]) == mulu(N + 1, i) and cap(t[i]) == N + 1)
  schema [C13] (t: rows) forall(i, j, 0 <= i and i < j and j < #n, disjoint(t[i], t[j]))
  schema (t: rows) forall(i, j, 0 <= i and i < j and j < #n, ref(t[i]) < ref(t[j]))
  schema (t: rows) forall(i, 0 <= i and i < #n, off(t[i]) == 0 and cap(t[i]) == N + 1)
  schema (t: rows, xs: ints) forall(i, 0 <= i and i < #n, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: bytes) forall(i, 0 <= i and i < #n, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: ints) forall(i, 0 <= i and i < parts, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: bytes) forall(i, 0 <= i and i < parts, t[i][N] == xs[i] + 1)
  schema [C01,C03] (t: rows, m: rows) forall(i, k, 0 <= i and i < #n and 0 <= k and k < N, t[i][k] == hor(pre(rows(m)), 0, D, k, t[i][N]))
  ensures [C13] implies(ok(err), forall(i, j, 0 <= i and i < j and j < parts, disjoint(out[i], out[j])))

func shamir.SplitP(secret, parts, threshold) -> (out, err)
  let N = len(secret)
  let D = threshold - 1
  modifies T
  ensures iff(not ok(err), parts < threshold or threshold < 2 or parts > 255 or len(secret) == 0)
  ensures implies(not ok(err), isnil(out))
  ensures implies(ok(err), len(out) == parts and fresh(out))
  ensures implies(ok(err), forall(i, 0 <= i and i < parts, len(out[i]) == N + 1 and fresh(out[i])))
  ensures [C02,C03,C01,C14] implies(ok(err), forall(i, 0 <= i and i < parts, out[i][N] >= 1))
  ensures [C02,C01,C14] implies(ok(err), forall(i, j, 0 <= i and i < parts and 0 <= j and j < parts and i != j, out[i][N] != out[j][N]))
  ensures [C01,C14] some(M, implies(ok(err), poly(M, D) and forall(k, 0 <= k and k < N, val(at(M, 0, k)) == old(secret[k])) and
      forall(i, k, 0 <= i and i < parts and 0 <= k and k < N, out[i][k] == hor(M, 0, D, k, out[i][N]))))
  ensures [C03] some(M, implies(ok(err), forall(i, k, 0 <= i and i < parts and 0 <= k and k < N, out[i][k] == hor(M, 0, D, k, out[i][N])) and
      forall(k, 0 <= k and k < N, val(at(M, 0, k)) == old(secret[k])) and
      forall(j, k, 1 <= j and j <= D and 0 <= k and k < N, src(at(M, j, k)) == 1 and old(T) <= tag(at(M, j, k)) and tag(at(M, j, k)) < T) and
      forall(j, k, j2, k2, 1 <= j and j <= D and 0 <= k and k < N and 1 <= j2 and j2 <= D and 0 <= k2 and k2 < N and tag(at(M, j, k)) == tag(at(M, j2, k2)), j == j2 and k == k2)))
  ensures [C13,C14] implies(ok(err), forall(i, j, 0 <= i and i < j and j < parts, disjoint(out[i], out[j])))
  schema (t: rows) forall(i, 0 <= i and i < #n, len(t[i]) == N + 1 and fresh(t[i]))
  schema (t: rows) forall(i, 0 <= i and i < #n, off(t[i]) == 0 and cap(t[i]) == N + 1)
  schema (t: rows) forall(i, j, 0 <= i and i < j and j < #n, ref(t[i]) < ref(t[j]))
  schema (t: rows, xs: ints) forall(i, 0 <= i and i < #n, t[i][N] == xs[i] + 1)
  schema (t: rows, xs: ints) forall(i, 0 <= i and i < parts, t[i][N] == xs[i] + 1)
  schema [C01,C03,C14] cnt >= 0 and forall(k, 0 <= k and k < cnt, val(at(PM[k], 0, 0)) == old(secret[k]))
  schema [C01,C03,C14] (t: rows) forall(i, k, 0 <= i and i < parts and 0 <= k and k < cnt, t[i][k] == hor(PM[k], 0, D, 0, t[i][N]))
  schema [C01,C03,C14] (t: rows) forall(i, k, 0 <= i and i < parts and 0 <= k and k < cnt - 1, t[i][k] == hor(PM[k], 0, D, 0, t[i][N]))
  schema [C01,C03,C14] (t: rows) forall(i, 0 <= i and i < #n, t[i][cnt - 1] == hor(PM[cnt - 1], 0, D, 0, t[i][N]))
  schema [C03] forall(j, k, 1 <= j and j <= D and 0 <= k and k < cnt, tag(at(PM[k], j, 0)) == tag(at(PM[k], 1, 0)) + j - 1 and src(at(PM[k], j, 0)) == 1)
  schema [C03] forall(k, 0 <= k and k < cnt, old(T) <= tag(at(PM[k], 1, 0)) and tag(at(PM[k], 1, 0)) + D <= T)
  schema [C03] forall(k, k2, 0 <= k and k < k2 and k2 < cnt, tag(at(PM[k], 1, 0)) + D <= tag(at(PM[k2], 1, 0)))

func shamir.Combine(parts) -> (secret, err)
  let m = len(parts)
  let L = len(parts[0])
  ensures implies(ok(err), m >= 2 and L >= 2)
  ensures implies(ok(err), forall(i, 0 <= i and i < m, len(parts[i]) == L))
  ensures implies(ok(err), forall(i, j, 0 <= i and i < j and j < m, parts[i][L - 1] != parts[j][L - 1]))
  ensures implies(not ok(err), isnil(secret))
  ensures [C04,C01,C08] implies(not ok(err), m < 2 or L < 2 or exists(i, 0 <= i and i < m, len(parts[i]) != L) or
      exists(i, j, 0 <= i and i < j and j < m, parts[i][L - 1] == parts[j][L - 1]))
  ensures implies(ok(err), len(secret) == L - 1 and fresh(secret))
  ensures implies(ok(err), forall(k, 0 <= k and k < L - 1, secret[k] == old(lag(colv(parts, L - 1), colv(parts, k), 0, m, m))))
  schema forall(i, 0 <= i and i < #n, len(parts[i]) == L)
  schema forall(i, 0 <= i and i <= #n, len(parts[i]) == L)
  schema (a: map) forall(i, 0 <= i and i < #n, has(a, parts[i][L - 1]))
  schema [C04,C01,C08] (a: map) forall(v, has(a, v), exists(i, 0 <= i and i < #n, parts[i][L - 1] == v))
  schema forall(i, j, 0 <= i and i < j and j < #n, parts[i][L - 1] != parts[j][L - 1])
  schema (t: nbytes) forall(i, 0 <= i and i < #n, t[i] == old(parts[i][L - 1]))
  schema (t: nbytes) forall(i, 0 <= i and i < m, t[i] == old(parts[i][L - 1]))
  schema (t: nbytes) forall(i, 0 <= i and i < #n, t[i] == old(parts[i][#o]))
  schema (t: nbytes) forall(k, 0 <= k and k < #n, t[k] == old(lag(colv(parts, L - 1), colv(parts, k), 0, m, m)))
  schema (t: nbytes) forall(k, 0 <= k and k < #o, t[k] == old(lag(colv(parts, L - 1), colv(parts, k), 0, m, m)))

func shamir.Regenerate(parts, numNewShares) -> (out, err)
  let m = len(parts)
  let L = len(parts[0])
  modifies T
  ensures implies(ok(err), m >= 2 and L >= 2 and 0 <= numNewShares and numNewShares <= 255 - m)
  ensures implies(ok(err), forall(i, 0 <= i and i < m, len(parts[i]) == L))
  ensures [C05] implies(ok(err), forall(i, j, 0 <= i and i < j and j < m, parts[i][L - 1] != parts[j][L - 1]))
  ensures implies(not ok(err), isnil(out))
  ensures [C05] implies(not ok(err), m < 2 or L < 2 or numNewShares < 0 or numNewShares > 255 - m or exists(i, 0 <= i and i < m, len(parts[i]) != L) or
      exists(i, j, 0 <= i and i < j and j < m, parts[i][L - 1] == parts[j][L - 1]))
  ensures implies(ok(err), len(out) == numNewShares and fresh(out))
  ensures implies(ok(err), forall(q, 0 <= q and q < numNewShares, len(out[q]) == L and fresh(out[q])))
  ensures [C05] implies(ok(err), forall(q, 0 <= q and q < numNewShares, out[q][L - 1] != 0))
  ensures [C05] implies(ok(err), forall(q, i, 0 <= q and q < numNewShares and 0 <= i and i < m, out[q][L - 1] != old(parts[i][L - 1])))
  ensures [C05] implies(ok(err), forall(q, r, 0 <= q and q < r and r < numNewShares, out[q][L - 1] != out[r][L - 1]))
  ensures [C05] implies(ok(err), forall(q, k, 0 <= q and q < numNewShares and 0 <= k and k < L - 1, out[q][k] == old(lag(colv(parts, L - 1), colv(parts, k), now(out[q][L - 1]), m, m))))
  ensures [C13] implies(ok(err), forall(i, j, 0 <= i and i < j and j < numNewShares, disjoint(out[i], out[j])))
  schema forall(i, 0 <= i and i < #n, len(parts[i]) == L)
  schema forall(i, 0 <= i and i <= #n, len(parts[i]) == L)
  schema [C05,C13] (a: map) forall(i, 0 <= i and i < #n, has(a, parts[i][L - 1]))
  schema [C05,C13] (a: map) forall(i, 0 <= i and i < m, has(a, parts[i][L - 1]))
  schema [C05] (a: map) has(a, 0)
  schema [C05] (b: vbool, v: vint, a: map, c: map) iff(b, has(a, v) and has(c, v))
  schema [C05] (a: map) forall(v, has(a, v), exists(i, 0 <= i and i < #n, parts[i][L - 1] == v))
  schema [C05,C13] forall(i, j, 0 <= i and i < j and j < #n, parts[i][L - 1] != parts[j][L - 1])
  schema [C05] (a: map, t: nbytes) forall(i, 0 <= i and i < #n, has(a, t[i]) and t[i] != 0)
  schema [C05] (t: nbytes) forall(i, j, 0 <= i and i < #n and 0 <= j and j < m, t[i] != old(parts[j][L - 1]))
  schema [C05] (t: nbytes) forall(i, j, 0 <= i and i < j and j < #n, t[i] != t[j])
  schema [C05,C13] (t: nbytes) forall(i, 0 <= i and i < #n, t[i] == old(parts[i][L - 1]))
  schema [C05,C13] (t: nbytes) forall(i, 0 <= i and i < m, t[i] == old(parts[i][L - 1]))
  schema [C05] (t: nbytes) forall(i, 0 <= i and i < #n, t[i] == old(parts[i][#o]))
  schema (t: nrows) forall(q, 0 <= q and q < #n, len(t[q]) == L and fresh(t[q]))
  schema (t: nrows) forall(q, 0 <= q and q < #n, off(t[q]) == 0 and cap(t[q]) == L)
  schema (t: nrows) forall(q, r, 0 <= q and q < r and r < #n, ref(t[q]) < ref(t[r]))
  schema (t: nrows, s: nbytes) forall(q, 0 <= q and q < #n, ref(t[q]) != ref(s))
  schema [C05] (t: nrows, s: nbytes) forall(q, 0 <= q and q < #n, t[q][L - 1] == s[q])
  schema [C05] (t: nrows) forall(q, k, 0 <= q and q < #n and 0 <= k and k < L - 1, t[q][k] == old(lag(colv(parts, L - 1), colv(parts, k), now(t[q][L - 1]), m, m)))
  schema [C05] (t: nrows) forall(k, 0 <= k and k < #n, t[#o][k] == old(lag(colv(parts, L - 1), colv(parts, k), now(t[#o][L - 1]), m, m)))
  schema [C05] (t: nrows, s: nbytes) len(t[#o]) == L and fresh(t[#o]) and t[#o][L - 1] == s[#o]
