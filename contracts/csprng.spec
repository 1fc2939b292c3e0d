func (*csprng.CSPRNG).Read(r, buff) -> (n, err)
  requires len(r.iv) == 16 and ref(buff) != ref(r.iv)
  assumes r.off < 9223372036854775808
  modifies buff, r.off
  ensures n == len(buff) and ok(err)
  ensures r.off == old(r.off) + len(buff)
  ensures [C11] forall(k, 0 <= k and k < len(buff), buff[k] == xor(old(buff[k]), ks(r, old(r.off) + k - 0)))
  ensures forall(k, 0 <= k and k < len(buff), src(cell(buff, k)) == gen(r) and tag(cell(buff, k)) == old(r.off) + k)

func (*csprng.CSPRNG).Perm(r, n) -> (p)
  requires len(r.iv) == 16
  assumes r.off < 9223372036854775808
  modifies r.off
  fresh p
  ensures r.off >= old(r.off)
  ensures len(p) == n
  ensures forall(i, 0 <= i and i < n, p[i] < n)
  ensures forall(i, j, 0 <= i and i < j and j < n, p[i] != p[j])
  schema (t: bytes) forall(i, 0 <= i and i < #n, t[i] == i)
  schema (t: bytes) forall(i, 0 <= i and i < n, t[i] < n)
  schema (t: bytes) forall(i, j, 0 <= i and i < j and j < n, t[i] != t[j])

func (*csprng.CSPRNG).GetUniqueBytes(r, n) -> (p)
  requires len(r.iv) == 16
  assumes r.off < 9223372036854775808
  modifies r.off
  fresh p
  ensures r.off >= old(r.off)
  ensures len(p) == n
  ensures forall(i, 0 <= i and i < n, p[i] != 255)
  ensures forall(i, j, 0 <= i and i < j and j < n, p[i] != p[j])
  schema (m: map) has(m, 255)
  schema (m: map, t: bytes) forall(i, 0 <= i and i < #n, has(m, t[i]) and t[i] != 255)
  schema (m: map, t: bytes) forall(i, 0 <= i and i < #o, has(m, t[i]) and t[i] != 255)
  schema (t: bytes) forall(i, j, 0 <= i and i < j and j < #n, t[i] != t[j])
  schema (t: bytes) forall(i, j, 0 <= i and i < j and j < #o, t[i] != t[j])

func csprng.NewCSPRNGWithKeyIV(keyIv) -> (r)
  requires len(keyIv) == 32
  ensures r.off == 0 and len(r.iv) == 16 and fresh(r.iv)
  ensures gen(r) == aeskey(keyIv, 16)
  ensures forall(i, 0 <= i and i < 16, r.iv[i] == old(keyIv[i + 16]))

func csprng.NewCSPRNG() -> (r)
  modifies T
  ensures r.off == 0 and len(r.iv) == 16 and fresh(r.iv)
