func (*randomizer.Randomizer).Read(r, buff) -> (n, err)
  modifies buff, SP
  ensures n == len(buff) and ok(err)
  ensures spos(r) == old(spos(r)) + len(buff)
  ensures [C11] forall(k, 0 <= k and k < len(buff), buff[k] == xor(old(buff[k]), kstr(r, old(spos(r)) + k)))
  ensures forall(k, 0 <= k and k < len(buff), src(cell(buff, k)) == gen(r) and tag(cell(buff, k)) == old(spos(r)) + k)

func (*randomizer.Randomizer).Perm(r, n) -> (p)
  modifies SP
  fresh p
  ensures len(p) == n
  ensures forall(i, 0 <= i and i < n, p[i] < n)
  ensures forall(i, j, 0 <= i and i < j and j < n, p[i] != p[j])
  schema (t: bytes) forall(i, 0 <= i and i < #n, t[i] == i)
  schema (t: bytes) forall(i, 0 <= i and i < n, t[i] < n)
  schema (t: bytes) forall(i, j, 0 <= i and i < j and j < n, t[i] != t[j])

func randomizer.NewRandomizer() -> (r)
  modifies T, SP
  ensures spos(r) == 0
