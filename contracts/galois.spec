func galois.GalAdd(a, b) -> (r)
  method finite
  ensures r == a ^ b

func galois.GalSub(a, b) -> (r)
  method finite
  ensures r == a ^ b

func galois.GalMultiply(a, b) -> (r)
  method finite
  ensures r == gm(a, b)

func galois.GalMultiplyLogExp(a, b) -> (r)
  method finite
  ensures r == gm(a, b)

func galois.GalDivide(a, b) -> (r)
  method finite
  panics a != 0 and b == 0
  ensures r == gm(a, gi(b))

func galois.GalExp(a, n) -> (r)
  requires n >= 0
  ensures r == gpow(a, n)

func galois.AddVectorBatchGeneric(a, b) -> (r)
  requires len(a) == len(b)
  requires a == b or apart(a, b)
  modifies b
  ensures r == b
  ensures forall(i, 0 <= i and i < len(b), b[i] == xor(old(a[i]), old(b[i])))
  schema (s: bytes) forall(i, 0 <= i and i < off(s) - off(b), b[i] == xor(old(a[i]), old(b[i])))
  schema (s: bytes) forall(i, off(s) - off(b) <= i and i < len(b), b[i] == old(b[i]))
  schema (s: bytes, t: bytes) ref(s) == ref(a) and ref(t) == ref(b) and off(s) - off(a) == off(t) - off(b) and len(s) == len(t) and off(s) - off(a) + len(s) == len(a)
  schema (s: bytes) forall(i, 0 <= i and i < off(s) - off(b) + #n, b[i] == xor(old(a[i]), old(b[i])))
  schema (s: bytes) forall(i, off(s) - off(b) + #n <= i and i < len(b), b[i] == old(b[i]))

func galois.AddVectorGeneric(a, b) -> (r)
  requires len(a) == len(b)
  requires a == b or apart(a, b)
  modifies b
  ensures r == b
  ensures forall(i, 0 <= i and i < len(b), b[i] == xor(old(a[i]), old(b[i])))
  schema forall(i, 0 <= i and i < #n, b[i] == xor(old(a[i]), old(b[i])))
  schema forall(i, #n <= i and i < len(b), b[i] == old(b[i]))

func galois.MulConstVectorGeneric(c, a) -> (r)
  modifies a
  ensures r == a
  ensures forall(i, 0 <= i and i < len(a), a[i] == gm(c, old(a[i])))
  schema forall(i, 0 <= i and i < #n, a[i] == gm(c, old(a[i])))
  schema forall(i, #n <= i and i < len(a), a[i] == old(a[i]))

func galois.MulConstVector(c, a) -> (r)
  modifies a
  ensures r == a or (ref(r) >= old_next() and len(r) == len(a))
  ensures forall(i, 0 <= i and i < len(r), r[i] == gm(c, old(a[i])))
  schema (t: nbytes, s: nbytes) forall(i, 0 <= i and i < off(s) - off(t) + #n, t[i] == gm(c, old(a[i])))
  schema (t: nbytes) forall(i, 0 <= i and i < #n, t[i] == gm(c, old(a[i])))
  schema (t: nbytes, v: int) forall(i, 0 <= i and i < v + #n, t[i] == gm(c, old(a[i])))

func galois.AddVector(a, b) -> (r)
  requires len(a) == len(b)
  requires a == b or apart(a, b)
  modifies b
  ensures r == b
  ensures forall(i, 0 <= i and i < len(b), b[i] == xor(old(a[i]), old(b[i])))
  schema (s: bytes) forall(i, 0 <= i and i < off(s) - off(b) + #n, b[i] == xor(old(a[i]), old(b[i])))
  schema (s: bytes) forall(i, off(s) - off(b) + #n <= i and i < len(b), b[i] == old(b[i]))
  schema (v: int) forall(i, 0 <= i and i < v + #n, b[i] == xor(old(a[i]), old(b[i])))
  schema (v: int) forall(i, v + #n <= i and i < len(b), b[i] == old(b[i]))
