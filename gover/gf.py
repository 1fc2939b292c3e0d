"""GF(2^8) with x^8+x^4+x^3+x^2+1: the reference the contracts refer to."""


def mulslow(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x11D
        b >>= 1
    return r


_LOG = [0] * 256
_EXP = [0] * 510


def _init():
    x = 1
    for i in range(255):
        _EXP[i] = _EXP[i + 255] = x
        _LOG[x] = i
        x = mulslow(x, 2)


_init()


def mul(a, b):
    if a == 0 or b == 0:
        return 0
    return _EXP[_LOG[a] + _LOG[b]]


def inv(a):
    return 0 if a == 0 else _EXP[(255 - _LOG[a]) % 255]


def power(a, n):
    if n == 0:
        return 1
    if a == 0:
        return 0
    return _EXP[(_LOG[a] * n) % 255]


def selfcheck():
    """the facts about gm, gi, xor that the axioms and the Lean lemmas rely on,
    each checked for all arguments; returns the number of instances"""
    import numpy as np
    n = 0
    T = np.array([[mulslow(a, b) for b in range(256)] for a in range(256)], dtype=np.uint8)
    assert all(mul(a, b) == T[a, b] for a in range(256) for b in range(256))
    assert (T == T.T).all()
    assert (T[0] == 0).all() and (T[1] == np.arange(256)).all()
    n += 3 * 65536
    ar = np.arange(256)
    for a in range(256):
        # a*(b*c) == (a*b)*c and a*(b^c) == a*b ^ a*c
        assert (T[a][T] == T[T[a]][:, :]).all()
        assert (T[a][ar[:, None] ^ ar[None, :]] == (T[a][:, None] ^ T[a][None, :])).all()
        n += 2 * 65536
    for a in range(1, 256):
        assert T[a, inv(a)] == 1
        x = 1
        for k in range(600):
            assert power(a, k) == x
            x = T[a, x]
        n += 601
    assert inv(0) == 0 and power(0, 0) == 1 and power(0, 5) == 0
    return n
