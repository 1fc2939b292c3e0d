"""Contracts of the assembly kernels of package galois.  asm.py verifies the
machine code of every kernel that is called against the same contract."""
import z3
from logic import *
import logic
from exec import SV, Unsupported
from ext import H, Z

P = 'github.com/fadhilkurnia/shamir/galois.'
# name -> (kind, block size, cpu feature)
KERNELS = {
    'galMulSSSE3': ('mul', 16, 'SSSE3'),
    'galMulAVX2': ('mul', 32, 'AVX2'),
    'galMulAVX2_64': ('mul', 64, 'AVX2'),
    'galMulSSSE3Xor': ('mulxor', 16, 'SSSE3'),
    'galMulAVX2Xor': ('mulxor', 32, 'AVX2'),
    'galMulAVX2Xor_64': ('mulxor', 64, 'AVX2'),
    'sSE2XorSlice': ('xor', 16, None),
    'sSE2XorSlice_64': ('xor', 64, None),
    'galMulNEON': ('mul', 32, None),
    'galMulXorNEON': ('mulxor', 32, None),
    'galXorNEON': ('xor', 32, None),
}


def row(ex, s, role):
    """the constant c such that s is row c of a 256x16 nibble table"""
    if z3.is_int_value(s.ref) and s.ref.as_long() < 0:
        for n, r in ex.statics.items():
            if r == s.ref.as_long():
                t = ex.lib.tables.get(ex.prog.short(n))
                if t and t['const'] and role in t['roles']:
                    o = z3.simplify(s.off)
                    ex.trusted.add('table ' + ex.prog.short(n) + ': ' + role)
                    return o
    raise Unsupported('a kernel called with something else than rows of the nibble tables')


def handler(name, kind, B, feat):
    def h(ex, st, fr, i, a):
        if kind == 'xor':
            src, out = a
            c = None
        else:
            lo, hi, src, out = a
            x, y = row(ex, lo, 'mullow'), row(ex, hi, 'mulhigh')
            ex.check(st, A(x == y, x % 16 == 0, lo.len == 16, hi.len == 16), 'pre', '%s: both tables are the rows of one constant' % name)
            c = ex.fresh('kc')
            ex.assume(st, x == 16 * c)
        n = (src.len / B) * B
        if feat:
            ex.check(st, feature(ex, feat), 'pre', '%s is only called when the CPU has %s' % (name, feat))
        ex.check(st, out.len >= n, 'pre', '%s: the output is long enough' % name)
        ex.check(st, O(src.ref != out.ref, src.off == out.off, src.off + src.len <= out.off, out.off + out.len <= src.off), 'pre',
                 '%s: input and output are the same memory or apart' % name)
        M = ex.content(st, 'b', src.ref)
        O0 = ex.content(st, 'b', out.ref)
        d = SV('b', out.ref, out.off, n, out.cap)
        ex.check(st, out.ref >= 0, 'frame', '%s writes no table' % name)
        new = ex.fresh('K', AC)
        j = z3.Int('i_')
        x = M[j - out.off + src.off]
        if kind == 'xor':
            v = xor(val(x), val(O0[j]))
        elif kind == 'mul':
            v = gm(c, val(x))
        else:
            v = xor(gm(c, val(x)), val(O0[j]))
        ex.assume(st, logic.ax([j], [new[j]], z3.If(A(j >= out.off, j < out.off + n), val(new[j]) == v, new[j] == O0[j])))
        ex.setcontent(st, 'b', out.ref, new)
        return None
    return h


def feature(ex, feat):
    """true where the flags that are known to hold imply the feature"""
    f = z3.Const('cpu_' + feat, B)
    return f


for _n, (_k, _b, _f) in KERNELS.items():
    H[P + _n] = handler(_n, _k, _b, _f)
