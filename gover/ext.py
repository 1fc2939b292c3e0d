"""Assumed contracts of functions outside the repository (trusted base).

Each handler states what the dependency is assumed to do; DESIGN.md and every
evidence file list the ones a proof used."""
import z3
import logic
from logic import *
from exec import SV, Ptr, Opq, Pack, PArr, Unsupported, MAXLEN


class Fork:
    def __init__(self, alts):
        self.alts = alts


H = {}


def ext(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def lookup(name):
    return H.get(name)


def Z(n):
    return z3.IntVal(n)


def nonnil(ex, st, nm='err'):
    e = ex.fresh(nm)
    ex.assume(st, e != 0)
    return e


# ------------------------------------------------------------------ errors, printing
@ext('fmt.Errorf', 'errors.New')
def _err(ex, st, fr, i, a):
    return nonnil(ex, st)


@ext('fmt.Sprintf', '(error).Error')
def _str(ex, st, fr, i, a):
    return ex.fresh('str', Str)


@ext('fmt.Println', 'fmt.Printf')
def _print(ex, st, fr, i, a):
    return [ex.fresh('n'), ex.fresh('err')]


@ext('log.Fatalf', 'log.Fatal', 'os.Exit')
def _fatal(ex, st, fr, i, a):
    # the process ends here; reaching it must be impossible
    ex.check(st, z3.BoolVal(False), 'panic', 'process abort is unreachable')
    return 'end'


@ext('runtime.NumCPU')
def _ncpu(ex, st, fr, i, a):
    n = ex.fresh('ncpu')
    ex.assume(st, A(n >= 1, n <= 1 << 20))
    return n


@ext('crypto/subtle.ConstantTimeByteEq')
def _ctbe(ex, st, fr, i, a):
    return z3.If(a[0] == a[1], Z(1), Z(0))


@ext('crypto/subtle.ConstantTimeSelect')
def _cts(ex, st, fr, i, a):
    return z3.If(a[0] == 1, a[1], a[2])


# ------------------------------------------------------------------ random sources
def stamp(ex, st, s, base, srcid, mask=None, frm=None):
    """s[k] becomes a byte delivered by the source: tag base+k"""
    old = ex.content(st, 'b', s.ref)
    new = ex.fresh('R', AC)
    j = z3.Int('i_')
    t = new[j]
    rel = base + (j - s.off)
    inside = A(tag(t) == rel, src(t) == srcid)
    if mask is not None:
        b = old[j]
        if frm is not None and not (frm.ref.eq(s.ref) and frm.off.eq(s.off)):
            # another input buffer: the same memory or apart from the output
            ex.check(st, O(frm.ref != s.ref, frm.off == s.off, s.len == 0, frm.off + s.len <= s.off, s.off + s.len <= frm.off), 'pre',
                     'input and output of the stream cipher overlap entirely or not at all')
            b = ex.content(st, 'b', frm.ref)[frm.off + (j - s.off)]
            inside = A(tag(t) == -1, src(t) == 0)      # not a draw: masked data
        inside = A(inside, val(t) == xor(val(b), mask(rel)))
    ex.assume(st, logic.ax([j], [t], z3.If(A(j >= s.off, j < s.off + s.len), inside, t == old[j])))
    if st.par and frm is not None:
        ex.par_access(st, ('range', 'b', frm.ref, frm.off, ex.add(frm.off, s.len)), False)
    if st.par:
        ex.par_access(st, ('range', 'b', s.ref, s.off, ex.add(s.off, s.len)), True)
    ex.setcontent(st, 'b', s.ref, new)
    return new


@ext('math/rand.Read')
def _read(ex, st, fr, i, a):
    s = a[0]
    stamp(ex, st, s, st.ghost['T'], Z(1))
    ex.setghost(st, 'T', z3.simplify(st.ghost['T'] + s.len))
    return [s.len, Z(0)]


@ext('math/rand.Perm')
def _perm(ex, st, fr, i, a):
    n = a[0]
    ex.check(st, n >= 0, 'pre', 'rand.Perm with a non-negative size')
    r = ex.alloc_region(st, 'i', 'perm')
    c = ex.fresh('perm', AI)
    ex.setcontent(st, 'i', r, c)
    x, y = z3.Ints('x_ y_')
    ex.assume(st, logic.ax([x], [c[x]], Im(A(x >= 0, x < n), A(c[x] >= 0, c[x] < n))))
    ex.assume(st, logic.ax([x, y], [MP(c[x], c[y])], Im(A(x >= 0, x < n, y >= 0, y < n, x != y), c[x] != c[y])))
    t = ex.fresh('T')
    ex.assume(st, t >= st.ghost['T'])
    ex.setghost(st, 'T', t)
    return SV('i', r, Z(0), n, n)


@ext('math/rand.Uint32')
def _u32(ex, st, fr, i, a):
    v = ex.fresh('u32')
    ex.assume(st, A(v >= 0, v < 1 << 32))
    ex.setghost(st, 'T', z3.simplify(st.ghost['T'] + 1))
    return v


@ext('math/rand.Seed')
def _seed(ex, st, fr, i, a):
    return None


@ext('github.com/starius/aesctrat.NewAesCtr')
def _newctr(ex, st, fr, i, a):
    k = a[0]
    ex.check(st, O(k.len == 16, k.len == 24, k.len == 32), 'pre', 'AES key has 16, 24 or 32 bytes')
    # the generator is a function of the key bytes (copied during key expansion)
    g = F('aeskey', Vec, I, I)(vec1(ex.content(st, 'b', k.ref), k.off), k.len)
    ex.assume(st, g >= 2)
    return Opq('aesctr', g)


@ext('(*github.com/starius/aesctrat.AesCtr).XORKeyStreamAt')
def _xksa(ex, st, fr, i, a):
    c, dst, srcb, iv, off = a
    ex.check(st, iv.len == 16, 'pre', 'the IV has 16 bytes')
    ex.check(st, dst.len >= srcb.len, 'pre', 'output not shorter than input')
    if not (isinstance(c, Opq) and z3.is_expr(c.data)):
        raise Unsupported('unknown generator')
    ivv = vec1(ex.content(st, 'b', iv.ref), iv.off)
    d = SV('b', dst.ref, dst.off, srcb.len, dst.cap)
    stamp(ex, st, d, off, c.data, lambda p: ks(c.data, ivv, p), srcb)
    return None


# ------------------------------------------------------------------ bytes.Buffer (as scratch memory)
def bufobj(a):
    if isinstance(a, Ptr):
        return a
    raise Unsupported('bytes.Buffer through %r' % (a,))


@ext('(*bytes.Buffer).Reset')
def _reset(ex, st, fr, i, a):
    import pool
    p = bufobj(a[0])
    pool.need(ex, st, p)
    b = st.objs[p.oid][p.path + ('buf',)]
    ex.setobj(st, p.oid, p.path + ('buf',), SV('b', b.ref, b.off, Z(0), b.cap))


@ext('(*bytes.Buffer).Grow')
def _grow(ex, st, fr, i, a):
    import pool
    p = bufobj(a[0])
    pool.need(ex, st, p)
    n = a[1]
    ex.check(st, n >= 0, 'pre', 'Grow with a non-negative size')
    b = st.objs[p.oid][p.path + ('buf',)]
    # either the room is there, or a new array is allocated; what lies beyond
    # the length is arbitrary in both cases
    r = ex.newref(st, 'grow')
    for q in st.probes:
        q.hw.append(('b', r))
    st.hw.append(('b', r))
    c = ex.fresh('grown', AC)
    j = z3.Int('i_')
    o = ex.content(st, 'b', b.ref)
    ex.assume(st, logic.ax([j], [c[j]], Im(A(j >= 0, j < b.len), c[j] == o[b.off + j])))
    st.heaps['b'] = z3.Store(st.heaps['b'], r, c)
    if not (z3.is_int_value(b.ref) and b.ref.as_long() == 0):
        st.dead.append(b.ref)          # earlier views of the buffer are stale
    cap = ex.fresh('cap')
    ex.assume(st, A(cap >= b.len + n, cap <= MAXLEN))
    ex.setobj(st, p.oid, p.path + ('buf',), SV('b', r, Z(0), b.len, cap))


@ext('(*bytes.Buffer).Bytes')
def _bytes(ex, st, fr, i, a):
    import pool
    p = bufobj(a[0])
    pool.need(ex, st, p)
    return st.objs[p.oid][p.path + ('buf',)]


# ------------------------------------------------------------------ encoding/binary
@ext('(encoding/binary.littleEndian).Uint64')
def _u64(ex, st, fr, i, a):
    return unpack(ex, st, a[1], 8)


@ext('(encoding/binary.littleEndian).Uint32')
def _u32le(ex, st, fr, i, a):
    return unpack(ex, st, a[1], 4)


def unpack(ex, st, s, n):
    ex.check(st, s.len >= n, 'bounds', 'at least %d bytes' % n)
    c = ex.content(st, 'b', s.ref)
    return Pack([ex.cellval(ex.asel(c, ex.add(s.off, Z(k)))) for k in range(n)])


@ext('(encoding/binary.littleEndian).PutUint64')
def _p64(ex, st, fr, i, a):
    packstore(ex, st, a[1], a[2], 8)


@ext('(encoding/binary.littleEndian).PutUint32')
def _p32(ex, st, fr, i, a):
    packstore(ex, st, a[1], a[2], 4)


def packstore(ex, st, s, v, n):
    ex.check(st, s.len >= n, 'bounds', 'room for %d bytes' % n)
    if isinstance(v, Pack):
        bs = v.bytes
    else:
        v0 = ex.fresh('w')                      # no if-then-else inside heap terms: they occur in patterns
        ex.assume(st, v0 == v)
        bs = []
        for k in range(n):
            b = ex.fresh('wb')
            ex.assume(st, A(b == (v0 / (1 << (8 * k))) % 256, 0 <= b, b <= 255))
            bs.append(b)
    c = ex.content(st, 'b', s.ref)
    for k in range(n):
        c = z3.Store(c, ex.add(s.off, Z(k)), ex.term_of(bs[k], 'b'))
    ex.setcontent(st, 'b', s.ref, c)


# ------------------------------------------------------------------ AES and stream ciphers of the standard library
def content_vec(ex, st, s):
    return vec1(ex.content(st, 'b', s.ref), s.off)


@ext('crypto/aes.NewCipher')
def _newcipher(ex, st, fr, i, a):
    k = a[0]
    good = O(k.len == 16, k.len == 24, k.len == 32)
    st2 = st.fork()
    ex.assume(st, good)
    ex.assume(st2, z3.Not(good))
    g = F('aeskey', Vec, I, I)(content_vec(ex, st, k), k.len)
    ex.assume(st, g >= 2)
    if not st.quiet:
        ex.lib.give(ex, st, 'K', mat1(ex.content(st, 'b', k.ref), k.off, Z(16)))
    return Fork([(st, [g, Z(0)]), (st2, [Z(0), nonnil(ex, st2)])])


@ext('crypto/cipher.NewCTR')
def _newctrs(ex, st, fr, i, a):
    b, iv = a
    ex.check(st, iv.len == 16, 'pre', 'the IV has 16 bytes')
    s = ex.fresh('stream')
    ex.assume(st, s >= 2)
    ex.setghost(st, 'SP', z3.Store(st.ghost['SP'], s, Z(0)))
    return s


@ext('(crypto/cipher.Stream).XORKeyStream')
def _xks(ex, st, fr, i, a):
    c, dst, srcb = a
    ex.check(st, dst.len >= srcb.len, 'pre', 'output not shorter than input')
    pos = z3.Select(st.ghost['SP'], c)
    d = SV('b', dst.ref, dst.off, srcb.len, dst.cap)
    stamp(ex, st, d, pos, c, lambda p: F('kstr', I, I, I)(c, p), srcb)
    ex.setghost(st, 'SP', z3.Store(st.ghost['SP'], c, pos + srcb.len))


import kernels   # noqa: E402  (registers the assembly kernels)
import std       # noqa: E402  (streams, reedsolomon)
