"""Assumed contracts of standard-library streams and of klauspost/reedsolomon."""
import z3
import logic
from logic import *
from exec import SV, Ptr, Opq, Unsupported, MAXLEN
from ext import ext, H, Z, Fork, nonnil, stamp, content_vec
import pool

ofb0 = F('ofb0', I, I, I)               # OFB keystream of a key under the zero IV
rse = F('rse', Mat, I, I, I, I, I)      # rse(M,d,p,i,j): byte j of shard i of the (d,p) code of M


def obj(v):
    if isinstance(v, Opq) and v.what == 'iface':
        v = v.data
    return v


def kind(st, v):
    v = obj(v)
    if isinstance(v, Ptr) and not v.path:
        t = st.otype[v.oid]
        return t.get('name')
    return None


# ------------------------------------------------------------------ streams
@ext('crypto/cipher.NewOFB')
def _newofb(ex, st, fr, i, a):
    g, iv = a
    ex.check(st, iv.len == 16, 'pre', 'the IV has 16 bytes')
    s = ex.fresh('stream')
    ex.assume(st, s >= 2)
    ex.setghost(st, 'SP', z3.Store(st.ghost['SP'], s, Z(0)))
    c = ex.content(st, 'b', iv.ref)
    zero = A(*[ex.cellval(ex.asel(c, ex.add(iv.off, Z(k)))) == 0 for k in range(16)])
    p = z3.Int('p_')
    t = F('kstr', I, I, I)(s, p)
    ex.assume(st, logic.ax([p], [t], Im(z3.simplify(zero), t == ofb0(g, p))))
    return s


@ext('bytes.NewReader')
def _newreader(ex, st, fr, i, a):
    oid = ex.newobj(st, {'k': 'named', 'name': 'bytes.Reader', 'u': {'k': 'opaque'}})
    st.objs[oid][('data',)] = a[0]
    return Ptr(oid)


def region(ex, st, name):
    """a new byte region of arbitrary content"""
    r = ex.newref(st, name)
    for p in st.probes:
        p.hw.append(('b', r))
    st.hw.append(('b', r))
    c = ex.fresh(name, AC)
    st.heaps['b'] = z3.Store(st.heaps['b'], r, c)
    return r, c


def grow_to(ex, st, p, n):
    """the buffer p gets n more bytes: returns (region content, offset of the new bytes)"""
    pool.need(ex, st, p)
    b = st.objs[p.oid][p.path + ('buf',)]
    r, c = region(ex, st, 'buf')
    o = ex.content(st, 'b', b.ref)
    j = z3.Int('i_')
    if not (z3.is_int_value(z3.simplify(b.len)) and z3.simplify(b.len).as_long() == 0):
        ex.assume(st, logic.ax([j], [c[j]], Im(A(j >= 0, j < b.len), c[j] == o[b.off + j])))
    if not (z3.is_int_value(b.ref) and b.ref.as_long() == 0):
        st.dead.append(b.ref)
    cap = ex.fresh('cap')
    ln = z3.simplify(b.len + n)
    ex.assume(st, A(cap >= ln, cap <= MAXLEN))
    ex.setobj(st, p.oid, p.path + ('buf',), SV('b', r, Z(0), ln, cap))
    return r, c, b.len


def masked(ex, st, p, stream, data):
    """appends data XOR keystream to the buffer"""
    pos = z3.Select(st.ghost['SP'], stream)
    srcc = ex.content(st, 'b', data.ref)
    r, c, at0 = grow_to(ex, st, p, data.len)
    j = z3.Int('i_')
    k = F('kstr', I, I, I)(stream, pos + (j - at0))
    ex.assume(st, logic.ax([j], [c[j]], Im(A(j >= at0, j < at0 + data.len),
                                           A(val(c[j]) == xor(val(srcc[data.off + (j - at0)]), k), tag(c[j]) == -1, src(c[j]) == 0))))
    ex.setghost(st, 'SP', z3.Store(st.ghost['SP'], stream, pos + data.len))


@ext('io.Copy')
def _copy(ex, st, fr, i, a):
    w, r = obj(a[0]), obj(a[1])
    kw, kr = kind(st, w), kind(st, r)
    if kw == 'crypto/cipher.StreamWriter' and kr == 'bytes.Reader':
        o = st.objs[w.oid]
        sink, stream = obj(o.get((1,))), o.get((0,))
        rd = r
    elif kw == 'bytes.Buffer' and kr == 'crypto/cipher.StreamReader':
        o = st.objs[r.oid]
        rd, stream = obj(o.get((1,))), o.get((0,))
        sink = w
    elif kw == 'bytes.Buffer' and kr == 'bytes.Reader':
        rd, stream, sink = r, None, w
    else:
        raise Unsupported('io.Copy from %s to %s' % (kr, kw))
    if kind(st, sink) != 'bytes.Buffer' or kind(st, rd) != 'bytes.Reader' or (stream is not None and not z3.is_expr(stream)):
        raise Unsupported('io.Copy of this stream')
    data = st.objs[rd.oid][('data',)]
    if stream is None:
        append_bytes(ex, st, sink, data)
    else:
        masked(ex, st, sink, stream, data)
    z = Z(0)
    ex.setobj(st, rd.oid, ('data',), SV('b', data.ref, z3.simplify(data.off + data.len), z, z3.simplify(data.cap - data.len)))
    return [data.len, Z(0)]


def append_bytes(ex, st, p, data):
    srcc = ex.content(st, 'b', data.ref)
    r, c, at0 = grow_to(ex, st, p, data.len)
    j = z3.Int('i_')
    ex.assume(st, logic.ax([j], [c[j]], Im(A(j >= at0, j < at0 + data.len), c[j] == srcc[data.off + (j - at0)])))


@ext('(*bytes.Buffer).Write')
def _bwrite(ex, st, fr, i, a):
    append_bytes(ex, st, a[0], a[1])
    return [a[1].len, Z(0)]


@ext('(*bytes.Buffer).Len')
def _blen(ex, st, fr, i, a):
    return st.objs[a[0].oid][a[0].path + ('buf',)].len


# ------------------------------------------------------------------ klauspost/reedsolomon
RS = 'github.com/klauspost/reedsolomon.'


@ext(RS + 'New')
def _rsnew(ex, st, fr, i, a):
    d, p = a[0], a[1]
    if not (isinstance(a[2], SV) and z3.is_int_value(a[2].ref)) and not isinstance(a[2], Opq):
        raise Unsupported('reedsolomon.New with options')
    good = A(d > 0, p >= 0, d + p <= 256)
    st2 = st.fork()
    ex.assume(st, good)
    ex.assume(st2, z3.Not(good))
    d, p = ex.unwrapped(st, d), ex.unwrapped(st, p)
    return Fork([(st, [Opq('rs', (d, p)), Z(0)]), (st2, [Opq('nil', 'nil'), nonnil(ex, st2)])])


def coder(v):
    v = obj(v)
    if not (isinstance(v, Opq) and v.what == 'rs'):
        raise Unsupported('unknown coder')
    return v.data


@ext('(' + RS + 'Encoder).Split')
def _rssplit(ex, st, fr, i, a):
    d, p = coder(a[0])
    s = a[1]
    st2 = st.fork()
    ex.assume(st2, s.len == 0)
    ex.assume(st, s.len > 0)
    tot = z3.simplify(d + p)
    per = ex.fresh('per')
    ex.assume(st, per == div(s.len + d - 1, d))
    ex.assume(st, A(per >= 1, mul(d, per) >= s.len, mul(d, per) < s.len + d))
    # the memory behind the data is reused: cleared, and cut into shards
    ex.check(st, Im(s.cap >= mul(tot, per), s.len + d <= s.cap), 'pre', 'reedsolomon.Split clears `dataShards` bytes past the data: they exist')
    old = ex.content(st, 'b', s.ref)
    new = ex.havoc_range(st, SV('b', s.ref, s.off, s.cap, s.cap), s.len, s.cap, 'rsdata')
    rp, cp = region(ex, st, 'rspad')
    rd = ex.alloc_region(st, 's', 'shards')
    c = ex.fresh('shards', AS)
    ex.setcontent(st, 's', rd, c)
    j, k, j2 = z3.Ints('i_ k_ j_')
    h = c[j]
    ex.assume(st, logic.ax([j], [h], Im(A(j >= 0, j < tot), A(
        Slice.slen(h) == per, Slice.scap(h) == per, Slice.soff(h) >= 0, Slice.soff(h) <= MAXLEN, O(Slice.sref(h) == s.ref, Slice.sref(h) == rp),
        Im(Slice.sref(h) == s.ref, A(s.off <= Slice.soff(h), Slice.soff(h) + per <= s.off + s.cap))))))
    g = c[j2]
    ex.assume(st, logic.ax([j, j2], [MP(h, g)], Im(A(j >= 0, j < j2, j2 < tot),
        O(Slice.sref(h) != Slice.sref(g), Slice.soff(h) + per <= Slice.soff(g)))))
    ex.shardrefs[c.get_id()] = (c, [s.ref, rp])
    cell_ = at(mat2(st.heaps['b'], c, Z(0)), j, k)
    ex.assume(st, logic.ax([j, k], [cell_], Im(A(j >= 0, j < d, k >= 0, k < per, ix(per, j, k) < s.len),
        cell_ == at(mat1(old, s.off, per), j, k))))
    ln = SV('s', rd, Z(0), tot, tot)
    return Fork([(st, [ln, Z(0)]), (st2, [SV('s', Z(0), Z(0), Z(0), Z(0)), nonnil(ex, st2)])])


def someheap(ex, st, name):
    """the byte heap after an operation that may write many regions"""
    if any(f.active for f in st.frames):
        raise Unsupported(name + ' inside a loop')
    M = st.heaps['b']
    N_ = ex.fresh('heap_b', HEAP['b'])
    for p in st.probes:
        p.hw.append(('b', ex.fresh('anyref')))
    st.heaps['b'] = N_
    return M, N_


@ext('(' + RS + 'Encoder).Encode')
def _rsencode(ex, st, fr, i, a):
    d, p = coder(a[0])
    s = a[1]
    tot = z3.simplify(d + p)
    c = ex.content(st, 's', s.ref)
    j, j2, k, r = z3.Ints('i_ j_ k_ r_')
    size = Slice.slen(c[s.off])
    same = logic.ax([j], [c[j]], Im(A(j >= s.off, j < s.off + s.len), Slice.slen(c[j]) == size))
    ex.check(st, Im(s.len == tot, same), 'pre', 'reedsolomon.Encode gets shards of one size')
    st2 = st.fork()
    ex.assume(st2, O(s.len != tot, size <= 0))
    ex.assume(st, A(s.len == tot, size > 0))
    h, g = c[j], c[j2]
    ex.check(st, logic.ax([j, j2], [MP(h, g)], Im(A(j >= s.off, j < j2, j2 < s.off + s.len),
        O(Slice.sref(h) != Slice.sref(g), Slice.soff(h) + size <= Slice.soff(g), Slice.soff(g) + size <= Slice.soff(h)))), 'pre',
        'reedsolomon.Encode gets shards that do not overlap')
    M, N_ = someheap(ex, st, 'Encode')
    rw = F('rw!%d' % ex.k, I, I, I)
    w = c[rw(r, k)]
    # only the parity shards are written
    refs = ex.shardrefs.get(c.get_id())
    if refs:
        ex.assume(st, logic.ax([r], [N_[r]], O(*[r == q for q in refs[1]], N_[r] == M[r])))
    else:
        ex.assume(st, logic.ax([r, k], [N_[r][k]], O(N_[r][k] == M[r][k], A(
            s.off + d <= rw(r, k), rw(r, k) < s.off + s.len, Slice.sref(w) == r, Slice.soff(w) <= k, k < Slice.soff(w) + size))))
    m0, m1 = mat2(M, c, s.off), mat2(N_, c, s.off)
    ex.assume(st, logic.ax([j, k], [at(m1, j, k)], Im(A(j >= 0, j < d, k >= 0, k < size), at(m1, j, k) == at(m0, j, k))))
    t = at(m1, j, k)
    ex.assume(st, logic.ax([j, k], [t], Im(A(j >= 0, j < tot, k >= 0, k < size), val(t) == rse(m0, d, p, j, k))))
    st.wits = dict(st.wits, R=st.wits.get('R', []) + [m0])
    return Fork([(st, Z(0)), (st2, nonnil(ex, st2))])


@ext('(' + RS + 'Encoder).ReconstructData')
def _rsrec(ex, st, fr, i, a):
    d, p = coder(a[0])
    s = a[1]
    tot = z3.simplify(d + p)
    c = ex.content(st, 's', s.ref)
    j, k, r = z3.Ints('i_ k_ r_')
    inr = A(j >= s.off, j < s.off + s.len)
    h = c[j]
    ex.check(st, Im(s.len == tot, logic.ax([j], [h], Im(inr, O(Slice.slen(h) > 0, Slice.scap(h) == 0)))), 'pre',
             'missing shards have no memory that reedsolomon would overwrite')
    size = ex.fresh('size')
    # success: at least d distinct shards (w) are present, all of one size
    w = F('rsw!%d' % ex.k, I, I)
    st2 = st.fork()
    for u in pres_witness(ex, st2):
        t, t2 = z3.Ints('t_ t2_')
        su = Slice.slen(c[s.off + vat(u, Z(0))])
        inj = A(s.len == tot, su > 0,
                logic.ax([j], [h], Im(inr, O(Slice.slen(h) == 0, Slice.slen(h) == su))),
                logic.ax([t], [vat(u, t)], Im(A(t >= 0, t < d), A(vat(u, t) >= 0, vat(u, t) < tot, Slice.slen(c[s.off + vat(u, t)]) > 0))),
                logic.ax([t, t2], [MP(vat(u, t), vat(u, t2))], Im(A(t >= 0, t < t2, t2 < d), vat(u, t) != vat(u, t2))))
        ex.assume(st2, z3.Not(inj))
    # success
    ex.assume(st, A(s.len == tot, size > 0))
    ex.assume(st, logic.ax([j], [h], Im(inr, O(Slice.slen(h) == 0, Slice.slen(h) == size))))
    t, t2 = z3.Ints('t_ t2_')
    ex.assume(st, logic.ax([t], [w(t)], Im(A(t >= 0, t < d), A(w(t) >= 0, w(t) < tot, Slice.slen(c[s.off + w(t)]) > 0))))
    ex.assume(st, logic.ax([t, t2], [MP(w(t), w(t2))], Im(A(t >= 0, t < t2, t2 < d), w(t) != w(t2))))
    ex.assume(st, Slice.slen(c[s.off + w(Z(0))]) == size)
    next0 = st.next
    M = st.heaps['b']
    M, N_ = someheap(ex, st, 'ReconstructData')
    nx = ex.fresh('next')
    ex.assume(st, nx >= st.next)
    st.next = nx
    ex.assume(st, logic.ax([r], [N_[r]], Im(r < next0, N_[r] == M[r])))
    c2 = ex.fresh('shards', AS)
    g = c2[j]
    ex.assume(st, logic.ax([j], [g], A(
        Im(O(j < s.off, j >= s.off + d, Slice.slen(h) > 0), g == h),
        Im(A(j >= s.off, j < s.off + d, Slice.slen(h) == 0), A(Slice.sref(g) >= next0, Slice.sref(g) < nx, Slice.soff(g) == 0, Slice.slen(g) == size, Slice.scap(g) == size)))))
    ex.setcontent(st, 's', s.ref, c2)
    m0, m1 = mat2(M, c, s.off), mat2(N_, c2, s.off)
    for G in ex.ghostterms(st, None, Mat):
        u0, u1 = at(m0, j, k), at(m1, j, k)
        con = z3.ForAll([j, k], Im(A(j >= 0, j < tot, Slice.slen(c[s.off + j]) > 0, k >= 0, k < size), val(u0) == rse(G, d, p, j, k)), patterns=[u0, rse(G, d, p, j, k)])
        res = logic.ax([j, k], [u1], Im(A(j >= 0, j < d, k >= 0, k < size), val(u1) == val(at(G, j, k))))
        logic._keep.append(con)
        ex.assume(st, Im(con, res))
    return Fork([(st, Z(0)), (st2, nonnil(ex, st2))])


def pres_witness(ex, st):
    return [v for v in ex.ghostterms(st, None, Vec)]


@ext('(' + RS + 'Encoder).Join')
def _rsjoin(ex, st, fr, i, a):
    d, p = coder(a[0])
    dst, s, n = obj(a[1]), a[2], a[3]
    if kind(st, dst) != 'bytes.Buffer':
        raise Unsupported('Join into %s' % kind(st, dst))
    ex.check(st, n >= 0, 'pre', 'Join of a non-negative number of bytes')
    c = ex.content(st, 's', s.ref)
    j, k = z3.Ints('i_ k_')
    size = Slice.slen(c[s.off])
    h = c[j]
    whole = A(s.len >= d, size >= 1, logic.ax([j], [h], Im(A(j >= s.off, j < s.off + d), A(Slice.sref(h) != 0, Slice.slen(h) == size))))
    st2 = st.fork()
    ex.assume(st2, z3.Not(A(whole, mul(size, d) >= n)))
    ex.assume(st, s.len >= d)
    ex.assume(st, Im(whole, mul(size, d) >= n))
    M = st.heaps['b']
    r, cn, at0 = grow_to(ex, st, dst, n)
    if z3.is_int_value(z3.simplify(at0)) and z3.simplify(at0).as_long() == 0:
        mb, mr = mat1(cn, Z(0), size), mat2(M, c, s.off)
        u = at(mb, j, k)
        ex.assume(st, Im(whole, logic.ax([j, k], [u, at(mr, j, k)], Im(A(j >= 0, j < d, k >= 0, k < size, ix(size, j, k) < n), u == at(mr, j, k)))))
    return Fork([(st, Z(0)), (st2, nonnil(ex, st2))])
