"""Loop cutting: write-set discovery, havoc, invariant candidates."""
import z3
import itertools
from logic import *
import logic
from ir import intinfo
from exec import *


class W:
    """what a loop body writes"""

    def __init__(self):
        self.heaps = {}     # kind -> (dict id->ref term, fresh?, var?)
        self.objs = set()
        self.ghosts = set()
        self.stable = set()
        self.affine = {}
        self.syms = {}
        self.cmps = []
        self.init = {}

    def sig(self):
        return (tuple(sorted((k, tuple(sorted(v[0])), v[1], v[2]) for k, v in self.heaps.items())),
                tuple(sorted(self.objs, key=str)), tuple(sorted(self.ghosts)), tuple(sorted(self.stable, key=str)))


class Cand:
    __slots__ = ('key', 'fn', 'auto')

    def __init__(self, key, fn, auto=True):
        self.key, self.fn, self.auto = key, fn, auto


def enter(ex, st, fr, h, pred):
    fn = fr.fn
    ids, inits = ex.phivals(st, fr, h, pred)
    order = sorted(fn.loops).index(h)
    key = fr.path + '#L%d' % order
    w = probe(ex, st, fr, h, ids, inits, key)
    # tell enclosing probes / loops what this loop writes
    for kind, (inv, fresh, var) in w.heaps.items():
        notes = [(kind, t) for t in inv.values()]
        if fresh:
            notes.append((kind, 'FRESH'))
        if var:
            notes.append((kind, 'VAR'))
        for p in st.probes:
            p.hw.extend(notes)
        st.hw.extend(notes)
    for p in st.probes:
        p.objs |= set(o for o in w.objs if o[0] <= p.oid0)
        p.ghosts |= w.ghosts
    lc = LoopCtx()
    lc.key, lc.w, lc.h, lc.ids, lc.inits = key, w, h, ids, inits
    lc.probe = None
    lc.next0 = st.next
    lc.pre = st.snap()
    lc.time = ex.k
    real = not st.quiet
    lc.cands = []
    for a, v in zip(ids, inits):
        fr.env[a] = v
    fr.blk = h
    fr.ip = len(ids)
    lc.n = z3.IntVal(0)
    fr.active[h] = lc
    if real:
        cover = getattr(ex.lib, 'hints', None)
        lc.cands = candidates(ex, st, fr, lc)
        keep = []
        for c in lc.cands:
            try:
                f = c.fn(st, fr, lc, lc.n)
            except Skip:
                continue
            if f is None:
                continue
            keep.append(c)
            st.node.items.append(('k', f, (key, c.key), 'init'))
        lc.cands = keep
    havoc(ex, st, fr, lc, final=True)
    lc.hw0 = len(st.hw)
    if real:
        for c in lc.cands:
            f = c.fn(st, fr, lc, lc.n)
            st.node.items.append(('a', f, (key, c.key)))
            if c.key.startswith('schema'):
                ms = {}
                ground(f, 'mat2', ms)
                if len(ms) > 1:                 # the same rows in two heaps: let triggers see both
                    for t in ms.values():
                        ex.assume(st, ex.fresh('mention', t.sort()) == t)
        st.node.items.append(('cover', None, 'loop ' + key))
    fr.prev = pred
    return 'jumped'


def latch(ex, st, fr, h, pred):
    lc = fr.active[h]
    if st.quiet:
        return 'end'
    ids, vals = ex.phivals(st, fr, h, pred)
    w = lc.w
    n1 = z3.simplify(lc.n + 1)
    # frame actually respected
    for kind, ref in st.hw[lc.hw0:]:
        inv, fresh, var = w.heaps.get(kind, ({}, False, False))
        if var:
            continue
        if isinstance(ref, str):
            if ref == 'FRESH' and fresh:
                continue
            raise Unsupported('loop frame')
        if is_fresh_since(ex, ref, lc.time):
            if fresh:
                continue
            raise Unsupported('loop frame')
        if any(ref.eq(t) for t in inv.values()):
            continue
        raise Unsupported('loop frame: unexpected write target')
    old = {a: fr.env[a] for a in ids}
    for a, v in zip(ids, vals):
        fr.env[a] = v
    for key, cur in loopvars(ex, st, fr, lc):
        init = w.init[key]
        if key in w.stable:
            if not cur.eq(init):
                ex.check(st, cur == init, 'loop', 'loop-invariant component %s' % (key,))
        elif key in w.affine:
            ex.check(st, cur == affine(ex, init, w.affine[key], n1), 'loop', 'affine loop variable %s' % (key,))
    for a, v in zip(ids, vals):
        if not (z3.is_expr(v) or isinstance(v, (SV,))):
            if v is not old[a]:
                raise Unsupported('loop-carried pointer')
    for c in lc.cands:
        f = c.fn(st, fr, lc, n1)
        st.node.items.append(('k', f, (lc.key, c.key), 'pres'))
    return 'end'


def is_fresh_since(ex, ref, time):
    if z3.is_const(ref) and ref.decl().name() in ex.allocsyms:
        return ex.allocsyms[ref.decl().name()] > time
    return False


def affine(ex, init, d, n):
    if z3.is_int_value(d):
        return z3.simplify(init + d * n)
    return z3.simplify(init + ex.mulc(d, n))


def loopvars(ex, st, fr, lc):
    """(key, current term) of every integer component the loop may change"""
    out = []
    for a in lc.ids:
        v = fr.env[a]
        out += comps((a,), v)
    for oid, path in sorted(lc.w.objs, key=str):
        if oid in st.objs and path in st.objs[oid]:
            out += comps(('obj', oid, path), st.objs[oid][path])
    for g in sorted(lc.w.ghosts):
        out += comps(('ghost', g), st.ghost[g])
    return out


def comps(key, v):
    if isinstance(v, SV):
        return [(key + (c,), x) for c, x in zip(('ref', 'off', 'len', 'cap'), v.comps())]
    if z3.is_expr(v):
        return [(key, v)]
    return []


def havoc(ex, st, fr, lc, final):
    w = lc.w
    t0 = lc.time
    lc.n = ex.fresh('n')
    ex.assume(st, lc.n >= 0)
    nx = ex.fresh('next')
    ex.assume(st, nx >= lc.next0)
    st.next = nx
    # heaps
    for kind, (inv, fresh, var) in w.heaps.items():
        base = st.heaps[kind]
        if var or fresh:
            M = ex.fresh('heap_' + kind, HEAP[kind])
            r = z3.Int('r_')
            if not var:
                ex.assume(st, logic.ax([r], [M[r]], Im(A(r < lc.next0, *[r != t for t in inv.values()]), M[r] == base[r])))
            st.heaps[kind] = M
        else:
            M = base
            for t in inv.values():
                M = z3.Store(M, t, ex.fresh('A', CONT[kind]))
            st.heaps[kind] = M
        if kind == 's':
            ex.wf_heap(st, M if (var or fresh) else fresh_wf(ex, st, M), nx)
    w.init = {}
    w.syms = {}

    def new(key, init, info=None):
        w.init[key] = init
        if key in w.stable:
            return init
        if final and key in w.affine:
            return affine(ex, init, w.affine[key], lc.n)
        s = ex.fresh('phi_' + '_'.join(str(k) for k in key), init.sort())
        w.syms[key] = s
        return s

    def newval(key, v, t):
        if isinstance(v, SV):
            x = SV(v.kind, *[new(key + (c,), y) for c, y in zip(('ref', 'off', 'len', 'cap'), v.comps())])
            ex.assume(st, ex.wf_slice(st, x))
            return x
        if z3.is_expr(v):
            x = new(key, v)
            ii = intinfo(t) if t else None
            if ii:
                ex.assume(st, ex.intrange(x, ii))
            return x
        return v
    types = {i['id']: i['t'] for i in fr.fn.blocks[lc.h].ins if i['op'] == 'phi'}
    for a, v in zip(lc.ids, lc.inits):
        fr.env[a] = newval((a,), v, types[a])
    for oid, path in sorted(w.objs, key=str):
        if oid not in st.objs or path not in st.objs[oid]:
            continue
        v = st.objs[oid][path]
        st.objs[oid][path] = newval(('obj', oid, path), v, objtype(st, oid, path))
        if not (isinstance(v, SV) or z3.is_expr(v)):
            raise Unsupported('loop writes a pointer variable')
    for g in sorted(w.ghosts):
        v = st.ghost[g]
        st.ghost[g] = new(('ghost', g), v)
        if z3.is_int(v):
            ex.assume(st, st.ghost[g] >= v)     # counters only grow


def fresh_wf(ex, st, M):
    return M


def objtype(st, oid, path):
    from ir import under
    t = st.otype[oid]
    for p in path:
        if not isinstance(p, int):
            return None
        u = under(t)
        if u['k'] != 'struct':
            return None
        t = u['f'][p]['t']
    return t


def probe(ex, st, fr, h, ids, inits, key):
    w = W()
    fn = fr.fn
    for it in range(8):
        st2 = st.clone()
        st2.node = Node()
        st2.quiet += 1
        fr2 = st2.fr
        rec = Probe(len(st2.frames), h, fn.loops[h], ex.k, ex.oidc)
        st2.probes = [rec]
        lc = LoopCtx()
        lc.key, lc.w, lc.h, lc.ids, lc.inits, lc.probe = key, w, h, ids, inits, rec
        lc.next0 = st2.next
        lc.pre = None
        lc.time = ex.k
        lc.cands = []
        lc.hw0 = 0
        for a, v in zip(ids, inits):
            fr2.env[a] = v
        fr2.blk, fr2.ip = h, len(ids)
        fr2.active[h] = lc
        havoc(ex, st2, fr2, lc, final=False)
        rec.time = lc.time
        sv = ex.nosolve
        ex.explore(st2)
        # summarise
        nw = W()
        nw.objs = set(w.objs) | rec.objs
        nw.ghosts = set(w.ghosts) | rec.ghosts
        for kind, ref in rec.hw:
            inv, fresh, var = nw.heaps.get(kind, ({}, False, False))
            if isinstance(ref, str):
                if ref == 'FRESH':
                    fresh = True
                else:
                    var = True
            elif is_fresh_since(ex, ref, lc.time):
                fresh = True
            elif ex.maxtime(ref) <= lc.time:
                inv = dict(inv)
                inv[ref.get_id()] = ref
                ex._keep.append(ref)
            else:
                var = True
            nw.heaps[kind] = (inv, fresh, var)
        for kind, (inv, fresh, var) in w.heaps.items():
            a, b, c = nw.heaps.get(kind, ({}, False, False))
            # once stable components are known earlier 'var' verdicts may improve
            if it < 3:
                nw.heaps[kind] = ({**inv, **a} if not var else a, b or fresh, c)
            else:
                nw.heaps[kind] = ({**inv, **a}, b or fresh, c or var)
        if not rec.latches:
            w.syms = {}
            return nw if it == 0 and not nw.heaps else nw
        # stable and affine components
        stable, aff = None, None
        for lids, lvals, lst in rec.latches:
            lfr = lst.frames[rec.depth - 1]
            cur = {}
            for a, v in zip(lids, lvals):
                for k, x in comps((a,), v):
                    cur[k] = x
            for oid, path in w.objs:
                if oid in lst.objs and path in lst.objs[oid]:
                    for k, x in comps(('obj', oid, path), lst.objs[oid][path]):
                        cur[k] = x
            for g in w.ghosts:
                for k, x in comps(('ghost', g), lst.ghost[g]):
                    cur[k] = x
            s, f = set(), {}
            for k, init in w.init.items():
                if k not in cur:
                    continue
                x = cur[k]
                sym = w.syms.get(k)
                if sym is None:       # stable so far
                    if x.eq(init):
                        s.add(k)
                    continue
                if x.eq(sym):
                    s.add(k)
                    continue
                if z3.is_int(x):
                    y = x
                    # unsigned wrap: the no-wrap branch
                    if z3.is_app_of(y, z3.Z3_OP_ITE):
                        continue
                    d = z3.simplify(y - sym)
                    if ex.maxtime(d) <= lc.time:
                        f[k] = d
            if stable is None:
                stable, aff = s, f
            else:
                stable &= s
                aff = {k: d for k, d in aff.items() if k in f and f[k].eq(d)}
        nw.stable = stable
        nw.affine = {k: d for k, d in aff.items() if k not in stable}
        nw.syms, nw.init = w.syms, w.init
        # comparisons
        symmap = {s.decl().name(): k for k, s in w.syms.items()}
        nw.cmps = []
        for x, y in rec.cmps:
            sx, sy = ex.maxtime(x) > lc.time, ex.maxtime(y) > lc.time
            if sx == sy:
                continue
            t, b = (x, y) if sx else (y, x)
            late = [n for n in ex.symbols(t) if ex.symtime.get(n, 0) > lc.time]
            if late and all(n in symmap for n in late):
                nw.cmps.append((t, b, [(symmap[n], n) for n in late]))
        nw.probesyms = dict(w.syms)
        nw.probe_sorts = {s.decl().name(): s for s in w.syms.values()}
        if nw.sig() == w.sig():
            return nw
        w = nw
    return w


class Skip(Exception):
    pass


def scope(ex, st, fr, lc):
    """values that can appear in invariants: list of (key, type, getter)"""
    out = []
    seen = set()
    cc = fr.cctx
    objs = set()
    for d, f in enumerate(st.frames):
        if f.cctx is not cc and not (cc is not None and f.cctx is getattr(cc, 'outer', None)):
            continue
        fn = f.fn
        if not hasattr(fn, 'defblk'):
            fn.defblk = {}
            for b in fn.blocks:
                for i in b.ins:
                    if 'id' in i:
                        fn.defblk[i['id']] = b.i
            fn.merges = {i['id'] for b in fn.blocks if b.i not in fn.loops for i in b.ins if i['op'] == 'phi'}
        inner = set()
        if f is fr:
            for a, body in fn.loops.items():
                if a == lc.h:
                    inner |= body
        for reg, v in f.env.items():
            varying = False
            if f is fr and reg in lc.ids:
                varying = True
            elif f is fr and fn.defblk.get(reg) in inner:
                continue

            def get(s, reg=reg, d=d):
                return s.frames[d].env[reg]
            add(out, seen, '%d:%s' % (d, reg), v, get, varying, reg in fn.merges and isinstance(v, SV))
            if isinstance(v, Ptr):
                for path, x in st.objs.get(v.oid, {}).items():
                    if path[:len(v.path)] == v.path and (v.oid, path) not in objs:
                        objs.add((v.oid, path))

                        def get(s, o=v.oid, path=path):
                            return s.objs[o][path]
                        add(out, seen, 'o%d%s' % (v.oid, path), x, get, (v.oid, path) in lc.w.objs)
    return out


def add(out, seen, key, v, get, varying, merge=False):
    if isinstance(v, SV):
        t = {'b': 'bytes', 'i': 'ints', 's': 'rows'}.get(v.kind)
        if t is None:
            return
        sig = (t,) + tuple(c.get_id() for c in v.comps())
    elif z3.is_expr(v) and z3.is_int(v):
        t = 'int'
        sig = (t, v.get_id())
    elif z3.is_expr(v) and v.sort() == B:
        t = 'bool'
        sig = (t, v.get_id())
    elif z3.is_expr(v) and v.sort() == z3.ArraySort(I, B):
        t = 'map'
        sig = (t, key)
    else:
        return
    if not varying:
        if sig in seen:
            if not merge:
                return
            # also named by the merge point: a name every path has
        seen.add(sig)
    out.append((key, t, get, varying))


def candidates(ex, st, fr, lc):
    w = lc.w
    out = []
    cc = fr.cctx
    pre = lc.pre

    def cur(st_, fr_, key):
        if key[0] == 'obj':
            v = st_.objs[key[1]][key[2]]
            c = key[3:] if len(key) > 3 else ()
        elif key[0] == 'ghost':
            v = st_.ghost[key[1]]
            c = ()
        else:
            v = fr_.env[key[0]]
            c = key[1:]
        if isinstance(v, SV):
            return dict(zip(('ref', 'off', 'len', 'cap'), v.comps()))[c[0]]
        return v
    # integer components that are neither constant nor affine
    entry_next = cc.entry.next if cc is not None else None
    for key, init in comps_init(lc):
        ks_ = '.'.join(str(k) for k in key)
        if key in w.stable:
            continue
        aff = key in w.affine
        if not z3.is_int(init):
            continue
        c = key[-1]

        def C(name, f, key=key, init=init):
            out.append(Cand('%s %s' % (ks_, name), lambda s, r, l, n, f=f, key=key, init=init: f(cur(s, r, key), init, n)))
        if aff:
            C('>=0', lambda v, i, n: v >= 0)
        else:
            C('==init', lambda v, i, n: v == i)
            if c == 'ref':
                C('fresh', lambda v, i, n: v >= entry_next)
                C('fresh0', lambda v, i, n: v >= lc.next0)
                C('older', lambda v, i, n: v < lc.next0)
                for j, d in enumerate(st.dead):
                    C('live%d' % j, lambda v, i, n, d=d: v != d)
            else:
                C('==init+n', lambda v, i, n: v == i + n)
                C('==init-n', lambda v, i, n: v == i - n)
                C('>=init', lambda v, i, n: v >= i)
                C('<=init', lambda v, i, n: v <= i)
                C('>=0', lambda v, i, n: v >= 0)
    ik = [(key, init) for key, init in comps_init(lc) if key not in w.stable and z3.is_int(init)]
    for a, (k1, i1) in enumerate(ik):
        for k2, i2 in ik[a + 1:]:
            if k1 in w.affine and k2 in w.affine:
                continue
            if k1[:1] == k2[:1] and k1[0] not in ('obj', 'ghost'):
                continue
            out.append(Cand('par %s %s' % (k1, k2), lambda s, r, l, n, k1=k1, k2=k2, d=z3.simplify(i1 - i2): cur(s, r, k1) - cur(s, r, k2) == d))
    seen = set()
    for t, b, deps in w.cmps:
        def mk(op, t=t, b=b, deps=deps):
            def f(s, r, l, n):
                tt = z3.substitute(t, *[(w.probe_sorts[nm], cur(s, r, k)) for k, nm in deps])
                return {'<=': tt <= b, '>=': tt >= b, '>=-1': tt >= b - 1, '<': tt < b, '>': tt > b, '<=1': tt <= b + 1}[op]
            return f
        ts = str(z3.simplify(t - b))
        if ts in seen or len(ts) > 300:
            continue
        seen.add(ts)
        for op in ('<=', '>=', '>=-1', '<', '>'):
            out.append(Cand('cmp%d %s' % (len(seen), op), mk(op)))
    # heap frames
    sc = scope(ex, st, fr, lc)
    for kind, (inv, fresh, var) in w.heaps.items():
        if not var:
            continue
        base = pre.heaps[kind]
        invt = list(inv.values())
        r = z3.Int('r_')

        def G(name, cond, kind=kind, base=base, invt=invt):
            def f(s, r2, l, n):
                M = s.heaps[kind]
                return logic.ax([r], [M[r]], Im(A(r < lc.next0, *([r != t for t in invt] + [cond(r)])), M[r] == base[r]))
            out.append(Cand('frame %s %s' % (kind, name), f))
        G('none', lambda r: z3.BoolVal(True))
        seenr = set()
        ty = {'b': 'bytes', 'i': 'ints', 's': 'rows'}[kind]
        for key, t, get, varying in sc:
            if t != ty or varying:
                continue
            ref = get(st).ref
            if ref.get_id() in seenr:
                continue
            seenr.add(ref.get_id())

            def U(s, r2, l, n, ref=ref, kind=kind, base=base):
                return s.heaps[kind][ref] == base[ref]
            out.append(Cand('same %s %s' % (kind, key), U))
            G('except ' + key, lambda r, ref=ref: r != ref)
        for j, (k2, n2, a, b) in enumerate(st.exits):
            G('interval %d' % j, lambda r, a=a, b=b: O(r < a, r >= b))
        if entry_next is not None:
            G('entry', lambda r: r < entry_next)
        for j, t in enumerate(st.fronts):
            G('front %d' % j, lambda r, t=t: r < t)
        for key, t, get, varying in sc:
            if t in ('bytes', 'ints', 'rows') and not varying:
                ref = get(st).ref
                if z3.is_int_value(ref) or ref.get_id() in seenr and t == ty and False:
                    continue
                k2 = ('ge', ref.get_id())
                if k2 in seenr:
                    continue
                seenr.add(k2)
                if not (z3.is_const(ref) and ref.decl().name() in ex.allocsyms):
                    continue                    # older and newer than what this function allocated
                G('ge ' + key, lambda r, ref=ref: r >= ref)
                G('lt ' + key, lambda r, ref=ref: r < ref)
    # element-level frame of the enclosing contracts
    chain, cx = [], cc
    while cx is not None:
        chain.append(cx)
        cx = cx.outer
    for d, cx in enumerate(chain):
        if cx.spec is None:
            continue
        try:
            mods = ex.lib.mods(ex, st, cx, cx.spec, ex.prop)
        except Exception:
            continue
        for kind, (inv, fresh, var) in w.heaps.items():
            E = cx.entry.heaps[kind]
            ms = [m[1] for m in mods if m[0] == 'mem' and m[1].kind == kind]
            r, i = z3.Ints('r_ i_')
            for j, s in enumerate(ms):
                def R(st_, r2, l, n, s=s, kind=kind, E=E):
                    c = ex.hsel(st_.heaps[kind], s.ref)
                    return logic.ax([i], [c[i]], Im(O(i < s.off, i >= s.off + s.len), c[i] == E[s.ref][i]))
                out.append(Cand('outside%d.%d %s' % (d, j, kind), R))
            if not var and not fresh and all(any(s.ref.eq(t) for s in ms) for t in inv.values()):
                continue

            def FR(st_, r2, l, n, ms=ms, kind=kind, E=E, nx=cx.entry.next):
                M = st_.heaps[kind]
                t = M[r][i]
                return logic.ax([r, i], [t], Im(A(r < nx, *[z3.Not(A(r == s.ref, i >= s.off, i < s.off + s.len)) for s in ms]), t == E[r][i]))
            out.append(Cand('eframe%d %s' % (d, kind), FR))
    # contract schemas
    if cc is not None:
        out += ex.lib.schema_cands(ex, st, fr, lc, sc)
    return out


def comps_init(lc):
    return list(lc.w.init.items()) if lc.w.init else []


def ground(f, name, out, seen=None):
    """the closed subterms with that head symbol"""
    seen = set() if seen is None else seen
    k = f.get_id()
    if k in seen:
        return not (z3.is_var(f))
    seen.add(k)
    if z3.is_var(f):
        return False
    if z3.is_quantifier(f):
        ground(f.body(), name, out, seen)
        return False
    ok = True
    for c in f.children():
        if not ground(c, name, out, seen):
            ok = False
    if ok and z3.is_app(f) and f.decl().name() == name and closed(f):
        out[k] = f
    return ok


def closed(f):
    return not z3.is_var(f) and not z3.is_quantifier(f) and all(closed(c) for c in f.children())
