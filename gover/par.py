"""Goroutines.

A `go` statement is replaced by the sequential execution of its body, which is
justified by obligations that make every schedule equivalent to it:

 * a goroutine writes only memory it allocated itself, or bytes of memory this
   function allocated whose index lies in its own interval [lo, hi);
 * the intervals of successive goroutines do not overlap (ghost HI);
 * a goroutine reads bytes only from the caller's memory (which nobody writes),
   its own interval, its own memory, memory allocated for it after the first
   goroutine started (which is never in an interval), or a captured byte slice
   (which then no goroutine writes);  slice headers and ints are read only;
 * the variables it captures are not written by it, nor by the starter while
   goroutines run; the starter does not touch their memory before Wait;
 * each goroutine calls Done exactly once, as its last shared access; Add comes
   before the go statement; at Wait the Adds equal the goroutines started
   (ghosts ADD, GO), and none is left running at return (ghost WT).

The package-level functions of math/rand are assumed safe for concurrent use."""
import z3
from logic import *
from exec import SV, Ptr, Clo, Frame, Probe, Node, Opq, StructV, PElem, PArr, Unsupported
import exec as _e

GHOSTS = ('GO', 'WT', 'ADD', 'HI', 'GN')


class Par:
    """who is executing: the starter ('main') or a goroutine body ('go')"""

    def __init__(self, mode, **kw):
        self.mode = mode
        self.born = {}
        self.wg = None
        self.g1 = None
        for k, v in kw.items():
            setattr(self, k, v)

    def but(self, **kw):
        p = Par(self.mode)
        p.__dict__.update(self.__dict__)
        p.__dict__.update(kw)
        return p


def sites(prog, fn):
    return [i for b in fn.blocks for i in b.ins if i['op'] == 'go']


def start(ex, st, fn):
    for g in GHOSTS:
        st.ghost[g] = z3.IntVal(0)
    if sites(ex.prog, fn):
        ex.gosites = sites(ex.prog, fn)
        # registers whose value a goroutine may hold
        regs = set()
        for s in ex.gosites:
            regs |= set(a['name'] for a in s['call']['args'] if a['k'] == 'reg')
            f = s['call'].get('fn')
            if f and f['k'] == 'reg':
                for b in fn.blocks:
                    for i in b.ins:
                        if i.get('id') == f['name'] and i['op'] == 'makeclosure':
                            regs |= set(x['name'] for x in i['bindings'] if x['k'] == 'reg')
        ex.gocaptured = regs
        ex.goentry = st.next
        st.par = Par('main', depth=len(st.frames))


def born(ex, st, oid):
    st.par = st.par.but(born=dict(st.par.born, **{str(oid): st.ghost['GO']}))


def idle(st):
    return st.ghost['WT'] == st.ghost['GO']


def captured(ex, st):
    out = set()
    env = st.frames[0].env
    for r in ex.gocaptured:
        v = env.get(r)
        if isinstance(v, Ptr):
            out.add(v.oid)
    return out


def access(ex, st, what, write):
    p = st.par
    if what[0] == 'obj':
        oid = what[1]
        if p.mode == 'main':
            if write and oid in captured(ex, st) and oid != p.wg:
                b = p.born.get(str(oid))
                ex.check(st, idle(st) if b is None else O(idle(st), st.ghost['GO'] == b), 'race',
                         'a variable shared with goroutines is not written while they run')
            return
        if oid > p.oid0:
            return
        if write:
            ex.check(st, z3.BoolVal(False), 'race', 'a goroutine does not write a variable it shares')
        notdone(ex, st)
        return
    kind, ref = what[1], what[2]
    if what[0] == 'mem':
        lo, hi = what[3], what[3] + 1
    else:
        lo, hi = what[3], what[4]
    empty = lo >= hi
    if p.mode == 'main':
        if write:
            ex.check(st, O(empty, idle(st), ref >= st.ghost['GN']), 'race', 'memory is not written by the starter while goroutines run')
        elif kind == 'b':
            ex.check(st, O(empty, idle(st), ref < ex.goentry, ref >= st.ghost['GN']), 'race', 'bytes the goroutines may write are not read before Wait')
        return
    own = O(empty, ref >= p.next0)
    inside = A(ref >= ex.goentry, ref < p.g1, p.lo <= lo, hi <= p.hi) if p.lo is not None else z3.BoolVal(False)
    if write:
        if p.collect is not None and st.probes and st.probes[-1] is p.probe and kind == 'b' and not surely_own(ex, p, ref):
            p.collect.append((lo, hi, list(st.facts)))
        ok = own
        if kind == 'b':
            ok = O(own, A(inside, *[ref != r for r in p.ro]))
        ex.check(st, ok, 'race', 'a goroutine writes only its own interval or its own memory')
    elif kind == 'b':
        ok = [own, ref < ex.goentry, inside] + [ref == r for r in p.ro]
        if len(ex.gosites) == 1:
            ok.append(ref >= p.g1)
        ex.check(st, O(*ok), 'race', 'a goroutine reads only memory that nobody else writes')
    if not surely_own(ex, p, ref):
        notdone(ex, st, own)


def surely_own(ex, p, ref):
    return z3.is_const(ref) and ref.decl().name() in ex.allocsyms and ex.allocsyms[ref.decl().name()] > p.time


def notdone(ex, st, unless=None):
    if st.par.done:
        ex.check(st, z3.BoolVal(False) if unless is None else unless, 'race', 'no shared access after WaitGroup.Done')


def reachable(ex, st, v, out, depth=0):
    if isinstance(v, SV):
        out.append(v)
    elif isinstance(v, Ptr):
        for path, x in st.objs.get(v.oid, {}).items():
            if path[:len(v.path)] == v.path and depth < 4:
                out.append(('obj', v.oid, path))
                reachable(ex, st, x, out, depth + 1)
    elif isinstance(v, StructV):
        for x in v.f:
            reachable(ex, st, x, out, depth + 1)
    elif isinstance(v, Opq) and v.what == 'iface':
        reachable(ex, st, v.data, out, depth + 1)


def args(ex, st, vals):
    """a callee may read whatever its arguments reach"""
    out = []
    for v in vals:
        if isinstance(v, (PElem, PArr)):
            if isinstance(v, PElem):
                access(ex, st, ('mem', v.kind, v.ref, v.idx), False)
            else:
                access(ex, st, ('range', v.kind, v.ref, v.off, ex.add(v.off, z3.IntVal(v.n))), False)
            continue
        reachable(ex, st, v, out)
    for v in out:
        if isinstance(v, tuple):
            access(ex, st, v, False)
        elif v.kind == 's':
            if st.par.mode == 'go':
                raise Unsupported('slice of slices passed to a function in a goroutine')
            ex.check(st, idle(st), 'race', 'slices shared with goroutines are not passed on while they run')
        else:
            access(ex, st, ('range', v.kind, v.ref, v.off, ex.add(v.off, v.len)), False)


def body(ex, st, fr, i, f, vals, par, quiet):
    fn = ex.prog.funcs.get(f.fn)
    if fn is None or not fn.blocks:
        raise Unsupported('go of an external function')
    n = Frame()
    n.fn, n.env, n.blk, n.ip, n.prev = fn, {}, 0, 0, -1
    n.defers, n.retreg, n.active, n.own = [], None, {}, False
    n.path = fr.path + '>go ' + ex.prog.short(f.fn) + '@%d.%d' % (fr.blk, fr.ip)
    n.cctx = fr.cctx
    for p, a in zip(fn.params, vals):
        n.env[p['name']] = a
    for p, a in zip(fn.freevars, f.binds):
        n.env[p['name']] = a
    ghosts = dict(GO=st.ghost['GO'])

    def after(s, rv):
        q = s.par
        ex.check(s, z3.BoolVal(q.done == 1), 'race', 'each goroutine calls Done exactly once')
        ex.setghost(s, 'GO', z3.simplify(s.ghost['GO'] + 1))
        ex.setghost(s, 'GN', s.next)
        s.par = par.but(born=q.born)
    n.after = after
    st.par = Par('go', lo=None, hi=None, ro=[], oid0=ex.oidc, next0=st.next, time=ex.k, done=0, collect=None,
                 born=par.born, wg=par.wg, g1=par.g1)
    st.frames.append(n)
    return n


def go(ex, st, fr, i):
    par = st.par
    if par is None:
        raise Unsupported('go in a function verified as sequential')
    if par.mode != 'main' or len(st.frames) != 1:
        raise Unsupported('go inside a goroutine or a called function')
    c = i['call']
    if 'invoke' in c:
        raise Unsupported('go of an interface method')
    f = ex.val(st, c['fn'])
    if not isinstance(f, Clo):
        raise Unsupported('go of an indirect function')
    vals = [ex.val(st, a) for a in c['args']]
    # memory allocated from here on belongs to no interval
    outer = None
    for h, lc in fr.active.items():
        outer = lc if outer is None else outer
    g1 = outer.next0 if outer is not None else st.next
    par = par.but(g1=g1)
    if par.wg is None:
        for b in f.binds + vals:
            if isinstance(b, Ptr) and st.otype.get(b.oid, {}).get('name') == 'sync.WaitGroup':
                par = par.but(wg=b.oid)
    bindv = [st.objs[b.oid].get(()) if isinstance(b, Ptr) else b for b in f.binds]
    ro = [v.ref for v in bindv if isinstance(v, SV) and v.kind == 'b'] if len(ex.gosites) == 1 else []
    # the interval: a pair of integers known at the go statement that bounds the bytes written
    s2 = st.clone()
    s2.node = Node()
    s2.quiet += 1
    n2 = body(ex, s2, s2.fr, i, f, vals, par, True)
    s2.par.collect = col = []
    s2.par.probe = Probe(len(s2.frames), -1, set(range(len(n2.fn.blocks))), ex.k, ex.oidc)
    s2.probes = s2.probes + [s2.par.probe]
    ex.explore(s2)
    ints, seen = [], set()
    for v in vals + bindv:
        ts = []
        if isinstance(v, SV):
            if v.kind == 'b':
                ts = [v.off, z3.simplify(v.off + v.len), v.len]
        elif z3.is_expr(v) and z3.is_int(v):
            ts = [v]
        for t in ts:
            if t.get_id() not in seen:
                seen.add(t.get_id())
                ints.append(t)
    lo = best(ex, st, col, ints, lambda w, t: t <= w[0], True)
    hi = best(ex, st, col, ints, lambda w, t: w[1] <= t, False)
    if lo is None or hi is None:
        lo, hi = st.ghost['HI'], st.ghost['HI']        # empty: a write in the body is then an error
    ex.check(st, lo >= st.ghost['HI'], 'race', 'goroutines get disjoint byte ranges')
    ex.check(st, hi >= st.ghost['HI'], 'race', 'goroutines get disjoint byte ranges (upper end)')
    ex.check(st, st.ghost['ADD'] >= st.ghost['GO'] + 1, 'race', 'WaitGroup.Add comes before the goroutine starts')
    ex.setghost(st, 'HI', hi)
    body(ex, st, fr, i, f, vals, par, False)
    st.par.lo, st.par.hi, st.par.ro = lo, hi, ro
    return 'jumped'


def noff(t):
    """the index without the offset of a row within its array (this only guesses the interval; it is proved later)"""
    out, seen = [], set()

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == 'soff':
            out.append((x, z3.IntVal(0)))
            return
        for c in x.children():
            walk(c)
    walk(t)
    return z3.simplify(z3.substitute(t, *out)) if out else t


def best(ex, st, col, ints, rel, low):
    """the tightest integer that bounds every write"""
    good = []
    for t in ints:
        ok = True
        for w in col:
            s = z3.SimpleSolver()
            s.set('rlimit', 300000)
            for g in w[2]:
                s.add(g)
            s.add(z3.Not(rel([noff(w[0]), noff(w[1])], t)))
            if s.check() != z3.unsat:
                ok = False
                break
        if ok:
            good.append(t)
    if not good:
        return None
    b = good[0]
    for t in good[1:]:
        if ex.entails(st, t >= b if low else t <= b):
            b = t
    return b


# ---------------------------------------------------------------- sync.WaitGroup
def theone(ex, st, a):
    if st.par is None or not isinstance(a, Ptr):
        raise Unsupported('WaitGroup outside a parallel function')
    if st.par.wg is not None and st.par.wg != a.oid:
        raise Unsupported('more than one WaitGroup')
    st.par = st.par.but(wg=a.oid)


def wg_add(ex, st, fr, i, a):
    theone(ex, st, a[0])
    if st.par.mode == 'go':
        ex.check(st, z3.BoolVal(False), 'race', 'WaitGroup.Add comes before the goroutine starts, not inside it')
        return None
    ex.check(st, a[1] >= 0, 'race', 'WaitGroup.Add of a non-negative number')
    ex.setghost(st, 'ADD', z3.simplify(st.ghost['ADD'] + a[1]))
    return None


def wg_done(ex, st, fr, i, a):
    theone(ex, st, a[0])
    if st.par.mode != 'go':
        ex.check(st, z3.BoolVal(False), 'race', 'WaitGroup.Done is called by the goroutines')
        return None
    if any(f.active for f in st.frames[1:]):
        raise Unsupported('WaitGroup.Done in a loop')
    st.par = st.par.but(done=st.par.done + 1)
    return None


def wg_wait(ex, st, fr, i, a):
    theone(ex, st, a[0])
    if st.par.mode == 'go':
        raise Unsupported('WaitGroup.Wait in a goroutine')
    ex.check(st, st.ghost['ADD'] == st.ghost['GO'], 'race', 'Wait returns: every Add has its goroutine')
    ex.setghost(st, 'WT', st.ghost['GO'])
    return None


def at_exit(ex, st):
    ex.check(st, idle(st), 'race', 'every goroutine has ended at return')


import ext   # noqa: E402
ext.H['(*sync.WaitGroup).Add'] = wg_add
ext.H['(*sync.WaitGroup).Done'] = wg_done
ext.H['(*sync.WaitGroup).Wait'] = wg_wait
