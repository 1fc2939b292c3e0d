"""Symbolic execution of the SSA of one function against contracts.

The result is a tree of path conditions and proof obligations; prove.py
discharges it.  Loops are cut at their headers (havoc what the body writes,
assume the invariant candidates, re-prove them at every back edge)."""
import z3
from logic import *
import logic
from ir import under, intinfo, isbool, elemkind

MAXLEN = 1 << 47


class Unsupported(Exception):
    pass


class Node:
    __slots__ = ('items', 'kids')

    def __init__(self):
        self.items = []
        self.kids = []


class SV:
    """a slice value"""
    __slots__ = ('kind', 'ref', 'off', 'len', 'cap')

    def __init__(self, kind, ref, off, ln, cap):
        self.kind, self.ref, self.off, self.len, self.cap = kind, ref, off, ln, cap

    def comps(self):
        return (self.ref, self.off, self.len, self.cap)

    def __repr__(self):
        return 'SV(%s,%s,%s,%s,%s)' % (self.kind, self.ref, self.off, self.len, self.cap)


class Ptr:
    """pointer to a Python-level object field"""
    __slots__ = ('oid', 'path')

    def __init__(self, oid, path=()):
        self.oid, self.path = oid, path


class PElem:
    __slots__ = ('kind', 'ref', 'idx')

    def __init__(self, kind, ref, idx):
        self.kind, self.ref, self.idx = kind, ref, idx


class PArr:
    __slots__ = ('kind', 'ref', 'off', 'n', 'et')

    def __init__(self, kind, ref, off, n, et):
        self.kind, self.ref, self.off, self.n, self.et = kind, ref, off, n, et


class GPtr:
    __slots__ = ('name', 't')

    def __init__(self, name, t):
        self.name, self.t = name, t


class Clo:
    __slots__ = ('fn', 'binds')

    def __init__(self, fn, binds):
        self.fn, self.binds = fn, binds


class Opq:
    """a value the verifier only passes around"""
    __slots__ = ('what', 'data')

    def __init__(self, what, data=None):
        self.what, self.data = what, data

    def __repr__(self):
        return 'Opq(%s)' % self.what


class StructV:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f


class Pack:
    """an unsigned integer known as its little-endian bytes"""
    __slots__ = ('bytes',)

    def __init__(self, bs):
        self.bytes = bs


class ArrV:
    """an array value (copy of a region)"""
    __slots__ = ('kind', 'content', 'off', 'n')

    def __init__(self, kind, content, off, n):
        self.kind, self.content, self.off, self.n = kind, content, off, n


class Frame:
    __slots__ = ('fn', 'env', 'blk', 'ip', 'prev', 'defers', 'retreg', 'path', 'cctx', 'active', 'after', 'own')

    def clone(self):
        f = Frame()
        f.fn, f.blk, f.ip, f.prev, f.retreg, f.path, f.cctx, f.after, f.own = self.fn, self.blk, self.ip, self.prev, self.retreg, self.path, self.cctx, self.after, self.own
        f.env = dict(self.env)
        f.defers = list(self.defers)
        f.active = dict(self.active)
        return f


class Snap:
    __slots__ = ('heaps', 'objs', 'ghost', 'next', 'time')


class State:
    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.heaps = dict(self.heaps)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.otype = dict(self.otype)
        s.ghost = dict(self.ghost)
        s.next = self.next
        s.node = self.node
        s.quiet = self.quiet
        s.probes = list(self.probes)
        s.hw = list(self.hw)
        s.exits = list(self.exits)
        s.owned = dict(self.owned)
        s.dead = list(self.dead)
        s.facts = list(self.facts)
        s.calls = dict(self.calls)
        s.par = self.par
        s.log = self.log
        s.wits = self.wits
        s.fronts = self.fronts
        return s

    def snap(self):
        s = Snap()
        s.heaps, s.ghost, s.next = dict(self.heaps), dict(self.ghost), self.next
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        return s

    def fork(self):
        """two children nodes"""
        o = self.clone()
        a, b = Node(), Node()
        self.node.kids += [a, b]
        self.node, o.node = a, b
        return o

    @property
    def fr(self):
        return self.frames[-1]


class Probe:
    def __init__(self, depth, hdr, body, time, oid0):
        self.depth, self.hdr, self.body, self.time, self.oid0 = depth, hdr, body, time, oid0
        self.latches = []
        self.hw = []
        self.objs = set()
        self.ghosts = set()
        self.cmps = []
        self.matargs = []


class LV:
    """a loop variable: one integer component of something the loop changes"""
    __slots__ = ('key', 'sym', 'init', 'info', 'get')


class LoopCtx:
    pass


class Exec:
    def __init__(self, prog, lib, prop=None):
        self.prog = prog
        self.lib = lib              # contracts
        self.prop = prop
        self.k = 0
        self.symtime = {}
        self.allocsyms = {}
        self.oidc = 0
        self._tm = {}
        self._keep = []
        self.usedcontracts = set()
        self.inlined = set()
        self.trusted = set()
        self.posting = False
        self.statics = {}
        self.candinfo = {}
        self.nosolve = False
        self.loopinfo = {}
        self.paths = 0
        self.gbools = {}
        self.flagfacts = []
        self.wrapped = {}
        self.shardrefs = {}
        self.matargs = {}
        self.spec = None

    # ---------------------------------------------------------- symbols
    def fresh(self, name, sort=None):
        self.k += 1
        n = '%s!%d' % (name, self.k)
        c = z3.Const(n, sort if sort is not None else I)
        self.symtime[n] = self.k
        return c

    def maxtime(self, t):
        i = t.get_id()
        r = self._tm.get(i)
        if r is not None:
            return r
        self._keep.append(t)
        # iterative post-order
        stack = [t]
        while stack:
            x = stack[-1]
            xi = x.get_id()
            if xi in self._tm:
                stack.pop()
                continue
            if z3.is_quantifier(x):
                ch = [x.body()]
            else:
                ch = x.children()
            pend = [c for c in ch if c.get_id() not in self._tm]
            if pend:
                self._keep.extend(pend)
                stack.extend(pend)
                continue
            if z3.is_app(x) and not ch:
                m = self.symtime.get(x.decl().name(), 0)
            else:
                m = max([self._tm[c.get_id()] for c in ch], default=0)
            self._tm[xi] = m
            self._keep.append(x)
            stack.pop()
        return self._tm[i]

    def symbols(self, t):
        out, seen, stack = set(), set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            ch = x.children()
            if z3.is_app(x) and not ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(ch)
        return out

    # ---------------------------------------------------------- recording
    def assume(self, st, f, tag=None):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if tag is None and z3.is_true(f):
            return
        st.node.items.append(('a', f, tag))
        if tag is None and not z3.is_quantifier(f):
            st.facts.append(f)

    def check_any(self, st, alts, kind, what, labels=None):
        """a proof obligation with a list of candidate witnesses"""
        if st.quiet:
            return
        st.node.items.append(('c', alts, dict(kind=kind, what=what, labels=labels, fn=st.fr.path, pos='', trivial=False)))

    def check(self, st, f, kind, what, labels=None):
        """a proof obligation (then assumed)"""
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if st.quiet:
            return
        fs = z3.simplify(f) if not z3.is_quantifier(f) else f
        fr = st.fr
        pos = ''
        try:
            ins = fr.fn.blocks[fr.blk].ins
            for j in range(min(fr.ip, len(ins) - 1), -1, -1):
                if 'pos' in ins[j]:
                    pos = ins[j]['pos']
                    break
        except Exception:
            pass
        st.node.items.append(('c', f, dict(kind=kind, what=what, labels=labels, fn=fr.path, pos=pos, trivial=z3.is_true(fs))))
        if z3.is_quantifier(f) and f.num_patterns() and len(f.pattern(0).children()) > 1:
            return                      # about pairs: costly to keep, and it follows anyway
        if not z3.is_true(fs):
            st.node.items.append(('a', f, None))
            if not z3.is_quantifier(f):
                st.facts.append(f)

    # ---------------------------------------------------------- heap
    def distinct(self, a, b):
        if z3.is_int_value(a) and z3.is_int_value(b):
            return a.as_long() != b.as_long()
        for x, y in ((a, b), (b, a)):
            if z3.is_const(x) and x.decl().name() in self.allocsyms:
                tx = self.allocsyms[x.decl().name()]
                if self.maxtime(y) < tx:
                    return True
                if z3.is_const(y) and y.decl().name() in self.allocsyms and not x.eq(y):
                    return True
        return False

    def hsel(self, M, ref):
        while z3.is_app(M) and M.decl().kind() == z3.Z3_OP_STORE:
            b, r, v = M.children()
            if r.eq(ref):
                return v
            if self.distinct(r, ref):
                M = b
                continue
            break
        return z3.Select(M, ref)

    def asel(self, Ar, i):
        while z3.is_app(Ar) and Ar.decl().kind() == z3.Z3_OP_STORE:
            b, r, v = Ar.children()
            if r.eq(i):
                return v
            if z3.is_int_value(z3.simplify(r - i)):
                if z3.simplify(r - i).as_long() == 0:
                    return v
                Ar = b
                continue
            break
        if z3.is_app(Ar) and Ar.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            return Ar.children()[0]
        return z3.Select(Ar, i)

    def content(self, st, kind, ref):
        return self.hsel(st.heaps[kind], ref)

    def setcontent(self, st, kind, ref, A_, lo=None, hi=None):
        """record a write to a region"""
        self.note_write(st, kind, ref)
        st.heaps[kind] = z3.Store(st.heaps[kind], ref, A_)

    def note_write(self, st, kind, ref):
        for p in st.probes:
            p.hw.append((kind, ref))
        st.hw.append((kind, ref))
        self.live(st, ref)
        if z3.is_int_value(ref) and ref.as_long() < 0:
            self.check(st, z3.BoolVal(False), 'frame', 'write to a global table')

    def live(self, st, ref):
        for d in st.dead:
            if not self.distinct(d, ref):
                self.check(st, ref != d, 'ownership', 'scratch memory used after it was returned to the pool')

    def live_args(self, st, args):
        """memory handed to a callee is not memory that was given back"""
        if self.prop != 'C13' or not st.dead:
            return
        for a in args:
            if isinstance(a, Ptr) and a.oid in st.objs and not a.path:
                for p, x in list(st.objs[a.oid].items()):
                    if isinstance(x, SV) and p != ('buf',):
                        self.live_sv(st, x)
            elif isinstance(a, SV):
                self.live_sv(st, a)

    def live_sv(self, st, a):
        self.live(st, a.ref)
        if a.kind == 's' and not (z3.is_int_value(a.ref) and a.ref.as_long() <= 0):
            c = self.content(st, 's', a.ref)
            j = z3.Int('i_')
            for d in st.dead:
                self.check(st, logic.ax([j], [c[j]], z3.Implies(z3.And(j >= a.off, j < a.off + a.len), Slice.sref(c[j]) != d)), 'ownership',
                           'scratch memory used after it was returned to the pool')

    def obj_write(self, st, oid, path):
        for p in st.probes:
            if oid <= p.oid0:
                p.objs.add((oid, path))

    def setobj(self, st, oid, path, v):
        if st.par:
            self.par_access(st, ('obj', oid, path), True)
        self.obj_write(st, oid, path)
        st.objs[oid][path] = v

    def setghost(self, st, name, v):
        if name == 'SP' and st.par and st.par.mode == 'go':
            raise Unsupported('cipher stream used in a goroutine')
        for p in st.probes:
            p.ghosts.add(name)
        st.ghost[name] = v

    def add(self, a, b):
        if z3.is_int_value(a) and a.as_long() == 0:
            return b
        if z3.is_int_value(b) and b.as_long() == 0:
            return a
        return z3.simplify(a + b)

    # region allocation
    def newref(self, st, name='m'):
        r = self.fresh('ref_' + name)
        self.allocsyms[r.decl().name()] = self.k
        nx = self.fresh('next')
        self.assume(st, A(r == st.next, nx == r + 1))
        st.next = nx
        return r

    def zero(self, kind):
        if kind == 'b':
            return z3.K(I, mkc(z3.IntVal(0)))
        if kind == 'i':
            return z3.K(I, z3.IntVal(0))
        z = z3.IntVal(0)
        return z3.K(I, Slice.mkS(z, z, z, z))

    def alloc_region(self, st, kind, name='m'):
        r = self.newref(st, name)
        for p in st.probes:
            p.hw.append((kind, r))
        st.hw.append((kind, r))
        st.heaps[kind] = z3.Store(st.heaps[kind], r, self.zero(kind))
        return r

    def newobj(self, st, t):
        self.oidc += 1
        st.objs[self.oidc] = {}
        st.otype[self.oidc] = t
        if st.par:
            import par
            par.born(self, st, self.oidc)
        return self.oidc

    # ---------------------------------------------------------- typed values
    def wf_slice(self, st, s, nxt=None):
        nx = st.next if nxt is None else nxt
        return A(s.off >= 0, s.len >= 0, s.len <= s.cap, s.cap <= MAXLEN, s.off <= MAXLEN, s.ref < nx, s.ref >= 0,
                 Im(s.ref == 0, A(s.cap == 0, s.off == 0)))

    def wf_term(self, t, nx):
        return A(Slice.soff(t) >= 0, Slice.slen(t) >= 0, Slice.slen(t) <= Slice.scap(t), Slice.scap(t) <= MAXLEN, Slice.soff(t) <= MAXLEN,
                 *([] if nx is None else [Slice.sref(t) < nx]), Slice.sref(t) >= 0, Im(Slice.sref(t) == 0, A(Slice.scap(t) == 0, Slice.soff(t) == 0)))

    def wf_heap(self, st, M, nx):
        r, i = z3.Ints('r_ i_')
        t = M[r][i]
        # what is not allocated yet will be well-formed when it is read
        self.assume(st, logic.ax([r, i], [t], A(self.wf_term(t, None), Im(r < nx, Slice.sref(t) < nx))))

    def intrange(self, v, info):
        bits, signed = info
        if signed:
            return A(v >= -(1 << (bits - 1)), v <= (1 << (bits - 1)) - 1)
        return A(v >= 0, v <= (1 << bits) - 1)

    def fresh_slice(self, st, kind, name):
        s = SV(kind, self.fresh(name + '.ref'), self.fresh(name + '.off'), self.fresh(name + '.len'), self.fresh(name + '.cap'))
        self.assume(st, self.wf_slice(st, s))
        return s

    def fresh_value(self, st, t, name):
        u = under(t)
        ii = intinfo(t)
        if ii:
            v = self.fresh(name)
            self.assume(st, self.intrange(v, ii))
            return v
        if isbool(t):
            return self.fresh(name, B)
        if u['k'] == 'slice':
            return self.fresh_slice(st, elemkind(u['e']), name)
        if u['k'] == 'basic' and u['name'] == 'string':
            return self.fresh(name, Str)
        if u['k'] == 'iface':
            return self.fresh(name)
        if u['k'] == 'struct':
            return StructV(t, [self.fresh_value(st, f['t'], name + '.' + f['name']) for f in u['f']])
        if u['k'] == 'ptr':
            return self.fresh_ptr(st, t, name)
        if u['k'] == 'tuple':
            return [self.fresh_value(st, e, '%s.%d' % (name, i)) for i, e in enumerate(u['e'])]
        return Opq(name, self.fresh(name))

    def fresh_ptr(self, st, t, name):
        e = t['e'] if t['k'] == 'ptr' else under(t)['e']
        ue = under(e)
        if e['k'] == 'named' and e['name'] == 'bytes.Buffer':
            oid = self.newobj(st, e)
            st.objs[oid][('buf',)] = self.fresh_slice(st, 'b', name)
            return Ptr(oid)
        if ue['k'] == 'struct':
            oid = self.newobj(st, e)
            self.init_obj(st, oid, (), e, name, fresh=True)
            return Ptr(oid)
        return Opq(name, self.fresh(name))

    def init_obj(self, st, oid, path, t, name, fresh=False):
        """fill the fields of object oid under path with zero (or fresh) values"""
        u = under(t)
        o = st.objs[oid]
        nm = t.get('name', '') if t['k'] == 'named' else ''
        if nm == 'bytes.Buffer':
            z = z3.IntVal(0)
            o[path + ('buf',)] = SV('b', z, z, z, z)
            return
        if nm == 'sync.WaitGroup':
            o[path + ('cnt',)] = z3.IntVal(0)
            return
        if u['k'] == 'struct':
            for i, f in enumerate(u['f']):
                self.init_obj(st, oid, path + (i,), f['t'], name + '.' + f['name'], fresh)
            return
        if u['k'] == 'array':
            k = elemkind(u['e'])
            if k == 'x':
                o[path] = Opq('array')
                return
            r = self.alloc_region(st, k, name or 'arr')
            o[path] = PArr(k, r, z3.IntVal(0), u['n'], u['e'])
            return
        o[path] = self.fresh_value(st, t, name) if fresh else self.zero_value(st, t)

    def zero_value(self, st, t):
        u = under(t)
        z = z3.IntVal(0)
        if intinfo(t):
            return z
        if isbool(t):
            return z3.BoolVal(False)
        if u['k'] == 'slice':
            return SV(elemkind(u['e']), z, z, z, z)
        if u['k'] == 'iface':
            return z
        if u['k'] == 'struct':
            return StructV(t, [self.zero_value(st, f['t']) for f in u['f']])
        if u['k'] == 'basic' and u['name'] == 'string':
            return self.strlit('')
        return Opq('nil', 'nil')

    def strlit(self, s):
        return logic.strlit(s)

    # ---------------------------------------------------------- operands
    def val(self, st, o, fr=None):
        fr = fr or st.fr
        k = o['k']
        if k == 'reg':
            v = fr.env.get(o['name'])
            if v is None:
                raise Unsupported('undefined register %s in %s' % (o['name'], fr.fn.name))
            return v
        if k == 'const':
            t = o['t']
            if o.get('nil'):
                return self.zero_value(st, t)
            c = o.get('c')
            if c == 'int':
                return z3.IntVal(int(o['v']))
            if c == 'bool':
                return z3.BoolVal(o['v'])
            if c == 'string':
                return self.strlit(o['v'])
            return Opq('const')
        if k == 'global':
            return GPtr(o['name'], o['t'])
        if k == 'func':
            return Clo(o['name'], [])
        if k == 'builtin':
            return Opq('builtin:' + o['name'])
        raise Unsupported('operand ' + k)

    # ---------------------------------------------------------- memory access
    def static_ref(self, name):
        if name not in self.statics:
            self.statics[name] = -1 - len(self.statics)
        return z3.IntVal(self.statics[name])

    def load(self, st, p, t):
        if isinstance(p, Ptr):
            o = st.objs[p.oid]
            if st.par:
                self.par_access(st, ('obj', p.oid, p.path), False)
            if p.path in o:
                v = o[p.path]
                if isinstance(v, PArr):
                    return ArrV(v.kind, self.content(st, v.kind, v.ref), v.off, v.n)
                return v
            u = under(t)
            if u['k'] == 'struct':
                return StructV(t, [self.load(st, Ptr(p.oid, p.path + (i,)), f['t']) for i, f in enumerate(u['f'])])
            raise Unsupported('load of field')
        if isinstance(p, PElem):
            self.live(st, p.ref)
            if st.par:
                self.par_access(st, ('mem', p.kind, p.ref, p.idx), False)
            if z3.is_int_value(p.ref) and p.ref.as_long() < 0:
                return self.static_load(st, p)
            v = self.asel(self.content(st, p.kind, p.ref), p.idx)
            if p.kind == 'b':
                return self.cellval(v)
            if p.kind == 'i':
                ii = intinfo(t)
                if ii:
                    self.assume(st, self.intrange(v, ii))
                return v
            s = self.slice_of_term(v)
            self.assume(st, self.wf_slice(st, s))
            return s
        if isinstance(p, GPtr):
            return self.load_global(st, p, t)
        if isinstance(p, PArr):
            return ArrV(p.kind, self.content(st, p.kind, p.ref), p.off, p.n)
        if isinstance(p, Opq):
            return Opq(p.what + '*')
        raise Unsupported('load through %s' % type(p).__name__)

    def slice_of_term(self, v):
        if z3.is_app(v) and v.decl().name() == 'mkS':
            return SV('b', *v.children())
        return SV('b', Slice.sref(v), Slice.soff(v), Slice.slen(v), Slice.scap(v))

    def cellval(self, c):
        if z3.is_app(c) and c.decl().name() == 'mkc':
            # only byte-valued terms are ever stored
            return c.children()[0]
        return val(c)

    def term_of(self, v, kind):
        if kind == 'b':
            # keep the provenance of a byte that is merely copied
            if z3.is_app(v) and v.decl().name() == 'val':
                return v.children()[0]
            return mkc(v)
        if kind == 's':
            return Slice.mkS(v.ref, v.off, v.len, v.cap)
        return v

    def store(self, st, p, v):
        if isinstance(p, Ptr):
            if isinstance(v, StructV):
                for i, x in enumerate(v.f):
                    self.store(st, Ptr(p.oid, p.path + (i,)), x)
                return
            if isinstance(v, ArrV):
                raise Unsupported('array copy')
            self.setobj(st, p.oid, p.path, v)
            return
        if isinstance(p, PElem):
            if st.par:
                self.par_access(st, ('mem', p.kind, p.ref, p.idx), True)
            if isinstance(v, Pack):
                raise Unsupported('store of a packed word')
            t = self.pure(st, self.term_of(v, p.kind))
            self.setcontent(st, p.kind, p.ref, z3.Store(self.content(st, p.kind, p.ref), self.pure(st, p.idx), t))
            return
        if isinstance(p, Opq) and p.what.startswith('array'):
            return
        if isinstance(p, GPtr):
            self.check(st, z3.BoolVal(False), 'frame', 'write to package variable ' + self.prog.short(p.name))
            return
        if isinstance(p, Opq):
            return
        raise Unsupported('store through %s' % type(p).__name__)

    def pure(self, st, t):
        """name a term that contains connectives (they may not occur in patterns)"""
        if z3.is_const(t):
            return t
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if not z3.is_app(x) or x.sort() == B:
                break
            if x.decl().kind() == z3.Z3_OP_ITE:
                break
            stack.extend(x.children())
        else:
            return t
        if z3.is_app(t) and t.decl().name() in ('mkc', 'mkS'):
            return t.decl()(*[self.pure(st, c) for c in t.children()])
        c = self.fresh('v', t.sort())
        self.assume(st, c == t)
        return c

    def load_global(self, st, p, t):
        u = under(t)
        if isbool(t):
            if p.name not in self.gbools:
                self.gbools[p.name] = f = z3.Const('flag_' + p.name.split('/')[-1], B)
                fs = self.prog.cpuflags().get(p.name)
                if fs:
                    self.flagfacts.append(f == A(*[z3.Const('cpu_' + x, B) for x in fs]))
            for q in self.flagfacts:
                if not any(q.eq(z) for z in st.facts):
                    self.assume(st, q)
            return self.gbools[p.name]
        if u['k'] == 'slice':
            init = self.prog.globals[p.name].get('init')
            if init is None or elemkind(u['e']) != 'b':
                return Opq('global:' + p.name)
            n = z3.IntVal(len(init))
            return SV('b', self.static_ref(p.name), z3.IntVal(0), n, n)
        if u['k'] == 'array':
            raise Unsupported('array global by value')
        return Opq('global:' + self.prog.short(p.name))

    def static_load(self, st, p):
        name = [n for n, r in self.statics.items() if r == p.ref.as_long()][0]
        sh = self.prog.short(name)
        t = self.lib.tables.get(sh)
        if t is None or not t['const']:
            raise Unsupported('package table %s is not constant' % sh)
        tbl = F('T_' + sh, I, I)
        v = tbl(p.idx)
        facts = [byte(v)]
        # tables.py has compared every entry of the table with the field function
        for role in t['roles']:
            self.trusted.add('table ' + sh + ': ' + role)
            if role == 'mul':
                facts.append(v == gm(p.idx / 256, p.idx % 256))
            elif role == 'mullow':
                facts.append(v == gm(p.idx / 16, p.idx % 16))
            elif role == 'mulhigh':
                facts.append(v == gm(p.idx / 16, (p.idx % 16) * 16))
            elif role == 'exp':
                facts.append(v == g2(p.idx))
            elif role == 'log':
                facts.append(Im(p.idx != 0, v == glog(p.idx)))
            elif role == 'inv':
                facts.append(v == gi(p.idx))
        self.assume(st, A(*facts))
        return v

    # ---------------------------------------------------------- arithmetic
    def wrap(self, st, v, info, what):
        bits, signed = info
        if z3.is_int_value(v):
            x = v.as_long()
            m = 1 << bits
            if signed:
                y = ((x + m // 2) % m) - m // 2
            else:
                y = x % m
            if signed and x != y:
                self.check(st, z3.BoolVal(False), 'overflow', what)
            return z3.IntVal(y)
        if signed:
            self.check(st, A(v >= -(1 << (bits - 1)), v < (1 << (bits - 1))), 'overflow', what + ' does not overflow')
            return v
        return v

    def mulc(self, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(a) or z3.is_int_value(b):
            return z3.simplify(a * b)
        if str(a) > str(b):
            a, b = b, a
        return mul(a, b)

    def binop(self, st, o, x, y, t, xt):
        if o in ('==', '!='):
            r = self.equal(st, x, y)
            return r if o == '==' else z3.Not(r)
        if isinstance(x, Pack) or isinstance(y, Pack):
            if o == '^' and isinstance(x, Pack) and isinstance(y, Pack):
                return Pack([xor(a, b) for a, b in zip(x.bytes, y.bytes)])
            raise Unsupported('arithmetic %s on packed words' % o)
        if o in ('<', '<=', '>', '>='):
            if not (z3.is_int(x) and z3.is_int(y)):
                raise Unsupported('comparison')
            f = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]
            for p in st.probes:
                p.cmps.append((x, y))
            return f
        if isbool(t) and o in ('&', '|', '^'):
            return {'&': A(x, y), '|': O(x, y), '^': z3.Xor(x, y)}[o]
        info = intinfo(t)
        if info is None:
            if under(t)['k'] == 'basic' and under(t)['name'] == 'string':
                return self.fresh('str', Str)
            raise Unsupported('binop %s' % o)
        bits, signed = info
        M_ = 1 << bits
        if o == '+':
            v = z3.simplify(x + y)
            if signed:
                return self.wrap(st, v, info, 'addition')
            if z3.is_int_value(v):
                return self.wrap(st, v, info, '')
            return z3.If(v >= M_, v - M_, v)
        if o == '-':
            v = z3.simplify(x - y)
            if signed:
                if bits == 64 and z3.is_const(y) and not z3.is_int_value(y) and not any(f.active for f in st.frames) and self.mayoverflow(st, v):
                    # an argument nothing bounds: Go's wrap-around, not an obligation
                    r = self.fresh('w')
                    self.wrapped[r.decl().name()] = v
                    lo, hi = -(1 << 63), (1 << 63) - 1
                    self.assume(st, A(Im(A(v >= lo, v <= hi), r == v), Im(v > hi, r == v - (1 << 64)), Im(v < lo, r == v + (1 << 64))))
                    return r
                return self.wrap(st, v, info, 'subtraction')
            if z3.is_int_value(v):
                return self.wrap(st, v, info, '')
            return z3.If(v < 0, v + M_, v)
        if o == '*':
            v = self.mulc(x, y)
            if signed:
                return self.wrap(st, v, info, 'multiplication')
            return v % M_
        if o in ('/', '%'):
            self.check(st, y != 0, 'division', 'divisor is not zero')
            if z3.is_int_value(y) and y.as_long() > 0:
                if signed:
                    d = z3.If(x >= 0, x / y, -((-x) / y))
                    if z3.is_int_value(x) or self.nonneg(st, x):
                        d = x / y
                    return z3.simplify(d) if o == '/' else z3.simplify(x - y * d)
                return x / y if o == '/' else x % y
            if signed:
                self.check(st, A(x >= 0, y > 0), 'division', 'operands of a division by a variable are not negative')
            return div(x, y) if o == '/' else rem(x, y)
        if o in ('<<', '>>'):
            if not z3.is_int_value(y):
                raise Unsupported('shift by a variable')
            s = y.as_long()
            if o == '>>':
                return z3.simplify(x / (1 << s))   # Int division floors: arithmetic shift
            v = z3.simplify(x * (1 << s))
            if signed:
                return self.wrap(st, v, info, 'shift')
            return v % M_
        if o == '^':
            if bits == 8:
                return xor(x, y)
        if o == '&':
            for a, b in ((x, y), (y, x)):
                if z3.is_int_value(b):
                    m = b.as_long()
                    if m >= 0 and (m & (m + 1)) == 0:
                        return a % (m + 1)
            return self.bitop(st, band, x, y)
        if o == '&^' and z3.is_int_value(y):
            m = y.as_long()
            if m >= 0 and (m & (m + 1)) == 0:
                return x - x % (m + 1)
        if o == '|':
            v = self.bitop(st, bor, x, y)
            return v
        raise Unsupported('operator %s' % o)

    def nonneg(self, st, x):
        return self.entails(st, x >= 0)

    def entails(self, st, f):
        s = z3.SolverFor('QF_UFLIA') if False else z3.SimpleSolver()
        s.set('rlimit', 200000)
        for g in st.facts[-60:]:
            s.add(g)
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def mayoverflow(self, st, v):
        s = z3.SimpleSolver()
        s.set('rlimit', 400000)
        for g in st.facts:
            s.add(g)
        s.add(z3.Not(A(v >= -(1 << 63), v < (1 << 63))))
        return s.check() == z3.sat

    def unwrapped(self, st, x):
        """the difference x stands for, once it is known not to have wrapped"""
        v = self.wrapped.get(x.decl().name()) if z3.is_const(x) else None
        return x if v is None or self.mayoverflow(st, v) else v

    def bitop(self, st, f, x, y):
        v = f(x, y)
        if f is band:
            self.assume(st, Im(A(x >= 0, y >= 0), A(v >= 0, v <= x, v <= y)))
        else:
            self.assume(st, Im(A(x >= 0, y >= 0), A(v >= x, v >= y, v <= x + y)))
        return v

    def equal(self, st, x, y):
        if isinstance(x, SV) and isinstance(y, SV):
            # Go only compares slices with nil
            if z3.is_int_value(y.ref) and y.ref.as_long() == 0:
                return x.ref == 0
            return y.ref == 0
        if isinstance(x, (Opq, Clo, Ptr, GPtr, PElem, PArr)) or isinstance(y, (Opq, Clo, Ptr, GPtr, PElem, PArr)):
            nx = isinstance(x, Opq) and x.data == 'nil'
            ny = isinstance(y, Opq) and y.data == 'nil'
            if nx and ny:
                return z3.BoolVal(True)
            if nx or ny:
                return z3.BoolVal(False)     # pointers handled here are never nil
            raise Unsupported('pointer comparison')
        if isinstance(x, Pack) or isinstance(y, Pack):
            if isinstance(x, Pack) and isinstance(y, Pack):
                return A(*[a == b for a, b in zip(x.bytes, y.bytes)])
            raise Unsupported('packed compare')
        if z3.is_expr(x) and z3.is_expr(y):
            if x.sort() == Str and z3.is_const(x) and z3.is_const(y) and str(x).startswith('str_') and str(y).startswith('str_'):
                return z3.BoolVal(x.eq(y))
            for p in st.probes:
                if z3.is_int(x):
                    p.cmps.append((x, y))
            return x == y
        raise Unsupported('comparison of %s' % type(x).__name__)

    def convert(self, st, v, ft, tt):
        fi, ti = intinfo(ft), intinfo(tt)
        if fi and ti and not isinstance(v, Pack):
            fb, fs = fi
            tb, ts = ti
            if z3.is_int_value(v):
                m = 1 << tb
                x = v.as_long() % m
                if ts and x >= m // 2:
                    x -= m
                return z3.IntVal(x)
            lo_f, hi_f = (-(1 << (fb - 1)), (1 << (fb - 1)) - 1) if fs else (0, (1 << fb) - 1)
            lo_t, hi_t = (-(1 << (tb - 1)), (1 << (tb - 1)) - 1) if ts else (0, (1 << tb) - 1)
            if lo_t <= lo_f and hi_f <= hi_t:
                return v
            if not ts:
                return z3.If(A(v >= 0, v <= hi_t), v, v % (1 << tb))
            w = v % (1 << tb)
            return z3.If(A(v >= lo_t, v <= hi_t), v, z3.If(w > hi_t, w - (1 << tb), w))
        if isinstance(v, Pack) and ti:
            if ti == fi:
                return v
            # little-endian value
            s = z3.Sum([b * (1 << (8 * i)) for i, b in enumerate(v.bytes)])
            return self.convert(st, s, ft, tt)
        u = under(tt)
        if u['k'] == 'slice' and under(ft)['k'] == 'slice':
            return v
        if u['k'] == 'basic' and u['name'] == 'string':
            return self.fresh('str', Str)
        if u['k'] == 'slice' and under(ft)['k'] == 'basic':
            s = self.fresh_slice(st, elemkind(u['e']), 'strbytes')
            return s
        return v

    # ---------------------------------------------------------- slices
    def do_slice(self, st, x, low, high, mx):
        z = z3.IntVal(0)
        if isinstance(x, PArr):
            n = z3.IntVal(x.n)
            x = SV(x.kind, x.ref, x.off, n, n)
        if isinstance(x, Opq):
            return Opq('slice')
        if not isinstance(x, SV):
            raise Unsupported('slice of %s' % type(x).__name__)
        lo = low if low is not None else z
        hi = high if high is not None else x.len
        m = mx if mx is not None else x.cap
        self.check(st, A(lo >= 0, lo <= hi, hi <= m, m <= x.cap), 'bounds', 'slice bounds in range')
        return SV(x.kind, x.ref, self.add(x.off, lo), z3.simplify(hi - lo), z3.simplify(m - lo))

    def index_addr(self, st, x, i):
        if isinstance(x, SV):
            self.check(st, A(i >= 0, i < x.len), 'bounds', 'index in range')
            return PElem(x.kind, x.ref, self.add(x.off, i))
        if isinstance(x, PArr):
            self.check(st, A(i >= 0, i < x.n), 'bounds', 'index in range')
            if under(x.et)['k'] == 'array':
                u = under(x.et)
                return PArr(x.kind, x.ref, self.add(x.off, z3.simplify(i * u['n'])), u['n'], u['e'])
            return PElem(x.kind, x.ref, self.add(x.off, i))
        if isinstance(x, GPtr):
            u = under(under(x.t)['e'])
            if u['k'] != 'array':
                raise Unsupported('global index')
            e = under(u['e'])
            k = elemkind(e['e']) if e['k'] == 'array' else elemkind(u['e'])
            return self.index_addr(st, PArr(k, self.static_ref(x.name), z3.IntVal(0), u['n'], u['e']), i)
        if isinstance(x, Opq):
            return Opq('array*')
        if isinstance(x, Ptr):
            v = st.objs[x.oid].get(x.path)
            if isinstance(v, (PArr, Opq)):
                return self.index_addr(st, v, i)
        raise Unsupported('index into %s' % type(x).__name__)

    def copy_into(self, st, dst, srcA, srcoff, n):
        """dst[0:n] = source region content srcA from srcoff (memmove semantics)"""
        old = self.content(st, dst.kind, dst.ref)
        new = self.fresh('A', CONT[dst.kind])
        i = z3.Int('i_')
        self.assume(st, logic.ax([i], [new[i]], new[i] == z3.If(A(i >= dst.off, i < dst.off + n), srcA[srcoff + (i - dst.off)], old[i])))
        self.setcontent(st, dst.kind, dst.ref, new)

    def havoc_range(self, st, s, lo, hi, name='H'):
        """new content for s[lo:hi]"""
        old = self.content(st, s.kind, s.ref)
        new = self.fresh(name, CONT[s.kind])
        i = z3.Int('i_')
        self.assume(st, logic.ax([i], [new[i]], Im(O(i < s.off + lo, i >= s.off + hi), new[i] == old[i])))
        self.setcontent(st, s.kind, s.ref, new)
        return new

    # ---------------------------------------------------------- exploration
    def start(self, fname, spec):
        """set up the initial state of a top-level verification"""
        fn = self.prog.funcs[fname]
        st = State()
        st.node = root = Node()
        st.quiet, st.probes, st.hw, st.exits, st.owned, st.dead, st.facts, st.calls = 0, [], [], [], {}, [], [], {}
        st.par = None
        st.wits = {}
        st.fronts = ()
        st.log = []
        st.objs, st.otype, st.ghost = {}, {}, {}
        st.heaps = {k: self.fresh('heap_' + k, s) for k, s in HEAP.items()}
        st.next = self.fresh('next')
        st.frames = []
        self.assume(st, st.next >= 1)
        self.wf_heap(st, st.heaps['s'], st.next)
        for g in ('T', 'cnt'):
            st.ghost[g] = self.fresh('ghost_' + g)
            self.assume(st, st.ghost[g] >= 0)
        st.ghost['cnt'] = z3.IntVal(0)
        st.ghost['PM'] = self.fresh('ghost_PM', z3.ArraySort(I, Mat))
        st.ghost['SP'] = self.fresh('ghost_SP', AI)
        fr = Frame()
        fr.fn, fr.env, fr.blk, fr.ip, fr.prev = fn, {}, 0, 0, -1
        fr.defers, fr.retreg, fr.path, fr.active, fr.after = [], None, self.prog.short(fname), {}, None
        fr.own = False
        fr.cctx = None
        st.frames.append(fr)
        import par
        par.start(self, st, fn)
        args = []
        for p in fn.params:
            v = self.fresh_value(st, p['t'], p['name'])
            fr.env[p['name']] = v
            args.append(v)
        if spec:
            fr.cctx = self.lib.ctx(self, spec, args, st)
            self.rootctx = fr.cctx
            for n, srt in spec.ghosts:
                fr.cctx.names[n] = self.fresh('ghost_' + n, srt)
            for c in spec.requires_for(self.prop) + spec.of('assumes', self.prop):
                self.assume(st, self.lib.evalb(self, st, fr.cctx, c.expr))
            import spec as _s
            for c in spec.of('consumes', self.prop):
                st.owned[_s.Ev(self, st, fr.cctx).ev(c.expr).oid] = True
            # the entry snapshot is taken after ghost set-up
            fr.cctx.entry = st.snap()
        return st, root

    def ghostterms(self, st, name=None, sort=None):
        """ghosts and lets of the verified function, and witnesses found so far"""
        out = []
        cx = getattr(self, 'rootctx', None)
        if cx is not None:
            import spec as _s
            for n, srt in cx.spec.ghosts:
                if (name is None or n == name) and (sort is None or srt == sort):
                    out.append(cx.names[n])
            for c in cx.spec.of('let'):
                if name is not None and c.text == name:
                    t = _s.Ev(self, st, cx, view=_s.View(cx.entry)).ev(c.expr)
                    if z3.is_expr(t) and t.sort() == sort:
                        out.append(t)
        for n, ts in st.wits.items():
            if name is None or n == name:
                out += [t for t in ts if sort is None or t.sort() == sort]
        return out

    def verify(self, fname, spec):
        st, root = self.start(fname, spec)
        self.spec = spec
        self.explore(st)
        return root

    def explore(self, st):
        work = [st]
        while work:
            s = work.pop()
            while True:
                r = self.step(s)
                if r is None:
                    continue
                if r == 'end':
                    break
                work.extend(r)
                self.paths += len(r)
                if self.paths > 4000:
                    raise Unsupported('too many paths')
                break

    def feasible(self, st, f):
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.nosolve:
            return True
        s = z3.SimpleSolver()
        s.set('rlimit', 300000)
        for g in st.facts:
            s.add(g)
        s.add(f)
        return s.check() != z3.unsat

    def step(self, st):
        fr = st.fr
        ins = fr.fn.blocks[fr.blk].ins
        if fr.ip >= len(ins):
            raise Unsupported('end of block')
        i = ins[fr.ip]
        op = i['op']
        m = getattr(self, 'i_' + op, None)
        if m is None:
            raise Unsupported('instruction %s at %s' % (op if op != 'unsupported' else i['what'], i.get('pos')))
        r = m(st, fr, i)
        if r is None:
            fr.ip += 1
        elif r == 'jumped':
            return None
        return r

    # control flow
    def goto(self, st, fr, target):
        """jump within a frame; returns 'jumped', 'end' or a list of states"""
        src_ = fr.blk
        # leaving loops
        for h in list(fr.active):
            if target not in fr.fn.loops[h]:
                lc = fr.active.pop(h)
                if not st.quiet or True:
                    st.exits.append((lc.key, lc.n, lc.next0, st.next))
        if st.probes:
            p = st.probes[-1]
            if len(st.frames) == p.depth:
                if target == p.hdr and p.hdr in fr.active and fr.active[p.hdr].probe is p:
                    p.latches.append(self.phivals(st, fr, target, src_) + (st,))
                    return 'end'
                if target not in p.body:
                    return 'end'
        if target in fr.fn.loops:
            if target in fr.active:
                return self.latch(st, fr, target, src_)
            return self.enter_loop(st, fr, target, src_)
        ids, vals = self.phivals(st, fr, target, src_)
        for a, v in zip(ids, vals):
            fr.env[a] = v
        fr.prev, fr.blk, fr.ip = src_, target, len(ids)
        return 'jumped'

    def phivals(self, st, fr, target, pred):
        b = fr.fn.blocks[target]
        pi = b.preds.index(pred) if pred in b.preds else 0
        ids, vals = [], []
        for i in b.ins:
            if i['op'] != 'phi':
                break
            ids.append(i['id'])
            vals.append(self.val(st, i['edges'][pi], fr))
        return ids, vals

    def i_phi(self, st, fr, i):
        return None

    def i_jump(self, st, fr, i):
        return self.goto(st, fr, fr.fn.blocks[fr.blk].succs[0])

    def i_if(self, st, fr, i):
        c = self.val(st, i['x'])
        t, f = fr.fn.blocks[fr.blk].succs
        c = z3.simplify(c)
        if z3.is_true(c):
            return self.goto(st, fr, t)
        if z3.is_false(c):
            return self.goto(st, fr, f)
        ft, ff = self.feasible(st, c), self.feasible(st, z3.Not(c))
        out = []
        if ft and ff:
            st2 = st.fork()
            self.assume(st, c)
            self.assume(st2, z3.Not(c))
            for s, target in ((st, t), (st2, f)):
                r = self.goto(s, s.fr, target)
                if r == 'jumped':
                    out.append(s)
                elif r != 'end':
                    out.extend(r)
            return out if out else 'end'
        if ft:
            self.assume(st, c)
            return self.goto(st, fr, t)
        if ff:
            self.assume(st, z3.Not(c))
            return self.goto(st, fr, f)
        return 'end'

    def i_return(self, st, fr, i):
        vals = [self.val(st, x) for x in i['xs']]
        return self.do_return(st, vals)

    def do_return(self, st, vals):
        fr = st.fr
        if st.probes and len(st.frames) == st.probes[-1].depth:
            return 'end'
        if fr.after:
            fr.after(st, vals)
        if len(st.frames) == 1:
            self.at_exit(st, vals)
            return 'end'
        st.frames.pop()
        c = st.fr
        for h, lc in fr.active.items():
            st.exits.append((lc.key, lc.n, lc.next0, st.next))
        if fr.retreg:
            c.env[fr.retreg] = vals[0] if len(vals) == 1 else list(vals)
        if fr.retreg is not False:
            c.ip += 1
        return 'jumped'

    def at_exit(self, st, vals):
        fr = st.fr
        cx = fr.cctx
        if cx is None or st.quiet:
            return
        st.node.items.append(('cover', None, 'return'))
        if st.par:
            import par
            par.at_exit(self, st)
        self.lib.check_post(self, st, cx, vals)

    def i_panic(self, st, fr, i):
        if not (fr.cctx and self.lib.allowed_panic(self, st, fr.cctx)):
            self.check(st, z3.BoolVal(False), 'panic', 'explicit panic is unreachable')
        return 'end'

    def i_rundefers(self, st, fr, i):
        if fr.defers:
            c, args, ins = fr.defers.pop()
            # run, then come back to this instruction
            r = self.call(st, fr, ins, c, args, None, resume=True)
            if r is None:
                return 'jumped'
            return r
        return None

    def i_defer(self, st, fr, i):
        c = i['call']
        if fr.active:
            raise Unsupported('defer in a loop')
        fr.defers.append((c, [self.val(st, a) for a in c['args']], i))
        return None

    # plain instructions
    def i_alloc(self, st, fr, i):
        e = i['t']['e']
        ue = under(e)
        nm = i.get('comment') or 'loc'
        if ue['k'] == 'array':
            k = elemkind(ue['e'])
            if k == 'x':
                fr.env[i['id']] = Opq('array')
                return None
            r = self.alloc_region(st, k, nm.replace(' ', ''))
            fr.env[i['id']] = PArr(k, r, z3.IntVal(0), ue['n'], ue['e'])
            return None
        oid = self.newobj(st, e)
        self.init_obj(st, oid, (), e, nm)
        if e['k'] == 'named' and e['name'] == 'bytes.Buffer':
            st.owned[oid] = True
        fr.env[i['id']] = Ptr(oid)
        return None

    def i_store(self, st, fr, i):
        self.store(st, self.val(st, i['addr']), self.val(st, i['x']))

    def i_binop(self, st, fr, i):
        fr.env[i['id']] = self.binop(st, i['o'], self.val(st, i['x']), self.val(st, i['y']), i['t'], i['x'].get('t'))

    def i_unop(self, st, fr, i):
        x = self.val(st, i['x'])
        o = i['o']
        if o == '*':
            fr.env[i['id']] = self.load(st, x, i['t'])
        elif o == '!':
            fr.env[i['id']] = z3.Not(x)
        elif o == '-':
            info = intinfo(i['t'])
            fr.env[i['id']] = self.binop(st, '-', z3.IntVal(0), x, i['t'], i['t'])
        elif o == '<-':
            fr.env[i['id']] = self.chan_recv(st, x, i['t'])
        else:
            raise Unsupported('unary ' + o)

    def i_changetype(self, st, fr, i):
        fr.env[i['id']] = self.val(st, i['x'])

    def i_changeinterface(self, st, fr, i):
        fr.env[i['id']] = self.val(st, i['x'])

    def i_makeinterface(self, st, fr, i):
        fr.env[i['id']] = Opq('iface', self.val(st, i['x']))

    def i_convert(self, st, fr, i):
        x = self.val(st, i['x'])
        ft = i['x'].get('t')
        fr.env[i['id']] = self.convert(st, x, ft, i['t'])

    def i_makeclosure(self, st, fr, i):
        fr.env[i['id']] = Clo(i['fn']['name'], [self.val(st, b) for b in i['bindings']])

    def i_makemap(self, st, fr, i):
        t = under(i['t'])
        if not (intinfo(t['key']) and (isbool(t['e']))):
            raise Unsupported('map type')
        oid = self.newobj(st, i['t'])
        st.objs[oid][('has',)] = z3.K(I, z3.BoolVal(False))
        st.objs[oid][('val',)] = z3.K(I, z3.BoolVal(False))
        fr.env[i['id']] = Ptr(oid)

    def i_mapupdate(self, st, fr, i):
        m, k, v = self.val(st, i['map']), self.val(st, i['key']), self.val(st, i['x'])
        if not isinstance(m, Ptr):
            raise Unsupported('map')
        o = st.objs[m.oid]
        self.setobj(st, m.oid, ('has',), z3.Store(o[('has',)], k, z3.BoolVal(True)))
        self.setobj(st, m.oid, ('val',), z3.Store(o[('val',)], k, v))

    def i_lookup(self, st, fr, i):
        m, k = self.val(st, i['x']), self.val(st, i['i'])
        if not isinstance(m, Ptr):
            raise Unsupported('lookup')
        o = st.objs[m.oid]
        has = self.msel(o[('has',)], k)
        v = A(has, self.msel(o[('val',)], k))
        fr.env[i['id']] = [v, has] if i['commaok'] else v

    def msel(self, a, k):
        return z3.simplify(z3.Select(a, k))

    def i_makeslice(self, st, fr, i):
        ln, cp = self.val(st, i['len']), self.val(st, i['cap'])
        k = elemkind(under(i['t'])['e'])
        self.check(st, A(ln >= 0, ln <= cp), 'bounds', 'make with a valid length')
        if k == 'x':
            fr.env[i['id']] = Opq('slice')
            return
        r = self.alloc_region(st, k)
        self.assume(st, cp <= MAXLEN)      # allocation succeeded
        fr.env[i['id']] = SV(k, r, z3.IntVal(0), ln, cp)

    def i_makechan(self, st, fr, i):
        fr.env[i['id']] = Opq('chan')

    def i_slice(self, st, fr, i):
        g = lambda n: self.val(st, i[n]) if n in i else None
        x = self.val(st, i['x'])
        if isinstance(x, GPtr):
            u = under(under(x.t)['e'])
            x = PArr(elemkind(u['e']), self.static_ref(x.name), z3.IntVal(0), u['n'], u['e'])
        if isinstance(x, Ptr) and isinstance(st.objs[x.oid].get(x.path), PArr):
            x = st.objs[x.oid][x.path]
        fr.env[i['id']] = self.do_slice(st, x, g('low'), g('high'), g('max'))

    def i_indexaddr(self, st, fr, i):
        fr.env[i['id']] = self.index_addr(st, self.val(st, i['x']), self.val(st, i['i']))

    def i_index(self, st, fr, i):
        x, k = self.val(st, i['x']), self.val(st, i['i'])
        if isinstance(x, ArrV):
            self.check(st, A(k >= 0, k < x.n), 'bounds', 'index in range')
            v = self.asel(x.content, self.add(x.off, k))
            fr.env[i['id']] = self.cellval(v) if x.kind == 'b' else v
            return
        raise Unsupported('index')

    def i_fieldaddr(self, st, fr, i):
        x = self.val(st, i['x'])
        if isinstance(x, Ptr):
            fr.env[i['id']] = Ptr(x.oid, x.path + (i['field'],))
        elif isinstance(x, GPtr):
            fr.env[i['id']] = Opq('globalfield')
        elif isinstance(x, Opq):
            fr.env[i['id']] = Opq('field', x)
        else:
            raise Unsupported('field address')

    def i_field(self, st, fr, i):
        x = self.val(st, i['x'])
        if isinstance(x, StructV):
            fr.env[i['id']] = x.f[i['field']]
        else:
            fr.env[i['id']] = Opq('field')

    def i_extract(self, st, fr, i):
        x = self.val(st, i['x'])
        fr.env[i['id']] = x[i['i']]

    def i_call(self, st, fr, i):
        c = i['call']
        args = [self.val(st, a) for a in c['args']]
        return self.call(st, fr, i, c, args, i['id'])

    def i_go(self, st, fr, i):
        import par
        return par.go(self, st, fr, i)

    def i_select(self, st, fr, i):
        import pool
        return pool.select(self, st, fr, i)

    # ---------------------------------------------------------- calls
    def call(self, st, fr, i, c, args, reg, resume=False):
        """returns None (continue with next instr) or 'jumped'/'end'/list"""
        if 'invoke' in c:
            recv = self.val(st, c['recv'])
            name = c['invoke']
            return self.external(st, fr, i, name, [recv] + args, reg)
        f = self.val(st, c['fn']) if not (resume and c['fn']['k'] == 'reg') else self.val(st, c['fn'])
        if isinstance(f, Opq) and f.what.startswith('builtin:'):
            return self.builtin(st, fr, i, f.what[8:], args, reg, c)
        if not isinstance(f, Clo):
            raise Unsupported('indirect call')
        return self.call_fn(st, fr, i, f, args, reg, resume)

    def call_fn(self, st, fr, i, f, args, reg, resume=False):
        sh = self.prog.short(f.fn)
        if self.spec is not None and sh in self.spec.opaque and f.fn in self.prog.funcs:
            r = self.lib.opaque_call(self, st, sh, self.prog.funcs[f.fn], args)
            if reg:
                fr.env[reg] = r
            return None
        spec = self.lib.get(sh)
        if spec is not None and not f.binds and spec.usable(self.prop):
            self.usedcontracts.add(sh)
            self.live_args(st, args)
            r = self.lib.apply(self, st, fr, i, spec, args)
            if reg:
                fr.env[reg] = r
            return None
        fn = self.prog.funcs.get(f.fn)
        if fn is None or not fn.blocks:
            return self.external(st, fr, i, f.fn, args, reg)
        # no contract: the body is used instead
        if len(st.frames) > 12 or any(x.fn is fn for x in st.frames):
            raise Unsupported('recursive call of %s without a contract' % sh)
        self.inlined.add(sh)
        n = Frame()
        n.fn, n.env, n.blk, n.ip, n.prev = fn, {}, 0, 0, -1
        n.defers, n.retreg, n.active, n.after, n.own = [], (False if resume else reg), {}, None, False
        pos = '%d.%d' % (fr.blk, fr.ip)
        n.path = fr.path + '>' + sh + '@' + pos
        n.cctx = fr.cctx
        if spec is not None:
            n.cctx = self.lib.inner_ctx(self, spec, args, st, fr.cctx)
        for p, a in zip(fn.params, args):
            n.env[p['name']] = a
        for p, a in zip(fn.freevars, f.binds):
            n.env[p['name']] = a
        st.frames.append(n)
        return 'jumped'

    def external(self, st, fr, i, name, args, reg):
        import ext
        h = ext.lookup(name)
        if h is None:
            raise Unsupported('call of %s' % name)
        self.trusted.add(name)
        self.live_args(st, args)
        if st.par and not name.startswith('(*sync.WaitGroup)'):
            import par
            par.args(self, st, args)
        r = h(self, st, fr, i, args)
        if isinstance(r, str) and r == 'end':
            return 'end'
        if isinstance(r, ext.Fork):
            out = []
            for s, v in r.alts:
                f2 = s.fr
                if reg:
                    f2.env[reg] = v
                f2.ip += 1
                out.append(s)
            return out
        if reg:
            fr.env[reg] = r
        return None

    def builtin(self, st, fr, i, name, args, reg, c):
        if name == 'len' or name == 'cap':
            x = args[0]
            if isinstance(x, SV):
                v = x.len if name == 'len' else x.cap
            elif z3.is_expr(x) and x.sort() == Str:
                v = self.fresh('strlen')
                self.assume(st, v >= 0)
            elif isinstance(x, Ptr):
                v = self.fresh('maplen')
                self.assume(st, v >= 0)
            else:
                raise Unsupported('len')
            fr.env[reg] = v
            return None
        if name == 'copy':
            d, s = args
            if not isinstance(d, SV) or not isinstance(s, SV):
                raise Unsupported('copy')
            if d.len.eq(s.len):
                n = d.len
            else:
                n = z3.If(d.len <= s.len, d.len, s.len)
            if st.par:
                self.par_access(st, ('range', d.kind, d.ref, d.off, self.add(d.off, n)), True)
                self.par_access(st, ('range', s.kind, s.ref, s.off, self.add(s.off, n)), False)
            self.live(st, s.ref)
            self.copy_into(st, d, self.content(st, s.kind, s.ref), s.off, n)
            if reg:
                fr.env[reg] = n
            return None
        if name == 'append':
            s, e = args
            if not isinstance(s, SV) or not isinstance(e, SV):
                raise Unsupported('append')
            n = z3.simplify(s.len + e.len)
            srcA = self.content(st, e.kind, e.ref)
            st2 = st.fork()
            # enough room: in place
            self.assume(st, n <= s.cap)
            self.copy_into(st, SV(s.kind, s.ref, self.add(s.off, s.len), e.len, e.len), srcA, e.off, e.len)
            fr.env[reg] = SV(s.kind, s.ref, s.off, n, s.cap)
            # reallocation
            self.assume(st2, n > s.cap)
            r = self.alloc_region(st2, s.kind)
            cap = self.fresh('cap')
            self.assume(st2, A(cap >= n, cap <= MAXLEN))
            d = SV(s.kind, r, z3.IntVal(0), n, cap)
            self.copy_into(st2, d, self.content(st2, s.kind, s.ref), s.off, s.len)
            self.copy_into(st2, SV(s.kind, r, s.len, e.len, e.len), srcA, e.off, e.len)
            st2.fr.env[reg] = d
            fr.ip += 1
            st2.fr.ip += 1
            return [st, st2]
        if name in ('ssa:wrapnilchk',):
            fr.env[reg] = args[0]
            return None
        if name in ('print', 'println'):
            return None
        if name in ('min', 'max'):
            v = args[0]
            for a in args[1:]:
                v = z3.If(v <= a, v, a) if name == 'min' else z3.If(v >= a, v, a)
            fr.env[reg] = v
            return None
        if name == 'clear' and isinstance(args[0], SV):
            d = args[0]
            self.copy_into(st, d, self.zero(d.kind), z3.IntVal(0), d.len)
            return None
        raise Unsupported('builtin ' + name)

    def par_access(self, st, what, write):
        import par
        par.access(self, st, what, write)

    # ---------------------------------------------------------- loops
    def enter_loop(self, st, fr, h, pred):
        import loops
        return loops.enter(self, st, fr, h, pred)

    def latch(self, st, fr, h, pred):
        import loops
        return loops.latch(self, st, fr, h, pred)
