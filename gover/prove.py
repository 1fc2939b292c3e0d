"""Discharges the obligation tree of one function.

Phase 1 (Houdini): invariant candidates that are not provable at a loop entry
or not preserved are dropped until the rest is inductive.
Phase 2: every proof obligation is discharged, using only surviving invariants."""
import os
import re
import time
import z3
import logic

RL_TIERS = tuple(int(x) for x in os.environ.get("TIERS", "400000,5000000").split(","))    # solver effort per invariant candidate: cheap first, again only if an obligation fails
RL_OBL = 10000000


class Result:
    def __init__(self):
        self.obs = []          # dicts: fn, kind, what, pos, status, backend, time
        self.inv = []          # surviving candidates
        self.dropped = 0
        self.covers = {}
        self.time = 0.0
        self.checks = 0
        self.backends = {}
        self.error = None


def mksolver(rl, seed=0):
    s = z3.SimpleSolver()
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.set('rlimit', rl)
    if seed:
        s.set('smt.random_seed', seed)
    for a in logic.all_axioms():
        s.add(a)
    return s


def iter_nodes(root):
    st = [root]
    while st:
        n = st.pop()
        yield n
        st.extend(n.kids)


def mark(node):
    """post-order: does the subtree contain candidate / obligations"""
    order = list(iter_nodes(node))
    info = {}
    for n in reversed(order):
        k = any(x[0] == 'k' for x in n.items)
        c = any(x[0] == 'c' and not x[2]['trivial'] for x in n.items)
        v = any(x[0] == 'cover' for x in n.items)
        for m in n.kids:
            a, b, d = info[id(m)]
            k, c, v = k or a, c or b, v or d
        info[id(n)] = (k, c, v)
    return info


def conjuncts(f):
    """a => (b and c), as separate goals"""
    if z3.is_implies(f):
        a, b = f.children()
        return [z3.Implies(a, g) for g in conjuncts(b)]
    if z3.is_and(f):
        return [g for c in f.children() for g in conjuncts(c)]
    return [f]


def family(key):
    """schema number of a candidate; None: a frame or arithmetic candidate"""
    m = re.match(r'(schema\d+:[^\[]*)\[', key[1])
    return m and m.group(1)


def symbols(f):
    out, seen, todo = set(), set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            out.add(x.decl().name())
            todo.extend(x.children())
    return out


def multi(f):
    """a quantified fact instantiated for pairs of terms"""
    return z3.is_quantifier(f) and any(len(f.pattern(i).children()) > 1 for i in range(f.num_patterns()))


def cascade(active, removed):
    """a fact about an outer loop's counter survives in an inner loop only if it held in the outer one"""
    dead = set((loop, k[:-2]) for loop, k in removed if k.endswith(']n,'))
    out = set()
    for loop, k in active:
        m = re.match(r'(schema.*\])in:(.*),$', k)
        if m and (m.group(2), m.group(1)) in dead:
            out.add((loop, k))
    return out


MERGED = {}


def merged(fs):
    """frame facts of one loop and heap, forall r. c_i(r) => M[r] == base[r], as one quantifier"""
    k = tuple(f.get_id() for f in fs)
    if k in MERGED:
        return MERGED[k]
    out, groups = [], {}
    for f in fs:
        if not (z3.is_quantifier(f) and f.num_vars() == 1 and z3.is_implies(f.body())):
            out.append(f)
            continue
        groups.setdefault(f.body().arg(1).get_id(), []).append(f)
    for g in groups.values():
        if len(g) == 1:
            out += g
            continue
        r = z3.Const(g[0].var_name(0), g[0].var_sort(0))
        cs = []
        for f in g:
            a = z3.substitute_vars(f.body().arg(0), r)
            cs.append({c.get_id(): c for c in conjuncts0(a)})
        keep = []
        for i, c in enumerate(cs):
            if not any(set(d) < set(c) or set(d) == set(c) and j < i for j, d in enumerate(cs)):
                keep.append(c)
        common = set.intersection(*[set(c) for c in keep])
        body = [c for i, c in keep[0].items() if i in common]
        rest = [[x for i, x in c.items() if i not in common] for c in keep]
        if all(rest):
            body.append(z3.Or([z3.And(x) for x in rest]))
        cons = z3.substitute_vars(g[0].body().arg(1), r)
        pats = [z3.substitute_vars(p_, r) for p_ in (g[0].pattern(0).children())]
        out.append(logic.ax([r], pats, z3.Implies(z3.And(body), cons)))
    logic._keep.append((fs, out))
    MERGED[k] = out
    return out


def conjuncts0(a):
    if z3.is_and(a):
        return [x for c in a.children() for x in conjuncts0(c)]
    return [a]


def merging(items, use):
    """the items of a node with the active frame facts of each loop head merged"""
    out, i = [], 0
    while i < len(items):
        it = items[i]
        if it[0] != 'a' or it[2] is None or not it[2][1].startswith('frame '):
            out.append(it)
            i += 1
            continue
        grp = []
        while i < len(items) and items[i][0] == 'a' and items[i][2] is not None:
            grp.append(items[i])
            i += 1
        fr = {}
        for g in grp:
            k = ' '.join(g[2][1].split(' ')[:2])
            if not g[2][1].startswith('frame '):
                out.append(g)
                continue
            if use(g[2]):
                fr.setdefault(k, []).append(g)
        ent = set(g[2][1].split(' ')[1] for gs in fr.values() for g in gs if g[2][1].endswith(' entry'))
        out = [g for g in out if not (g[0] == 'a' and g[2] is not None and g[2][1].startswith('eframe') and g[2][1].split(' ')[-1] in ent)]
        for k, gs in fr.items():
            for f in merged([g[1] for g in gs]):
                out.append(('a', f, gs[0][2]))
    return out


class Prover:
    def __init__(self, root, log=None, deadline=None):
        self.root = root
        self.info = mark(root)
        self.res = Result()
        self.log = log
        self.deadline = deadline
        self.noncover = []

    def ask(self, s, f, rl):
        self.res.checks += 1
        s.push()
        s.set('rlimit', rl)
        s.set('timeout', 10000 if rl < RL_OBL else 60000)     # the resource count misses some work
        s.add(z3.Not(f))
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.res.time += dt
        self.gaveup = r == z3.unknown and 'incomplete' not in s.reason_unknown()
        s.pop()
        return r == z3.unsat, dt

    def ask_slice(self, f, key):
        """the solver gave up under all the invariants: again without the costly ones, then with the frames and related ones only"""
        fam = family(key)
        rel = self.related.get(fam, {fam})
        for keep in (lambda k: family(k) == fam or k not in self.costly,
                     lambda k: family(k) is None or family(k) in rel):
            s = mksolver(self.rlc)
            for p, k in self.path:
                if k is None or keep(k):
                    s.add(p)
            if self.ask(s, f, self.rlc)[0]:
                return True
        return False

    def relate(self):
        """schemas about the same recursive function support each other"""
        uses = {}
        self.costly = set()
        for n in iter_nodes(self.root):
            for it in n.items:
                if it[0] == 'k' and multi(it[1]):
                    self.costly.add(it[2])
                if it[0] == 'k' and family(it[2]):
                    f = family(it[2])
                    if f not in uses:
                        uses[f] = symbols(it[1]) & {'hor', 'lag', 'bas', 'tag'}
        self.related = {f: {g for g in uses if f == g or uses[f] & uses[g]} for f in uses}

    # -------------------------------------------------- phase 1
    def houdini(self):
        self.relate()
        active = set()
        for n in iter_nodes(self.root):
            for it in n.items:
                if it[0] == 'k':
                    active.add(it[2])
        total = len(active)
        recheck = None
        first = True
        while True:
            removed = set()
            s = mksolver(self.rlc)
            self.h_walk(s, active, removed, recheck)
            if not removed:
                break
            removed |= cascade(active, removed)
            active -= removed
            recheck = removed
            if self.log:
                self.log('  houdini: dropped %d, %d left' % (len(removed), len(active)))
            if self.deadline and time.time() > self.deadline:
                raise TimeoutError('houdini')
        self.active = active
        self.res.dropped = total - len(active)
        self.res.inv = sorted(active, key=str)

    def h_walk(self, s, active, removed, recheck):
        # explicit stack: (node, phase, dirty)
        self.path = []
        stack = [(self.root, 0, recheck is None, 0)]
        while stack:
            n, ph, dirty, mk = stack.pop()
            if ph == 1:
                s.pop()
                del self.path[mk:]
                continue
            s.push()
            stack.append((n, 1, dirty, len(self.path)))
            items = n.items
            if not dirty and recheck and any(it[0] == 'a' and it[2] in recheck for it in items if it[2] is not None):
                dirty = True
            items = merging(items, lambda k: k in active and k not in removed)
            i = 0
            while i < len(items):
                it = items[i]
                if it[0] == 'a':
                    if it[2] is None or it[2] in active and it[2] not in removed:
                        s.add(it[1])
                        self.path.append((it[1], it[2]))
                    if it[2] is not None and (it[2] in removed or (recheck and it[2] in recheck)):
                        dirty = True
                elif it[0] == 'k':
                    grp = []
                    while i < len(items) and items[i][0] == 'k':
                        if items[i][2] in active and items[i][2] not in removed:
                            grp.append(items[i])
                        i += 1
                    if grp and dirty:
                        self.h_group(s, grp, removed)
                    continue
                i += 1
            for m in n.kids:
                if self.info[id(m)][0]:
                    stack.append((m, 0, dirty, 0))

    def h_group(self, s, grp, removed):
        if len(grp) > 1:
            ok, dt = self.ask(s, z3.And([g[1] for g in grp]), self.rlc)
            if ok:
                return
        if len(grp) > 8:
            h = len(grp) // 2
            self.h_group(s, grp[:h], removed)
            self.h_group(s, grp[h:], removed)
            return
        for g in grp:
            if g[2] in removed:
                continue
            frame = g[2][1].startswith('frame ')
            ok, dt = self.ask(s, g[1], min(self.rlc, 1000000) if frame else self.rlc)
            if not ok and self.gaveup and not (frame and self.rlc > 1000000):
                ok = self.ask_slice(g[1], g[2])
            if not ok:
                removed.add(g[2])

    # -------------------------------------------------- phase 2
    def final(self):
        s = mksolver(RL_OBL)
        path = []
        stack = [(self.root, 0, 0)]
        while stack:
            n, ph, mk = stack.pop()
            if ph == 1:
                s.pop()
                del path[mk:]
                continue
            s.push()
            stack.append((n, 1, len(path)))
            for it in merging(n.items, lambda k: k in self.active):
                if it[0] == 'a':
                    if it[2] is None or it[2] in self.active:
                        s.add(it[1])
                        path.append(it[1])
                elif it[0] == 'c':
                    if not self.obligation(s, path, it[1], it[2]) and not self.hard:
                        return False
                elif it[0] == 'cover':
                    s.set('rlimit', 500000)
                    r = s.check()
                    self.res.covers.setdefault(it[2], []).append(str(r))
            for m in n.kids:
                a, b, c = self.info[id(m)]
                if b or c:
                    stack.append((m, 0, 0))
        return True

    def obligation(self, s, path, f, info):
        o = dict(info)
        t = time.time()
        if info['trivial']:
            o.update(status='ok', backend='simplifier', time=0.0)
            self.count(o)
            return True
        alts = f if isinstance(f, list) else [f]
        ok, be, out = False, 'z3', 'no witness' if not alts else ''
        for f in alts:
            parts = conjuncts(f)
            for g in parts:
                ok, dt = self.ask(s, g, RL_OBL)
                if os.environ.get('PARTS'):
                    print('PART', ok, round(dt, 2), str(g)[:1500])
                if not ok:
                    break
            if ok:
                break
        if os.environ.get('SLOW') and time.time()-t > 1:
            print('SLOW', ok, time.time()-t, info['what'], alts)
        if not ok and not self.hard and len(alts) <= 1:
            s2 = mksolver(12000000)
            for p in path + [z3.Not(f) for f in alts]:
                s2.add(p)
            ok, be = s2.check() == z3.unsat, 'z3(retry)'
        for f in ([] if ok or not self.hard else alts):
            if ok:
                break
            for k, (seed, rl) in enumerate(((0, 12000000), (7, 12000000))):
                s2 = mksolver(rl, seed)
                if seed:
                    s2.set('smt.relevancy', 0)
                for p in path:
                    s2.add(p)
                s2.add(z3.Not(f))
                r = s2.check()
                out = str(r) + ' ' + (s2.reason_unknown() if r == z3.unknown else '')
                if r == z3.unsat:
                    ok, be = True, 'z3(retry)'
                    break
        for f in ([] if ok or not self.hard else alts[:3]):
            r = cvc5_check(path, f)
            if r == 'unsat':
                ok, be = True, 'cvc5'
                break
            else:
                out += ' / cvc5: ' + r
        o.update(status='ok' if ok else 'fail', backend=be, time=time.time() - t)
        if not ok and self.hard:
            o['solver_output'] = out
            o['formula'] = str(f)[:3000]
            if self.log:
                self.log('  FAIL [%s] %s (%s) at %s: %s' % (o['kind'], o['what'], o['fn'], o['pos'], out))
        self.count(o)
        return ok

    def count(self, o):
        self.res.obs.append({k: v for k, v in o.items() if k not in ('trivial',)})
        self.res.backends[o['backend']] = self.res.backends.get(o['backend'], 0) + 1

    def run(self):
        for k, self.rlc in enumerate(RL_TIERS):
            last = k == len(RL_TIERS) - 1
            self.hard = last
            self.res.obs, self.res.covers, self.res.backends = [], {}, {}
            self.houdini()
            if self.final():
                break
        return self.res


def cvc5_check(path, f):
    """second opinion of an independent solver on one obligation"""
    import subprocess
    import tempfile
    s = z3.Solver()
    for a in logic.all_axioms():
        s.add(a)
    for p in path:
        s.add(p)
    s.add(z3.Not(f))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=True) as t:
        t.write(txt)
        t.flush()
        try:
            r = subprocess.run(['cvc5', '--tlimit=8000', '--lang=smt2', t.name], capture_output=True, text=True, timeout=20)
            o = (r.stdout.strip().split('\n') or [''])[0]
            return o if o in ('unsat', 'sat', 'unknown') else 'no answer'
        except Exception as e:
            return 'no answer'
