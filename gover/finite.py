"""Contracts whose arguments are all bytes: every argument tuple is evaluated.

The SSA of the function (and of what it calls) is translated to Python, with Go's
fixed-width arithmetic, and run on all 256^k inputs; the contract is evaluated
next to it.  This decides the contract for all inputs without a solver."""
import ast
import itertools
import gf
from ir import under, intinfo, isbool


class GoPanic(Exception):
    pass


class Unsup(Exception):
    pass


def wrapf(t):
    b, s = intinfo(t)
    if s:
        h = 1 << (b - 1)
        return lambda x: ('((%s) + %d) %% %d - %d' % (x, h, 2 * h, h))
    return lambda x: '(%s) & %d' % (x, (1 << b) - 1)


class Comp:
    def __init__(self, prog, tabs):
        self.prog, self.tabs = prog, tabs
        self.done = {}
        self.ns = {'GoPanic': GoPanic}

    def get(self, name):
        if name in self.done:
            return self.done[name]
        py = 'f%d' % len(self.done)
        self.done[name] = py
        f = self.prog.funcs.get(name)
        if f is None or not f.blocks:
            raise Unsup('call of ' + name)
        src = self.gen(f, py)
        exec(src, self.ns)
        return py

    def reg(self, n):
        return 'r_' + n

    def val(self, o):
        if o['k'] == 'reg':
            return self.reg(o['name'])
        if o['k'] == 'const' and o.get('c') == 'int':
            return '(%d)' % int(o['v'])
        if o['k'] == 'const' and o.get('c') == 'bool':
            return 'True' if o['v'] else 'False'
        if o['k'] == 'const':
            return '0'
        raise Unsup('operand ' + o['k'])

    def gen(self, f, py):
        L = ['def %s(%s):' % (py, ', '.join(self.reg(p['name']) for p in f.params)), '  b = 0; p = -1; fuel = 100000', '  while True:', '    fuel -= 1',
             '    if fuel < 0: raise GoPanic("does not return")']
        if f.freevars:
            raise Unsup('closure')
        first = True
        for b in f.blocks:
            if b.i != 0 and not b.preds:
                continue
            L.append('    %s b == %d:' % ('if' if first else 'elif', b.i))
            first = False
            body = []
            phis = [i for i in b.ins if i['op'] == 'phi']
            if phis:
                for n, pr in enumerate(b.preds):
                    body.append('if p == %d: %s = %s' % (pr, ', '.join(self.reg(i['id']) for i in phis) + ',', ', '.join(self.val(i['edges'][n]) for i in phis) + ','))
            addr = getattr(f, '_addr', None)
            for i in b.ins:
                op = i['op']
                if op == 'phi':
                    continue
                if op == 'binop':
                    x, y, o = self.val(i['x']), self.val(i['y']), i['o']
                    if o in ('==', '!=', '<', '<=', '>', '>='):
                        e = '%s %s %s' % (x, o, y)
                    elif isbool(i['t']):
                        e = '%s %s %s' % (x, o, y)
                    else:
                        if not intinfo(i['t']):
                            raise Unsup('binop')
                        bits, sg = intinfo(i['t'])
                        if o in '+-*':
                            e = wrapf(i['t'])('%s %s %s' % (x, o, y))
                        elif o in ('^', '&', '|'):
                            e = '%s %s %s' % (x, o, y)
                        elif o == '&^':
                            e = '%s & ~%s' % (x, y)
                        elif o == '<<':
                            e = wrapf(i['t'])('%s << min(%s, 64)' % (x, y))
                        elif o == '>>':
                            e = '%s >> min(%s, 64)' % (x, y)
                        elif o in '/%':
                            body.append('if %s == 0: raise GoPanic("division by zero")' % y)
                            if o == '/':
                                e = '(abs(%s) // abs(%s)) * (1 if (%s >= 0) == (%s >= 0) else -1)' % (x, y, x, y)
                                e = wrapf(i['t'])(e)
                            else:
                                e = '(abs(%s) %% abs(%s)) * (1 if %s >= 0 else -1)' % (x, y, x)
                        else:
                            raise Unsup('operator ' + o)
                    body.append('%s = %s' % (self.reg(i['id']), e))
                elif op == 'unop':
                    o = i['o']
                    if o == '*':
                        if i['x']['k'] == 'global':
                            body.append('%s = ("ptr", %s, 0, 0)' % (self.reg(i['id']), self.table(i['x'], body)))
                            continue
                        body.append('%s = %s[1][%s[2]]' % (self.reg(i['id']), self.reg(i['x']['name']), self.reg(i['x']['name'])))
                    elif o == '!':
                        body.append('%s = not %s' % (self.reg(i['id']), self.val(i['x'])))
                    elif o == '-':
                        body.append('%s = %s' % (self.reg(i['id']), wrapf(i['t'])('-' + self.val(i['x']))))
                    elif o == '^':
                        body.append('%s = %s' % (self.reg(i['id']), wrapf(i['t'])('~' + self.val(i['x']))))
                    else:
                        raise Unsup('unop ' + o)
                elif op == 'indexaddr':
                    x = i['x']
                    k = self.val(i['i'])
                    r = self.reg(i['id'])
                    if x['k'] == 'global':
                        t = self.table(x, body)
                        u = under(under(x['t'])['e'])
                        base = '("ptr", %s, 0, 0)' % t
                    elif x['k'] == 'reg':
                        base = self.reg(x['name'])
                        u = under(x['t'])
                        if u['k'] == 'ptr':
                            u = under(u['e'])
                    else:
                        raise Unsup('indexaddr')
                    if u['k'] == 'array':
                        n = str(u['n'])
                        st = under(u['e'])['n'] if under(u['e'])['k'] == 'array' else 1
                    elif u['k'] == 'slice':
                        n = 'len(%s[1])' % base
                        st = 1
                    else:
                        raise Unsup('index of ' + u['k'])
                    body.append('if not 0 <= %s < %s: raise GoPanic("index out of range")' % (k, n))
                    body.append('%s = ("ptr", %s[1], %s[2] + (%s) * %d, 0)' % (r, base, base, k, st))
                elif op == 'convert':
                    if not (intinfo(i['t']) and intinfo(i['x'].get('t', i['t']))):
                        raise Unsup('convert')
                    body.append('%s = %s' % (self.reg(i['id']), wrapf(i['t'])(self.val(i['x']))))
                elif op == 'changetype':
                    body.append('%s = %s' % (self.reg(i['id']), self.val(i['x'])))
                elif op == 'call':
                    c = i['call']
                    if 'invoke' in c or c['fn']['k'] not in ('func', 'builtin'):
                        raise Unsup('call')
                    nm = c['fn']['name']
                    args = ', '.join(self.val(a) for a in c['args'])
                    if nm == 'crypto/subtle.ConstantTimeByteEq':
                        e = '(lambda a, b: 1 if a == b else 0)(%s)' % args
                    elif nm == 'crypto/subtle.ConstantTimeSelect':
                        e = '(lambda v, a, b: a if v == 1 else b)(%s)' % args
                    elif nm == 'crypto/subtle.ConstantTimeEq':
                        e = '(lambda a, b: 1 if a == b else 0)(%s)' % args
                    elif c['fn']['k'] == 'builtin':
                        if nm not in ('min', 'max'):
                            raise Unsup('builtin ' + nm)
                        e = '%s(%s)' % (nm, args)
                    else:
                        e = '%s(%s)' % (self.get(nm), args)
                    body.append('%s = %s' % (self.reg(i['id']), e))
                elif op == 'extract':
                    body.append('%s = %s[%d]' % (self.reg(i['id']), self.val(i['x']), i['i']))
                elif op == 'makeinterface':
                    body.append('%s = None' % self.reg(i['id']))
                elif op == 'panic':
                    body.append('raise GoPanic("panic")')
                elif op == 'return':
                    xs = [self.val(x) for x in i['xs']]
                    body.append('return ' + (xs[0] if len(xs) == 1 else '(%s)' % ', '.join(xs)))
                elif op == 'jump':
                    body.append('p = %d; b = %d; continue' % (b.i, b.succs[0]))
                elif op == 'if':
                    body.append('p = %d; b = %d if %s else %d; continue' % (b.i, b.succs[0], self.val(i['x']), b.succs[1]))
                elif op in ('rundefers',):
                    pass
                else:
                    raise Unsup('instruction ' + op)
            L += ['      ' + x for x in body]
        return '\n'.join(L)

    def table(self, o, body):
        sh = self.prog.short(o['name'])
        t = self.tabs.get(sh)
        if t is None or not t['const']:
            raise Unsup('global ' + sh)
        n = 'T_' + ''.join(c if c.isalnum() else '_' for c in sh)
        self.ns[n] = t['data']
        return n


class PyEv:
    """contract expressions over concrete bytes"""

    def __init__(self):
        self.cache = {}

    def compile(self, e):
        t = ast.unparse(e) if not isinstance(e, str) else e
        if t not in self.cache:
            self.cache[t] = eval('lambda env: eval(c, g, env)', {'c': compile(t, 'contract', 'eval'), 'g': dict(
                gm=gf.mul, gi=gf.inv, gdiv=lambda a, b: gf.mul(a, gf.inv(b)), gpow=gf.power, xor=lambda a, b: a ^ b,
                implies=lambda a, b: (not a) or b, iff=lambda a, b: bool(a) == bool(b), ok=lambda e: not e)})
        return self.cache[t]


def check(prog, spec, fname, tabs, prop):
    """returns (obligations, failures): one obligation per clause, over all inputs"""
    c = Comp(prog, tabs)
    f = prog.funcs[fname]
    for p in f.params:
        if not intinfo(p['t']) or intinfo(p['t'])[0] != 8:
            raise Unsup('argument %s is not a byte' % p['name'])
    if len(f.params) > 2:
        raise Unsup('too many arguments')
    py = c.get(fname)
    fn = c.ns[py]
    ev = PyEv()
    req = [ev.compile(x.expr) for x in spec.requires_for(prop)]
    ens = [(x.text, ev.compile(x.expr)) for x in spec.of('ensures', prop)]
    pan = [(x.text, ev.compile(x.expr)) for x in spec.of('panics', prop)]
    fails = {}
    n = 0
    for args in itertools.product(range(256), repeat=len(f.params)):
        env = dict(zip(spec.params, args))
        if not all(r(env) for r in req):
            continue
        n += 1
        must = any(q(env) for t, q in pan)
        try:
            r = fn(*args)
        except GoPanic as e:
            if not must:
                fails.setdefault('no panic', (args, str(e)))
            continue
        except Unsup:
            raise
        if must:
            fails.setdefault('panics ' + pan[0][0], (args, r))
            continue
        env[spec.results[0]] = r
        for t, q in ens:
            if not q(env):
                fails.setdefault(t, (args, r))
    names = [t for t, q in ens] + ['no panic'] + ['panics ' + t for t, q in pan]
    return names, fails, n
