"""The SSA program dumped by gossa."""
import json


class Block:
    __slots__ = ('i', 'preds', 'succs', 'ins', 'idom')


class Func:
    def __init__(self, d):
        self.name = d['name']
        self.params = d['params']
        self.freevars = d['freevars']
        self.results = d['results']['e']
        self.resultnames = d['resultnames']
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.blocks = []
        for b in d['blocks']:
            x = Block()
            x.i, x.preds, x.succs, x.ins, x.idom = b['i'], b['preds'], b['succs'], b['ins'], b['idom']
            self.blocks.append(x)
        self._loops()

    def dom(self, a, b):
        """a dominates b"""
        while b != -1:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.blocks[b].idom
        return False

    def _loops(self):
        self.loops = {}
        for b in self.blocks:
            if b.i != 0 and not b.preds:
                continue
            for s in b.succs:
                if self.dom(s, b.i):
                    body = self.loops.setdefault(s, {s})
                    work = [b.i]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(self.blocks[x].preds)


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.module = d['module']
        self.funcs = {}
        for f in d['funcs']:
            self.funcs[f['name']] = Func(f)
        self.globals = d['globals']
        self.files = d['files']
        self.features = d.get('features', {})
        self._flags = None

    def cpuflags(self):
        """package-level booleans whose truth means that the CPU has some features:
        every store is `false` or the result of cpuid's Supports on constants"""
        if self._flags is not None:
            return self._flags
        out, bad = {}, set()
        for n, g in self.globals.items():
            if isbool(g['t']) and (g.get('init') or g.get('dyninit')):
                bad.add(n)
        for f in self.funcs.values():
            calls, arr = {}, {}
            for b in f.blocks:
                idx = {}
                for i in b.ins:
                    if i['op'] == 'indexaddr' and i['x'].get('k') == 'reg':
                        idx[i['id']] = i['x']['name']
                    elif i['op'] == 'slice' and i['x'].get('k') == 'reg':
                        arr[i['id']] = arr.setdefault(i['x']['name'], [])
                    elif i['op'] == 'store' and i['addr'].get('k') == 'reg' and i['addr']['name'] in idx:
                        v = i['x'].get('v') if i['x'].get('k') == 'const' else None
                        arr.setdefault(idx[i['addr']['name']], []).append(self.features.get(v))
                    elif i['op'] == 'call' and i['call'].get('fn', {}).get('name', '').endswith('cpuid/v2.CPUInfo).Supports'):
                        calls[i['id']] = arr.get(i['call']['args'][1].get('name'), [None])
                    elif i['op'] == 'store' and i['addr'].get('k') == 'global' and isbool(i['addr']['t']['e']):
                        n = i['addr']['name']
                        x = i['x']
                        if x.get('k') == 'const' and x.get('v') == 'false':
                            continue
                        fs = calls.get(x.get('name')) if x.get('k') == 'reg' else None
                        if not fs or None in fs or n in out and out[n] != fs:
                            bad.add(n)
                        else:
                            out[n] = fs
        self._flags = {n: v for n, v in out.items() if n not in bad}
        return self._flags

    def short(self, name):
        return name.replace(self.module + '/', '')


def under(t):
    while t['k'] == 'named':
        t = t['u']
    return t


INTS = {'int': (64, True), 'int64': (64, True), 'int32': (32, True), 'rune': (32, True), 'int16': (16, True), 'int8': (8, True),
        'uint8': (8, False), 'byte': (8, False), 'uint16': (16, False), 'uint32': (32, False), 'uint64': (64, False),
        'uint': (64, False), 'uintptr': (64, False)}


def intinfo(t):
    t = under(t)
    if t['k'] == 'basic' and t['name'] in INTS:
        return INTS[t['name']]
    return None


def isbool(t):
    t = under(t)
    return t['k'] == 'basic' and t['name'] in ('bool', 'untyped bool')


def elemkind(e):
    e = under(e)
    if e['k'] == 'basic' and e['name'] in ('uint8', 'byte'):
        return 'b'
    if intinfo(e):
        return 'i'
    if e['k'] == 'slice' and elemkind(e['e']) == 'b':
        return 's'
    return 'x'
