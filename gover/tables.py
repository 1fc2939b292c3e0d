"""Constant lookup tables: their initialisers, and that nothing writes them."""
import gf


def flat(x):
    out = []
    for e in x:
        if isinstance(e, list):
            out.extend(flat(e))
        else:
            out.append(int(e))
    return out


def roles(data):
    """which field function a table tabulates: every entry is compared"""
    n = len(data)
    r = []
    if n == 65536 and all(data[i] == gf.mul(i >> 8, i & 255) for i in range(n)):
        r.append('mul')
    if n == 4096:
        if all(data[i] == gf.mul(i >> 4, i & 15) for i in range(n)):
            r.append('mullow')
        if all(data[i] == gf.mul(i >> 4, (i & 15) << 4) for i in range(n)):
            r.append('mulhigh')
    if n == 256:
        if all(gf.power(2, data[i]) == i and data[i] < 255 for i in range(1, 256)):
            r.append('log')
        if all(data[i] == gf.inv(i) for i in range(256)):
            r.append('inv')
    if n >= 255 and n != 65536 and all(data[i] == gf.power(2, i) for i in range(n)):
        r.append('exp')
    return r


READ = ('unop', 'indexaddr', 'slice', 'index', 'field', 'fieldaddr', 'phi')


def constant(prog, kernels=()):
    """names of the globals that are only ever read (no store reaches them, and
    no pointer or slice into them escapes except to the listed callees)"""
    bad = {}
    for f in prog.funcs.values():
        if f.name.split('.')[-1] == 'init':
            continue          # the synthesized initialiser
        tainted = {}
        work = True
        while work:
            work = False
            for b in f.blocks:
                for i in b.ins:
                    for role, o in operands(i):
                        if o.get('k') == 'global':
                            g = o['name']
                        elif o.get('k') == 'reg' and o['name'] in tainted:
                            g = tainted[o['name']]
                        else:
                            continue
                        op = i['op']
                        if op == 'unop' and i['o'] == '*':
                            # a load: a slice or pointer value still refers to the table
                            from ir import under
                            if under(i['t'])['k'] not in ('slice', 'ptr'):
                                continue
                            if i['id'] not in tainted:
                                tainted[i['id']] = g
                                work = True
                            continue
                        if op in READ:
                            if 'id' in i and i['id'] not in tainted:
                                tainted[i['id']] = g
                                work = True
                            continue
                        if op == 'call':
                            c = i['call']
                            nm = c.get('fn', {}).get('name', '')
                            if nm in ('len', 'cap') or prog.short(nm) in kernels:
                                continue
                            if nm == 'copy' and role == 'arg1':
                                continue
                        bad.setdefault(g, '%s in %s' % (op, prog.short(f.name)))
    return bad


def operands(i):
    out = []
    for k, v in i.items():
        if isinstance(v, dict) and 'k' in v and k not in ('t',):
            out.append((k, v))
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and 'k' in x:
                    out.append((k, x))
        elif isinstance(v, dict) and k == 'call':
            for kk, x in v.items():
                if isinstance(x, dict) and 'k' in x:
                    out.append((kk, x))
                elif isinstance(x, list):
                    for n, y in enumerate(x):
                        if isinstance(y, dict) and 'k' in y:
                            out.append(('arg%d' % n, y))
    return out


KERNELS = ('galois.galMulSSSE3', 'galois.galMulAVX2', 'galois.galMulAVX2_64', 'galois.galMulNEON')


def analyse(prog):
    """short name -> dict(n, roles, const)"""
    bad = constant(prog, KERNELS)
    out = {}
    for n, g in prog.globals.items():
        if g.get('init'):
            try:
                d = flat(g['init'])
            except Exception:
                continue
            out[prog.short(n)] = dict(n=len(d), data=d, roles=roles(d), const=n not in bad, why=bad.get(n))
    return out
