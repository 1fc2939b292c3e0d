"""Debug driver: verify single functions."""
import sys, time, os, glob
if os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from ir import Prog
from spec import Lib
from exec import Exec, Unsupported
from prove import Prover
import tables
import z3
def main():
    js = os.environ.get('SSA', '/tmp/amd64.json')
    prog = Prog(js)
    prop = os.environ.get('PROP')
    lib = Lib(prog, sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', '*.spec'))), prop)
    lib.tables = tables.analyse(prog)
    for d in os.environ.get('DIS', '').split(','):
        if d:
            lib.specs[d].disabled = True
    for name in sys.argv[1:]:
        full = [n for n in prog.funcs if prog.short(n) == name]
        spec = lib.get(name)
        if spec.method == 'finite':
            import finite
            print(name, finite.check(prog, spec, full[0], lib.tables, prop))
            continue
        ex = Exec(prog, lib, prop)
        t = time.time()
        root = ex.verify(full[0], spec)
        t1 = time.time() - t
        p = Prover(root, log=print)
        print(name, 'symexec %.1fs' % t1, 'paths', ex.paths)
        r = p.run()
        bad = [o for o in r.obs if o['status'] != 'ok']
        print('%s: %d obligations, %d failed, %d checks, solver %.1fs, wall %.1fs, inv %d dropped %d, backends %s covers %s used %s inlined %s' % (
            name, len(r.obs), len(bad), r.checks, r.time, time.time() - t, len(r.inv), r.dropped, r.backends, {k: [x for x in v].count('unsat') for k, v in r.covers.items()}, ex.usedcontracts, ex.inlined))
        if os.environ.get('V'):
            for c in r.inv:
                if os.environ['V'] in c[1]:
                    print('   inv', c)
        if os.environ.get('VV'):
            for o in bad:
                print('   ', o['what'], o['formula'])
main()
