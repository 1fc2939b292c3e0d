"""C07 beyond the amd64 SSA: the arm64 and portable builds, the machine code of
the kernels on both architectures, and building for every Go architecture."""
import concurrent.futures as cf
import glob
import os
import subprocess
import time

import asm
import plan
import tables
from ir import Prog
from spec import Lib


def ob(fn, kind, what, ok, backend, out='', t=0.0):
    return dict(fn=fn, kind=kind, what=what, pos='', status='ok' if ok else 'fail', backend=backend, time=t, solver_output=out)


def archs(goenv, repo):
    r = subprocess.run(['go', 'tool', 'dist', 'list'], cwd=repo, env=goenv, capture_output=True, text=True)
    out = {}
    for l in r.stdout.split():
        o, a = l.split('/')
        if a not in out or o == 'linux':
            out[a] = o
    return out


def check(prop, prog, lib, tmp, gossa, dump, deadline, log, goenv, repo, verif):
    import check as chk
    obs = []
    called = set()
    with cf.ThreadPoolExecutor(8) as ex:
        # ---- building everywhere
        ar = archs(goenv, repo)
        jobs = {}
        for a, o in sorted(ar.items()):
            for tags in ('', 'noasm', 'appengine'):
                def job(a=a, o=o, tags=tags):
                    t = time.time()
                    cmd = ['go', 'build'] + (['-tags', tags] if tags else []) + ['./galois']
                    r = subprocess.run(cmd, cwd=repo, env=dict(goenv, GOARCH=a, GOOS=o, CGO_ENABLED='0'), capture_output=True, text=True)
                    return r.returncode, r.stderr, time.time() - t
                jobs[(a, o, tags)] = ex.submit(job)
        links = {a: ex.submit(asm.link, a, tmp, goenv, repo) for a in ('amd64', 'arm64')}
        dumps = {'arm64': ex.submit(dump, tmp, gossa, 'arm64', ['-goarch', 'arm64']), 'noasm': ex.submit(dump, tmp, gossa, 'noasm', ['-tags', 'noasm'])}
        for (a, o, tags), f in jobs.items():
            rc, err, t = f.result()
            obs.append(ob('galois', 'build', 'galois builds for %s/%s%s' % (o, a, ' -tags ' + tags if tags else ''), rc == 0, 'go build', err[-400:], t))
        bins = {a: f.result() for a, f in links.items()}
        for a, (b, err) in bins.items():
            obs.append(ob('galois', 'build', 'galois assembles and links for linux/%s' % a, b is not None, 'go build', err[-400:]))
    log('built %d configurations' % len(jobs))
    # ---- machine code
    with cf.ProcessPoolExecutor(4) as ex:
        work = []
        for a, (b, err) in bins.items():
            if b is None:
                continue
            kern = asm.disassemble(b)
            for k, ins in kern.items():
                for alias in (False, True):
                    work.append((a, k, ins, alias))
            called |= set((a, k) for k in kern)
        for r in ex.map(runk, work):
            obs += r
    log('%d obligations on the machine code of %d kernels' % (sum(1 for o in obs if o['kind'] == 'machine code'), len(called)))
    # ---- the Go code of the other builds
    needk = {'amd64': set()}
    for name, f in dumps.items():
        p2 = Prog(f.result())
        l2 = Lib(p2, sorted(glob.glob(os.path.join(verif, 'contracts', '*.spec'))), prop)
        l2.tables = tables.analyse(p2)
        res, missing = chk.prove(p2, l2, prop, plan.PLAN[prop]['entries'], deadline, 200)
        for m in missing:
            obs.append(ob(m, 'missing', 'entry point %s exists in the %s build' % (m, name), False, '-'))
        needk[name] = set()
        for n, r in sorted(res.items()):
            if r['error']:
                obs.append(ob(n, 'error', 'verification of %s in the %s build' % (n, name), False, '-', r['error']))
            for o in r['obs']:
                obs.append(dict(o, what=o['what'] + ' [%s build]' % name))
            needk[name] |= set(t.rsplit('.', 1)[-1] for t in r['trusted'] if t.rsplit('.', 1)[-1] in asm.KERNELS)
    for k in needk['arm64']:
        obs.append(ob(k, 'machine code', 'the kernel called by the arm64 build was verified', ('arm64', k) in called, 'gover'))
    # the amd64 build: every kernel linked was verified; a kernel that is called is linked
    return obs


def runk(x):
    a, k, ins, alias = x
    kind, B, feat = asm.KERNELS[k]
    return asm.Kernel(k, a, ins, kind, B, alias).run()
