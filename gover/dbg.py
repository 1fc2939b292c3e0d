import sys,os; sys.setrecursionlimit(20000)
sys.path.insert(0,'.')
import prove,z3
pat=os.environ['PAT']
o=prove.Prover.h_group
def hg(self,s,grp,removed):
    for g in grp:
        if all(p in str(g[2]) for p in pat.split('&')):
            ok,dt=self.ask(s,g[1],prove.RL_CAND)
            print('CAND',g[2],g[3],ok); 
            if not ok: print(g[1])
    return o(self,s,grp,removed)
prove.Prover.h_group=hg
exec(open('run1.py').read())
