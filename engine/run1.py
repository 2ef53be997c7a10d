import sys, time, os
sys.path.insert(0, '/verif/engine')
sys.setrecursionlimit(20000)
import terms as t, llvm, exec as X, solve
def main():
    src, want = sys.argv[1], sys.argv[2:]
    bc = '/tmp/run1.bc'
    t0=time.time()
    llvm.compile_bc(src, bc, ['/repo/include', '/repo/include/..', '/verif/contracts'])
    L = llvm.Loader(bc)
    L.prepare(lambda n: n.startswith('C_'), lambda n: False)
    m = L.load(lambda n: n.startswith('C_') or n in L.recursive)
    print('compile', time.time()-t0, [f for f in m.fns if f.startswith('C_')])
    for n in m.fns:
        if not n.startswith('C_') or (want and n[2:] not in want): continue
        t.reset(); solve.STATS.update(queries=0,time=0.0)
        ex = X.Exec(m, {})
        t0=time.time()
        st = X.State()
        try:
            r = ex.call_fn(m.fns[n], [], st)
        except X.Giveup as e:
            print(n,'GIVEUP',e); r=[]
            if os.environ.get('TB'): raise
        bad=[o for o in ex.obs if o.status!='proved']
        print(n,'%.1fs'%(time.time()-t0),'paths',len(r),'obs',len(ex.obs),'bad',len(bad),'triv',ex.triv,'steps',ex.steps,solve.STATS)
        for o in bad[:int(os.environ.get('N','5'))]:
            print('   ',o.status,o.kind,o.name,o.loc,o.model,'\n  goal',o.goal[:600],'\n  pc',o.pc[:500])
main()
