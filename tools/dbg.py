import sys,time,importlib
sys.path.insert(0,'/verif')
import warnings; warnings.simplefilter('ignore')
from pyvc import verify, contract as K, replay
from pyvc.source import Repo
def load(*mods):
    for m in mods: importlib.import_module('specs.'+m)
def go(filt, budget=8, srch=0, show=True, tb=True):
    repo=Repo(); K.init_records(repo)
    ps=[]
    for c in K.REG.all:
        if not any(f in c.id for f in filt): continue
        p=verify.FnProof(c,repo,K.REG); p.generate(); ps.append(p)
    jobs=[(p,i) for p in ps for i in range(len(p.obls))]
    t=time.time()
    rs=verify.discharge(jobs,budget=budget)
    byp={}
    for (p,i),r in zip(jobs,rs): byp.setdefault(id(p),[]).append((i,r))
    w=replay.Worker()
    for p in ps:
        rr=byp.get(id(p),[])
        ok=sum(r['status']=='proved' for _,r in rr)
        print('%-70s %d/%d gen %.2fs solve max %.1fs paths %d %s'%(p.con.id,ok,len(rr),p.gen_s,max([r['time'] for _,r in rr] or [0]),p.paths,p.unsupported or ''))
        if p.unsupported and tb: print(p.tb[-1800:])
        for i,r in rr:
            if r['status']=='proved' and r['time']>3: print('    slow',p.obls[i].name,'%.1f'%r['time'],r['backend'])
            if r['status']!='proved' and show:
                o=p.obls[i]; print('    FAIL',o.name,'|',o.kind,o.func,o.line,r['status'],r['backend'],'%.1f'%r['time'],r['note'])
                if r['args']:
                    print('      model',str(r['args'])[:600])
        if srch:
            first=[r['args'] for _,r in rr if r['args']]
            try:
                v,st=replay.search(p.con,w,1,srch,first=first)
                print('    search',{k:x for k,x in st.items() if k!='sample'}, v and ('VIOL',v['bad'],str(v['args'])[:700]) )
            except Exception as e:
                import traceback; traceback.print_exc()
    w.stop()
    return ps
if __name__=='__main__':
    import argparse
    a=argparse.ArgumentParser(); a.add_argument('mods'); a.add_argument('filt'); a.add_argument('-s',type=float,default=0); a.add_argument('-b',type=float,default=8)
    x=a.parse_args(); load(*x.mods.split(',')); go(x.filt.split(','),x.b,x.s)
