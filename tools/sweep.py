# run many seeds of a check and count violation kinds/details
import sys,os,collections,subprocess,re
pid,n,seed0=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]) if len(sys.argv)>3 else 1
sys.path.insert(0,'/verif')
from sim import core, main
root='/dev/shm/sweep-%d'%os.getpid(); os.makedirs(root); os.environ['RTSIM_SESSION']=root; import atexit,shutil; pid0=os.getpid(); atexit.register(lambda: os.getpid()==pid0 and shutil.rmtree(root,ignore_errors=True))
check=main.get_check(pid)
core.load_riptable()
with core.quiet(): check.setup()
c=collections.Counter(); ex={}
def on(r):
    if r['status']!='ok':
        k=(r['status'],r.get('kind'))
        c[k]+=1
        ex.setdefault(k,[]).append((r['seed'],r['detail'][-700:] if r['status']=='harness' else r['detail'][:600]))
core.pool_run(check,[seed0*1000000+i for i in range(n)],8,600,on)
for k,v in c.most_common():
    print(k,v)
    for e in ex[k][:int(os.environ.get('EX','4'))]: print('    ',e)
