#!/usr/bin/env python3
# mutate.py [id-prefix...]: development aid. Applies each mutant to a scratch copy and runs the checks expected to notice it.
import sys,os,subprocess,shutil,time
sys.path.insert(0,os.path.dirname(__file__)); from mutants import M as M1; from mutants2 import M as M2; from mutants3 import M as M3; M=M1+M2+M3
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC=os.environ.get('MUT_SCRATCH','/tmp/mut'); args=sys.argv[1:]; allp='--all' in args; args=[a for a in args if a!='--all']
only=[a[2:] for a in args if a.startswith('p=')]; args=[a for a in args if not a.startswith('p=')]
os.makedirs(SC,exist_ok=True)
if not os.path.isdir(SC+'/out'): os.makedirs(SC+'/out'); 
def var(p): return {'C04':'mem','C12':'asan'}.get(p,'fast')
for mid,props,f,reps in M:
    if args and not any(mid.startswith(a) for a in args): continue
    if not reps: continue
    shutil.rmtree(SC+'/repo',ignore_errors=True); shutil.copytree('/repo',SC+'/repo',ignore=shutil.ignore_patterns('_build','.git'))
    p=SC+'/repo/'+f; s=open(p,encoding='utf-8',errors='surrogateescape',newline='').read(); crlf='\r\n' in s; s=s.replace('\r\n','\n')
    ok=True
    for o,n in reps:
        if s.count(o)<1: print(mid,'PATTERN NOT FOUND:',o[:60]); ok=False; break
        s=s.replace(o,n,1)
    if not ok: continue
    if crlf: s=s.replace('\n','\r\n')
    open(p,'w',encoding='utf-8',errors='surrogateescape',newline='').write(s)
    ps=[x for x in props if not only or x in only]
    env=dict(os.environ,SIM_REPO=SC+'/repo',SIM_OUT=SC+'/out')
    for P in ps:
        v=var(P); b=subprocess.run(['bash',ROOT+'/sim/build.sh',v],env=env,capture_output=True,text=True)
        if b.returncode: print(mid,P,'BUILD FAILED',b.stderr[-300:]); break
        t=time.time(); os.makedirs(SC+'/rp',exist_ok=True)
        r=subprocess.run([SC+'/out/sim-'+v,'check','--prop',P,'--tier','quick','--seed',os.environ.get('VERIF_SEED','1'),'--out',SC+'/rp','--findings',ROOT+'/known-findings.txt','--evidence',SC+'/ev.json'],capture_output=True,text=True)
        viol=[l for l in (r.stdout+r.stderr).splitlines() if 'VIOLATION' in l or 'violat' in l.lower()]
        print(f"{mid:24s} {P} rc={r.returncode} {time.time()-t:5.1f}s {' | '.join(viol)[:170]}",flush=True)
        if r.returncode==1 and not allp: break
