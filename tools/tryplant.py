#!/usr/bin/env python3
# tryplant.py [--notest] [--nocheck] [--all] [id...]: development aid. For each planted bug: demo on the unchanged tree and with the patch,
# stable tests with the patch (in a user namespace where a scratch copy is mounted at /repo), and the check of its property (--all: of every property).
import sys,os,subprocess,json,shutil,time
from concurrent.futures import ThreadPoolExecutor
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SC='/tmp/bt'
args=[a for a in sys.argv[1:] if not a.startswith('--')]; opt=[a for a in sys.argv[1:] if a.startswith('--')]
ids=args or sorted(os.listdir(ROOT+'/seeded')); os.makedirs(SC,exist_ok=True)
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def var(p): return {'C04':'mem','C12':'asan'}.get(p,'fast')
def ns(copy,cmd): return sh(f"unshare -Urm bash -c 'mount --bind {copy} /repo && cd /repo && {cmd}'")
def prep(i):
    S=f'{ROOT}/seeded/{i}'; c=f'{SC}/{i}'; shutil.rmtree(c,ignore_errors=True); sh(f'cp -a /repo {c}'); sh(f'mkdir -p {c}.d && cp {S}/demo* {c}.d/ ; for d in {S}/*/; do cp -r $d {c}.d/; done')
    r=[]; a=ns(c,f'bash {c}.d/demo.sh'); r.append(f'demo0={a.returncode}')
    p=sh(f'git -C {c} apply {S}/patch.diff'); r.append('' if p.returncode==0 else 'PATCH FAILS '+p.stderr)
    b=ns(c,f'bash {c}.d/demo.sh'); r.append(f'demo1={b.returncode} {b.stdout.strip()[:90]}{b.stderr.strip()[-60:] if not b.stdout else ""}')
    if '--notest' not in opt:
        t=ns(c,f'bash /opt/vp/test.sh {c}.json'); 
        try: j=json.load(open(f'{c}.json')); miss=[x for x in stable if x not in j['passed']]
        except Exception as e: miss=['no result '+str(e)]
        r.append('tests ok' if not miss else 'TESTS FAIL '+str(miss))
    return i,' ; '.join(x for x in r if x)
with ThreadPoolExecutor(8) as ex:
    for i,t in ex.map(prep,ids): print(i,t,flush=True)
if '--nocheck' not in opt:
    for i in ids:
        prop=json.load(open(f'{ROOT}/seeded/{i}/meta.json'))['property']
        for P in ([f'C{k:02d}' for k in range(1,18)] if '--all' in opt else [prop]):
            v=var(P); env=dict(os.environ,SIM_REPO=f'{SC}/{i}',SIM_OUT=f'{SC}/out-{i}')
            b=subprocess.run(['bash',ROOT+'/sim/build.sh',v],env=env,capture_output=True,text=True)
            if b.returncode: print(i,P,'BUILD FAILED',b.stderr[-300:]); continue
            t=time.time(); os.makedirs(SC+'/rp',exist_ok=True)
            x=subprocess.run([f'{SC}/out-{i}/sim-{v}','check','--prop',P,'--tier','quick','--seed','1','--out',SC+'/rp','--findings',ROOT+'/known-findings.txt','--evidence',SC+'/ev.json'],capture_output=True,text=True)
            vi=[l for l in (x.stdout+x.stderr).splitlines() if 'violat' in l.lower()]
            print(f"{i:26s} {P} rc={x.returncode} {time.time()-t:5.1f}s {' | '.join(vi)[:150]}",flush=True)
        shutil.rmtree(f'{SC}/out-{i}',ignore_errors=True)
for i in ids: shutil.rmtree(f'{SC}/{i}',ignore_errors=True); shutil.rmtree(f'{SC}/{i}.d',ignore_errors=True)
