#!/usr/bin/env python3
# plant.py [id...]: development aid. Writes seeded/<id>/ (patch.diff, demo.sh, demo.c, meta.json) from the definitions in plants.py.
import sys,os,subprocess,shutil,json,tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))); from plants import P
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH='''#!/bin/bash
# Builds the library sources of the current directory (the repository) with demo.c and runs it.
# Exit status 0: the property holds for this demonstration; non-zero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
set -e
%(build)s
cd "$tmp"
timeout 250 ./demo
'''
LIB='''src=$(ls dilithium2/*.c sphincs/*.c common/*.c tweetnacl/*.c hybrid-dilithium-sphincs/*.c random/*.c | grep -v -e '_test[.]c$' -e '/test_')
gcc -w -O1 -g %(flags)s -I. -o "$tmp/demo" "$here/demo.c" $src %(ld)s'''
def crlf_aware(path,reps):
    s=open(path,encoding='utf-8',errors='surrogateescape',newline='').read(); c='\r\n' in s; s=s.replace('\r\n','\n')
    for o,n in reps:
        if s.count(o)!=1: raise SystemExit(f'{path}: pattern occurs {s.count(o)} times: {o[:80]!r}')
        s=s.replace(o,n)
    if c: s=s.replace('\n','\r\n')
    open(path,'w',encoding='utf-8',errors='surrogateescape',newline='').write(s)
for p in P:
    if len(sys.argv)>1 and p['id'] not in sys.argv[1:]: continue
    t=tempfile.mkdtemp(prefix='plant.'); subprocess.run(['git','clone','-q','/repo',t+'/r'],check=True)
    for f,reps in p['edits'].items(): crlf_aware(t+'/r/'+f,reps)
    d=subprocess.run(['git','-C',t+'/r','diff'],capture_output=True,check=True).stdout
    o=ROOT+'/seeded/'+p['id']; shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
    open(o+'/patch.diff','wb').write(d)
    b=p.get('build') or LIB%dict(flags=p.get('flags',''),ld=p.get('ld',''))
    open(o+'/demo.sh','w').write(DEMO_SH%dict(build=b)); os.chmod(o+'/demo.sh',0o755)
    open(o+'/demo.c','w').write(p['demo'])
    for n,c in p.get('files',{}).items():
        os.makedirs(os.path.dirname(o+'/'+n),exist_ok=True); open(o+'/'+n,'w').write(c)
    json.dump({'property':p['prop'],'needs':p['needs'],'what_it_breaks':p['breaks']},open(o+'/meta.json','w'),indent=1)
    shutil.rmtree(t); print(p['id'],len(d),'bytes')
