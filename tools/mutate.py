#!/usr/bin/env python3
"""mutate.py FILE CHECK[,CHECK..] [func-regex]: which single-token mutants of /repo/FILE
do the checks miss?  Works on copies under /tmp; development aid only."""
import sys,os,subprocess,json,shutil,re
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f,chk=sys.argv[1],sys.argv[2].split(','); rx=re.compile(sys.argv[3] if len(sys.argv)>3 else '')
subprocess.check_call(['go','build','-o','/tmp/mutbin','.'],cwd=V+'/tools/mut',env=dict(os.environ,GOFLAGS='',GO111MODULE='on'))
subprocess.check_call(['sh',V+'/build.sh'])
src=open('/repo/'+f,'rb').read()
ms=[json.loads(l) for l in subprocess.check_output(['/tmp/mutbin','/repo/'+f]).decode().splitlines()]
ms=[m for m in ms if rx.search(m['func'])]
N=8; base='/tmp/mutwork'; shutil.rmtree(base,ignore_errors=True); os.makedirs(base)
for i in range(N):
    os.makedirs(f'{base}/{i}/v/evidence'); shutil.copytree('/repo',f'{base}/{i}/r',ignore=shutil.ignore_patterns('.git'))
    os.makedirs(f'{base}/{i}/v',exist_ok=True)
    os.symlink(V+'/analyzer',f'{base}/{i}/v/analyzer'); shutil.copy(V+'/KNOWN_FINDINGS.txt',f'{base}/{i}/v/')
    open(f'{base}/{i}/go.mod','w').write('module github.com/samuel/go-dsp\n\ngo 1.17\n')
    json.dump({"Replace":{f'{base}/{i}/r/go.mod':f'{base}/{i}/go.mod'}},open(f'{base}/{i}/ov.json','w'))
import queue
q=queue.Queue(); [q.put(i) for i in range(N)]
pkg='./'+os.path.dirname(f)
def run(m):
    i=q.get()
    try:
        w=f'{base}/{i}'; p=f'{w}/r/{f}'
        open(p,'wb').write(src[:m['off']]+m['new'].encode()+src[m['end']:])
        e=dict(os.environ,GOFLAGS='',GO111MODULE='on',GOWORK='off',GOPROXY='off',VERIF_REPO=w+'/r',VERIF_DIR=w+'/v')
        b=subprocess.run(['go','vet','-overlay',w+'/ov.json','-printf=false',pkg] if 0 else ['go','build','-overlay',w+'/ov.json','-o','/dev/null',pkg],cwd=w+'/r',env=e,capture_output=True)
        if b.returncode and 'boripserver' not in f: return m,'nobuild',''
        for c in chk:
            try: r=subprocess.run([V+'/bin/an','check',c],env=e,capture_output=True,text=True,errors="replace",timeout=60)
            except subprocess.TimeoutExpired: return m,'timeout',c
            if r.returncode==1: return m,'caught',r.stdout
            if r.returncode!=0: return m,'error',(r.stdout+r.stderr)[-400:]
        return m,'MISSED',''
    finally:
        open(p,'wb').write(src); q.put(i)
cnt={}
with ThreadPoolExecutor(N) as ex:
    for m,r,o in ex.map(run,ms):
        cnt[r]=cnt.get(r,0)+1
        if r in('MISSED','error','timeout'): print(r,f"{f}:{m['line']} {m['func']} {m['kind']}: {src[m['off']:m['end']].decode()[:40]!r} -> {m['new'][:50]!r}",o)
print(cnt)
shutil.rmtree(base)
