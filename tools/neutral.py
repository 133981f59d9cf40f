#!/usr/bin/env python3
# Behaviour-preserving edits; every check must stay quiet on them.
# usage: neutral.py [name-regex]   Applies each edit to a scratch copy, runs tests and the named checks.
import sys,os,re,subprocess,shutil,json,concurrent.futures as cf
N={}
def n(name,checks,*edits):
    c=checks.split()
    if any(f.startswith('dsp/') and 'ax25' not in f for f,_,_ in edits): c+=[x for x in ('C11','C21','C22') if x not in c]
    N[name]=(c,edits)
B='dsp/biquad.go'; F='dsp/filter.go'; D='dsp/downsample.go'; G='dsp/goertzel.go'; DM='dsp/demod.go'; U='dsp/util.go'
S='dsp/sdft.go'; I='dsp/interpolate.go'; C='dsp/conversion.go'; M='dsp/math32.go'; W='dsp/window.go'; T='dsp/dtmf/dtmf.go'; H='dsp/ax25/hdlc.go'; R='dsp/ax25/crc.go'; K='dsp/ax25/constants.go'
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'neutral_edits.py')).read())
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors="replace",**k)
def run(name):
    checks,edits=N[name]; w='/tmp/nz/'+name
    shutil.rmtree(w,ignore_errors=True); os.makedirs('/tmp/nz',exist_ok=True)
    subprocess.check_call(['cp','-a','/repo',w])
    for f,o,new in edits:
        p=w+'/'+f; s=open(p).read()
        if isinstance(o,re.Pattern):
            s2,k=o.subn(new,s)
            if not k: return name,'EDIT FAILED '+o.pattern
        else:
            if s.count(o)<1: return name,'EDIT FAILED %d %r'%(s.count(o),o[:60])
            s2=s.replace(o,new,1)
        open(p,'w').write(s2)
    ov='/tmp/nz/%s.json'%name
    open('/tmp/nz/gomod','w').write('module github.com/samuel/go-dsp\n\ngo 1.17\n')
    json.dump({"Replace":{w+"/go.mod":"/tmp/nz/gomod"}},open(ov,'w'))
    r=sh('GOFLAGS= GO111MODULE=on GOWORK=off GOPROXY=off go test -vet=off -count=1 -overlay=%s ./borip ./dsp ./dsp/ax25 ./dsp/dtmf'%ov,cwd=w)
    if r.returncode: return name,'TESTS FAIL '+(r.stdout+r.stderr)[-500:]
    out=[]
    for c in checks:
        os.makedirs('/tmp/nz/ev_'+name,exist_ok=True)
        r=sh('VERIF_REPO=%s AN_EVID=/tmp/nz/ev_%s timeout 880 /verif/bin/an check %s'%(w,name,c))
        out.append('%s=%s'%(c,'ok' if r.returncode==0 else 'ALARM(%d) %s'%(r.returncode,' '.join(l for l in r.stdout.split('\n') if l.strip())[:400])))
    shutil.rmtree(w); shutil.rmtree('/tmp/nz/ev_'+name,ignore_errors=True)
    return name,'  '.join(out)
sel=[x for x in N if len(sys.argv)<2 or re.search(sys.argv[1],x)]
with cf.ThreadPoolExecutor(int(os.environ.get('J','4'))) as ex:
    for name,res in ex.map(run,sel): print(name,'::',res,flush=True)
