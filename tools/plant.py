#!/usr/bin/env python3
"""plant.py ID [--nocheck] [--check C05,...]: confirm a planted bug (build, stable tests, demo both ways), run its check."""
import json,os,subprocess,sys,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,cwd='/repo',t=900):
    return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,errors='replace')
def build():
    r=sh('bash /opt/vp/build.sh')
    return r.returncode,r.stdout[-1500:]
def stable():
    sh('bash /opt/vp/test.sh /tmp/pl.json')
    b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=set(json.load(open('/tmp/pl.json'))['passed'])
    return [t for t in b if t not in p]
def main():
    ids=[a for a in sys.argv[1:] if not a.startswith('-')]
    man=json.load(open(V+'/MANIFEST.json'))
    cmds={c['property']:c for c in man['checks']}
    for i in ids:
        d=f'{V}/seeded/{i}'; meta=json.load(open(d+'/meta.json'))
        assert not sh('git status --porcelain --untracked-files=no').stdout.strip(),'repo dirty'
        out=[]
        r=sh(f'git apply {d}/patch.diff')
        if r.returncode: print(i,'APPLY FAIL',r.stdout);continue
        try:
            rc,o=build()
            if rc: print(i,'BUILD FAIL',o);continue
            bad=stable(); out.append('stable ok' if not bad else f'STABLE FAIL {bad}')
            t=time.time();r=sh(f'bash {d}/demo.sh',t=320); out.append(f'demo patched rc={r.returncode} {"ok" if r.returncode else "BAD"} {time.time()-t:.0f}s [{r.stdout.strip()[-200:]}]')
            if '--nocheck' not in sys.argv:
                c=cmds.get(meta['property'])
                if c:
                    cmd=c.get('quick_cmd') or c.get('quick') or c['commands']['quick']
                    t=time.time()
                    try:
                        r=sh(cmd,cwd=V)
                        ls=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                        out.append(f'check rc={r.returncode} {"CAUGHT" if r.returncode==1 and ls else "MISSED"} {time.time()-t:.0f}s {(ls or r.stdout.strip().splitlines()[-1:])[:1]}')
                    except subprocess.TimeoutExpired: out.append('check TIMEOUT')
                else: out.append('no check')
        finally:
            sh('git checkout -- .')
        build(); r=sh(f'bash {d}/demo.sh',t=320); out.append(f'demo clean rc={r.returncode} {"ok" if r.returncode==0 else "BAD "+r.stdout[-300:]}')
        print(i,meta['property'],'\n   '+'\n   '.join(out),flush=True)
main()
