import subprocess,sys,os,json,shutil,re
sys.path.insert(0,'/tmp/seed')
exec(open('/tmp/seed/bugs.py').read())
if os.path.exists('/tmp/seed/bugs2.py'): exec(open('/tmp/seed/bugs2.py').read())
SB='/tmp/sb'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
only=sys.argv[1:]
for b in B:
    if only and not any(b['id'].startswith(o) for o in only): continue
    sh('git checkout -q -- .',cwd=SB)
    if not b['edits']: print(b['id'],'NO EDITS'); continue
    bad=False
    for f,o,n in b['edits']:
        p=SB+'/'+f; t=open(p).read()
        if t.count(o)!=1: print(b['id'],'MATCHES',t.count(o),f,repr(o[:60])); bad=True; break
        open(p,'w').write(t.replace(o,n))
    if bad: continue
    diff=sh('git diff',cwd=SB).stdout
    # every removed line must come from the original repository
    mine=orig=0; cur=None
    for l in diff.split('\n'):
        if l.startswith('--- a/'): cur=l[6:]
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m.group(1)); continue
        if l.startswith('-') and not l.startswith('---'):
            bl=sh(f'git blame -s -L {ln},{ln} HEAD -- {cur}',cwd=SB).stdout
            if bl.startswith('^d00be92') or bl.startswith('d00be92'): orig+=1
            else: mine+=1
            ln+=1
        elif l.startswith(' '): ln+=1
    out=sh('bash /tmp/bc.sh '+SB).stdout
    err=[x for x in out.split('\n') if x.startswith('error') or x.startswith('-->')]
    if err: print(b['id'],'BUILD',out[:600]); continue
    D='/verif/seeded/'+b['id']; shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
    open(D+'/patch.diff','w').write(diff)
    for x in ['ic','wasm','candid','svc','util','http']: shutil.copy(f'/verif/sim/{x}.js',D+'/')
    if b['prop'] in ('N27','N28'):
        shutil.copy('/tmp/seed/clikit.js',D+'/'); shutil.copytree('/verif/cli/ic-agent',D+'/ic-agent'); shutil.copy('/verif/cli/Cargo.toml.in',D+'/')
        for x in ['ic','wasm','http']: os.remove(D+'/'+x+'.js')
        open(D+'/demo.js','w').write("'use strict';\nconst K = require('./clikit');\nK.build();\n(async () => {\n"+b['demo'].strip()+"\nconsole.log('ok');\n})();\n")
    else:
        shutil.copy('/tmp/seed/kit.js',D+'/')
        open(D+'/demo.js','w').write("'use strict';\nconst K = require('./kit');\n"+b['demo'].strip()+"\nconsole.log('ok');\n")
    open(D+'/demo.sh','w').write('#!/bin/bash\n# Run in the repository after build.sh. Exits 0 if the behaviour is intact.\nexec node "$(cd "$(dirname "$0")" && pwd)/demo.js"\n'); os.chmod(D+'/demo.sh',0o755)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(D+'/meta.json','w'),indent=1)
    r1=sh('bash '+D+'/demo.sh',cwd=SB); r0=sh('bash '+D+'/demo.sh',cwd='/repo')
    print(b['id'],f'orig={orig} mine={mine} add_only={orig+mine==0} patched={r1.returncode} clean={r0.returncode}', (r1.stdout+r1.stderr)[:200].strip().replace('\n',' | ') , '' if r0.returncode==0 else 'CLEAN-FAIL '+(r0.stdout+r0.stderr)[:300],flush=True)
sh('git checkout -q -- .',cwd=SB)
