#!/usr/bin/env python3
"""Create a planted change: seed.py SPEC.py   (SPEC defines ID, PROP, NEEDS, BREAKS, EDITS, DEMO)
Works in a scratch copy; keeps the change only if it compiles, the stable tests pass,
the demo passes without it and fails with it. Then runs the property's quick check on it."""
import sys,os,json,subprocess,shutil,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
ID=spec['ID']; nocheck='--nocheck' in sys.argv
def sh(cmd,cwd=None,env=None,timeout=900):
    return subprocess.run(cmd,shell=True,cwd=cwd,env=env,capture_output=True,text=True,timeout=timeout)
base=subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD",shell=True,text=True).split()[-1]
origin=sh("git -C /repo log --format='%H %s'").stdout.splitlines()
base=open('/verif/tools/base_commit').read().strip()
wt=tempfile.mkdtemp(prefix='seedwt.'); os.rmdir(wt)
assert sh(f"cp -a /repo {wt} && git -C {wt} checkout -q -- . && git -C {wt} clean -fdq").returncode==0
ok=True
try:
    for f,old,new in spec['EDITS']:
        p=os.path.join(wt,f); s=open(p).read()
        assert s.count(old)==1,(f,'matches',s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    # the touched lines must be original ones
    d=sh(f"git -C {wt} diff").stdout
    import re
    cur=None;ln=0;bad=[];removed=0
    for l in sh(f"git -C {wt} diff -U0").stdout.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m.group(1)); continue
        if l.startswith('-') and not l.startswith('---'):
            removed+=1
            b=sh(f"git -C {wt} blame -l -s -L {ln},{ln} HEAD -- {cur}").stdout
            if not(b.startswith('^') or sh(f"git -C {wt} merge-base --is-ancestor {b.split()[0].lstrip('^')} {base}").returncode==0): bad.append((cur,ln,l))
            ln+=1
    if removed==0: print("WARNING: no original line changed")
    if bad: print("WARNING: not original lines:",bad)
    out=f"/verif/seeded/{ID}"; os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(d)
    open(out+'/meta.json','w').write(json.dumps({"property":spec['PROP'],"needs":spec['NEEDS'],"what_it_breaks":spec['BREAKS']},indent=1)+"\n")
    open(out+'/main.go','w').write(spec['DEMO'])
    open(out+'/demo.sh','w').write('''#!/bin/bash
# Exit 0 when the property holds, nonzero otherwise. Run with cwd = the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$HERE/main.go" "$REPO/go.sum" "$T/"
{ printf 'module demo\\n\\n'; grep -E '^(go|toolchain) ' "$REPO/go.mod"
  printf '\\nrequire github.com/substrait-io/substrait-go/v8 v8.0.0\\nreplace github.com/substrait-io/substrait-go/v8 => %s\\n' "$REPO"
  sed -n '/^require/,$p' "$REPO/go.mod" | grep -v '^replace'; } > "$T/go.mod"
cd "$T" && GOFLAGS=-mod=mod go run .
''')
    os.chmod(out+'/demo.sh',0o755)
    r=sh(f". /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | grep -v '^#' | head -3",cwd=wt)
    if r.returncode: print("BUILD FAILS",r.stdout,r.stderr); ok=False
    # baseline tests with go test directly in the scratch copy
    r=sh(". /opt/vp/env.sh; go test ./... 2>&1 | grep -E '^(FAIL|---|ok|panic)' | grep -v '^ok' | head -20",cwd=wt)
    if r.stdout.strip(): print("TESTS:",r.stdout); 
    if 'FAIL' in r.stdout: ok=False
    a=sh(f"bash {out}/demo.sh",cwd='/repo'); b=sh(f"bash {out}/demo.sh",cwd=wt)
    print("demo clean rc",a.returncode,a.stdout[-200:],a.stderr[-300:] if a.returncode else ''); print("demo patched rc",b.returncode,(b.stdout+b.stderr)[-300:])
    if a.returncode!=0 or b.returncode==0: ok=False
finally:
    shutil.rmtree(wt,ignore_errors=True)
print(ID,"VALID" if ok else "INVALID")
if not ok:
    shutil.rmtree(f"/verif/seeded/{ID}",ignore_errors=True); sys.exit(1)
if not nocheck:
    try:
        assert sh(f"git -C /repo apply /verif/seeded/{ID}/patch.diff").returncode==0
        r=sh(f"/verif/run.sh {spec['PROP']} quick",cwd='/verif')
        print("check rc",r.returncode); print('\n'.join(x[:300] for x in r.stdout.splitlines()[:4]))
    finally:
        sh("git -C /repo checkout -- .")
