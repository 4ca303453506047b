#!/usr/bin/env python3
"""seed.py DEF.py: builds seeded/<id>/ from definitions, validating each in a scratch copy of /repo.
Each DEF entry: dict(id, property, edits=[(file, old, new)], main=go source (body of main package), needs, breaks)."""
import sys, os, subprocess, json, shutil, importlib.util, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; exits 0 when the behaviour is right
. /opt/vp/env.sh
export GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here/main.go.txt" "$t/main.go"
cp "$repo/go.sum" "$t/go.sum"
sed -e 's#^module .*#module demo#' "$repo/go.mod" > "$t/go.mod"
cat >> "$t/go.mod" <<X

require github.com/gagliardetto/binary v0.0.0
replace github.com/gagliardetto/binary => $repo
X
ov=
if [ -f "$here/inpkg.go.txt" ]; then
	cp "$here/inpkg.go.txt" "$t/inpkg.txt"
	echo "{\\"Replace\\":{\\"$repo/zz_demo_inpkg.go\\":\\"$t/inpkg.txt\\"}}" > "$t/ov.json"
	ov="-overlay $t/ov.json"
fi
cd "$t" && timeout 250 go run $ov . 
'''
def sh(cmd, cwd=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
def main():
    spec = importlib.util.spec_from_file_location('d', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    base = json.load(open('/opt/vp/BASELINE.json'))
    for d in m.DEFS:
        if only and d['id'] not in only: continue
        out = os.path.join(V, 'seeded', d['id'])
        tmp = tempfile.mkdtemp(prefix='seed-')
        repo = os.path.join(tmp, 'repo')
        sh(f'cp -a /repo {repo}')
        sd = os.path.join(tmp, 'sd'); os.makedirs(sd)
        open(os.path.join(sd, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(sd, 'demo.sh'), 0o755)
        open(os.path.join(sd, 'main.go.txt'), 'w').write(d['main'])
        if d.get('inpkg'): open(os.path.join(sd, 'inpkg.go.txt'), 'w').write(d['inpkg'])
        ok = True; msg = ''
        rc, o = sh(f'bash {sd}/demo.sh', repo)
        if rc != 0: ok = False; msg = 'demo fails on the unchanged tree:\n' + o[-2000:]
        if ok:
            for f, old, new in d['edits']:
                p = os.path.join(repo, f); s = open(p).read()
                if s.count(old) != 1: ok = False; msg = f'{f}: old text occurs {s.count(old)} times'; break
                open(p, 'w').write(s.replace(old, new))
        if ok:
            rc, o = sh('. /opt/vp/env.sh; GOSUMDB=off go build ./... && go vet . >/dev/null 2>&1; GOSUMDB=off go test ./... 2>&1 | tail -30', repo)
            if 'FAIL' in o or 'panic' in o or '\nok' not in '\n'+o: ok = False; msg = 'build/tests:\n' + o
        if ok:
            rc, o = sh(f'bash {sd}/demo.sh', repo)
            if rc == 0: ok = False; msg = 'demo passes with the change'
            else: msg = o.strip()[-300:]
        if ok:
            rc, diff = sh('git diff', repo)
            open(os.path.join(sd, 'patch.diff'), 'w').write(diff)
            json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
            shutil.rmtree(out, ignore_errors=True); shutil.copytree(sd, out)
        print(d['id'], 'OK' if ok else 'REJECTED', '|', msg.replace('\n', ' / '))
        shutil.rmtree(tmp)
main()
