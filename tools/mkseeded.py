#!/usr/bin/env python3
"""Rebuilds /verif/seeded/* from tools/seeded_bugs.py: each planted bug as a patch
against /repo's HEAD, verified in a scratch copy (builds, stable tests pass,
demonstration passes without and fails with the change).
usage: mkseeded.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from seeded_bugs import BUGS
root = os.path.dirname(here)
DEMO = '''#!/bin/bash
# Runs with cwd /repo: exit 0 when the behaviour is right.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$repo/go.mod" "$repo/go.sum" "$t/"
printf '{"Replace":{"%s/zzdemo/demo_test.go":"%s/demo_test.go","%s/zzdemo/help_test.go":"%s/help_test.go"}}' "$repo" "$here" "$repo" "$here" > "$t/o.json"
go test -overlay "$t/o.json" -modfile "$t/go.mod" -vet=off -c -o "$t/demo" RACE ./zzdemo/ || exit 2
cd "$t" && ./demo -test.timeout 120s
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
want = sys.argv[1:]
bad = 0
for b in BUGS:
    if want and b['id'] not in want: continue
    d = f"{root}/seeded/{b['id']}" if b['demo'] else f"/tmp/probe/{b['id']}"
    s = tempfile.mkdtemp(prefix='seed.')
    try:
        c = s + '/r'
        sh(f'cp -a /repo {c}')
        for e in b['edits']:
            f, old, new = e[:3]
            t = open(f'{c}/{f}').read()
            n = t.count(old)
            if n != (e[3] if len(e) > 3 else 1):
                raise LookupError(f"{b['id']}: {f}: {n} matches of {old!r}")
            open(f'{c}/{f}', 'w').write(t.replace(old, new))
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh(f'git -C {c} diff').stdout)
        shutil.copy(here + '/seeded_help.go.txt', d + '/help_test.go')
        imps = ''.join(f'\t{i}\n' for i in ['"testing"'] + [('"%s"' % x) for x in b.get('imports', '').split()])
        if not b['demo']:  # a probe: only to try the checks on
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'))
            r = sh(f'. /opt/vp/env.sh; cd {c} && go build ./... && go test -vet=off -count=1 ./... | grep -i fail')
            print(b['id'], 'probe', r.stdout[:400], flush=True)
            continue
        open(d + '/demo_test.go', 'w').write(f'package zzdemo\n\nimport (\n{imps})\n\n' + b['demo'].strip() + '\n')
        sh(f'gofmt -w {d}/demo_test.go')
        open(d + '/demo.sh', 'w').write(DEMO.replace(' RACE', ' -race' if b.get('race') else ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/meta.json', 'a').write('\n')
        env = '. /opt/vp/env.sh; '
        r = sh(f'{env} cd {c} && go build ./... && go test -json -vet=off -count=1 ./... > {s}/t.json; true')
        res = {}
        for l in open(s + '/t.json'):
            try: j = json.loads(l)
            except ValueError: continue
            if j.get('Test') and j['Action'] in ('pass', 'fail'): res[(j['Package'], j['Test'])] = j['Action']
        fails = [k for k, v in res.items() if v == 'fail']
        ok0 = sh(f'cd /repo && bash {d}/demo.sh')
        ok1 = sh(f'cd {c} && bash {d}/demo.sh')
        st = 'ok'
        if r.stdout.strip(): st = 'BUILD ' + r.stdout[:400]
        elif fails or len(res) < 150: st = f'TESTS fail {len(fails)} of {len(res)} {fails[:3]}'
        elif ok0.returncode: st = 'DEMO FAILS UNPATCHED\n' + ok0.stdout[-1500:]
        elif not ok1.returncode: st = 'DEMO PASSES PATCHED'
        elif ok1.returncode == 2 and 'panic' not in ok1.stdout or ok0.stdout.startswith('#'): st = 'DEMO BUILD\n' + ok1.stdout[-1500:]
        print(b['id'], st, flush=True)
        bad += st != 'ok'
    except LookupError as e:
        print(e)
        bad += 1
    finally:
        shutil.rmtree(s)
sys.exit(bad > 0)
