#!/usr/bin/env python3
"""developer helper: mk.py SPEC.py  confirm one planted bug and write it to /verif/seeded/<id>/
SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...], DEMO (demo.rs text; or FILES {name: text})
Works in /tmp/wt (a cp -a of /repo)."""
import sys, os, subprocess, json, shutil, runpy
os.environ["RUST_BACKTRACE"]="0"
s = runpy.run_path(sys.argv[1])
ID = s['ID']; wt = '/tmp/wt'
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh(f'git -C {wt} checkout -- .')
assert sh(f'git -C {wt} rev-parse HEAD').stdout == sh('git -C /repo rev-parse HEAD').stdout
kit = '/verif/tools/kit'
out = f'/tmp/sb/{ID}'
os.makedirs(out, exist_ok=True)
for f in ['demo.sh', 'src/atnc.rs', 'src/kit.rs']:
    shutil.copy(f'{kit}/{f}', out)
open(f'{out}/demo.rs', 'w').write("mod atnc;\nmod kit;\n#[allow(unused)]\nuse kit::*;\n" + s['DEMO'])
r = sh(f'timeout 300 bash {out}/demo.sh', cwd=wt)
print('clean:', r.returncode, (r.stdout + r.stderr)[-900:])
if r.returncode != 0 and '-f' not in sys.argv: sys.exit('demo fails on the clean tree')
for f, a, b in s['EDITS']:
    t = open(f'{wt}/{f}').read()
    if t.count(a) != 1: sys.exit(f'{f}: {t.count(a)} matches of {a!r}')
    open(f'{wt}/{f}', 'w').write(t.replace(a, b))
# removed lines must be original lines
orig = {}
d = sh(f'git -C {wt} diff -U0').stdout
cur = None
for l in d.splitlines():
    if l.startswith('--- '): cur = l[6:]; base = set(sh(f'git -C {wt} show f07b45d:{cur}').stdout.splitlines())
    elif l.startswith('-') and l[1:].strip() and l[1:] not in base: print('WARNING not an original line:', l)
env = "export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=/tmp/wt/target;"
r = sh(env + f'cd {wt} && timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/wt.log 2>&1; python3 /opt/vp/results.py /tmp/wt.json cargo:/tmp/wt.log')
res = json.load(open('/tmp/wt.json')); base = json.load(open('/opt/vp/BASELINE.json'))
miss = [x for x in base['stable'] if x not in res['passed']]
if miss:
    print(open('/tmp/wt.log').read()[-1500:]); sys.exit(f'tests fail: {miss}')
r = sh(f'timeout 300 bash {out}/demo.sh', cwd=wt)
print('patched:', r.returncode, (r.stdout + r.stderr)[-900:])
if r.returncode in (0, 3): sys.exit('demo does not fail')
diff = sh(f'git -C {wt} diff').stdout
sh(f'git -C {wt} checkout -- .')
dst = f'/verif/seeded/{ID}'
os.makedirs(dst, exist_ok=True)
for f in ['demo.sh', 'atnc.rs', 'kit.rs', 'demo.rs']: shutil.copy(f'{out}/{f}', dst)
open(f'{dst}/patch.diff', 'w').write(diff)
json.dump({"property": s['PROPERTY'], "needs": s['NEEDS'], "what_it_breaks": s['BREAKS']}, open(f'{dst}/meta.json', 'w'), indent=1)
assert sh(f'git -C /repo apply --check {dst}/patch.diff').returncode == 0
print('OK', ID)
