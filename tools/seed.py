#!/usr/bin/env python3
"""Plant a bug: seed.py make NAME...   (definitions in seeds.py) writes seeded/<id>/ and confirms it in a scratch copy
            seed.py try  NAME...   runs the property's quick check against it (other checks: NAME:C01,C02)
Everything runs in a user namespace with a scratch copy bound over /repo (and over /verif for 'try')."""
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf
V = '/verif'; R = '/repo'; BASE = '4fc93cf'
sys.path.insert(0, V + '/tools')

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, errors='replace', **kw)

def ns(repo, cmd, verif=None, timeout=1500):
    b = f'mount --bind {repo} /repo; ' + (f'mount --bind {verif} /verif; ' if verif else '')
    try:
        return subprocess.run(['unshare', '-Urm', 'bash', '-c', b + 'cd /repo; ' + cmd], text=True, errors='replace',
                              capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')

HEAD = '''#!/bin/bash
# Run with cwd /repo after the build: exits 0 when the behaviour is right.
F=$PWD/bin/funge; HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
cd "$D" || exit 2
run() { timeout 20 "$F" "$@" 2>"$D/.err" </dev/null | head -c 100000; return "${PIPESTATUS[0]}"; }
want() { if [ "$1" != "$2" ]; then echo "got '$1', expected '$2'"; exit 1; fi; }
'''

def make(b):
    d = f'{V}/seeded/{b["id"]}'
    tmp = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        sh(f'cp -a /repo/. {tmp}/')
        for f, old, new in b['edits']:
            s = open(f'{tmp}/{f}').read()
            if s.count(old) != 1:
                return f'{b["id"]}: edit text occurs {s.count(old)} times in {f}'
            open(f'{tmp}/{f}', 'w').write(s.replace(old, new))
        diff = sh(f'git -C {tmp} diff').stdout
        # removed lines have to be original ones
        cur = None
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                cur = sh(f'git -C {R} show {BASE}:{l[6:]}').stdout.split('\n')
            elif l.startswith('-') and not l.startswith('---'):
                if l[1:] not in cur:
                    return f'{b["id"]}: not an original line: {l}'
        os.makedirs(d, exist_ok=True)
        demo = HEAD + b['demo'].strip('\n') + '\nexit 0\n'
        open(d + '/demo.sh', 'w').write(demo); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        for n, t in b.get('files', {}).items():
            open(f'{d}/{n}', 'w').write(t)
        c = sh(f'cd /repo && bash {d}/demo.sh')
        if c.returncode:
            return f'{b["id"]}: demo fails on the unchanged tree: {c.stdout[-400:]!r} {c.stderr[-300:]}'
        r = ns(tmp, f'bash /opt/vp/build.sh >/tmp/{b["id"]}.build 2>&1; echo BUILD=$?; bash {d}/demo.sh; echo DEMO=$?; bash /opt/vp/test.sh {tmp}/out.json >/dev/null 2>&1; true')
        if 'BUILD=0' not in r.stdout:
            return f'{b["id"]}: does not build ' + r.stdout + r.stderr
        if 'DEMO=0' in r.stdout or 'DEMO=' not in r.stdout:
            return f'{b["id"]}: demo passes with the change {r.stdout}'
        try:
            o = json.load(open(tmp + '/out.json'))
        except Exception as e:
            return f'{b["id"]}: no test results {e}'
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        lost = [t for t in stable if t not in o['passed']]
        if lost:
            return f'{b["id"]}: tests fail: {lost[:5]}'
        return f'{b["id"]}: ok   [{r.stdout.strip()[:150]!r}]'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def attempt(name):
    name, _, props = name.partition(':')
    d = f'{V}/seeded/{name}'
    props = props.split(',') if props else [json.load(open(d + '/meta.json'))['property']]
    tmp = tempfile.mkdtemp(prefix='try', dir='/tmp'); out = []
    try:
        os.makedirs(tmp + '/r'); os.makedirs(tmp + '/v')
        sh(f'cp -a /repo/. {tmp}/r/; cp -a /verif/. {tmp}/v/; rm -rf {tmp}/v/seeded {tmp}/v/build/replay')
        if sh(f'git -C {tmp}/r apply {d}/patch.diff').returncode:
            return f'{name}: patch does not apply'
        for p in props:
            r = ns(f'{tmp}/r', f'cd /verif && VERIF_SEED={os.environ.get("SEED","1")} VERIF_TIER=quick python3 tools/check.py {p}', f'{tmp}/v', 1200)
            lines = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            out.append(f'{name}: {p}: ' + ('CAUGHT' if r.returncode == 1 and lines else f'missed rc={r.returncode} {r.stdout[-200:]!r} {r.stderr[-300:]!r}'))
            if r.returncode == 1 and os.path.isdir(f'{tmp}/v/build/replay'):
                rp = sorted(os.listdir(f'{tmp}/v/build/replay'))[:1]
                os.makedirs('/tmp/replays', exist_ok=True)
                for x in rp: shutil.copy(f'{tmp}/v/build/replay/{x}', f'/tmp/replays/{name}-{p}.json')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return '\n'.join(out)

if __name__ == '__main__':
    mode, names = sys.argv[1], sys.argv[2:]
    j = int(os.environ.get('J', '4'))
    if mode == 'make':
        sys.path.insert(0, '/tmp/bugs')
        import seeds
        todo = [b for b in seeds.BUGS if not names or b['id'] in names or b['property'] in names]
        if not names: todo = [b for b in todo if not os.path.exists(f'{V}/seeded/{b["id"]}/meta.json')]
        with cf.ThreadPoolExecutor(j) as ex:
            for b, r in zip(todo, ex.map(make, todo)):
                print(r, flush=True)
                if ': ok' not in r: shutil.rmtree(f'{V}/seeded/{b["id"]}', ignore_errors=True)
    else:
        if not names: names = sorted(os.listdir(V + '/seeded'))
        with cf.ThreadPoolExecutor(j) as ex:
            for r in ex.map(attempt, names): print(r, flush=True)
