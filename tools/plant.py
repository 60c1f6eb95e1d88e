"""Make and confirm planted bugs: `plant.py make SPEC.py` writes seeded/<id>/, `plant.py confirm ID...`
builds, tests and demonstrates each in the scratch copy /tmp/w (with test scripts in /tmp/vp)."""
import json, pathlib, subprocess, sys, os, re
V = pathlib.Path('/verif/seeded'); W = '/tmp/w'
DEMO = '''#!/bin/bash
# A scratch crate against the tree in the current directory; exits 0 when the demonstration's assertions hold.
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$HERE/demo.rs" "$D/src/main.rs"
cp "$REPO/Cargo.lock" "$D/Cargo.lock" 2>/dev/null
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
%s
T
cd "$D" && CARGO_TARGET_DIR="$D/target" timeout 280 cargo run -q --offline
'''
DEPS = {'multicalc': 'multicalc = { path = "$REPO/crates/multicalc", features = ["alloc"] }'}
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def clean(): sh(f'git -C {W} checkout -- .')
def make(spec):
    bugs = {}; exec(open(spec).read(), {'bug': lambda **k: bugs.update({k['id']: k})})
    sh(f'git -C /repo diff --quiet') .check_returncode()
    sh(f'git -C {W} fetch -q /repo && git -C {W} reset -q --hard FETCH_HEAD')
    for i, k in bugs.items():
        clean()
        for f, old, new in k['edits']:
            p = pathlib.Path(W) / 'crates' / f
            s = p.read_text()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        d = V / i; d.mkdir(parents=True, exist_ok=True)
        (d / 'patch.diff').write_text(sh(f'git -C {W} diff').stdout)
        (d / 'demo.rs').write_text(k['demo'].strip() + '\n')
        (d / 'demo.sh').write_text(DEMO % '\n'.join([DEPS['multicalc']] + k.get('deps', []))); (d / 'demo.sh').chmod(0o755)
        (d / 'meta.json').write_text(json.dumps({'property': k['prop'], 'needs': k['needs'], 'what_it_breaks': k['breaks']}, indent=1) + '\n')
        clean()
    return list(bugs)
def confirm(ids):
    for i in ids:
        clean(); d = V / i
        a = sh(f'bash {d}/demo.sh', cwd=W)
        if a.returncode: print(i, 'DEMO FAILS CLEAN', a.stderr[-800:], flush=True); continue
        if sh(f'git -C {W} apply {d}/patch.diff').returncode: print(i, 'NO APPLY', flush=True); continue
        b = sh(f'bash {d}/demo.sh', cwd=W)
        if b.returncode == 0 or 'error[' in b.stderr or 'could not compile' in b.stderr: print(i, 'DEMO DOES NOT FAIL' , b.stderr[-800:], flush=True); clean(); continue
        t = sh('bash /tmp/vp/test.sh /tmp/vp/out.json')
        r = json.load(open('/tmp/vp/out.json')) if os.path.exists('/tmp/vp/out.json') else {}
        last = (t.stdout.strip().splitlines() or [''])[-1]
        fails = [x for x in r.get('failed', [])][:6] if isinstance(r, dict) else []
        print(i, 'OK' if '1864 passed, 0 failed' in last else 'TESTS ' + last, fails, flush=True)
        clean()
if __name__ == '__main__':
    if sys.argv[1] == 'make': print(' '.join(make(sys.argv[2])))
    else: confirm(sys.argv[2:])
