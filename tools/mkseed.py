#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from a spec file (python dict literal):
 {id, property, needs, breaks, edits:[(file, old, new)], demo_file, demo (rust test module body), pkg}
The demonstration appends a test module to demo_file in a scratch copy of the tree it runs in."""
import sys, os, subprocess, json, ast
spec = ast.literal_eval(open(sys.argv[1]).read())
R='/tmp/seedclone'
subprocess.run(['rm','-rf','/tmp/seedclone'],check=True)
subprocess.run(['git','clone','-q','/repo',R],check=True)
d=f"/verif/seeded/{spec['id']}"; os.makedirs(d,exist_ok=True)
try:
    for f,old,new in spec['edits']:
        p=f'{R}/{f}'; s=open(p).read()
        assert s.count(old)==1, (f, s.count(old), old)
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
finally:
    subprocess.run(['rm','-rf','/tmp/seedclone'],check=True)
open(f'{d}/patch.diff','w').write(diff)
open(f'{d}/demo_test.rs','w').write(spec['demo'].strip('\n')+'\n')
pkg=spec.get('pkg','openzeppelin-stylus')
open(f'{d}/demo.sh','w').write(f'''#!/usr/bin/env bash
# Runs demo_test.rs as a unit test of {spec['demo_file']} in a scratch copy of the
# tree in the current directory.  Exit 0: behaves as documented.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"; SRC="$PWD"
export PATH="/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-2024-09-05
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUST_BACKTRACE=0
unset RUSTFLAGS
S="$(mktemp -d)" || exit 3
trap 'rm -rf "$S"' EXIT
mkdir "$S/w"
tar -C "$SRC" --exclude=./target --exclude=./.git -cf - . | tar -C "$S/w" -xf - || exit 3
cat "$HERE/demo_test.rs" >> "$S/w/{spec['demo_file']}"
cd "$S/w" || exit 3
export CARGO_TARGET_DIR="${{VP_DEMO_TARGET:-$S/target}}"
timeout 280 cargo test -p {pkg} --offline --locked --features std --lib vp_demo 2>&1 | tail -25 | tee "$S/out"
grep -q "test result: ok. [1-9]" "$S/out"
''')
os.chmod(f'{d}/demo.sh',0o755)
json.dump({"property":spec['property'],"needs":spec['needs'],"what_it_breaks":spec['breaks']},open(f'{d}/meta.json','w'),indent=1)
print(d, len(diff))
