#!/usr/bin/env python3
"""mkseed.py FILE.. [--only ids]: turns the planted bugs described in selftest/seeds*.py into /verif/seeded/<id>/
(patch.diff, demo.sh and what it needs, meta.json) after confirming, in scratch copies, that the patch applies and that the
demonstration passes without it and fails with it.  The repository's own build and tests are confirmed by vcheck."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ' '.join('-I"$R/%s/include"' % p for p in ('hardware_interface', 'controller_interface', 'controller_manager', 'joint_limits_interface', 'combined_robot_hw', 'transmission_interface'))
SRC = {'cm': '"$R/controller_manager/src/controller_manager.cpp"', 'hw': '', 'ci': '', 'jl': '', 'comb': '"$R/combined_robot_hw/src/combined_robot_hw.cpp"',
       'ti': '', 'til': '"$R"/transmission_interface/src/*.cpp -ltinyxml'}
SH = '''#!/bin/bash
# Compiles the sources of the repository in the current directory against stand-in ROS headers and runs the demonstration.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
python3 "$D/genmsgs.py" "$R" "$W/msgs" || exit 2
g++ -std=c++14 -O1 -w -DSTUB_ROS_IMPL -include "$D/stubs/prelude.h" -I"$D" -I"$D/stubs" -I"$W/msgs" %s "$D/demo.cpp" -o "$W/demo" %s -lpthread || exit 2
cd "$W" && timeout 100 ./demo
'''
SHPY = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
PYTHONDONTWRITEBYTECODE=1 timeout 100 python3 "$D/demo.py" "$R"
'''
def one(i, s):
    d = os.path.join(V, 'seeded', i)
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix='mkseed-')
    try:
        for x in ('a', 'b'): subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], capture_output=True)
        os.makedirs(t + '/a')
        subprocess.run('git -C /repo archive HEAD | tar x -C %s/a' % t, shell=True, check=True)
        subprocess.run(['git', 'init', '-q', t + '/a'], check=True)
        subprocess.run('git -C %s/a add -A -f && git -C %s/a -c user.name=x -c user.email=x commit -qm x' % (t, t), shell=True, check=True)
        for f, old, new in s['edits']:
            p = '%s/a/%s' % (t, f); src = open(p).read()
            if src.count(old) != 1: return i, 'BAD EDIT %s: %d matches of %r' % (f, src.count(old), old[:60])
            open(p, 'w').write(src.replace(old, new))
        diff = subprocess.run(['git', '-C', t + '/a', 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        if s['kind'] == 'py':
            open(d + '/demo.py', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(SHPY)
            for h in s.get('files', ()): shutil.copytree(V + '/selftest/demo/' + h, d + '/' + h) if os.path.isdir(V + '/selftest/demo/' + h) else shutil.copy(V + '/selftest/demo/' + h, d)
        else:
            open(d + '/demo.cpp', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(SH % (INC, SRC[s['kind']]))
            shutil.copytree(V + '/stubs', d + '/stubs'); shutil.copy(V + '/tool/genmsgs.py', d)
            for h in s.get('files', ()): shutil.copy(V + '/selftest/demo/' + h, d)
            if s['kind'] == 'cm': shutil.copy(V + '/selftest/demo/cm_demo.h', d)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        bad = subprocess.run(['bash', d + '/demo.sh'], cwd=t + '/a', capture_output=True, text=True)
        subprocess.run(['git', '-C', t + '/a', 'checkout', '-q', '--', '.'], check=True)
        good = subprocess.run(['bash', d + '/demo.sh'], cwd=t + '/a', capture_output=True, text=True)
        ok = good.returncode == 0 and bad.returncode not in (0, 2)
        return i, 'ok' if ok else 'NOT CONFIRMED: unchanged exit %d, patched exit %d\n%s\n%s' % (good.returncode, bad.returncode, (good.stdout + good.stderr)[-1500:], (bad.stdout + bad.stderr)[-1500:])
    finally: shutil.rmtree(t, ignore_errors=True)
def main():
    args = sys.argv[1:]; only = None
    if '--only' in args: k = args.index('--only'); only = args[k + 1:]; args = args[:k]
    S = {}
    for f in args:
        ns = {}; exec(open(f).read(), ns); S.update(ns['SEEDS'])
    if only: S = {k: S[k] for k in only}
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(lambda x: one(*x), S.items()): print(i, r); sys.stdout.flush()
main()
