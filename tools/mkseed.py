#!/usr/bin/env python3
"""mkseed.py: create /verif/seeded/<id> from a spec file (python): id, property, needs, breaks, edits=[(file, old, new)], demo (C text or None), sh (optional)."""
import sys, os, json, subprocess, shutil, runpy
COMMON = r'''#!/bin/bash
# Builds and runs the demonstration against the libraries built in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"; rm -f /dev/shm/DLB_*_seed$$' EXIT
export SEED_KEY=seed$$
gcc -std=gnu11 -w -g -D_GNU_SOURCE -I"$repo/src" -I"$repo/_build" -I"$repo/_build/src" -I"$repo/_build/src/apis" -I"$repo/src/apis" \
    "$here/demo.c" -o "$W/demo" EXTRA -Wl,--whole-archive "$repo/_build/libdlb_test.a" "$repo/_build/libdlb_common.a" -Wl,--no-whole-archive \
    -lhwloc -lpapi -lpthread -lm -ldl -lrt || exit 2
cd "$W" && unset DLB_ARGS && timeout 100 ./demo
'''
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    for S in s['SEEDS']:
        d = '/verif/seeded/' + S['id']
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        a, b = '/tmp/mkseed/a', '/tmp/mkseed/b'
        shutil.rmtree('/tmp/mkseed', ignore_errors=True)
        diff = ''
        texts = {}
        for f, old, new in S['edits']:
            t = texts.get(f) or subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)
            if t.count(old) != 1: sys.exit(f"{S['id']}: {f}: {t.count(old)} matches of {old!r}")
            texts[f] = t.replace(old, new)
        for f, t in texts.items():
            for root, txt in ((a, subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)), (b, t)):
                p = os.path.join(root, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(txt)
            r = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, os.path.join(a, f), os.path.join(b, f)], capture_output=True, text=True)
            diff += r.stdout
        open(d + '/patch.diff', 'w').write(diff)
        if S.get('demo'): open(d + '/demo.c', 'w').write(S['demo'])
        for n, t in S.get('files', {}).items(): open(os.path.join(d, n), 'w').write(t)
        open(d + '/demo.sh', 'w').write(S.get('sh') or COMMON.replace('EXTRA', S.get('extra', '')))
        json.dump({'property': S['property'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(S['id'])
