#!/usr/bin/env python3
"""Development aid: define planted changes as (file, old, new) edits and write seeded/<id>/{patch.diff,demo.sh,meta.json}."""
import json, os, subprocess, sys, shutil

def bug(id, prop, edits, demo, needs, what):
    """edits: [(file, old, new)]; demo: python source run with cwd = repository root; must raise / exit nonzero with the change"""
    w = '/tmp/nb_' + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
    shutil.copytree('/repo', w, symlinks=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p, encoding='utf-8').read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'seeded','') + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True, check=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write("import os, sys, warnings\nwarnings.simplefilter('ignore')\nsys.path.insert(0, os.getcwd())\n" + demo.strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the change\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    # changed lines must be lines of the original repository
    shutil.rmtree(w)
    print('written', id)
