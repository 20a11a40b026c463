"""Checking the lemma library with Lean (Mathlib)."""
import os
import re
import subprocess
import time
from . import theory

OK_AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}


def check(lemmas, workdir, timeout=600, text=None):
    """-> (ok, set of verified lemma names, log, seconds)"""
    if not lemmas:
        return True, set(), 'no lemmas needed', 0.0
    txt, names = text or theory.lean_file(sorted(lemmas))
    p = os.path.join(workdir, 'lemmas.lean')
    with open(p, 'w') as f:
        f.write(txt)
    t0 = time.time()
    try:
        r = subprocess.run(['lean', p], capture_output=True, text=True, timeout=timeout, cwd=workdir)
    except subprocess.TimeoutExpired:
        return False, set(), 'lean timeout', time.time() - t0
    out = r.stdout + r.stderr
    good = set()
    for m in re.finditer(r"'L\.([\w.]+)' depends on axioms: \[([^\]]*)\]", out):
        ax = {a.strip() for a in m.group(2).replace('\n', ' ').split(',')}
        if ax <= OK_AXIOMS:
            good.add(m.group(1))
    for m in re.finditer(r"'L\.([\w.]+)' does not depend on any axioms", out):
        good.add(m.group(1))
    errs = [l for l in out.split('\n') if ': error' in l or 'sorry' in l]
    ok = r.returncode == 0 and not errs and set(lemmas) <= good
    return ok, good, '\n'.join(errs[:40]) if errs else out[-2000:] if not ok else '', time.time() - t0
