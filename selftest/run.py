#!/usr/bin/env python3
"""selftest/run.py FILE [ids...]: applies each edit of FILE (a python file defining EDITS) to a scratch copy of /repo
and reports which properties fire.  EDITS: {id: (expected property or None, [(file, old, new), ...])}."""
import os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.setrecursionlimit(20000)
from sa import engine, export, props
def pyfile(f): return f.endswith('.py') or '/scripts/' in f
def props_for(files):
    s = set()
    for f in files:
        p = f.split('/')[0]
        s |= {'controller_manager': {x for x in props.PROPS if x < 'C20' and x[0] == 'C'}, 'controller_interface': {'C20', 'C21', 'C22', 'C10', 'C07', 'C08'}, 'combined_robot_hw': {'H06', 'H07', 'C10'},
              'joint_limits_interface': {x for x in props.PROPS if x[0] == 'J'} | {'C10'}, 'transmission_interface': {x for x in props.PROPS if x[0] == 'T'} | {'C10'}}.get(p, {x for x in props.PROPS if props.PROPS[x].needs_cpp})
        if pyfile(f): s = {x for x in props.PROPS if not props.PROPS[x].needs_cpp}
    return sorted(s)
def replace1(s, a, b):
    """Replaces the only occurrence of a, which may be written without the comments of the source."""
    if s.count(a) == 1: return s.replace(a, b)
    if s.count(a) > 1: return s.count(a)
    gap = r'(?:\s|//[^\n]*\n|/\*(?:[^*]|\*(?!/))*\*/)+'
    ms = list(re.finditer(gap.join(re.escape(t) for t in a.split()), s))
    if len(ms) != 1: return len(ms)
    return s[:ms[0].start()] + b.strip() + s[ms[0].end():]
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    if 'SEEDS' in ns: ns['EDITS'] = {k: (v['property'], v['edits']) for k, v in ns['SEEDS'].items()}
    ids = sys.argv[2:] or list(ns['EDITS'])
    tot = [0, 0]
    for i in ids:
        want, eds = ns['EDITS'][i]
        d = tempfile.mkdtemp(prefix='sa-self-')
        try:
            for p in export.PKGS + ['rqt_controller_manager', 'controller_manager']:
                if os.path.isdir('/repo/' + p): shutil.copytree('/repo/' + p, d + '/' + p, dirs_exist_ok=True)
            ok = True
            first = [e for e in eds if len(e) == 4]; eds = [e[:3] for e in eds]      # a fourth element: the first occurrence
            for f, a, b in eds:
                s = open(d + '/' + f).read()
                r = s.replace(a, b, 1) if any(e[1] == a for e in first) and a in s else replace1(s, a, b)
                if isinstance(r, int): print('%s: BAD EDIT in %s (%d matches): %r' % (i, f, r, a[:60])); ok = False; break
                open(d + '/' + f, 'w').write(r)
            if not ok: continue
            export.REPO = d
            t0 = time.time()
            try:
                if all(pyfile(f) for f, _, _ in eds):
                    from sa import pyev
                    T = pyev.PyTrees(d, export.SPEC)
                else: T = engine.Trees(d)
            except (export.ToolError, engine.Broken) as e: print('%s: DOES NOT PARSE %s' % (i, str(e)[:600])); continue
            ps = props_for([f for f, _, _ in eds]); fired = {}; und = {}
            if '-1' in os.environ.get('SA_ONLY', '') and want: ps = [want]
            for p in ps:
                try: res = engine.run_prop(props.PROPS[p], T, budget=100)
                except engine.Broken as e: fired[p] = ['BROKEN ' + str(e)[:150]]; continue
                for r in res:
                    if r.get('missing') or r.get('broken'): fired.setdefault(p, []).append('MISSING %s %s' % (r.get('name') or r.get('fn'), r.get('broken', '')))
                    for m in r['mism']: fired.setdefault(p, []).append('%s %s %s %s\n        got  %s\n        want %s\n        when %s' % (m['where'], r.get('name') or r.get('rule'), m['kind'], m['what'][:100], m['got'][:260], m['want'][:260], m['when'][:260]))
                    for u in r['und']: und.setdefault(p, []).append('%s: %s' % (r.get('name'), u[:150]))
            if want is None: st = 'QUIET' if not fired else 'ALARM'
            else: st = 'caught' if want in fired else ('caught-elsewhere' if fired else 'MISSED')
            print('%s: %s want=%s fired=%s undecided=%s (%.0f s)' % (i, st, want, ','.join(sorted(fired)), {p: len(u) for p, u in und.items()}, time.time() - t0))
            if st in ('ALARM', 'caught-elsewhere') or os.environ.get('V'):
                for p in list(fired)[:3]:
                    for m in fired[p][:2]: print('   ', p, m)
            if st in ('MISSED', 'QUIET', 'caught-elsewhere') or os.environ.get('V'):
                for p in und:
                    for u in und[p][:1]: print('    undecided', p, u)
            sys.stdout.flush()
        finally: shutil.rmtree(d, ignore_errors=True)
main()
