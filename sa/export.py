"""Builds the clang exporter and exports the repository's C++ as JSON (see tool/astx.cpp)."""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
PKGS = ['hardware_interface', 'controller_interface', 'controller_manager', 'controller_manager_msgs',
        'joint_limits_interface', 'combined_robot_hw', 'transmission_interface']

class ToolError(Exception):
    pass

def _sh(path):
    h = hashlib.sha256()
    with open(path, 'rb') as f: h.update(f.read())
    return h.hexdigest()

def build_plugin():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tool', 'astx.cpp')
    so = os.path.join(BUILD, 'astx-%s.so' % _sh(src)[:16])
    if os.path.exists(so): return so
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so): return so
        tmp = so + '.tmp%d' % os.getpid()
        r = subprocess.run(['clang++', '-O0', '-std=c++17', '-fno-rtti', '-fPIC', '-shared', '-I/usr/lib/llvm-18/include',
                            '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp], capture_output=True, text=True)
        if r.returncode: raise ToolError('exporter does not build:\n' + r.stderr[-4000:])
        os.rename(tmp, so)
    return so

def sources(REPO):
    """Translation units: every library source of the repository plus the instantiation drivers."""
    tus = []
    for p in PKGS:
        for root, dirs, files in os.walk(os.path.join(REPO, p, 'src')):
            tus += [os.path.join(root, f) for f in sorted(files) if f.endswith(('.cpp', '.cc', '.cxx'))]
    tus += sorted(glob.glob(os.path.join(VERIF, 'drivers', '*.cpp')))
    return tus

def tree_hash(REPO):
    h = hashlib.sha256()
    fs = []
    for p in PKGS:
        for root, dirs, files in os.walk(os.path.join(REPO, p)):
            dirs[:] = [d for d in dirs if d not in ('build', '.git', '__pycache__')]
            fs += [os.path.join(root, f) for f in files if f.endswith(('.h', '.hpp', '.hxx', '.inl', '.cpp', '.cc', '.cxx', '.msg', '.srv'))]
    for d in ('drivers', 'stubs', 'tool'):
        for root, dirs, files in os.walk(os.path.join(VERIF, d)):
            dirs[:] = [x for x in dirs if x != '__pycache__']
            fs += [os.path.join(root, f) for f in files]
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

SPEC = os.path.join(VERIF, 'spec')

def export(REPO=None):
    """Returns the merged export {functions, records, bases, ...}; cached by content of the analysed tree."""
    REPO = REPO or globals()['REPO']
    so = build_plugin()
    th = ('spec-' if REPO == SPEC else 'repo-') + tree_hash(REPO)
    out = os.path.join(BUILD, 'exp-' + th)
    merged = os.path.join(out, 'merged.json')
    if os.path.exists(merged):
        return json.load(open(merged))
    with open(os.path.join(BUILD, 'lock-exp'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(merged): return json.load(open(merged))
        for old in glob.glob(os.path.join(BUILD, 'exp-' + th[:5] + '*')): shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        msgs = os.path.join(out, 'msgs')
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'tool', 'genmsgs.py'), REPO, msgs], capture_output=True, text=True)
        if r.returncode: raise ToolError('message definitions: ' + r.stderr)
        incs = ['-include', os.path.join(VERIF, 'stubs', 'prelude.h'), '-I' + os.path.join(VERIF, 'stubs'), '-I' + msgs] + ['-I' + os.path.join(REPO, p, 'include') for p in PKGS]
        tus = sources(REPO)
        def one(i):
            o = os.path.join(out, 'tu%d.json' % i)
            cmd = ['clang++', '-std=c++14', '-fsyntax-only', '-w', '-ferror-limit=20'] + incs + \
                  ['-Xclang', '-load', '-Xclang', so, '-Xclang', '-plugin', '-Xclang', 'astx',
                   '-Xclang', '-plugin-arg-astx', '-Xclang', 'root=' + REPO + '/', '-Xclang', '-plugin-arg-astx', '-Xclang', 'out=' + o, tus[i]]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode or not os.path.exists(o):
                return (tus[i], r.stderr[:1200], None)
            return (tus[i], None, json.load(open(o)))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(tus))))
        errs = [(t, e) for t, e, _ in res if e]
        if errs:
            raise ToolError('translation units do not parse:\n' + '\n'.join('%s\n%s' % x for x in errs[:3]))
        M = {'functions': {}, 'records': {}, 'bases': {}, 'templates': [], 'globals': [], 'tus': tus, 'dups': []}
        seen_t = set()
        for t, _, d in res:
            for f in d['functions']:
                k = f['key']
                if k.startswith('(anonymous'): k = f['key'] = f['file'] + '::' + k
                o = M['functions'].get(k)
                if o is None: M['functions'][k] = dict(f, tu=t)
                elif (o['file'], o['line']) != (f['file'], f['line']): M['dups'].append((k, o['file'], o['line'], f['file'], f['line']))
            for rcd in d['records']: M['records'].setdefault(rcd['type'], rcd)
            M['bases'].update(d['bases'])
            for x in d['templates']:
                kk = (x['name'], x['file'], x['line'])
                if kk not in seen_t: seen_t.add(kk); M['templates'].append(x)
            M['globals'] += d['globals']
        json.dump(M, open(merged + '.tmp', 'w')); os.rename(merged + '.tmp', merged)
        for f in glob.glob(os.path.join(out, 'tu*.json')): os.remove(f)
    return M

if __name__ == '__main__':
    M = export()
    print(len(M['functions']), 'functions', len(M['records']), 'records', len(M['templates']), 'templates')
