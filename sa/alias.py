"""Lines the repository's names up with the reference's: a data member that was only renamed keeps its identity."""
def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values(): walk(v, f)
    elif isinstance(x, list):
        for v in x: walk(v, f)

def align(R, S):
    ren = {}      # qualified old name -> reference name
    for t, s in S['records'].items():
        r = R['records'].get(t)
        if r is None or not s['file'].startswith('/') or '/msgs/' in s['file']: continue
        sn = {f['n']: f for f in s['fields']}; rn = {f['n']: f for f in r['fields']}
        miss = [f for f in s['fields'] if f['n'] not in rn]; extra = [f for f in r['fields'] if f['n'] not in sn]
        if not miss or not extra: continue
        for f in miss:
            c = [g for g in extra if g['t'] == f['t'] and (t, g['n']) not in ren]
            d = [h for h in miss if h['t'] == f['t']]
            if len(c) == 1 and len(d) == 1 or len(c) == len(d):
                g = c[0]; ren[(t, g['n'])] = f['n']
    if not ren: return []
    byplain = {}
    from .engine import plain
    for (t, n), m in ren.items(): byplain[(plain(t), n)] = m
    def fix(e):
        k = e.get('k')
        if k == 'mem':
            q = plain(e.get('q') or '')
            c = q.rsplit('::', 1)
            if len(c) == 2 and (c[0], c[1]) in byplain: e['n'] = byplain[(c[0], c[1])]; e['q'] = c[0] + '::' + e['n']
    for f in R['functions'].values():
        for part in ('body', 'inits', 'init'):
            if f.get(part) is not None: walk(f[part], fix)
        for it in f.get('inits') or []:
            n = it.get('n') or it.get('f') or it.get('field')
            c = plain(f.get('clst') or '')
            for key in ('n', 'f', 'field', 'm'):
                if isinstance(it.get(key), str) and (c, it[key]) in byplain: it[key] = byplain[(c, it[key])]
    for (t, n), m in ren.items():
        for f in R['records'][t]['fields']:
            if f['n'] == n: f['n'] = m
    return sorted('%s::%s' % k + ' -> ' + v for k, v in ren.items())
