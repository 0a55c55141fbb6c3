#!/usr/bin/env python3
"""Generate C++ stand-ins for the repository's .msg/.srv definitions: genmsgs.py REPO OUTDIR"""
import os, re, sys
repo, out = sys.argv[1:3]
PRIM = {'string': 'std::string', 'bool': 'uint8_t', 'int32': 'int32_t', 'uint32': 'uint32_t', 'float64': 'double',
        'float32': 'float', 'int8': 'int8_t', 'uint8': 'uint8_t', 'int64': 'int64_t', 'uint64': 'uint64_t', 'int16': 'int16_t', 'uint16': 'uint16_t',
        'time': 'ros::Time', 'duration': 'ros::Duration'}
def fields(text, pkg):
    fs, cs, deps = [], [], []
    for line in text.splitlines():
        line = line.split('#', 1)[0].strip()
        if not line: continue
        m = re.match(r'^(\S+)\s+(\w+)\s*=\s*(\S+)$', line)
        if m: cs.append((PRIM[m[1]], m[2], m[3])); continue
        m = re.match(r'^([\w/]+)(\[\d*\])?\s+(\w+)$', line)
        if not m: raise SystemExit('cannot parse ' + line)
        t = m[1]
        if t in PRIM: c = PRIM[t]
        elif t in ('Header', 'std_msgs/Header'): c = 'std_msgs::Header'; deps.append('std_msgs/Header')
        else:
            p, n = t.split('/') if '/' in t else (pkg, t)
            c = p + '::' + n; deps.append(p + '/' + n)
        if m[2]: c = 'std::vector<%s>' % c
        fs.append((c, m[3]))
    return fs, cs, deps
def struct(name, fs, cs):
    s = 'struct %s {\n' % name
    if cs: s += '  enum {\n' + ''.join('    %s = %s,\n' % (n, v) for _, n, v in cs) + '  };\n'
    s += ''.join('  %s %s{};\n' % f for f in fs)
    return s + '};\n'
HEAD = '#pragma once\n#include <cstdint>\n#include <string>\n#include <vector>\n#include <ros/time.h>\n#include <ros/duration.h>\n'
pkg = 'controller_manager_msgs'
d = os.path.join(out, pkg); os.makedirs(d, exist_ok=True)
os.makedirs(os.path.join(out, 'std_msgs'), exist_ok=True)
open(os.path.join(out, 'std_msgs', 'Header.h'), 'w').write(HEAD + 'namespace std_msgs { struct Header { uint32_t seq{}; ros::Time stamp{}; std::string frame_id{}; }; }\n')
for kind in ('msg', 'srv'):
    src = os.path.join(repo, pkg, kind)
    for f in sorted(os.listdir(src)):
        n = f.rsplit('.', 1)[0]; text = open(os.path.join(src, f)).read()
        if kind == 'msg':
            fs, cs, deps = fields(text, pkg); body = struct(n, fs, cs)
        else:
            a, b = re.split(r'^---\s*$', text, maxsplit=1, flags=re.M)
            fa, ca, da = fields(a, pkg); fb, cb, db = fields(b, pkg); deps = da + db
            body = struct(n + 'Request', fa, ca) + struct(n + 'Response', fb, cb) + 'struct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; };\n' % (n, n, n)
        inc = ''.join('#include <%s.h>\n' % x for x in sorted(set(deps)))
        open(os.path.join(d, n + '.h'), 'w').write(HEAD + inc + 'namespace %s {\n%s}\n' % (pkg, body))
