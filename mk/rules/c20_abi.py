"""The binary interface: functions, struct layouts and published numbers are what existing callers were compiled against.
Layouts and numbers are decided by the compiler: a witness file of static assertions is type-checked against the headers."""
import json
import os
import re
import subprocess
import tempfile
from .. import facts
from ..api import ApiFlow, api_functions

MIN = {'functions': 100, 'fields': 50, 'numbers': 15}
HERE = os.path.dirname(__file__)
HEADERS = ['MeshKernelApi/MeshKernel.hpp', 'MeshKernel/Parameters.hpp', 'MeshKernel/Definitions.hpp', 'MeshKernel/Mesh2D.hpp', 'MeshKernel/AveragingInterpolation.hpp', 'MeshKernel/LandBoundaries.hpp', 'MeshKernel/MeshRefinement.hpp', 'MeshKernel/Exceptions.hpp']


def abi(t):
    """how a value of this type is passed"""
    if (t.ref or t.ptr) and t.to is not None:
        return 'address of ' + abi(t.to)
    if t.rec:
        return t.rec
    s = re.sub(r'\bconst\b', '', t.s).strip()
    return {'size_t': 'unsigned long', 'std::size_t': 'unsigned long', 'unsigned': 'unsigned int'}.get(s, s)


def witness(repo, tab):
    """(source, {line: (key, message)})"""
    lines = ['#include <%s>' % h for h in HEADERS if os.path.exists('%s/libs/%s/include/%s' % (repo, h.split('/')[0], h))]
    api = '%s/libs/MeshKernelApi/include/MeshKernelApi' % repo
    lines += ['#include <MeshKernelApi/%s>' % h for h in sorted(os.listdir(api)) if h.endswith('.hpp') and h not in ('Utils.hpp', 'State.hpp', 'MKStateUndoAction.hpp')]
    lines += ['#include <cstddef>', '#include <type_traits>']
    want = {}

    def add(text, key, msg):
        lines.append(text)
        want[len(lines)] = (key, msg)
    for q, s in tab['structs'].items():
        add('static_assert(std::is_standard_layout_v<%s>);' % q, q, 'struct %s no longer has a C layout' % q)
        add('static_assert(sizeof(%s) == %d);' % (q, s['size']), q, 'struct %s no longer has size %d' % (q, s['size']))
        for n, (off, size, _) in s['fields'].items():
            add('static_assert(offsetof(%s, %s) == %d && sizeof(%s::%s) == %d);' % (q, n, off, q, n, size), q + '::' + n, 'field %s::%s no longer lies at byte %d with size %d' % (q, n, off, size))
    for q, ms in tab['enums'].items():
        for n, v in ms.items():
            add('static_assert(static_cast<int>(%s::%s) == %d);' % (q, n, v), q + '::' + n, 'the published number of %s::%s is no longer %d' % (q, n, v))
    return '\n'.join(lines) + '\n', want


def check(P, rep, tier):
    tab = json.load(open(os.path.join(HERE, 'c20_abi.json')))
    repo = facts.REPO
    src, want = witness(repo, tab)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'witness.cpp')
        open(p, 'w').write(src)
        r = subprocess.run(['clang++', '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics'] + facts.flags(repo) + [p], capture_output=True, text=True)
    failed = {}
    other = []
    for m in re.finditer(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', r.stderr, re.M):
        if m.group(1) == p and int(m.group(2)) in want:
            failed[int(m.group(2))] = m.group(3)
        else:
            other.append(m.group(0))
    if other and len(other) > 20:
        raise RuntimeError('witness not type-checked: ' + other[0])
    for k, (key, msg) in want.items():
        rep.count('numbers' if 'published' in msg else 'fields')
        if k in failed and re.search(r'incomplete type|no type named|undeclared|in namespace', failed[k]):
            rep.count('undecided')
        elif k in failed:
            rep.bad(key, 'libs/MeshKernelApi/include/MeshKernelApi/MeshKernel.hpp', '%s (%s)' % (msg, failed[k].split(' due to')[0][:120]))
        else:
            rep.ok(None)
    # kinds of fields (a size alone does not tell an int from a float)
    for q, s in tab['structs'].items():
        if q not in P.recs_by_q:
            continue
        have = {f['n']: f['t'] for f in P.recs_by_q[q].fields}
        for n, (_, _, t) in s['fields'].items():
            if n in have and abi(have[n]) != t:
                rep.bad(q + '::' + n, 'struct ' + q, 'field %s::%s is now %s instead of %s' % (q, n, abi(have[n]), t))
    fs = {f.d.n: f for f in api_functions(P)}
    for n, w in tab['functions'].items():
        rep.count('functions')
        f = fs.get(n)
        if f is None:
            rep.bad(n, 'libs/MeshKernelApi/include/MeshKernelApi/MeshKernel.hpp', 'the exported function %s is gone' % n)
            continue
        ts, ns = [abi(t) for t in f.d.p], [p['n'] for p in f.params]
        if ts != w['types']:
            rep.bad(n, f.where, '%s no longer takes (%s)' % (n, ', '.join(w['types'])))
        elif ns != w['names'] and sorted(ns) == sorted(w['names']):
            rep.bad(n, f.where, 'the parameters of %s changed places: (%s) was (%s)' % (n, ', '.join(ns), ', '.join(w['names'])))
        else:
            rep.ok('%s(%s)' % (n, ', '.join(ts)))
    for n, v in tab['getters'].items():
        f = fs.get(n)
        if f is None or not f.params:
            continue
        a = ApiFlow(P)
        res, _ = a.run(f)
        vs = {a.load(s, ('par', 0, f.params[0]['n'])) for s, r in res if a.cls(r, s) != 'err'}
        if len(vs) == 1 and next(iter(vs))[0] == 'c':
            rep.count('numbers')
            x = next(iter(vs))[1]
            if x != v:
                rep.bad(n, f.where, '%s now hands out %s instead of %s' % (n, x, v))
            else:
                rep.ok('%s hands out %s' % (n, v))
        else:
            rep.count('undecided')
