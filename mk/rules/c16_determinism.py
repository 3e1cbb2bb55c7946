"""The outcome of a call depends only on its arguments and the named state."""
from ..effects import modref
from ..facts import func_nodes, walk

MIN = {'functions': 500, 'library_variables': 3}

FORBID = {
    'ends the process': {'exit', 'std::exit', '_exit', '_Exit', 'std::_Exit', 'abort', 'std::abort', 'std::terminate', 'std::quick_exit', 'quick_exit', 'raise', 'std::raise', 'kill'},
    'reads a clock, a random source or the environment': {
        'rand', 'std::rand', 'random', 'drand48', 'rand_r', 'srand', 'std::srand', 'time', 'std::time', 'clock', 'std::clock', 'gettimeofday', 'clock_gettime', 'getenv', 'std::getenv',
        'secure_getenv', 'getpid', 'gethostname', 'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads', 'omp_get_num_procs', 'omp_get_wtime', 'omp_in_parallel',
        'std::chrono::system_clock::now', 'std::chrono::steady_clock::now', 'std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now',
        'std::chrono::high_resolution_clock::now', 'std::this_thread::get_id', 'std::random_device::operator()'},
    'changes settings of the whole process': {'setlocale', 'std::setlocale', 'std::locale::global', 'fesetround', 'std::fesetround', 'feenableexcept', 'feclearexcept', 'std::feclearexcept',
                                              'signal', 'std::signal', 'setenv', 'putenv', 'chdir', 'omp_set_num_threads', 'omp_set_dynamic', 'std::set_terminate', 'std::atexit', 'atexit',
                                              'std::filesystem::current_path'},
    'writes to or reads from files or the console': {'printf', 'std::printf', 'fprintf', 'std::fprintf', 'puts', 'std::puts', 'putchar', 'fputs', 'fopen', 'std::fopen', 'fwrite', 'fread', 'fclose',
                                                     'remove', 'std::remove_file', 'rename', 'system', 'std::system', 'popen', 'std::println', 'std::print', 'open', 'write', 'read', 'std::getline', 'perror'},
}
WHAT = {n: why for why, s in FORBID.items() for n in s}
STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'std::cin', 'std::wcout', 'std::wcerr', 'stdout', 'stderr', 'stdin', 'environ', 'errno'}
STREAM_TYPES = ('std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream', 'std::random_device', 'std::thread', 'std::jthread')
ORDERED = ('std::set', 'std::map', 'std::multiset', 'std::multimap', 'std::unordered_set', 'std::unordered_map', 'std::unordered_multiset', 'std::unordered_multimap')


def api_roles(P):
    """mutable variables of the C interface, by what they hold"""
    roles = {}
    for q, d in P.globals.items():
        t = d['t']
        if t.const:
            continue
        if t.rec in ('std::unordered_map', 'std::map') and 'MeshKernelState' in t.s:
            roles[q] = 'the states'
        elif t.rec and t.rec.endswith('UndoActionStack'):
            roles[q] = 'the undo history'
    return roles


def check(P, rep, tier):
    M = modref(P)
    roles = api_roles(P)
    rep.count('functions', len(P.funcs))
    # 1. who changes variables that outlive a call
    for f in P.funcs:
        for n in func_nodes(f):
            k = n.get('k')
            if k == 'call' and n.get('f') is not None:
                q = n['f'].q
                if n['f'].sys and (q in WHAT or (n['f'].cls or '') + '::' + n['f'].n in WHAT):
                    w = WHAT.get(q) or WHAT[(n['f'].cls or '') + '::' + n['f'].n]
                    rep.bad('%s:%s' % (f.d.q, q), '%s:%s' % (f.file, n.get('l')), '%s calls %s, which %s' % (f.d.q, q, w))
            elif k == 'ref' and n['d'][:2] == 'g:' and n['d'][2:] in STREAMS:
                rep.bad('%s:%s' % (f.d.q, n['d'][2:]), '%s:%s' % (f.file, n.get('l')), '%s uses %s' % (f.d.q, n['d'][2:]))
            elif k == 'ctor' and n['f'].cls in STREAM_TYPES:
                rep.bad('%s:%s' % (f.d.q, n['f'].cls), '%s:%s' % (f.file, n.get('l')), '%s creates a %s' % (f.d.q, n['f'].cls))
            elif k == 'cast' and n.get('ck') in ('PointerToIntegral',):
                rep.bad('%s:address' % f.d.q, '%s:%s' % (f.file, n.get('l')), '%s computes with the numeric value of an address' % f.d.q)
            # static initialised from the arguments of the first call
            if n.get('static') and isinstance(n.get('init'), dict):
                rep.count('static_locals')
                for x in [n['init']]:
                    if not fixed(f, n['init']):
                        rep.bad('%s:%s' % (f.d.q, n['n']), '%s:%s' % (f.file, n.get('l')), '%s of %s outlives the call and is set from the values of the first call only' % (n['n'], f.d.q))
                        break
    # 2. writes to variables that outlive a call
    writers = {}
    for f in P.funcs:
        for w in M.S[f].writes:
            if w[0] != 'this' and w[0][0] == 'g':
                writers.setdefault(w[0][1], []).append((f, f.where))
    readers = {}
    for f in P.funcs:
        for n in func_nodes(f):
            if n.get('k') == 'ref' and n['d'][:2] == 'g:' and n['d'][2:] in P.globals:
                readers.setdefault(n['d'][2:], set()).add(f)
    for g, d in sorted(P.globals.items()):
        rep.count('library_variables')
        if g in roles:
            rep.ok('%s holds %s (C04, C13)' % (g, roles[g]))
            continue
        w = writers.get(g, [])
        if not w:
            rep.ok('%s is never changed after its initialisation' % g)
            continue
        outside = [x for x in w if not x[0].d.q.startswith('meshkernelapi::')]
        if outside:
            f, where = next((x for x in outside if x[0] in readers.get(g, ())), outside[0])
            rep.bad('%s:%s' % (f.d.q, g), where, '%s changes %s, which outlives the call: the next call is affected' % (f.d.q, g))
            continue
        # interface variables: status and error information, id counter
        rd = readers.get(g, set())
        bad = [f for f in rd if not reader_ok(P, f, g, d)]
        if bad:
            for f in sorted(bad, key=lambda f: f.d.q):
                rep.bad('%s:%s' % (f.d.q, g), f.where, '%s uses %s, which earlier calls (also on other states) have set' % (f.d.n, g))
        else:
            rep.ok('%s is read only by the status and error functions or by allocation (%d functions)' % (g, len(rd)))
    # 3. order of addresses
    for s, t in P.types.items():
        if t.rec in ORDERED and t.targs and not isinstance(t.targs[0], str) and t.targs[0] is not None and (t.targs[0].ptr or t.targs[0].rec in ('std::unique_ptr', 'std::shared_ptr')):
            for f in P.funcs:
                for n in func_nodes(f):
                    if n.get('t') is t and n.get('k') is None:
                        rep.bad('%s:%s' % (f.d.q, n.get('n')), '%s:%s' % (f.file, n.get('l')), 'the order of %s in %s follows addresses' % (n.get('n'), f.d.q))


def fixed(f, init, depth=0):
    """the same value whatever the arguments of the call"""
    if depth > 6:
        return False
    for x in walk(init):
        if x.get('k') == 'this':
            return False
        if x.get('k') == 'ref' and x['d'][:2] != 'g:' and 'cv' not in x and not own(init, x['d']):
            v = [y for y in func_nodes(f) if y.get('k') is None and y.get('d') == x['d'] and 'init' in y]
            if not (len(v) == 1 and v[0].get('t') is not None and v[0]['t'].const and isinstance(v[0]['init'], dict) and fixed(f, v[0]['init'], depth + 1)):
                return False
    return True


def own(init, d):
    for x in walk(init):
        if x.get('k') == 'lambda':
            for p in x['params']:
                if p['d'] == d:
                    return True
        if x.get('k') == 'decl' and any(v['d'] == d for v in x['v']):
            return True
    return False


def reader_ok(P, f, g, d):
    """a variable of the interface may be handed out or handed on, but no computation on a state may use it"""
    n = f.d.n
    t = d['t']
    if t.enum and t.enum.endswith('ExitCode'):
        return True                 # C02 shows that it is set by the same call before it is returned
    if not n.startswith('mkernel_'):
        # helpers that store into it
        for x in func_nodes(f):
            if x.get('k') == 'ref' and x['d'] == 'g:' + g:
                pass
        return all(stored(f, x) for x in func_nodes(f) if x.get('k') == 'ref' and x['d'] == 'g:' + g)
    if 'error' in n or 'exit_code' in n:
        return True
    if n == 'mkernel_allocate_state':
        return True
    return all(stored(f, x) for x in func_nodes(f) if x.get('k') == 'ref' and x['d'] == 'g:' + g)


def stored(f, ref):
    """the occurrence is the target of a store, or only decides how much is stored"""
    for n in func_nodes(f):
        if n.get('k') == 'asg' and n['op'] == '=' and n['x'] is ref:
            return True
        if n.get('k') == 'call' and n.get('f') is not None:
            if n['f'].n in ('strncpy', 'memcpy', 'format_to', 'fill', 'copy', 'memset', 'strcpy', 'snprintf', 'format_to_n'):
                for a in n['a'][:1]:
                    if any(x is ref for x in walk(a)):
                        return True
        if n.get('k') == 'sizeof':
            if any(x is ref for x in walk(n)):
                return True
    return False
