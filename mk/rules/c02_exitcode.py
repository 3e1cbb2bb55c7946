"""The status a C API call returns tells whether it failed."""
from ..api import ApiFlow, api_functions
from ..facts import AnalysisBroken
from .. import errors
from ..throws import ExplicitThrows, always_throws, handled

MIN = {'api_functions': 100, 'failure_returns': 50, 'success_returns': 50}
# functions that return a value, not a status
VALUE_FUNCTIONS = {'mkernel_get_separator': 'returns the separator constant', 'mkernel_get_inner_outer_separator': 'returns the separator constant'}


def check(P, rep, tier):
    cl, codefn = errors.classes(P)
    for f in api_functions(P):
        if f.d.n in VALUE_FUNCTIONS:
            continue
        rep.count('api_functions')
        a = ApiFlow(P)
        res, exc = a.run(f)
        ok = True
        for s, v in res:
            c = a.cls(v, s)
            # status handed over from another API function that was called here
            if s.aux.get('caught'):
                rep.count('failure_returns')
                if c != 'err':
                    ok = False
                    rep.bad('%s:failure-reported' % f.d.n, f.where, '%s can return %s after an exception was caught: a failed call is not reported as failed' % (
                        f.d.n, 'Success' if c == 'ok' else 'a status not set by the failure (%s)' % (v,)))
            else:
                rep.count('success_returns')
                if c == 'err':
                    ok = False
                    rep.bad('%s:success-reported' % f.d.n, f.where, '%s returns a failure status on a path where nothing failed' % f.d.n)
                elif c is None:
                    ok = False
                    rep.bad('%s:stale' % f.d.n, f.where, '%s can return a status it did not set (%s), e.g. the one left by an earlier call' % (f.d.n, v))
        if ok:
            rep.ok('%s: %d return states' % (f.d.n, len(res)))
    # codes of the errors themselves
    for q, (vals, fn) in cl.items():
        rep.count('error_classes')
        if len(vals) != 1 or 0 in vals:
            rep.bad('%s:code' % q, fn.where, '%s reports status %s; a failure must carry exactly one non-zero code' % (q, sorted(vals)))
        else:
            rep.ok()
    codes = {}
    for q, (vals, fn) in cl.items():
        for v in vals:
            if v in codes and codes[v] != q:
                rep.bad('%s:same-code' % q, fn.where, '%s and %s both report status %s' % (codes[v], q, v))
            codes[v] = q
    # an error raised inside the library is not dropped on its way out
    api = set(api_functions(P))
    for f, h, took in handled(ExplicitThrows(P)):
        if f in api:
            continue          # decided by the paths above
        rep.count('inner_handlers')
        took = [t for t in took if t == errors.BASE or errors.BASE in P.bases_of(t)]
        if took and not always_throws(h['body']):
            rep.bad('%s:dropped' % f.d.q, '%s:%s' % (f.file, h.get('l', h['body'].get('l', f.line))), '%s catches a %s and goes on: the call is reported as successful' % (f.d.q, took[0]))
        else:
            rep.ok()
