"""C01: no public callable writes into storage its caller passed in.

Every public function and every public method of every public class is
abstractly executed with each argument marked as owned by the caller; every
in-place operation (item / attribute / augmented assignment, mutating method,
out=, mutating external routine) whose target may alias a marked argument is a
violation.  A parameter named `out` is an output by contract."""
from ..common import *

RULE = 'no in-place operation on a value that may alias an argument of a public callable'


class H(Hooks):
    def write(self, ip, roots, node, fr, how, v):
        for r in sorted(map(str, (r[1] for r in roots if r[0] == 'param' and r[1] != 'out'))):
            ip.emit('write', node, fr, '%s may modify the caller\'s `%s`' % (how, r), key=r)


def own(p):
    return frozenset([('param', p)])


def run(rep):
    for mode in ('numpy', 'pytorch'):
        ip, cat = make(H(), mode)
        ip.clear_events()
        base = user_heap(ip.gheap, own)

        def collect(entry):
            for e in ip.all_events():
                if e.rule == 'write':
                    rep.violation('%s(%s)' % (entry, e.key), 'calling %s (%s data): %s' % (entry, mode, e.msg),
                                  where(ip, e), event_path(ip, e))
            ip.clear_events()

        for q, e in sorted(cat.funcs.items()):
            kw = {p: param_value(p, ip.default_of(e.func, p), e.opts.get(p), own(p), E, None, mode, typ=e.types.get(p))
                  for p in e.params}
            ip.run_function(obj(e.func), [], kw, base)
            rep.count('public functions analysed')
            rep.count('argument obligations', len(kw))
            rep.sample('functions', q)
            collect(q)
        for q, c in sorted(cat.classes.items()):
            if c.name.startswith('_'):
                continue
            L = Life(ip, cat, c, mode)
            r, h, ex = L.construct(base, own=own)
            if r is None or main_ref(r) is None:
                ip.clear_events()
                continue
            collect(q + '.__init__')
            rep.count('public classes analysed')
            heap = h
            if L.has('fit'):
                rr, st, ex = L.run('fit', r, h, own=own)
                rep.count('methods analysed')
                collect(q + '.fit')
                if st is not None:
                    heap = st.heap
            for m in L.queries() + [x for x in ('fit_transform', 'fit_predict', 'to_json', 'to_hdf5', 'to_pickle')
                                    if L.has(x)]:
                L.run(m, r, heap, own=own)
                rep.count('methods analysed')
                rep.sample('methods', q + '.' + m)
                collect(q + '.' + m)
        rep.count('functions reached', len(ip.stats['functions']))
        rep.count('calls interpreted', ip.stats['calls'])
    rep.rule = RULE
    rep.floor('public functions analysed', 150)
    rep.floor('methods analysed', 200)
    rep.floor('functions reached', 500)
