"""C05: unfitted estimators refuse inference.

For every estimator and configuration of its discrete hyper-parameters, a
public method is an inference method when, run on the fitted object, it reads
an attribute that fit assigned.  Each of those is executed on the state the
constructor leaves: it must be able to raise NotFittedError, must not be able
to return, and must not reach the read of an attribute that does not exist
(which would surface as AttributeError)."""
from ..common import *

RULE = ('run on the state left by the constructor, an inference method has NotFittedError among its exits, no normal '
        'exit, and no read of a missing attribute escaping as AttributeError')


class H(Hooks):
    main = None
    loads = None

    def attr_load(self, ip, ref, h, name, v, node, fr):
        if ref == self.main and self.loads is not None and ('learned', name) in v.lab:
            ip.emit('load', node, fr, name, key=name)

    def attr_missing(self, ip, ref, h, name, node, fr, maybe):
        if ref == self.main:
            ip.emit('missing', node, fr, 'reads attribute `%s`, which does not exist before fit' % name, key=name)


SKIP = {'set_weights', 'set_params', 'set_output'}


def run(rep):
    hk = H()
    ip, cat = make(hk)
    base = user_heap(ip.gheap, lambda p: E)
    for c in cat.estimators():
        L = Life(ip, cat, c)
        q = c.qual
        rep.count('estimators')
        inf = set()
        for cfg in configs(L):
            hk.main = None
            r, h, ex = L.construct(base, with_values(cfg, L))
            if r is None:
                continue
            ref = main_ref(r)
            fh, ex = fit_exits(L, r, h)
            if fh is None:
                continue
            g = fh[ref.id]
            init = h[ref.id].fields
            f = {a: (v if a in L.hyper or init.get(a) == v else v.addlab(frozenset([('learned', a)])))
                 for a, v in g.fields.items()}
            fh = dict(fh)
            fh[ref.id] = g.with_(fields=f)
            hk.main = ref
            for m in L.queries():
                if m in SKIP:
                    continue
                ip.clear_events()
                hk.loads = True
                L.run(m, r, fh)
                learned = sorted({e.key for e in ip.all_events() if e.rule == 'load'})
                hk.loads = None
                if not learned:
                    continue
                inf.add(m)
                ip.clear_events()
                rr, st, ex = L.run(m, r, h)
                rep.count('unfitted inference runs')
                rep.sample('inference methods', q + '.' + m)
                evs = [e for e in ip.all_events() if e.rule == 'missing']
                if st is not None:
                    rep.violation('%s.%s:answers' % (q, m), '%s.%s can return a result on an unfitted estimator (%s), although '
                                  'it relies on %s after fit' % (q, m, cfg_str(cfg), ', '.join(learned)), q)
                if 'AttributeError' in ex:
                    for e in evs:
                        rep.violation('%s.%s:%s' % (q, m, e.key), '%s.%s on an unfitted estimator %s (%s)' %
                                      (q, m, e.msg, cfg_str(cfg)), where(ip, e), event_path(ip, e))
                if 'NotFittedError' not in ex and st is None:
                    rep.violation('%s.%s:nocheck' % (q, m), '%s.%s on an unfitted estimator never raises NotFittedError (%s)'
                                  % (q, m, cfg_str(cfg)), q)
            hk.main = None
        rep.count('inference methods', len(inf))
        ip.memo.clear()
    rep.rule = RULE
    rep.floor('estimators', 20)
    rep.floor('inference methods', 60)
