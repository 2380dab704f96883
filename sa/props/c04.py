"""C04: refitting forgets earlier fits.

For every estimator an object state is built that joins what every earlier
successful or failed fit and every inference method, under every configuration
of the discrete hyper-parameters, may leave behind; each attribute of that
state is labelled stale.  Then fit is executed from it under each configuration
and, from the state fit leaves, every inference method.  Reading (or testing
the presence of) an attribute that still carries its stale label is a
violation: the outcome would depend on an earlier call."""
from ..common import *

RULE = ('fit, and inference after it, may read no attribute that this fit has not itself assigned '
        '(hyper-parameters excepted)')


class H(Hooks):
    main = None
    phase = ''

    def see(self, ip, ref, name, v, node, fr, what):
        if ref == self.main and ('stale', name) in v.lab:
            ip.emit('stale', node, fr, what % name, key=name)

    def attr_load(self, ip, ref, h, name, v, node, fr):
        if not ip.in_fitcheck:
            self.see(ip, ref, name, v, node, fr, 'reads `%s` left over from an earlier call')

    def hasattr_test(self, ip, ref, h, name, node, fr):
        v = h.fields.get(name)
        if v is not None:
            self.see(ip, ref, name, v, node, fr, 'tests the presence of `%s`, which an earlier call may have left behind')


SKIP = {'set_weights', 'set_params', 'set_output'}


def run(rep):
    hk = H()
    ip, cat = make(hk)
    base = user_heap(ip.gheap, lambda p: E)
    for c in cat.estimators():
        L = Life(ip, cat, c)
        if not L.has('fit'):
            continue
        q = c.qual
        rep.count('estimators')
        hk.main = None
        cfgs = configs(L)
        qs = [m for m in L.queries() + L.props() if m not in SKIP]
        heap_all = None
        ref = None
        init = {}
        good = []
        for cfg in cfgs:
            r, h, ex = L.construct(base, with_values(cfg, L))
            if r is None:
                continue
            ref = main_ref(r)
            for a, v in h[ref.id].fields.items():
                init[a] = join(init.get(a), v)
            fh, ex = fit_exits(L, r, h)
            ends = [s.heap for s in ex.values()]
            if fh is not None:
                good.append(cfg)
                ends.append(fh)
                for m in qs:
                    rr, st, ex = L.run(m, r, fh)
                    ends.extend(s.heap for s in ex.values())
                    if st is not None:
                        ends.append(st.heap)
            for x in ends:
                heap_all = join_heap(heap_all, x)
        if heap_all is None or not good:
            rep.notes.append('%s: fit cannot complete' % q)
            continue
        f0 = heap_all[ref.id].fields
        left = sorted(a for a in f0 if a not in L.hyper and f0[a] != init.get(a))
        rep.count('attributes tracked', len(left))
        rep.sample('attributes', '%s: %s' % (q, ', '.join(left)))
        for cfg in good:
            f = {}
            for p, v in with_values(cfg, L).items():
                f[p] = v
            for a in left:
                v = f0[a].addlab(frozenset([('stale', a)]))
                if a not in init:
                    v = join(v, ABSENTV)
                else:
                    v = join(v, init[a])
                f[a] = v
            for a in init:
                f.setdefault(a, init[a])
            h = dict(heap_all)
            h[ref.id] = h[ref.id].with_(fields=f, lab=E)
            hk.main = ref
            ip.clear_events()
            rr, st, ex = L.run('fit', obj(ref), h)
            rep.count('refits analysed')
            for e in ip.all_events():
                if e.rule == 'stale':
                    rep.violation('%s.fit:%s' % (q, e.key), '%s.fit %s (%s)' % (q, e.msg, cfg_str(cfg)), where(ip, e),
                                  event_path(ip, e))
            ip.clear_events()
            if st is not None:
                ff = st.heap[ref.id].fields
                rest = [a for a in left if ('stale', a) in ff.get(a, BOT).lab]
                rep.count('attributes rewritten by refit', len(left) - len(rest))
                for m in qs:
                    L.run(m, obj(ref), st.heap)
                    rep.count('inference runs after refit')
                    for e in ip.all_events():
                        if e.rule == 'stale':
                            rep.violation('%s.%s:%s' % (q, m, e.key), '%s.%s after a refit %s (%s)' % (q, m, e.msg, cfg_str(cfg)),
                                          where(ip, e), event_path(ip, e))
                    ip.clear_events()
            hk.main = None
        ip.memo.clear()
    rep.rule = RULE
    rep.floor('estimators', 20)
    rep.floor('attributes tracked', 100)
    rep.floor('refits analysed', 40)
