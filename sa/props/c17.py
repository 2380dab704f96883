"""C17: unknown option values are rejected, advertised ones are served.

String options are found by executing every public function, loss class and
estimator abstractly with labelled parameters: an option is a string option when
it is compared with string constants or looked up in a table of names. Then
  unknown   with the option set to a string no constant of the library equals,
            there is no normal exit (for estimators: fit, or every inference
            method after it), unless the value is handed to an external library,
            which judges it;
  served    with each documented value ({'a', 'b'} in the docstring), the
            function, fit and every inference method have a normal exit and no
            comparison chain ends in its rejecting branch.
The options inside metric_params / kernel_params count like options."""
from ..common import *

RULE = ('a string option set to a value outside the documented ones leaves no normal exit unless an external library receives the value; '
        'with every documented value all methods have a normal exit')
BAD = '<unrecognised>'

# string parameters that are not choices
NOT_CHOICE = {
    'be': 'documented: anything that names no backend means "determined by the data"',
    'array_type': 'same',
    'data': 'same',
    'metric_params': 'a dict; its entries are options', 'kernel_params': 'a dict', 'kwds': 'a dict',
    'n_jobs': 'a number', 'X': 'the data', 'y': 'the data', 'random_state': 'a generator or a seed',
}
NESTED = {'metric_params': ('global_constraint',)}


def olab(p):
    return frozenset([('opt', p)])


def is_bad(v):
    return isinstance(v, V) and ('s', BAD) in v.c


class H(Hooks):
    def asked(self, ip, v, other, node, fr, st):
        ps = {l[1] for l in v.lab if isinstance(l, tuple) and l[0] == 'opt'}
        if ps and not v.o and self.has_str(ip, other, st):
            for p in ps:
                ip.emit('asked', node, fr, '', key=p)

    def has_str(self, ip, v, st):
        if any(t == 's' and len(k) > 1 for t, k in v.c):
            return True
        for o in v.o:
            if isinstance(o, T) and o.tag in ('tuple', 'list'):
                if any(isinstance(x, V) and self.has_str(ip, x, st) for x in o.a[0]):
                    return True
            h = ip.hget(st, o) if isinstance(o, Ref) else None
            if h is not None and h.kind in ('list', 'set') and any(self.has_str(ip, x, st) for x in list(h.fields.values()) + (
                    [h.elem] if h.elem is not None else [])):
                return True
            if h is not None and h.kind == 'dict' and any(isinstance(k, str) for k in h.fields):
                return True
        return False

    def compare(self, ip, op, l, r, node, fr, st):
        self.asked(ip, l, r, node, fr, st)
        if op in (ast.Eq, ast.NotEq):
            self.asked(ip, r, l, node, fr, st)

    def key(self, ip, h, i, node, fr, st):
        ps = {l[1] for l in i.lab if isinstance(l, tuple) and l[0] == 'opt'}
        if ps and any(isinstance(k, str) for k in h.fields):
            for p in ps:
                ip.emit('asked', node, fr, '', key=p)

    def given(self, ip, vs, name, node, fr, st):
        for v in vs:
            if is_bad(v):
                ip.emit('ext', node, fr, name, key=name)
            elif isinstance(v, V):
                for o in v.o:       # captured by a callback, or kwargs collected in a dict
                    if isinstance(o, Func) and any(is_bad(x) for _, x in o.clo or ()):
                        ip.emit('ext', node, fr, name, key=name)
                    h = ip.hget(st, o) if isinstance(o, Ref) else None
                    if h is not None and h.kind == 'dict' and any(is_bad(x) for x in h.fields.values()):
                        ip.emit('ext', node, fr, name, key=name)

    def ext_call(self, ip, name, a, node, fr, st):
        if not name.startswith(('builtins.', 'warnings.', 'numpy.isscalar', 'inspect.', 'copy.')):
            self.given(ip, list(a.pos) + list(a.kw.values()) + [x for x in (a.dstar,) if isinstance(x, V)], name, node, fr, st)

    def attr_load(self, ip, ref, h, name, v, node, fr):
        if isinstance(v, V) and ('opt', name) in v.lab:
            ip.emit('read', node, fr, '', key=name)

    def ext_method(self, ip, recv, name, a, node, fr, st):
        for o in recv.o:
            h = ip.hget(st, o) if isinstance(o, Ref) else None
            if h is not None and h.kind == 'dict' and name in ('get', 'pop', 'setdefault') and a.pos:
                self.key(ip, h, a.pos[0], node, fr, st)
        if not (recv.o or recv.c) and name not in ('format',):
            self.given(ip, list(a.pos) + list(a.kw.values()), name, node, fr, st)


def run(rep):
    hk = H()
    ip, cat = make(hk, for_once=True)
    heap0 = user_heap(ip.gheap, lambda p: E)

    def loc(f):
        return '%s:%s' % (ip.p.paths.get(f.mod, f.mod), f.node.lineno)

    read = set()

    def take():
        asked, ext = set(), set()
        for e in ip.all_events():
            if e.rule == 'asked':
                asked.add(e.key)
            elif e.rule == 'read':
                read.add(e.key)
            elif e.rule == 'ext':
                ext.add(e.key)
        ip.clear_events()
        return asked, ext

    def nested_heap(labelled, bad=None):
        h = user_heap(ip.gheap, lambda p: E)
        for d, ks in NESTED.items():
            f = {}
            for k in ks:
                n = '%s[%r]' % (d, k)
                f[k] = const(BAD).with_(lab=olab(n)) if bad == n else V(c=frozenset([NONE, ('s', 'itakura'), ('s', 'sakoe_chiba')]), lab=olab(n))
            h[('user', d)] = HObj('dict', None, f, None, E, E)
        return h

    # ---- functions
    for q, en in sorted(cat.funcs.items()):
        dflt = {p: ip.default_of(en.func, p) for p in en.params}

        def args(sub=None, lab=True, nest=False):
            kw = {}
            for p in en.params:
                kw[p] = param_value(p, dflt[p], en.opts.get(p), lab=olab(p) if lab else E, typ=en.types.get(p))
                if nest and p in NESTED:
                    kw[p] = kw[p].with_(c=E, lab=E)
                if sub and p in sub:
                    kw[p] = sub[p]
            return kw
        ip.run_function(obj(en.func), [], args(), nested_heap(True), node=en.func.node)
        asked, ext = take()
        for p in sorted(asked):
            if p in NOT_CHOICE or p.split('[')[0] not in en.params:
                continue
            v = const(BAD).with_(lab=olab(p))
            if '[' in p:
                r, st, ex = ip.run_function(obj(en.func), [], args({'metric': const('dtw')}, False, True), nested_heap(True, p), node=en.func.node)
            else:
                r, st, ex = ip.run_function(obj(en.func), [], args({p: v}, False), heap0, node=en.func.node)
            a2, ext = take()
            rep.count('string options')
            rep.sample('options', '%s(%s)' % (q, p))
            if r is not None and not ext and p in a2:
                rep.violation('unknown:%s:%s' % (q, p), '%s: an unknown value of `%s` is not rejected' % (q, p), loc(en.func))
        for p in en.params:
            for val in sorted(en.opts.get(p) or ()):
                r, st, ex = ip.run_function(obj(en.func), [], args({p: const(val)}, False), heap0, node=en.func.node)
                take()
                rep.count('documented values')
                if r is None:
                    rep.violation('served:%s:%s:%s' % (q, p, val), '%s: the documented value %r of `%s` always raises %s' % (
                        q, val, p, ', '.join(sorted(str(x) for x in ex))), loc(en.func))
    ip.memo.clear()
    # ---- classes
    for q, c in sorted(cat.classes.items()):
        est = cat.is_estimator(c)
        if not est and (c.name.startswith('_') or cat.init_func(c) is None):
            continue
        L = Life(ip, cat, c)
        hyper = list(L.hyper)
        cfgs = configs(L) if est else [{}]
        ms = [m for m in L.queries() if cat.method(c, m) is not None]
        seen = set()
        node = c.node

        def vals_of(cfg, lab, sub=None, nest=False):
            v = with_values(cfg, L, lab=(lambda p: olab(p)) if lab else None)
            for p in NESTED:
                if nest and p in v:
                    v[p] = v[p].with_(c=E, lab=E)
            v.update(sub or {})
            return v

        def life(heap, vals, queries=True):
            """[(method, normal exit, exceptions)], options asked, external receivers"""
            out = []
            r, h, ex = L.construct(heap, vals)
            if r is None or main_ref(r) is None:
                a, x = take()
                return [('__init__', False, ex)], a, x
            if est and L.has('fit'):
                rr, st, ex = L.run('fit', r, h)
                out.append(('fit', st is not None, ex))
                if st is None:
                    a, x = take()
                    return out, a, x
                h = st.heap
            a, x = take()
            for m in ms:
                rr, st, ex = L.run(m, r, h)
                out.append((m, st is not None, ex))
                a2, x2 = take()
                a, x = a | a2, x | x2
            return out, a, x

        done = set()
        read.clear()
        for cfg in cfgs:
            sel = cfg.get('metric', cfg.get('kernel'))
            ok, k = sel.single_const() if sel is not None else (False, None)
            with_nested = ok and k in ('dtw', 'softdtw', 'frechet', 'ctw')
            out, asked, ext = life(nested_heap(True), vals_of(cfg, True, None, with_nested))
            if est:
                for m, ok, ex in out:
                    rep.count('documented values')
                    if not ok:
                        rep.violation('served:%s:%s' % (q, m), '%s.%s always raises %s with the documented configuration %s' % (
                            q, m, ', '.join(sorted(str(x) for x in ex)), cfg_str(cfg)), '%s:%s' % (ip.p.paths.get(c.mod, c.mod), node.lineno))
            docd = {p for p in hyper if p in L.opts and L.opts[p] and p in read}
            for p in sorted(asked | docd):
                b = p.split('[')[0]
                if p in NOT_CHOICE or b not in hyper:
                    continue
                k = (p, tuple(sorted((x, str(v)) for x, v in cfg.items() if x != p)))
                if k in done:
                    continue
                done.add(k)
                ip.memo.clear()
                if '[' in p:
                    out2, a2, ext = life(nested_heap(True, p), vals_of(cfg, False, None, True))
                else:
                    out2, a2, ext = life(heap0, vals_of(cfg, False, {p: const(BAD).with_(lab=olab(p))}))
                rep.count('string options')
                rep.sample('options', '%s(%s)' % (q, p))
                if p not in a2 and p not in docd or ext:
                    continue
                if '[' in p and all(ok for m, ok, ex in out2[:1]) and not est:
                    continue
                normal = [m for m, ok, ex in out2 if ok]
                first = out2[0]
                rest = out2[1:] if est else out2
                if not first[1]:
                    continue
                bad = [m for m, ok, ex in rest if ok]
                if bad:
                    rep.violation('unknown:%s:%s' % (q, p), '%s: an unknown value of `%s` is not rejected by %s (%s)' % (
                        q, p, ', '.join([first[0]] + bad[:3]), cfg_str(cfg)), '%s:%s' % (ip.p.paths.get(c.mod, c.mod), node.lineno))
            ip.memo.clear()
    rep.rule = RULE
    rep.floor('string options', 30)
    rep.floor('documented values', 60)
