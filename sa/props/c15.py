"""C15: arrays allocated without initialisation are overwritten before use."""
from ..common import *
from ..common import REPO
from .. import initcov

__doc__ += '\n' + initcov.__doc__

RULE = ('for every allocation of uninitialised memory: at each point where a cell of the array is read, or the array is handed to code that is not '
        'followed, stored or returned, the index boxes written on every path to that point cover those cells (arrays are not empty, '
        'external out= arguments are completely overwritten)')


def run(rep):
    p = Program(REPO)
    c = initcov.Cover(p.trees, p.paths)
    c.run()
    seen = set()
    for fn, arr, line, what in c.problems:
        k = '%s:%s' % (fn.qual, ast.unparse(arr.node)[:60])
        if k in seen:
            continue
        seen.add(k)
        rep.violation('uninit:' + k, '%s: `%s` (line %d) is %s at line %d before all its cells are written on every path' % (
            fn.qual, ast.unparse(arr.node)[:80], arr.node.lineno, what, line), '%s:%d' % (p.paths.get(fn.mod, fn.mod), line))
    for fn, line, ok in c.allocs:
        rep.count('allocations of uninitialised memory judged')
        rep.sample('allocations', '%s:%d' % (fn.qual, line))
    rep.count('functions', len(c.fns))
    rep.rule = RULE
    rep.floor('functions', 500)
