"""writes /verif/MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INTERP = 'static analysis: abstract interpretation of the source '
T = {
    'C01': (INTERP + '(ownership/alias domain, write effects)', 'every public function and estimator method, every in-place write whose target may alias an argument'),
    'C02': (INTERP + '(identity tokens on hyper-parameters, all exits)', 'every constructor parameter and every exit of every estimator method'),
    'C03': (INTERP + '(identity and ownership marks on fitted attributes)', 'every inference method on every abstract fitted configuration, all exits'),
    'C04': (INTERP + '(stale-attribute labels through a second fit)', 'every attribute that can survive from an earlier fit, read by fit or by later inference'),
    'C05': (INTERP + '(typestate unfitted/fitted)', 'every inference method on the state the constructor leaves'),
    'C06': (INTERP + '(provenance labels of random generators, clock, hash order, task completion order)', 'every draw, generator construction and randomising external routine reached from public functions and estimator methods; labels of every result and learned attribute'),
    'C07': (INTERP + '(attribute provenance through to_<format> / from_<format> and typestate of the loaded object)', 'save/load pairs of every estimator x option configuration x format; every attribute read by inference on the loaded object'),
    'C08': (INTERP + '(import evaluation and unbound-name / exception-exit analysis in worlds where each optional package is absent)', 'every module, every name in __all__ and every public entry point, in one world per optional package and one with all of them absent'),
    'C09': (INTERP + '(attribute existence and call-signature checking of every backend operation, run once per backend)', 'every backend operation reached from public functions, classes and estimators with NumPy and with PyTorch data'),
    'C10': (INTERP + '(option-provenance labels: forwarding, use, arithmetic alteration and name/code typing of every option)', 'every option of every public function and estimator configuration, including the keys of metric_params / kernel_params, at every internal call that takes it'),
 'C11': ('ranking-function analysis of every condition-controlled loop over the syntax tree: symbolic execution of each path through one iteration (interval + offset domain, inlined helpers), decreasing bounded measures, worklist exhaustion, recursion on repeated arguments',
         'loops over ranges, arrays and collections are finite by construction; sizes and initial indices are assumed non-negative'),
    'C12': (INTERP + '(sharing marks on everything visible to a joblib task, write effects inside tasks); symbolic term comparison of the serial and parallel arms; race analysis of numba prange loops (injective index polynomials, private/reduction scalars)', 'arms whose term is beyond the language are reported in the evidence as not decided'),
    'C13': (INTERP + '(padding typestate: labels on series and NaN-filled arrays, removed by slices/masks derived from isnan of the same origin; equal-size tests refine)', 'every public metric, barycenter and estimator configuration, both backends'),
    'C14': (INTERP + '(shape-labelled query data run in worlds where its dimensions differ from the fitted ones; comparisons of dimensions decided; every normal exit and every combination with fitted data is a violation)', 'every estimator, inference method tslearn implements and discrete configuration; three kinds of mismatch'),
    'C17': (INTERP + '(every string option set to an unrecognised value: no normal exit may remain unless an external library receives the value; every documented value must reach a normal exit)', 'every public function and estimator with string options found by abstract comparison / table lookup; every documented value'),
    'C18': (INTERP + ' (typestate of opened files, archives and temporary directories over all exits; paths of deleting calls folded for ordinary and hostile names)',
            'Numeric and string contents of files are unknown; names other than the witness strings are treated like them.'),
    'C16': (INTERP + ' (taint of the autograd graph through all operations in the PyTorch world; effects of autograd Functions)',
            'NaN or zero gradients of attached operations are numeric and not judged; external operations keep the graph unless listed as detaching.'),
}
NOTE = ('Whole-program abstract interpretation of /repo/tslearn on every run (nothing is executed); sound up to the models of external '
        'libraries (sa/ext.py), to reflective constructs the interpreter does not follow (reported as notes) and to the enumeration of discrete options.')
NUM = 'quantifies over real-valued run-time results (%s); no static argument in reach bounds them, and a run-time test would be a different technique'
NA = {
    'C30': NUM % 'optimality of dynamic programming over all inputs',
    'C31': NUM % 'equality of matrix entries and pairwise distances',
    'C32': NUM % 'inequality between two computed distances',
    'C33': NUM % 'labels, inertia and their monotonicity',
    'C34': NUM % 'monotone decrease of a loss over iterations',
    'C35': NUM % 'equality of converted values',
    'C36': NUM % 'ordering of computed distances',
    'C37': NUM % 'statistics of scaled values',
    'C38': NUM % 'derivatives of computed values',
    'C39': NUM % 'ARIMA recursions and information criteria',
}
TODO = 'no check is built yet'


def main():
    props = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if p in T and os.path.exists(os.path.join(HERE, 'sa', 'props', p.lower() + '.py')):
            tech, note = T[p]
            checks.append({'property': p, 'quick_cmd': 'python3 /verif/check.py %s' % p,
                           'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % p,
                           'technique': tech, 'level': 'other', 'level_note': 'Decides: %s. %s' % (note, NOTE)})
        else:
            na.append({'property': p, 'reason': NA.get(p, TODO)})
    m = {'version': 1, 'setup_cmd': 'python3 /verif/check.py --selftest', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
