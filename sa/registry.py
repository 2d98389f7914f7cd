"""Which analyses decide which property."""


def model_contracts(prog, rep, tier):
    from .modelspec import ModelSpec
    ModelSpec(prog, rep).all()


def kernels(*names):
    def run(prog, rep, tier):
        from .kernels import Kernels
        k = Kernels(prog, rep, tier)
        for n in names:
            k.guard(getattr(k, n), 'C12', 'C13', 'C14', 'C15', 'C06', 'C09')
    return run


def _fx(name):
    def run(prog, rep, tier):
        from . import effects
        getattr(effects, name)(prog, rep, tier)
    return run


def solve_contracts(prog, rep, tier):
    from .solvespec import SolveSpec
    s = SolveSpec(prog, rep, tier)
    ps = ('C01', 'C02', 'C03', 'C04', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C14', 'C18')
    s.guard(s.bad_input, 'C07')
    s.guard(s.first_run, *ps)
    s.guard(s.packaging, *ps)


def tables(prog, rep, tier):
    from .tables import Tables
    t = Tables(prog, rep, tier)
    t.guard(t.params, 'C07')
    t.guard(t.exits, 'C07')
    t.guard(t.results, 'C07', 'C20')


def protocol_methods(prog, rep, tier):
    from . import protocol
    protocol.methods(prog, rep, tier)


def protocol_main(prog, rep, tier):
    from . import protocol
    protocol.main_run(prog, rep, tier)


def _init(prog, rep, tier):
    from .initspec import InitSpec
    InitSpec(prog, rep, tier).all()


def _util(prog, rep, tier):
    from .utilspec import UtilSpec
    UtilSpec(prog, rep, tier).all()


def _diag(prog, rep, tier):
    from .diag import diag
    diag(prog, rep, tier)


ANALYSES = {
    'methods': protocol_methods,
    'main': protocol_main,
    'diag': _diag,
    'init': _init,
    'util': _util,
    'alias': _fx('alias'),
    'rng': _fx('c19'),
    'dykstra': kernels('t_dykstra'),
    'trsbox': kernels('t_trsbox'),
    'geometry': kernels('t_linear', 't_geom', 't_convex'),
    'model': model_contracts,
    'solve': solve_contracts,
    'tables': tables,
}

COMMON = ['exact real arithmetic on array elements (rounding is outside the domain)', 'the Python subset used by dfols is interpreted by sa/interp.py',
          'numpy/scipy functions behave as documented']

PROPS = {
    'C01': {'analyses': ['util', 'solve', 'model', 'trsbox', 'alias', 'methods', 'main'], 'title': 'bounds at every evaluation', 'explanation': 'x0 projection and bound scaling in solve(); clip of every model point to the box on the way out of the Model class'},
    'C02': {'analyses': ['util', 'solve', 'model', 'methods', 'main'], 'title': 'budget and counters', 'explanation': 'threading of nf/nx/nruns through solve() and the restart loop'},
    'C03': {'analyses': ['util', 'solve', 'model', 'methods', 'main'], 'title': 'returned point was evaluated', 'explanation': 'record (x, rvec, obj, eval number) carried unchanged from the Model to the packaged result'},
    'C04': {'analyses': ['util', 'solve', 'model', 'methods', 'main'], 'title': 'best point never lost', 'explanation': 'incumbent rule of the Model, selection of the final result, merge over hard restarts'},
    'C08': {'analyses': ['util', 'solve', 'model', 'methods', 'main'], 'title': 'bad objective values', 'explanation': 'NaN-safe comparisons and non-finite data guards'},
    'C09': {'analyses': ['util', 'solve', 'model', 'dykstra', 'alias', 'methods', 'main'], 'title': 'convex constraints', 'explanation': 'projection list with the box last; x0 projected; every model point projected'},
    'C10': {'analyses': ['util', 'solve', 'model', 'methods', 'main'], 'title': 'exit flags', 'explanation': 'exit conditions and run accounting'},
    'C11': {'analyses': ['util', 'alias', 'solve', 'model', 'methods', 'main'], 'title': 'returned Jacobian', 'explanation': 'interpolation fit, its eval-number snapshot, saving with a saved point, un-scaling'},
    'C14': {'analyses': ['init', 'solve', 'model', 'methods', 'main'], 'title': 'initial interpolation set',
            'explanation': 'steps of the coordinate initialisation for every placement of the starting point relative to its bounds; number, length and bounds of the random directions'},
    'C06': {'analyses': ['util', 'solve', 'geometry', 'methods', 'main'], 'title': 'regulariser arguments', 'explanation': 'what h and prox receive at every call'},
    'C18': {'analyses': ['solve', 'diag', 'methods', 'main'], 'title': 'diagnostic table', 'explanation': 'rows and columns of the table'},
    'C07': {'analyses': ['solve', 'tables'], 'title': 'well-formed result', 'explanation': 'every invalid input is recognised before the objective is called; parameter tables; '
            'exit codes; shape of the packaged result'},
    'C20': {'analyses': ['tables'], 'title': 'JSON round trip and printing', 'explanation': 'abstract execution of to_dict/from_dict/__str__/replace_nan_with_none for every combination of absent '
            'fields; each field must come back as the array/number it was'},
    'C15': {'analyses': ['util', 'dykstra', 'alias'], 'title': 'Dykstra projection', 'explanation': 'transition of both loops of util.dykstra, stopping rule, order, aliasing of the increments'},
    'C19': {'analyses': ['alias', 'rng'], 'title': 'reproducibility and caller data', 'technique': 'static analysis: may-alias/in-place-effect analysis and call-graph reachability with control dependences',
            'explanation': 'in-place effects on arguments of solve; every call path from solve to the global random generator is controlled by an option for random directions; no other nondeterminism; no state kept between calls'},
    'C13': {'analyses': ['util', 'geometry', 'model', 'alias'], 'title': 'geometry and convex step solvers',
            'explanation': 'loop transitions of trsbox_linear, ctrsbox_pgd, ctrsbox_linear, ctrsbox_sfista; choice of the larger Lagrange value; projection lists ending with the trust-region ball'},
    'C12': {'analyses': ['util', 'trsbox', 'alias'], 'title': 'box trust-region solver',
            'explanation': 'transition algebra of every loop of trsbox/alt_trust_step: gradient tracking, radius root, curvature limit, bound ratios, active set, model decrease, box clip'},
    'C16': {'analyses': ['util', 'model', 'alias'], 'title': 'interpolation models',
            'explanation': 'value-numbering of the model-fitting methods; algebraic identities of the interpolation system, Gauss-Newton assembly, base shift and '
                           'Lagrange right-hand sides, and the effect rule that every mutator of the point set clears the cached factorisation'},
    'C17': {'analyses': ['model', 'alias'], 'title': 'model bookkeeping',
            'explanation': 'contracts of every Model mutator/selector decided on the value numbers of its current source for all configurations and objective orderings incl. NaN'},
}

NOT_APPLICABLE = {
    'C05': 'whether the iterates of a linear least-squares problem come within 1e-6*(1+f*) of the constrained minimum is a quantity of the run (how much each trust-region step '
           'reduces the model, how often rho shrinks, what the budget allows); no static argument in reach bounds it. The structural parts it rests on are decided under C12, C16, C10 and C11.',
}
