"""Running the inference engines of dyna-pi and recording their solutions."""
from enc import *
from lib import limit, CaseTimeout


def run_engine(p, name, sr, data='', outputs=None):
    "returns a recorded outcome {name, status, sol}"
    try:
        with limit(10):
            if sr == 'rat' and name == 'agenda':      # values approached in the limit
                sol = getattr(p, name)(precision=10)
            else:
                sol = ENGINES[name](p)
        return dict(name=name, status='ok', sol=enc_sol(sol, sr))
    except CaseTimeout:
        return dict(name=name, status='no answer within 10 s', sol=[])
    except RecursionError as e:
        return dict(name=name, status='RecursionError', sol=[])
    except Exception as e:
        return dict(name=name, status=f'{type(e).__name__}: {str(e)[:200]}', sol=[])


def _scc(magic, solver):
    def f(p):
        s = p.scc_solver(magic=magic, solver=solver)
        return s.sol()
    return f

ENGINES = {
    'solver': lambda p: p.solver()().sol(),
    'solver2': lambda p: p.solver2()().sol(),
    'solve': lambda p: p.solve(),
    'agenda': lambda p: p.agenda(),
    'seminaive': lambda p: p.seminaive(),
    'fc': lambda p: p.fc(),
    'newton': lambda p: p.newton(),
    'linear': lambda p: p.solve_linear(),
    'scc': _scc(False, None),
    'sccmagic': _scc(True, None),
    'scc1': _scc(False, 1),
    'scc2': _scc(False, 2),
}
