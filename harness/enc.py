"""Encoding of dyna-pi objects (terms, rules, programs, solutions) as values of the
specification, and the finite semirings used to observe multiplicities."""
import sys, os
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import warnings
warnings.filterwarnings('ignore')
from fractions import Fraction
from semirings import base, Float, Boolean, MinPlus
import dyna
from dyna import Program, Rule, Term
from dyna.term import Var, snap
assert os.path.dirname(os.path.dirname(os.path.abspath(dyna.__file__))) == os.path.abspath(REPO), dyna.__file__


def make_sat(K):
    """Counting saturated at K: a finite commutative semiring in which cyclic programs reach
    their fixpoint while double counting and lost contributions remain visible."""
    class Sat(base.Semiring):
        def __init__(self, x, d=None):
            self.x = min(int(x), K)
        def __add__(self, other):
            if not isinstance(other, Sat): return NotImplemented
            return Sat(self.x + other.x)
        def __mul__(self, other):
            if not isinstance(other, Sat): return NotImplemented
            return Sat(self.x * other.x)
        def __eq__(self, other): return isinstance(other, Sat) and self.x == other.x
        def __lt__(self, other): return self.x < other.x
        def __hash__(self): return hash(('sat', self.x))
        def __repr__(self): return f's{self.x}'
        def star(self): return Sat(1) if self.x == 0 else Sat(K)
        def metric(self, other): return 0 if self.x == other.x else 1
        @classmethod
        def multiplicity(cls, v, m):
            return Sat(0) if m == 0 else Sat(min(K, v.x * (K if m >= K else int(m))))
    Sat.__name__ = f'Sat{K}'
    Sat.zero = Sat(0)
    Sat.one = Sat(1)
    Sat.K = K
    return Sat


def make_bot(K):
    """Bottleneck (max, min) on 0..K."""
    class Bot(base.Semiring):
        def __init__(self, x, d=None):
            self.x = min(int(x), K)
        def __add__(self, other):
            if not isinstance(other, Bot): return NotImplemented
            return Bot(max(self.x, other.x))
        def __mul__(self, other):
            if not isinstance(other, Bot): return NotImplemented
            return Bot(min(self.x, other.x))
        def __eq__(self, other): return isinstance(other, Bot) and self.x == other.x
        def __lt__(self, other): return self.x < other.x
        def __hash__(self): return hash(('bot', self.x))
        def __repr__(self): return f'b{self.x}'
        def star(self): return Bot(K)
        def metric(self, other): return 0 if self.x == other.x else 1
        @classmethod
        def multiplicity(cls, v, m): return Bot(0) if m == 0 else v
    Bot.__name__ = f'Bot{K}'
    Bot.zero = Bot(0)
    Bot.one = Bot(K)
    Bot.K = K
    return Bot


MINCAP = 100000
Sat2, Sat3, Sat5, Sat7 = make_sat(2), make_sat(3), make_sat(5), make_sat(7)
Bot4 = make_bot(4)

SEMIRINGS = {
    'sat2': (Sat2, dict(k='sat', n=2)),
    'sat3': (Sat3, dict(k='sat', n=3)),
    'sat5': (Sat5, dict(k='sat', n=5)),
    'sat7': (Sat7, dict(k='sat', n=7)),
    'bool': (Boolean, dict(k='sat', n=1)),
    'min': (MinPlus, dict(k='min', n=MINCAP)),
    'bot': (Bot4, dict(k='max', n=4)),
    'inf7': (None, dict(k='sat', n=7)),      # the default Float semiring on integral values, some infinite
    'int': (None, dict(k='int', n=0)),       # the default Float semiring on integral values
    'rat': (None, dict(k='rat', n=0)),       # the default Float semiring on rationals
}


class Unencodable(Exception):
    pass


def enc_weight(v, sr):
    "weight -> specification value"
    k = SEMIRINGS[sr][1]['k'] if isinstance(sr, str) else sr['k']
    if sr == 'inf7':
        f = float(v)
        if f != f or f < 0 or f != float('inf') and f != int(f): raise Unencodable(f'weight {v!r}')
        return int(min(f, 7))
    if sr == 'bool':
        if isinstance(v, Boolean): return 1 if v.score else 0
        raise Unencodable(f'weight {v!r}')
    if k in ('sat', 'max'):
        if not hasattr(v, 'x'): raise Unencodable(f'weight {v!r} is not a {sr} value')
        return v.x
    if k == 'min':
        if not isinstance(v, MinPlus): raise Unencodable(f'weight {v!r} is not a min-plus value')
        if v.cost == float('inf'): return MINCAP
        if v.cost != int(v.cost): raise Unencodable(f'weight {v!r}')
        return int(v.cost)
    if k == 'int':
        f = float(v)
        if f != f or f in (float('inf'), float('-inf')): raise Unencodable(f'weight {v!r}')
        if abs(f - round(f)) > 1e-6 or abs(f) > 10**8: raise Unencodable(f'weight {v!r}')
        return int(round(f))
    if k == 'rat':
        f = float(v)
        if f != f or f in (float('inf'), float('-inf')): raise Unencodable(f'weight {v!r}')
        q = Fraction(f).limit_denominator(300)
        if abs(float(q) - f) > 5e-6 or abs(q.numerator) > 30000: raise Unencodable(f'weight {v!r}')
        return [q.numerator, q.denominator]
    raise Unencodable(k)


class VarNames(dict):
    """stable names for variable objects within one encoding scope"""
    def name(self, v):
        if v not in self: self[v] = f'V{len(self)}'
        return self[v]


def _rename(t):
    "the variables of a $not_matches pattern are its own"
    if t[0] == '?': return ['?', 'N' + t[1]]
    return t if t[0] == '#' else [t[0]] + [_rename(x) for x in t[1:]]


def enc_term(t, vs):
    t = snap(t)
    if isinstance(t, Var):
        return ['?', vs.name(t)]
    if isinstance(t, Term):
        if t.fn == '$not_matches':
            x = t.args[0]
            x = x() if callable(x) else dyna.syntax.term(x)
            own = VarNames()
            return ['$not_matches', _rename(enc_term(x, own)), enc_term(t.args[1], vs)]
        fn = t.fn if isinstance(t.fn, str) else f'@{type(t.fn).__name__}:{t.fn}'
        return [fn] + [enc_term(x, vs) for x in t.args]
    if isinstance(t, bool):
        return [f"'b:{t}"]
    if isinstance(t, int):
        if abs(t) > 2**30: return [f"'i:{t}"]
        return ['#', t]
    if isinstance(t, float) and t == int(t) and abs(t) < 2**30:
        return ['#', int(t)]      # Python equates 1 and 1.0
    if isinstance(t, str):
        return [f"'s:{t}"]
    if isinstance(t, (tuple, list)):
        return ['@tuple'] + [enc_term(x, vs) for x in t]
    if isinstance(t, MinPlus): return [f"'w:{t.cost}"]        # (a weight's provenance is not part of its value)
    if isinstance(t, Boolean): return [f"'w:{t.score}"]
    return [f"'{type(t).__name__}:{t}"]


def enc_rule(r, sr, vs=None):
    """rule -> {h, b, w}; constants of the body are multiplied into w"""
    vs = VarNames() if vs is None else vs
    S = SEMIRINGS[sr][0] or Float
    w = S.one
    b = []
    for x in r.body:
        x = snap(x)
        if Program.is_const(x): w = w * x
        else: b.append(enc_term(x, vs))
    return dict(h=enc_term(r.head, vs), b=b, w=enc_weight(w, sr))


def enc_program(p, sr):
    return [enc_rule(r, sr) for r in p]


def enc_sol(p, sr):
    """A solution (a Program of `item += value` rules)"""
    out = []
    for r in p:
        e = enc_rule(r, sr)
        if e['b']: raise Unencodable(f'solution has a symbolic rule {r}')
        out.append(dict(h=e['h'], w=e['w']))
    return out


def dec_term(t, env=None):
    "specification term -> dyna term"
    env = {} if env is None else env
    if t[0] == '?':
        if t[1] not in env: env[t[1]] = Var(t[1])
        return env[t[1]]
    if t[0] == '#': return t[1]
    if t[0].startswith("'s:"): return t[0][3:]
    return Term(t[0], *[dec_term(x, env) for x in t[1:]])


def lifted(text, sr, inputs=None, outputs=None):
    "parse a program and lift its integer constants into the semiring"
    p = Program(text)
    S = SEMIRINGS[sr][0]
    if S is None: return p
    q = Program([r.lift(S) for r in p.rules], inputs=p.inputs, outputs=p.outputs, semiring=S)
    return q


def subterms_const(t, acc):
    "collect the ground subterms; returns whether t is ground"
    if t[0] == '?': return False
    g = True
    if t[0] != '#':
        for x in t[1:]: g = subterms_const(x, acc) and g
    if g: acc.append(t)
    return g


def domain_of(prog, extra=0):
    """constants occurring in argument positions of an encoded program, plus fresh ones"""
    acc = []
    for r in prog:
        for t in [r['h']] + r['b']:
            for x in t[1:] if t[0] not in ('?', '#') else []:
                subterms_const(x, acc)
    out = []
    for x in acc:
        if x not in out: out.append(x)
    return out + [[f'*fresh{i}'] for i in range(extra)]


def functors(prog):
    out = []
    for r in prog:
        for t in [r['h']] + r['b']:
            if t[0] not in ('?', '#', '=', 'is', '<', '<=', '>', '>=', '!=', '$not_matches') and t[0] not in out: out.append(t[0])
    return out
