"""C24: concrete syntax (spec/Syntax.tla, SyntaxMC.tla, SyntaxTrace.tla)."""
import random, re, math
from enc import *
from lib import *
from gen import *
from dyna.term import snap, deref
from dyna.rule import Rule
from dyna.pretty import pp
from dyna.syntax import parser
from dyna.syntax import term as parse_term
from c25 import guard

LEVELS = [(['^'], 'R'), (['/', '//', '\\'], 'L'), (['#'], 'L'), (['@'], 'L'), (['*'], 'L'), (['-'], 'L'), (['+'], 'L'), (['<', '<=', '>', '>='], 'C'),
          ([':'], 'L'), (['=='], 'N'), (['!='], 'N'), (['∈'], 'N'), (['=/='], 'N'), (['is', '<-', '<--', '-->', '~>', '->', '<~', '~', '::'], 'R'),
          (['↦'], 'L'), (['=>'], 'R'), (['&'], 'R'), (['|'], 'R'), (['='], 'N'), ([','], 'L'), (['for'], 'R'), (['+='], 'N'), ([':-'], 'N'), ([';'], 'L')]
BIN = [o for ops, _ in LEVELS for o in ops]
PRE = ['!', 'not', '+', '-', '~', '&', '*', '?']
NULL = ['*', '!', '?']
# operators that nothing orders among themselves, except for their place in the table
TIES = [['==', '!=', '∈', '=/='], ['↦', '=>'], ['+=', ':-', ';']]
ALIAS = {'∈': 'in', '↦': 'maps'}
NAMES = ['a', 'b', 'f x', 'A', 'not', 'is', 'for', 'true', 'false', 'inf', '$x', '$$x', '_x', "a'", '"q', 'x"', '50%', 'p.q', 'X', '1', '-', '∞', 'µ', 'α', 'α₁', 'infx', 'isa', 'notx', 'forx', 'truex', 'e1', 'input', 'inputs', '♦', 'é', 'x y']
STRINGS = ['s', '', 'two words', "it's", 'say "hi"', '"', 'b\\s', '%', 'a.b', '. ', 'é', 'X', "'"]
NUMBERS = [0, 1, -1, 2, 10, 2.5, -0.5, 1e-7, 1e22, 1.0, math.inf, 3.0]
VARS = ['X', 'Y', 'Z', "X'", '$X1', 'X_1', 'Αβ', '$Gen3', '$$X', 'X"']


def key(x):
    "Canonical name of a constant."
    if isinstance(x, bool): return f'bool:{x}'
    if isinstance(x, int): return f'int:{x}'
    if isinstance(x, float): return f'float:{x!r}'
    if isinstance(x, str): return f'str:{x}'
    raise Unencodable(repr(x))


def safe(s): return ''.join(c if 32 <= ord(c) < 127 and c not in '\\|' else f'<{ord(c):x}>' for c in s)   # nothing that upsets the reporting
def opname(o): return safe(ALIAS.get(o, o)) if o not in BIN + PRE else ALIAS.get(o, o)


def tree(x, names=None):
    "Encode a term as a tree of spec/Syntax.tla."
    if names is None: names = {}
    x = snap(x)
    if isinstance(x, Var): return ['v', f'v{names.setdefault(id(x), len(names))}', []]
    if isinstance(x, Rule): return ['t', '%rule', [tree(y, names) for y in (x.head, *x.body)]]
    if isinstance(x, Term):
        f = snap(x.fn)
        if not isinstance(f, str): return ['t', f'%{type(f).__name__}', [tree(y, names) for y in x.args]]
        return ['t', opname(str(f)), [tree(y, names) for y in x.args]]
    return ['c', safe(key(x)), []]


FAILED = ['fail', '', []]


# --- texts made of tokens -----------------------------------------------------

class Toks:
    "Random token sequences, most of which are well formed."
    def __init__(self, r):
        self.r = r
        drop = set()
        for t in TIES:
            keep = r.choice(t)
            drop |= {o for o in t if o != keep}
        self.bin = [o for o in BIN if o not in drop]

    def atom(self):
        r, k = self.r, self.r.random()
        if k < .35: return [('v', r.choice('XYZ'))]
        if k < .55:
            x = r.choice(NUMBERS + STRINGS + [True, False])
            if isinstance(x, (int, float)) and not isinstance(x, bool) and x < 0: x = -x
            return [('c', x)]
        return [('n', r.choice(NAMES + ['a', 'b', 'c'] * 10))]

    def arg(self, d):
        if self.r.random() < .06: return [('o', self.r.choice(NULL))]
        return self.expr(d, 'arg')

    def expr(self, d, ctx='top'):
        r, k = self.r, self.r.random()
        if d <= 0 or k < .15: return self.atom()
        if k < .25:
            n = r.choice([0, 1, 2, 2, 3])
            out = [('n', r.choice(NAMES + ['f', 'g', 'p'] * 8)), ('p', '(')]
            for i in range(n): out += [('p', ',')] * (i > 0) + self.arg(d - 1)
            return out + [('p', ')')]
        if k < .34:
            n = r.choice([0, 1, 2, 3])
            out = [('p', '[')]
            for i in range(n): out += [('p', ',')] * (i > 0) + self.expr(d - 1, 'list')
            if n and r.random() < .4: out += [('p', '|')] + self.expr(d - 1, 'list')
            return out + [('p', ']')]
        if k < .46: return [('o', r.choice(PRE))] + self.expr(d - 1, ctx)
        if k < .5: return self.expr(d - 1, ctx) + [('o', '!')]
        if k < .66: return [('p', '(')] + self.expr(d - 1, 'top') + [('p', ')')]
        ops = [o for o in self.bin if not (ctx != 'top' and o == ',') and not (ctx == 'list' and o == '|')]
        out = self.expr(d - 1, ctx)
        for _ in range(r.choice([1, 1, 2, 3])):
            out = out + [('o', r.choice(ops))] + self.expr(d - 2, ctx)
        return out


def plain_name(x):
    return re.fullmatch(r"\$?[a-zα-ω][a-zA-Z0-9_'$\"₀-₉]*", x) and x not in ('true', 'false', 'inf', 'not', 'is', 'for')


def show_token(t, r):
    k, x = t
    if k == 'c':
        if isinstance(x, bool): return str(x).lower()
        if isinstance(x, str): return '"' + x.replace('"', '\\"') + '"'
        if x == math.inf: return r.choice(['inf', '∞'])
        return repr(x)
    if k == 'n' and (not plain_name(x) or "'" not in x and r.random() < .1): return f"'{x}'"
    return x


def enc_token(t):
    k, x = t
    return [k, safe(key(x)) if k == 'c' else opname(x) if k == 'n' else ALIAS.get(x, x)]


def strict(ts):
    "Numbers followed by a full stop, names with a quote in them, etc., need care."
    return all(not (t[0] == 'n' and "'" in t[1] and not plain_name(t[1])) for t in ts)


def parse_case(a):
    id, seed = a
    r = random.Random(seed)
    ts = Toks(r).expr(r.choice([1, 2, 2, 3, 3]))
    if r.random() < .12 and len(ts) > 1:       # something wrong with it
        j = r.randrange(len(ts))
        ts = r.choice([ts[:j] + ts[j + 1:], ts[:j] + [ts[j]] + ts[j:], ts[:j] + [('p', r.choice('()[]'))] + ts[j:]])
    c = {'id': id, 'kind': 'parse', 'status': 'ok', 'tokens': [enc_token(t) for t in ts]}
    text, tight, wide = '', r.random() < .5, r.random() < .3
    for t, u in zip(ts, ts[1:] + [None]):
        text += show_token(t, r)
        if u and not (tight and (t[0] == 'p' and t[1] in '()[]' or u[0] == 'p' and u[1] in '()[]')): text += '  ' if wide else ' '
    c['text'] = text
    if not strict(ts) or len(ts) > 40: c['status'] = 'skip'; return c
    from dyna.exceptions import DynaParserException
    with guard(c, 10):
        try: c['got'] = tree(parse_term(text))
        except DynaParserException: c['got'] = FAILED
    return c


def pair_cases():
    "Every two operators next to one another."
    for o in BIN:
        for q in BIN:
            if any(o in t and q in t and o != q for t in TIES): continue
            yield o + ' ' + q, [('n', 'a'), ('o', o), ('n', 'b'), ('o', q), ('n', 'c')]
        for q in PRE:
            yield o + ' ' + q, [('o', q), ('n', 'a'), ('o', o), ('n', 'b')]
            yield o + ' ' + q, [('n', 'a'), ('o', o), ('o', q), ('n', 'b')]
        yield o + ' !', [('n', 'a'), ('o', o), ('n', 'b'), ('o', '!')]
    for o in PRE:
        for q in PRE: yield o + ' ' + q, [('o', o), ('o', q), ('n', 'a')]
        yield o + ' !', [('o', o), ('n', 'a'), ('o', '!')]


def pair_case(a):
    from dyna.exceptions import DynaParserException
    name, ts = a
    c = {'id': 'ops ' + ' '.join(safe(t[1]) for t in ts), 'kind': 'parse', 'strict': len([t for t in ts if t[0] == 'n']) == 3, 'status': 'ok', 'tokens': [enc_token(t) for t in ts]}
    c['text'] = ' '.join(t[1] for t in ts)
    with guard(c, 10):
        try: c['got'] = tree(parse_term(c['text']))
        except DynaParserException: c['got'] = FAILED
    return c


def reading_case(a):
    "A program made of texts of rules, with comments and white space among them."
    id, seed = a
    r = random.Random(seed)
    T = Toks(r)
    c = {'id': id, 'kind': 'reading', 'status': 'ok', 'segments': [], 'got': []}
    text = ''
    for _ in range(r.choice([1, 2, 3])):
        agg = r.choice(['+=', '+=', ':-', ''])
        def sub(): return T.expr(r.choice([0, 1, 1, 2]), 'arg')
        ts = sub()
        if agg:
            ts.append(('o', agg))
            body = []
            for k in range(r.choice([1, 1, 2, 3])): body += ([('o', r.choice([',', '*', '*', ','] + ['for'] * (k == 1)))] if k else []) + sub()
            if r.random() < .2: body = [('p', '('), *body, ('p', ')')]
            ts += body
        if any(t[1] in ('+=', ':-', ';') for t in ts if t != ('o', agg)) or not strict(ts) or len(ts) > 40: c['status'] = 'skip'; return c
        gap = lambda: r.choice([' ', ' ', '\n', '\t ', ' %s\n' % r.choice(['% note', '% a += b.', '%', "% it's", '% "']), '  \n\n'])
        text += gap()
        for t, u in zip(ts, ts[1:] + [None]):
            text += show_token(t, r)
            if u: text += gap() if r.random() < .1 else ' '
        text += r.choice(['.', ' .', '\n.']) + r.choice([' ', '\n'])
        c['segments'].append([enc_token(t) for t in ts])
    c['text'] = text
    from dyna.exceptions import DynaParserException
    with guard(c, 10):
        try: c['got'] = [tree(x) for x in Program(text)]
        except DynaParserException: c['got'] = []
    return c


# --- trees made of terms ------------------------------------------------------

class Trees:
    def __init__(self, r, names=VARS):
        self.r = r
        self.vs = {}
        self.names = r.sample(names, 4)

    def var(self):
        v = self.r.choice(self.names)
        k = (v, self.r.random() < .15)         # distinct variables may have the same name
        if k not in self.vs: self.vs[k] = Var(v)
        return self.vs[k]

    def leaf(self):
        r, k = self.r, self.r.random()
        if k < .3: return self.var()
        if k < .6: return r.choice(NUMBERS + STRINGS + [True, False])
        if k < .65: return Term(r.choice(NULL))
        if k < .7: return Term('$nil')
        return Term(self.name(0))

    def name(self, n):
        x = self.r.choice(NAMES + ['f', 'g'] * 15)
        return x if "'" not in x or plain_name(x) else 'f'

    def gen(self, d):
        r, k = self.r, self.r.random()
        if d <= 0 or k < .12: return self.leaf()
        if k < .56: return Term(r.choice([o for o in BIN if o != 'for'] + ['!', 'for']), self.gen(d - 1), self.gen(d - 1))
        if k < .7: return Term(r.choice(PRE), self.gen(d - 1))
        if k < .86:
            n = r.choice([1, 1, 2, 2, 3])
            return Term(r.choice([self.name(n), self.name(n), r.choice(BIN + PRE + ['$cons', '$nil'])]), *[self.gen(d - 1) for _ in range(n)])
        y = r.choice([Term('$nil'), Term('$nil'), self.var(), self.gen(d - 1)])
        for _ in range(r.randint(1, 3)): y = Term('$cons', self.gen(d - 1), y)
        return y


NAME1 = r"\$?[a-zαβγδεζηθικλμνξοπρστυφχψω∂][a-zA-Z0-9_'\"$αβγδεζηθικλμνξοπρστυφχψω∂ΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ₀₁₂₃₄₅₆₇₈₉]*"
LEX = re.compile(r"""\s*(?:(?P<s>"(?:[^"\\]|\\.)*")|(?P<q>'[^']+')|(?P<f>(?<![\w)\]'"])[-+]?(?:\d*\.\d+(?:e[-+]?\d+)?|\d+e[-+]?\d+))|(?P<i>(?<![\w)\]'"])[-+]?\d+)"""
                 r"|(?P<v>\$*[A-ZΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ][\w'\"₀-₉]*)|(?P<n>" + NAME1 + r")"
                 r"|(?P<o>" + '|'.join(re.escape(o) for o in sorted(set(BIN + PRE), key=len, reverse=True) if not o.isalpha()) + r"|∞)|(?P<p>[()\[\]]))")


def split(text):
    "Tokens of a printed text (written independently of the parser's lexer); [] where this simple splitter is not sure."
    out, i, depth = [], 0, []
    vs = {}
    if '\\' in text.replace('\\"', ''):
        if '"' in text and re.search(r'"[^"]*\\(?!")', text): return []
    while i < len(text.rstrip()):
        m = LEX.match(text, i)
        if not m: return []
        k, x = m.lastgroup, m.group(m.lastgroup)
        prev = out[-1] if out else None
        if k in 'fi' and prev and (prev[0] in 'cvn' or prev == ['p', ')'] or prev == ['p', ']']):
            return []
        i = m.end()
        if k == 's': out.append(['c', safe(key(x[1:-1].replace('\\"', '"')))])
        elif k == 'q': out.append(['n', opname(x[1:-1])])
        elif k == 'f': out.append(['c', key(float(x))])
        elif k == 'i': out.append(['c', key(int(x))])
        elif k == 'v': out.append(['v', f'v{vs.setdefault(x, len(vs))}'])
        elif k == 'n':
            if x in ('true', 'false'): out.append(['c', key(x == 'true')])
            elif x == 'inf': out.append(['c', key(math.inf)])
            elif x in ('not', 'is', 'for'): out.append(['o', x])
            else: out.append(['n', opname(x)])
        elif k == 'p':
            if x in '([': depth.append((x, bool(prev) and prev[0] == 'n' and text[m.start('p') - 1] != ' '))
            elif depth: depth.pop()
            out.append(['p', x])
        elif x == '∞': out.append(['c', key(math.inf)])
        elif x == ',' and depth and (depth[-1][0] == '[' or depth[-1][1]): out.append(['p', ','])
        elif x == '|' and depth and depth[-1][0] == '[': out.append(['p', '|'])
        else: out.append(['o', ALIAS.get(x, x)])
    return out


def round_case(a):
    id, seed = a
    r = random.Random(seed)
    t = Trees(r).gen(r.choice([1, 2, 2, 3, 4]))
    return show_term(id, t)


def show_term(id, t):
    c = {'id': id, 'kind': 'round', 'status': 'ok', 'tree': tree(t)}
    with guard(c, 10):
        c['text'] = pp(t, color=False)
        c['tokens'] = split(c['text'])
        c['again'] = tree(parse_term(c['text']))
    return c


def all_terms(_=None):
    "Every combination of two operators, in every context."
    A, X = Term('a'), Var('X')
    ones = [Term(o, A, X) for o in BIN + ['!', 'for']] + [Term(o, X) for o in PRE] + [Term('f', A, X), Term('$cons', A, X), Term('$cons', A, Term('$nil')), *map(Term, NULL), -1, 1, 2.5, True, 's', Term('A')]
    for x in ones:
        yield x
        for o in BIN + ['!', 'for']: yield from [Term(o, x, A), Term(o, A, x)]
        for o in PRE: yield Term(o, x)
        yield from [Term('f', x), Term('f', A, x), Term('$cons', x, Term('$nil')), Term('$cons', A, x), Term('$cons', A, Term('$cons', x, X)), Term('not', x, x), Term('f', x, x)]


# --- rules and programs -------------------------------------------------------

def rule(r, T=None):
    T = T or Trees(r)
    def subgoal():
        while True:
            x = T.gen(r.choice([0, 1, 1, 2]))
            # a product or a conjunction is taken apart by the parser: its parts are the subgoals
            if not (isinstance(x, Term) and x.fn in ('*', ',')): return x
    def head():
        while True:
            x = T.gen(r.choice([0, 1, 1, 2]))
            if isinstance(x, Term) and x.fn not in ('+=', ':-', '$declare') or isinstance(x, Var) and r.random() < .2: return x
    return Rule(head(), *[subgoal() for _ in range(r.choice([0, 0, 1, 1, 2, 3]))])


def program_case(a):
    id, seed = a
    r = random.Random(seed)
    c = {'id': id, 'kind': 'program', 'status': 'ok'}
    rs = [rule(r) for _ in range(r.choice([0, 1, 2, 4]))]
    def types():
        def simple():
            while True:
                x = Trees(r).gen(r.choice([0, 1, 1]))
                if isinstance(x, Term) and x.fn not in (';', '+=', ':-'): return x
        return [Rule(simple(), *[y for y in ([rule(r).body] if r.random() < .25 else [()])[0]]) for _ in range(r.choice([0, 0, 1, 2]))]
    i, o = types(), types()
    with guard(c, 10):
        p = Program(rs, inputs=Program(i) if i or o else None, outputs=Program(o) if i or o else None)
        c['text'] = p.plaintext()
        q = Program(c['text'])
        enc = lambda rs: [tree(x) for x in rs or []]
        c.update(rules=enc(p), inputs=enc(p.inputs), outputs=enc(p.outputs),
                 again={'rules': enc(q), 'inputs': enc(q.inputs), 'outputs': enc(q.outputs)})
    return c


def distinct_case(a):
    "Small changes to a rule must show."
    id, seed = a
    r = random.Random(seed)
    c = {'id': id, 'kind': 'distinct', 'status': 'ok'}
    T = Trees(r)
    x = rule(r, T)
    def change(t):
        t = snap(t)
        if isinstance(t, Rule):
            xs = [t.head, *t.body]; j = r.randrange(len(xs)); xs[j] = change(xs[j]); return Rule(*xs)
        if isinstance(t, Term) and t.args and r.random() < .6:
            xs = list(t.args); j = r.randrange(len(xs)); xs[j] = change(xs[j]); return Term(t.fn, *xs)
        if isinstance(t, Term) and len(t.args) == 2:
            a, b = t.args
            k = r.random()
            if k < .4 and isinstance(a, Term) and len(a.args) == 2: return Term(a.fn, a.args[0], Term(t.fn, a.args[1], b))
            if k < .8 and isinstance(b, Term) and len(b.args) == 2: return Term(b.fn, Term(t.fn, a, b.args[0]), b.args[1])
            return Term(t.fn, b, a)
        if isinstance(t, (int, float)) and not isinstance(t, bool): return r.choice([str(t), Term(str(t)), Term('-', abs(t)), Term('+', t), t + 1])
        if isinstance(t, bool): return r.choice([str(t).lower(), Term(str(t).lower()), not t])
        if isinstance(t, str): return r.choice([Term(t or 'e'), t + '"', t + ' '])
        if isinstance(t, Var): return r.choice([T.var(), Var(t.name), Term(t.name)])
        if isinstance(t, Term) and not t.args: return r.choice([t.fn, Term(t.fn + "x"), Var('X')])
        return T.leaf()
    xs = [x]
    for _ in range(5): xs.append(change(r.choice(xs)))
    with guard(c, 10):
        c['trees'] = [tree(x) for x in xs]
        c['texts'] = [safe(pp(x, color=False)) for x in xs]
    return c


def run(chk):
    pre = 'CONSTANT Bin = {"^", "-", "/", "//", "->", "<-", "==", "&", ","}\nCONSTANT Pre = {"!", "not", "-"}\n'
    model_check(chk, 'SyntaxMC', ['TypeOK', 'RoundTrip', 'MachineAgrees', 'Minimal'], spec='Spec', extra=pre + f'CONSTANT Depth = {2 if not THOROUGH else 3}\n')
    k = 1 if not THOROUGH else 15
    cases = []
    for fn, tag, n in [(parse_case, 'p', 5000), (round_case, 'r', 5000), (program_case, 'g', 2000), (distinct_case, 'd', 1500), (reading_case, 'x', 3000)]:
        cs = pmap(fn, [(f'{tag}{SEED}-{j}', f'{tag}{SEED}-{j}') for j in range(n * k)], chunksize=50)
        skipped = sum(1 for c in cs if c['status'] == 'skip')
        chk.note(f'{tag} skipped', skipped)
        assert skipped < len(cs) / 2
        cases += [c for c in cs if c['status'] != 'skip']
    cases += pmap(pair_case, list(pair_cases()), chunksize=50)
    cases += [show_term(f'pair-{j}', t) for j, t in enumerate(all_terms())]
    chk.note('printed texts also split independently', sum(1 for c in cases if c['kind'] == 'round' and c.get('tokens')))
    for j in range(0, len(cases), 5000):
        chk.judge('SyntaxTrace', cases[j:j + 5000], lambda c: c['id'], samples='cases')
