"""Applying program transformations and recording original/transformed pairs."""
import io, contextlib, warnings
from enc import *
from lib import *
from gen import *


class Refused(Exception):
    pass


def nonconst(p, r):
    return [j for j, x in enumerate(r.body) if not p.is_const(x)]


def plain_items(p, r):
    return [j for j, x in enumerate(r.body) if not p.is_exogenous(x)]


def step(q, kind, rng, ctx):
    """apply one transformation; ctx['drop'] accumulates patterns (terms) of items that the
    transformation does not retain"""
    if kind in ('hook', 'define', 'binarize') and any(q.is_builtin(x) for r in q for x in r.body):
        raise Refused()      # a builtin must stay in the body that binds its variables
    if kind == 'unfold':
        c = [(i, j) for i, r in enumerate(q.rules) for j in range(len(r.body))
             if q.safe_inline(r.body[j]) and not q.is_builtin(r.body[j])]
        if not c: raise Refused()
        return q.unfold(*rng.choice(c))
    if kind == 'unfoldb':       # unfolding a builtin
        c = [(i, j) for i, r in enumerate(q.rules) for j in range(len(r.body)) if q.is_builtin(r.body[j])]
        if not c: raise Refused()
        return q.unfold(*rng.choice(c))
    if kind == 'elim':
        c = [i for i, r in enumerate(q.rules) if not q.is_output(r.head)]
        if not c: raise Refused()
        i = rng.choice(c)
        try: new = q.elim(i)
        except AssertionError: raise Refused()
        ctx['drop'].append(enc_term(q.rules[i].head, VarNames()))
        return new
    if kind == 'linearize': return q.linearize()
    if kind == 'linearize1': return q.linearize(driver=rng.choice(q.rules).head)
    if kind == 'hook':
        c = [(i, nonconst(q, r)) for i, r in enumerate(q.rules) if len(nonconst(q, r)) >= 1]
        if not c: raise Refused()
        i, js = rng.choice(c)
        js = sorted(rng.sample(js, rng.randint(1, len(js))))
        try: return q.hook(i, js)
        except ValueError: raise Refused()
    if kind == 'define':
        r = rng.choice([r for r in q.rules if r.body] or [None])
        if r is None: raise Refused()
        js = rng.sample(range(len(r.body)), rng.randint(1, len(r.body)))
        return q.define([q.loop_absorption(q.rules.index(r), js)])
    if kind == 'binarize':
        try: return q.binarize()
        except ValueError: raise Refused()
    if kind == 'cf': return q.constant_folding()
    if kind == 'rb': return q.run_builtins()
    if kind == 'norm': return q.normalize_unification2()
    if kind == 'snap': return q.snap_unifications()
    if kind == 'fresh': return q.fresh()
    if kind == 'sort': return q.sort()
    if kind == 'spawn': return q.reset_transform_history()
    raise KeyError(kind)


def apply_steps(p, kinds, rng, maxrules=40):
    ctx = dict(drop=[], done=[])
    q = p
    for k in kinds:
        try:
            new = step(q, k, rng, ctx)
        except Refused:
            continue
        if len(new.rules) > maxrules: continue
        q = new
        ctx['done'].append(k)
    return q, ctx


def pair(id, text, srn, p, q, datas, drop=(), keep=(), fns=None, nonground=False, status='ok', extra=None, domitems=False, domx=(), **more):
    """record a case for spec/Equiv.tla"""
    sr = SEMIRINGS[srn][1]
    ep = enc_program(p, srn)
    eq = enc_program(q, srn) if status == 'ok' else []
    ds = [enc_program(lifted(d, srn), srn) for d in datas] if datas else [[]]
    k = extra if extra is not None else (max(1, sr['n']) if sr['k'] == 'sat' else 1)
    if domitems: k = 0
    D = domain_of(ep + eq + [x for d in ds for x in d], extra=k) if nonground or domitems else []
    return dict(id=id, text=text, sr=sr, orig=ep, new=eq, datas=ds, drop=list(drop), keep=list(keep),
                fns=functors(ep) if fns is None else fns, dom=D, domitems=domitems, domx=list(domx), status=status, newtext=plain(q) if q is not None else '', **more)


def plain(q):
    import re
    return re.sub(r'\x1b\[[0-9;]*m', '', str(q))[:1500]
