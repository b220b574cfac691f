"""Contract language: one contract source, two interpretations.

A contract is a Python function contract(E) that builds inputs, calls the public API and states postconditions through E.
  * symrun.SymE  -- the verifier: sizes and values are symbolic, the code of /repo is interpreted from its source,
                    E.ensure generates an obligation that must be proved for all inputs.
  * concrun.ConcE -- the same contract on the running code (real torch), inputs drawn deterministically; used to replay,
                    to search for failing inputs, and to cross-check the extraction."""
import hashlib

CONTRACTS = {}


class Contract:
    def __init__(self, prop, name, fn, **opt):
        self.prop, self.name, self.fn, self.opt = prop, name, fn, opt
        self.id = f"{prop}/{name}"


def contract(prop, name=None, variants=None, **opt):
    """prop: property id; variants: list of keyword dicts (one contract instance each)"""
    def deco(fn):
        base = name or fn.__name__
        for kw0 in (variants or [{}]):
            kw, o = {k: v for k, v in kw0.items() if k != "_bounded"}, dict(opt)
            if kw0.get("_bounded"): o["bounded"] = kw0["_bounded"]
            nm = base + ("[" + ",".join(f"{k}={v}" for k, v in kw.items()) + "]" if kw else "")
            c = Contract(prop, nm, (lambda E, kw=kw: fn(E, **kw)), **o)
            assert c.id not in CONTRACTS, c.id
            CONTRACTS[c.id] = c
        return fn
    return deco


def unit(seed, name, lin):
    h = hashlib.blake2b(f"{seed}|{name}|{lin}".encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0 ** 64


def gen_real(lo=-2.0, hi=2.0, special=(0.0, 1.0, -1.0), p=0.08):
    def g(seed, name, lin):
        if special and unit(seed, name + "?", lin) < p:
            s = [x for x in special if lo <= x <= hi]
            if s: return float(s[int(unit(seed, name + "!", lin) * len(s))])
        return round(lo + (hi - lo) * unit(seed, name, lin), 4)
    return g


def gen_int(lo, hi):
    """lo <= value < hi"""
    def g(seed, name, lin): return lo + int(unit(seed, name, lin) * (hi - lo))
    return g


class Skip(Exception):
    """precondition not met by the generated concrete input"""
