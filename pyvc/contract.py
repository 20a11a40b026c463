"""Contract registry."""
import ast
from . import types as T
from .theory import _split_types

CONTRACTS = {}     # qual -> [Contract,...] (variants)
CLASSES = {}       # class qual -> ClassSpec
GLOBALS = {}       # qual 'module:NAME' -> GlobalSpec


class Loop:
    def __init__(self, inv=(), pre=(), head=(), end=(), exit=(), dec=None, ghost=(), brk=()):
        self.inv, self.pre, self.head, self.end, self.exit, self.dec = list(inv), list(pre), list(head), list(end), list(exit), dec
        self.ghost, self.brk = list(ghost), list(brk)


class Contract:
    pass


def parse_params(s):
    ps = []
    for p in _split_types(s):
        if not p:
            continue
        n, t = p.split(':', 1)
        d = None
        if '=' in t:
            t, d = t.split('=', 1)
        ps.append((n.strip(), T.parse(t.strip()), d and d.strip()))
    return ps


def C(qual, sig, variant='', requires=(), ensures=(), raises=(), loops=None, entry=(), exit=(), uses=(),
      dec=None, modifies=(), trusted=None, locals=None, ghosts=None, each=(), inline=(), at=None, timeout=None,
      props=(), yields=None, types=None, exc_exit=(), globals_=None, defs=None, note='', after=None, nonneg=()):
    c = Contract()
    c.qual = qual if qual.startswith('rosemary') else 'rosemary.' + qual
    a, r = sig.rsplit('->', 1)
    c.params = parse_params(a)
    c.ret = T.parse(r.strip())
    c.variant = variant
    c.requires, c.ensures = list(requires), list(ensures)
    c.raises = list(raises)             # [(exc name, condition over entry values)]
    c.loops = loops or {}
    c.entry, c.exit = list(entry), list(exit)
    c.uses = list(uses)
    c.exc_exit = list(exc_exit)
    c.dec = dec
    c.modifies = list(modifies)
    c.trusted = trusted                 # reason string: contract assumed, not proved
    c.locals = {k: T.parse(v) for k, v in (locals or {}).items()}
    c.ghosts = ghosts or {}
    c.each = list(each)
    c.inline = set(inline)
    c.timeout = timeout
    c.types = types or {}
    c.after = after or {}
    c.note = note
    c.name = c.qual.replace('rosemary.', '').replace('number_theory.', '') + ('#' + variant if variant else '')
    CONTRACTS.setdefault(c.qual, []).append(c)
    return c


class ClassSpec:
    """fields: name -> type; inv: list of spec strings over `self`"""

    def __init__(self, qual, fields, inv=(), ghosts=()):
        self.qual = qual if qual.startswith('rosemary') else 'rosemary.' + qual
        self.fields = {k: T.parse(v) for k, v in fields.items()}
        self.inv = list(inv)
        self.name = self.qual.split(':')[1]
        CLASSES[self.name] = self
        CLASSES[self.qual] = self


class GlobalSpec:
    def __init__(self, qual, ty, facts, why, check):
        self.check = check            # python source: True when the real constant satisfies the facts
        self.qual = 'rosemary.' + qual
        self.ty = T.parse(ty)
        self.facts = list(facts)
        self.why = why
        GLOBALS[self.qual] = self
