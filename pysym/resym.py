"""Regular expressions and percent-decoding over symbolic strings.

A compiled pattern is walked with the semantics of the `re` module (first
alternative first, greedy repeats longest first); every test of a symbolic
character is a branch decided by the solver.  Plain strings go to the real
modules."""
import re as _re
import re._constants as C
import re._parser as P
import types
import urllib.parse as _up

import z3

from sym import S

_real_unquote = _up.unquote
ENGINE = [None]


def symbolic(s):
  e = ENGINE[0]
  if e is None or e.replay is not None or not isinstance(s, str):
    return False
  return any(not isinstance(c, int) for c in e.chars(s))


class Match:

  def __init__(self, pat, s, groups, span):
    self.re, self.string, self._g, self._span = pat, s, groups, span

  def _sub(self, k):
    if isinstance(k, str):
      k = self.re.groupindex[k]
    if k == 0:
      return self._span
    return self._g.get(k)

  def group(self, *ks):
    ks = ks or (0,)
    out = tuple(None if self._sub(k) is None else self.string[self._sub(k)[0]:self._sub(k)[1]] for k in ks)
    return out[0] if len(out) == 1 else out

  __getitem__ = group

  def groups(self, default=None):
    return tuple(default if self._sub(k) is None else self.group(k) for k in range(1, self.re.groups + 1))

  def groupdict(self, default=None):
    return {n: default if self._sub(k) is None else self.group(k) for n, k in self.re.groupindex.items()}

  def span(self, k=0): return self._sub(k) or (-1, -1)
  def start(self, k=0): return self.span(k)[0]
  def end(self, k=0): return self.span(k)[1]


class Pattern:

  def __init__(self, real):
    self._real = real
    self.pattern, self.flags, self.groups, self.groupindex = real.pattern, real.flags, real.groups, real.groupindex
    self._tree = None

  def _run(self, s, start, full):
    e = ENGINE[0]
    if not isinstance(s, S):
      s = S(e, e.chars(s))
    if self._tree is None:
      self._tree = list(P.parse(self.pattern, self.flags & ~_re.UNICODE))
    cs = s._c
    if self.flags & _re.IGNORECASE:
      raise NotImplementedError('IGNORECASE')
    for groups, end in _seq(e, cs, self._tree, 0, start, {}):
      if full and end != len(cs):
        continue
      return Match(self, s, groups, (start, end))
    return None

  def fullmatch(self, s): return self._run(s, 0, True) if symbolic(s) else self._real.fullmatch(s)
  def match(self, s, pos=0): return self._run(s, pos, False) if symbolic(s) else self._real.match(s, pos)

  def search(self, s):
    if not symbolic(s):
      return self._real.search(s)
    for i in range(len(s) + 1):
      m = self._run(s, i, False)
      if m:
        return m
    return None

  def __getattr__(self, n):
    return getattr(self._real, n)


def _in(e, c, av):
  """Does the character satisfy the set?"""
  if isinstance(c, int):
    t = lambda f: f
  conds, neg = [], False
  for op, a in av:
    if op is C.NEGATE:
      neg = True
    elif op is C.LITERAL:
      conds.append(c == a)
    elif op is C.RANGE:
      conds.append(a[0] <= c <= a[1] if isinstance(c, int) else z3.And(z3.UGE(c, a[0]), z3.ULE(c, a[1])))
    elif op is C.CATEGORY:
      conds.append(_cat(c, a))
    else:
      raise NotImplementedError(str(op))
  r = any(conds) if isinstance(c, int) else z3.Or([x if not isinstance(x, bool) else z3.BoolVal(x) for x in conds])
  if neg:
    r = (not r) if isinstance(r, bool) else z3.Not(r)
  return e.decide(r)


def _cat(c, a):
  rng = {C.CATEGORY_DIGIT: [(48, 57)], C.CATEGORY_WORD: [(48, 57), (65, 90), (95, 95), (97, 122)], C.CATEGORY_SPACE: [(9, 13), (32, 32)]}
  neg = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE}
  if isinstance(c, int):
    r = any(lo <= c <= hi for lo, hi in rng[neg.get(a, a)])
    return not r if a in neg else r
  r = z3.Or([z3.And(z3.UGE(c, lo), z3.ULE(c, hi)) for lo, hi in rng[neg.get(a, a)]])
  return z3.Not(r) if a in neg else r


def _one(e, c, op, av):
  if op is C.LITERAL:
    return e.decide(c == av)
  if op is C.NOT_LITERAL:
    return e.decide(c != av)
  if op is C.ANY:
    return e.decide(c != 10)
  if op is C.IN:
    return _in(e, c, av)
  return None


def _seq(e, cs, tree, k, i, g):
  if k == len(tree):
    yield g, i
    return
  op, av = tree[k]
  if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
    if i < len(cs) and _one(e, cs[i], op, av):
      yield from _seq(e, cs, tree, k + 1, i + 1, g)
  elif op is C.SUBPATTERN:
    n, _, _, sub = av
    for g2, j in _seq(e, cs, list(sub), 0, i, g):
      yield from _seq(e, cs, tree, k + 1, j, dict(g2, **({}) ) if n is None else {**g2, n: (i, j)})
  elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
    lo, hi, sub = av
    hi = len(cs) if hi is C.MAXREPEAT else hi
    yield from _rep(e, cs, tree, k, i, g, lo, hi, list(sub), 0, op is C.MAX_REPEAT)
  elif op is C.BRANCH:
    for alt in av[1]:
      for g2, j in _seq(e, cs, list(alt), 0, i, g):
        yield from _seq(e, cs, tree, k + 1, j, g2)
  elif op is C.AT:
    ok = {C.AT_BEGINNING: i == 0, C.AT_BEGINNING_STRING: i == 0, C.AT_END_STRING: i == len(cs)}.get(av)
    if av is C.AT_END:
      ok = i == len(cs) or (i == len(cs) - 1 and e.decide(cs[i] == 10))
    if ok is None:
      raise NotImplementedError(str(av))
    if ok:
      yield from _seq(e, cs, tree, k + 1, i, g)
  elif op in (C.ASSERT, C.ASSERT_NOT) and av[0] == 1:
    hit = next(_seq(e, cs, list(av[1]), 0, i, g), None)
    if (hit is not None) == (op is C.ASSERT):
      yield from _seq(e, cs, tree, k + 1, i, g)
  else:
    raise NotImplementedError(str(op))


def _rep(e, cs, tree, k, i, g, lo, hi, sub, n, greedy):
  if not greedy and n >= lo:
    yield from _seq(e, cs, tree, k + 1, i, g)
  if n < hi:
    for g2, j in _seq(e, cs, sub, 0, i, g):
      if j > i or n < lo:
        yield from _rep(e, cs, tree, k, j, g2, lo, hi, sub, n + 1, greedy)
  if greedy and n >= lo:
    yield from _seq(e, cs, tree, k + 1, i, g)


def _compile(p, flags=0):
  if isinstance(p, Pattern):
    return p
  return Pattern(_re.compile(p, flags))


proxy = types.ModuleType('re')
proxy.__dict__.update({k: v for k, v in _re.__dict__.items() if not k.startswith('__')})
proxy.compile = _compile
proxy.fullmatch = lambda p, s, flags=0: _compile(p, flags).fullmatch(s)
proxy.match = lambda p, s, flags=0: _compile(p, flags).match(s)
proxy.search = lambda p, s, flags=0: _compile(p, flags).search(s)
proxy.Pattern, proxy.Match = _re.Pattern, _re.Match


def _hexval(c):
  if isinstance(c, int):
    return int(chr(c), 16)
  return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))


def _ishex(e, c):
  if isinstance(c, int):
    return c < 128 and chr(c) in '0123456789abcdefABCDEF'
  return e.decide(z3.Or([z3.And(z3.UGE(c, lo), z3.ULE(c, hi)) for lo, hi in ((48, 57), (65, 70), (97, 102))]))


def unquote(s, encoding='utf-8', errors='replace'):
  if not symbolic(s):
    return _real_unquote(s, encoding, errors)
  e = ENGINE[0]
  cs = e.chars(s)
  if encoding not in ('utf-8', 'utf8', 'UTF-8', None) or errors not in ('replace', 'strict', None):
    raise NotImplementedError('unquote with %s/%s' % (encoding, errors))
  out, pend, i = [], [], 0  # pend: undecoded bytes

  def flush():
    if pend:
      bs = []
      for b in pend:
        if isinstance(b, int):
          bs.append(b)
          continue
        # Bytes beyond ASCII: two of them stand for the rest.
        v = next((v for v in (0xC3, 0xA9) if e.decide(b == v)), None)
        if v is None:
          from sym import Prune
          raise Prune()
        bs.append(v)
      out.extend(ord(x) for x in bytes(bs).decode('utf-8', errors or 'replace'))
      pend.clear()

  while i < len(cs):
    c = cs[i]
    if e.decide(c == 37) and i + 2 < len(cs) and _ishex(e, cs[i + 1]) and _ishex(e, cs[i + 2]):
      b = _hexval(cs[i + 1]) * 16 + _hexval(cs[i + 2])
      if not isinstance(b, int):
        b = z3.simplify(b)
      i += 3
      if e.decide(z3.UGE(b, 128) if not isinstance(b, int) else b >= 128):
        pend.append(b)
        continue
      flush()
      out.append(b)
      continue
    flush()
    out.append(c)
    i += 1
  flush()
  return S(e, out)


def install(e):
  ENGINE[0] = e
  _up.unquote = unquote
