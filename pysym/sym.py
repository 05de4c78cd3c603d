"""Symbolic execution of Python sources by re-execution.

The code under test runs in the ordinary interpreter on proxy values.  A branch
on a proxy asks Z3 which outcomes the path condition allows; the first allowed
one is taken and the other is queued, and the harness is run again for it until
no outcome is left.  Assertions are decided by Z3 for every value left by the
path condition.  In replay mode the same harness runs on concrete values.
"""
import sys
import time

import z3

TOKEN = 0xF0000  # private-use code points stand for symbolic characters
CH = 21  # width of a character


class Prune(BaseException):
  """The path is outside the harness's assumptions."""


class Stop(BaseException):
  """The path ends here (a violation was recorded)."""


class Limit(BaseException):
  pass


class Engine:

  def __init__(self, timeout=600, max_paths=10**9, replay=None, params=None, max_violations=3):
    self.replay = replay  # name -> value, or None
    self.params = params or {}
    self.deadline = time.time() + timeout
    self.max_paths = max_paths
    self.max_violations = max_violations
    self.work = [[]]
    self.stats = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, asserts=0, proved=0, concrete=0, assumed_out=0, states=0, max_query_s=0.0)
    self.violations = []
    self.reach = {}
    self.asserted = {}
    self.samples = []
    self.incomplete = {}
    self.lines = {}

  # ---- path control
  def begin(self, prefix):
    self.prefix, self.pos, self.trace = prefix, 0, []
    self.solver = z3.Solver()
    self.solver.set('timeout', 20000)
    self.model = None
    self.vars = []  # (name, kind, term)
    self.names = {}
    self.tokens = []  # symbolic characters of this path
    self.keys = []  # (characters, hash) of every string hashed so far
    self.threads = None

  def query(self, *extra):
    t = time.time()
    r = self.solver.check(*extra)
    dt = time.time() - t
    s = self.stats
    s['queries'] += 1
    s['solver_s'] += dt
    s['max_query_s'] = max(s['max_query_s'], dt)
    s['sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'] += 1
    return r

  def holds_in_model(self, c):
    if self.model is None:
      return None
    v = self.model.eval(c, model_completion=True)
    return True if z3.is_true(v) else False if z3.is_false(v) else None

  def fresh(self, name):
    k = self.names.get(name, 0)
    self.names[name] = k + 1
    return name if k == 0 else '%s#%d' % (name, k)

  def decide(self, c):
    if isinstance(c, bool):
      return c
    c = z3.simplify(c)
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    if self.pos < len(self.prefix):
      v = self.prefix[self.pos]
      self.pos += 1
      self.trace.append(v)
      self.solver.add(c if v else z3.Not(c))
      self.model = None
      return v
    if time.time() > self.deadline:
      raise Limit()
    can = {}
    m = self.holds_in_model(c)
    for v in (True, False):
      if m is v:
        can[v] = (True, self.model)
        continue
      r = self.query(c if v else z3.Not(c))
      if r == z3.unknown:
        self.incomplete['solver gave up'] = self.incomplete.get('solver gave up', 0) + 1
      can[v] = (r == z3.sat, self.solver.model() if r == z3.sat else None)
    if can[True][0] and can[False][0]:
      self.stats['forks'] += 1
      self.work.append(self.trace + [False])
      v = True
    elif can[True][0]:
      v = True
    elif can[False][0]:
      v = False
    else:
      raise Prune()
    self.pos += 1
    self.prefix = self.prefix + [v]
    self.trace.append(v)
    self.solver.add(c if v else z3.Not(c))
    self.model = can[v][1]
    return v

  def choice(self, n, name='choice'):
    """One of 0..n-1, all explored."""
    name = self.fresh(name)
    if self.replay is not None:
      return int(self.replay.get(name, 0))
    if n == 1:
      self.vars.append((name, 'choice', 0))
      return 0
    if self.pos < len(self.prefix):
      v = self.prefix[self.pos]
    else:
      if time.time() > self.deadline:
        raise Limit()
      for k in range(n - 1, 0, -1):
        self.work.append(self.trace + [('c', k)])
        self.stats['forks'] += 1
      v = ('c', 0)
      self.prefix = self.prefix + [v]
    self.pos += 1
    self.trace.append(v)
    self.vars.append((name, 'choice', v[1]))
    return v[1]

  def assume(self, c):
    if isinstance(c, bool) or self.replay is not None:
      if not c:
        raise Prune()
      return
    self.solver.add(c)
    if self.holds_in_model(c) is not True:
      r = self.query()
      if r != z3.sat:
        raise Prune()
      self.model = self.solver.model()

  def values(self, model):
    out = {}
    for name, kind, t in self.vars:
      if kind == 'choice':
        out[name] = t
      elif kind == 'int':
        out[name] = model.eval(t, model_completion=True).as_signed_long()
      else:  # list of characters or bytes
        out[name] = [c if isinstance(c, int) else model.eval(c, model_completion=True).as_long() for c in t]
    return out

  def violation(self, msg, model):
    self.violations.append(dict(msg=msg, values=self.values(model) if model is not None else dict(self.replay or {})))
    raise Stop()

  def check(self, c, msg):
    """Assertion: must hold for every value left by the path condition."""
    self.asserted[msg] = self.asserted.get(msg, 0) + 1
    self.stats['asserts'] += 1
    if isinstance(c, z3.ExprRef):
      c = z3.simplify(c)
      if z3.is_true(c):
        c = True
      elif z3.is_false(c):
        c = False
    if isinstance(c, bool):
      self.stats['concrete'] += 1
      if c:
        return
      if self.replay is not None:
        self.violation(msg, None)
      r = self.query()
      if r == z3.sat:
        self.violation(msg, self.solver.model())
      raise Prune()
    r = self.query(z3.Not(c))
    if r == z3.sat:
      self.violation(msg, self.solver.model())
    if r == z3.unknown:
      self.incomplete['solver gave up'] = self.incomplete.get('solver gave up', 0) + 1
    self.stats['proved'] += 1

  def fail(self, msg):
    self.check(False, msg)

  def reached(self, label):
    self.reach[label] = self.reach.get(label, 0) + 1

  # ---- inputs
  def int(self, lo, hi, name='int', width=32):
    name = self.fresh(name)
    if self.replay is not None:
      return int(self.replay.get(name, lo))
    t = z3.BitVec(name, width)
    self.vars.append((name, 'int', t))
    self.solver.add(t >= lo, t <= hi)
    self.model = None
    return I(self, t)

  def str(self, n, name='s', lo=0, hi=0x7f):
    name = self.fresh(name)
    if self.replay is not None:
      return ''.join(chr(c) for c in self.replay.get(name, []))
    cs = [z3.BitVec('%s[%d]' % (name, i), CH) for i in range(n)]
    self.vars.append((name, 'str', cs))
    for c in cs:
      self.solver.add(z3.UGE(c, lo), z3.ULE(c, hi))
    self.model = None
    return S(self, cs)

  def bytes(self, n, name='b'):
    name = self.fresh(name)
    if self.replay is not None:
      return bytes(self.replay.get(name, []))
    bs = [z3.BitVec('%s[%d]' % (name, i), 8) for i in range(n)]
    self.vars.append((name, 'bytes', bs))
    return B(self, bs)

  # ---- strings
  def chars(self, s):
    """The characters of a string, symbolic ones as terms."""
    if isinstance(s, S):
      return s._c
    s = str.__str__(s)
    out = []
    for ch in s:
      o = ord(ch)
      out.append(self.tokens[o - TOKEN] if TOKEN <= o < TOKEN + len(self.tokens) else o)
    return out

  def same(self, a, b):
    """a == b for strings or bytes, as a condition."""
    if isinstance(a, (bytes, bytearray)):
      if not isinstance(b, (bytes, bytearray)):
        return False
      x, y = bvals(a), bvals(b)
    else:
      if not isinstance(a, str) or not isinstance(b, str):
        return False
      x, y = self.chars(a), self.chars(b)
    if len(x) != len(y):
      return False
    conds = []
    for p, q in zip(x, y):
      if isinstance(p, int) and isinstance(q, int):
        if p != q:
          return False
      else:
        conds.append(p == q)
    return z3.And(conds) if conds else True

  def hash_of(self, s):
    """A hash that agrees for strings that are equal on this path."""
    cs = s._c
    for other, h in self.keys:
      if other is cs:
        return h
    for other, h in self.keys:
      if len(other) == len(cs) and self.decide(self.same(s, S(self, other))):
        self.keys.append((cs, h))
        return h
    h = hash(('symbolic', len(self.keys)))
    self.keys.append((cs, h))
    return h

  def know(self, s):
    """Registers a concrete string a symbolic one may turn out to equal."""
    if self.replay is None:
      cs = [ord(c) for c in s]
      for other, _ in self.keys:  # it is new: no earlier string equals it
        if len(other) == len(cs) and not all(isinstance(c, int) for c in other):
          self.assume(z3.Not(z3.And([a == b for a, b in zip(other, cs)])))
      self.keys.append((cs, hash(s)))
    return s


def bvals(b):
  return b._b if isinstance(b, B) else list(bytes(b))


class I:
  """A symbolic integer."""
  __slots__ = ('e', 't')

  def __init__(self, e, t):
    self.e, self.t = e, t

  def _o(self, o):
    return o.t if isinstance(o, I) else o if isinstance(o, int) else None

  def _cmp(self, o, f):
    o = self._o(o)
    return NotImplemented if o is None else Bool(self.e, f(self.t, o))

  def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
  def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
  def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
  def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
  def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
  def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
  def __add__(self, o): return I(self.e, self.t + self._o(o))
  __radd__ = __add__
  def __sub__(self, o): return I(self.e, self.t - self._o(o))
  def __rsub__(self, o): return I(self.e, self._o(o) - self.t)
  def __mul__(self, o): return I(self.e, self.t * self._o(o))
  __rmul__ = __mul__
  def __neg__(self): return I(self.e, -self.t)
  def __bool__(self): return self.e.decide(self.t != 0)
  def __hash__(self): return hash(int(self))
  def __int__(self): return self.__index__()

  def __index__(self):
    # Every value in turn (used as a count or index).
    v = z3.simplify(self.t)
    if z3.is_bv_value(v):
      return v.as_signed_long()
    while True:
      if self.e.query() != z3.sat:
        raise Prune()
      k = self.e.solver.model().eval(self.t, model_completion=True).as_signed_long()
      if self.e.decide(self.t == k):
        return k

  def __repr__(self): return '<symbolic int>'


class Bool:
  __slots__ = ('e', 't')

  def __init__(self, e, t):
    self.e, self.t = e, t

  def __bool__(self):
    return self.e.decide(self.t)


class S(str):
  """A string of known length whose characters may be symbolic."""

  def __new__(cls, e, cs):
    out = []
    for c in cs:
      if isinstance(c, int):
        out.append(chr(c))
      else:
        for i, t in enumerate(e.tokens):
          if t is c:
            out.append(chr(TOKEN + i))
            break
        else:
          e.tokens.append(c)
          out.append(chr(TOKEN + len(e.tokens) - 1))
    s = str.__new__(cls, ''.join(out))
    s._e, s._c = e, list(cs)
    return s

  def __eq__(self, o):
    if not isinstance(o, str):
      return NotImplemented
    return self._e.decide(self._e.same(self, o))

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else not r

  def __hash__(self):
    if all(isinstance(c, int) for c in self._c):
      return hash(''.join(map(chr, self._c)))
    return self._e.hash_of(self)

  def __getitem__(self, k):
    r = self._c[k]
    return S(self._e, r if isinstance(k, slice) else [r])

  def __iter__(self):
    return iter([S(self._e, [c]) for c in self._c])

  def __add__(self, o):
    return S(self._e, self._c + self._e.chars(o)) if isinstance(o, str) else NotImplemented

  def __radd__(self, o):
    return S(self._e, self._e.chars(o) + self._c) if isinstance(o, str) else NotImplemented

  def __str__(self): return self

  def startswith(self, p, *r):
    assert not r
    if isinstance(p, tuple):
      return any(self.startswith(x) for x in p)
    n = len(p)
    return n <= len(self._c) and self._e.decide(self._e.same(S(self._e, self._c[:n]), p))

  def endswith(self, p, *r):
    assert not r
    n = len(p)
    return n <= len(self._c) and self._e.decide(self._e.same(S(self._e, self._c[len(self._c) - n:]), p))

  def find(self, p, start=0, end=None):
    n = len(p)
    end = len(self._c) if end is None else min(end, len(self._c))
    for i in range(start, end - n + 1):
      if self._e.decide(self._e.same(S(self._e, self._c[i:i + n]), p)):
        return i
    return -1

  def index(self, p, *r):
    i = self.find(p, *r)
    if i < 0:
      raise ValueError('substring not found')
    return i

  def rfind(self, p):
    n = len(p)
    for i in range(len(self._c) - n, -1, -1):
      if self._e.decide(self._e.same(S(self._e, self._c[i:i + n]), p)):
        return i
    return -1

  def __contains__(self, p): return self.find(p) >= 0

  def count(self, p):
    n, i = 0, 0
    while True:
      i = self.find(p, i)
      if i < 0:
        return n
      n, i = n + 1, i + max(1, len(p))

  def split(self, sep=None, maxsplit=-1):
    assert sep is not None
    out, rest = [], self
    while maxsplit < 0 or len(out) < maxsplit:
      i = rest.find(sep)
      if i < 0:
        break
      out.append(rest[:i])
      rest = rest[i + len(sep):]
    return out + [rest]

  def rsplit(self, sep=None, maxsplit=-1):
    out, rest = [], self
    while maxsplit < 0 or len(out) < maxsplit:
      i = rest.rfind(sep)
      if i < 0:
        break
      out.insert(0, rest[i + len(sep):])
      rest = rest[:i]
    return [rest] + out

  def partition(self, sep):
    i = self.find(sep)
    return (self, '', '') if i < 0 else (self[:i], sep, self[i + len(sep):])

  def rpartition(self, sep):
    i = self.rfind(sep)
    return ('', '', self) if i < 0 else (self[:i], sep, self[i + len(sep):])

  def replace(self, a, b, n=-1):
    out, rest = [], self
    while n != 0:
      i = rest.find(a)
      if i < 0:
        break
      out += rest._c[:i] + self._e.chars(b)
      rest = rest[i + len(a):]
      n -= 1
    return S(self._e, out + rest._c)

  def removeprefix(self, p): return self[len(p):] if self.startswith(p) else self
  def removesuffix(self, p): return self[:len(self._c) - len(p)] if p and self.endswith(p) else self

  def _map(self, f):
    return S(self._e, [f(c) for c in self._c])

  def lower(self):
    return self._map(lambda c: ord(chr(c).lower()) if isinstance(c, int) else z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c))

  casefold = lower

  def upper(self):
    return self._map(lambda c: ord(chr(c).upper()) if isinstance(c, int) else z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c))

  def _strip(self, chars, left, right):
    chars = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f' if chars is None else chars
    a, b = 0, len(self._c)
    inside = lambda c: self._e.decide(z3.Or([c == ord(x) for x in chars])) if not isinstance(c, int) else chr(c) in chars
    while left and a < b and inside(self._c[a]):
      a += 1
    while right and a < b and inside(self._c[b - 1]):
      b -= 1
    return self[a:b]

  def strip(self, chars=None): return self._strip(chars, True, True)
  def lstrip(self, chars=None): return self._strip(chars, True, False)
  def rstrip(self, chars=None): return self._strip(chars, False, True)


class B(bytes):
  """Bytes of known length with symbolic values."""

  def __new__(cls, e, bs):
    b = bytes.__new__(cls, len(bs))
    b._e, b._b = e, list(bs)
    return b

  def __eq__(self, o):
    if not isinstance(o, (bytes, bytearray)):
      return NotImplemented
    return self._e.decide(self._e.same(self, o))

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else not r

  __hash__ = None

  def __getitem__(self, k):
    r = self._b[k]
    return B(self._e, r) if isinstance(k, slice) else r if isinstance(r, int) else I(self._e, z3.ZeroExt(24, r))

  def __add__(self, o): return B(self._e, self._b + bvals(o))
  def __radd__(self, o): return B(self._e, bvals(o) + self._b)


# ---------------------------------------------------------------- threads
class Deadlock(Exception):
  pass


class Threads:
  """Runs functions as threads, one at a time; every line of the code under
  test and every lock operation is a point where another may be scheduled."""

  def __init__(self, e, files, preempt):
    import threading
    self.th = threading
    self.e, self.files, self.preempt = e, files, preempt
    self.fns, self.state = [], []
    restore_locks()
    self.cv = REAL['Condition']()
    install_locks(e)
    self.turn = None
    self.exc = None

  def spawn(self, fn):
    self.fns.append(fn)

  def trace(self, frame, event, arg):
    if frame.f_code.co_filename not in self.files:
      return None
    if event == 'line':
      self.point()
    return self.trace

  def runnable(self):
    return [i for i, s in enumerate(self.state) if s == 'run' or (isinstance(s, Lock) and s.owner is None) or (callable(s) and not isinstance(s, Lock) and s())]

  def point(self, must=False):
    """The running thread offers to be switched out."""
    if self.exc:
      raise Stop()
    me = self.turn
    r = self.runnable()
    if not must and me in r:
      if self.preempt <= 0 or len(r) == 1:
        return
      order = [me] + [x for x in r if x != me]
    else:
      order = r
    if not order:
      self.exc = Deadlock()
      self.wake(None)
      raise Stop()
    try:
      k = order[self.e.choice(len(order), 'sched')]
    except BaseException as x:
      self.exc = x
      self.wake(None)
      raise Stop()
    if k == me:
      return
    if not must and me in r:
      self.preempt -= 1
    self.wake(k)
    self.wait(me)

  def wake(self, k):
    with self.cv:
      self.turn = k
      self.cv.notify_all()

  def wait(self, me):
    with self.cv:
      while self.turn != me and not self.exc:
        self.cv.wait()
    if self.exc:
      raise Stop()

  def body(self, i, fn):
    try:
      self.wait(i)
      sys.settrace(self.trace)
      try:
        fn()
      finally:
        sys.settrace(None)
    except Stop:
      if not self.exc:
        self.exc = Stop()
    except BaseException as x:
      if not self.exc:
        self.exc = x
    self.state[i] = 'done'
    if self.exc:
      self.wake(None)
      return
    r = self.runnable()
    if r:
      try:
        self.wake(r[self.e.choice(len(r), 'sched')])
      except BaseException as x:
        self.exc = x
        self.wake(None)
    else:
      if any(s != 'done' for s in self.state):
        self.exc = Deadlock()
      self.wake(None)

  def run(self):
    self.state = ['run'] * len(self.fns)
    self.e.threads = self
    restore_locks()
    ts = [REAL['Thread'](target=self.body, args=(i, f), daemon=True) for i, f in enumerate(self.fns)]
    for t in ts:
      t.start()
    install_locks(self.e)
    try:
      first = self.e.choice(len(self.fns), 'sched')
    except BaseException as x:
      self.exc = x
      first = None
    self.wake(first)
    for t in ts:
      t.join()
    self.e.threads = None
    if self.exc:
      raise self.exc


class Lock:
  """threading.Lock / RLock whose operations are scheduling points."""
  current = None  # the engine

  def __init__(self, reentrant=False):
    self.owner, self.depth, self.re = None, 0, reentrant

  def __call__(self):
    return self

  def me(self):
    t = Lock.current.threads
    return ('t', t.turn) if t else 'main'

  def acquire(self, blocking=True, timeout=-1):
    t = Lock.current.threads
    if t:
      t.point()
    if self.re and self.owner == self.me():
      self.depth += 1
      return True
    while self.owner is not None:
      if not blocking:
        return False
      if not t:
        raise Deadlock('lock taken twice')
      me = t.turn
      t.state[me] = self
      t.point(must=True)
      t.state[me] = 'run'
    self.owner, self.depth = self.me(), 1
    return True

  def release(self):
    self.depth -= 1
    if self.depth <= 0:
      self.owner = None
    t = Lock.current.threads
    if t and not t.exc:
      t.point()

  def locked(self): return self.owner is not None
  def __enter__(self): return self.acquire()

  def __exit__(self, *a):
    self.release()


import threading as _th
REAL = dict(Condition=_th.Condition, Thread=_th.Thread, Lock=_th.Lock, RLock=_th.RLock)


def install_locks(e):
  Lock.current = e
  _th.Lock = lambda: Lock()
  _th.RLock = lambda: Lock(True)


def restore_locks():
  _th.Lock, _th.RLock = REAL['Lock'], REAL['RLock']


def explore(e, harness):
  while e.work and len(e.violations) < e.max_violations:
    if time.time() > e.deadline or e.stats['paths'] >= e.max_paths:
      e.incomplete['time or path limit'] = len(e.work)
      break
    prefix = e.work.pop()
    e.begin(prefix)
    e.stats['states'] += 1
    try:
      harness(e)
      e.stats['paths'] += 1
      if e.replay is None and len(e.samples) < 400 and (e.stats['paths'] < 40 or e.stats['paths'] % 37 == 0):
        if e.query() == z3.sat:
          e.samples.append(e.values(e.solver.model()))
    except Prune:
      e.stats['assumed_out'] += 1
    except Stop:
      e.stats['paths'] += 1
    except Limit:
      e.incomplete['time or path limit'] = len(e.work) + 1
      break
    except Exception as x:  # an exception the harness did not expect
      import traceback
      tb = traceback.extract_tb(x.__traceback__)
      where = '%s:%s' % (tb[-1].filename, tb[-1].name) if tb else ''
      try:
        e.check(False, 'unexpected %s in %s' % (type(x).__name__, where))
      except (Stop, Prune):
        e.stats['paths'] += 1
        if e.violations:
          e.violations[-1]['detail'] = traceback.format_exc()[-2000:]
    if e.replay is not None:
      break
