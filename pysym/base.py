"""Makes /repo's Python modules importable for a harness."""
import collections.abc, contextlib, dataclasses, enum, gzip, http, http.server, io, os, queue, sys, threading, types, typing, urllib.parse, uuid, zlib, asyncio, functools, datetime, logging  # noqa: E401,F401

from absl import logging as absl_logging
import google.api.annotations_pb2, google.protobuf.descriptor_pool, google.protobuf.message_factory, google.protobuf.text_format  # noqa: E401,F401
import google.longrunning.operations_pb2, google.rpc.code_pb2, google.protobuf.any_pb2  # noqa: E401,F401

import resym
import sym

REPO, GEN = os.environ['VF_REPO'], os.environ['VF_PYGEN']


def _pkg(name, paths):
  m = types.ModuleType(name)
  m.__path__ = paths
  sys.modules[name] = m
  if '.' in name:
    parent, leaf = name.rsplit('.', 1)
    setattr(sys.modules[parent], leaf, m)
  return m


def stub(name, **attrs):
  m = types.ModuleType(name)
  m.__dict__.update(attrs)
  parts = name.split('.')
  for i in range(1, len(parts)):
    p = '.'.join(parts[:i])
    if p not in sys.modules:
      _pkg(p, [])
    if i > 1:
      setattr(sys.modules['.'.join(parts[:i - 1])], parts[i - 1], sys.modules[p])
  sys.modules[name] = m
  if len(parts) > 1:
    setattr(sys.modules['.'.join(parts[:-1])], parts[-1], m)
  return m


def load(*modules):
  """Imports modules of /repo afresh, with `re` replaced by the symbolic one."""
  absl_logging.set_verbosity(absl_logging.FATAL)
  sys.path.append(GEN)
  _pkg('fcp', [os.path.join(GEN, 'fcp')])
  _pkg('fcp.demo', [os.path.join(REPO, 'fcp/demo')])
  real = sys.modules['re']
  sys.modules['re'] = resym.proxy
  try:
    import importlib
    return [importlib.import_module('fcp.demo.' + m) for m in modules]
  finally:
    sys.modules['re'] = real


ID = 4  # characters of an identifier


class Uuid(uuid.UUID):
  """An identifier with a short text form."""

  def __str__(self): return 'i%03d' % (self.int & 0x3ff)

  hex = property(lambda self: 'hex%05d' % (self.int & 0x3ff))


def uuids(e):
  """Deterministic identifiers, all different."""
  n = [0]

  def uuid4():
    n[0] += 1
    u = Uuid(int=0xa5f1c0de00004000800000000000000 + n[0], version=4)
    e.know(str(u))
    e.know(u.hex)
    return u

  uuid.uuid4 = uuid4
  uuid.uuid1 = lambda *a: uuid4()


def begin(e):
  resym.install(e)
  uuids(e)
  sym.install_locks(e)
