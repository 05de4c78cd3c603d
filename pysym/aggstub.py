"""Stand-ins for the libraries behind the aggregation service: status values,
tensor types and the aggregation protocol, whose outcomes are symbolic."""
import enum
import sys
from types import SimpleNamespace

import base

CODES = dict(OK=0, CANCELLED=1, UNKNOWN=2, INVALID_ARGUMENT=3, DEADLINE_EXCEEDED=4, NOT_FOUND=5, ALREADY_EXISTS=6, PERMISSION_DENIED=7,
             RESOURCE_EXHAUSTED=8, FAILED_PRECONDITION=9, ABORTED=10, OUT_OF_RANGE=11, UNIMPLEMENTED=12, INTERNAL=13, UNAVAILABLE=14, DATA_LOSS=15, UNAUTHENTICATED=16)
StatusCode = enum.Enum('StatusCode', CODES)


class Status:

  def __init__(self, code, message=''):
    self._c, self._m = code, message

  def code(self): return self._c
  def code_int(self): return self._c.value
  def raw_code(self): return self._c.value
  def message(self): return self._m
  def ok(self): return self._c == StatusCode.OK

  @staticmethod
  def OkStatus(): return Status(StatusCode.OK)


class StatusNotOk(Exception):

  def __init__(self, status):
    self.status = status


class Protocol:
  """The aggregation protocol: any input may be included, kept for later
  or discarded, and any
  operation that can fail may fail."""

  def __init__(self, e, log):
    self.e, self.log = e, log
    self.clients, self.started, self.ended = {}, False, None
    self.included = self.discarded = self.waiting = 0

  def Start(self, n):
    self.started = True

  def AddClients(self, n):
    k = len(self.clients)
    for i in range(n):
      self.clients[k + i] = dict(state='pending', close=None, data=None)
    return k

  def ReceiveClientMessage(self, cid, msg):
    self.e.check(self.ended is None, 'an ended session takes no contribution')
    c = self.clients[cid]
    self.e.check(c['data'] is None and c['state'] == 'pending', 'a client contributes at most once')
    how = self.e.choice(4, 'receive')
    if how == 2:
      raise StatusNotOk(Status(StatusCode.INTERNAL, 'x'))
    c['data'] = msg.simple_aggregation.input.inline_bytes
    if how == 3:  # accepted, but not part of the aggregate yet
      c['state'], c['close'] = 'completed', 0
      self.waiting += 1
    elif how == 0:
      c['state'], c['close'] = 'completed', 0
      self.included += 1
      self.log.append((self, cid, c['data']))
    else:
      c['state'], c['close'] = 'failed', (StatusCode.INVALID_ARGUMENT, StatusCode.INTERNAL, StatusCode.NOT_FOUND)[self.e.choice(3, 'why')].value
      self.discarded += 1

  def PollServerMessage(self, cid):
    c = self.clients[cid]
    if c['close'] is None:
      return None
    return SimpleNamespace(simple_aggregation=SimpleNamespace(close_message=SimpleNamespace(code=c['close'])))

  def CloseClient(self, cid, message, code):
    c = self.clients[cid]
    if c['state'] == 'pending':
      c['state'], c['close'] = 'failed', code

  def Complete(self):
    self.e.check(self.ended is None, 'a session ends once')
    if self.e.choice(2, 'complete'):
      raise StatusNotOk(Status(StatusCode.INTERNAL, 'x'))
    self.ended = 'completed'

  def Abort(self):
    self.ended = 'aborted'

  def GetResult(self):
    return b'result' if self.ended == 'completed' else Status(StatusCode.FAILED_PRECONDITION, 'x')

  def GetStatus(self):
    n = lambda s: sum(c['state'] == s for c in self.clients.values())
    return SimpleNamespace(num_clients_completed=n('completed'), num_clients_failed=n('failed'), num_clients_pending=n('pending'), num_clients_aborted=0,
                           num_inputs_aggregated_and_included=self.included, num_inputs_aggregated_and_pending=self.waiting, num_inputs_discarded=self.discarded)


MAKE = [None]


class Record:
  """A message built from keyword arguments."""

  def __init__(self, **kw):
    self.__dict__.update(kw)


def install():
  abs_ = base.stub('pybind11_abseil.status', Status=Status, StatusCode=StatusCode, StatusNotOk=StatusNotOk,
                   StatusCodeFromInt=lambda v: StatusCode(v))
  for n in CODES:
    setattr(abs_, n.lower() + '_error', lambda m, n=n: Status(StatusCode[n], m))
  tf = base.stub('tensorflow', dtypes=SimpleNamespace(as_dtype=lambda d: d), float32=1, double=2, string=7, int32=3, int64=9, uint64=23)
  tf.__path__ = [base.GEN + '/tensorflow']
  p = 'tensorflow_federated.cc.core.impl.aggregation.'
  base.stub(p + 'core.tensor_pb2', TensorSpecProto=lambda name='': SimpleNamespace(name=name, shape=SimpleNamespace(dim_sizes=[]), dtype=None),
            DataType=SimpleNamespace(DT_FLOAT=1, DT_DOUBLE=2, DT_STRING=7, DT_INT32=3, DT_INT64=9, DT_UINT64=23))
  base.stub(p + 'core')
  sys.modules[p + 'core'].tensor_pb2 = sys.modules[p + 'core.tensor_pb2']
  cm = type('ClientMessage', (Record,), dict(SimpleAggregation=type('SimpleAggregation', (Record,), {})))
  base.stub(p + 'protocol')
  base.stub(p + 'protocol.aggregation_protocol_messages_pb2', ClientMessage=cm, ClientResource=type('ClientResource', (Record,), {}))
  ic = type('IntrinsicConfig', (Record,), dict(IntrinsicArg=type('IntrinsicArg', (Record,), {})))
  base.stub(p + 'protocol.configuration_pb2', Configuration=type('Configuration', (Record,), dict(IntrinsicConfig=ic)))
  base.stub(p + 'protocol.python')
  base.stub(p + 'protocol.python.aggregation_protocol', AggregationProtocol=Protocol)
  base.stub(p + 'tensorflow')
  base.stub(p + 'tensorflow.python')
  base.stub(p + 'tensorflow.python.aggregation_protocols', create_simple_aggregation_protocol=lambda config, *a: MAKE[0](config))
