import asyncio
import http
from types import SimpleNamespace

import aggstub
import base

aggregations = media = http_actions = None


def setup(e):
  global aggregations, media, http_actions, pb, common_pb2, plan_pb2
  aggstub.install()
  http_actions, media, aggregations = base.load('http_actions', 'media', 'aggregations')
  from fcp.protos.federatedcompute import aggregations_pb2 as pb
  from fcp.protos.federatedcompute import common_pb2
  from fcp.protos import plan_pb2


def world(e):
  base.begin(e)
  w = SimpleNamespace(e=e, log=[], protocols=[])
  w.media = media.Service(lambda: common_pb2.ForwardingInfo(target_uri_prefix='http://h/'))
  w.agg = aggregations.Service(lambda: common_pb2.ForwardingInfo(target_uri_prefix='http://h/'), w.media)

  def make(config):
    w.protocols.append(aggstub.Protocol(e, w.log))
    return w.protocols[-1]

  aggstub.MAKE[0] = make
  return w


def create(w, minimum):
  plan = plan_pb2.Plan(phase=[plan_pb2.Plan.Phase(server_phase_v2=plan_pb2.ServerPhaseV2())])
  sid = w.agg.create_session(aggregations.AggregationRequirements(minimum_clients_in_server_published_aggregate=minimum, plan=plan))
  return SimpleNamespace(id=sid, min=minimum, tokens=[], clients={}, proto=w.protocols[-1], ended=None, waits=[], data={})


def attempt(fn, *a):
  try:
    return None, fn(*a)
  except http_actions.HttpError as x:
    return int(x.code), None


def eq(e, a, b):
  return a == b if e.replay is not None else e.decide(e.same(a, b))


def start(w, sid, token):
  code, op = attempt(w.agg.start_aggregation_data_upload, SimpleNamespace(aggregation_id=sid, authorization_token=token))
  if code:
    return code, None
  r = pb.StartAggregationDataUploadResponse()
  w.e.check(op.done and op.response.Unpack(r), 'the operation is finished and carries the response')
  return None, r


def submit(w, sid, token, resource):
  return attempt(w.agg.submit_aggregation_result, SimpleNamespace(aggregation_id=sid, client_token=token, resource_name=resource))


def abort(w, sid, token, code=1):
  return attempt(w.agg.abort_aggregation, SimpleNamespace(aggregation_id=sid, client_token=token, status=SimpleNamespace(code=code, message='m')))


def name(e, what):
  return e.str(base.ID, what, 0x20, 0x7e)


def ended_quietly(w, s):
  """Nothing more is possible in an ended session."""
  e = w.e
  for t in s.tokens:
    e.check(start(w, s.id, t)[0] is not None, 'an ended session admits no client')
  for t, c in s.clients.items():
    e.check(submit(w, s.id, t, c)[0] is not None, 'an ended session takes no contribution')
    e.check(attempt(w.media.upload, b'late', c)[0] is not None, 'an upload of an ended session is closed')
  for fn in (lambda: w.agg.complete_session(s.id), lambda: w.agg.abort_session(s.id), lambda: w.agg.pre_authorize_clients(s.id, 1), lambda: w.agg.get_session_status(s.id)):
    try:
      fn()
      e.fail('an ended session is gone')
    except KeyError:
      pass


def contributions(e):
  """Clients contribute with every outcome; the session is then completed."""
  w = world(e)
  s = create(w, e.int(0, 3, 'minimum'))
  n = e.params['clients']
  included = 0
  for t in w.agg.pre_authorize_clients(s.id, n):
    s.tokens.append(t)
  e.check(len(s.tokens) == n and len(set(s.tokens)) == n, 'every client gets a token of its own')
  for i in range(n):
    how = e.choice(7, 'client')
    if how == 0:
      continue
    code, r = start(w, s.id, s.tokens[i])
    e.check(code is None, 'an authorized client may start')
    e.check(start(w, s.id, s.tokens[i])[0] is not None, 'an authorization is used once')
    ct, res = r.client_token, r.resource.resource_name
    s.clients[ct] = res
    if how == 1:
      continue
    data = e.bytes(e.choice(2, 'size'), 'data')
    if how != 2:
      e.check(attempt(w.media.upload, data, res)[0] is None, 'a started client may upload')
    before, waiting = s.proto.included, s.proto.waiting
    if how == 3:
      bad = name(e, 'resource')
      e.assume(e.same(bad, res) is False if e.replay is None and not hasattr(e.same(bad, res), 'sort') else (bad != res if e.replay is not None else __import__('z3').Not(e.same(bad, res))))
      code, _ = submit(w, s.id, ct, bad)
      e.check(code is not None and s.proto.included == before, 'a contribution under another name is refused')
      e.reached('misnamed')
    elif how == 4:
      code, _ = abort(w, s.id, ct, e.choice(2, 'code'))
      e.check(code is None, 'a client may leave')
      e.check(s.proto.included == before, 'a client that left contributes nothing')
      e.check(attempt(w.media.upload, b'x', res)[0] is not None, 'the upload of a client that left is closed')
      e.reached('left')
    else:
      code, _ = submit(w, s.id, ct, res)
      if how == 2:
        e.check(code is not None and s.proto.included == before, 'a client that uploaded nothing contributes nothing')
        e.reached('nothing')
      else:
        took = s.proto.included - before
        later = s.proto.waiting - waiting
        e.check((code is None) == (took + later == 1), 'a contribution is confirmed exactly when it was accepted')
        if later:
          e.reached('kept for later')
        if took:
          got = w.log[-1][2]
          e.check(got == data if e.replay is not None else e.same(got, data), 'what is aggregated is what the client uploaded')
          included += 1
          e.reached('included')
    if how != 6:
      e.check(submit(w, s.id, ct, res)[0] is not None, 'a client token is used once')
      e.check(s.proto.included == included, 'every client is included at most once')
  status, result = w.agg.complete_session(s.id)
  enough = s.min <= included
  if result is not None:
    e.check(bool(enough), 'a result is only released when enough clients are included')
    e.check(result == b'result', 'the result is that of the aggregation')
    e.check(status.status == aggregations.AggregationStatus.COMPLETED, 'a released result comes with success')
    e.check(status.num_inputs_aggregated_and_included == included, 'the status counts the included clients')
    e.reached('released')
  else:
    e.check(status.status == aggregations.AggregationStatus.FAILED, 'no result means failure')
    if enough:
      e.check(s.proto.ended != 'completed', 'a finished aggregation is released')
      e.reached('failed')
    else:
      e.check(s.proto.ended != 'completed', 'an aggregate of too few clients is never computed')
      e.reached('withheld')
  ended_quietly(w, s)


def strangers(e):
  """Any identifiers in any request, with two sessions."""
  w = world(e)
  ss = [create(w, 0), create(w, 0)]
  for s in ss:
    s.tokens += w.agg.pre_authorize_clients(s.id, 1)
    s.free = list(s.tokens)
    s.open = {}
  code, r = start(w, ss[0].id, ss[0].tokens[0])
  ss[0].free, ss[0].open = [], {r.client_token: r.resource.resource_name}
  w.media.upload(b'one', r.resource.resource_name)
  for i in range(e.params['ops']):
    op = e.choice(4, 'op') if i or 'first' not in e.params else e.params['first']
    sid = name(e, 'session')
    s = next((x for x in ss if eq(e, sid, x.id)), None)
    live = s is not None and not s.ended
    if op == 0:
      tok = name(e, 'token')
      code, r = start(w, sid, tok)
      ok = live and any(eq(e, tok, t) for t in s.free)
      e.check((code is None) == ok, 'a client may start exactly with an unused token of a live session')
      if ok:
        s.free = []
        s.open[r.client_token] = r.resource.resource_name
        e.reached('started')
      else:
        e.check(400 <= code < 500, 'a stranger is refused')
    elif op == 1:
      tok, res = name(e, 'client'), name(e, 'resource')
      before = [x.proto.included for x in ss]
      k = next((t for t in s.open if eq(e, tok, t)), None) if live else None
      code, _ = submit(w, sid, tok, res)
      took = [x.proto.included - b for x, b in zip(ss, before)]
      if k is None or not eq(e, res, s.open[k]):
        e.check(code is not None and not any(took), 'only a started client contributes, under its own name')
      else:
        e.check(sum(took) <= 1 and took[1 - ss.index(s)] == 0, 'a contribution counts for its own session only')
        e.reached('submitted')
      if k is not None:
        del s.open[k]
    elif op == 2:
      tok = name(e, 'client')
      k = next((t for t in s.open if eq(e, tok, t)), None) if live else None
      code, _ = abort(w, sid, tok)
      e.check((code is None) == (k is not None), 'only a started client can leave')
      if k is not None:
        del s.open[k]
        e.reached('left')
    else:
      try:
        st = w.agg.abort_session(sid)
        done = True
      except KeyError:
        done = False
      e.check(done == live, 'only a live session can be aborted')
      if done:
        e.check(st.status == aggregations.AggregationStatus.ABORTED and s.proto.ended == 'aborted', 'an aborted session reports so')
        s.ended = 'aborted'
        e.reached('aborted')


def waiting(e):
  """Waiters are released exactly when their condition holds or the session ends."""
  w = world(e)
  s = create(w, e.int(0, 2, 'minimum'))
  loop = asyncio.new_event_loop()
  try:
    tokens = w.agg.pre_authorize_clients(s.id, 2)
    waits = []

    def settle():
      for _ in range(4):
        loop.run_until_complete(asyncio.sleep(0))

    def new_wait():
      n = None if e.choice(2, 'kind') else e.int(0, 3, 'wanted')
      waits.append((n, loop.create_task(w.agg.wait(s.id, n) if n is None else w.agg.wait(s.id, num_inputs_aggregated_and_included=n))))
      settle()

    def verify(over):
      for n, t in waits:
        if t.done():
          st = t.result()
          if not over:
            e.check(n is None or bool(n <= s.proto.included), 'a waiter is not released before its condition holds')
          e.reached('released')
        else:
          e.check(not over, 'everyone waiting is told when the session ends')
          e.check(n is not None and not bool(n <= s.proto.included), 'a waiter whose condition holds is released')
          e.reached('kept')

    new_wait()
    verify(False)
    for i in range(e.params['clients']):
      code, r = start(w, s.id, tokens[i])
      w.media.upload(b'data', r.resource.resource_name)
      submit(w, s.id, r.client_token, r.resource.resource_name)
      settle()
      verify(False)
      if i == 0:
        new_wait()
        verify(False)
    if e.choice(2, 'end'):
      w.agg.abort_session(s.id)
      e.reached('aborted')
    else:
      w.agg.complete_session(s.id)
      e.reached('completed')
    settle()
    verify(True)
  finally:
    for t in asyncio.all_tasks(loop):
      t.cancel()
    loop.run_until_complete(asyncio.sleep(0))
    loop.close()
