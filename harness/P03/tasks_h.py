from types import SimpleNamespace

import aggstub
import base

import google.rpc.status_pb2  # noqa: F401


def setup(e):
  global task_assignments, aggregations, media, http_actions, eligibility, pb, common_pb2, spec_pb2, eet_pb2, Mode
  aggstub.install()
  http_actions, media, aggregations, task_assignments, eligibility = base.load('http_actions', 'media', 'aggregations', 'task_assignments', 'eligibility_eval_tasks')
  from fcp.protos.federatedcompute import task_assignments_pb2 as pb
  from fcp.protos.federatedcompute import eligibility_eval_tasks_pb2 as eet_pb2
  from fcp.protos.federatedcompute import common_pb2
  from fcp.protos import population_eligibility_spec_pb2 as spec_pb2
  Mode = spec_pb2.PopulationEligibilitySpec.TaskInfo.TaskAssignmentMode


POP = 'pop'


def eq(e, a, b):
  return a == b if e.replay is not None else e.decide(e.same(a, b))


def text(e, a, b):
  return a == b if e.replay is not None else e.same(a, b)


class Tokens:
  """The aggregation service as the assignments see it."""

  def __init__(self):
    self.given, self.live = [], set()

  def pre_authorize_clients(self, session_id, num_tokens):
    out = []
    for _ in range(num_tokens):
      t = 't%d' % len(self.given)
      self.given.append((t, session_id))
      out.append(t)
    return out


def attempt(fn, *a):
  try:
    return None, fn(*a)
  except http_actions.HttpError as x:
    return int(x.code), None


def same_assignment(e, a, task, session, tokens):
  e.check(text(e, a.task_name, task.name) , 'the assignment names its task')
  e.check(a.aggregation_id == task.session, 'the assignment is for the task\'s session')
  e.check(a.plan.uri == task.plan and a.init_checkpoint.uri == task.init, 'the assignment carries the task\'s plan and checkpoint')
  e.check(a.federated_select_uri_info.uri_template == task.template, 'the assignment carries the task\'s slice address')
  e.check((a.authorization_token, task.session) in tokens, 'the assignment carries a fresh authorization for the task\'s session')
  e.check(text(e, a.session_id, session), 'the assignment belongs to the asking client\'s session')
  e.check(a.aggregation_data_forwarding_info.target_uri_prefix == 'http://h/', 'the assignment says where to contribute')


def history(e):
  base.begin(e)
  agg = Tokens()
  s = task_assignments.Service(POP, lambda: common_pb2.ForwardingInfo(target_uri_prefix='http://h/'), agg)
  tasks = []  # in order of addition
  made = 0
  for i in range(e.params['ops']):
    op = e.choice(4, 'op') if i else 0
    if op == 0:
      mode = e.choice(3, 'mode')
      t = SimpleNamespace(name=e.str(2, 'task', 0x20, 0x7e), session=e.know('sess%d' % made), plan='plan%d' % made, init='init%d' % made, template='tmpl%d' % made, mode=mode)
      try:
        s.add_task(t.name, [Mode.TASK_ASSIGNMENT_MODE_SINGLE, Mode.TASK_ASSIGNMENT_MODE_MULTIPLE, Mode.TASK_ASSIGNMENT_MODE_UNSPECIFIED][mode], t.session,
                   common_pb2.Resource(uri=t.plan), common_pb2.Resource(uri=t.init), t.template)
        ok = True
      except ValueError:
        ok = False
      e.check(ok == (mode != 2), 'a task is accepted exactly with a known way of assigning')
      if ok:
        tasks.append(t)
        made += 1
    elif op == 1:
      sid = e.str(5, 'remove', 0x20, 0x7e)
      hit = next((t for t in tasks if eq(e, sid, t.session)), None)
      try:
        s.remove_task(sid)
        ok = True
      except KeyError:
        ok = False
      e.check(ok == (hit is not None), 'exactly an existing task can be removed')
      if ok:
        tasks.remove(hit)
        e.reached('removed')
    elif op == 2:
      pop, session = e.str(2 + e.choice(3, 'length') if e.params.get('lengths') else 3, 'population', 0x20, 0x7e), e.str(1, 'session', 0x20, 0x7e)
      before = len(agg.given)
      code, op_ = attempt(s.start_task_assignment, SimpleNamespace(population_name=pop, session_id=session))
      if not eq(e, pop, POP):
        e.check(code == 404 and len(agg.given) == before, 'another population is refused')
        e.reached('otherpop')
        continue
      e.check(code is None and op_.done, 'a client of the population is answered')
      r = pb.StartTaskAssignmentResponse()
      e.check(op_.response.Unpack(r), 'the answer is an assignment response')
      singles = [t for t in tasks if t.mode == 0]
      if singles:
        e.check(r.HasField('task_assignment') and len(agg.given) == before + 1, 'a client is assigned while there is a task')
        same_assignment(e, r.task_assignment, singles[0], session, agg.given[before:])
        e.reached('assigned')
      else:
        e.check(r.HasField('rejection_info') and not r.HasField('task_assignment') and len(agg.given) == before, 'without a task the client is rejected')
        e.reached('rejected')
    else:
      pop, session = e.str(2 + e.choice(3, 'length') if e.params.get('lengths') else 3, 'population', 0x20, 0x7e), e.str(1, 'session', 0x20, 0x7e)
      wanted = [e.str(1 + e.choice(3, 'length') if e.params.get('lengths') else 2, 'wanted', 0x20, 0x7e) for _ in range(e.choice(3, 'n'))]
      before = len(agg.given)
      code, r = attempt(s.perform_multiple_task_assignments, SimpleNamespace(population_name=pop, session_id=session, task_names=wanted))
      if not eq(e, pop, POP):
        e.check(code == 404 and len(agg.given) == before, 'another population is refused')
        continue
      e.check(code is None, 'a client of the population is answered')
      want = [t for t in tasks if t.mode == 1 and any(eq(e, t.name, n) for n in wanted)]
      e.check(len(r.task_assignments) == len(want) == len(agg.given) - before, 'a client gets exactly the named tasks that exist')
      fresh = agg.given[before:]
      for t in want:
        a = [x for x in r.task_assignments if x.aggregation_id == t.session]
        e.check(len(a) == 1, 'every named task is assigned once')
        same_assignment(e, a[0], t, session, fresh)
        e.reached('multiple')
      e.check(len({x.authorization_token for x in r.task_assignments}) == len(want), 'every assignment has its own authorization')


def announced(e):
  """The tasks announced to clients are exactly the existing ones."""
  base.begin(e)
  s = eligibility.Service(POP, lambda: common_pb2.ForwardingInfo(target_uri_prefix='http://h/'))
  tasks = {}
  for i in range(e.params['ops']):
    op = e.choice(3, 'op') if i else 0
    if op == 0:
      name = 'n%d' % e.choice(2, 'name')
      mode = [Mode.TASK_ASSIGNMENT_MODE_SINGLE, Mode.TASK_ASSIGNMENT_MODE_MULTIPLE][e.choice(2, 'mode')]
      s.add_task(name, mode)
      tasks[name] = mode
    elif op == 1:
      name = 'n%d' % e.choice(2, 'name')
      try:
        s.remove_task(name)
        ok = True
      except KeyError:
        ok = False
      e.check(ok == (name in tasks), 'exactly an announced task can be removed')
      tasks.pop(name, None)
    else:
      pop = e.str(3, 'population', 0x20, 0x7e)
      multiple = bool(e.choice(2, 'multiple'))
      code, r = attempt(s.request_eligibility_eval_task, SimpleNamespace(population_name=pop, eligibility_eval_task_capabilities=SimpleNamespace(supports_multiple_task_assignment=multiple)))
      if not eq(e, pop, POP):
        e.check(code == 404, 'another population is refused')
        e.reached('otherpop')
        continue
      e.check(code is None and r.session_id != '', 'a client of the population gets a session')
      e.check(r.task_assignment_forwarding_info.target_uri_prefix == 'http://h/', 'the client is told where to ask')
      if multiple:
        spec = spec_pb2.PopulationEligibilitySpec.FromString(r.eligibility_eval_task.population_eligibility_spec.inline_resource.data)
        e.check({t.task_name: t.task_assignment_mode for t in spec.task_info} == tasks and len(spec.task_info) == len(tasks), 'the announced tasks are the existing ones')
        e.reached('announced')
      else:
        e.check(r.HasField('no_eligibility_eval_configured') and not r.HasField('eligibility_eval_task'), 'a client without support gets no list')
