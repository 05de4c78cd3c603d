import http
import os

import base
from sym import Threads

http_actions = media = common_pb2 = None
DEMO = os.path.join(base.REPO, 'fcp/demo')


def setup(e):
  global http_actions, media, common_pb2
  http_actions, media = base.load('http_actions', 'media')
  from fcp.protos.federatedcompute import common_pb2 as c
  common_pb2 = c


def service(e):
  base.begin(e)
  return media.Service(lambda: common_pb2.ForwardingInfo(target_uri_prefix='http://host/'))


def refused(fn, *a):
  """The HttpError raised, or None."""
  try:
    return None, fn(*a)
  except http_actions.HttpError as x:
    return x, None


def find(e, table, name):
  for k in table:
    if e.replay is not None:
      if k == name:
        return k
    elif e.decide(e.same(name, k)):
      return k
  return None


def given(e, names, what):
  """A name some caller supplies: any string, in particular any handed out."""
  return e.str(base.ID, what, 0x20, 0x7e)


def uploads(e):
  s = service(e)
  table = {}  # name -> None | data
  for i in range(e.params['ops']):
    op = e.choice(3, 'op') if i else 0
    if op == 0:
      name = s.register_upload()
      e.check(isinstance(name, str) and name not in table, 'a new upload name differs from every earlier one')
      table[name] = ('open', None)
      e.reached('registered')
    elif op == 1:
      name = given(e, table, 'name')
      data = e.bytes(e.choice(2, 'size'), 'data')
      err, resp = refused(s.upload, data, name)
      k = find(e, table, name)
      ok = k is not None and table[k] == ('open', None)
      e.check((err is None) == ok, 'an upload is accepted exactly when its name is registered and still unused')
      if ok:
        table[k] = ('used', data)
        e.reached('uploaded')
      else:
        e.check(400 <= int(err.code) < 500, 'a refused upload is a client error')
        e.reached('refused')
    else:
      name = given(e, table, 'fin')
      try:
        got, missing = s.finalize_upload(name), False
      except KeyError:
        got, missing = None, True
      k = find(e, table, name)
      e.check(missing == (k is None), 'finalising fails exactly for names that are not registered')
      if k is not None:
        state, data = table.pop(k)
        if state == 'open':
          e.check(got is None, 'finalising an unused upload gives no data')
        else:
          e.check(got is not None, 'finalising a used upload gives its data')
          e.check(e.same(got, data) if e.replay is None else got == data, 'the finalised data is what was uploaded')
          e.reached('finalised')


def downloads(e):
  s = service(e)
  groups, closed = [], []  # [context manager, group, id, {name: (data, type)}]
  for i in range(e.params['ops']):
    op = e.choice(4, 'op')
    if op == 0:
      if len(groups) + len(closed) == 2:
        continue
      cm = s.create_download_group()
      g = cm.__enter__()
      e.check(g.prefix.startswith('http://host/') and g.prefix.endswith('/'), 'a group prefix is under the service address')
      gid = g.prefix.rstrip('/').rsplit('/', 1)[1]
      e.check(all(gid != x[2] for x in groups + closed), 'groups have different identifiers')
      groups.append([cm, g, gid, []])
    elif op == 1:
      if not groups:
        continue
      gr = groups[e.choice(len(groups), 'which')]
      name = e.str(2, 'file', 0x20, 0x7e)
      data = e.bytes(e.choice(3, 'size'), 'data')
      typ = ('application/octet-stream', 'text/plain')[e.choice(2, 'type')]
      have = [f for f in gr[3] if equal(e, f[0], name)]
      try:
        url = gr[1].add(name, data) if typ.startswith('app') else gr[1].add(name, data, content_type=typ)
        dup = False
      except KeyError:
        dup = True
      e.check(dup == bool(have), 'adding a file fails exactly when the group already has that name')
      if not dup:
        e.check(holds(e, url, gr[1].prefix + name), 'the file path is the group prefix followed by the name')
        gr[3].append((name, data, typ))
        e.reached('added')
      else:
        e.reached('duplicate')
    elif op == 2:
      if not groups:
        continue
      gr = groups.pop(e.choice(len(groups), 'which'))
      if e.choice(2, 'raise'):
        x = ValueError('x')
        try:
          kept = not gr[0].__exit__(ValueError, x, None)
        except ValueError:
          kept = True
        e.check(kept, 'an error inside the group is passed on')
      else:
        gr[0].__exit__(None, None, None)
      closed.append(gr)
      e.reached('closed')
    else:
      gid = e.str(base.ID, 'group', 0x20, 0x7e)
      name = e.str(2, 'file', 0x20, 0x7e)
      err, resp = refused(s.download, b'', gid, name)
      want = None
      for gr in groups:
        if equal(e, gid, gr[2]):
          for f in gr[3]:
            if equal(e, f[0], name):
              want = f
      e.check((err is None) == (want is not None), 'a file is downloadable exactly while its group exists')
      if want:
        e.check(holds(e, resp.body, want[1]), 'the downloaded bytes are those added')
        h = {k.lower(): str(v) for k, v in resp.headers.items()}
        e.check(h.get('content-type') == want[2] and h.get('content-length') == str(len(want[1])), 'the download is described by its type and length')
        e.reached('downloaded')
      else:
        e.check(err.code == http.HTTPStatus.NOT_FOUND, 'anything else is not found')
        e.reached('notfound')


def equal(e, a, b):
  return a == b if e.replay is not None else e.decide(e.same(a, b))


def holds(e, a, b):
  return a == b if e.replay is not None else e.same(a, b)


FILES = None


def threads(e):
  return Threads(e, {os.path.join(DEMO, 'media.py')}, e.params.get('preempt', 2))


def race_uploads(e):
  """Two uploads and a finalisation of one name at the same time."""
  s = service(e)
  name = s.register_upload()
  data = [e.bytes(e.choice(2, 'size'), 'data') for _ in range(2)]
  ok, fin = [None, None], []
  t = threads(e)

  def up(i):
    ok[i] = refused(s.upload, data[i], name)[0] is None

  def finalize():
    try:
      fin.append(s.finalize_upload(name))
    except KeyError:
      fin.append(KeyError)

  t.spawn(lambda: up(0))
  t.spawn(lambda: up(1))
  kind = e.params['finalise']
  if kind >= 1:
    t.spawn(finalize)
  if kind == 2:
    t.spawn(finalize)
  t.run()
  if kind == 0:
    finalize()
  e.check(not (ok[0] and ok[1]), 'two uploads under one name are never both accepted')
  real = [f for f in fin if f is not KeyError]
  e.check(len(real) == 1, 'one name is finalised exactly once')
  if ok[0] or ok[1]:
    e.check(real[0] is not None, 'an accepted upload is delivered by the finalisation')
    e.check(holds(e, real[0], data[0] if ok[0] else data[1]), 'the delivered data is the accepted upload')
    e.reached('accepted')
  else:
    e.check(real[0] is None, 'a refused upload is not delivered')
    e.reached('none')
  err, _ = refused(s.upload, b'x', name)
  e.check(err is not None, 'a finalised name takes no upload')


def race_downloads(e):
  """Two additions under one name, a download and the end of the group."""
  s = service(e)
  cm = s.create_download_group()
  g = cm.__enter__()
  gid = g.prefix.rstrip('/').rsplit('/', 1)[1]
  data = [e.bytes(1, 'data'), e.bytes(2, 'data')]
  ok, got = [None, None], []
  t = threads(e)

  def add(i):
    try:
      g.add('name', data[i])
      ok[i] = True
    except KeyError:
      ok[i] = False

  t.spawn(lambda: add(0))
  close = e.choice(2, 'close')
  if close:
    t.spawn(lambda: cm.__exit__(None, None, None))
  else:
    t.spawn(lambda: add(1))
  t.spawn(lambda: got.append(refused(s.download, b'', gid, 'name')))
  t.run()
  err, resp = refused(s.download, b'', gid, 'name')
  if close:
    e.check(err is not None, 'nothing of a closed group can be downloaded')
    e.reached('closed')
  else:
    e.check(ok[0] != ok[1], 'exactly one of two additions under one name is accepted')
    e.check(err is None, 'the added file can be downloaded')
    e.check(holds(e, resp.body, data[0] if ok[0] else data[1]), 'the file keeps the accepted content')
    if got[0][1] is not None:
      e.check(holds(e, got[0][1].body, data[0] if ok[0] else data[1]), 'a concurrent download sees the accepted content or none')
      e.reached('seen')
