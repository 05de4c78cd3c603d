import email.message
import gzip
import http
import urllib.parse

import base
from sym import S

http_actions = media = eet = None


def setup(e):
  global http_actions, media, eet
  http_actions, media = base.load('http_actions', 'media')
  from fcp.protos.federatedcompute import eligibility_eval_tasks_pb2 as p
  eet = p
  define()


def define():
  global Actions

  class Actions:
    """Actions that record how they were called."""

    def __init__(self, outcome):
      self.calls, self.outcome = [], outcome

    def called(self, what, body, args):
      self.calls.append((what, body, args))
      if self.outcome:
        raise http_actions.HttpError(self.outcome)
      return http_actions.HttpResponse(body=b'out', headers={'Content-Length': 3, 'X-Y': 'z'})

    @http_actions.http_action(method='GET', pattern='/g/{a}/{b}')
    def get2(self, body, **args):
      return self.called('get2', body, args)

    @http_actions.http_action(method='get', pattern='/g/{a}')
    def get1(self, body, **args):
      return self.called('get1', body, args)

    @http_actions.http_action(method='POST', pattern='/g/{a}')
    def post1(self, body, **args):
      return self.called('post1', body, args)

    @http_actions.http_action(method='GET', pattern='/x.y')
    def dot(self, body, **args):
      return self.called('dot', body, args)

    @http_actions.http_action(method='POST', pattern='/u/{n}?p=r')
    def query(self, body, **args):
      return self.called('query', body, args)

    @http_actions.http_action(method='GET', pattern='/{v}:e')
    def suffix(self, body, **args):
      return self.called('suffix', body, args)

    @http_actions.proto_action(
        service='google.internal.federatedcompute.v1.EligibilityEvalTasks', method='RequestEligibilityEvalTask')
    def proto(self, request):
      self.calls.append(('proto', None, request))
      if self.outcome:
        raise http_actions.HttpError(self.outcome)
      return eet.EligibilityEvalTaskResponse(session_id='the session')


PATTERNS = [  # name, method, literal and placeholder parts
    ('get2', 'GET', ['/g/', ('a',), '/', ('b',)]),
    ('get1', 'GET', ['/g/', ('a',)]),
    ('post1', 'POST', ['/g/', ('a',)]),
    ('dot', 'GET', ['/x.y']),
    ('query', 'POST', ['/u/', ('n',), '?p=r']),
    ('suffix', 'GET', ['/', ('v',), ':e']),
    ('proto', 'POST', ['/v1/eligibilityevaltasks/', ('population_name',), ':request?%24alt=proto']),
]


def eq(e, a, b):
  return a == b if e.replay is not None else e.decide(e.same(a, b))


def plain(e, s):
  """No path or query separator inside."""
  for c in s:
    if eq(e, c, '/') or eq(e, c, '?'):
      return False
  return True


def expected(e, method, path):
  for name, m, parts in PATTERNS:
    if m != method:
      continue
    args, rest, ok = {}, path, True
    for k, p in enumerate(parts):
      if isinstance(p, str):
        if len(rest) < len(p) or not eq(e, rest[:len(p)], p):
          ok = False
          break
        rest = rest[len(p):]
      else:
        after = parts[k + 1] if k + 1 < len(parts) else ''
        if after == '/':  # one segment
          i = 0
          while i < len(rest) and not eq(e, rest[i], '/'):
            i += 1
        else:  # everything up to the fixed end
          i = len(rest) - len(after)
        if i < 0:
          ok = False
          break
        seg, rest = rest[:i], rest[i:]
        if not plain(e, seg):
          ok = False
          break
        args[p[0]] = seg
    if ok and len(rest) == 0:
      return name, args
  return None


class Reader:

  def __init__(self, data):
    self.data = data

  def read(self, n=-1):
    out, self.data = (self.data, b'') if n < 0 else (self.data[:n], self.data[n:])
    return out


def request(e, svc, method, path, body, encoding=None):
  cls = http_actions.create_handler(*svc)
  h = cls.__new__(cls)
  h.path, h.command, h.requestline, h.request_version = path, method, '', 'HTTP/1.1'
  h.client_address = ('127.0.0.1', 1)
  h.headers = email.message.Message()
  if method == 'POST':
    h.headers['Content-Length'] = str(len(body))
  if encoding:
    h.headers['Content-Encoding'] = encoding
  h.rfile = Reader(body)
  out = dict(status=[], headers={}, body=[], ended=0)

  class Out:
    def write(self, b): out['body'].append(b)
    def flush(self): pass

  h.wfile = Out()
  h.send_error = lambda code, *a, **k: out['status'].append(int(code))
  h.send_response = lambda code, *a, **k: out['status'].append(int(code))
  h.send_response_only = h.send_response
  h.send_header = lambda k, v: out['headers'].__setitem__(k.lower(), str(v))
  h.end_headers = lambda: out.__setitem__('ended', out['ended'] + 1)
  h.flush_headers = lambda: None
  h.log_message = lambda *a: None
  (h.do_GET if method == 'GET' else h.do_POST)()
  return out


def text(e, a, b):
  return a == b if e.replay is not None else e.same(a, b)


def judge(e, a, out, method, path, body, decodable=True, payload=None, proto_ok=True):
  want = expected(e, method, path)
  e.check(len(out['status']) == 1, 'every request gets exactly one answer')
  code = out['status'][0]
  if want is None:
    e.check(not a.calls, 'a path no pattern matches reaches no action')
    e.check(code == 404, 'a path no pattern matches is not found')
    e.reached('notfound')
    return
  name, args = want
  if not decodable or (name == 'proto' and not proto_ok):
    e.check(not a.calls, 'an undecodable body reaches no action')
    e.check(400 <= code < 500, 'an undecodable body is a client error')
    e.reached('undecodable')
    return
  e.check([c[0] for c in a.calls] == [name], 'the request reaches exactly the matching action, once')
  got = a.calls[0]
  if name == 'proto':
    e.check(text(e, got[2].population_name, urllib.parse.unquote(args['population_name'])), 'the path parameter is set in the request message')
    e.check(got[2].client_version.version_code == 'test123', 'the request message is the decoded body')
  else:
    e.check(set(got[2]) == set(args), 'the action gets exactly the placeholders of its pattern')
    for k, v in args.items():
      e.check(text(e, got[2][k], urllib.parse.unquote(v)), 'each placeholder is the decoded text of its segment')
    e.check(text(e, got[1], body if method == 'POST' and payload is None else payload if method == 'POST' else b''), 'the action gets the body that was sent')
  if a.outcome:
    e.check(code == int(a.outcome), 'the error of an action is the answer')
    e.reached('error')
    return
  e.check(code == 200 and out['ended'] == 1, 'a successful action is answered with success')
  if name == 'proto':
    e.check(b''.join(out['body']) == eet.EligibilityEvalTaskResponse(session_id='the session').SerializeToString(), 'the answer is the encoded response message')
    e.check(out['headers'].get('content-length') == str(len(b''.join(out['body']))), 'the answer states its length')
    e.reached('proto')
  else:
    e.check(b''.join(out['body']) == b'out' and out['headers'].get('x-y') == 'z', 'the answer is what the action returned')
    e.reached(name)


def path(e):
  """Any short path."""
  base.begin(e)
  method = ('GET', 'POST')[e.choice(2, 'method')]
  p = e.str(e.params['n'], 'path', 0, 0xff if e.params.get('wide') else 0x7e)
  body = e.bytes(1, 'body')
  a = Actions(None)
  judge(e, a, request(e, [a], method, p, body), method, p, body)


VALID = None


def bodies(e):
  """Encoded, compressed and damaged bodies, on every kind of POST action."""
  base.begin(e)
  kind = e.choice(3, 'action')
  p = ['/g/', '/u/', '/v1/eligibilityevaltasks/'][kind] + e.str(e.choice(3, 'n'), 'name', 0x20, 0x7e) + ['', '?p=r', ':request?%24alt=proto'][kind]
  raw = eet.EligibilityEvalTaskRequest(population_name='other', client_version=dict(version_code='test123')).SerializeToString()
  proto_ok = not e.choice(2, 'broken')
  if not proto_ok:
    raw = raw[:-1]
  encoding = (None, 'gzip', 'compress', 'gzip, gzip')[e.choice(4, 'encoding')]
  body = gzip.compress(raw, mtime=0) if encoding == 'gzip' else raw
  decodable = encoding in (None, 'gzip')
  if encoding == 'gzip':
    damage = e.choice(3, 'damage')
    if damage == 1:
      body = body[:e.choice(len(body), 'cut')]
    elif damage == 2:
      i = e.choice(len(body), 'flip')
      body = body[:i] + bytes([body[i] ^ 0x55]) + body[i + 1:]
    try:
      got = gzip.decompress(body)
      if got != raw:
        proto_ok = decodes(got)
        raw = got
    except Exception:
      decodable = False
  a = Actions(None)
  if kind == 2 and decodable and proto_ok and not has_version(raw):
    return
  judge(e, a, request(e, [a], 'POST', p, body, encoding), 'POST', p, body, decodable, raw, proto_ok)


def decodes(b):
  try:
    eet.EligibilityEvalTaskRequest.FromString(b)
    return True
  except Exception:
    return False


def has_version(b):
  return eet.EligibilityEvalTaskRequest.FromString(b).client_version.version_code == 'test123'


def errors(e):
  """Actions that fail."""
  base.begin(e)
  code = [http.HTTPStatus.UNAUTHORIZED, http.HTTPStatus.NOT_FOUND, http.HTTPStatus.BAD_REQUEST, http.HTTPStatus.INTERNAL_SERVER_ERROR][e.choice(4, 'code')]
  kind = e.choice(3, 'action')
  a = Actions(code)
  method = ('GET', 'POST', 'POST')[kind]
  p = ('/g/', '/g/', '/v1/eligibilityevaltasks/')[kind] + e.str(e.choice(3, 'n'), 'name', 0x20, 0x7e) + ('', '', ':request?%24alt=proto')[kind]
  body = eet.EligibilityEvalTaskRequest(client_version=dict(version_code='test123')).SerializeToString()
  judge(e, a, request(e, [a], method, p, body), method, p, body)


def suffix(e):
  """The fixed end of a service path, with any one or two characters changed."""
  base.begin(e)
  end = ':request?%24alt=proto'
  i = e.choice(len(end), 'at')
  n = 1 + e.choice(2, 'n')
  p = '/v1/eligibilityevaltasks/' + e.str(1, 'name', 0x20, 0x7e) + end[:i] + e.str(n, 'sub', 0x20, 0x7e) + end[i + 1:]
  body = eet.EligibilityEvalTaskRequest(client_version=dict(version_code='test123')).SerializeToString()
  a = Actions(None)
  judge(e, a, request(e, [a], 'POST', p, body), 'POST', p, body)
