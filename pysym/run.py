"""Runs one job (or replays one counterexample) of a Python harness.

usage: run.py HARNESS.py JOB.json OUT.json [REPLAY.json]"""
import importlib.util
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(10000)

import sym  # noqa: E402


def main():
  hpath, jpath, out = sys.argv[1:4]
  job = json.load(open(jpath))
  replay = json.load(open(sys.argv[4]))['values'] if len(sys.argv) > 4 else None
  t0 = time.time()
  spec = importlib.util.spec_from_file_location('harness', hpath)
  h = importlib.util.module_from_spec(spec)
  sys.path.insert(0, os.path.dirname(hpath))
  spec.loader.exec_module(h)
  e = sym.Engine(timeout=job.get('timeout', 600), replay=replay, params=job.get('params', {}))
  if hasattr(h, 'setup'):
    h.setup(e)
  fn = getattr(h, job['entry'])
  funcs = {}
  repo = os.environ['VF_REPO'] + '/'
  mon = sys.monitoring
  mon.use_tool_id(3, 'verif')

  def started(code, off):
    if code.co_filename.startswith(repo):
      funcs.setdefault((code.co_filename[len(repo):], code.co_qualname), 0)
    return mon.DISABLE

  mon.register_callback(3, mon.events.PY_START, started)
  mon.set_events(3, mon.events.PY_START)
  sym.explore(e, fn)
  mon.set_events(3, 0)
  json.dump(dict(stats=e.stats, violations=e.violations, reach=e.reach, asserts=e.asserted, samples=e.samples, incomplete=e.incomplete,
                 functions=[dict(file=f, function=q) for f, q in sorted(funcs)], wall_s=round(time.time() - t0, 2)), open(out, 'w'))
  if replay is not None:
    for v in e.violations:
      print('REPLAY VIOLATION:', v['msg'])
    sys.exit(41 if e.violations else 0)


main()
