"""Runs the jobs of a Python property, confirms counterexamples by replaying
them on concrete values, and writes the evidence file."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/fcp/pyvenv/bin/python'
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, '.build'))
REPO = os.environ.get('VF_REPO', '/repo')


def known_findings(pid):
  out = []
  p = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(p):
    for l in open(p):
      m = re.match(r'known: property=(\S+) match="([^"]+)" (.*)', l.strip())
      if m and m.group(1) == pid:
        out.append((m.group(2), m.group(3)))
  return out


def gen_protos(out, protos):
  """Python classes for /repo's service protos, regenerated on every run."""
  shutil.rmtree(out, ignore_errors=True)
  os.makedirs(out)
  site = '/opt/fcp/pyvenv/lib/python3.12/site-packages'
  r = subprocess.run([PY, '-m', 'grpc_tools.protoc', '-I' + REPO, '-I' + os.path.join(VERIF, 'stubs/proto'), '-I' + site, '--python_out=' + out] + [os.path.join(REPO if os.path.exists(os.path.join(REPO, p)) else os.path.join(VERIF, 'stubs/proto'), p) for p in protos], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  if r.returncode:
    raise RuntimeError('protoc: ' + r.stdout[-2000:])


def run(spec, pid, tier, seed, ev_path):
  t0 = time.time()
  hpath = os.path.join(VERIF, 'harness', pid, spec.HARNESS)
  rdir = os.path.join(BUILD, 'replay', pid)
  shutil.rmtree(rdir, ignore_errors=True)
  os.makedirs(rdir)
  gen = os.path.join(BUILD, 'py', pid)
  try:
    gen_protos(gen, spec.PROTOS)
  except RuntimeError as x:
    print('CHECK-ERROR property=%s: %s' % (pid, x))
    return 3
  jobs = [j for j in spec.JOBS if j.get('tier', 'both') in ('both', tier)]
  budget = float(os.environ.get('VF_BUDGET', '700' if tier == 'quick' else '10800'))
  env = dict(os.environ, VF_REPO=REPO, VF_PYGEN=gen, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
  for k in list(env):
    if k.startswith('PYTHONPATH'):
      del env[k]

  def call(j, tag, replay=None):
    jp, op = os.path.join(rdir, tag + '.job'), os.path.join(rdir, tag + '.res')
    json.dump(dict(j, timeout=min(j.get('timeout', 600), budget * 0.9)), open(jp, 'w'))
    cmd = ['timeout', '-k', '5', str(int(budget)), PY, os.path.join(HERE, 'run.py'), hpath, jp, op] + ([replay] if replay else [])
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res = json.load(open(op)) if os.path.exists(op) and (r.returncode == 0 or replay) else None
    return r.returncode, r.stdout, res, cmd

  known = known_findings(pid)
  tot, funcs, jobs_ev, errors, incomplete, unconfirmed, violations, known_hit, vacuous, samples = {}, set(), [], [], [], [], [], [], [], []
  validated = 0
  with cf.ThreadPoolExecutor(int(os.environ.get('VF_JOBS', '8'))) as pool:
    results = list(pool.map(lambda j: (j, call(j, re.sub(r'\W+', '_', j['name']))), jobs))
    for j, (rc, out, res, _) in results:
      tag = re.sub(r'\W+', '_', j['name'])
      if res is None:
        errors.append('%s: exit %s: %s' % (j['name'], rc, out[-1500:]))
        continue
      for k, v in res['stats'].items():
        tot[k] = max(tot.get(k, 0), v) if k.startswith('max') else tot.get(k, 0) + v
      funcs |= {(f['file'], f['function']) for f in res['functions']}
      jobs_ev.append(dict(job=j['name'], what=j.get('what', ''), bounds=j.get('params', {}), paths=res['stats']['paths'], queries=res['stats']['queries'], asserts=res['asserts'], reach=res['reach'], incomplete=res['incomplete'], wall_s=res['wall_s']))
      if res['incomplete']:
        incomplete.append('%s: %s' % (j['name'], res['incomplete']))
      miss = [x for x in j.get('reach', []) if x not in res['reach']]
      if miss and not res['violations'] and not res['incomplete']:
        vacuous.append('%s: not reached: %s' % (j['name'], ', '.join(miss)))
      for i, v in enumerate(res['violations']):
        p = os.path.join(rdir, '%s-%d.json' % (tag, i))
        json.dump(dict(property=pid, job=j['name'], **v), open(p, 'w'), indent=1)
        rc2, out2, _, cmd = call(j, '%s-r%d' % (tag, i), p)
        with open(p[:-5] + '.sh', 'w') as f:
          f.write('#!/bin/bash\nexec env VF_REPO=%s VF_PYGEN=%s PYTHONDONTWRITEBYTECODE=1 %s\n' % (REPO, gen, ' '.join(cmd)))
        desc = '%s: %s' % (j['name'], v['msg'])
        if rc2 != 41:
          unconfirmed.append('%s (concrete run: %s %s)' % (desc, rc2, out2[-500:]))
          continue
        hit = [k for k in known if k[0] in v['msg']]
        if hit:
          known_hit.append(desc)
        else:
          violations.append((desc, p))
      if not res['violations']:
        ss = res['samples']
        lim = 5 if tier == 'quick' else 20
        todo = []
        for i, s in enumerate(ss[::max(1, len(ss) // lim)][:lim]):
          p = os.path.join(rdir, '%s-path%d.json' % (tag, i))
          json.dump(dict(values=s), open(p, 'w'))
          todo.append((s, p, pool.submit(call, j, '%s-p%d' % (tag, i), p)))
        for s, p, f in todo:
          rc2, out2, _, _ = f.result()
          if rc2 == 0:
            validated += 1
            if len(samples) < 6:
              samples.append(dict(job=j['name'], inputs=s))
          elif rc2 == 41:
            violations.append(('%s: concrete run of an explored path fails: %s' % (j['name'], out2[-300:]), p))
          else:
            unconfirmed.append('%s: concrete run of an explored path ended with %s: %s' % (j['name'], rc2, out2[-300:]))
  cov = dict(states=tot.get('states', 0), transitions=tot.get('forks', 0) + tot.get('paths', 0), traces_validated_against_impl=validated,
             samples=samples or [dict(note='no completed path')], symbolic_paths=tot.get('paths', 0), paths_outside_assumptions=tot.get('assumed_out', 0),
             assertions_evaluated=tot.get('asserts', 0), assertions_discharged_by_solver=tot.get('proved', 0),
             solver_queries=tot.get('queries', 0), solver_sat=tot.get('sat', 0), solver_unsat=tot.get('unsat', 0), solver_unknown=tot.get('unknown', 0),
             solver_s=round(tot.get('solver_s', 0), 2), longest_query_s=round(tot.get('max_query_s', 0), 2),
             functions_encoded=[dict(file=f, function=q) for f, q in sorted(funcs)], jobs=jobs_ev, bounds=spec.BOUNDS, outside_bounds=spec.OUTSIDE,
             exhaustive=not incomplete and not errors, incomplete=incomplete, unconfirmed_counterexamples=unconfirmed, not_reached=vacuous,
             explanation='The listed functions of /repo ran on symbolic values; every branch and assertion on them was decided by Z3 for all values within the bounds.')
  os.makedirs(os.path.dirname(ev_path), exist_ok=True)
  json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=spec.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(violations)), open(ev_path, 'w'), indent=1)
  print('%s %s: %d jobs, %d paths, %d solver queries, %.1fs solver, %.1fs wall, %d paths validated concretely' % (pid, tier, len(jobs), cov['symbolic_paths'], cov['solver_queries'], cov['solver_s'], time.time() - t0, validated))
  if os.environ.get('VF_VERBOSE'):
    for x in jobs_ev:
      print('   ', x['job'], 'paths', x['paths'], 'queries', x['queries'], 'wall', x['wall_s'], x['reach'], x['incomplete'] or '')
  for n, xs in (('INCOMPLETE', incomplete), ('UNCONFIRMED', unconfirmed), ('ERROR', errors)):
    for x in xs:
      print(n + ':', x)
  for d in sorted(set(known_hit)):
    print('KNOWN-FINDING: property=%s %s' % (pid, d))
  if violations:
    for d, p in violations:
      print('  ', d)
    print('VIOLATION property=%s replay=%s' % (pid, violations[0][1]))
    return 1
  if not unconfirmed:
    shutil.rmtree(rdir, ignore_errors=True)
  if errors and not jobs_ev:
    return 3
  if vacuous:
    for x in vacuous:
      print('VACUOUS:', x)
    return 4
  return 0
