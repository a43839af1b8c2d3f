"""Entry point of every check.

  python -m dst.run check C01            search, tier from VERIF_TIER
  python -m dst.run replay FILE          re-runs a replay file, exit 1 if it fails
  python -m dst.run determinism C01 [N]  runs N cases under several settings
"""
import collections
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

from dst import registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
HANG = 200          # seconds without a sign of life from a worker
NDEV = 16


def worker_env(scratch, hashseed='0'):
  env = {k: v for k, v in os.environ.items()
         if k in ('HOME', 'LANG', 'TMPDIR', 'USER', 'LD_LIBRARY_PATH')}
  env.update(
      PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
      PYTHONPATH=f'{VERIF}:/repo', PYTHONDONTWRITEBYTECODE='1',
      PYTHONHASHSEED=hashseed, JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='',
      TF_CPP_MIN_LOG_LEVEL='3', TFDS_DATA_DIR='/nonexistent',
      NO_GCE_CHECK='true', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
      JAX_TRACEBACK_FILTERING='off', PIP_NO_INDEX='1', DST_SCRATCH=scratch,
      XLA_FLAGS=f'--xla_force_host_platform_device_count={NDEV} '
                '--xla_backend_optimization_level=0 '
                '--xla_cpu_multi_thread_eigen=false')
  return env


class Proc:
  """A worker process and its result pipe."""

  def __init__(self, req, scratch, log, hashseed='0'):
    r, w = os.pipe()
    os.set_inheritable(w, True)
    self.req = dict(req, fd=w)
    self.p = subprocess.Popen(
        [PY, '-m', 'dst.worker', json.dumps(self.req)], cwd=scratch,
        env=worker_env(scratch, hashseed), stdin=subprocess.DEVNULL,
        stdout=log, stderr=log, pass_fds=(w,), start_new_session=True)
    os.close(w)
    self.fd = r
    os.set_blocking(r, False)
    self.buf = b''
    self.last = time.monotonic()
    self.at = None
    self.closed = False

  def read(self):
    """Returns the messages that have arrived; marks closed on EOF."""
    out = []
    while True:
      try:
        b = os.read(self.fd, 1 << 16)
      except BlockingIOError:
        break
      if not b:
        self.closed = True
        break
      self.buf += b
      self.last = time.monotonic()
    *lines, self.buf = self.buf.split(b'\n')
    for l in lines:
      m = json.loads(l)
      if m['t'] == 'start':
        self.at = (m['g'], m['k'])
      out.append(m)
    return out

  def kill(self):
    try:
      os.killpg(self.p.pid, 9)
    except ProcessLookupError:
      pass
    self.p.wait()
    try:
      os.close(self.fd)
    except OSError:
      pass


def drive(procs, handle, until):
  """Feeds messages to handle(proc, msg) until all end or it returns True.

  Returns a list of (proc, reason) for workers that hung or died.
  """
  bad = []
  live = set(procs)
  sel = selectors.DefaultSelector()
  for p in procs:
    sel.register(p.fd, selectors.EVENT_READ, p)
  while live:
    for key, _ in sel.select(timeout=1.0):
      p = key.data
      if p not in live:
        continue
      for m in p.read():
        if handle(p, m):
          return bad
      if p.closed:
        sel.unregister(p.fd)
        live.discard(p)
        rc = p.p.wait()
        if rc != 0:
          bad.append((p, f'worker exited with {rc}'))
    now = time.monotonic()
    for p in list(live):
      if now - p.last > HANG or now > until:
        sel.unregister(p.fd)
        live.discard(p)
        p.kill()
        bad.append((p, 'hang' if now - p.last > HANG else 'overrun'))
  return bad


def one(req, scratch, log, seconds, hashseed='0'):
  """Runs one worker to completion; returns its messages or None on a hang."""
  p = Proc(req, scratch, log, hashseed)
  msgs = []
  bad = drive([p], lambda _, m: msgs.append(m) and False,
              time.monotonic() + seconds)
  if not bad:
    return msgs, None
  return msgs, bad[0][1]


def load_known():
  path = os.path.join(VERIF, 'known_findings.json')
  with open(path) as f:
    return json.load(f)['findings']


def matches(finding, prop, v):
  if finding['property'] != prop or finding.get('status') == 'fixed':
    return False
  if finding['kind'] != v['kind']:
    return False
  return all(s in v['message'] for s in finding.get('message_contains', []))


def check(prop, tier, seed, workers=8, keep=None):
  mod_name, per_group, quick, thorough = registry.CHECKS[prop]
  groups, seconds = quick if tier == 'quick' else thorough
  t0 = time.monotonic()
  known = load_known()
  scratch = tempfile.mkdtemp(prefix=f'dst-{prop}-')
  log_path = os.path.join(scratch, 'log')
  agg = dict(counts=collections.Counter(), faults=collections.Counter(),
             probes=collections.Counter(), runs=0, sim=0.0, events=0,
             digests=set(), nontrivial=set(), samples=[], wall=0.0,
             planned=0, choices=0)
  violations, errors, known_hits = [], [], {}
  procs = []
  try:
    with open(log_path, 'wb') as log:
      for j in range(workers):
        req = dict(mode='search', prop=prop, seed=seed, tier=tier, first=j,
                   stride=workers, groups=groups, per_group=per_group,
                   seconds=seconds)
        procs.append(Proc(req, scratch, log))

      def handle(p, m):
        if m['t'] == 'run':
          agg['runs'] += 1
          for k in ('counts', 'faults', 'probes'):
            agg[k].update(m[k])
          agg['sim'] += m['sim_time']
          agg['events'] += m['events']
          agg['wall'] += m['wall']
          agg['planned'] += m['planned']
          agg['choices'] += m['choices']
          agg['digests'].add(m['digest'])
          if m['nontrivial']:
            agg['nontrivial'].add(m['digest'])
          if m['sample'] and len(agg['samples']) < 3:
            agg['samples'].append(m['sample'])
        elif m['t'] == 'error':
          errors.append(m)
          return len(errors) >= 20
        elif m['t'] == 'violation':
          for f in known:
            if matches(f, prop, m):
              known_hits[f['id']] = f
              return False
          violations.append(m)
          return True
        return False

      bad = drive(procs, handle, time.monotonic() + seconds + HANG + 60)
      for p in procs:
        p.kill()
      # a worker that hung or died: does its case do so again, on its own?
      if bad and not violations and not errors:
        for p, why in bad:
          if p.at is None:
            errors.append(dict(error=f'worker: {why}', g=-1, k=-1))
            continue
          msgs, again = one(dict(mode='search', prop=prop, seed=seed, tier=tier,
                                 first=p.at[0], stride=1, groups=p.at[0] + 1,
                                 per_group=p.at[1] + 1, seconds=90),
                            scratch, log, 120)
          if again:
            violations.append(dict(
                kind='hang' if 'exited' not in again else 'crash',
                message=f'the run never ends or kills the process ({again})',
                case=None, g=p.at[0], k=p.at[1], choices=[]))
            break
      path = None
      if violations:
        v = violations[0]
        path = save_violation(prop, seed, tier, v, scratch, log)
    wall = time.monotonic() - t0
    if keep:
      shutil.copy(log_path, keep)
    write_evidence(prop, tier, seed, agg, violations, wall, workers)
    for f in known_hits.values():
      print(f'KNOWN-FINDING: property={prop} {f["what"]}')
    if violations:
      v = violations[0]
      print(f'{prop}: {v["kind"]}: {v["message"][:600]}')
      print(f'VIOLATION property={prop} replay={path}')
      return 1
    if errors:
      print(f'{prop}: the simulator could not decide: {len(errors)} errors')
      print(errors[0]['error'])
      print(json.dumps(errors[0].get('case'))[:3000])
      return 2
    if agg['runs'] == 0:
      print(f'{prop}: no run finished')
      with open(log_path, errors='replace') as f:
        print(f.read()[-3000:])
      return 2
    print(f'{prop}: {agg["runs"]} runs, {len(agg["digests"])} distinct, '
          f'faults {dict(agg["faults"])}, probes {dict(agg["probes"])}, '
          f'{wall:.0f} s')
    return 0
  finally:
    for p in procs:
      if p.p.poll() is None:
        p.kill()
    shutil.rmtree(scratch, ignore_errors=True)


def save_violation(prop, seed, tier, v, scratch, log):
  """Minimises, writes the replay file and checks that it fails again."""
  out = os.path.join(VERIF, 'replays')
  os.makedirs(out, exist_ok=True)
  path = os.path.join(out, f'{prop}-seed{seed}-g{v["g"]}-k{v["k"]}.json')
  case = v['case']
  doc = dict(prop=prop, seed=seed, tier=tier, group=v['g'], index=v['k'],
             kind=v['kind'], message=v['message'], original=case)
  if case is None:
    with open(path, 'w') as f:
      json.dump(doc, f, indent=1)
    return path
  best = case
  msgs, _ = one(dict(mode='minimise', prop=prop, case=case, kind=v['kind'],
                     seconds=60), scratch, log, 150)
  for m in msgs:
    if m['t'] in ('best', 'minimised'):
      best = m['case']
    if m['t'] == 'minimised':
      doc['minimiser_runs'] = m['tried']
  for cand, which in ((best, 'minimised'), (case, 'original')):
    msgs, bad = one(dict(mode='replay', prop=prop, case=cand), scratch, log,
                    120)
    rep = [m for m in msgs if m['t'] == 'replayed']
    if rep and rep[0]['kind'] == v['kind']:
      doc.update(case=cand, which=which, message=rep[0]['message'],
                 digest=rep[0]['digest'], reproduced=True)
      break
  else:
    doc.update(case=case, which='original', reproduced=False)
  with open(path, 'w') as f:
    json.dump(doc, f, indent=1)
  return path


def write_evidence(prop, tier, seed, agg, violations, wall, workers):
  mod = meta(prop)
  hours = max(wall, 1e-9) / 3600
  ev = dict(
      property=prop, tier=tier, seed=seed, level='exploration',
      wall_s=round(wall, 2), violations=len(violations),
      assumptions=mod['assumptions'],
      coverage=dict(
          evaluations=agg['runs'],
          distinct_nontrivial=len(agg['nontrivial']),
          rule=mod['rule'],
          samples=agg['samples'] or [v.get('case') for v in violations[:1]],
          simulated_runs_per_hour=round(agg['runs'] / hours),
          seeds_per_hour=round(agg['runs'] / hours),
          simulated_seconds=round(agg['sim'], 6),
          events=agg['events'],
          scheduling_choices=agg['choices'],
          faults_planned=agg['planned'],
          faults_injected=dict(agg['faults']),
          probes=dict(agg['probes']),
          counters=dict(agg['counts']),
          distinct_interleavings=len(agg['digests']),
          interleaving_measure='distinct hashes of the ordered event log '
          '(who entered which collective, message deliveries, file operations,'
          ' faults) of a run',
          real_components=mod['real'], stub_components=mod['stub'],
          workers=workers, cpu_s=round(agg['wall'], 1)))
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
    json.dump(ev, f, indent=1)


def meta(prop):
  from dst import describe
  return describe.META[prop]


def replay(path):
  with open(path) as f:
    doc = json.load(f)
  scratch = tempfile.mkdtemp(prefix='dst-replay-')
  try:
    with open(os.path.join(scratch, 'log'), 'wb') as log:
      if not doc.get('case'):
        msgs, bad = one(dict(mode='search', prop=doc['prop'], seed=doc['seed'],
                             tier=doc['tier'], first=doc['group'], stride=1,
                             groups=doc['group'] + 1,
                             per_group=doc['index'] + 1, seconds=90),
                        scratch, log, 120)
        if bad:
          print(f'VIOLATION property={doc["prop"]} replay={path}')
          return 1
        return 0
      msgs, bad = one(dict(mode='replay', prop=doc['prop'], case=doc['case']),
                      scratch, log, 300)
    rep = [m for m in msgs if m['t'] == 'replayed']
    if bad or not rep:
      print(f'replay did not finish: {bad}')
      return 2
    r = rep[0]
    if r['error']:
      print(r['error'])
      return 2
    print(json.dumps({k: r[k] for k in ('kind', 'message', 'digest', 'events')}))
    if r['kind'] is None:
      return 0
    print(f'VIOLATION property={doc["prop"]} replay={path}')
    return 1
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def determinism(prop, n, seed):
  """The same cases under different worker counts and hash seeds."""
  _, per_group, _, _ = registry.CHECKS[prop]
  groups = max(1, n // per_group)
  scratch = tempfile.mkdtemp(prefix='dst-det-')
  tables = []
  try:
    with open(os.path.join(scratch, 'log'), 'wb') as log:
      for nworkers, hs in ((8, '0'), (3, '12345'), (8, '777')):
        table = {}
        procs = [Proc(dict(mode='search', prop=prop, seed=seed, tier='quick',
                           first=j, stride=nworkers, groups=groups,
                           per_group=per_group, seconds=3600,
                           keep_going=True), scratch, log, hs)
                 for j in range(nworkers)]

        def handle(p, m, table=table):
          if m['t'] in ('run', 'violation'):
            table[(m['g'], m['k'])] = m['digest']
          if m['t'] == 'error':
            table[(m['g'], m['k'])] = 'error'
            print(m['error'][-1500:])
          return False

        bad = drive(procs, handle, time.monotonic() + 3600)
        for p in procs:
          p.kill()
        if bad:
          print('workers failed', [b[1] for b in bad])
        tables.append(table)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
  keys = set().union(*tables)
  diff = [k for k in keys if len({t.get(k) for t in tables}) != 1]
  print(f'{prop}: {len(keys)} cases x {len(tables)} executions, '
        f'{len(diff)} differ {diff[:5]}')
  return 1 if diff else 0


def main(argv):
  if argv[0] == 'replay':
    return replay(argv[1])
  seed = int(os.environ.get('VERIF_SEED', '1'))
  workers = int(os.environ.get('DST_WORKERS', '8'))
  if argv[0] == 'check':
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
      tier = argv[2]
    if tier not in ('quick', 'thorough'):
      tier = 'quick'
    return check(argv[1], tier, seed, workers,
                 keep=os.environ.get('DST_KEEP_LOG'))
  if argv[0] == 'determinism':
    return determinism(argv[1], int(argv[2]) if len(argv) > 2 else 200, seed)
  raise SystemExit(__doc__)


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
