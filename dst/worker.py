"""One simulation process: runs its share of the cases, or one replay.

Protocol: one JSON object per line on fd 3 (a pipe from the runner).
"""
import json
import os
import sys
import time


def setup():
  import jax  # pylint: disable=g-import-not-at-top
  from dst import intercept  # pylint: disable=g-import-not-at-top
  intercept.install()
  from dst import hosts  # pylint: disable=g-import-not-at-top
  hosts.install()
  return jax


def main():
  req = json.loads(sys.argv[1])
  out = os.fdopen(req['fd'], 'w', buffering=1)

  def emit(**kw):
    out.write(json.dumps(kw) + '\n')
    out.flush()

  setup()
  from dst import execute as ex  # pylint: disable=g-import-not-at-top
  from dst import minimise  # pylint: disable=g-import-not-at-top
  from dst import registry  # pylint: disable=g-import-not-at-top
  prop = req['prop']
  mod = registry.load(prop)
  emit(t='ready')
  if req['mode'] == 'replay':
    o = ex.execute(mod, prop, req['case'])
    emit(t='replayed', kind=o.violation.kind if o.violation else None,
         message=o.violation.message if o.violation else None,
         digest=o.ctx.stats.digest(), error=o.error,
         events=o.ctx.stats.events, choices=o.ctx.choices.log)
    return
  if req['mode'] == 'minimise':
    best, tried = minimise.minimise(mod, prop, req['case'], req['kind'],
                                    time.monotonic() + req['seconds'],
                                    lambda c: emit(t='best', case=c))
    emit(t='minimised', case=best, tried=tried)
    return
  # search
  deadline = time.monotonic() + req['seconds']
  g = req['first']
  last = time.monotonic()
  while g < req['groups'] and time.monotonic() < deadline:
    for k in range(req['per_group']):
      if time.monotonic() > deadline:
        break
      case = ex.make_case(mod, prop, req['seed'], g, k, req['tier'])
      emit(t='start', g=g, k=k)
      t0 = time.monotonic()
      o = ex.execute(mod, prop, case)
      dt = time.monotonic() - t0
      st = o.ctx.stats
      if o.error:
        emit(t='error', g=g, k=k, case=case, error=o.error)
        continue
      if o.violation:
        emit(t='violation', g=g, k=k, case=case, kind=o.violation.kind,
             message=o.violation.message, choices=o.ctx.choices.log,
             digest=st.digest())
        if not req.get('keep_going'):
          return
      sample = case if (g < 4 and k == 0) else None
      emit(t='run', g=g, k=k, digest=st.digest(), counts=st.counts,
           faults=st.faults, probes=st.probes, sim_time=st.sim_time,
           events=st.events, nontrivial=bool(o.ctx.nontrivial), wall=dt,
           sample=sample, planned=len(case.get('faults', [])),
           choices=len(o.ctx.choices.log))
    g += req['stride']
  emit(t='end')


if __name__ == '__main__':
  main()
