"""Bounded exhaustive exploration engine.

A check module (mc/checks/cNN.py) defines
  ID, TITLE, BOUND (text), ASSUMPTIONS (list of text)
  cases(tier)      -> the finite space, simplest case first; every item is JSON
  run(case, ctx)   -> executes the real code on one case and compares every
                      observation with the reference model; raises on a
                      disagreement.
The engine enumerates *every* case of the space over a pool of worker
processes, records states / transitions / traces, writes the evidence file and
turns a disagreement into a replay file plus a VIOLATION line.
"""
import importlib
import json
import multiprocessing as mp
import os
import queue as queue_mod
import sys
import time
import traceback

ROOT = '/verif'
REPO = '/repo'
CASE_LIMIT_S = 200.
DEADLINE_S = 760.
LEVEL = 'model_checking'


class Violation(Exception):
  """The implementation disagrees with the reference model."""


def load_check(prop):
  return importlib.import_module('mc.checks.%s' % prop.lower())


def known_findings():
  with open(os.path.join(ROOT, 'known_findings.json')) as f:
    return {e['id']: e for e in json.load(f)['findings'] if e['status'] == 'known'}


class Ctx(object):
  """Per-worker recorder of what was explored."""

  def __init__(self, tier):
    self.tier = tier
    self.states = set()
    self.transitions = 0
    self.outcomes = set()
    self.known = {}
    self.findings = known_findings()

  def state(self, key):
    self.states.add(hash(key))

  def step(self, n=1):
    """n operations of the implementation were executed and observed."""
    self.transitions += n

  def outcome(self, key):
    if len(self.outcomes) < 200000:
      self.outcomes.add(hash(key))

  def fail(self, msg):
    raise Violation(msg)

  def check(self, cond, msg):
    if not cond:
      raise Violation(msg() if callable(msg) else msg)

  def known_finding(self, fid, what):
    """Called when the exact input listed in the known-findings file fails."""
    if fid not in self.findings:
      raise Violation(what)
    self.known[fid] = self.findings[fid]['what']


def _worker(wid, prop, tier, counter, stop, cur, started, out, start_idx, n_total):
  import faulthandler
  faulthandler.enable()
  devnull = os.open(os.devnull, os.O_WRONLY)
  os.dup2(devnull, 1)
  if not os.environ.get('VERIF_DEBUG'):
    os.dup2(devnull, 2)
  ctx = None
  try:
    check = load_check(prop)
    cases = list(check.cases(tier))
    if n_total.value >= 0 and n_total.value != len(cases):
      raise RuntimeError('case enumeration is not deterministic')
    n_total.value = len(cases)
    chunk = max(1, min(16, len(cases) // 200))
    if getattr(check, 'CHUNK', None):
      chunk = check.CHUNK
    ctx = Ctx(tier)
    from mc import lib  # imports TensorFlow and the code under test
    lib.setup()
    done = 0
    violation = None
    while not stop.value and violation is None:
      with counter.get_lock():
        lo = counter.value
        counter.value = lo + chunk
      if lo >= len(cases):
        break
      for i in range(lo, min(lo + chunk, len(cases))):
        cur[wid] = i
        started[wid] = time.time()
        try:
          check.run(cases[i], ctx)
        except Exception as e:  # every unexpected exception is a disagreement
          violation = (i, cases[i], '%s: %s' % (type(e).__name__, str(e)[:3000]),
                       traceback.format_exc()[-6000:])
          stop.value = 1
          break
        done += 1
        if stop.value == 2:
          break
    cur[wid] = -1
    started[wid] = 0.
    out.put(('done', wid, done, ctx.states, ctx.transitions,
             ctx.outcomes, ctx.known, violation))
  except BaseException as e:
    started[wid] = 0.
    out.put(('error', wid, '%s\n%s' % (e, traceback.format_exc())))
  out.close()
  out.join_thread()
  os._exit(0)


def _run_single(prop, tier, idx, q):
  """Re-executes one case in a fresh process (crash confirmation, replay)."""
  check = load_check(prop)
  cases = list(check.cases(tier))
  from mc import lib
  lib.setup()
  ctx = Ctx(tier)
  try:
    check.run(cases[idx], ctx)
    q.put(None)
  except Exception as e:
    q.put(('%s: %s' % (type(e).__name__, str(e)[:3000]), traceback.format_exc()[-6000:]))


def write_replay(prop, tier, idx, case, msg, tb):
  d = os.path.join(ROOT, 'evidence', 'replays')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, '%s-%s-%d.json' % (prop, tier, idx))
  with open(path, 'w') as f:
    json.dump({'property': prop, 'tier': tier, 'index': idx, 'case': case,
               'message': msg, 'traceback': tb,
               'how_to_replay': '/opt/venv/bin/python /verif/run.py --replay %s' % path},
              f, indent=1)
  return path


def replay(path):
  with open(path) as f:
    r = json.load(f)
  check = load_check(r['property'])
  sys.path.insert(0, ROOT)
  from mc import lib
  lib.setup()
  msgs = []
  for _ in range(2):  # the same case must fail the same way every time
    try:
      check.run(r['case'], Ctx(r['tier']))
      msgs.append(None)
    except Exception as e:
      msgs.append('%s: %s' % (type(e).__name__, str(e)[:3000]))
  print('replayed twice: %s / %s' % tuple('violation' if m else 'no violation' for m in msgs))
  if msgs[0]:
    print(msgs[0])
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1
  return 0


def main(argv):
  if argv and argv[0] == '--replay':
    return replay(argv[1])
  prop = argv[0]
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  try:
    seed = int(os.environ.get('VERIF_SEED', '1'))
  except ValueError:
    seed = 1
  t0 = time.time()
  # Nothing here is random: the seed is recorded, no choice depends on it.
  os.environ['PYTHONHASHSEED'] = '0'
  os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
  os.environ['CUDA_VISIBLE_DEVICES'] = '-1'
  os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
  os.environ['OMP_NUM_THREADS'] = '1'
  os.environ['OPENBLAS_NUM_THREADS'] = '1'
  check = load_check(prop)
  workers = int(os.environ.get('VERIF_WORKERS', 0)) or max(1, min(8, os.cpu_count() or 1))
  cap = getattr(check, 'MAX_WORKERS', None)
  if cap:
    workers = min(workers, cap)
  ctx = mp.get_context('spawn')
  counter = ctx.Value('l', 0)
  stop = ctx.Value('i', 0)
  n_total = ctx.Value('l', -1)
  cur = ctx.Array('l', [-1] * workers)
  started = ctx.Array('d', [0.] * workers)
  out = ctx.Queue()
  procs = []
  for w in range(workers):
    p = ctx.Process(target=_worker, args=(w, prop, tier, counter, stop, cur,
                                          started, out, 0, n_total))
    p.daemon = True
    p.start()
    procs.append(p)
  pending = set(range(workers))
  states, outcomes, known = set(), set(), {}
  transitions = done = 0
  violations = []
  errors = []
  capped = False

  def handle(msg):
    nonlocal transitions, done, states, outcomes
    if msg[0] == 'error':
      errors.append(msg[2])
      stop.value = 2
    else:
      _, _, d, st, tr, oc, kn, viol = msg
      done += d
      states |= st
      outcomes |= oc
      transitions += tr
      known.update(kn)
      if viol is not None:
        violations.append(viol)
    pending.discard(msg[1])

  while pending:
    try:
      handle(out.get(timeout=1.))
      continue
    except queue_mod.Empty:
      pass
    now = time.time()
    if now - t0 > DEADLINE_S and not stop.value:
      stop.value = 2
      capped = True
    for w in list(pending):
      hung = started[w] > 0 and now - started[w] > CASE_LIMIT_S
      hard = now - t0 > DEADLINE_S + 60
      dead = not procs[w].is_alive()
      if not (hung or dead or hard):
        continue
      if dead:
        time.sleep(0.3)
        try:  # its message may still be in flight
          while True:
            handle(out.get(timeout=1.))
        except queue_mod.Empty:
          pass
        if w not in pending:
          continue
      idx = cur[w]
      procs[w].kill()
      pending.discard(w)
      if hard and not hung and not dead:
        capped = True
        continue
      stop.value = stop.value or 1
      if idx < 0:
        errors.append('worker %d ended with code %s outside a case' % (w, procs[w].exitcode))
        continue
      # Confirm in a fresh process.
      cases = list(check.cases(tier))
      q = ctx.Queue()
      p = ctx.Process(target=_run_single, args=(prop, tier, idx, q))
      p.daemon = True
      p.start()
      got = 'none'
      try:
        got = q.get(timeout=CASE_LIMIT_S if dead else 60.)
      except queue_mod.Empty:
        pass
      exitcode = p.exitcode
      p.kill()
      if got is None:
        errors.append('case %d ended worker %d (%s) but passes on its own' %
                      (idx, w, 'crash' if dead else 'hang'))
      elif got == 'none':
        violations.append((idx, cases[idx], 'the process %s while executing this case'
                           % ('crashed' if dead else 'hung'), ''))
      else:
        violations.append((idx, cases[idx], got[0], got[1]))
  for p in procs:
    p.join(timeout=5)
    if p.is_alive():
      p.kill()

  wall = time.time() - t0
  total = n_total.value
  violations.sort(key=lambda v: v[0])
  cases = list(check.cases(tier))
  exhaustive = (not capped and not violations and not errors and done == len(cases))
  samples = []
  for frac in (0., 0.3, 0.6, 0.95):
    if cases:
      samples.append(cases[int(frac * (len(cases) - 1))])
  evidence = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL,
      'coverage': {
          'states': len(states),
          'transitions': transitions,
          'traces_validated_against_impl': done,
          'distinct_outcomes': len(outcomes),
          'space_size': len(cases),
          'exhaustive': bool(exhaustive),
          'bound': check.BOUND,
          'samples': samples,
          'known_findings_seen': sorted(known),
      },
      'assumptions': check.ASSUMPTIONS,
      'wall_s': round(wall, 2),
      'violations': len(violations),
  }
  os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
  tmp = os.path.join(ROOT, 'evidence', '.%s.json.tmp' % prop)
  with open(tmp, 'w') as f:
    json.dump(evidence, f, indent=1)
  os.replace(tmp, os.path.join(ROOT, 'evidence', '%s.json' % prop))
  print('%s tier=%s states=%d transitions=%d traces=%d/%d outcomes=%d exhaustive=%s wall=%.1fs'
        % (prop, tier, len(states), transitions, done, len(cases), len(outcomes),
           exhaustive, wall))
  for fid in sorted(known):
    print('KNOWN-FINDING: property=%s %s: %s' % (prop, fid, known[fid]))
  if violations:
    idx, case, msg, tb = violations[0]
    path = write_replay(prop, tier, idx, case, msg, tb)
    print('case: %s' % json.dumps(case))
    print(msg)
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1
  if errors:
    print('CHECK ERROR: %s' % errors[0])
    return 3
  if capped:
    print('time cap reached: %d of %d cases explored' % (done, len(cases)))
  return 0
