"""C17: TT-variables: creation, reuse, assignment histories and schedules."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m

ID = 'C17'
CHUNK = 1
BOUND = ('eager: all histories of <=3 actions (<=4 in the thorough tier for one structure) over create / assign constant / assign other variable / '
         'assign functions of itself / eight kinds of rejected assignments, 11 structures; graph: all histories of 3 get_variable '
         'calls over 3 scopes x 3 names x reuse on/off; session: all histories of 4 init/assign runs; all schedules of the '
         'reads and writes of every assignment; regularizer, trainable, collections: all combinations for up to 8 TT-cores; every operation on the same variables before and after assignments; creation and assignment of all '
         'kinds of values for single axes to d=12, mode 40, rank 33, batch 64')
ASSUMPTIONS = ['operations other than reads and writes of variables are pure, so a schedule is an order of the reads and writes']

SPECS = [
    spec_t([3], [1, 1]),
    spec_t([2, 2], [1, 1, 1]),
    spec_t([2, 3], [1, 2, 1]),
    spec_t([2, 2, 2], [1, 2, 2, 1]),
    spec_t([3, 2, 2], [1, 3, 2, 1]),
    spec_m([2], [3], [1, 1]),
    spec_m([2, 2], [2, 2], [1, 2, 1]),
    spec_m([2, 1, 3], [1, 2, 2], [1, 2, 2, 1]),
    spec_t([2, 2], [1, 2, 1], 2),
    spec_t([2, 2, 2], [1, 2, 2, 1], 1),
    spec_m([2, 2], [1, 2], [1, 2, 1], 3),
]

# Structures for the collections, with up to 8 TT-cores.
COLLECTED = [spec_t([3], [1, 1]), spec_t([2, 2, 3], [1, 2, 2, 1]), spec_t([2, 2, 1, 2], [1, 2, 2, 2, 1]), spec_t([2] * 5, [1] * 6),
             spec_t([2] * 8, [1] + [2] * 7 + [1]), spec_m([2, 2, 1, 2], [1, 2, 2, 1], [1, 2, 2, 2, 1]), spec_t([2] * 6, [1, 2, 2, 1, 2, 2, 1], 2),
             spec_m([2, 1, 2, 1, 2], [1, 2, 1, 2, 1], [1, 2, 1, 2, 2, 1], 3)]

BAD = ('mode0', 'mode-1', 'rank', 'short', 'long', 'kind', 'batch', 'dtype')


def bad_specs(spec):
  """Structures whose assignment to a variable of this structure must fail."""
  kind, shape, ranks, batch = spec
  d = lib.ndims(spec)
  out = {}

  def bump(k):
    if kind == 't':
      s = list(shape)
      s[k] += 1
      return s
    s = [list(shape[0]), list(shape[1])]
    s[1][k] += 1
    return s
  out['mode0'] = [kind, bump(0), ranks, batch]
  if d > 1:
    out['mode-1'] = [kind, bump(d - 1), ranks, batch]
    r = list(ranks)
    r[d - 1] += 1
    out['rank'] = [kind, shape, r, batch]
    # A shorter train whose cores are those of the variable's beginning.
    cut = shape[:d - 1] if kind == 't' else [shape[0][:d - 1], shape[1][:d - 1]]
    out['short'] = [kind, cut, ranks[:d - 1] + [1], batch]
  # A longer train beginning like the variable.
  ext = shape + [2] if kind == 't' else [shape[0] + [2], shape[1] + [1]]
  out['long'] = [kind, ext, ranks + [1], batch]
  if kind == 't':
    out['kind'] = spec_m(shape, [1] * d, ranks, batch)
  else:
    out['kind'] = spec_t([a * b for a, b in zip(*shape)], ranks, batch)
  if batch is None:
    out['batch'] = [kind, shape, ranks, 1]
  else:
    out['batch'] = [kind, shape, ranks, batch + 1]
  out['dtype'] = spec
  return out


def actions(nvars, spec, tier):
  out = []
  if nvars < 2:
    for nm in ('a', 'b'):
      for s in (0, 1):
        out.append(['create', nm, s])
  for i in range(nvars):
    out.append(['const', i, 2])
    out.append(['copy', i, 1 - i if nvars == 2 else i])
    out.append(['double', i])
    out.append(['orth', i])
    if nvars == 2:
      out.append(['mix', i, 1 - i])
    if swappable(spec):
      out.append(['swap', i])
    out.append(['snap', i])
    for b in bad_specs(spec):
      out.append(['bad', i, b])
  return out


def swappable(spec):
  cs = lib.core_shapes(spec)
  return len(cs) >= 2 and all(c == cs[0] for c in cs)


def cases(tier):
  out = []
  for s in SPECS:
    for dt in ('float64', 'float32'):
      out.append(['create', s, dt])
  for s in lib.special_specs() + lib.axial_tensors() + lib.axial_matrices() + \
      [spec_t([1, 1], [1, 1, 1]), spec_m([1, 3], [1, 1], [1, 2, 1]), spec_m([1, 1], [2, 2], [1, 2, 1]), spec_t([1, 1], [1, 3, 1])]:
    for b in (None, 1, 4, 5):
      for dt in ('float64', 'float32'):
        out.append(['wide', lib.with_batch(s, b), dt])
  for s, b in lib.far_batches():
    out.append(['wide', lib.with_batch(s, b), 'float64'])
  for spec in SPECS:
    for first in (['create', 'a', 0],):
      for second in actions(1, spec, tier):
        if second[0] == 'create':
          for third in actions(2, spec, tier):
            out.append(['eager', spec, [first, second, third]])
        else:
          out.append(['eager', spec, [first, second]])
  for spec in SPECS:
    for vk in values(spec):
      out.append(['sched', spec, vk])
      out.append(['function', spec, vk])
  for spec in SPECS:
    for a in SESSION:
      out.append(['session', spec, a])
  for alphabet in range(2):
    gets = list(itertools.product(SCOPES[alphabet], NAMES[alphabet], (False, True)))
    for g in gets:
      for h in gets:
        out.append(['graph', [list(g), list(h)], alphabet])
  for reg in ('none', 'loss', 'returns none'):
    for tr in (True, False):
      for col in (None, ['mine'], ['mine', 'variables']):
        out.append(['collect', reg, tr, col])
  for fam in ('t1', 't2', 't3', 'm1', 'm2', 'm3'):
    out.append(['observe', fam])
  out.append(['args'])
  return out


# unrelated names and nested scopes; names and scopes that are beginnings and
# ends of one another
SCOPES = (('', 'x', 'x/y'), ('', 'a', 'ab'))
NAMES = (('a', 'b', 'y/a'), ('a', 'ab', 'ba'))
SESSION = ('init', 'const', 'double', 'copy', 'back', 'mix')


def values(spec):
  out = ['const', 'other', 'self', 'double', 'orth', 'mix', 'detach', 'roundmix']
  if swappable(spec):
    out.append('swap')
  return out


def np_value(kind, spec, x, y):
  """Reference: (dense) value of the assigned expression."""
  if kind in ('const',):
    return lib.make(spec, 7)[1]
  if kind in ('other',):
    return y
  if kind in ('self', 'orth', 'detach'):
    return x
  if kind in ('double',):
    return 2. * x
  raise AssertionError(kind)


def run(case, ctx):
  {'create': run_create, 'wide': run_wide, 'eager': run_eager, 'sched': run_sched, 'function': run_function,
   'session': run_session, 'observe': run_observe, 'graph': run_graph, 'collect': run_collect, 'args': run_args}[case[0]](case, ctx)


def like(spec, cores):
  """A TT-object from real cores, of the class of the spec."""
  return (lib.t3f.TensorTrain if spec[3] is None else lib.t3f.TensorTrainBatch)(cores)


def dense(spec, cores):
  return lib.np_dense(cores, spec[0] == 'm', spec[3] is not None)


def mix_expr(spec, x, y):
  """Core-wise mixture: each new core needs every core of both variables."""
  tf = lib.tf
  xs = [tf.convert_to_tensor(c) for c in x.tt_cores]
  ys = [tf.convert_to_tensor(c) for c in y.tt_cores]
  s = sum(tf.reduce_sum(c) for c in xs)
  return like(spec, [a + s * b for a, b in zip(xs, ys)])


def mix_np(spec, xc, yc):
  s = sum(c.sum() for c in xc)
  return [a + s * b for a, b in zip(xc, yc)]


def double_expr(x):
  return 2. * x


def orth_expr(spec, x):
  """Same tensor, other cores (a gauge transformation using all the cores)."""
  if lib.ndims(spec) == 1 or not lib.is_clipped(spec):
    return double_expr(x)
  return lib.t3f.orthogonalize_tt_cores(x)


def orth_np(spec, xd):
  if lib.ndims(spec) == 1 or not lib.is_clipped(spec):
    return 2. * xd
  return xd


# ---------------------------------------------------------------- creation

def run_create(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  _, spec, dt = case
  for scope, name in (('', 'v'), ('q', 'v'), ('q/w', 'v'), ('', 'n/v')):
    tt, d, cores = lib.make(spec, 3, dtype=dt)
    with tf.compat.v1.variable_scope(scope) if scope else _null():
      for dtype_arg in (None, lib.tf_dtype(dt)):
        kw = {} if dtype_arg is None else {'dtype': dtype_arg}
        v = t3f.get_variable(name, initializer=tt, **kw)
        ctx.step()
        lib.expect_tt(ctx, v, d, spec, 'get_variable', dtype=dt, max_ranks=spec[2])
        ctx.check(v.is_variable() is True, 'is_variable() of a variable is not True')
        path = (scope + '/' if scope else '') + name
        ctx.check(v.name == path, lambda: 'name of the variable is %r, expected %r' % (v.name, path))
        str(v)
        for c, ref in zip(v.tt_cores, cores):
          ctx.check(isinstance(c, tf.Variable), 'a TT-core of a variable is not a tf.Variable')
          ctx.check(np.array_equal(lib.npy(c), ref), 'a TT-core of a variable differs from the initializer')
    ctx.check(tt.is_variable() is False, 'is_variable() of a constant object is not False')
    ctx.check((v + v if lib.ndims(spec) > 1 else 2. * v).is_variable() is False, 'is_variable() of an expression is not False')
    # A variable used as the initializer of another one is copied.
    w = t3f.get_variable('copy', initializer=v)
    t3f.assign(v, lib.make(spec, 4, dtype=dt)[0])
    ctx.step(2)
    lib.expect_value(ctx, t3f.full(w), d, 'variable initialized from a variable', dtype=dt)


def run_wide(case, ctx):
  """Create, read, assign, assign itself and a variable; further structures and values."""
  tf, t3f = lib.tf, lib.t3f
  _, spec, dt = case
  snap, want = None, None
  v = t3f.get_variable('wide', initializer=lib.make(spec, 30, 'i', dt)[0])
  lib.expect_tt(ctx, v, lib.make(spec, 30, 'i', dt)[1], spec, 'get_variable', dtype=dt, max_ranks=spec[2])
  for k in lib.VARIANTS[1:] + ('i',):
    tt, d, cores = lib.make(spec, 31, k, dt)
    w = t3f.get_variable('other', initializer=tt)
    ctx.check(w.is_variable() is True, 'is_variable() of a variable is not True')
    for ref in (v, w):
      res = t3f.assign(ref, tt)
      for x, what in ((ref, 'assigned variable'), (res, 'result of assign')):
        lib.expect_tt(ctx, x, d, spec, what, dtype=dt, max_ranks=spec[2], scale=lib.core_scale(cores))
        for c, r in zip(x.tt_cores, cores):
          ctx.check(np.array_equal(lib.npy(c).astype(np.float64), r), 'a TT-core of the %s differs from the assigned one' % what)
      ctx.step()
    if snap is not None:
      ctx.check(np.array_equal(lib.npy(snap), want), 'a value computed before an assignment changed')
    snap = t3f.full(v)
    want = np.array(lib.npy(snap))
    t3f.assign(v, v)
    lib.unchanged(ctx, v, cores, 'assignment of a variable to itself')
    t3f.assign(v, w)
    lib.unchanged(ctx, v, cores, 'assignment of a variable to another')
    t3f.assign(w, lib.make(spec, 30, 'i', dt)[0])
    lib.unchanged(ctx, v, cores, 'assignment to the other variable')
    lib.unchanged(ctx, tt, cores, 'assignment')
    ctx.step(3)


class _null(object):

  def __enter__(self):
    return None

  def __exit__(self, *a):
    return False


# ---------------------------------------------------------- eager histories

def run_eager(case, ctx):
  _, spec, prefix = case
  depth = 3 if len(prefix) < 3 else 3
  if ctx.tier == 'thorough' and spec == SPECS[3]:
    depth = 4

  def rec(hist):
    execute(ctx, spec, hist)
    if len(hist) < depth:
      nv = sum(1 for a in hist if a[0] == 'create')
      for a in actions(nv, spec, ctx.tier):
        rec(hist + [a])
  rec(prefix)


def execute(ctx, spec, hist):
  tf, t3f = lib.tf, lib.t3f
  kind = 'r'
  real, model, snaps = [], [], []
  for step, a in enumerate(hist):
    last = step == len(hist) - 1
    op = a[0]
    if op == 'create':
      tt, _, cores = lib.make(spec, 11 + a[2], kind)
      real.append(t3f.get_variable(a[1], initializer=tt))
      model.append(dense(spec, cores))
    else:
      i = a[1]
      v = real[i]
      new = None
      if op == 'const':
        tt, d, _ = lib.make(spec, 20, kind)
        new, value = d, tt
      elif op == 'copy':
        new, value = model[a[2]], real[a[2]]
      elif op == 'double':
        new, value = 2. * model[i], double_expr(v)
      elif op == 'orth':
        new, value = orth_np(spec, model[i]), orth_expr(spec, v)
      elif op == 'mix':
        xc = [lib.npy(c) for c in v.tt_cores]
        yc = [lib.npy(c) for c in real[a[2]].tt_cores]
        new, value = dense(spec, mix_np(spec, xc, yc)), mix_expr(spec, v, real[a[2]])
      elif op == 'swap':
        xc = [lib.npy(c) for c in v.tt_cores]
        new = dense(spec, xc[1:] + xc[:1])
        cores = list(v.tt_cores)
        value = (t3f.TensorTrain if spec[3] is None else t3f.TensorTrainBatch)(
            cores[1:] + cores[:1], convert_to_tensors=False)
      elif op == 'snap':
        snaps.append((double_expr(v), 2. * model[i]))
      elif op == 'bad':
        bs = bad_specs(spec)[a[2]]
        tt = lib.make(bs, 5, kind, 'float32' if a[2] == 'dtype' else 'float64')[0]
        if last:
          lib.expect_raises(ctx, lambda: t3f.assign(v, tt), 'assign of a wrong structure (%s)' % a[2])
        else:
          try:
            t3f.assign(v, tt)
          except Exception:  # pylint: disable=broad-except
            pass
      if new is not None:
        r = t3f.assign(v, value)
        model[i] = new
        if last:
          lib.expect_tt(ctx, r, new, spec, 'result of assign', tol=1e-9)
    if last:
      ctx.step(len(hist))
      ctx.state((str(spec), str(hist)))
      for j, (v, d) in enumerate(zip(real, model)):
        lib.expect_tt(ctx, v, d, spec, 'variable %d after the history' % j, tol=1e-9, max_ranks=spec[2])
        ctx.check(v.is_variable() is True, 'variable is no longer a variable')
        lib.expect_value(ctx, t3f.full(v), d, 'full of variable %d after the history' % j, tol=1e-9)
      for s, d in snaps:
        lib.expect_tt(ctx, s, d, spec, 'object computed earlier from a variable', tol=1e-9)


# ------------------------------------------------- expressions for assign

def expr(kind, spec, x, y):
  """(TT-object, function of the NumPy cores giving the dense value)."""
  tf, t3f = lib.tf, lib.t3f
  if kind == 'const':
    tt, d, _ = lib.make(spec, 7, 'r', fresh=True)
    return tt, lambda xc, yc: d
  if kind == 'other':
    return y, lambda xc, yc: dense(spec, yc)
  if kind == 'self':
    return x, lambda xc, yc: dense(spec, xc)
  if kind == 'detach':
    return like(spec, [c + 0. for c in x.tt_cores]), lambda xc, yc: dense(spec, xc)
  if kind == 'double':
    return double_expr(x), lambda xc, yc: 2. * dense(spec, xc)
  if kind == 'orth':
    return orth_expr(spec, x), lambda xc, yc: orth_np(spec, dense(spec, xc))
  if kind == 'mix':
    return mix_expr(spec, x, y), lambda xc, yc: dense(spec, mix_np(spec, xc, yc))
  if kind == 'swap':
    cores = list(x.tt_cores)
    return ((t3f.TensorTrain if spec[3] is None else t3f.TensorTrainBatch)(
        cores[1:] + cores[:1], convert_to_tensors=False),
            lambda xc, yc: dense(spec, xc[1:] + xc[:1]))
  if kind == 'roundmix':
    if lib.ndims(spec) == 1 or not lib.is_clipped(spec):
      return double_expr(x), lambda xc, yc: 2. * dense(spec, xc)
    # x + x has exactly the TT-ranks of x after rounding.
    return t3f.round(x + x, max_tt_rank=np.array(spec[2])), lambda xc, yc: 2. * dense(spec, xc)
  raise AssertionError(kind)


def run_function(case, ctx):
  """Assignments inside tf.function: program order is the only order."""
  tf, t3f = lib.tf, lib.t3f
  _, spec, kind = case
  for order in ('read after', 'twice', 'read before'):
    x = t3f.get_variable('x', initializer=lib.make(spec, 1, 'r')[0])
    y = t3f.get_variable('y', initializer=lib.make(spec, 2, 'r')[0])
    xc, yc = lib.make(spec, 1, 'r')[2], lib.make(spec, 2, 'r')[2]
    ref = expr(kind, spec, x, y)[1]

    @tf.function
    def f():
      before = t3f.full(x)
      t3f.assign(x, expr(kind, spec, x, y)[0])
      if order == 'twice':
        t3f.assign(y, lib.build(spec, lib.make(spec, 3, 'r')[2]))
      return before, t3f.full(x), t3f.full(y)
    got = f()
    new = ref(xc, yc)
    newy = lib.make(spec, 3, 'r')[1] if order == 'twice' else dense(spec, yc)
    ctx.step(3)
    ctx.state((str(spec), kind, order))
    for g, e, w in zip(got, (dense(spec, xc), new, newy), ('read before assign', 'read after assign', 'other variable')):
      lib.expect_value(ctx, g, e, 'tf.function %s' % w, tol=1e-9)
    lib.expect_tt(ctx, x, new, spec, 'variable after tf.function with assign', tol=1e-9)
    lib.expect_tt(ctx, y, newy, spec, 'other variable after tf.function with assign', tol=1e-9)


# ---------------------------------------------------------------- schedules

READ, WRITE = ('ReadVariableOp',), ('AssignVariableOp',)
PURE_RESOURCE = ('VarHandleOp',)


def schedule_graph(fetches):
  """Events (reads / writes of variables) below the fetches and their order.

  Returns (events, before) with before[e] the set of events that must precede
  e, or None when the graph contains a stateful operation that is not a plain
  read or write (then only the runtime's own schedule is executed).
  """
  seen, stack, ops = set(), [f.op for f in fetches], []
  while stack:
    op = stack.pop()
    if op in seen:
      continue
    seen.add(op)
    ops.append(op)
    stack += [t.op for t in op.inputs] + list(op.control_inputs)
  events = []
  for op in ops:
    if op.type in READ or op.type in WRITE:
      events.append(op)
    elif any(t.dtype == lib.tf.resource for t in op.inputs) or (
        op.type in ('PartitionedCall', 'StatefulPartitionedCall')):
      return None
  events.sort(key=lambda o: o.name)
  memo = {}

  def anc(op):
    if op not in memo:
      memo[op] = frozenset()
      r = set()
      for p in [t.op for t in op.inputs] + list(op.control_inputs):
        r |= anc(p)
        if p in evset:
          r.add(p)
      memo[op] = frozenset(r)
    return memo[op]
  evset = set(events)
  return events, {e: anc(e) for e in events}


def handle(op):
  return op.inputs[0].op.name


def run_sched(case, ctx):
  """Every order of the reads and writes allowed by the graph's edges."""
  tf, t3f = lib.tf, lib.t3f
  v1 = tf.compat.v1
  _, spec, kind = case
  xc, yc = lib.make(spec, 1, 'r')[2], lib.make(spec, 2, 'r')[2]
  g = tf.Graph()
  with g.as_default():
    x = t3f.get_variable('x', initializer=lib.build(spec, xc))
    y = t3f.get_variable('y', initializer=lib.build(spec, yc))
    value, ref = expr(kind, spec, x, y)
    a = t3f.assign(x, value)
    fetches = [tf.convert_to_tensor(c) for c in a.tt_cores]
    back = [tf.convert_to_tensor(c) for c in list(x.tt_cores) + list(y.tt_cores)]
    init = v1.global_variables_initializer()
    new = ref(xc, yc)
    sg = schedule_graph(fetches)
  cfg = v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
  with v1.Session(graph=g, config=cfg) as s:
    # The runtime's own schedule.
    s.run(init)
    got = s.run(fetches)
    after = s.run(back)
    ctx.step()
    nx = len(xc)
    ctx.check(lib.close(dense(spec, got), new, tol=1e-9), lambda: 'assign (%s) returned %s' % (kind, lib.describe(dense(spec, got), new)))
    ctx.check(lib.close(dense(spec, after[:nx]), new, tol=1e-9), lambda: 'variable after assign (%s): %s' % (
        kind, lib.describe(dense(spec, after[:nx]), new)))
    ctx.check(all(np.array_equal(p, q) for p, q in zip(after[nx:], yc)), 'assign changed another variable')
    if sg is None:
      ctx.outcome('undecided')
      return
    events, before = sg
    writes = [e for e in events if e.type in WRITE]
    ctx.check(len(writes) == nx, lambda: 'assign writes %d variables, expected %d' % (len(writes), nx))
    contents = {}
    for c, q in list(zip(x.tt_cores, xc)) + list(zip(y.tt_cores, yc)):
      contents[c.handle.op.name] = ('old', c.handle.op.name)
    # DFS over schedules.  The contents of a variable are represented by the
    # write that produced them, hence equal situations are recognised exactly.
    start = (frozenset(), tuple(sorted(contents.items())), ())
    seen = {start}
    stack = [start]
    finals = set()
    while stack:
      done, cont, obs = stack.pop()
      rest = [e for e in events if e not in done]
      if not rest:
        finals.add((cont, obs))
      for e in rest:
        if not before[e] <= done:
          continue
        c, o = dict(cont), dict(obs)
        if e.type in READ:
          o[e.name] = c[handle(e)]
        else:
          # What a write stores is determined by what the reads below saw.
          c[handle(e)] = (e.name, tuple(sorted((r.name, o[r.name]) for r in before[e] if r.type in READ)))
        ns = (done | {e}, tuple(sorted(c.items())), tuple(sorted(o.items())))
        ctx.step()
        if ns not in seen:
          seen.add(ns)
          stack.append(ns)
          ctx.check(len(seen) < 200000, 'schedule space is unexpectedly large')
    for n in seen:
      ctx.state((str(spec), kind, hash(n)))
    # Execute the real operations for every distinct class of schedules.
    byname = {e.name: e for e in events}

    def ev(sym):
      """Value stored in a variable, computed by running the real graph."""
      if sym[0] == 'old':
        i = old_names.index(sym[1])
        return (xc + yc)[i]
      if sym not in cache:
        feed = {byname[r].outputs[0]: ev(o) for r, o in sym[1]}
        cache[sym] = s.run(byname[sym[0]].inputs[1], feed)
      return cache[sym]
    old_names = [c.handle.op.name for c in list(x.tt_cores) + list(y.tt_cores)]
    cache = {}
    for cont, obs in sorted(finals, key=str):
      c = dict(cont)
      got = dense(spec, [ev(c[n]) for n in old_names[:nx]])
      ctx.check(lib.close(got, new, tol=1e-9), lambda: 'variable after assign (%s) under a schedule allowed by the graph %s: %s' % (
          kind, sorted(obs), lib.describe(got, new)))
      o = dict(obs)
      feed = {byname[r].outputs[0]: ev(w) for r, w in o.items()}
      res = dense(spec, s.run(fetches, feed)) if feed else None
      if res is not None:
        ctx.check(lib.close(res, new, tol=1e-9), lambda: 'result of assign (%s) under a schedule allowed by the graph: %s' % (
            kind, lib.describe(res, new)))
    ctx.outcome((kind, len(finals)))


# ------------------------------------------------------- session histories

def run_session(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  v1 = tf.compat.v1
  _, spec, first = case
  g = tf.Graph()
  xc, yc = lib.make(spec, 1, 'r')[2], lib.make(spec, 2, 'r')[2]
  with g.as_default():
    x = t3f.get_variable('x', initializer=lib.build(spec, xc))
    with v1.variable_scope('inner'):
      y = t3f.get_variable('x', initializer=lib.build(spec, yc))
    const = lib.make(spec, 7, 'r')[2]
    ops = {'init': v1.global_variables_initializer()}
    for nm, val in (('const', lib.build(spec, const)), ('double', double_expr(x)), ('copy', y), ('mix', mix_expr(spec, x, y))):
      ops[nm] = [tf.convert_to_tensor(c) for c in t3f.assign(x, val).tt_cores]
    ops['back'] = [tf.convert_to_tensor(c) for c in t3f.assign(y, double_expr(x)).tt_cores]
    cores = [tf.convert_to_tensor(c) for c in list(x.tt_cores) + list(y.tt_cores)]
    fulls = [t3f.full(x), t3f.full(y)]
    g.finalize()
  n = len(xc)
  cfg = v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
  s = v1.Session(graph=g, config=cfg)
  s.run(ops['init'])
  depth = 3 if ctx.tier == 'quick' else 4

  def rec(hist, state):
    if len(hist) == depth:
      return
    for a in SESSION:
      if not hist and a != first:
        continue
      # Put the session back to this state, then take the step.
      mx, my = [list(c) for c in state]
      restore(s, x, y, mx, my)
      s.run(ops[a])
      if a == 'init':
        mx, my = xc, yc
      elif a == 'const':
        mx = const
      elif a == 'copy':
        mx = my
      elif a == 'mix':
        mx = mix_np(spec, mx, my)
      got, (fx, fy) = s.run([cores, fulls])
      gx, gy = got[:n], got[n:]
      dx = 2. * dense(spec, mx) if a == 'double' else dense(spec, mx)
      dy = 2. * dense(spec, mx) if a == 'back' else dense(spec, my)
      ctx.step()
      h = hist + [a]
      for got_, want, w in ((dense(spec, gx), dx, 'first'), (fx, dx, 'full of the first'), (dense(spec, gy), dy, 'second'), (fy, dy, 'full of the second')):
        ctx.check(lib.close(got_, want, tol=1e-9), lambda: 'history %s: %s variable: %s' % (h, w, lib.describe(got_, want)))
      ctx.state((str(spec), str(h)))
      rec(h, (gx, gy))
  rec([], (xc, yc))
  s.close()


def restore(s, x, y, mx, my):
  for c, val in zip(list(x.tt_cores) + list(y.tt_cores), mx + my):
    s.run(c.initializer, {c.initializer.inputs[1]: val})


# ---------------------------------------------- creation and reuse in graphs

def run_graph(case, ctx):
  _, prefix, alphabet = case
  gets = list(itertools.product(SCOPES[alphabet], NAMES[alphabet], (False, True)))
  for third in gets:
    one_graph(ctx, prefix + [list(third)])


def one_graph(ctx, hist):
  tf, t3f = lib.tf, lib.t3f
  v1 = tf.compat.v1
  spec = spec_t([2, 2], [1, 2, 1])
  g = tf.Graph()
  model = {}
  ctx.state(str(hist))
  with g.as_default():
    inits = [lib.build(spec, lib.make(spec, 30 + k, 'r', 'float32')[2], 'float32') for k in range(len(hist))]
    for k, (scope, name, reuse) in enumerate(hist):
      path = (scope + '/' if scope else '') + name

      def get():
        ini = None if reuse else inits[k]
        if scope:
          with v1.variable_scope(scope, reuse=reuse or None):
            return t3f.get_variable(name, initializer=ini)
        if reuse:
          with v1.variable_scope(v1.get_variable_scope(), reuse=True):
            return t3f.get_variable(name, initializer=ini)
        return t3f.get_variable(name, initializer=ini)
      ctx.step()
      if reuse != (path in model):
        lib.expect_raises(ctx, get, 'get_variable %s, reuse %s, existing %s' % (path, reuse, sorted(model)), ValueError)
      else:
        v = get()
        ctx.check(v.name == path, lambda: 'name %r, expected %r' % (v.name, path))
        ctx.check(v.is_variable() is True, 'get_variable did not return a variable')
        hs = [c.handle.op.name for c in v.tt_cores]
        if reuse:
          ctx.check(hs == model[path][0], 'reuse returned other variables')
        else:
          for p, (ohs, _) in model.items():
            ctx.check(not set(ohs) & set(hs), 'two variables share a TT-core')
          model[path] = (hs, k)
    glob = {c.handle.op.name for c in v1.global_variables()}
    want = {h for hs, _ in model.values() for h in hs}
    ctx.check(want <= glob, 'TT-cores missing from the global variables')
    ctx.check({c.handle.op.name for c in v1.trainable_variables()} >= want, 'TT-cores missing from the trainable variables')
    if len(model) == len(hist) or hist[-1][2]:
      reads = {p: [tf.convert_to_tensor(c) for c in v1.global_variables() if c.handle.op.name in hs]
               for p, (hs, _) in model.items()}
      init = v1.global_variables_initializer()
      with v1.Session(graph=g, config=v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)) as s:
        s.run(init)
        for p, (hs, k) in model.items():
          got = s.run(reads[p])
          want = lib.make(spec, 30 + k, 'r', 'float32')[2]
          ctx.check(all(np.array_equal(a, b) for a, b in zip(got, want)), 'variable %s is not initialized to its initializer' % p)
    ctx.outcome((tuple(sorted(model)),))


def run_observe(case, ctx):
  """Every operation on the same variables before and after assignments."""
  contexts.variables(case[1], ctx)


def run_collect(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  _, reg, trainable, col = case
  for spec in COLLECTED:
    collect(ctx, spec, reg, trainable, col)
  # Eager variables respect the flag as well.
  for s2 in SPECS + COLLECTED:
    v = t3f.get_variable('v', initializer=lib.make(s2, 1)[0], trainable=trainable)
    ctx.step()
    ctx.check(all(c.trainable == trainable for c in v.tt_cores), 'trainable flag of the eager TT-cores is wrong')
    with tf.GradientTape() as tape:
      loss = t3f.frobenius_norm_squared(v, differentiable=True)
      loss = tf.reduce_sum(loss)
    grads = tape.gradient(loss, list(v.tt_cores))
    ctx.check(all((gr is not None) == trainable for gr in grads), 'the tape watches cores of a %s variable' % (
        'trainable' if trainable else 'non-trainable'))


def collect(ctx, spec, reg, trainable, col):
  tf, t3f = lib.tf, lib.t3f
  v1 = tf.compat.v1
  g = tf.Graph()
  calls = []

  def regularizer(tt):
    calls.append(tt)
    return tf.reduce_sum(t3f.frobenius_norm_squared(tt)) if reg == 'loss' else None
  with g.as_default():
    tt = lib.build(spec, lib.make(spec, 1)[2])
    kw = {} if reg == 'none' else {'regularizer': regularizer}
    v = t3f.get_variable('v', initializer=tt, trainable=trainable, collections=col, **kw)
    ctx.step()
    losses = v1.get_collection(v1.GraphKeys.REGULARIZATION_LOSSES)
    ctx.check(len(losses) == (1 if reg == 'loss' else 0), lambda: '%d regularization losses' % len(losses))
    ctx.check(len(calls) == (0 if reg == 'none' else 1), 'regularizer was called %d times' % len(calls))
    if calls:
      ctx.check([c.handle.op.name for c in calls[0].tt_cores] == [c.handle.op.name for c in v.tt_cores],
                'regularizer was applied to something else')
    names = [c.handle.op.name for c in v.tt_cores]
    tr = [c.handle.op.name for c in v1.trainable_variables()]
    ctx.check(sorted(tr) == sorted(names if trainable else []), lambda: 'trainable variables %s' % tr)
    for cname in ('mine', 'variables'):
      want = names if (cname in col if col else cname == 'variables') else []
      got = [c.handle.op.name for c in v1.get_collection(cname)]
      ctx.check(sorted(got) == sorted(want), lambda: 'collection %s: %s, expected %s' % (cname, got, want))
    ctx.check(all(c.trainable == trainable for c in v.tt_cores), 'trainable flag of the TT-cores is wrong')
    # Reusing the variable does not apply the regularizer again.
    with v1.variable_scope(v1.get_variable_scope(), reuse=True):
      w = t3f.get_variable('v', dtype=tf.float64, **kw)
    ctx.step()
    ctx.check([c.handle.op.name for c in w.tt_cores] == names, 'reuse returned other variables')
    ctx.check(len(v1.get_collection(v1.GraphKeys.REGULARIZATION_LOSSES)) == (1 if reg == 'loss' else 0),
              'reuse added a regularization loss')
    if reg == 'loss':
      with v1.Session(graph=g) as s:
        init = v1.variables_initializer(list(v.tt_cores))
        s.run(init)
        lib.expect_value(ctx, s.run(losses[0]), np.sum(lib.make(spec, 1)[1] ** 2), 'regularization loss', check_dtype=False)


def run_args(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  v1 = tf.compat.v1
  lib.expect_raises(ctx, lambda: t3f.get_variable('v'), 'get_variable without an initializer', ValueError)
  for spec in SPECS:
    for dt, other in (('float32', 'float64'), ('float64', 'float32')):
      tt = lib.make(spec, 1, dtype=dt)[0]
      lib.expect_raises(ctx, lambda: t3f.get_variable('v', dtype=lib.tf_dtype(other), initializer=tt),
                        'get_variable with another dtype', ValueError)
      ctx.step()
    for dt in ('float32', 'float64'):
      g = tf.Graph()
      with g.as_default():
        cores = lib.make(spec, 1, dtype=dt)[2]
        tt = lib.build(spec, cores, dt)
        lib.expect_raises(ctx, lambda: t3f.get_variable('v'), 'get_variable without an initializer in a graph', ValueError)
        v = t3f.get_variable('v', initializer=tt)
        e = lib.build(spec, cores, dt)
        with v1.Session() as s:
          s.run(v1.global_variables_initializer())
          lib.expect_value(ctx, s.run(t3f.full(v)), lib.make(spec, 1, dtype=dt)[1], 'variable of a graph', dtype=dt, check_dtype=False)
          for c, ref in zip(s.run(list(map(tf.convert_to_tensor, v.tt_cores))), cores):
            ctx.check(np.array_equal(c, ref) and c.dtype == dt, 'TT-core of a graph variable is wrong')
        ctx.step(2)
        for bad, bs in bad_specs(spec).items():
          odt = {'float32': 'float64', 'float64': 'float32'}[dt] if bad == 'dtype' else dt
          b = lib.build(bs, lib.make(bs, 5, dtype=odt)[2], odt)
          lib.expect_raises(ctx, lambda: t3f.assign(v, b), 'assign of a wrong structure in a graph (%s)' % bad)
          ctx.step()
