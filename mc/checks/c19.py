"""C19: regularizers of TT-objects."""
import numpy as np

from mc import lib

ID = 'C19'
BOUND = ('tensors d<=3 modes and ranks over {1,2,3}, matrices d<=3, batches 1..5 and single axes; tiny, huge, unbalanced, variable and zero objects; scales: 13 numbers from 1e-20 to 1e7, NumPy numbers and tensors '
         'per object; four per-core penalties; eager, tf.function and graph variables; every rejected scale (integers of all kinds, negatives)')
ASSUMPTIONS = []

SCALES = (0.5, 1.0, 2.0, 1e-3, 7.25, 1e-5, 1e-9, 1e-20, 100., 1e7)


def cases(tier):
  out = [['bad']]
  specs = lib.small_tensors((1, 2, 3)) + lib.small_matrices((1, 2, 3)) + lib.axial_tensors() + lib.axial_matrices()
  for s in specs:
    out.append(['l2', s])
    out.append(['cores', s])
  for s in lib.small_tensors((1, 2), rank_values=(1, 2)) + lib.small_matrices((1, 2)):
    out.append(['variable', s])
  return out


FAR = [s for s, b in lib.far_batches() if b == 17]

PEN = {
    'l2': (lambda c: lib.tf.nn.l2_loss(c), lambda c: 0.5 * np.sum(c ** 2)),
    'l1': (lambda c: lib.tf.reduce_sum(lib.tf.abs(c)), lambda c: np.sum(np.abs(c))),
    'sum': (lambda c: lib.tf.reduce_sum(c), np.sum),
    'size': (lambda c: lib.tf.cast(lib.tf.size(c), c.dtype) ** 2, lambda c: float(c.size) ** 2),
}


def scales(dt):
  tf = lib.tf
  out = [(s, s) for s in SCALES]
  out += [(np.float32(0.25), 0.25), (np.float64(3.), 3.), (tf.constant(1.5, lib.tf_dtype(dt)), 1.5)]
  return out


def run(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  reg = t3f.regularizers
  if case[0] == 'bad':
    fns = [('l2_regularizer', lambda s, **kw: reg.l2_regularizer(s, **kw)),
           ('cores_regularizer', lambda s, **kw: reg.cores_regularizer(tf.nn.l2_loss, s, **kw))]
    for name, f in fns:
      for s in (0, 1, -1, 2, 100, True, False, np.int64(1), np.int32(2), np.int8(0), np.uint8(3),
                -1., -0.5, -1e-10, -1e10, np.float64(-2.), np.float32(-0.5), -float('inf')):
        lib.expect_raises(ctx, lambda: f(s), '%s with scale %r' % (name, s), ValueError)
        lib.expect_raises(ctx, lambda: f(s, scope='sc'), '%s with scale %r and a scope' % (name, s), ValueError)
        ctx.step(2)
        ctx.state((name, repr(s)))
      for s in (0., -0., np.float64(0.), np.float32(0.)):
        for spec in (['t', [2, 3], [1, 2, 1], None], ['m', [[2], [2]], [1, 1], None], ['t', [2], [1, 1], 2]):
          for dt in ('float32', 'float64'):
            r = f(s)(lib.make(spec, 1, dtype=dt)[0])
            ctx.step()
            ctx.check(r is None, '%s with scale 0 gives %r instead of nothing' % (name, r))
    return
  spec = case[1]
  if case[0] == 'variable':
    cores, d = lib.make(spec, 2, 'r')[2], lib.make(spec, 2, 'r')[1]
    for dt, tol in (('float64', 1e-10), ('float32', 1e-4)):
      for s in (0., 0.5, 3.):
        g = tf.Graph()
        v1 = tf.compat.v1
        with g.as_default():
          v1.set_random_seed(1)
          t3f.get_variable('v', initializer=lib.build(spec, cores, dt), regularizer=reg.l2_regularizer(s))
          t3f.get_variable('w', initializer=lib.build(spec, cores, dt), regularizer=reg.cores_regularizer(PEN['l2'][0], s))
          losses = v1.get_collection(v1.GraphKeys.REGULARIZATION_LOSSES)
          ctx.step(2)
          ctx.state((str(spec), dt, s))
          ctx.check(len(losses) == (0 if s == 0. else 2), 'scale %g: %d regularization losses' % (s, len(losses)))
          if s:
            with v1.Session(config=v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)) as sess:
              sess.run(v1.global_variables_initializer())
              a, b = sess.run(losses)
            ctx.check(abs(a - s * np.sum(d ** 2)) <= tol * (1 + s * np.sum(d ** 2)), 'l2 loss of a variable: %r, expected %r' % (a, s * np.sum(d ** 2)))
            e = s * sum(PEN['l2'][1](c) for c in cores)
            ctx.check(abs(b - e) <= tol * (1 + e), 'cores loss of a variable: %r, expected %r' % (b, e))
    return
  todo = [(b, 'r', dt) for b in (None, 1, 2, 3, 4, 5) for dt in ('float64', 'float32')]
  if spec in FAR:
    todo += [(b, 'r', 'float64') for b in (9, 17, 33)]
  todo += [(b, k, 'float64') for b in (None, 2) for k in lib.VARIANTS[1:]]
  for batch, kind, dt in todo:
    sp = lib.with_batch(spec, batch)
    if True:
      tt, d, cores = lib.make(sp, 3, kind, dt)
      ctx.state((case[0], str(sp), kind, dt))
      fro = np.sum(d ** 2) if batch is None else np.sum(d.reshape(batch, -1) ** 2, axis=1)
      for arg, s in scales(dt)[:None if dt == 'float64' and kind == 'r' and lib.ndims(spec) <= 2 else 2] + scales(dt)[-1:]:
        if case[0] == 'l2':
          for kw in ({}, {'scope': 'my'}):
            lib.expect_value(ctx, reg.l2_regularizer(arg, **kw)(tt), s * fro, 'l2_regularizer', dtype=dt,
                             scale=s * lib.core_scale(cores, cores) if '+' in kind or s < 0.1 else None)
            ctx.step()
        else:
          for nm, (f, g) in PEN.items():
            e = s * sum(g(c) for c in cores)
            lib.expect_value(ctx, reg.cores_regularizer(f, arg)(tt), e, 'cores_regularizer %s' % nm, dtype=dt,
                             scale=s * sum(np.abs(c).sum() for c in cores))
            ctx.step()
      if batch is None or batch == 2:
        r = reg.l2_regularizer(0.5) if case[0] == 'l2' else reg.cores_regularizer(PEN['l1'][0], 0.5)
        e = 0.5 * fro if case[0] == 'l2' else 0.5 * sum(np.abs(c).sum() for c in cores)
        if lib.ndims(spec) <= 2 and dt == 'float64':
          lib.expect_value(ctx, tf.function(lambda: r(tt))(), e, 'regularizer in tf.function', dtype=dt)
          ctx.step()
      lib.unchanged(ctx, tt, cores, 'regularizer')
