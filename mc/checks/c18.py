"""C18: the TT dense layer is the dense layer of its matrix."""
import itertools

import numpy as np

from mc import lib

ID = 'C18'
BOUND = ('input x output dims: all d<=2 over {1,2,3}, all d=3 over {1,2}, single axes to d=7, size 16; TT-rank default, 1..5, 8 and per-rank arrays; '
         '5 forms of dims; 11 activations and none, bias on/off with 4 initial values, 3 kernel initializers (all combinations for 4 shapes); '
         'inputs: the identity (hence every input, by linearity before the activation), batches 0..3, arrays and tensors; eager, '
         'tf.function with known and unknown batch, Sequential; all histories of 3 updates of weights')
ASSUMPTIONS = ['layers are float32, as the library documents no other choice']

ACT = {
    None: lambda x: x,
    'linear': lambda x: x,
    'relu': lambda x: np.maximum(x, 0),
    'tanh': np.tanh,
    'sigmoid': lambda x: 1 / (1 + np.exp(-x)),
    'softplus': lambda x: np.log1p(np.exp(x)),
    'softsign': lambda x: x / (1 + np.abs(x)),
    'elu': lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))),
    'selu': lambda x: 1.0507009873554805 * np.where(x > 0, x, 1.6732632423543772 * np.expm1(np.minimum(x, 0))),
    'exponential': np.exp,
    'softmax': lambda x: np.exp(x - x.max(-1, keepdims=True)) / np.exp(x - x.max(-1, keepdims=True)).sum(-1, keepdims=True),
    'relu6': lambda x: np.clip(x, 0, 6),
}


def shapes():
  out = []
  for d in (1, 2):
    for i in itertools.product((1, 2, 3), repeat=d):
      for o in itertools.product((1, 2, 3), repeat=d):
        out.append([list(i), list(o)])
  for i in itertools.product((1, 2), repeat=3):
    for o in itertools.product((1, 2), repeat=3):
      out.append([list(i), list(o)])
  out += [[[2, 3, 2], [3, 1, 4]], [[2] * 4, [3, 1, 2, 2]], [[1, 2, 1, 2, 1], [2, 1, 2, 1, 2]], [[7, 2], [3, 5]], [[4, 4], [4, 4]], [[5], [7]],
          [[2, 1, 2, 2, 1, 2], [1, 2, 2, 1, 3, 1]], [[6, 5], [5, 6]], [[2, 3, 4], [4, 3, 2]], [[16], [3]], [[3], [16]], [[9, 8], [2, 1]],
          [[1] * 4, [2] * 4], [[2] * 4, [1] * 4], [[2] * 7, [1, 2, 1, 2, 1, 2, 1]]]
  return out


def patterns(d):
  """A few unequal TT-ranks."""
  return [[1] + [1 + (a * k + b) % 5 for k in range(d - 1)] + [1] for a, b in ((1, 1), (2, 2), (4, 3), (3, 0))] if d > 1 else []


def cases(tier):
  out = []
  for s in shapes():
    d = len(s[0])
    for r in [None, 1, 2, 3, 4, 5, 8] + [[1] + list(p) + [1] for p in itertools.product((1, 2, 3), repeat=d - 1) if d <= 3 or (d <= 5 and max(p) < 3)][:30] + patterns(d):
      out.append(['layer', s, r])
  for s in ([[2, 3], [3, 2]], [[3], [2]], [[2, 1, 2], [1, 3, 2]], [[1, 1], [2, 2]]):
    for a in ACT:
      for ub in ('default', True, False):
        for b in ('default', 0., -1.5, 2):
          for k in ('default', 'glorot', 'he', 'lecun'):
            out.append(['config', s, a, ub, b, k])
  for s in ([[2, 3], [3, 2]], [[3], [2]], [[2, 1, 2], [1, 3, 2]]):
    for f in ('list', 'tuple', 'array', 'int64', 'int32'):
      out.append(['form', s, f])
    out.append(['bad', s])
    for h in itertools.product(('matrix', 'bias', 'both'), repeat=3):
      out.append(['history', s, list(h)])
    for s2 in (2, 3):
      out.append(['stack', s, s2])
  out.append(['weights'])
  return out


def new(s, **kw):
  return lib.t3f.nn.KerasDense(s[0], s[1], **kw)


def kernel(layer):
  return lib.dense_of(layer.matrix)


def inputs(n):
  xs = [np.eye(n), np.zeros((1, n)), lib.ints((2, n), n), lib.reals((3, n), n + 1), 2. ** -20 * lib.ints((5, n), n + 2)]
  return xs


def expect(ctx, y, want, what):
  got = np.asarray(lib.npy(y))
  ctx.check(got.dtype == np.float32, lambda: '%s: dtype %s' % (what, got.dtype))
  ctx.check(lib.close(got, want, 'float32', scale=max(1., float(np.max(np.abs(want))) if want.size else 1.)),
            lambda: '%s: %s' % (what, lib.describe(got, want)))
  ctx.step()
  ctx.outcome((what, got.shape, round(float(got.sum()), 3)))


def check_layer(ctx, layer, s, act, bias, what, modes=('eager', 'numpy', 'function', 'unknown')):
  tf = lib.tf
  n, m = int(np.prod(s[0])), int(np.prod(s[1]))
  w = kernel(layer)
  ctx.check(w.shape == (n, m), lambda: '%s: matrix of shape %s' % (what, w.shape))
  for x in inputs(n):
    want = ACT[act](x.dot(w) + (0. if bias is None else bias))
    if 'eager' in modes:
      expect(ctx, layer(tf.constant(x, tf.float32)), want, what)
    if 'numpy' in modes:
      expect(ctx, layer(x.astype(np.float32)), want, what + ' of an array')
    if 'function' in modes:
      expect(ctx, tf.function(layer)(tf.constant(x, tf.float32)), want, what + ' in tf.function')
  if 'unknown' in modes:
    f = tf.function(layer, input_signature=[tf.TensorSpec([None, n], tf.float32)])
    for x in inputs(n) + [np.zeros((0, n))]:
      want = ACT[act](x.dot(w) + (0. if bias is None else bias)) if len(x) else np.zeros((0, m))
      expect(ctx, f(tf.constant(x, tf.float32)), want, what + ' with unknown batch')
  for b in (None, 1, 7):
    got = tuple(layer.compute_output_shape((b, n)))
    ctx.check(got == (b, m), lambda: '%s: compute_output_shape gives %s' % (what, got))


def run(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  op, rest = case[0], case[1:]
  if op not in ('layer', 'config'):
    ctx.state(str(case))
  if op == 'layer':
    s, r = rest
    kw = {} if r is None else {'tt_rank': r if isinstance(r, int) else list(r)}
    layer = new(s, **kw)
    ctx.state(str(case))
    d = len(s[0])
    want = [1] + [2] * (d - 1) + [1] if r is None else ([1] + [r] * (d - 1) + [1] if isinstance(r, int) else r)
    lib.expect_tt(ctx, layer.matrix, None, ['m', s, None, None], 'matrix of the layer', dtype='float32', value=False)
    got = layer.matrix.get_tt_ranks().as_list()
    ctx.check(got == want, lambda: 'TT-ranks %s, expected %s' % (got, want))
    ctx.check(tuple(layer.b.shape) == (int(np.prod(s[1])),), lambda: 'bias of shape %s' % (layer.b.shape,))
    ctx.check(layer.matrix.is_variable(), 'the matrix of the layer is not a variable')
    set_matrix(layer, s, want, 3)
    check_layer(ctx, layer, s, None, 0.1, 'layer', ('eager', 'unknown') if r is None else ('eager',))
    bv = 1. + np.arange(np.prod(s[1]))
    layer.b.assign(bv)
    check_layer(ctx, layer, s, None, bv, 'layer with another bias', ('eager', 'unknown') if r is None else ('eager',))
    layer.b.assign(np.full(bv.shape, 0.1))
    # A second layer has its own weights.
    other = new(s, **kw)
    before = kernel(layer)
    set_matrix(other, s, want, 4)
    other.b.assign(np.full(int(np.prod(s[1])), 5.))
    ctx.check(np.array_equal(before, kernel(layer)), 'two layers share their matrix')
    check_layer(ctx, layer, s, None, 0.1, 'layer after a change of another layer', ('eager',))
    ctx.check(other.name != layer.name, 'two layers have the same name')
  elif op == 'config':
    s, a, ub, b, k = rest
    kw = {}
    if a is not None:
      kw['activation'] = a
    if ub != 'default':
      kw['use_bias'] = ub
    if b != 'default':
      kw['bias_initializer'] = b
    if k != 'default':
      kw['kernel_initializer'] = k
    ranks = [1] + [2, 3][:len(s[0]) - 1] + [1]
    draws = []
    saved = tf.random.normal, tf.compat.v1.random_normal

    def ones(shape, mean=0.0, stddev=1.0, dtype=tf.float32, seed=None, name=None):
      draws.append(tuple(int(x) for x in np.array(shape).reshape(-1)))
      return tf.cast(mean, dtype) + tf.cast(stddev, dtype) * tf.ones(shape, dtype)
    tf.random.normal = tf.compat.v1.random_normal = ones
    try:
      layer = new(s, tt_rank=ranks, **kw)
    finally:
      tf.random.normal, tf.compat.v1.random_normal = saved
    ctx.state(str(case))
    if draws == [tuple(c) for c in lib.core_shapes(['m', s, ranks, None])]:
      # Every draw is one standard deviation: entries are known exactly.
      n, m = float(np.prod(s[0])), float(np.prod(s[1]))
      var = {'glorot': 2. / (n + m), 'default': 2. / (n + m), 'he': 2. / n, 'lecun': 1. / n}[k]
      want = np.full((int(n), int(m)), np.sqrt(var * np.prod(ranks)))
      got = kernel(layer)
      ctx.check(lib.close(got, want, 'float32'), lambda: 'initial matrix (%s): %s' % (k, lib.describe(got, want)))
    else:
      ctx.outcome('initial values not decided')
    bias = None if ub is False else (0.1 if b == 'default' else b)
    check_layer(ctx, layer, s, a, bias, 'layer with initial weights', ('eager',))
    set_matrix(layer, s, ranks, 9)
    check_layer(ctx, layer, s, a, bias, 'layer', ('eager', 'numpy', 'function') if k == 'default' and b == 'default' else ('eager',))
    if ub is False:
      ctx.check(layer.b is None, 'a layer without a bias has one')
    else:
      bv = lib.ints((int(np.prod(s[1])),), 5)
      layer.b.assign(bv)
      check_layer(ctx, layer, s, a, bv, 'layer with another bias', ('eager',))
    # All weights influence the output differentiably.
    vs = list(layer.matrix.tt_cores) + ([] if ub is False else [layer.b])
    x = lib.reals((3, int(np.prod(s[0]))), 1) + 0.3
    cot = lib.reals((3, int(np.prod(s[1]))), 2)
    with tf.GradientTape() as tape:
      loss = tf.reduce_sum(layer(tf.constant(x, tf.float32)) * tf.constant(cot, tf.float32))
    grads = tape.gradient(loss, vs)
    ctx.check(all(g is not None for g in grads), 'the output does not depend differentiably on some weight')
    if a in (None, 'linear') and ub is not False:
      expect(ctx, grads[-1], cot.sum(0), 'gradient with respect to the bias')
  elif op == 'form':
    s, f = rest
    conv = {'list': list, 'tuple': tuple, 'array': np.array, 'int64': lambda v: np.array(v, np.int64), 'int32': lambda v: np.array(v, np.int32)}[f]
    layer = lib.t3f.nn.KerasDense(conv(s[0]), conv(s[1]), tt_rank=2)
    check_layer(ctx, layer, s, None, 0.1, 'layer from %s' % f)
  elif op == 'bad':
    s = rest[0]
    for k in ('', 'Glorot', 'xavier', 'none', None, 'zeros', 'glorot_uniform', 'he_normal'):
      lib.expect_raises(ctx, lambda: new(s, kernel_initializer=k), 'kernel_initializer %r' % (k,), ValueError)
      ctx.step()
    x = tf.ones((2, int(np.prod(s[0]))))
    for a in ('nope', 'Relu!', 'glorot'):
      lib.expect_raises(ctx, lambda: new(s, activation=a)(x), 'activation %r' % a, ValueError)
      ctx.step()
    # Inputs of a wrong width are rejected.
    layer = new(s)
    n = int(np.prod(s[0]))
    for w in (n - 1, n + 1, 2 * n):
      if w != n:
        lib.expect_raises(ctx, lambda: layer(tf.ones((2, w))), 'input of width %d for %d' % (w, n))
        ctx.step()
  elif op == 'history':
    s, hist = rest
    layer = new(s, tt_rank=2, activation='tanh')
    bias = np.full(int(np.prod(s[1])), 0.1)
    f = tf.function(layer)
    ranks = [1] + [2] * (len(s[0]) - 1) + [1]
    for k, h in enumerate(hist):
      if h in ('matrix', 'both'):
        set_matrix(layer, s, ranks, 20 + k)
      if h in ('bias', 'both'):
        bias = lib.ints(bias.shape, k)
        layer.b.assign(bias)
      check_layer(ctx, layer, s, 'tanh', bias, 'layer after updates', ('eager',))
      for x in inputs(int(np.prod(s[0])))[:1]:
        expect(ctx, f(tf.constant(x, tf.float32)), np.tanh(x.dot(kernel(layer)) + bias), 'traced layer after updates')
  elif op == 'stack':
    s, k = rest
    import keras
    dims = [s[0], s[1], s[0], s[1]][:k + 1]
    layers = [new([dims[i], dims[i + 1]], activation='tanh' if i == 0 else None) for i in range(k)]
    n = int(np.prod(s[0]))
    model = keras.Sequential([keras.layers.Input((n,))] + layers)
    ctx.check(tuple(model.output_shape) == (None, int(np.prod(dims[-1]))), 'output shape of the model is %s' % (model.output_shape,))
    for x in inputs(n):
      want = x
      for i, l in enumerate(layers):
        want = want.dot(kernel(l)) + 0.1
        if i == 0:
          want = np.tanh(want)
      expect(ctx, model(tf.constant(x, tf.float32)), want, 'model')
      expect(ctx, model.predict_on_batch(x.astype(np.float32)), want, 'predictions of the model')
  else:  # weights
    layer = new([[2, 2], [2, 2]])
    layer(tf.ones((1, 4)))
    ctx.step()
    if len(layer.trainable_weights) != 3:
      ctx.known_finding('KF03', 'the layer reports %d trainable weights instead of 3' % len(layer.trainable_weights))


def set_matrix(layer, s, ranks, salt):
  lib.t3f.assign(layer.matrix, lib.make(['m', s, ranks, None], salt, 'r', 'float32')[0])
