"""C29: descriptions, names and evaluation of objects."""
import collections
import itertools
import re

import numpy as np

from mc import contexts
from mc import lib
from mc.checks import c21

ID = 'C29'
BOUND = ('all small tensors and matrices (d <= 3, modes and ranks <= 3, single or batch) and the axial ones x constants, variables, results of all operations, graph objects with '
         'every choice of unknown modes, ranks and batch size; names in nested scopes; every core of an assignment must be computed by eval() and op')
ASSUMPTIONS = ['the wording of a description is free apart from the words matrix, batch and variable']


def cases(tier):
  out = [['text', s] for s in lib.uniq(structures())]
  out += [['results', f] for f in sorted({f for _, fs in c21.static_ops().values() for f in fs})]
  out += [['hidden', s] for s in graphs()]
  out += [['name', s] for s in graphs()]
  out += [['run', s, how] for s in graphs() for how in ('eval', 'eval default', 'op')]
  return out


def structures():
  for s in itertools.chain(lib.small_tensors(rank_values=(1, 2)), lib.small_matrices(rank_values=(1, 3)), lib.axial_tensors(), lib.axial_matrices()):
    for b in (None, 1, 2, 7):
      yield lib.with_batch(s, b)


def graphs():
  base = [lib.spec_t([4], [1, 1]), lib.spec_t([3, 5], [1, 2, 1]), lib.spec_t([2, 3, 4], [1, 2, 5, 1]), lib.spec_m([2], [3], [1, 1]), lib.spec_m([2, 5], [3, 4], [1, 6, 1]),
          lib.spec_t([2, 3, 4, 5], [1, 2, 3, 4, 1])]
  return [lib.with_batch(s, b) for s in base for b in (None, 1, 7)]


def numbers(text):
  return collections.Counter(int(n) for n in re.findall(r'(?<![\w.])\d+', text))


def known(shapes):
  out = collections.Counter()
  for s in shapes:
    out.update(int(n) for n in lib.tf.TensorShape(s).as_list() if n is not None)
  return out


def sizes(tt):
  """The numbers a description has to state."""
  shape = tt.get_shape().as_list()
  if lib.is_batch(tt):
    want = known([[tt.batch_size], shape[1:], tt.get_tt_ranks()])
  else:
    want = known([shape, tt.get_tt_ranks()])
  if tt.is_tt_matrix():
    want += known(tt.get_raw_shape())
  return want


def described(ctx, tt, what):
  text = str(tt)
  ctx.step()
  low = text.lower()
  ctx.check(('matri' in low) == tt.is_tt_matrix(), lambda: '%s: "%s" does not tell a matrix from a tensor' % (what, text))
  ctx.check(('batch' in low) == lib.is_batch(tt), lambda: '%s: "%s" does not tell a batch from a single object' % (what, text))
  ctx.check(('variable' in low) == bool(tt.is_variable()), lambda: '%s: "%s" does not tell a variable from a value' % (what, text))
  ctx.check(numbers(text) == sizes(tt), lambda: '%s: "%s" does not state the sizes %s' % (what, text, sorted(sizes(tt).elements())))
  return text


def run(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  kind = case[0]
  if kind == 'text':
    s = case[1]
    texts = []
    for variable in (False, True):
      tt = lib.build(s, lib.np_cores(s, 1, 'i'), variable=variable)
      texts.append(described(ctx, tt, '%s variable=%s' % (s, variable)))
      want = known([[s[3]] if s[3] is not None else [], lib.dense_shape(s)[(s[3] is not None):], s[2]]) + (known(s[1]) if s[0] == 'm' else known([]))
      ctx.check(numbers(texts[-1]) == want, lambda: '"%s" does not state the sizes of %s' % (texts[-1], s))
      ctx.check(('variable' in texts[-1].lower()) == variable, lambda: '"%s" of %s, variable=%s' % (texts[-1], s, variable))
      ctx.state((str(s), variable))
    ctx.outcome(texts[0])
  elif kind == 'results':
    for nm, (fn, roles, fams, _) in contexts.all_ops().items():
      if case[1] not in fams:
        continue
      args = [lib.make(c21.variants(r, case[1], 'known')[0], 3 + k, 'r', fresh=True)[0] for k, r in enumerate(roles)]
      r = fn(*args)
      for x in (r if isinstance(r, (list, tuple)) else [r]):
        if c21.is_tt(x):
          described(ctx, x, 'result of %s (%s)' % (nm, case[1]))
          ctx.state((nm, case[1]))
    ctx.outcome(case[1])
  elif kind == 'hidden':
    s = case[1]
    d = lib.ndims(s)
    core_shapes = [list(c) for c in lib.core_shapes(s)]
    off = 0 if s[3] is None else 1
    for hide_modes in itertools.product((0, 1), repeat=d):
      for hide_ranks in itertools.product((0, 1), repeat=d - 1):
        for hide_batch in ((0,) if s[3] is None else (0, 1)):
          with tf.Graph().as_default():
            cores = []
            for k, c in enumerate(core_shapes):
              c = list(c)
              full = ([s[3]] if off and len(c) == (3 if s[0] == 't' else 4) else []) + c
              if off and hide_batch:
                full[0] = None
              for a in range(off + 1, len(full) - 1):
                if hide_modes[k]:
                  full[a] = None
              if k > 0 and hide_ranks[k - 1]:
                full[off] = None
              if k < d - 1 and hide_ranks[k]:
                full[-1] = None
              cores.append(tf.compat.v1.placeholder(tf.float64, full))
            tt = (t3f.TensorTrainBatch if off else t3f.TensorTrain)(cores)
            described(ctx, tt, 'placeholders of %s hiding %s %s %s' % (s, hide_modes, hide_ranks, hide_batch))
            ctx.check(tt.graph is cores[0].graph, 'graph of an object')
            ctx.state((str(s), hide_modes, hide_ranks, hide_batch))
    ctx.outcome(str(s))
  elif kind == 'name':
    s = case[1]
    x = [lib.np_cores(s, 1, 'i'), lib.np_cores(s, 2, 'i')]
    for scopes in ((), ('a',), ('a', 'b'), ('core_0',), ('a', 'a')):
      with tf.Graph().as_default() as g:
        init = lib.build(s, x[0])

        def create(rest):
          if not rest:
            return [t3f.get_variable(n, initializer=init) for n in ('v', 'w', 'matrix_1', 'core_0')]
          with tf.compat.v1.variable_scope(rest[0]):
            return create(rest[1:])
        vs = create(scopes)
        for v, n in zip(vs, ('v', 'w', 'matrix_1', 'core_0')):
          want = '/'.join(scopes + (n,))
          ctx.step()
          ctx.check(v.name == want, lambda: 'name of the variable %s is %s' % (want, v.name))
          ctx.check(v.graph is g, 'graph of a variable')
          ctx.check(v.is_variable() and not init.is_variable(), 'is_variable()')
          described(ctx, v, 'variable %s' % want)
          ctx.state((str(s), want))
    ctx.outcome(str(s))
  else:
    _, s, how = case
    cores = [lib.np_cores(s, 1, 'i'), [c + 1. for c in lib.np_cores(s, 1, 'i')]]
    with tf.Graph().as_default():
      v = t3f.get_variable('v', initializer=lib.build(s, cores[0]))
      a = t3f.assign(v, lib.build(s, cores[1]))
      op = a.op if how == 'op' else None
      with tf.compat.v1.Session() as sess:
        sess.run(tf.compat.v1.global_variables_initializer())
        for c, want in zip(sess.run(v.tt_cores), cores[0]):
          ctx.check(np.array_equal(c, want), 'initial value of %s' % s)
        if how == 'op':
          sess.run(op)
        elif how == 'eval':
          a.eval(session=sess)
        else:
          a.eval()
        for k, (c, want) in enumerate(zip(sess.run(v.tt_cores), cores[1])):
          ctx.check(np.array_equal(c, want), lambda: '%s of an assignment of %s did not compute core %d' % (how, s, k))
        ctx.step(2)
    ctx.state((str(s), how))
    ctx.outcome((str(s), how))
