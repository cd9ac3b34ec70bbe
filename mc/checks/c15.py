"""C15: determinant, inverse and Cholesky factor of Kronecker products."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m, rank_choices

ID = 'C15'
BOUND = ('d<=4 factor sizes {1,2,3}, single objects and batches 1,2,3; values: ALL 1x1 factors over {-2,-1,0,1,2} (d<=3), ALL 2x2 '
         'factors over {-1,0,1,2} (d=1), ALL pairs of 2x2 factors over {-1,0,1}, 1x1 with 2x2, integer, generic, singular and negative '
         'determinant factors in every position; single axes to d=10, size 16, batch 33; tiny, huge, badly balanced and variable factors; singular values down to 1e-11 and up to 1e8 in every factor; rejection: every TT-rank pattern over {1,2} with a rank of 2, every '
         'non-square mode pair pattern (also when the whole matrix is square), TT-tensors; float64 and float32')
BOUND += contexts.BOUND
ASSUMPTIONS = ['oracle: numpy det, slogdet, inv, cholesky of the dense matrix (or of the factors for the value tables)',
               'Cholesky: factors are symmetric positive definite; inverse: factors are nonsingular']


def cases(tier):
  deep = tier == 'thorough'
  out = []
  for d in (1, 2, 3, 4):
    for sh in itertools.product((1, 2, 3), repeat=d):
      if np.prod(sh) > 54:
        continue
      for b in (None, 1, 2, 3) if d <= 3 or deep else (None, 2):
        out.append(['obj', list(sh), b, 'float64'])
      out.append(['obj', list(sh), None, 'float32'])
      out.append(['obj', list(sh), 2, 'float32'])
  for d in (5, 6, 7, 8, 10):
    for sh in ([2] * d, ([2, 1, 2, 1, 3, 1, 2, 1, 1, 2])[:d], [1] * d):
      for b in (None, 1, 4):
        if np.prod(sh) <= 256:
          out.append(['obj', sh, b, 'float64'])
  for n in (4, 5, 6, 7, 8, 12, 16):
    for sh in ([n], [n, 2], [2, n], [2, n, 1], [n, n]):
      for b in (None, 1, 6, 8, 9, 17, 33):
        out.append(['obj', sh, b, 'float64'])
  for sh in ([1], [3], [2, 2], [1, 3], [3, 2], [2, 1, 3], [2, 2, 2], [1, 2, 1, 2]):
    for b in (None, 1, 3, 5):
      for k in lib.VARIANTS[:-1]:
        out.append(['special', sh, b, k])
  for sh in ([2], [3], [4], [2, 2], [1, 3], [3, 2], [2, 1, 3]):
    for b in (None, 1, 3):
      for e in (-11, -8, -4, 4, 8):
        for pos in range(len(sh)):
          if sh[pos] > 1:
            out.append(['ill', sh, b, e, pos])
  for d in (1, 2, 3):
    out.append(['table', [1] * d, [-2, -1, 0, 1, 2]])
  out.append(['table', [2], [-1, 0, 1, 2]])
  for k in range(9):
    out.append(['table2', [2, 2], [-1, 0, 1], k])
  out.append(['table', [1, 2], [-1, 0, 2]])
  out.append(['table', [2, 1], [-1, 0, 2]])
  for d in (1, 2, 3, 4):
    for sh in ([2] * d, [1] * d, [1, 2, 1, 2][:d], [2, 3, 1, 1][:d]):
      out.append(['badrank', sh])
  for d in (1, 2, 3):
    for ps in itertools.product(((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)), repeat=d):
      if any(a != b for a, b in ps):
        out.append(['badshape', [list(p) for p in ps]])
  for d in (1, 2, 3):
    out.append(['badtensor', [2] * d])
    out.append(['badtensor', [1] * d])
  return out + contexts.cases(ID, tier)


def kron(fs):
  r = np.ones((1, 1))
  for f in fs:
    r = np.kron(r, f)
  return r


def as_tt(factors, batch, dt, variable=False):
  """factors: list over d of (B, n, n) arrays."""
  cores = [f[:, None, :, :, None] if batch else f[0][None, :, :, None] for f in factors]
  n = [f.shape[-1] for f in factors]
  s = spec_m(n, n, [1] * (len(n) + 1), batch)
  return lib.build(s, cores, dt, variable=variable), s


def verify(ctx, factors, batch, dt, what, ops=('det', 'slogdet', 'inv', 'chol'), variable=False):
  """factors: d arrays (B, n, n); compares everything with dense algebra."""
  K = lib.t3f.kronecker
  B = factors[0].shape[0]
  if dt == 'float32':
    factors = [f.astype(np.float32).astype(np.float64) for f in factors]
  ns = [f.shape[-1] for f in factors]
  N = int(np.prod(ns))
  tt, s = as_tt(factors, batch, dt, variable)
  dense = np.stack([kron([f[i] for f in factors]) for i in range(B)])
  tol = {'float64': 1e-9, 'float32': 3e-3}[dt]
  fd = np.stack([np.linalg.det(f) for f in factors])  # d x B
  row = np.stack([np.prod(np.linalg.norm(f, axis=2), axis=1) for f in factors])
  fd = np.where(np.abs(fd) <= 1e-12 * row, 0., fd)
  pows = np.array([N // n for n in ns])
  zero = np.any(fd == 0, axis=0)
  sign = np.prod(np.sign(fd) ** pows[:, None], axis=0)
  with np.errstate(divide='ignore'):
    logdet = np.sum(np.log(np.abs(fd)) * pows[:, None], axis=0)
  if N <= 60 and not np.any(zero):
    s2, l2 = np.linalg.slogdet(dense)
    assert np.array_equal(s2, sign) and np.allclose(l2, logdet), 'reference model is inconsistent'
  pick = (lambda a: a) if batch else (lambda a: a[0])
  shape = (B,) if batch else ()

  def num(x, ref, name, scale):
    a = lib.npy(x)
    ctx.check(lib.tf.as_dtype(x.dtype).name == dt, '%s(%s): wrong dtype' % (name, what))
    ctx.check(a.shape == shape, lambda: '%s(%s): shape %s, expected %s' % (name, what, a.shape, shape))
    ref = pick(ref)
    ctx.check(bool(np.all(np.abs(a - ref) <= tol * pick(scale))), lambda: '%s(%s): got %s, expected %s' % (name, what, a, ref))
    ctx.outcome((name, str(a)[:60]))
    ctx.step()
  if 'det' in ops:
    with np.errstate(over='ignore'):
      det = sign * np.exp(np.where(zero, 0, logdet))
      det = np.where(zero, 0., det)
      # a singular factor computed as 1e-17 instead of 0 must not matter
      had = np.prod(np.stack([np.maximum(1e-2, np.prod(np.linalg.norm(f, axis=2), axis=1)) ** p for f, p in zip(factors, pows)]), axis=0)
      big = np.prod(np.stack([np.prod(np.maximum(1., np.linalg.norm(f, axis=2)), axis=1) ** p for f, p in zip(factors, pows)]), axis=0)
    if np.all(np.abs(det) < 1e30) and np.all((np.abs(det) > 1e-30) | zero) and np.all(big < (1e30 if dt == 'float32' else 1e200)):
      num(K.determinant(tt), det, 'determinant', np.where(zero, np.minimum(had, 1e4), N * 10 * np.abs(det)))
  if 'slogdet' in ops:
    res = K.slog_determinant(tt)
    ctx.check(len(res) == 2, 'slog_determinant(%s): not a pair' % what)
    if not np.any(zero):
      num(res[0], sign, 'slog_determinant sign', np.ones(B) * 1e-6)
      num(res[1], logdet, 'slog_determinant log', (1 + np.abs(logdet)) * N)
    else:
      # exactly singular factors only if TF also finds an exact zero
      a, l = lib.npy(res[0]), lib.npy(res[1])
      ctx.check(a.shape == shape and l.shape == shape, 'slog_determinant(%s): wrong shape' % what)
      z = pick(zero)
      ctx.check(bool(np.all(np.where(z, l < -20, np.abs(l - pick(np.where(zero, 0, logdet))) <= tol * N * 10))),
                lambda: 'slog_determinant(%s): got %s, expected %s' % (what, l, logdet))
      rows = pick(np.any(np.stack([np.any(np.all(f == 0, axis=2), axis=1) for f in factors]), axis=0))
      # a zero row: the determinant is exactly 0
      ctx.check(bool(np.all(np.where(rows, (a == 0) & np.isneginf(l), True))), lambda: 'slog_determinant(%s): singular matrix gives %s, %s' % (what, a, l))
      ctx.check(bool(np.all(np.where(z, True, a == pick(sign)))), lambda: 'slog_determinant(%s): sign %s, expected %s' % (what, a, sign))
      ctx.step()
  if 'inv' in ops and not np.any(zero):
    ref = np.stack([kron([np.linalg.inv(f[i]) for f in factors]) for i in range(B)])
    if N <= 60:
      assert np.allclose(ref, np.linalg.inv(dense), atol=1e-6 * np.max(np.abs(ref)))
    cond = max(np.max(np.linalg.cond(f)) for f in factors)
    lib.expect_tt(ctx, K.inv(tt), pick(ref), s, 'inv(%s)' % what, dt, tol=tol * max(1, cond), max_ranks=[1] * len(s[2]),
                  scale=np.max(np.abs(ref)))
    ctx.step()
  if 'chol' in ops:
    spd = [np.matmul(f, f.transpose(0, 2, 1)) + 0.5 * (np.max(f ** 2) or 1.) * np.eye(f.shape[-1]) for f in factors]
    if dt == 'float32':
      spd = [f.astype(np.float32).astype(np.float64) for f in spd]
    t2, s2 = as_tt(spd, batch, dt, variable)
    ref = np.stack([kron([np.linalg.cholesky(f[i]) for f in spd]) for i in range(B)])
    full = np.stack([kron([f[i] for f in spd]) for i in range(B)])
    lib.expect_tt(ctx, K.cholesky(t2), pick(ref), s2, 'cholesky(%s)' % what, dt, tol=tol, max_ranks=[1] * len(s[2]), scale=np.max(np.abs(ref)))
    assert np.allclose(np.matmul(ref, ref.transpose(0, 2, 1)), full, atol=1e-8 * np.max(np.abs(full)))
    ctx.step()
  lib.unchanged(ctx, tt, [f[:, None, :, :, None] if batch else f[0][None, :, :, None] for f in factors], 'kronecker operation')


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  K = lib.t3f.kronecker
  kind = case[0]
  ctx.state(str(case))
  if kind == 'obj':
    _, sh, b, dt = case
    B = b or 1
    d = len(sh)
    for vk in ('i', 'r'):
      base = [lib.fill((B, n, n), 17 * k + 5, vk) + 3. * np.eye(n) for k, n in enumerate(sh)]
      verify(ctx, base, b, dt, '%s %s batch %s' % (vk, sh, b))
      # negative determinant in every position and pair of positions
      for pos in itertools.chain(itertools.combinations(range(d), 1), itertools.combinations(range(min(d, 4)), 2)):
        fs = [f.copy() for f in base]
        for p in pos:
          fs[p][:, 0] *= -1.
        verify(ctx, fs, b, dt, '%s %s batch %s negative %s' % (vk, sh, b, pos), ('det', 'slogdet', 'inv'))
        ctx.state((str(case), vk, pos))
      if b and b > 1:  # differing signs inside the batch
        fs = [f.copy() for f in base]
        for p in range(d):
          fs[p][p % B, 0] *= -1.
        verify(ctx, fs, b, dt, '%s %s batch %s mixed signs' % (vk, sh, b), ('det', 'slogdet', 'inv'))
    for pos in range(d):
      fs = [f.copy() for f in base]
      fs[pos][0, -1] = 0.
      verify(ctx, fs, b, dt, '%s batch %s singular %d' % (sh, b, pos), ('det', 'slogdet'))
  elif kind == 'ill':
    # One factor is badly conditioned: nothing may be regularized or cut off.
    _, sh, b, e, pos = case
    B = b or 1
    fs, inv, spd, cho = [], [], [], []
    for k, n in enumerate(sh):
      q = np.stack([np.linalg.qr(lib.reals((n, n), 31 * k + i) + np.eye(n))[0] for i in range(2 * B)])
      sv = np.ones((B, n))
      if k == pos:
        sv[:, -1] = [10. ** (e if i % 2 == 0 else -e / 2) for i in range(B)]
      l, r = q[:B], q[B:]
      fs.append(np.einsum('bij,bj,bkj->bik', l, sv, r))
      inv.append(np.einsum('bij,bj,bkj->bki', l, 1 / sv, r))
      low = np.tril(lib.reals((B, n, n), 37 * k + 1)) * .3
      low[:, np.arange(n), np.arange(n)] = np.sqrt(sv)
      cho.append(low)
      spd.append(np.matmul(low, low.transpose(0, 2, 1)))
    pick = (lambda a: a) if b else (lambda a: a[0])
    cond = 10. ** abs(e) * 100
    what = '%s batch %s, singular value 1e%d in factor %d' % (sh, b, e, pos)
    tt, s = as_tt(fs, b, 'float64')
    stack = lambda xs: np.stack([kron([f[i] for f in xs]) for i in range(B)])
    # column by column: small entries of the inverse count as well
    lib.expect_tt(ctx, K.inv(tt), pick(stack(inv)), s, 'inv(%s)' % what, tol=1e-14 * cond, max_ranks=[1] * len(s[2]),
                  scale=np.max(np.abs(stack(inv))))
    pows = [int(np.prod(sh)) // n for n in sh]
    sign = np.prod(np.stack([np.sign(np.linalg.det(f)) ** p for f, p in zip(fs, pows)]), 0)
    logdet = np.sum(np.stack([np.log(np.prod(np.linalg.svd(f, compute_uv=False), 1)) * p for f, p in zip(fs, pows)]), 0)
    a, l = K.slog_determinant(tt)
    ctx.check(np.array_equal(lib.npy(a), pick(sign)), 'slog_determinant(%s): sign' % what)
    ctx.check(lib.close(lib.npy(l), pick(logdet), tol=1e-14 * cond + 1e-10, scale=100.), 'slog_determinant(%s): logarithm' % what)
    ctx.check(lib.close(lib.npy(K.determinant(tt)) / pick(np.exp(logdet)), pick(sign), tol=1e-13 * cond + 1e-9), 'determinant(%s)' % what)
    t2, s2 = as_tt(spd, b, 'float64')
    lib.expect_tt(ctx, K.cholesky(t2), pick(stack(cho)), s2, 'cholesky(%s)' % what, tol=1e-14 * cond, max_ranks=[1] * len(s[2]),
                  scale=np.max(np.abs(stack(cho))))
    ctx.step(4)
  elif kind == 'special':
    _, sh, b, k = case
    for vk in ('i', 'r'):
      base = [lib.fill((b or 1, n, n), 17 * j + 6, vk) + 3. * np.eye(n) for j, n in enumerate(sh)]
      base = lib.rescale(base, k.partition('+')[2])
      verify(ctx, base, b, 'float64', '%s %s batch %s %s' % (vk, sh, b, k), variable=k.endswith('variable'))
      for pos in range(len(sh)):
        fs = [f.copy() for f in base]
        fs[pos][:, 0] *= -1.
        verify(ctx, fs, b, 'float64', '%s %s batch %s %s negative %d' % (vk, sh, b, k, pos), ('det', 'slogdet', 'inv'),
               variable=k.endswith('variable'))
  elif kind in ('table', 'table2'):
    sh, vals = case[1], case[2]
    mats = []
    for n in sh:
      mats.append(np.array(list(itertools.product(vals, repeat=n * n)), dtype=np.float64).reshape(-1, n, n))
    idx = list(itertools.product(*[range(len(m)) for m in mats]))
    if kind == 'table2':
      idx = [i for i in idx if i[0] % 9 == case[3]]
    fs = [m[[i[k] for i in idx]] for k, m in enumerate(mats)]
    verify(ctx, fs, len(idx), 'float64', 'table %s over %s' % (sh, vals), ('det', 'slogdet', 'chol'))
    ctx.step(len(idx))
    for i in idx:
      ctx.state((str(sh), str(vals), i))
    ok = np.all(np.stack([np.abs(np.linalg.det(f)) > 1e-9 for f in fs]), axis=0)
    if np.any(ok):
      verify(ctx, [f[ok] for f in fs], int(ok.sum()), 'float64', 'table %s over %s' % (sh, vals), ('inv', 'det', 'slogdet'))
    # and one at a time without a batch
    for j in range(0, len(idx), max(1, len(idx) // 60)):
      verify(ctx, [f[j:j + 1] for f in fs], None, 'float64', 'table %s entry %d' % (sh, j), ('det', 'slogdet'))
  else:
    fns = (K.determinant, K.slog_determinant, K.inv, K.cholesky)
    cand = []
    if kind == 'badrank':
      sh = case[1]
      for r in rank_choices(len(sh), (1, 2)):
        if max(r) > 1:
          cand += [lib.make(spec_m(sh, sh, r, b), 5, 'r')[0] for b in (None, 1, 2)]
    elif kind == 'badshape':
      ps = case[1]
      cand = [lib.make(spec_m([p[0] for p in ps], [p[1] for p in ps], [1] * (len(ps) + 1), b), 5, 'r')[0] for b in (None, 1, 2)]
    else:
      cand = [lib.make(spec_t(case[1], [1] * (len(case[1]) + 1), b), 5, 'r')[0] for b in (None, 1, 2)]
    for tt in cand:
      for fn in fns:
        lib.expect_raises(ctx, lambda: fn(tt), '%s of %s' % (fn.__name__, case), ValueError)
        ctx.step()
