import numpy as np


def f_add(x, y): return x + y
def f_bcast(x, v): return x * v[:, None]
def f_bcast2(x, v): return x * v[:, np.newaxis] - x.mean(axis=0)
def f_sum0(x): return x.sum(axis=0)
def f_sum(x): return np.sum(x)
def f_mean(x): return x.mean(axis=1, keepdims=True)
def f_std(x): return x.std(axis=0)
def f_var(v): return np.var(v)
def f_min(x): return x.min()
def f_argmin(x): return np.argmin(x, axis=1)
def f_argmax(q): return np.abs(q).argmax(axis=-1)
def f_cumsum(v): return np.cumsum(v)
def f_cumsum1(x): return x.cumsum(axis=1)
def f_diff(v): return np.diff(v)
def f_roll(v): return np.roll(v, 2)
def f_roll_n(x): return np.roll(x, -1, axis=0)
def f_pad(v): return np.pad(v, (1, 2))
def f_pad2(x): return np.pad(x, ((0, 2), (0, 0)), mode="constant", constant_values=3.0)
def f_pad_edge(x): return np.pad(x, ((0, 4), (0, 0)), mode="edge")
def f_linspace(x): return np.linspace(0, 1, 5)
def f_linspace32(x): return np.linspace(0.0, 1.0, 4, dtype=np.float32)
def f_sort(v): return np.sort(v)
def f_argsort(v): return np.argsort(v)
def f_unique(k): return np.unique(k)
def f_searchsorted(v): return np.searchsorted(np.array([-1.0, 0.0, 1.0]), v)
def f_append(v, w): return np.append(v, w)
def f_insert(v): return np.insert(v, 0, 5.0)
def f_delete(v): return np.delete(v, 2)
def f_delete_ax(x): return np.delete(x, 1, axis=1)
def f_r(v, w): return np.r_[v, w]
def f_c(v, w): return np.c_[v, w]
def f_einsum(x): return np.einsum("ij,ij->i", x, x)
def f_dot(s): return np.dot(s, s)
def f_dotm(c4, s): return c4 @ s
def f_matT(c4): return c4.T @ c4
def f_array_split(x): return np.array_split(x, 2)
def f_split(x): return np.split(x, [1, 2], axis=1)
def f_hsplit(x): return np.hsplit(x, 3)
def f_add_reduce(x): return np.add.reduce(x, axis=1)
def f_min_reduce(x): return np.minimum.reduce(x)
def f_max_reduce(x): return np.maximum.reduce([x[:, 0], x[:, 1]])
def f_and_reduce(m2): return np.logical_and.reduce(m2, axis=1)
def f_or_reduce(m2): return np.logical_or.reduce([m2[:, 0], m2[:, 1], m2[:, 2]])
def f_reduceat(x): return np.minimum.reduceat(x, np.arange(0, len(x), 4), axis=0)
def f_reduceat2(v): return np.add.reduceat(v, [0, 2, 4])
def f_outer(s): return np.outer(s, s)
def f_mult_outer(s): return np.multiply.outer(s, s)
def f_select(v): return np.select([v < 0, v > 1], [-v, v * 2], default=0.0)
def f_choose(k): return np.choose(k % 3, [10, 20, 30])
def f_take_along(q): return np.take_along_axis(q, np.abs(q).argmax(axis=1)[:, None], axis=1)
def f_put_along(q):
    a = q.copy()
    np.put_along_axis(a, np.abs(q).argmax(axis=1)[:, None], 0.0, axis=1)
    return a
def f_cross(x, y): return np.cross(x, y)
def f_nanmin(x): return np.nanmin(x, axis=0)
def f_nan_to_num(x): return np.nan_to_num(x / 0.0)
def f_broadcast(v): return np.broadcast_to(v[:, None], (len(v), 3))
def f_meshgrid(s): return np.meshgrid(s, s[:2])
def f_divwhere(v, w): return np.divide(v, w, out=np.zeros_like(v), where=w > 0)
def f_out(v): 
    o = np.empty_like(v)
    np.multiply(v, 2.0, out=o)
    return o
def f_where(m, v, w): return np.where(m, v, w)
def f_where_c(m2, x): return np.where(m2, x, 0)
def f_nonzero(m): return np.nonzero(m)[0]
def f_flatnonzero(m): return np.flatnonzero(m)
def f_mask(x, m): return x[m]
def f_mask_set(x, m):
    a = x.copy()
    a[m] = 0
    return a
def f_mask_set_col(x, m):
    a = x.copy()
    a[m, 1] = 7
    return a
def f_fancy(x, ix): return x[ix]
def f_fancy_col(q): return q[:, [1, 2, 3, 0]]
def f_fancy_pair(x): return x[np.arange(len(x)), np.zeros(len(x), dtype=int)]
def f_rev(x): return x[::-1]
def f_ell(t3): return t3[..., 0]
def f_neg(x): return x[-2:, ::-1]
def f_transp(t3): return t3.transpose(0, 2, 1)
def f_reshape(t3): return t3.reshape(len(t3), -1)
def f_reshapeF(x): return x.reshape(-1, order="F")
def f_ravelF(x): return x.ravel(order="F")
def f_swap(t3): return np.swapaxes(t3, 1, 2).reshape(len(t3), 6)
def f_view(v): return v.view(np.uint32)
def f_viewb(u): return u.view(np.uint8)
def f_viewb2(u): return u.view(np.uint8).reshape(-1, 4)[:, 0]
def f_shift(u): return (u >> 21) & 0x7FF
def f_shiftl(u): return (u << 3)
def f_or(u): return (u & 0xFF) | np.uint32(0x100)
def f_inv(m): return ~m
def f_xor(m, v): return m ^ (v > 0)
def f_u8(x): return np.clip(x * 64 + 128, 0, 255).astype(np.uint8)
def f_u8round(x): return np.round(x * 10).astype(np.int32)
def f_rint(x): return np.rint(x * 3.3)
def f_floor(x): return np.floor(x)
def f_fd(k): return k // 4
def f_mod(k): return k % 4
def f_divmod(k): return divmod(k, 4)
def f_fmod(v): return np.fmod(v, 1.0)
def f_neg_mod(v): return v % 1.0
def f_pow(v): return v ** 2
def f_pow3(v): return np.power(np.abs(v), 1.5)
def f_hypot(v, w): return np.hypot(v, w)
def f_arctan2(v, w): return np.arctan2(v, w)
def f_sign(v): return np.sign(v)
def f_copysign(v, w): return np.copysign(v, w)
def f_logaddexp(v): return np.logaddexp(0, v)
def f_log1p(v): return np.log1p(np.abs(v))
def f_norm(x): return np.linalg.norm(x, axis=1, keepdims=True)
def f_norm_all(x): return np.linalg.norm(x)
def f_sqrt(x): return np.sqrt((x * x).sum(-1))
def f_square(x): return np.square(x).sum(axis=1, dtype=np.float64)
def f_prod(x): return x.prod(axis=1)
def f_any(m2): return m2.any(axis=1)
def f_all(m2): return np.all(m2, axis=1)
def f_any_all(m2): return bool(m2.any())
def f_count(m): return int(np.count_nonzero(m))
def f_msum(m): return m.sum()
def f_stack(v, w): return np.stack([v, w], axis=1)
def f_stack0(v, w): return np.stack([v, w])
def f_colstack(v, x): return np.column_stack([v, x])
def f_colstack2(m, m2): return np.column_stack((m2, m))
def f_hstack(x, q): return np.hstack([x, q])
def f_vstack(x, y): return np.vstack((x, y))
def f_concat(x, z): return np.concatenate([z, x])
def f_repeat(v): return np.repeat(v, 3)
def f_repeat_ax(x): return np.repeat(x, 2, axis=0)
def f_repeat_arr(ix): return np.repeat(ix, np.array([1, 2, 0]))
def f_tile(v): return np.tile(v, 2)
def f_tile2(s): return np.tile(s, (2, 1))
def f_full(x): return np.full((len(x), 2), 1.5, dtype=np.float32)
def f_full_int(x): return np.full(3, 7)
def f_ones(x): return np.ones(len(x), dtype=bool)
def f_eye(x): return np.eye(3)
def f_arange(x): return np.arange(len(x))
def f_arange2(x): return np.arange(0, len(x), 2)
def f_arange_f(x): return np.arange(3, dtype=np.float32)
def f_arange_desc(x): return np.arange(5, 0, -2)
def f_f64(d): return d * 2
def f_mix(x, d): return x + d
def f_mixi(x, k): return x[:, 0] * k
def f_mixu8(b): return b / 255
def f_mixu8f(b): return b.astype(np.float32) / 255.0
def f_u8add(b): return b + np.uint8(1)
def f_u8add2(b): return b.astype(np.uint16) + (b.astype(np.uint16) << 8)
def f_bool_mul(m, v): return m * v
def f_bool_add(m): return m + m
def f_int_div(k): return k / 2
def f_scalar(v): return float(v[0]) + v[1]
def f_item(v): return v[2].item()
def f_tolist(k): return k.tolist()[:2]
def f_eq(k): return k == 3
def f_ne_all(k): return (k != 3).all()
def f_isin(k): return np.isin(k, [1, 2])
def f_isfinite(v): return np.isfinite(v).all()
def f_maxs(x): return np.maximum(x, 0.0)
def f_minimum(x, y): return np.minimum(x, y)
def f_fmax(x): return np.fmax(x, -1)
def f_clipm(x): return x.clip(-1, 1)
def f_clip_none(x): return np.clip(x, None, 0.5)
def f_clip_out(x):
    a = x.copy()
    np.clip(a, 0, 1, out=a)
    return a
def f_iadd(x):
    a = x.copy()
    a += 1
    a[:, 0] *= 2
    a[1:] -= x[:-1]
    return a
def f_set_rows(x, y):
    a = np.zeros((2 * len(x), 3), np.float32)
    a[: len(x)] = x
    a[len(x) :] = y
    return a
def f_set_step(v):
    a = np.zeros(2 * len(v), np.float32)
    a[::2] = v
    a[1::2] = -v
    return a
def f_set_col(x, v):
    a = np.array(x)
    a[:, 2] = v
    return a
def f_add_at(k):
    a = np.zeros(6, np.int64)
    np.add.at(a, k, 1)
    return a
def f_bincount(k): return np.bincount(k, minlength=6)
def f_ptp(x): return np.ptp(x, axis=0)
def f_median(v): return np.median(v)
def f_percentile(v): return np.percentile(v, 50)
def f_flip(x): return np.flip(x, axis=1)
def f_fliplr(x): return np.fliplr(x)
def f_rot(c4): return np.rot90(c4)
def f_diag(c4): return np.diag(c4)
def f_trace(c4): return np.trace(c4)
def f_tri(c4): return np.triu(c4)
def f_atleast(v): return np.atleast_2d(v)
def f_sq(x): return x[:, :1].squeeze(1)
def f_exp(x): return np.expand_dims(x, 0).shape
def f_ndim(x): return (x.ndim, x.size, x.shape[1], len(x), x.itemsize, x.nbytes)
def f_dtype(x): return str(x.dtype)
def f_flags(x): return bool(x.flags["C_CONTIGUOUS"])
def f_flags2(x): return x.T.flags.c_contiguous
def f_ascontig(x): return np.ascontiguousarray(x.T)
def f_asarray(x): return np.asarray(x, dtype=np.float64)
def f_array_list(v): return np.array([v[0], v[1]], dtype=np.float32)
def f_array_nested(v): return np.array([[1, 2], [3, 4]])
def f_frombuffer(x): return np.frombuffer(x.tobytes(), dtype=np.float32).reshape(-1, 3)
def f_frombuffer_off(u): return np.frombuffer(u.tobytes(), dtype=np.uint8, count=4, offset=4)
def f_tobytes_view(u): return np.frombuffer(u.tobytes(), dtype="<u2")
def f_astype_copy(x): return x.astype(np.float32, copy=False)
def f_half(x): return x.astype(np.float16)
def f_i8(v): return (v * 100).astype(np.int8)
def f_trunc(v): return (v * 3).astype(np.int64)
def f_array_equal(x, y): return np.array_equal(x, y)
def f_allclose(x): return np.allclose(x, x)
def f_may(x): return np.shares_memory(x, x[1:])
def f_interp(v): return np.interp(v, [-1, 0, 1], [0, 10, 20])
def f_logspace(x): return np.logspace(0, 2, 3)
def f_apply(x): return np.apply_along_axis(lambda r: r.sum(), 1, x)
def f_vectorize(v): return np.vectorize(lambda a: a * 2)(v)
def f_lexsort(k, v): return np.lexsort((v, k))
def f_packbits(m): return np.packbits(m)
def f_argwhere(m): return np.argwhere(m)
def f_ix(c4): return c4[np.ix_([0, 2], [1, 3])]
def f_bool_col(x): return x[:, np.array([True, False, True])]
def f_newax(v): return v[None, :, None].shape
def f_where1(m): return np.where(m)[0]
def f_compress(m, x): return np.compress(m, x, axis=0)
def f_extract(m, v): return np.extract(m, v)
def f_putmask(m, v):
    a = v.copy()
    np.putmask(a, m, 0.0)
    return a
def f_copyto(m, v):
    a = v.copy()
    np.copyto(a, 0.0, where=m)
    return a
def f_place(v):
    a = v.copy()
    a[a < 0] = 0.0
    return a
def f_idx_err(x): return x[100]
def f_shape_err(x, q): return x + q
def f_bad_attr(x): return x.foo
def f_reshape_err(s): return s.reshape(3, 2)
def f_concat_err(x, q): return np.concatenate([x, q])
def f_sumax(t3): return t3.sum(axis=(1, 2))
def f_minax(t3): return t3.min(axis=(0, 2))
def f_loop(x):
    o = np.zeros(len(x), np.float32)
    for i in range(len(x)):
        t = 0.0
        for j in range(3):
            t += x[i, j] * x[i, j]
        o[i] = t
    return o
def f_enum(x):
    o = np.zeros(len(x), np.float32)
    for i, r in enumerate(x):
        o[i] = r[0]
    return o
def f_zip(v, w):
    o = np.empty(len(v), np.float32)
    for i, (a, b) in enumerate(zip(v, w)):
        o[i] = a - b
    return o
def f_while(x):
    o = np.zeros(len(x), np.float32)
    i = 0
    while i < len(x):
        o[i] = x[i, 1]
        i += 1
    return o
def f_comp(v): return np.array([a * 2 for a in v], dtype=np.float32)
def f_maxloop(v):
    m = v[0]
    for i in range(1, len(v)):
        if v[i] > m:
            m = v[i]
    return m
def f_sumloop(v):
    t = 0.0
    for a in v:
        t = t + a
    return t
def f_chunkloop(x):
    n = len(x)
    nc = (n + 3) // 4
    o = np.zeros((nc, 3), np.float32)
    for c in range(nc):
        o[c] = x[c * 4 : (c + 1) * 4].min(axis=0)
    return o
def f_chunkreshape(s): return s.reshape(-1, 2).max(axis=1)
def f_struct(v): 
    import struct
    return struct.unpack("<f", struct.pack("<f", 1.5))[0]
def f_unpackbits(b): return np.unpackbits(b[:, :1], axis=1)
def f_left_shift(u): return np.left_shift(u, np.uint32(2))
def f_bitand(u): return np.bitwise_and(u, 1023)
def f_ldexp(v): return np.ldexp(v, 2)
def f_deg(v): return np.deg2rad(v)
def f_floor_div_neg(v): return v // 1
def f_recip(v): return np.reciprocal(v)
def f_cbrt(v): return np.cbrt(np.abs(v))
def f_maxinit(x): return x.max(axis=1, initial=0)
def f_whererange(v):
    r = v - v
    return np.where(r == 0, 1.0, r)
def f_quantize(x):
    lo, hi = x.min(axis=0), x.max(axis=0)
    rg = np.where(hi - lo > 0, hi - lo, 1)
    return np.floor((x - lo) / rg * 1023 + 0.5).astype(np.uint32)
def f_memview(x): return x.data.nbytes
def f_size0(z): return z.size == 0
def f_z_min(z): return z.min(axis=0)
def f_empty_sum(z): return z.sum(axis=0)
def f_index_bool_list(x): return x[[True, False, True, False, True, False]]
def f_neg_idx(v): return v[-1]
def f_idx_arr_neg(v): return v[np.array([-1, -2])]
def f_int_np(v): return int(np.int64(3)) + len(v)
def f_maxpy(v): return max(float(v[0]), 0.0)
def f_sumpy(s): return sum(s.tolist())
def f_ifexpr(x): return x if x.shape[0] > 3 else -x
def f_ravel_set(x):
    a = x.copy()
    a.ravel()[0] = 9
    return a
def f_view_set(x):
    a = x.copy()
    b = a[1:3]
    b[:] = 0
    return a
def f_T_set(x):
    a = x.copy()
    a.T[0] = 1
    return a
def f_dstack(v, w): return np.dstack([v, w])
def f_broadcast_arrays(v, x): return np.broadcast_arrays(v[:, None], x)[0]
def f_fromiter(s): return np.fromiter((i * 2 for i in range(4)), dtype=np.float32)
def f_identity(x): return np.identity(2)
def f_fill_diag(c4):
    a = c4.copy()
    np.fill_diagonal(a, 0)
    return a
def f_float_power(v): return np.float_power(np.abs(v), 0.5)
def f_trunc2(v): return np.trunc(v * 3)
def f_isclose(v, w): return np.isclose(v, w)
def f_argpart(s): return np.sort(np.partition(s, 2)[:2])
def f_nanmax(v): return np.nanmax(v)
def f_average(v, w): return np.average(v)
def f_tensordot(c4, s): return np.tensordot(c4, s, axes=1)
def f_inner(s): return np.inner(s, s)
def f_vdot(s): return np.vdot(s, s)
def f_block(x, y): return np.concatenate((x, y), axis=1)
def f_moveaxis(t3): return np.moveaxis(t3, 1, 2)
def f_rollaxis(t3): return np.rollaxis(t3, 2, 1)
def f_digitize(v): return np.digitize(v, [-1, 0, 1])
def f_ediff(v): return np.ediff1d(v)
def f_clipint(k): return np.clip(k, 1, 3)
def f_intmin(i32): return i32.view(np.uint32) >> 30
def f_asr(i32): return i32 >> 30
def f_asr_mask(i32): return (i32 >> 21) & 0x7FF
