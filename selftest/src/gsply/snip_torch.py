import torch
import torch.nn.functional as F


def f_add(x, y): return x + y
def f_narrow(x): return x.narrow(0, 1, 3)
def f_narrow1(x): return torch.narrow(x, 1, 0, 2)
def f_select(x): return x.select(1, 2)
def f_cumsum(v): return torch.cumsum(v, dim=0)
def f_diff(v): return torch.diff(v)
def f_roll(v): return torch.roll(v, 1)
def f_std(x): return x.std(dim=0)
def f_var(x): return x.var(dim=0, unbiased=False)
def f_sort(v): return torch.sort(v).values
def f_argsort(v): return torch.argsort(v)
def f_topk(q): return torch.topk(q.abs(), 3, dim=-1).indices
def f_unique(k): return torch.unique(k)
def f_normalize(q): return F.normalize(q, dim=-1)
def f_normalize_p(q): return torch.nn.functional.normalize(q, p=2, dim=1, eps=1e-8)
def f_pad(x): return F.pad(x, (0, 0, 0, 2))
def f_pad_v(v): return F.pad(v, (1, 2), value=3.0)
def f_pad_mode(x): return F.pad(x, (0, 0, 0, 2), mode="constant", value=1.0)
def f_vnorm(q): return torch.linalg.vector_norm(q, dim=-1, keepdim=True)
def f_lnorm(q): return torch.linalg.norm(q, dim=1)
def f_norm(q): return q.norm(dim=-1, keepdim=True)
def f_norm_p(q): return torch.norm(q, p=2, dim=1)
def f_aminmax(x): return tuple(torch.aminmax(x, dim=1))
def f_expit(v): return torch.special.expit(v)
def f_slogit(v): return torch.special.logit(torch.sigmoid(v), eps=1e-6)
def f_logit(v): return torch.logit(torch.sigmoid(v))
def f_logsig(v): return F.logsigmoid(v)
def f_softplus(v): return F.softplus(v)
def f_relu(v): return torch.relu(v)
def f_tanh(v): return torch.tanh(v)
def f_addcmul(v, w): return torch.addcmul(v, w, w, value=2.0)
def f_bucket(v): return torch.bucketize(v, torch.tensor([-1.0, 0.0, 1.0]))
def f_linspace(x): return torch.linspace(0, 1, 5)
def f_eye(x): return torch.eye(3)
def f_einsum(x): return torch.einsum("ij,ij->i", x, x)
def f_matmul(c4, s): return c4 @ s
def f_mm(c4): return torch.mm(c4, c4.t())
def f_where(m, v, w): return torch.where(m, v, w)
def f_where_s(m, v): return torch.where(m, v, 0.0)
def f_where_cond(v): return torch.where(v < 0, -v, v)
def f_masked_fill(m, v): return v.masked_fill(m, 0.0)
def f_masked_select(m, v): return torch.masked_select(v, m)
def f_mask(x, m): return x[m]
def f_mask_set(x, m):
    a = x.clone()
    a[m] = 0
    return a
def f_mask_not(x, m): return x[~m]
def f_index_select(x, ix): return torch.index_select(x, 0, ix)
def f_index_select_m(x, ix): return x.index_select(0, ix)
def f_fancy(x, ix): return x[ix]
def f_take_along(q): return torch.take_along_dim(q, q.abs().argmax(dim=1, keepdim=True), dim=1)
def f_gather(q): return torch.gather(q, 1, q.abs().argmax(dim=-1, keepdim=True))
def f_scatter(q): return q.scatter(1, q.abs().argmax(dim=-1, keepdim=True), 0.0)
def f_index_copy(x, ix, c4):
    a = x.clone()
    a.index_copy_(0, torch.tensor([0, 2]), torch.zeros(2, 3))
    return a
def f_index_fill(x):
    return x.index_fill(0, torch.tensor([0, 2]), 5.0)
def f_index_put(v, ix):
    a = v.clone()
    a.index_put_((torch.tensor([1, 3]),), torch.tensor(0.0))
    return a
def f_index_add(v):
    a = v.clone()
    a.index_add_(0, torch.tensor([0, 1]), torch.tensor([1.0, 2.0]))
    return a
def f_scatter_add(k):
    a = torch.zeros(6, dtype=torch.int64)
    return a.scatter_add(0, k, torch.ones_like(k))
def f_type_as(k, v): return k.type_as(v)
def f_new_tensor(v): return v.new_tensor([1.0, 2.0])
def f_new_zeros(v): return v.new_zeros((3, 2))
def f_unflatten(t3): return t3.flatten(1).unflatten(1, (2, 3))
def f_flatten(t3): return t3.flatten(start_dim=1)
def f_flatten2(t3): return torch.flatten(t3, 1)
def f_tensor_split(x): return torch.tensor_split(x, 2, dim=0)
def f_split(x): return torch.split(x, 2)
def f_split1(x): return x.split([1, 2], dim=1)
def f_chunk(x): return x.chunk(2, dim=0)
def f_unbind(x): return x.unbind(-1)
def f_cross(x, y): return torch.cross(x, y, dim=1)
def f_stack(v, w): return torch.stack((v, w), dim=-1)
def f_cat(x, q): return torch.cat([x, q], dim=1)
def f_cat0(x, y): return torch.cat((x, y))
def f_cat_mixed(x, k): return torch.cat([x[:, 0], k])
def f_colstack(v, x): return torch.column_stack([v, x])
def f_hstack(x, q): return torch.hstack([x, q])
def f_vstack(x, y): return torch.vstack([x, y])
def f_repeat(v): return v.repeat(2)
def f_repeat2(x): return x.repeat(1, 2)
def f_repint(v): return v.repeat_interleave(2)
def f_repint_dim(x): return torch.repeat_interleave(x, 2, dim=0)
def f_repint_t(ix): return torch.repeat_interleave(ix, torch.tensor([1, 2, 0]))
def f_expand(v): return v.unsqueeze(1).expand(-1, 3)
def f_expand_as(v, x): return v[:, None].expand_as(x)
def f_bcast(v, x): return torch.broadcast_to(v[:, None], x.shape)
def f_permute(t3): return t3.permute(0, 2, 1)
def f_transp(t3): return t3.transpose(1, 2).reshape(t3.shape[0], -1)
def f_mT(t3): return t3.mT
def f_view(t3): return t3.view(t3.shape[0], -1)
def f_view_err(t3): return t3.transpose(1, 2).view(-1)
def f_view_dtype(v): return v.view(torch.int32)
def f_shift(i32): return (i32 >> 21) & 0x7FF
def f_shiftneg(i32): return i32 >> 30
def f_shiftl(i32): return (i32 & 0x3FF) << 20
def f_u8(x): return torch.clamp(x * 64 + 128, 0, 255).to(torch.uint8)
def f_round(x): return torch.round(x * 10).int()
def f_trunc(x): return (x * 10).to(torch.int32)
def f_floor(x): return x.floor()
def f_frac(x): return x.frac()
def f_fd(k): return k // 4
def f_fdiv(k): return torch.div(k, 4, rounding_mode="floor")
def f_mod(k): return k % 4
def f_rem(v): return torch.remainder(v, 1.0)
def f_sum(x): return x.sum(dim=1)
def f_sum_all(x): return x.sum()
def f_sum_k(x): return x.sum(-1, keepdim=True)
def f_sum2(t3): return t3.sum(dim=(1, 2))
def f_mean(x): return x.mean(dim=0)
def f_mean_all(x): return float(x.mean())
def f_min(x): return x.min(dim=1).values
def f_min2(x): return torch.min(x, dim=0)[0]
def f_minidx(x): return x.min(dim=1)[1]
def f_max_all(x): return x.max()
def f_max_item(x): return x.max().item()
def f_amin(x): return x.amin(dim=0)
def f_amax(t3): return t3.amax(dim=(0, 1))
def f_maxi(x, y): return torch.maximum(x, y)
def f_max2(x, y): return torch.max(x, y)
def f_any(m2): return m2.any(dim=1)
def f_all(m2): return torch.all(m2, dim=1)
def f_all_(m): return bool(m.all())
def f_prod(m2): return m2.prod(dim=1)
def f_count(m): return int(m.sum())
def f_countnz(m): return torch.count_nonzero(m).item()
def f_nonzero(m): return m.nonzero(as_tuple=True)[0]
def f_nonzero2(m): return torch.nonzero(m).squeeze(1)
def f_clamp(x): return x.clamp(min=0.0)
def f_clamp2(x): return torch.clamp(x, max=0.5)
def f_clamp_(x):
    a = x.clone()
    a.clamp_(-1, 1)
    return a
def f_inplace(x):
    a = x.clone()
    a.mul_(2.0).add_(1.0)
    return a
def f_sub_(x, y):
    a = x.clone()
    a.sub_(y, alpha=2)
    return a
def f_exp_(x):
    a = x.clone()
    a.exp_()
    return a
def f_copy_(x, d):
    a = x.clone()
    a.copy_(d)
    return a
def f_fill_(x):
    a = x.clone()
    a[:, 0].fill_(3)
    return a
def f_zero_(x):
    a = x.clone()
    a[1:3].zero_()
    return a
def f_lerp(x, y): return torch.lerp(x, y, 0.25)
def f_rsqrt(v): return torch.rsqrt(v.abs() + 1)
def f_pow(v): return v.pow(2)
def f_sign(v): return v.sign()
def f_abs(v): return v.abs()
def f_isfinite(v): return torch.isfinite(v).all()
def f_nan(v): return torch.nan_to_num(v / 0)
def f_half(x): return x.half()
def f_half_math(x): return x.half() * 2
def f_bf16(x): return x.to(torch.bfloat16)
def f_double(x): return x.double()
def f_to(x): return x.to(torch.float64)
def f_to_dev(x): return x.to("cpu", torch.float64)
def f_mix(x, d): return x + d
def f_mixi(x, k): return x[:, 0] * k
def f_mixu8(b): return b / 255
def f_u8f(b): return (b.float() - 127.5) / 32.0
def f_u8add(b): return b + 1
def f_bool(m): return m.float()
def f_boolsum(m, v): return m * v
def f_invert(m): return ~m
def f_land(m, v): return m & (v > 0)
def f_logical(m, v): return torch.logical_or(m, v > 0)
def f_arange(x): return torch.arange(x.shape[0])
def f_arange2(x): return torch.arange(0, 10, 3, dtype=torch.float32)
def f_full(x): return torch.full((2, 2), 3.0)
def f_full_int(x): return torch.full((2,), 3)
def f_ones_like(x): return torch.ones_like(x)
def f_zeros_dt(x): return torch.zeros(x.shape[0], dtype=torch.bool)
def f_empty(x):
    a = torch.empty_like(x)
    a.copy_(x)
    return a
def f_tensor(x): return torch.tensor([[1.0, 2.0], [3.0, 4.0]])
def f_tensor_int(x): return torch.tensor([1, 2])
def f_as_tensor(x): return torch.as_tensor([1.5, 2.0], dtype=torch.float64)
def f_size(x): return (x.size(0), x.size(-1), x.numel(), x.dim(), x.shape[1], x.ndim, x.nelement())
def f_dtype(x): return x.dtype == torch.float32
def f_contig(t3): return t3.transpose(1, 2).is_contiguous()
def f_contig2(t3): return t3.transpose(1, 2).contiguous().is_contiguous()
def f_numpy(x): return x.numpy()
def f_numpy2(x): return x.detach().cpu().numpy().astype("float64")
def f_tolist(s): return s.tolist()
def f_item(v): return v[0].item()
def f_equal(x): return torch.equal(x, x.clone())
def f_allclose(x): return torch.allclose(x, x)
def f_isclose(x, y): return torch.isclose(x, y)
def f_err_idx(x): return x[100]
def f_err_add(x, q): return x + q
def f_err_attr(x): return x.foo
def f_err_cat(x, q): return torch.cat([x, q])
def f_ell(t3): return t3[..., 1]
def f_None(v): return v[:, None]
def f_sq(x): return x[:, :1].squeeze(-1)
def f_flip(x): return torch.flip(x, dims=[1])
def f_tile(s): return torch.tile(s, (2, 1))
def f_movedim(t3): return torch.movedim(t3, 1, 2)
def f_swap(t3): return t3.swapaxes(1, 2)
def f_triu(c4): return torch.triu(c4)
def f_diag(c4): return torch.diag(c4)
def f_trace(c4): return torch.trace(c4)
def f_outer(s): return torch.outer(s, s)
def f_dot(s): return torch.dot(s, s)
def f_bmm(t3): return torch.bmm(t3, t3.transpose(1, 2))
def f_index_t(t3): return t3[:, [1, 0], :]
def f_step(x): return x[::2]
def f_neg(x): return x[-2:]
def f_idx_list(x): return x[[0, 2]]
def f_idx_tensor2(x): return x[torch.arange(x.shape[0]), torch.zeros(x.shape[0], dtype=torch.long)]
def f_bool_list(x): return x[torch.tensor([True, False, True, False, True, False])]
def f_chunked(s): return s.view(2, 2).max(dim=1).values
def f_quant(x):
    lo = x.min(dim=0, keepdim=True).values
    hi = x.max(dim=0, keepdim=True).values
    r = torch.where(hi == lo, torch.ones_like(hi), hi - lo)
    return ((x - lo) / r * 1023.0 + 0.5).to(torch.int32)
def f_cumprod(s): return torch.cumprod(s, 0)
def f_median(v): return v.median()
def f_searchsorted(v): return torch.searchsorted(torch.tensor([-1.0, 0.0, 1.0]), v)
def f_atan2(v, w): return torch.atan2(v, w)
def f_hypot(v, w): return torch.hypot(v, w)
def f_softmax(q): return torch.softmax(q, dim=-1)
def f_requires(x): return x.requires_grad
def f_expm1(v): return torch.expm1(v)
def f_log2(v): return torch.log2(v.abs())
def f_ge(v): return torch.ge(v, 0.0)
def f_gt(v): return v.gt(0)
def f_cast_bool(k): return k.bool()
def f_long(v): return v.long()
def f_type(v): return v.type(torch.float64)
def f_unsq(v): return v.unsqueeze(0).unsqueeze(-1)
def f_reshape(x): return x.reshape(3, -1)
def f_ravel(x): return x.ravel()
def f_clone(x): return x.clone()
def f_view_as(x, y): return x.view_as(y)
def f_sigmoid_(v):
    a = v.clone()
    torch.sigmoid_(a)
    return a
def f_set_col(x, v):
    a = x.clone()
    a[:, 1] = v
    return a
def f_clamp_t(x, y): return torch.clamp(x, min=y)
def f_torch_abs(x): return torch.abs(x).max(dim=-1)[1]
def f_setrows(x, y):
    a = torch.empty((x.shape[0] + y.shape[0], 3))
    a[: x.shape[0]] = x
    a[x.shape[0] :] = y
    return a
