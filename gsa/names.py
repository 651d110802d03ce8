"""Public attribute names of the library types, so that a name without a model is told from a name that does not exist."""
NDARRAY = frozenset(
    '''T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data device
diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemsize mT max mean min nbytes ndim nonzero partition prod put ravel real
repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist trace
transpose var view'''.split())
TENSOR = frozenset(
    '''H T abs abs_ absolute absolute_ acos acos_ acosh acosh_ add add_ addbmm addbmm_ addcdiv addcdiv_ addcmul addcmul_ addmm addmm_ addmv addmv_
addr addr_ adjoint all allclose amax amin aminmax angle any apply_ arccos arccos_ arccosh arccosh_ arcsin arcsin_ arcsinh arcsinh_ arctan arctan2
arctan2_ arctan_ arctanh arctanh_ argmax argmin argsort argwhere as_strided as_strided_ as_strided_scatter as_subclass asin asin_ asinh asinh_ atan
atan2 atan2_ atan_ atanh atanh_ backward baddbmm baddbmm_ bernoulli bernoulli_ bfloat16 bincount bitwise_and bitwise_and_ bitwise_left_shift
bitwise_left_shift_ bitwise_not bitwise_not_ bitwise_or bitwise_or_ bitwise_right_shift bitwise_right_shift_ bitwise_xor bitwise_xor_ bmm bool
broadcast_to byte cauchy_ ccol_indices cdouble ceil ceil_ cfloat chalf char cholesky cholesky_inverse cholesky_solve chunk clamp clamp_ clamp_max
clamp_max_ clamp_min clamp_min_ clip clip_ clone coalesce col_indices conj conj_physical conj_physical_ const_data_ptr contiguous copy_ copysign
copysign_ corrcoef cos cos_ cosh cosh_ count_nonzero cov cpu cross crow_indices cuda cummax cummin cumprod cumprod_ cumsum cumsum_ data data_ptr
deg2rad deg2rad_ dense_dim dequantize det detach detach_ device diag diag_embed diagflat diagonal diagonal_scatter diff digamma digamma_ dim dim_order
dist div div_ divide divide_ dot double dsplit dtype eig element_size eq eq_ equal erf erf_ erfc erfc_ erfinv erfinv_ exp exp2 exp2_ exp_ expand
expand_as expm1 expm1_ exponential_ fill_ fill_diagonal_ fix fix_ flatten flip fliplr flipud float float_power float_power_ floor floor_ floor_divide
floor_divide_ fmax fmin fmod fmod_ frac frac_ frexp gather gcd gcd_ ge ge_ geometric_ geqrf ger get_device grad grad_dtype grad_fn greater greater_
greater_equal greater_equal_ gt gt_ half hardshrink hash_tensor heaviside heaviside_ histc histogram hsplit hypot hypot_ i0 i0_ igamma igamma_ igammac
igammac_ imag index index_add index_add_ index_copy index_copy_ index_fill index_fill_ index_put index_put_ index_reduce index_reduce_ index_select
indices inner int int_repr inverse ipu is_coalesced is_complex is_conj is_contiguous is_cpu is_cuda is_distributed is_floating_point is_inference
is_ipu is_leaf is_maia is_meta is_mkldnn is_mps is_mtia is_neg is_nested is_nonzero is_pinned is_quantized is_same_size is_set_to is_shared is_signed
is_sparse is_sparse_csr is_vulkan is_xla is_xpu isclose isfinite isinf isnan isneginf isposinf isreal istft item itemsize kron kthvalue layout lcm
lcm_ ldexp ldexp_ le le_ lerp lerp_ less less_ less_equal less_equal_ lgamma lgamma_ log log10 log10_ log1p log1p_ log2 log2_ log_ log_normal_
log_softmax logaddexp logaddexp2 logcumsumexp logdet logical_and logical_and_ logical_not logical_not_ logical_or logical_or_ logical_xor logical_xor_
logit logit_ logsumexp long lstsq lt lt_ lu lu_solve mH mT map2_ map_ masked_fill masked_fill_ masked_scatter masked_scatter_ masked_select matmul
matrix_exp matrix_power max maximum mean median min minimum mm mode module_load moveaxis movedim msort mtia mul mul_ multinomial multiply multiply_ mv
mvlgamma mvlgamma_ name nan_to_num nan_to_num_ nanmean nanmedian nanquantile nansum narrow narrow_copy nbytes ndim ndimension ne ne_ neg neg_ negative
negative_ nelement new new_empty new_empty_strided new_full new_ones new_tensor new_zeros nextafter nextafter_ nonzero nonzero_static norm normal_
not_equal not_equal_ numel numpy orgqr ormqr outer output_nr permute pin_memory pinverse polygamma polygamma_ positive pow pow_ prelu prod put put_
q_per_channel_axis q_per_channel_scales q_per_channel_zero_points q_scale q_zero_point qr qscheme quantile rad2deg rad2deg_ random_ ravel real
reciprocal reciprocal_ record_stream register_hook register_post_accumulate_grad_hook reinforce relu relu_ remainder remainder_ renorm renorm_ repeat
repeat_interleave requires_grad requires_grad_ reshape reshape_as resize resize_ resize_as resize_as_ resize_as_sparse_ resolve_conj resolve_neg
retain_grad retains_grad roll rot90 round round_ row_indices rsqrt rsqrt_ scatter scatter_ scatter_add scatter_add_ scatter_reduce scatter_reduce_
select select_scatter set_ sgn sgn_ shape share_memory_ short sigmoid sigmoid_ sign sign_ signbit sin sin_ sinc sinc_ sinh sinh_ size slice_inverse
slice_scatter slogdet smm softmax solve sort sparse_dim sparse_mask sparse_resize_ sparse_resize_and_clear_ split split_with_sizes sqrt sqrt_ square
square_ squeeze squeeze_ sspaddmm std stft storage storage_offset storage_type stride sub sub_ subtract subtract_ sum sum_to_size svd swapaxes
swapaxes_ swapdims swapdims_ symeig t t_ take take_along_dim tan tan_ tanh tanh_ tensor_split tile to to_dense to_mkldnn to_padded_tensor to_sparse
to_sparse_bsc to_sparse_bsr to_sparse_coo to_sparse_csc to_sparse_csr tolist topk trace transpose transpose_ triangular_solve tril tril_ triu triu_
true_divide true_divide_ trunc trunc_ type type_as unbind unflatten unfold uniform_ unique unique_consecutive unsafe_chunk unsafe_split
unsafe_split_with_sizes unsqueeze unsqueeze_ untyped_storage values var vdot view view_as volatile vsplit where xlogy xlogy_ xpu zero_'''.split())
NUMPY = frozenset(
    '''False_ ScalarType True_ abs absolute acos acosh add all allclose amax amin angle any append apply_along_axis apply_over_axes arange arccos
arccosh arcsin arcsinh arctan arctan2 arctanh argmax argmin argpartition argsort argwhere around array array2string array_equal array_equiv array_repr
array_split array_str asanyarray asarray asarray_chkfinite ascontiguousarray asfortranarray asin asinh asmatrix astype atan atan2 atanh atleast_1d
atleast_2d atleast_3d average bartlett base_repr binary_repr bincount bitwise_and bitwise_count bitwise_invert bitwise_left_shift bitwise_not
bitwise_or bitwise_right_shift bitwise_xor blackman block bmat bool bool_ broadcast broadcast_arrays broadcast_shapes broadcast_to busday_count
busday_offset busdaycalendar byte bytes_ c_ can_cast cbrt cdouble ceil char character choose clip clongdouble column_stack common_type complex128
complex256 complex64 complexfloating compress concat concatenate conj conjugate convolve copy copysign copyto core corrcoef correlate cos cosh
count_nonzero cov cross csingle ctypeslib cumprod cumsum cumulative_prod cumulative_sum datetime64 datetime_as_string datetime_data deg2rad degrees
delete diag diag_indices diag_indices_from diagflat diagonal diff digitize divide divmod dot double dsplit dstack dtype dtypes e ediff1d einsum
einsum_path emath empty empty_like equal errstate euler_gamma exceptions exp exp2 expand_dims expm1 extract eye f2py fabs fft fill_diagonal finfo fix
flatiter flatnonzero flexible flip fliplr flipud float128 float16 float32 float64 float_power floating floor floor_divide fmax fmin fmod
format_float_positional format_float_scientific frexp from_dlpack frombuffer fromfile fromfunction fromiter frompyfunc fromregex fromstring full
full_like gcd generic genfromtxt geomspace get_include get_printoptions getbufsize geterr geterrcall gradient greater greater_equal half hamming
hanning heaviside histogram histogram2d histogram_bin_edges histogramdd hsplit hstack hypot i0 identity iinfo imag index_exp indices inexact inf info
inner insert int16 int32 int64 int8 int_ intc integer interp intersect1d intp invert is_busday isclose iscomplex iscomplexobj isdtype isfinite
isfortran isin isinf isnan isnat isneginf isposinf isreal isrealobj isscalar issubdtype iterable ix_ kaiser kron lcm ldexp left_shift less less_equal
lexsort lib linalg linspace little_endian load loadtxt log log10 log1p log2 logaddexp logaddexp2 logical_and logical_not logical_or logical_xor
logspace long longdouble longlong ma mask_indices matmul matrix matrix_transpose matvec max maximum may_share_memory mean median memmap meshgrid mgrid
min min_scalar_type minimum mintypecode mod modf moveaxis multiply nan nan_to_num nanargmax nanargmin nancumprod nancumsum nanmax nanmean nanmedian
nanmin nanpercentile nanprod nanquantile nanstd nansum nanvar ndarray ndenumerate ndim ndindex nditer negative nested_iters newaxis nextafter nonzero
not_equal number object_ ogrid ones ones_like outer packbits pad partition percentile permute_dims pi piecewise place poly poly1d polyadd polyder
polydiv polyfit polyint polymul polynomial polysub polyval positive pow power printoptions prod promote_types ptp put put_along_axis putmask quantile
r_ rad2deg radians random ravel ravel_multi_index real real_if_close rec recarray reciprocal record remainder repeat require reshape resize
result_type right_shift rint roll rollaxis roots rot90 round s_ save savetxt savez savez_compressed sctypeDict searchsorted select set_printoptions
setbufsize setdiff1d seterr seterrcall setxor1d shape shares_memory short show_config show_runtime sign signbit signedinteger sin sinc single sinh
size sort sort_complex spacing split sqrt square squeeze stack std str_ strings subtract sum swapaxes take take_along_axis tan tanh tensordot test
testing tile timedelta64 trace transpose trapezoid tri tril tril_indices tril_indices_from trim_zeros triu triu_indices triu_indices_from true_divide
trunc typecodes typename typing ubyte ufunc uint uint16 uint32 uint64 uint8 uintc uintp ulong ulonglong union1d unique unique_all unique_counts
unique_inverse unique_values unpackbits unravel_index unsignedinteger unstack unwrap ushort vander var vdot vecdot vecmat vectorize void vsplit vstack
where zeros zeros_like'''.split())
TORCH = frozenset(
    '''AVG AcceleratorError AggregationType AliasDb AnyType Argument ArgumentSpec AwaitType BFloat16Storage BFloat16Tensor BenchmarkConfig
BenchmarkExecutionStats Block BoolStorage BoolTensor BoolType BufferDict ByteStorage ByteTensor CallStack Capsule CharStorage CharTensor ClassType
Code CompilationUnit CompleteArgumentSpec ComplexDoubleStorage ComplexFloatStorage ComplexType ConcreteModuleType ConcreteModuleTypeBuilder
DeepCopyMemoTable DeserializationStorageContext DeviceObjType DictType DisableTorchFunction DisableTorchFunctionSubclass DispatchKey DispatchKeySet
DoubleStorage DoubleTensor EnumType ErrorReport Event ExcludeDispatchKeyGuard ExecutionPlan FatalError FileCheck FloatStorage FloatTensor FloatType
FunctionSchema Future FutureType Generator GradScaler Gradient Graph GraphExecutorState HalfStorage HalfTensor IODescriptor InferredType IntStorage
IntTensor IntType InterfaceType JITException ListType LiteScriptModule LockingLogger LoggerBase LongStorage LongTensor ModuleDict Node NoneType
NoopLogger NumberType OperatorInfo OptionalType OutOfMemoryError PRIVATE_OPS ParameterDict PyObjectType PyTorchFileReader PyTorchFileWriter
QInt32Storage QInt8Storage QUInt2x4Storage QUInt4x2Storage QUInt8Storage RRefType SUM ScriptClass ScriptClassFunction ScriptDict ScriptDictIterator
ScriptDictKeyIterator ScriptFunction ScriptList ScriptListIterator ScriptMethod ScriptModule ScriptModuleSerializer ScriptObject ScriptObjectProperty
SerializationStorageContext ShortStorage ShortTensor Size StaticModule Storage StorageBase Stream StreamObjType StringType SymBool SymBoolType
SymFloat SymInt SymIntType TYPE_CHECKING Tag Tensor TensorType ThroughputBenchmark TracingState TupleType Type TypedStorage USE_GLOBAL_DEPS
USE_RTLD_GLOBAL_WITH_LIBTORCH UnionType UntypedStorage Use Value abs abs_ absolute accelerator acos acos_ acosh acosh_ adaptive_avg_pool1d
adaptive_max_pool1d add addbmm addcdiv addcmul addmm addmv addmv_ addr adjoint affine_grid_generator alias_copy all allclose alpha_dropout
alpha_dropout_ amax amin aminmax amp angle any ao arange arccos arccos_ arccosh arccosh_ arcsin arcsin_ arcsinh arcsinh_ arctan arctan2 arctan_
arctanh arctanh_ are_deterministic_algorithms_enabled argmax argmin argsort argwhere as_strided as_strided_ as_strided_copy as_strided_scatter
as_tensor asarray asin asin_ asinh asinh_ atan atan2 atan_ atanh atanh_ atleast_1d atleast_2d atleast_3d autocast autocast_decrement_nesting
autocast_increment_nesting autograd avg_pool1d backends baddbmm bartlett_window batch_norm batch_norm_backward_elemt batch_norm_backward_reduce
batch_norm_elemt batch_norm_gather_stats batch_norm_gather_stats_with_counts batch_norm_stats batch_norm_update_stats bcomplex32 bernoulli bfloat16
bilinear binary_cross_entropy_with_logits bincount binomial bit bits16 bits1x8 bits2x4 bits4x2 bits8 bitwise_and bitwise_left_shift bitwise_not
bitwise_or bitwise_right_shift bitwise_xor blackman_window block_diag bmm bool broadcast_shapes broadcast_tensors broadcast_to bucketize builtins
can_cast cartesian_prod cat ccol_indices_copy cdist cdouble ceil ceil_ celu celu_ cfloat chain_matmul chalf channel_shuffle channels_last
channels_last_3d cholesky cholesky_inverse cholesky_solve choose_qparams_optimized chunk clamp clamp_ clamp_max clamp_max_ clamp_min clamp_min_
classes classproperty clear_autocast_cache clip clip_ clone col_indices_copy column_stack combinations compile compiled_with_cxx11_abi compiler
complex complex128 complex32 complex64 concat concatenate cond conj conj_physical conj_physical_ constant_pad_nd contiguous_format conv1d conv2d
conv3d conv_tbc conv_transpose1d conv_transpose2d conv_transpose3d convolution copysign corrcoef cos cos_ cosh cosh_ cosine_embedding_loss
cosine_similarity count_nonzero cov cpp cpu cross crow_indices_copy ctc_loss ctypes cuda cudnn_affine_grid_generator cudnn_batch_norm
cudnn_convolution cudnn_convolution_add_relu cudnn_convolution_relu cudnn_convolution_transpose cudnn_grid_sampler cudnn_is_acceptable cummax cummin
cumprod cumsum cumulative_trapezoid default_generator deg2rad deg2rad_ dequantize det detach detach_ detach_copy device diag diag_embed diagflat
diagonal diagonal_copy diagonal_scatter diff digamma dist distributed distributions div divide dot double dropout dropout_ dsmm dsplit dstack dtype e
eig einsum embedding embedding_bag embedding_renorm_ empty empty_like empty_permuted empty_quantized empty_strided enable_grad eq equal erf erf_ erfc
erfc_ erfinv exp exp2 exp2_ exp_ expand_copy expm1 expm1_ export eye fake_quantize_per_channel_affine fake_quantize_per_tensor_affine
fbgemm_linear_fp16_weight fbgemm_linear_fp16_weight_fp32_activation fbgemm_linear_int8_weight fbgemm_linear_int8_weight_fp32_activation
fbgemm_linear_quantize_weight fbgemm_pack_gemm_matrix_fp16 fbgemm_pack_quantized_matrix feature_alpha_dropout feature_alpha_dropout_ feature_dropout
feature_dropout_ fft fill fill_ finfo fix fix_ flatten flip fliplr flipud float float16 float32 float4_e2m1fn_x2 float64 float8_e4m3fn float8_e4m3fnuz
float8_e5m2 float8_e5m2fnuz float8_e8m0fnu float_power floor floor_ floor_divide fmax fmin fmod foreach fork frac frac_ frexp frobenius_norm
from_dlpack from_file from_numpy frombuffer full full_like func functional functools fused_moving_avg_obs_fake_quant futures fx gather gcd gcd_ ge
geqrf ger get_autocast_cpu_dtype get_autocast_dtype get_autocast_gpu_dtype get_autocast_ipu_dtype get_autocast_xla_dtype get_default_device
get_default_dtype get_deterministic_debug_mode get_device get_device_module get_file_path get_float32_matmul_precision get_num_interop_threads
get_num_threads get_rng_state glob gradient greater greater_equal grid_sampler grid_sampler_2d grid_sampler_3d group_norm gru gru_cell gt half
hamming_window hann_window hardshrink has_lapack has_mkl has_openmp has_spectral hash_tensor heaviside hinge_embedding_loss histc histogram
histogramdd hsmm hsplit hspmm hstack hub hypot i0 i0_ igamma igammac iinfo imag import_ir_module import_ir_module_from_buffer importlib index_add
index_copy index_fill index_put index_put_ index_reduce index_select indices_copy inf inference_mode init_num_threads initial_seed inner inspect
instance_norm int int1 int16 int2 int3 int32 int4 int5 int6 int64 int7 int8 int_repr inverse is_anomaly_check_nan_enabled is_anomaly_enabled
is_autocast_cache_enabled is_autocast_cpu_enabled is_autocast_enabled is_autocast_ipu_enabled is_autocast_xla_enabled is_complex is_conj
is_deterministic_algorithms_warn_only_enabled is_distributed is_floating_point is_grad_enabled is_inference is_inference_mode_enabled is_neg
is_nonzero is_same_size is_signed is_storage is_tensor is_vulkan_available is_warn_always_enabled isclose isfinite isin isinf isnan isneginf isposinf
isreal istft jagged jit kaiser_window kl_div kron kthvalue layer_norm layout lcm lcm_ ldexp ldexp_ le legacy_contiguous_format lerp less less_equal
lgamma library linalg linspace load lobpcg log log10 log10_ log1p log1p_ log2 log2_ log_ log_softmax logaddexp logaddexp2 logcumsumexp logdet
logical_and logical_not logical_or logical_xor logit logit_ logspace logsumexp long lstm lstm_cell lstsq lt lu lu_solve lu_unpack manual_seed
margin_ranking_loss masked masked_fill masked_scatter masked_select math matmul matrix_exp matrix_power matrix_rank max max_pool1d
max_pool1d_with_indices max_pool2d max_pool3d maximum mean median memory_format merge_type_from_type_comment meshgrid min minimum miopen_batch_norm
miopen_convolution miopen_convolution_add_relu miopen_convolution_relu miopen_convolution_transpose miopen_ctc_loss miopen_depthwise_convolution
miopen_rnn mkldnn_adaptive_avg_pool2d mkldnn_convolution mkldnn_linear_backward_weights mkldnn_max_pool2d mkldnn_max_pool3d mkldnn_rnn_layer mm mode
monitor moveaxis movedim mps msort mtia mul multinomial multiply multiprocessing mv mvlgamma nan nan_to_num nan_to_num_ nanmean nanmedian nanquantile
nansum narrow narrow_copy native_batch_norm native_channel_shuffle native_dropout native_group_norm native_layer_norm native_norm ne neg neg_ negative
negative_ nested newaxis nextafter nn no_grad nonzero nonzero_static norm norm_except_dim normal not_equal nuclear_norm numel ones ones_like ops optim
orgqr ormqr os outer overrides package pairwise_distance parse_ir parse_schema parse_type_comment pca_lowrank pdist per_channel_affine
per_channel_affine_float_qparams per_channel_symmetric per_tensor_affine per_tensor_symmetric permute permute_copy pi pinverse pixel_shuffle
pixel_unshuffle platform poisson poisson_nll_loss polar polygamma positive pow prelu prepare_multiprocessing_environment preserve_format prod profiler
profiler_allow_cudagraph_cupti_lazy_reinit_cuda12 promote_types put q_per_channel_axis q_per_channel_scales q_per_channel_zero_points q_scale
q_zero_point qint32 qint8 qr qscheme quantile quantization quantize_per_channel quantize_per_tensor quantize_per_tensor_dynamic quantized_batch_norm
quantized_gru quantized_gru_cell quantized_lstm quantized_lstm_cell quantized_max_pool1d quantized_max_pool2d quantized_max_pool3d
quantized_rnn_relu_cell quantized_rnn_tanh_cell quasirandom quint2x4 quint4x2 quint8 rad2deg rad2deg_ rand rand_like randint randint_like randn
randn_like random randperm range ravel real reciprocal reciprocal_ relu relu_ remainder renorm repeat_interleave reshape resize_as_ resize_as_sparse_
resolve_conj resolve_neg result_type return_types rms_norm rnn_relu rnn_relu_cell rnn_tanh rnn_tanh_cell roll rot90 round round_ row_indices_copy
row_stack rrelu rrelu_ rsqrt rsqrt_ rsub saddmm save scalar_tensor scatter scatter_add scatter_reduce searchsorted seed segment_reduce select
select_copy select_scatter selu selu_ serialization set_anomaly_enabled set_autocast_cache_enabled set_autocast_cpu_dtype set_autocast_cpu_enabled
set_autocast_dtype set_autocast_enabled set_autocast_gpu_dtype set_autocast_ipu_dtype set_autocast_ipu_enabled set_autocast_xla_dtype
set_autocast_xla_enabled set_default_device set_default_dtype set_default_tensor_type set_deterministic_debug_mode set_float32_matmul_precision
set_flush_denormal set_grad_enabled set_num_interop_threads set_num_threads set_printoptions set_rng_state set_warn_always sgn short sigmoid sigmoid_
sign signal signbit sin sin_ sinc sinc_ sinh sinh_ slice_copy slice_inverse slice_scatter slogdet smm softmax solve sort sparse sparse_bsc
sparse_bsc_tensor sparse_bsr sparse_bsr_tensor sparse_compressed_tensor sparse_coo sparse_coo_tensor sparse_csc sparse_csc_tensor sparse_csr
sparse_csr_tensor special split split_copy split_with_sizes split_with_sizes_copy spmm sqrt sqrt_ square square_ squeeze squeeze_copy sspaddmm stack
std std_mean stft storage strided sub subtract sum svd svd_lowrank swapaxes swapdims sym_constrain_range sym_constrain_range_for_size sym_float
sym_fresh_size sym_int sym_ite sym_max sym_min sym_not sym_sqrt sym_sum symeig sys t t_copy take take_along_dim tan tan_ tanh tanh_ tensor
tensor_split tensordot testing textwrap thread_safe_generator threading threshold threshold_ tile to_dlpack topk torch torch_version trace transpose
transpose_copy trapezoid trapz triangular_solve tril tril_indices triplet_margin_loss triu triu_indices true_divide trunc trunc_ typename types typing
typing_extensions uint1 uint16 uint2 uint3 uint32 uint4 uint5 uint6 uint64 uint7 uint8 unbind unbind_copy unflatten unfold_copy unify_type_list unique
unique_consecutive unravel_index unsafe_chunk unsafe_split unsafe_split_with_sizes unsqueeze unsqueeze_copy use_deterministic_algorithms utils
values_copy vander var var_mean vdot version view_as_complex view_as_complex_copy view_as_real view_as_real_copy view_copy vmap vsplit vstack wait
warnings where while_loop windows xlogy xlogy_ xpu zero_ zeros zeros_like'''.split())
SCALAR = frozenset(
    '''T all any argmax argmin argsort as_integer_ratio astype base byteswap choose clip compress conj conjugate copy cumprod cumsum data device
diagonal dtype dump dumps fill flags flat flatten getfield imag is_integer item itemsize max mean min nbytes ndim nonzero prod put ravel real repeat
reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist trace
transpose var view'''.split())
UFUNC = frozenset(
    '''accumulate at identity nargs nin nout ntypes outer reduce reduceat resolve_dtypes signature types'''.split())
