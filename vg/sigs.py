"""Parameter names of the library functions described in this package, in order."""
SIGS = {
    "copy.copy": "x",
    "dataclasses.asdict": "obj dict_factory",
    "dataclasses.astuple": "obj tuple_factory",
    "dataclasses.fields": "class_or_instance",
    "itertools.batched": "iterable n",
    "itertools.compress": "data selectors",
    "itertools.count": "start step",
    "itertools.cycle": "iterable",
    "itertools.dropwhile": "predicate iterable",
    "itertools.filterfalse": "function iterable",
    "itertools.groupby": "iterable key",
    "itertools.takewhile": "predicate iterable",
    "itertools.tee": "iterable n",
    "math.atan2": "y x",
    "math.cbrt": "x",
    "math.ceil": "x",
    "math.dist": "p q",
    "math.exp2": "x",
    "math.expm1": "x",
    "math.floor": "x",
    "math.fmod": "x y",
    "math.log1p": "x",
    "math.pow": "x y",
    "math.sumprod": "p q",
    "math.trunc": "x",
    "numpy.allclose": "a b rtol atol equal_nan",
    "numpy.append": "arr values axis",
    "numpy.argmax": "a axis out keepdims",
    "numpy.argmin": "a axis out keepdims",
    "numpy.argsort": "a axis kind order stable descending",
    "numpy.around": "a decimals out",
    "numpy.array_equal": "a1 a2 equal_nan",
    "numpy.array_split": "ary indices_or_sections axis",
    "numpy.asarray": "a dtype order copy",
    "numpy.atleast_1d": "",
    "numpy.atleast_2d": "",
    "numpy.average": "a axis weights returned keepdims",
    "numpy.block": "arrays",
    "numpy.broadcast_to": "array shape subok",
    "numpy.clip": "a a_min a_max out min max",
    "numpy.column_stack": "tup",
    "numpy.compress": "condition a axis out",
    "numpy.concatenate": "arrays axis out dtype casting",
    "numpy.copy": "a order subok",
    "numpy.copyto": "dst src casting where",
    "numpy.count_nonzero": "a axis keepdims",
    "numpy.cross": "a b axisa axisb axisc axis",
    "numpy.cumprod": "a axis dtype out",
    "numpy.cumsum": "a axis dtype out",
    "numpy.delete": "arr obj axis",
    "numpy.diag": "v k",
    "numpy.diagonal": "a offset axis1 axis2",
    "numpy.diff": "a n axis prepend append",
    "numpy.digitize": "x bins right",
    "numpy.dot": "a b out",
    "numpy.dstack": "tup",
    "numpy.empty": "shape dtype order",
    "numpy.empty_like": "prototype dtype order subok shape device",
    "numpy.expand_dims": "a axis",
    "numpy.extract": "condition arr",
    "numpy.eye": "N M k dtype order device like",
    "numpy.fft.fftfreq": "n d device",
    "numpy.fft.fftshift": "x axes",
    "numpy.fft.ifftshift": "x axes",
    "numpy.fft.rfftfreq": "n d device",
    "numpy.fill_diagonal": "a val wrap",
    "numpy.flatnonzero": "a",
    "numpy.flip": "m axis",
    "numpy.fliplr": "m",
    "numpy.flipud": "m",
    "numpy.fromiter": "iter dtype count like",
    "numpy.full": "shape fill_value dtype order device like",
    "numpy.full_like": "a fill_value dtype order subok shape device",
    "numpy.geomspace": "start stop num endpoint dtype axis",
    "numpy.hstack": "tup dtype casting",
    "numpy.identity": "n dtype like",
    "numpy.indices": "dimensions dtype sparse",
    "numpy.inner": "a b",
    "numpy.insert": "arr obj values axis",
    "numpy.interp": "x xp fp left right period",
    "numpy.isclose": "a b rtol atol equal_nan",
    "numpy.iscomplexobj": "x",
    "numpy.isreal": "x",
    "numpy.isrealobj": "x",
    "numpy.isscalar": "element",
    "numpy.kron": "a b",
    "numpy.lib.stride_tricks.sliding_window_view": "x window_shape axis subok writeable",
    "numpy.linalg.norm": "x ord axis keepdims",
    "numpy.linspace": "start stop num endpoint retstep dtype axis device",
    "numpy.logspace": "start stop num endpoint base dtype axis",
    "numpy.matmul": "x1 x2 out axes axis keepdims casting order dtype subok signature",
    "numpy.matrix_transpose": "x",
    "numpy.may_share_memory": "a b max_work",
    "numpy.mean": "a axis dtype out keepdims where",
    "numpy.median": "a axis out overwrite_input keepdims",
    "numpy.moveaxis": "a source destination",
    "numpy.nan_to_num": "x copy nan posinf neginf",
    "numpy.nanmean": "a axis dtype out keepdims where",
    "numpy.ndenumerate": "arr",
    "numpy.ndim": "a",
    "numpy.outer": "a b out",
    "numpy.place": "arr mask vals",
    "numpy.polyval": "p x",
    "numpy.ptp": "a axis out keepdims",
    "numpy.put": "a ind v mode",
    "numpy.put_along_axis": "arr indices values axis",
    "numpy.putmask": "a mask values",
    "numpy.ravel": "a order",
    "numpy.ravel_multi_index": "multi_index dims mode order",
    "numpy.repeat": "a repeats axis",
    "numpy.reshape": "a shape order copy",
    "numpy.roll": "a shift axis",
    "numpy.rollaxis": "a axis start",
    "numpy.round": "a decimals out",
    "numpy.searchsorted": "a v side sorter",
    "numpy.select": "condlist choicelist default",
    "numpy.shape": "a",
    "numpy.shares_memory": "a b max_work",
    "numpy.size": "a axis",
    "numpy.sort": "a axis kind order stable descending",
    "numpy.split": "ary indices_or_sections axis",
    "numpy.squeeze": "a axis",
    "numpy.stack": "arrays axis out dtype casting",
    "numpy.std": "a axis dtype out ddof keepdims where mean correction",
    "numpy.swapaxes": "a axis1 axis2",
    "numpy.take": "a indices axis out mode",
    "numpy.take_along_axis": "arr indices axis",
    "numpy.tensordot": "a b axes",
    "numpy.tile": "A reps",
    "numpy.trace": "a offset axis1 axis2 dtype out",
    "numpy.transpose": "a axes",
    "numpy.trapezoid": "y x dx axis",
    "numpy.tril": "m k",
    "numpy.triu": "m k",
    "numpy.unique": "ar return_index return_inverse return_counts axis equal_nan sorted",
    "numpy.unravel_index": "indices shape order",
    "numpy.unstack": "x axis",
    "numpy.var": "a axis dtype out ddof keepdims where mean correction",
    "numpy.vdot": "a b",
    "numpy.vecdot": "x1 x2 out axes axis keepdims casting order dtype subok signature",
    "numpy.vstack": "tup dtype casting",
    "operator.abs": "a",
    "operator.contains": "a b",
    "operator.getitem": "a b",
    "operator.not_": "a",
    "scipy.fft.fftfreq": "n d xp device",
    "scipy.fft.fftshift": "x axes",
    "scipy.fft.ifftshift": "x axes",
    "scipy.fft.rfftfreq": "n d xp device",
    "scipy.fftpack.fftfreq": "n d device",
    "scipy.fftpack.fftshift": "x axes",
    "scipy.fftpack.ifftshift": "x axes",
    "scipy.integrate.trapezoid": "y x dx axis",
    "scipy.interpolate.RegularGridInterpolator": "points values method bounds_error fill_value solver solver_args",
    "scipy.signal.convolve": "in1 in2 mode method",
    "statistics.fmean": "data weights",
    "statistics.mean": "data",
    "statistics.median": "data",
    "statistics.pstdev": "data mu",
    "statistics.pvariance": "data mu",
    "statistics.stdev": "data xbar",
    "statistics.variance": "data xbar",
    "torch.atleast_1d": "",
    "torch.atleast_2d": "",
    "torch.bucketize": "input boundaries out_int32 right out",
    "torch.cat": "tensors dim out",
    "torch.column_stack": "tensors out",
    "torch.complex": "real imag out",
    "torch.concat": "tensors dim out",
    "torch.concatenate": "tensors axis out",
    "torch.cuda.manual_seed": "seed",
    "torch.cuda.manual_seed_all": "seed",
    "torch.cumulative_trapezoid": "y x dx dim",
    "torch.det": "input",
    "torch.dstack": "tensors out",
    "torch.equal": "input other",
    "torch.eye": "n m out dtype layout device requires_grad",
    "torch.from_numpy": "ndarray",
    "torch.full": "size fill_value out dtype layout device requires_grad",
    "torch.full_like": "input fill_value dtype layout device requires_grad memory_format",
    "torch.hstack": "tensors out",
    "torch.is_tensor": "obj",
    "torch.isclose": "input other rtol atol equal_nan",
    "torch.linalg.cross": "input other dim out",
    "torch.linalg.det": "A out",
    "torch.linalg.diagonal": "A offset dim1 dim2",
    "torch.linalg.vecdot": "x y dim out",
    "torch.linspace": "start end steps out dtype layout device requires_grad",
    "torch.logspace": "start end steps base out dtype layout device requires_grad",
    "torch.manual_seed": "seed",
    "torch.nn.functional.l1_loss": "input target size_average reduce reduction weight",
    "torch.nn.functional.linear": "input weight bias",
    "torch.nn.functional.mse_loss": "input target size_average reduce reduction weight",
    "torch.nn.functional.normalize": "input p dim eps out",
    "torch.nn.functional.pad": "input pad mode value",
    "torch.nn.init.constant_": "tensor val",
    "torch.nn.utils.parameters_to_vector": "parameters",
    "torch.nn.utils.vector_to_parameters": "vec parameters",
    "torch.normal": "mean std generator out",
    "torch.polar": "abs angle out",
    "torch.random.manual_seed": "seed",
    "torch.row_stack": "tensors out",
    "torch.searchsorted": "sorted_sequence values out_int32 right side out sorter",
    "torch.set_default_dtype": "d",
    "torch.set_default_tensor_type": "t",
    "torch.stack": "tensors dim out",
    "torch.trapezoid": "y x dx dim",
    "torch.trapz": "y x dim",
    "torch.tril": "input diagonal out",
    "torch.triu": "input diagonal out",
    "torch.view_as_complex": "input",
    "torch.view_as_real": "input",
    "torch.vstack": "tensors out",
    "typing.cast": "typ val",
}
