"""Names and signatures of the array API standard (2025.12), written out once from array_api_strict 2.6.1.

SIG: name -> (positional-only count or None, positional parameters, keyword-only parameters, var-positional).
"""
ARRAY_ATTRS = ['T', 'device', 'dtype', 'mT', 'ndim', 'shape', 'size', 'to_device']
NAMES = ['__name__', 'bool', 'complex128', 'complex64', 'e', 'fft', 'float32', 'float64', 'inf', 'int16', 'int32', 'int64', 'int8', 'linalg', 'nan', 'newaxis', 'pi', 'uint16', 'uint32', 'uint64', 'uint8']
SIG = {
    'abs': (['x'], ['x'], [], False, False),
    'acos': (['x'], ['x'], [], False, False),
    'acosh': (['x'], ['x'], [], False, False),
    'add': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'all': (['x'], ['x'], ['axis', 'keepdims'], False, False),
    'any': (['x'], ['x'], ['axis', 'keepdims'], False, False),
    'arange': (['start', 'stop', 'step'], ['start'], ['dtype', 'device'], False, False),
    'argmax': (['x'], ['x'], ['axis', 'keepdims'], False, False),
    'argmin': (['x'], ['x'], ['axis', 'keepdims'], False, False),
    'argsort': (['x'], ['x'], ['axis', 'descending', 'stable'], False, False),
    'asarray': (['obj'], ['obj'], ['dtype', 'device', 'copy'], False, False),
    'asin': (['x'], ['x'], [], False, False),
    'asinh': (['x'], ['x'], [], False, False),
    'astype': (['x', 'dtype'], ['x', 'dtype'], ['copy', 'device'], False, False),
    'atan': (['x'], ['x'], [], False, False),
    'atan2': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'atanh': (['x'], ['x'], [], False, False),
    'bitwise_and': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'bitwise_invert': (['x'], ['x'], [], False, False),
    'bitwise_left_shift': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'bitwise_or': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'bitwise_right_shift': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'bitwise_xor': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'broadcast_arrays': ([], [], [], True, False),
    'broadcast_shapes': ([], [], [], True, False),
    'broadcast_to': (['x', 'shape'], ['x'], [], False, False),
    'can_cast': (['from_', 'to'], ['from_', 'to'], [], False, False),
    'ceil': (['x'], ['x'], [], False, False),
    'clip': (['x', 'min', 'max'], ['x'], [], False, False),
    'concat': (['arrays'], ['arrays'], ['axis'], False, False),
    'conj': (['x'], ['x'], [], False, False),
    'copysign': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'cos': (['x'], ['x'], [], False, False),
    'cosh': (['x'], ['x'], [], False, False),
    'count_nonzero': (['x'], ['x'], ['axis', 'keepdims'], False, False),
    'cumulative_prod': (['x'], ['x'], ['axis', 'dtype', 'include_initial'], False, False),
    'cumulative_sum': (['x'], ['x'], ['axis', 'dtype', 'include_initial'], False, False),
    'diff': (['x'], ['x'], ['axis', 'n', 'prepend', 'append'], False, False),
    'divide': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'empty': (['shape'], [], ['dtype', 'device'], False, False),
    'empty_like': (['x'], ['x'], ['dtype', 'device'], False, False),
    'equal': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'exp': (['x'], ['x'], [], False, False),
    'expand_dims': (['x', 'axis'], ['x'], [], False, False),
    'expm1': (['x'], ['x'], [], False, False),
    'eye': (['n_rows', 'n_cols'], ['n_rows', 'n_cols'], ['k', 'dtype', 'device'], False, False),
    'fft.fft': (['x'], ['x'], ['n', 'axis', 'norm'], False, False),
    'fft.fftfreq': (['n'], ['n'], ['d', 'dtype', 'device'], False, False),
    'fft.fftn': (['x'], ['x'], ['s', 'axes', 'norm'], False, False),
    'fft.fftshift': (['x'], ['x'], ['axes'], False, False),
    'fft.hfft': (['x'], ['x'], ['n', 'axis', 'norm'], False, False),
    'fft.ifft': (['x'], ['x'], ['n', 'axis', 'norm'], False, False),
    'fft.ifftn': (['x'], ['x'], ['s', 'axes', 'norm'], False, False),
    'fft.ifftshift': (['x'], ['x'], ['axes'], False, False),
    'fft.ihfft': (['x'], ['x'], ['n', 'axis', 'norm'], False, False),
    'fft.irfft': (['x'], ['x'], ['n', 'axis', 'norm'], False, False),
    'fft.irfftn': (['x'], ['x'], ['s', 'axes', 'norm'], False, False),
    'fft.rfft': (['x'], ['x'], ['n', 'axis', 'norm'], False, False),
    'fft.rfftfreq': (['n'], ['n'], ['d', 'dtype', 'device'], False, False),
    'fft.rfftn': (['x'], ['x'], ['s', 'axes', 'norm'], False, False),
    'finfo': (['type'], ['type'], [], False, False),
    'flip': (['x'], ['x'], ['axis'], False, False),
    'floor': (['x'], ['x'], [], False, False),
    'floor_divide': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'from_dlpack': (['x'], ['x'], ['device', 'copy'], False, False),
    'full': (['shape', 'fill_value'], [], ['dtype', 'device'], False, False),
    'full_like': (['x', 'fill_value'], ['x'], ['dtype', 'device'], False, False),
    'greater': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'greater_equal': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'hypot': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'iinfo': (['type'], ['type'], [], False, False),
    'imag': (['x'], ['x'], [], False, False),
    'isdtype': (['dtype', 'kind'], [], [], False, False),
    'isfinite': (['x'], ['x'], [], False, False),
    'isin': (['x1', 'x2'], ['x1', 'x2'], ['invert'], False, False),
    'isinf': (['x'], ['x'], [], False, False),
    'isnan': (['x'], ['x'], [], False, False),
    'less': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'less_equal': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'linalg.cholesky': (['x'], ['x'], ['upper'], False, False),
    'linalg.cross': (['x1', 'x2'], ['x1', 'x2'], ['axis'], False, False),
    'linalg.det': (['x'], ['x'], [], False, False),
    'linalg.diagonal': (['x'], ['x'], ['offset'], False, False),
    'linalg.eigh': (['x'], ['x'], [], False, False),
    'linalg.eigvalsh': (['x'], ['x'], [], False, False),
    'linalg.inv': (['x'], ['x'], [], False, False),
    'linalg.matmul': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'linalg.matrix_norm': (['x'], ['x'], ['keepdims', 'ord'], False, False),
    'linalg.matrix_power': (['x', 'n'], ['x', 'n'], [], False, False),
    'linalg.matrix_rank': (['x'], ['x'], ['rtol'], False, False),
    'linalg.matrix_transpose': (['x'], ['x'], [], False, False),
    'linalg.outer': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'linalg.pinv': (['x'], ['x'], ['rtol'], False, False),
    'linalg.qr': (['x'], ['x'], ['mode'], False, False),
    'linalg.slogdet': (['x'], ['x'], [], False, False),
    'linalg.solve': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'linalg.svd': (['x'], ['x'], ['full_matrices'], False, False),
    'linalg.svdvals': (['x'], ['x'], [], False, False),
    'linalg.tensordot': (['x1', 'x2'], ['x1', 'x2'], ['axes'], False, False),
    'linalg.trace': (['x'], ['x'], ['offset', 'dtype'], False, False),
    'linalg.vecdot': (['x1', 'x2'], ['x1', 'x2'], ['axis'], False, False),
    'linalg.vector_norm': (['x'], ['x'], ['axis', 'keepdims', 'ord'], False, False),
    'linspace': (['start', 'stop', 'num'], ['start', 'stop'], ['dtype', 'device', 'endpoint'], False, False),
    'log': (['x'], ['x'], [], False, False),
    'log10': (['x'], ['x'], [], False, False),
    'log1p': (['x'], ['x'], [], False, False),
    'log2': (['x'], ['x'], [], False, False),
    'logaddexp': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'logical_and': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'logical_not': (['x'], ['x'], [], False, False),
    'logical_or': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'logical_xor': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'matmul': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'matrix_transpose': (['x'], ['x'], [], False, False),
    'max': (['x'], ['x'], ['axis', 'keepdims'], False, False),
    'maximum': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'mean': (['x'], ['x'], ['axis', 'keepdims'], False, False),
    'meshgrid': ([], [], ['indexing'], True, False),
    'min': (['x'], ['x'], ['axis', 'keepdims'], False, False),
    'minimum': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'moveaxis': (['x', 'source', 'destination'], ['x', 'source', 'destination'], [], False, False),
    'multiply': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'negative': (['x'], ['x'], [], False, False),
    'nextafter': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'nonzero': (['x'], ['x'], [], False, False),
    'not_equal': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'ones': (['shape'], [], ['dtype', 'device'], False, False),
    'ones_like': (['x'], ['x'], ['dtype', 'device'], False, False),
    'permute_dims': (['x', 'axes'], ['x'], [], False, False),
    'positive': (['x'], ['x'], [], False, False),
    'pow': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'prod': (['x'], ['x'], ['axis', 'dtype', 'keepdims'], False, False),
    'real': (['x'], ['x'], [], False, False),
    'reciprocal': (['x'], ['x'], [], False, False),
    'remainder': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'repeat': (['x', 'repeats'], ['x', 'repeats'], ['axis'], False, False),
    'reshape': (['x', 'shape'], ['x'], ['copy'], False, False),
    'result_type': ([], [], [], True, False),
    'roll': (['x', 'shift'], ['x'], ['axis'], False, False),
    'round': (['x'], ['x'], [], False, False),
    'searchsorted': (['x1', 'x2'], ['x1', 'x2'], ['side', 'sorter'], False, False),
    'sign': (['x'], ['x'], [], False, False),
    'signbit': (['x'], ['x'], [], False, False),
    'sin': (['x'], ['x'], [], False, False),
    'sinh': (['x'], ['x'], [], False, False),
    'sort': (['x'], ['x'], ['axis', 'descending', 'stable'], False, False),
    'sqrt': (['x'], ['x'], [], False, False),
    'square': (['x'], ['x'], [], False, False),
    'squeeze': (['x', 'axis'], ['x'], [], False, False),
    'stack': (['arrays'], ['arrays'], ['axis'], False, False),
    'std': (['x'], ['x'], ['axis', 'correction', 'keepdims'], False, False),
    'subtract': (['x1', 'x2'], ['x1', 'x2'], [], False, False),
    'sum': (['x'], ['x'], ['axis', 'dtype', 'keepdims'], False, False),
    'take': (['x', 'indices'], ['x', 'indices'], ['axis'], False, False),
    'take_along_axis': (['x', 'indices'], ['x', 'indices'], ['axis'], False, False),
    'tan': (['x'], ['x'], [], False, False),
    'tanh': (['x'], ['x'], [], False, False),
    'tensordot': (['x1', 'x2'], ['x1', 'x2'], ['axes'], False, False),
    'tile': (['x', 'repetitions'], ['x', 'repetitions'], [], False, False),
    'tril': (['x'], ['x'], ['k'], False, False),
    'triu': (['x'], ['x'], ['k'], False, False),
    'trunc': (['x'], ['x'], [], False, False),
    'unique_all': (['x'], ['x'], [], False, False),
    'unique_counts': (['x'], ['x'], [], False, False),
    'unique_inverse': (['x'], ['x'], [], False, False),
    'unique_values': (['x'], ['x'], [], False, False),
    'unstack': (['x'], ['x'], ['axis'], False, False),
    'var': (['x'], ['x'], ['axis', 'correction', 'keepdims'], False, False),
    'vecdot': (['x1', 'x2'], ['x1', 'x2'], ['axis'], False, False),
    'where': (['condition', 'x1', 'x2'], ['condition', 'x1', 'x2'], [], False, False),
    'zeros': (['shape'], [], ['dtype', 'device'], False, False),
    'zeros_like': (['x'], ['x'], ['dtype', 'device'], False, False),
}
