"""Audio frames with distinct values."""
import numpy as np
import dlib
from dlib import Bad


def value(i, c):
    v = ((3 * i + c) * 7919) % 65521 - 32760
    return v - 1 if v <= 0 else v


def data(n, channels):
    return np.array([[value(i, c) for c in range(channels)] for i in range(n)], dtype=np.int16).reshape(n, channels)


def channels_of(arr, n):
    """Rows of numbers of a (channels, frames) or (frames,) array, scale 65536."""
    arr = np.asarray(arr)
    if arr.ndim == 1:
        arr = arr.reshape(1, -1)
    if arr.ndim != 2 or arr.shape[0] != n:
        raise Bad('shape %r for %d channels' % (arr.shape, n))
    return [[dlib.integer(v, 65536) for v in row] for row in arr.tolist()]
