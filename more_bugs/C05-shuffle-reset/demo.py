import numpy
from returnn.torch.data.pipeline import ShufflingDataPipe
data = [[{"data": numpy.array([i])}] for i in range(6)]
class Src:
    def __iter__(self): return iter(data)
p = ShufflingDataPipe(Src(), buffer_size=2, monotonic_data_keys=(), seed=1)
it = iter(p)
next(it); next(it)
del it
out = sorted(int(b[0]["data"][0]) for b in p)
assert out == list(range(6)), out
