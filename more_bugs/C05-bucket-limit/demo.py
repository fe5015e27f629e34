import numpy
from returnn.torch.data.pipeline import BucketOrderingIterDataPipe
data = [{"data": numpy.zeros((l, 2))} for l in (1, 4, 2, 4, 3, 2)]
class Src:
    def __iter__(self): return iter(data)
out = [len(d["data"]) for b in BucketOrderingIterDataPipe(Src(), buckets=[(2, 2), (4, 2)], length_key="data") for d in b]
assert sorted(out) == [1, 2, 2, 3, 4, 4], out
