import os, tempfile, numpy
import returnn.datasets.cached as cached
class Sync:
    class Thread:
        def __init__(self, target, args=(), **_): self.t, self.a = target, args
        def start(self): self.t(*self.a)
cached.threading = Sync  # deterministic
from returnn.datasets.hdf import SimpleHDFWriter, HDFDataset
fn = tempfile.mkdtemp() + "/x.hdf"
w = SimpleHDFWriter(fn, dim=2, ndim=2)
for i in range(4):
    w.insert_batch(numpy.full((1, 2, 2), i, "float32"), seq_len=[2], seq_tag=["seq-%i" % i])
w.close()
d = HDFDataset([fn], cache_byte_size=1 << 20)
d.initialize()
def tags(order):
    d.init_seq_order(epoch=1, seq_order=order)
    r = []
    for i in range(d.num_seqs):
        d.load_seqs(i, i + 1)
        r.append((d.get_tag(i), float(d.get_data(i, "data")[0, 0])))
    return r
for o in [[0, 1, 2, 3], [3, 1, 0, 2], [0, 1, 2, 3]]:
    t = tags(o)
    assert t == [("seq-%i" % i, float(i)) for i in o], (o, t)
