import time, sys, os, numpy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from returnn.datasets.map import MapDatasetBase
class Slow(MapDatasetBase):
    def __init__(self):
        super().__init__(data_types={"data": {"dim": 100, "sparse": True, "dtype": "int32"}})
    def __len__(self):
        return 8
    def __getitem__(self, i):
        return {"data": numpy.array([i], dtype="int32")}
    def get_seq_tag(self, i):
        return "seq-%i" % i
    def get_seq_order(self, epoch=None):
        if epoch == 2:
            time.sleep(7)
        return list(range(8)) if epoch == 1 else list(reversed(range(8)))
def main():
    from demo import Slow
    from returnn.datasets.basic import init_dataset
    ds = init_dataset({"class": "MultiProcDataset", "dataset": {"class": "MapDatasetWrapper", "map_dataset": Slow}, "num_workers": 2, "buffer_size": 2})
    for ep in (1, 2):
        ds.init_seq_order(epoch=ep)
        res = []
        while ds.is_less_than_num_seqs(len(res)):
            ds.load_seqs(len(res), len(res) + 1)
            res.append(int(ds.get_data(len(res), "data")[0]))
        assert res == (list(range(8)) if ep == 1 else list(reversed(range(8)))), (ep, res)
if __name__ == "__main__":
    main()
