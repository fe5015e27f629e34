import os, tempfile, numpy
rec = []
def sub(files):
    rec.append([os.path.basename(f) for f in files])
    return {"class": "StaticDataset", "data": [{"data": numpy.array([int(os.path.basename(f)[1:]), 2], dtype="int32")} for f in files], "output_dim": {"data": (10, 1)}, "seq_ordering": "default"}
def main():
    from returnn.datasets.basic import init_dataset
    d = tempfile.mkdtemp()
    files = []
    for i in range(8):
        files.append(f"{d}/f{i}")
        open(files[-1], "wb").write(b"x" * 10)
    def mk():
        return init_dataset({"class": "DistributeFilesDataset", "files": files, "get_sub_epoch_dataset": sub, "seq_ordering": "random", "partition_epoch": 4, "preload_next_n_sub_epochs": 1})
    ds = mk()
    by_ep = {}
    for ep in range(1, 13):
        ds.init_seq_order(epoch=ep)
        by_ep[ep] = [int(ds.get_data(ds.load_seqs(i, i + 1) or i, "data")[0]) for i in range(ds.num_seqs)]
    ds.finish_epoch(free_resources=True)
    for fe in range(3):
        seen = sorted(x for p in range(4) for x in by_ep[fe * 4 + p + 1])
        assert seen == list(range(8)), (fe, seen)
if __name__ == "__main__":
    main()
