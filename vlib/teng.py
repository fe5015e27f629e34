"""tiny torch-engine setups with a model of which everything is computed independently (numpy float64)"""
import os, itertools, math
import numpy


def init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    import returnn.torch.engine  # noqa
    from returnn.util.basic import BackendEngine, BehaviorVersion, describe_returnn_version
    import returnn.frontend as rf

    BackendEngine.select_engine(engine=BackendEngine.Torch)
    BehaviorVersion.set_min_behavior_version(24)
    describe_returnn_version()
    rf.select_backend_torch()
    import torch, gc

    torch.set_num_threads(1)
    gc.collect = lambda *args: 0

    # the data loader only uses a Manager for a shared epoch counter; with num_workers=0 a plain value does the same
    class Val:
        def __init__(self, typecode, value):
            self.value = value

        def get(self):
            return self.value

        def set(self, v):
            self.value = v

    class Manager:
        def Value(self, typecode, value):
            return Val(typecode, value)

        def __getattr__(self, name):
            raise AttributeError(f"Manager stand-in: {name}")

    torch.multiprocessing.Manager = Manager


def seqs(lens, salt=0):
    """:return: list of {"data": [T,2] float32, "target": [T] float32}"""
    out = []
    for i, n in enumerate(lens):
        t = numpy.arange(n)
        x = numpy.stack([numpy.sin(1.3 * t + 2.1 * i + salt), numpy.cos(0.7 * t * (i + 1) + salt)], axis=-1)
        y = numpy.sin(0.9 * t - i + 0.5 * salt) * 2
        out.append({"data": x.astype("float32"), "target": y.astype("float32")[:, None]})
    return out


EXTERN = {"data": {"dim": 2}, "target": {"dim": 1}}


def dataset(name, data, **kw):
    from returnn.datasets.basic import init_dataset

    return init_dataset({"class": "StaticDataset", "data": data, "output_dim": {"data": (2, 2), "target": (1, 2)}, "name": name, **kw})
