"""
Helpers for the checks on the TensorFlow backend (graph mode, CPU, single thread).
"""

from __future__ import annotations
import os, sys

os.environ.setdefault("TF_USE_LEGACY_KERAS", "1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ["CUDA_VISIBLE_DEVICES"] = ""


def init(behavior_version=22):
    """in the parent, before forking (no session is created here)"""
    import warnings

    warnings.filterwarnings("ignore")
    from returnn.log import log

    log.initialize(verbosity=[0])
    import tensorflow as tf
    import logging

    logging.getLogger("tensorflow").setLevel(logging.ERROR)
    import returnn.tf.compat as tf_compat

    tf_compat.v1.disable_eager_execution()
    if hasattr(tf_compat.v1, "disable_control_flow_v2"):
        tf_compat.v1.disable_control_flow_v2()
    from returnn.util.basic import BehaviorVersion, BackendEngine

    BackendEngine.select_engine(engine=BackendEngine.TensorFlowNetDict)
    BehaviorVersion.set_min_behavior_version(behavior_version)
    import returnn.tf.network
    import returnn.tf.layers.rec
    import returnn.tf.engine


class Net:
    """one graph + session + network"""

    def __init__(self, net_dict, extern_data, *, train=False, search=False, eval_flag=False, config=None):
        import tensorflow as tf
        from returnn.config import Config
        from returnn.tf.network import TFNetwork

        self.graph = tf.compat.v1.Graph()
        with self.graph.as_default():
            tf.compat.v1.set_random_seed(1)
            self.config = Config(dict({"extern_data": extern_data}, **(config or {})))
            self.net = TFNetwork(config=self.config, train_flag=train, eval_flag=eval_flag, search_flag=search)
            self.net.construct_from_dict(net_dict)
        opts = tf.compat.v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1, device_count=dict(GPU=0))
        self.session = tf.compat.v1.Session(graph=self.graph, config=opts)
        with self.graph.as_default():
            self.net.initialize_params(self.session)

    def close(self):
        self.session.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def feed(self, **data):
        """:param data: key -> (array [B,...], lens or None)"""
        fd = {}
        for k, (v, lens) in data.items():
            d = self.net.extern_data.data[k]
            fd[d.placeholder] = v
            if lens is not None:
                fd[d.size_placeholder[0]] = lens
        b = self.net.extern_data.get_batch_info().dim if hasattr(self.net.extern_data, "get_batch_info") else None
        try:
            self.net.extern_data.data["data"].placeholder
        except KeyError:
            pass
        return fd

    def fetch_layer(self, name):
        """:return: Data of the layer, with fetches (tensor, {axis w/o batch: sizes})"""
        layer = self.net.get_layer(name) if "/" in name else self.net.layers[name]
        return layer.output

    def run(self, layers, feed):
        """
        :param layers: names
        :return: {name: (array batch-major, lens or None)}
        """
        outs, fetch = {}, {}
        with self.graph.as_default():
            for n in layers:
                o = self.fetch_layer(n)
                o = o.copy_as_batch_major() if o.have_batch_axis() else o
                outs[n] = o
                fetch[n] = (o.placeholder, {a: o.get_dynamic_size(a) for a in range(o.batch_ndim) if a != o.batch_dim_axis and o.is_axis_dynamic(a)})
        return self.session.run(fetch, feed_dict=feed)
