"""Stand-ins shared by the symbolic and the concrete runs (no browser, no files, no tkinter)"""
import sys
import types


class Network:
    """Records what would be rendered; never touches the file system"""
    made = []

    def __init__(self, height='500px', width='500px', *a, **k):
        self.size = (height, width)
        self.nodes = []
        self.edges = []
        self.shown = []
        Network.made.append(self)

    def add_node(self, n_id, label=None, **k):
        # pyvis ignores a node id it already has
        if n_id not in [n for n, _, _ in self.nodes]:
            self.nodes.append((n_id, label if label is not None else n_id, k))

    def add_edge(self, source, to, **k):
        ids = [n for n, _, _ in self.nodes]
        assert source in ids, f"non existent node '{source}'"
        assert to in ids, f"non existent node '{to}'"
        self.edges.append((source, to, k))

    def add_nodes(self, nodes, **k):
        labels = k.get('label')
        for i, n in enumerate(nodes):
            self.add_node(n, label=labels[i] if labels else None)

    def add_edges(self, edges):
        for e in edges:
            self.add_edge(e[0], e[1])

    def show(self, name, *a, **k):
        self.shown.append(name)

    def save_graph(self, name):
        self.shown.append(name)

    def write_html(self, name, *a, **k):
        self.shown.append(name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def install():
    pv = types.ModuleType('pyvis')
    net = types.ModuleType('pyvis.network')
    net.Network = Network
    pv.network = net
    sys.modules['pyvis'] = pv
    sys.modules['pyvis.network'] = net


def reset():
    Network.made = []
