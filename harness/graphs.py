import itertools
import numpy as np
import networkx as nx
import vp
from dppy.exotic_dpps import UST

MODES = ('Wilson', 'Aldous-Broder', 'GS', 'GS_bis', 'KuTa12', 'Schur', 'Chol')


def G(edges, nodes=None):
    g = nx.Graph()
    if nodes:
        g.add_nodes_from(nodes)
    g.add_edges_from(edges)
    return g


GRAPHS = {
    'k2': lambda: nx.complete_graph(2), 'k3': lambda: nx.complete_graph(3),
    'p3': lambda: nx.path_graph(3), 'c4': lambda: nx.cycle_graph(4),
    'k4': lambda: nx.complete_graph(4), 'star4': lambda: nx.star_graph(3),
    'diamond': lambda: G([(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]),
    'paw': lambda: G([(3, 0), (0, 1), (1, 2), (0, 2)], [3, 1, 0, 2]),
    'bull': lambda: G([(4, 1), (0, 1), (0, 2), (1, 2), (2, 3)], [2, 4, 0, 3, 1]),
    'k23': lambda: nx.complete_bipartite_graph(2, 3),
    'c5': lambda: nx.cycle_graph(5), 'house': lambda: G([(0, 1), (1, 2), (2, 3), (3, 0), (2, 4), (3, 4)]),
    'loop': lambda: G([(0, 1), (1, 2), (0, 2), (1, 1)]),
    'looppaw': lambda: G([(0, 1), (1, 2), (0, 2), (2, 3), (0, 0)]),
    'looppath': lambda: G([(0, 1), (1, 2), (0, 0), (2, 2)]),
    'wheel5': lambda: nx.wheel_graph(5),
}

# large graphs: a single tree, one cycle, a grid, and a star with one extra edge between far leaves
LARGE = {
    'path140': lambda: nx.path_graph(140),
    'cycle130': lambda: nx.cycle_graph(130),
    'grid11': lambda: nx.convert_node_labels_to_integers(nx.grid_2d_graph(11, 12)),
    'star140': lambda: G([(0, i) for i in range(1, 140)] + [(131, 137)], list(range(140))),
}


def graph(name):
    return (GRAPHS.get(name) or LARGE[name])()


def tree_idx(graph, t):
    """Sorted indices of the edges of t in graph.edges(); -9 for a foreign edge."""
    pos = {frozenset(e): i for i, e in enumerate(graph.edges())}
    if set(t.nodes()) != set(graph.nodes()):
        return (-9,)
    return tuple(sorted(pos.get(frozenset(e), -9) for e in t.edges()))


def base(name, what, **kw):
    g = graph(name)
    return dict(what=what, n=g.number_of_nodes(), edges=[[int(a), int(b)] for a, b in g.edges()], **kw)
