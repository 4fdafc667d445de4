"""Minimal stand-in for rustworkx.PyGraph: the operations PyMatching uses, with the documented semantics."""


class PyGraph:
    def __init__(self, multigraph=True):
        self.multigraph = multigraph
        self._nodes = []
        self._edges = []

    def add_node(self, obj):
        self._nodes.append(obj)
        return len(self._nodes) - 1

    def add_nodes_from(self, objs):
        return [self.add_node(o) for o in objs]

    def node_indices(self):
        return list(range(len(self._nodes)))

    def nodes(self):
        return list(self._nodes)

    def num_nodes(self):
        return len(self._nodes)

    def num_edges(self):
        return len(self._edges)

    def __len__(self):
        return len(self._nodes)

    def __getitem__(self, i):
        if not 0 <= i < len(self._nodes):
            raise IndexError("No node found for index")
        return self._nodes[i]

    def __setitem__(self, i, value):
        self._nodes[i] = value

    def add_edge(self, a, b, obj):
        for x in (a, b):
            if not 0 <= x < len(self._nodes):
                raise IndexError("One of the endpoints of the edge does not exist in graph")
        if not self.multigraph:
            for k, (u, v, _) in enumerate(self._edges):
                if {u, v} == {a, b}:
                    self._edges[k] = (u, v, obj)
                    return k
        self._edges.append((a, b, obj))
        return len(self._edges) - 1

    def add_edges_from(self, edges):
        return [self.add_edge(*e) for e in edges]

    def extend_from_weighted_edge_list(self, edges):
        for a, b, obj in edges:
            while len(self._nodes) <= max(a, b):
                self._nodes.append(None)
            self.add_edge(a, b, obj)

    def weighted_edge_list(self):
        return list(self._edges)

    def edge_list(self):
        return [(a, b) for a, b, _ in self._edges]

    def get_edge_data(self, a, b):
        for u, v, obj in self._edges:
            if {u, v} == {a, b}:
                return obj
        raise KeyError("No edge found")
