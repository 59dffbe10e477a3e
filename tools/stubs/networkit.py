"""A small stand-in for the parts of networkit the roadmap uses (undirected weighted graphs)."""
import heapq, math, pickle, sys, types
import numpy as np


class Format:
    NetworkitBinary = 'nkb'


class Graph:
    def __init__(self, n=0, weighted=False, directed=False):
        self.adj = {i: {} for i in range(n)}
        self.top = n
        self.weighted = weighted

    def addNode(self):
        return self.addNodes(1)

    def addNodes(self, k):
        for _ in range(k):
            self.adj[self.top] = {}
            self.top += 1
        return self.top - 1

    def hasNode(self, u):
        return int(u) in self.adj

    def removeNode(self, u):
        for v in list(self.adj[int(u)]):
            del self.adj[v][int(u)]
        del self.adj[int(u)]

    def restoreNode(self, u):
        self.adj[int(u)] = {}

    def addEdge(self, u, v, w=1.0, addMissing=False, checkMultiEdge=False):
        u, v = int(u), int(v)
        if u not in self.adj or v not in self.adj:
            raise RuntimeError('no such node')
        if checkMultiEdge and v in self.adj[u]:
            return False
        self.adj[u][v] = self.adj[v][u] = float(w) if self.weighted else 1.0
        return True

    def removeEdge(self, u, v):
        del self.adj[int(u)][int(v)]
        self.adj[int(v)].pop(int(u), None)

    def hasEdge(self, u, v):
        return int(v) in self.adj.get(int(u), {})

    def weight(self, u, v):
        return self.adj[int(u)].get(int(v), 0.0)

    def numberOfNodes(self):
        return len(self.adj)

    def numberOfEdges(self):
        return len(list(self.iterEdges()))

    def iterNodes(self):
        return iter(list(self.adj))

    def iterNeighbors(self, u):
        return iter(list(self.adj[int(u)]))

    def iterEdges(self):
        return ((u, v) for u, v, _ in self.iterEdgesWeights())

    def iterEdgesWeights(self):
        return iter([(u, v, w) for u in self.adj for v, w in self.adj[u].items() if u >= v])

    def indexEdges(self, force=False):
        pass


def writeGraph(g, path, fmt, *a, **k):
    with open(path, 'wb') as f:
        pickle.dump((g.adj, g.top, g.weighted), f)


def readGraph(path, fmt, *a, **k):
    g = Graph()
    with open(path, 'rb') as f:
        g.adj, g.top, g.weighted = pickle.load(f)
    return g


def _dijkstra(g, s):
    dist, prev, q = {s: 0.0}, {}, [(0.0, s)]
    while q:
        d, u = heapq.heappop(q)
        if d > dist[u]:
            continue
        for v, w in g.adj[u].items():
            if d + w < dist.get(v, math.inf):
                dist[v] = d + w
                prev[v] = u
                heapq.heappush(q, (d + w, v))
    return dist, prev


class BidirectionalDijkstra:
    def __init__(self, g, source, target, storePred=True):
        self.g, self.s, self.t = g, int(source), int(target)

    def run(self):
        dist, prev = _dijkstra(self.g, self.s)
        self.d = dist.get(self.t, sys.float_info.max)
        self.path = []
        u = self.t
        while u in prev and prev[u] != self.s:
            u = prev[u]
            self.path.insert(0, u)
        return self

    def getDistance(self):
        return self.d

    def getPath(self):
        return self.path


class SPSP:
    def __init__(self, g, sources):
        self.g, self.sources, self.targets = g, [int(x) for x in sources], None

    def setTargets(self, targets):
        self.targets = [int(x) for x in targets]

    def run(self):
        ts = self.targets if self.targets is not None else sorted(self.g.adj)
        self.table = []
        for s in self.sources:
            d = _dijkstra(self.g, s)[0]
            self.table.append([d.get(t, sys.float_info.max) for t in ts])
        return self

    def getDistances(self, asarray=None):
        return np.array(self.table) if asarray else self.table


class GraphTools:
    @staticmethod
    def merge(g, other):
        while g.top < other.top:
            g.addNode()
        for u, v, w in other.iterEdgesWeights():
            if not g.hasEdge(u, v):
                g.addEdge(u, v, w)

    @staticmethod
    def append(g, other):
        raise NotImplementedError


distance = types.ModuleType('networkit.distance')
distance.BidirectionalDijkstra = BidirectionalDijkstra
distance.SPSP = SPSP
graphtools = types.ModuleType('networkit.graphtools')
graphtools.GraphTools = GraphTools
sys.modules['networkit.distance'] = distance
sys.modules['networkit.graphtools'] = graphtools
__path__ = []
