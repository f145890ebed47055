"""Model of chamferdist's compiled nearest-neighbour kernel: forks on which target point is the nearest (lowest index on
ties, as the kernel's strict comparison does) and returns the squared distance.  The Python wrapper around it runs for real."""
import sys

import torch

from . import terms as T
from . import symtensor as ST


class Kernel:
    def __init__(self, real):
        self.real = real

    def __getattr__(self, n):
        return getattr(self.real, n)

    def knn_points_idx(self, p1, p2, lengths1, lengths2, K, version=-1):
        if not any(isinstance(x, ST.SymTensor) for x in (p1, p2)):
            return self.real.knn_points_idx(p1, p2, lengths1, lengths2, K, version)
        if K != 1:
            raise ST.Unsupported("knn with K=%d" % K)
        N, P1, D = p1.shape
        P2 = p2.shape[1]
        a, b = ST.nodes(_sym(p1)), ST.nodes(_sym(p2))
        l1 = [int(n.val) for n in ST.nodes(_sym(lengths1))]
        l2 = [int(n.val) for n in ST.nodes(_sym(lengths2))]
        path = ST.PATH[0]
        idx, dist = [], []
        for n in range(N):
            for i in range(P1):
                if i >= l1[n] or l2[n] == 0:
                    idx.append(T.ZERO)
                    dist.append(T.ZERO)
                    continue
                ds = []
                for j in range(l2[n]):
                    s = T.ZERO
                    for k in range(D):
                        d = T.sub(a[(n * P1 + i) * D + k], b[(n * P2 + j) * D + k])
                        s = T.add(s, T.mul(d, d))
                    ds.append(s)
                best = 0
                for j in range(1, l2[n]):
                    if path.decide(T.lt(ds[j], ds[best])):
                        best = j
                idx.append(T.const(best))
                dist.append(ds[best])
        return (ST.from_nodes(idx, (N, P1, 1), torch.int64), ST.from_nodes(dist, (N, P1, 1), p1.dtype))

    def knn_points_backward(self, p1, p2, lengths1, lengths2, idx, grad):
        if not any(isinstance(x, ST.SymTensor) for x in (p1, p2, grad)):
            return self.real.knn_points_backward(p1, p2, lengths1, lengths2, idx, grad)
        N, P1, D = p1.shape
        g1, g2 = torch.zeros_like(p1), torch.zeros_like(p2)
        for n in range(N):
            nn = p2[n][idx[n, :, 0]]
            d = 2 * (p1[n] - nn) * grad[n]
            g1[n] = d
            for i, j in enumerate(int(x.val) for x in ST.nodes(_sym(idx[n, :, 0]))):
                g2[n, j] = g2[n, j] - d[i]
        return g1, g2


def _sym(x):
    return x if isinstance(x, ST.SymTensor) else ST.lift(x)


def install():
    m = sys.modules.get("chamferdist.chamfer")
    if m is not None and not isinstance(m._C, Kernel):
        m._C = Kernel(m._C)
