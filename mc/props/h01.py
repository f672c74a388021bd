"""H01: the mesh has exactly the nodes, beams and constraints of its network."""
import collections
import itertools

import numpy as np
import pandas as pd

from ..engine import Out, Space
from ..geo import direction, net_rows
from .. import meshes, nets, stacks

ASSUMPTIONS = ["positions are copied, hence compared within 1e-12 relative"]


def key(f, s, p):
    return (int(f),) + tuple(np.round(np.r_[s, p], 7) + 0.0)


def check(out, net, mesh, attrs):
    ab, s, pa, pb = net_rows(net)
    m = len(ab)
    want = collections.Counter()
    for (a, b), (sa, sb), p, q in zip(ab, s, pa, pb):
        if a == b:
            want[(key(a, sa, p), key(a, sa, p))] += 1
            want[(key(b, sb, q), key(b, sb, q))] += 1
        else:
            want[(key(a, sa, p), key(b, sb, q))] += 1
            want[(key(b, sb, q), key(a, sa, p))] += 1
    if len(mesh) != 2 * m:
        out.fail("nodes", "%d nodes for %d rows" % (len(mesh), m))
        return
    if list(mesh.index) != list(range(2 * m)):
        out.fail("labels", "nodes are not labelled 0..m-1")
        return
    f = mesh.fiber.values
    S = mesh.s.values.astype(float)
    P = mesh[["x", "y", "z"]].values.astype(float)
    beam, con = mesh.beam.values, mesh.constraint.values
    if not all(np.issubdtype(v.dtype, np.integer) for v in (f, beam, con)):
        out.fail("types", "labels are not integers")
        return
    ks = [key(f[k], S[k], P[k]) for k in range(2 * m)]
    got = collections.Counter((ks[k], ks[con[k]]) for k in range(2 * m))
    if got != want:
        out.fail("pairing", "nodes paired differently from the network: unexpected %s, missing %s" % (
            list((got - want).items())[:2], list((want - got).items())[:2]))
    for k in range(2 * m):
        if con[con[k]] != k:
            out.fail("reciprocal", "node %d is paired with %d, which is paired with %d" % (k, con[k], con[con[k]]))
            break
    for k in range(1, 2 * m):
        if (f[k], S[k]) < (f[k - 1], S[k - 1]):
            out.fail("sorted", "nodes %d, %d are out of order" % (k - 1, k))
            break
    for fib in np.unique(f):
        idx = np.flatnonzero(f == fib)
        if list(beam[idx]) != list(np.roll(idx, -1)):
            out.fail("chain", "fiber %d with nodes %s is linked as %s" % (fib, idx[:8], beam[idx][:8]))
            break
    if any(mesh.attrs.get(k) != v for k, v in attrs.items()):
        out.fail("attrs", "attributes %s of a network with %s" % (mesh.attrs, attrs))
    out.traces += 1
    out.outcome = hash((tuple(con), tuple(f)))
    out.note = "%d nodes of %d fibers" % (2 * m, len(np.unique(f)))


def visit(st):
    from fibermat import Mesh
    out = Out()
    net = meshes.build_net(st)
    before = net.copy()
    mesh = Mesh(net)
    check(out, net, mesh, dict(net.attrs))
    if not before.equals(net):
        out.fail("input", "the given network was modified")
    out.succ = meshes.net_succ(st)
    return out


def spaces(tier):
    meshes.TIER = tier
    return [
        Space("abstract", meshes.abstract_init(), visit, "all networks of up to %d connections over the abscissa "
              "alphabet, every row order" % meshes.depth(tier)),
        Space("stacks", [("mat", s, t) for s in stacks.stack_states(tier) for t in (None, 3.0)
                         if not (s[0] == "piles" and (s[1] == "w3" or len(s[2][0]) > 3) and tier != "thorough")],
              visit, "networks and thresholded stacks of piles, connection subsets and generated mats",
              label=lambda s: stacks.label(s[1]) + " %s" % s[2]),
    ]
