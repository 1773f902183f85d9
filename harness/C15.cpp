#include "geom.hpp"
using namespace mk;

// C15: merging nodes and connecting meshes.
namespace
{
    using Pair = std::pair<int, int>;
    Pair Ordered(int a, int b) { return {std::min(a, b), std::max(a, b)}; }
    // the mesh after is the mesh before with nodes put together: to[i] is the representative of node i, and one of the nodes with that
    // representative is left, in its place
    void CheckContracted(const M2& before, const M2& after, const std::vector<int>& to)
    {
        CheckTopology(after);
        const int n = before.numNodes();
        ms_assert(after.numNodes() <= n, "no nodes are made");
        std::vector<int> left(n, 0);
        bool place = true;
        for (int i = 0; i < after.numNodes(); ++i)
        {
            if (!after.validNode(i)) continue;
            ++left[to[i]];
            place &= (after.x[i] == before.x[i]) & (after.y[i] == before.y[i]);
        }
        ms_assert(place, "the nodes that are left stay in place");
        std::set<Pair> want, have;
        for (int e = 0; e < before.numEdges(); ++e)
            if (before.validEdge(e) && to[before.e[2 * e]] != to[before.e[2 * e + 1]]) want.insert(Ordered(to[before.e[2 * e]], to[before.e[2 * e + 1]]));
        for (int e = 0; e < after.numEdges(); ++e)
            if (after.validEdge(e)) ms_assert(have.insert(Ordered(to[after.e[2 * e]], to[after.e[2 * e + 1]])).second, "no edge is there twice");
        ms_assert(want == have, "the edges are those of the mesh with the nodes put together");
        std::vector<int> used(n, 0);
        for (auto& p : want) used[p.first] = used[p.second] = 1;
        for (int i = 0; i < n; ++i) ms_assert(left[i] == used[i], "of nodes that are put together exactly one is left");
    }
    M2 Doubled(int id, double gx, double gy, int nx, int ny, double size)
    {
        auto a = Rect(3, 3, 4, 4), b = Rect(nx, ny, size, size, 8 + gx, gy);
        for (int k : b.e) a.e.push_back(k + 9);
        a.x.insert(a.x.end(), b.x.begin(), b.x.end());
        a.y.insert(a.y.end(), b.y.begin(), b.y.end());
        ms_assert(SetMesh(id, a.x, a.y, a.e) == 0, "set");
        return Get(id);
    }
    double D2(const M2& m, int a, int b) { return (m.x[a] - m.x[b]) * (m.x[a] - m.x[b]) + (m.y[a] - m.y[b]) * (m.y[a] - m.y[b]); }
}
// two meshes side by side
MS_HARNESS(distance)
{
    const int id = NewState();
    const int gx = ms_pick("gx", 0, 2);
    const int gy = ms_pick("gy", -1, 2);
    const auto m = Doubled(id, 0.25 * gx, 0.25 * gy, 3, 3, 4);
    const int radius = ms_pick("radius", 0, 3);
    const double d = radius == 0 ? 0.4 : 0.2 * radius; // by default a tenth of the shortest edge
    const bool part = ms_pick("part", 0, 1);
    Poly g;
    const double y0 = ms_lattice("y0", -3, 3, 1) + 1;
    const double y1 = ms_lattice("y1", -1, 5, 1) + 1;
    if (part)
    {
        ms_assume(y1 > y0);
        g = Box(-3, y0, 9.25, y1);
    }
    else ms_assume((y0 == 1) & (y1 == 1));
    const int rc = radius == 0 ? mkernel_mesh2d_merge_nodes(id, g.gl()) : mkernel_mesh2d_merge_nodes_with_merging_distance(id, g.gl(), d);
    ms_assert(rc == 0, "merging is done");
    std::vector<int> to(18);
    for (int i = 0; i < 18; ++i) to[i] = i;
    for (int k = 0; k < 3; ++k)
    {
        const int a = 3 * k + 2, b = 9 + 3 * k;
        const bool in = !part || (m.y[a] > y0 && m.y[a] < y1 && m.y[b] > y0 && m.y[b] < y1);
        if (in && D2(m, a, b) < d * d) to[a] = b, ms_reach("merged");
    }
    CheckContracted(m, Get(id), to);
}
// nodes of one cell
MS_HARNESS(collapse)
{
    const int id = NewState();
    auto g = Rect(4, 3, 4, 4);
    const bool twice = ms_pick("twice", 0, 1);
    for (int k = 0; k < 3; ++k)
    {
        g.x[4 * k + 2] = 4.5; // columns 1 and 2 are close
        if (twice) g.x[4 * k + 3] = 5.25;
    }
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "set");
    const auto m = Get(id);
    const double y0 = ms_lattice("y0", -1, 3, 1) + 1;
    const double y1 = ms_lattice("y1", 0, 5, 1) + 1;
    ms_assume(y1 > y0);
    const double x1 = ms_lattice("x1", 2, 3, 1) + 0.25; // 4.25 or 6.25
    Poly p = Box(-3, y0, x1, y1);
    ms_assert(mkernel_mesh2d_merge_nodes_with_merging_distance(id, p.gl(), 1.0) == 0, "merging is done");
    std::vector<int> to(12);
    for (int i = 0; i < 12; ++i) to[i] = i;
    for (int k = 0; k < 3; ++k)
        if (m.y[4 * k] > y0 && m.y[4 * k] < y1 && x1 > 5)
        {
            to[4 * k + 1] = 4 * k + 2;
            if (twice) to[4 * k + 1] = to[4 * k + 2] = 4 * k + 3; // a chain of three
            ms_reach("merged");
        }
    CheckContracted(m, Get(id), to);
}
// one node into another
MS_HARNESS(two)
{
    const int id = NewState();
    auto g = Rect(3, 3, 4, 4);
    for (int k : {0, 4, 4, 8}) g.e.push_back(k);
    const double dx = ms_lattice("dx", -1, 1, 0);
    g.x[4] += dx;
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "set");
    const auto m = Get(id);
    const int a = ms_int("first", -2000000000, 2000000000);
    const int b = ms_int("second", -2000000000, 2000000000);
    const int rc = mkernel_mesh2d_merge_two_nodes(id, a, b);
    if (a < 0 || b < 0 || a > 8 || b > 8)
    {
        ms_assert(rc != 0, "nodes that are not there are refused");
        const auto r = Get(id);
        ms_assert(SameNodes(r, m) && SameEdges(r, m), "and nothing changes");
        ms_reach("refused");
        return;
    }
    ms_assert(rc == 0, "merging is done");
    const auto r = Get(id);
    ms_assert(r.validNode(b) && (a == b || !r.validNode(a)), "the second node is left");
    ms_assert((r.x[b] == m.x[b]) & (r.y[b] == m.y[b]), "in its place");
    const int n = m.numNodes();
    std::set<Pair> want, have;
    for (int e = 0; e < m.numEdges(); ++e)
    {
        const int u = m.e[2 * e] == a ? b : m.e[2 * e], v = m.e[2 * e + 1] == a ? b : m.e[2 * e + 1];
        if (u != v) want.insert(Ordered(u, v));
    }
    for (int e = 0; e < r.numEdges(); ++e)
        if (r.validEdge(e)) ms_assert(have.insert(Ordered(r.e[2 * e], r.e[2 * e + 1])).second, "no edge is there twice");
    ms_assert(want == have, "all edges of the first node now end in the second");
    bool ok = true;
    for (int i = 0; i < n; ++i)
        if (i != a || a == b) ok &= (r.x[i] == m.x[i]) & (r.y[i] == m.y[i]);
    ms_assert(ok, "all other nodes are left as they were");
    ms_reach("merged");
}
// a mesh with cells of size 4 and one with cells of size 4 / r to the right (or left) of it
MS_HARNESS(connect)
{
    const int id = NewState();
    const int r = ms_pick("ratio", 1, 8);
    const int gap = ms_pick("gap", 0, 2);
    const int place = ms_pick("place", -1, 2); // rows of the coarse mesh below the fine one
    const bool swap = ms_pick("swap", 0, 1);
    const bool left = ms_pick("left", 0, 1);
    const int wide = ms_pick("wide", 1, 4);
    const int flip = ms_pick("flip", 0, 3); // edges of the one or the other mesh the other way round
    if (!ms_thorough() && flip != 0 && gap == 1) return;
    const double s = 4.0 / r, gx = 0.1 * gap * s;
    auto a = Rect(wide + 1, 4, 4, 4);
    const double right = 4.0 * wide;
    for (auto& c : a.x) c += 12 - right;
    if (left)
        for (auto& c : a.x) c -= 12 - right;
    auto b = Rect(3, 2 * r + 1, s, s, left ? -2 * s - gx : 12 + gx, 4.0 * place);
    for (size_t k = 0; k + 1 < a.e.size(); k += 2)
        if (flip & 1) std::swap(a.e[k], a.e[k + 1]);
    for (size_t k = 0; k + 1 < b.e.size(); k += 2)
        if (flip & 2) std::swap(b.e[k], b.e[k + 1]);
    const auto& base = swap ? b : a;
    auto add = swap ? a : b;
    ms_assert(SetMesh(id, base.x, base.y, base.e) == 0, "set");
    Mesh2D o{};
    o.num_nodes = (int)add.x.size();
    o.num_edges = (int)add.e.size() / 2;
    o.node_x = add.x.data();
    o.node_y = add.y.data();
    o.edge_nodes = add.e.data();
    const auto before = Get(id);
    const int rc = mkernel_mesh2d_connect_meshes(id, o, 0.4);
    const auto m = Get(id);
    const int y0 = std::max(place, 0), y1 = std::min(place + 2, 3); // shared rows
    if (r > 5 && y0 < y1)
    {
        ms_assert(rc != 0 && SameNodes(m, before) && SameEdges(m, before) && SameFaces(m, before), "too fine meshes are refused without change");
        ms_reach("refused");
        return;
    }
    ms_assert(rc == 0, "connecting is done");
    CheckTopology(m);
    // every node of the coarse mesh, and every node of the fine mesh away from the shared side, is still there
    const double side = left ? 0 : 12;
    auto there = [&](double x, double y, double tol) {
        int k = 0;
        for (int i = 0; i < m.numNodes(); ++i)
            if (m.validNode(i) && std::abs(m.x[i] - x) <= tol && std::abs(m.y[i] - y) <= tol) ++k;
        return k;
    };
    bool nodes = true;
    for (size_t i = 0; i < a.x.size(); ++i) nodes &= there(a.x[i], a.y[i], gx + 1e-9) == 1;
    for (size_t i = 0; i < b.x.size(); ++i) nodes &= there(b.x[i], b.y[i], gx + 1e-9) == 1;
    ms_assert(nodes, "every node of both meshes is there once, moved at most by the gap");
    {
        const double want = 2 * (3 * wide * 16.0 + 4 * r * s * s), have = TotalArea2(m);
        ms_assert(std::abs(want - have) < 1e-6 + 2 * gx * 12, "the cells cover the area of both meshes, without overlap");
    }
    // no rim edge along the shared part of the side
    for (int e = 0; e < m.numEdges(); ++e)
    {
        if (!m.validEdge(e) || (m.ef[2 * e] >= 0 && m.ef[2 * e + 1] >= 0)) continue;
        const bool near = std::abs(m.x[m.e[2 * e]] - side) <= gx + 1e-9 && std::abs(m.x[m.e[2 * e + 1]] - side) <= gx + 1e-9;
        ms_assert(!near || m.ey[e] < 4 * y0 || m.ey[e] > 4 * y1, "the shared side is closed");
    }
    ms_reach("connected");
}
