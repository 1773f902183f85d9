// C23: orthogonalising moves only the nodes it was asked to move, along the boundary where they are on it.
#include "topo.hpp"
#include "geom.hpp"
using namespace mk;
namespace
{
    bool Finite(double v) { return v == v && v > -1e6 && v < 1e6; }
} // namespace
// unstructured meshes
MS_HARNESS(mesh)
{
    const int sel = ms_pick("selection", 0, 5);
    const int shape = ms_pick("shape", 0, 3);
    const int moved = ms_pick("moved", 0, 8);
    const int option = ms_pick("option", 0, 1);
    const int how = ms_pick("weights", 0, 2);
    // five by five nodes, one of the inner ones out of place
    auto g = Rect(5, 5, 2, 2);
    const int k = (1 + moved / 3) * 5 + 1 + moved % 3;
    g.x[k] += 0.5;
    g.y[k] -= 0.375;
    if (shape == 1)
        for (auto& v : g.x) v = v + v * v / 16; // widening
    if (shape == 2)
    {
        // a diagonal in one of the cells
        g.e.push_back(6);
        g.e.push_back(12);
    }
    if (shape == 3)
        for (size_t i = 0; i < g.x.size(); ++i) g.x[i] += g.y[i] / 4;
    const int id = NewState();
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
    const M2 a = Get(id);
    Ring r;
    if (sel == 1) r = BoxRing(1, 1, 5.25, 5.25);
    if (sel == 2) r = BoxRing(-1, -1, 5.25, 20);
    if (sel == 3) r = BoxRing(3, 3, 30, 30);
    if (sel == 4) r = BoxRing(50, 50, 60, 60);
    if (sel == 5) r = {{-1, 3}, {7, -3}, {30, 4}, {5, 30}};
    Poly q, land;
    if (!r.empty()) AddRing(q, r);
    meshkernel::OrthogonalizationParameters p;
    p.outer_iterations = 1 + (how == 1);
    p.boundary_iterations = 2;
    p.inner_iterations = 3;
    p.orthogonalization_to_smoothing_factor = how == 0 ? 0.975 : how == 1 ? 1.0 : 0.25;
    p.orthogonalization_to_smoothing_factor_at_boundary = how == 2 ? 0.5 : 1.0;
    p.areal_to_angle_smoothing_factor = 1.0;
    ms_assert(mkernel_mesh2d_compute_orthogonalization(id, option, p, q.gl(), land.gl()) == 0, "the mesh is orthogonalised");
    const M2 b = Get(id);
    ms_assert(SameEdges(a, b) && SameFaces(a, b) && a.numNodes() == b.numNodes(), "edges and faces stay the same");
    bool stay = true, rim = true, finite = true;
    int did = 0;
    for (int i = 0; i < 25; ++i)
    {
        const bool same = a.x[i] == b.x[i] && a.y[i] == b.y[i];
        did += !same;
        finite &= Finite(b.x[i]) && Finite(b.y[i]);
        if (!r.empty() && !InRing(r, {a.x[i], a.y[i]})) stay &= same;
        const int c = i % 5, w = i / 5;
        const bool ew = c == 0 || c == 4, ns = w == 0 || w == 4;
        if (ew && ns) rim &= std::abs(a.x[i] - b.x[i]) < 1e-9 && std::abs(a.y[i] - b.y[i]) < 1e-9; // corners
        else if (ns) rim &= std::abs(a.y[i] - b.y[i]) < 1e-9 && b.x[i] > a.x[w * 5] && b.x[i] < a.x[w * 5 + 4];
        else if (ew) rim &= std::abs((b.x[i] - a.x[c]) * (a.y[20 + c] - a.y[c]) - (b.y[i] - a.y[c]) * (a.x[20 + c] - a.x[c])) < 1e-9 && b.y[i] > a.y[c] && b.y[i] < a.y[20 + c];
    }
    ms_assert(finite, "nodes stay within reach");
    ms_assert(stay, "nodes outside of the selection stay where they are");
    ms_assert(rim, "nodes of the boundary stay on it, corners where they are");
    ms_reach(did ? "moved" : "still");
    bool done = false;
    int mesh = -1;
    ms_assert(mkernel_undo_state(done, mesh) == 0 && done, "the step is undone");
    const M2 c = Get(id);
    ms_assert(SameNodes(a, c) && SameEdges(a, c), "undoing gives the mesh as it was");
}
// every box around part of a mesh
MS_HARNESS(box)
{
    const int which = ms_pick("which", 0, 3);
    const double x0 = ms_lattice("x0", -2, 6, 0);
    const double x1 = ms_lattice("x1", -1, 9, 0);
    const double y0 = ms_lattice("y0", -2, 6, 0);
    const double y1 = ms_lattice("y1", -1, 9, 0);
    ms_assume((x0 < x1) & (y0 < y1));
    auto g = Rect(5, 5, 2, 2);
    for (size_t i = 0; i < g.x.size(); ++i)
    {
        g.x[i] += 0.5;
        g.y[i] += 0.5;
    }
    const int k[4] = {6, 12, 17, 8};
    g.x[k[which]] += 0.25;
    g.y[k[which]] -= 0.375;
    const int id = NewState();
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
    Poly q({x0, x1, x1, x0, x0}, {y0, y0, y1, y1, y0}), land;
    meshkernel::OrthogonalizationParameters p;
    p.outer_iterations = 1;
    p.boundary_iterations = 1;
    p.inner_iterations = 1;
    ms_assert(mkernel_mesh2d_compute_orthogonalization(id, 0, p, q.gl(), land.gl()) == 0, "the mesh is orthogonalised");
    const M2 b = Get(id);
    bool stay = true, moved = false;
    for (int i = 0; i < 25; ++i)
    {
        const bool out = (g.x[i] < x0) | (g.x[i] > x1) | (g.y[i] < y0) | (g.y[i] > y1);
        const bool same = b.x[i] == g.x[i] && b.y[i] == g.y[i];
        stay &= !out | same;
        if (i == k[which]) moved = out | !same;
    }
    ms_assert(stay, "nodes outside of the box stay where they are");
    ms_assert(moved, "a node within the box that is out of place is moved");
    ms_reach("box");
}
// curvilinear grids
MS_HARNESS(grid)
{
    const int n = 6, m = 5;
    const int a = ms_pick("first", 0, 29);
    const int b = ms_pick("second", 0, 29);
    const int line = ms_pick("line", -1, 8); // grid line that is frozen
    const bool part = ms_pick("part", 0, 1);
    const int moved = ms_thorough() ? ms_pick("moved", 0, 3) : (a + b) % 4;
    std::vector<double> x, y;
    for (int k = 0; k < n * m; ++k)
    {
        x.push_back(2.0 * (k % m) + 0.5 * (k / m));
        y.push_back(3.0 * (k / m));
    }
    const int w[4] = {6, 12, 18, 22};
    x[w[moved]] += 0.75;
    y[w[moved]] += 0.5;
    const int id = NewState();
    ms_assert(SetCurvi(id, n, m, x, y) == 0, "the grid is taken");
    const CG before = GetCurvi(id);
    meshkernel::OrthogonalizationParameters p;
    p.outer_iterations = 1;
    p.boundary_iterations = 2;
    p.inner_iterations = 2;
    const int n0 = std::min(a / m, b / m), n1 = std::max(a / m, b / m), m0 = std::min(a % m, b % m), m1 = std::max(a % m, b % m);
    int rc = mkernel_curvilinear_initialize_orthogonalize(id, p);
    ms_assert(rc == 0, "orthogonalisation is started");
    const int set = mkernel_curvilinear_set_block_orthogonalize(id, x[a], y[a], x[b], y[b]);
    if (set != 0)
    {
        ms_assert(n0 == n1 || m0 == m1, "a block is taken");
        return;
    }
    std::vector<int> frozen;
    if (line >= 0)
    {
        // lines 0 to 3 along n (inner and rim), 4 to 8 along m
        const bool along = line < 4;
        const int at = along ? (line == 3 ? m - 1 : line) : line - 4;
        for (int k = 0; k < n * m; ++k)
            if ((along ? k % m : k / m) == at && (!part || ((along ? k / m : k % m) >= 1 && (along ? k / m : k % m) <= 3))) frozen.push_back(k);
        const int s = frozen.front(), e = frozen.back();
        ms_assert(mkernel_curvilinear_set_frozen_lines_orthogonalize(id, x[s], y[s], x[e], y[e]) == 0, "a line is frozen");
    }
    rc = mkernel_curvilinear_orthogonalize(id);
    ms_assert(rc == 0, "the grid is orthogonalised");
    ms_assert(mkernel_curvilinear_finalize_orthogonalize(id) == 0, "orthogonalisation is ended");
    const CG g = GetCurvi(id);
    ms_assert(g.n == n && g.m == m, "the grid keeps its size");
    bool stay = true, rim = true, finite = true, cold = true;
    for (int k = 0; k < n * m; ++k)
    {
        const int j = k / m, i = k % m;
        const bool same = before.x[k] == g.x[k] && before.y[k] == g.y[k];
        finite &= Finite(g.x[k]) && Finite(g.y[k]);
        if (j < n0 || j > n1 || i < m0 || i > m1) stay &= same;
        const bool ns = j == 0 || j == n - 1, ew = i == 0 || i == m - 1;
        // (where a frozen line meets the rim, its node may slide along the rim)
        if (!ns && !ew && std::find(frozen.begin(), frozen.end(), k) != frozen.end()) cold &= same;
        if (ns && ew) rim &= same;
        else if (ns) rim &= std::abs(g.y[k] - before.y[k]) < 1e-6;
        else if (ew) rim &= std::abs((g.x[k] - 2.0 * i) - g.y[k] / 6) < 1e-6;
    }
    ms_assert(finite, "nodes stay within reach");
    ms_assert(stay, "nodes outside of the block stay where they are");
    ms_assert(cold, "nodes of frozen lines within the grid stay where they are");
    ms_assert(rim, "nodes of the boundary stay on it, corners where they are");
    ms_reach(line < 0 ? "block" : "frozen");
    bool done = false;
    int mesh = -1;
    ms_assert(mkernel_undo_state(done, mesh) == 0 && done, "the step is undone");
    ms_assert(SameGrid(before, GetCurvi(id)), "undoing gives the grid as it was");
}
