// C21: meshes become grids and grids become meshes, with the same nodes.
#include "topo.hpp"
#include "geom.hpp"
using namespace mk;
namespace
{
    using N2 = std::array<double, 2>;
    // cells of a grid of lines, of which some are left out
    struct Cells
    {
        std::vector<double> xs, ys;
        std::vector<int> keep; // per cell, row by row
        int nx() const { return (int)xs.size() - 1; }
        int ny() const { return (int)ys.size() - 1; }
        bool has(int i, int j) const { return i >= 0 && j >= 0 && i < nx() && j < ny() && keep[j * nx() + i]; }
        // cells reached from i, j through shared sides
        std::vector<int> reach(int i, int j) const
        {
            std::vector<int> r(keep.size(), 0), todo{j * nx() + i};
            while (!todo.empty())
            {
                const int c = todo.back();
                todo.pop_back();
                if (r[c]) continue;
                r[c] = 1;
                const int ci = c % nx(), cj = c / nx();
                const int d[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
                for (auto& s : d)
                    if (has(ci + s[0], cj + s[1])) todo.push_back((cj + s[1]) * nx() + ci + s[0]);
            }
            return r;
        }
    };
    struct Built
    {
        std::vector<double> x, y;
        std::vector<int> e;
        std::vector<int> at; // node per grid place or -1
    };
    bool CellNode(const Cells& c, const std::vector<int>& k, int i, int j)
    {
        const auto h = [&](int a, int b) { return a >= 0 && b >= 0 && a < c.nx() && b < c.ny() && k[b * c.nx() + a]; };
        return h(i, j) || h(i - 1, j) || h(i, j - 1) || h(i - 1, j - 1);
    }
    bool CellEdge(const Cells& c, const std::vector<int>& k, int i, int j, bool along)
    {
        const auto h = [&](int a, int b) { return a >= 0 && b >= 0 && a < c.nx() && b < c.ny() && k[b * c.nx() + a]; };
        return along ? h(i, j) || h(i, j - 1) : h(i, j) || h(i - 1, j);
    }
    Built Build(const Cells& c, int order)
    {
        Built b;
        const int w = c.nx() + 1, h = c.ny() + 1;
        b.at.assign(w * h, -1);
        for (int q = 0; q < w * h; ++q)
        {
            const int k = order & 1 ? w * h - 1 - q : q;
            if (!CellNode(c, c.keep, k % w, k / w)) continue;
            b.at[k] = (int)b.x.size();
            b.x.push_back(c.xs[k % w]);
            b.y.push_back(c.ys[k / w]);
        }
        for (int pass = 0; pass < 2; ++pass)
            for (int k = 0; k < w * h; ++k)
            {
                const int i = k % w, j = k / w;
                const bool along = (pass == 0) == !(order & 2);
                if (along ? i + 1 >= w : j + 1 >= h) continue;
                if (!CellEdge(c, c.keep, i, j, along)) continue;
                int a = b.at[k], z = b.at[along ? k + 1 : k + w];
                if (order & 4) std::swap(a, z);
                b.e.push_back(a);
                b.e.push_back(z);
            }
        return b;
    }
    bool Joined(const M2& m, N2 a, N2 b)
    {
        for (int e = 0; e < m.numEdges(); ++e)
        {
            if (!m.validEdge(e)) continue;
            const N2 p{m.x[m.e[2 * e]], m.y[m.e[2 * e]]}, q{m.x[m.e[2 * e + 1]], m.y[m.e[2 * e + 1]]};
            if ((p == a && q == b) || (p == b && q == a)) return true;
        }
        return false;
    }
    int Count(const M2& m) // nodes in use
    {
        int n = 0;
        for (int i = 0; i < m.numNodes(); ++i) n += m.validNode(i);
        return n;
    }
} // namespace
// from a mesh to a grid
static void ToGrid(int mask, int order, int extra, double x, double y)
{
    Cells c{{0, 1, 2, 10}, {0, 4, 5}, {}};
    for (int k = 0; k < 6; ++k) c.keep.push_back(mask >> k & 1);
    Built b = Build(c, order);
    if (extra && b.at[0] >= 0)
    {
        // an edge that belongs to no cell, or a triangle, at the first corner
        const int n = (int)b.x.size();
        b.x.push_back(-3);
        b.y.push_back(-3);
        b.e.push_back(b.at[0]);
        b.e.push_back(n);
        if (extra == 2 && b.at[1] >= 0)
        {
            b.e.push_back(n);
            b.e.push_back(b.at[1]);
        }
    }
    const int id = NewState();
    ms_assert(SetMesh(id, b.x, b.y, b.e) == 0, "the mesh is taken");
    const M2 before = Get(id);
    const int rc = mkernel_mesh2d_convert_to_curvilinear(id, x, y);
    // the cell the point is in
    int cell = -1;
    bool near = false;
    for (int k = 0; k < 6; ++k)
    {
        const int i = k % 3, j = k / 3;
        if ((x >= c.xs[i]) & (x <= c.xs[i + 1]) & (y >= c.ys[j]) & (y <= c.ys[j + 1]) & (bool)c.keep[k])
        {
            if ((x > c.xs[i]) & (x < c.xs[i + 1]) & (y > c.ys[j]) & (y < c.ys[j + 1])) cell = k;
            else near = true;
        }
    }
    if (near) return;
    if (cell < 0)
    {
        ms_assert(rc != 0, "a point outside of every cell is refused");
        const M2 after = Get(id);
        ms_assert(SameNodes(before, after) && SameEdges(before, after), "a point that is refused changes nothing");
        ms_reach("refused");
        return;
    }
    ms_assert(rc == 0, "a point in a cell of four sides gives a grid");
    const CG g = GetCurvi(id);
    const auto comp = c.reach(cell % 3, cell / 3);
    const int w = 4, h = 3;
    // places where the grid would join nodes that the mesh does not
    bool clean = true;
    int nodes = 0;
    for (int k = 0; k < w * h; ++k)
    {
        const int i = k % w, j = k / w;
        if (!CellNode(c, comp, i, j)) continue;
        ++nodes;
        if (i + 1 < w && CellNode(c, comp, i + 1, j)) clean &= CellEdge(c, comp, i, j, true);
        if (j + 1 < h && CellNode(c, comp, i, j + 1)) clean &= CellEdge(c, comp, i, j, false);
    }
    // all nodes of the grid are nodes of these cells, each once, and joined in the mesh
    std::vector<N2> seen;
    bool ours = true, joined = true, cellIn = false;
    const auto at = [&](int i, int j) { return N2{g.x[j * g.m + i], g.y[j * g.m + i]}; };
    const auto live = [&](int i, int j) { return g.x[j * g.m + i] != MISSING; };
    for (int j = 0; j < g.n; ++j)
        for (int i = 0; i < g.m; ++i)
        {
            if (!live(i, j)) continue;
            const N2 p = at(i, j);
            bool in = false;
            for (int k = 0; k < w * h; ++k) in |= CellNode(c, comp, k % w, k / w) && c.xs[k % w] == p[0] && c.ys[k / w] == p[1];
            ours &= in && std::find(seen.begin(), seen.end(), p) == seen.end();
            seen.push_back(p);
            if (i + 1 < g.m && live(i + 1, j)) joined &= Joined(before, p, at(i + 1, j));
            if (j + 1 < g.n && live(i, j + 1)) joined &= Joined(before, p, at(i, j + 1));
            if (i + 1 < g.m && j + 1 < g.n && live(i + 1, j) && live(i, j + 1) && live(i + 1, j + 1))
                cellIn |= (p[0] + at(i + 1, j)[0] + at(i, j + 1)[0] + at(i + 1, j + 1)[0] == 2 * (c.xs[cell % 3] + c.xs[cell % 3 + 1])) &&
                          (p[1] + at(i + 1, j)[1] + at(i, j + 1)[1] + at(i + 1, j + 1)[1] == 2 * (c.ys[cell / 3] + c.ys[cell / 3 + 1]));
        }
    ms_assert(ours, "the grid's nodes are nodes of the cells reached, each once");
    ms_assert(joined, "neighbours in the grid are joined in the mesh");
    ms_assert(cellIn, "the cell with the point is a cell of the grid");
    if (clean) ms_assert((int)seen.size() == nodes, "all cells reached are in the grid");
    ms_assert(Count(Get(id)) == 0, "the mesh has become the grid");
    ms_reach(clean ? "whole" : "part");
    // and back
    ms_assert(mkernel_curvilinear_convert_to_mesh2d(id) == 0, "the grid becomes a mesh");
    const M2 back = Get(id);
    bool same = Count(back) == (int)seen.size();
    for (int i = 0; i < back.numNodes(); ++i)
        if (back.validNode(i)) same &= std::find(seen.begin(), seen.end(), N2{back.x[i], back.y[i]}) != seen.end();
    int edges = 0;
    for (int e = 0; e < back.numEdges(); ++e)
    {
        if (!back.validEdge(e)) continue;
        ++edges;
        same &= Joined(before, {back.x[back.e[2 * e]], back.y[back.e[2 * e]]}, {back.x[back.e[2 * e + 1]], back.y[back.e[2 * e + 1]]});
    }
    if (clean)
    {
        int want = 0;
        for (int k = 0; k < w * h; ++k)
            want += (k % w + 1 < w && CellEdge(c, comp, k % w, k / w, true)) + (k / w + 1 < h && CellEdge(c, comp, k % w, k / w, false));
        same &= edges == want;
    }
    ms_assert(same, "the mesh made from the grid is the part of the mesh the grid was made from");
    bool did = false;
    int mesh = -1;
    ms_assert(mkernel_undo_state(did, mesh) == 0 && did && mkernel_undo_state(did, mesh) == 0 && did, "both steps are undone");
    const M2 again = Get(id);
    ms_assert(SameNodes(before, again) && SameEdges(before, again), "undoing both gives the mesh as it was");
}
MS_HARNESS(grid)
{
    const int mask = ms_pick("cells", 1, 63);
    const int order = ms_pick("order", 0, 7);
    const int extra = ms_pick("extra", 0, 2);
    const int k = ms_pick("start", 0, 5);
    const int where = ms_thorough() ? ms_pick("where", 0, 2) : (mask + k + order) % 3;
    const double xs[4] = {0, 1, 2, 10}, ys[3] = {0, 4, 5};
    const double f = where == 0 ? 0.5 : where == 1 ? 0.0625 : 0.875, g = where == 2 ? 0.125 : f;
    ToGrid(mask, order, extra, xs[k % 3] + f * (xs[k % 3 + 1] - xs[k % 3]), ys[k / 3] + g * (ys[k / 3 + 1] - ys[k / 3]));
}
// every starting point
MS_HARNESS(point)
{
    const int mask = ms_pick("cells", 0, 5);
    const double x = ms_lattice("x", -4, 44, -2);
    const double y = ms_lattice("y", -4, 24, -2);
    const int masks[6] = {12, 36, 33, 20, 63, 30};
    ToGrid(masks[mask], mask, 0, x, y);
}
// from a grid to a mesh, next to what is there
MS_HARNESS(mesh)
{
    const int n = ms_pick("n", 2, 4);
    const int m = ms_pick("m", 2, 4);
    const int gone = ms_pick("gone", -1, 15);
    const int other = ms_pick("other", 0, 2);
    if (gone >= n * m) return;
    std::vector<double> x, y;
    for (int k = 0; k < n * m; ++k)
    {
        x.push_back(k % m + 0.25 * (k / m));
        y.push_back(2 * (k / m));
    }
    x[n * m - 1] += 0.25;
    if (gone >= 0) x[gone] = y[gone] = MISSING;
    const int id = NewState();
    // nodes of cells
    std::vector<int> keep;
    Cells c{{}, {}, {}};
    for (int j = 0; j < m; ++j) c.xs.push_back(j);
    for (int j = 0; j < n; ++j) c.ys.push_back(j);
    for (int j = 0; j + 1 < n; ++j)
        for (int i = 0; i + 1 < m; ++i) c.keep.push_back(!(gone == j * m + i || gone == j * m + i + 1 || gone == (j + 1) * m + i || gone == (j + 1) * m + i + 1));
    int was = 0, wasEdges = 0;
    if (other)
    {
        const auto g = Rect(2, other + 1, 1, 1, 20, 20);
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
        was = 2 * (other + 1);
        wasEdges = other + 1 + 2 * other;
    }
    if (SetCurvi(id, n, m, x, y) != 0) return;
    const M2 before = Get(id);
    ms_assert(mkernel_curvilinear_convert_to_mesh2d(id) == 0, "the grid becomes a mesh");
    const M2 a = Get(id);
    bool all = true;
    int nodes = 0, edges = 0;
    for (int k = 0; k < n * m; ++k)
    {
        if (k == gone) continue;
        ++nodes;
        int found = 0;
        for (int i = 0; i < a.numNodes(); ++i) found += (a.x[i] == x[k]) & (a.y[i] == y[k]);
        all &= found == 1;
        for (int s = 0; s < 2; ++s)
        {
            if (s == 0 ? k % m + 1 >= m : k / m + 1 >= n) continue;
            const int o = s == 0 ? k + 1 : k + m;
            if (o == gone) continue;
            ++edges;
            int f = 0;
            for (int e = 0; e < a.numEdges(); ++e)
            {
                if (!a.validEdge(e)) continue;
                const int p = a.e[2 * e], q = a.e[2 * e + 1];
                f += ((a.x[p] == x[k]) & (a.y[p] == y[k]) & (a.x[q] == x[o]) & (a.y[q] == y[o])) | ((a.x[q] == x[k]) & (a.y[q] == y[k]) & (a.x[p] == x[o]) & (a.y[p] == y[o]));
            }
            all &= f == 1;
        }
    }
    ms_assert(all, "every node and edge of the grid's cells is one of the mesh's, once");
    int live = 0, liveEdges = 0;
    for (int i = 0; i < a.numNodes(); ++i) live += a.validNode(i);
    for (int e = 0; e < a.numEdges(); ++e) liveEdges += a.validEdge(e);
    ms_assert(live == nodes + was && liveEdges == edges + wasEdges, "nothing but the grid is added to the mesh");
    bool kept = true;
    for (int i = 0; i < was; ++i) kept &= before.x[i] == a.x[i] && before.y[i] == a.y[i];
    for (int i = 0; i < 2 * wasEdges; ++i) kept &= before.e[i] == a.e[i];
    ms_assert(kept, "what was there stays, with the same numbers");
    int cells = 0;
    for (int k : c.keep) cells += k;
    ms_assert(a.numFaces() == cells + other, "every cell becomes a face");
    const CG g = GetCurvi(id);
    ms_assert(g.x.empty() || g.rc != 0, "the grid has become the mesh");
    ms_reach(other ? "joined" : "alone");
}
