#include "topo.hpp"
using namespace mk;

// C07: faces are exactly the minimal cycles; nodes, edges and faces that are read back agree with each other.
namespace
{
    struct Edges
    {
        std::set<std::pair<int, int>> s;
        bool has(int a, int b) const { return s.count({std::min(a, b), std::max(a, b)}) > 0; }
    };
    // setting a mesh drops the nodes without edges: the number that node i of the mesh had in the given arrays
    std::vector<int> Kept(int n, const std::vector<int>& e)
    {
        std::set<int> s(e.begin(), e.end());
        return std::vector<int>(s.begin(), s.end());
    }
    Edges Of(const M2& m)
    {
        Edges r;
        for (int e = 0; e < m.numEdges(); ++e)
            if (m.e[2 * e] >= 0 && m.e[2 * e + 1] >= 0) r.s.insert({std::min(m.e[2 * e], m.e[2 * e + 1]), std::max(m.e[2 * e], m.e[2 * e + 1])});
        return r;
    }
    // faces with at most six corners of a subset of the edges of an nx by ny grid whose cells may have one diagonal (a to c):
    // unit cells, triangles, and pairs of neighbouring cells or triangles joined by a missing edge
    std::set<std::vector<int>> Expected(const Edges& E, int nx, int ny)
    {
        // elementary regions: the two triangles of each cell; neighbours joined when the edge between them is absent
        struct T { int n[3]; };
        std::vector<T> t;
        for (int j = 0; j + 1 < ny; ++j)
            for (int i = 0; i + 1 < nx; ++i)
            {
                const int a = j * nx + i, b = a + 1, c = a + nx + 1, d = a + nx;
                t.push_back({{a, b, c}});
                t.push_back({{a, c, d}});
            }
        const int N = (int)t.size();
        std::vector<int> id(N + 1);
        for (int i = 0; i <= N; ++i) id[i] = i;
        auto find = [&](int i) { while (id[i] != i) i = id[i]; return i; };
        std::map<std::pair<int, int>, std::vector<int>> side;
        for (int i = 0; i < N; ++i)
            for (int k = 0; k < 3; ++k) side[{std::min(t[i].n[k], t[i].n[(k + 1) % 3]), std::max(t[i].n[k], t[i].n[(k + 1) % 3])}].push_back(i);
        for (auto& [e, l] : side)
            if (!E.has(e.first, e.second)) id[find(l[0])] = find(l.size() > 1 ? l[1] : N); // N is the outside
        std::set<std::vector<int>> r;
        for (int root = 0; root < N; ++root)
        {
            if (find(root) != root || find(N) == root) continue;
            std::set<int> nodes;
            int boundary = 0, inner = 0;
            for (auto& [e, l] : side)
            {
                int c = 0;
                for (int q : l) c += find(q) == root;
                if (c == 1 && E.has(e.first, e.second))
                {
                    ++boundary;
                    nodes.insert(e.first);
                    nodes.insert(e.second);
                }
                if (c == 2 && E.has(e.first, e.second)) ++inner; // an edge that hangs inside the region
            }
            if (inner == 0 && boundary <= 6 && boundary == (int)nodes.size()) r.insert(std::vector<int>(nodes.begin(), nodes.end()));
            if (inner) r.insert({-1}); // not decided here
        }
        return r;
    }
    void CheckFaces(int id, int nx, int ny, const std::vector<int>* kept = nullptr)
    {
        auto m = Get(id);
        CheckTopology(m);
        if (kept && kept->empty()) return;
        if (kept)
        {
            ms_assert(m.numNodes() == (int)kept->size(), "exactly the nodes with an edge are kept");
            for (auto& n : m.fn) n = (*kept)[n];
            for (auto& n : m.e)
                if (n >= 0) n = (*kept)[n];
        }
        const auto want = Expected(Of(m), nx, ny);
        if (want.count({-1})) return;
        ms_assert(FaceSets(m) == want, "the faces are exactly the smallest cycles of edges with at most six corners");
        ms_reach("faces");
    }
} // namespace
// any subset of the edges of a 3x3-node grid
MS_HARNESS(subset)
{
    auto g = Rect(3, 3);
    const double dx = ms_lattice("dx", -1, 1, -2);
    g.x[4] += dx;
    std::vector<int> e;
    for (int k = 0; k < 12; ++k)
        if (ms_bool(nm("edge", k)))
        {
            e.push_back(g.e[2 * k]);
            e.push_back(g.e[2 * k + 1]);
        }
    const int id = NewState();
    ms_assert(SetMesh(id, g.x, g.y, e) == 0, "mesh accepted");
    const auto kept = Kept(9, e);
    CheckFaces(id, 3, 3, &kept);
}
// cells split by diagonals, any of the inner edges and diagonals present, edges given in either direction and order
MS_HARNESS(diagonals)
{
    auto g = Rect(3, 3);
    std::vector<int> e;
    for (int k = 0; k < 4; ++k)
    {
        static const int d[4][2] = {{0, 4}, {1, 5}, {3, 7}, {4, 8}};
        if (ms_bool(nm("diagonal", k)))
        {
            e.push_back(d[k][0]);
            e.push_back(d[k][1]);
        }
    }
    for (int k = 0; k < 12; ++k)
    {
        const bool inner = k == 2 || k == 3 || k == 7 || k == 10;
        if (inner && !ms_bool(nm("edge", k))) continue;
        e.push_back(g.e[2 * k]);
        e.push_back(g.e[2 * k + 1]);
    }
    if (ms_pick("order", 0, 1)) std::reverse(e.begin(), e.end());
    const double y4 = ms_lattice("y4", -1, 1, -2);
    g.y[4] += y4;
    const int id = NewState();
    ms_assert(SetMesh(id, g.x, g.y, e) == 0, "mesh accepted");
    const auto kept = Kept(9, e);
    CheckFaces(id, 3, 3, &kept);
}
// after two edits with symbolic arguments
MS_HARNESS(edited)
{
    const int id = NewState();
    auto g = Rect(4, 3);
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "mesh accepted");
    for (int k = 0; k < (ms_thorough() ? 3 : 2); ++k)
    {
        const int kind = ms_pick(nm("kind", k), 0, 3);
        const int a = ms_int(nm("a", k), 0, kind == 1 ? 16 : 11);
        if (kind == 0) mkernel_mesh2d_delete_node(id, a);
        if (kind == 1) mkernel_mesh2d_delete_edge_by_index(id, a);
        if (kind == 2) // a diagonal of a cell
        {
            int o = -1;
            const auto m = Get(id);
            ms_assume(a < 7 && a % 4 < 3 && m.validNode(a) && m.validNode(a + 5));
            ms_assert(mkernel_mesh2d_insert_edge(id, a, a + 5, o) == 0, "edge inserted");
        }
        if (kind == 3) // undo
        {
            bool did;
            int which;
            mkernel_undo_state(did, which);
        }
    }
    CheckFaces(id, 4, 3);
}
// cells surrounded by cells with fewer corners, any numbering direction; the centre of a face is its centre of mass
MS_HARNESS(mixed)
{
    auto g = Rect(4, 4, 1, 2);
    const bool rev = ms_pick("numbering", 0, 1) == 1;
    const int drop = ms_pick("drop", 0, 4);
    static const int dropped[5][2] = {{-1, -1}, {5, 6}, {6, 10}, {4, 5}, {10, 14}};
    std::vector<int> e;
    for (int k = 0; k < (int)g.e.size() / 2; ++k)
        if (!(g.e[2 * k] == dropped[drop][0] && g.e[2 * k + 1] == dropped[drop][1]))
        {
            e.push_back(g.e[2 * k]);
            e.push_back(g.e[2 * k + 1]);
        }
    static const int cell[8] = {0, 1, 2, 4, 6, 8, 9, 10};
    for (int k = 0; k < 8; ++k)
        if (ms_bool(nm("diagonal", k)))
        {
            e.push_back(cell[k]);
            e.push_back(cell[k] + 5);
        }
    g.x[5] += 0.25;
    g.y[10] -= 0.5;
    auto p = [&](int n) { return rev ? 15 - n : n; };
    std::vector<double> x(16), y(16);
    std::vector<int> kept(16);
    for (int i = 0; i < 16; ++i)
    {
        x[p(i)] = g.x[i];
        y[p(i)] = g.y[i];
        kept[p(i)] = i;
    }
    for (auto& n : e) n = p(n);
    const int id = NewState();
    ms_assert(SetMesh(id, x, y, e) == 0, "mesh accepted");
    CheckFaces(id, 4, 4, &kept);
    const auto m = Get(id);
    int q = 0;
    for (int f = 0; f < m.numFaces(); q += m.npf[f], ++f)
    {
        double cx = 0, cy = 0;
        const int k = m.npf[f];
        for (int i = 0; i < k; ++i)
        {
            const int a = m.fn[q + i], b = m.fn[q + (i + 1) % k];
            const double w = m.x[a] * m.y[b] - m.x[b] * m.y[a];
            cx += (m.x[a] + m.x[b]) * w;
            cy += (m.y[a] + m.y[b]) * w;
        }
        const double A = 3 * Area2(m, &m.fn[q], k);
        ms_assert(std::abs(cx / A - m.fx[f]) < 1e-9 && std::abs(cy / A - m.fy[f]) < 1e-9, "the centre of a face is its centre of mass");
    }
}
// a face that meets the same neighbour along two sides, numbered from any node
MS_HARNESS(notch)
{
    // square 0 1 2 3, chevron 1 4 3 2 around its corner 2, triangles on its other sides
    const std::vector<double> gx{0, 1, 1, 0, 3, 0.5, -1}, gy{0, 0, 1, 1, 3, -1, 0.5};
    const std::vector<int> ge{0, 1, 1, 2, 2, 3, 3, 0, 1, 4, 4, 3, 0, 5, 5, 1, 3, 6, 6, 0};
    const int shift = ms_pick("first", 0, 6);
    const int rev = ms_pick("reverse", 0, 1);
    const double dx = ms_lattice("dx", -1, 1, -2);
    auto p = [&](int n) { return ((rev ? 6 - n : n) + shift) % 7; };
    std::vector<double> x(7), y(7);
    std::vector<int> e;
    for (int i = 0; i < 7; ++i)
    {
        x[p(i)] = i == 2 ? gx[i] + dx : gx[i];
        y[p(i)] = gy[i];
    }
    const bool without = ms_pick("without", 0, 1) == 1;
    for (int k = 0; k < 10; ++k)
    {
        if (without && k > 5 && k < 8) continue;
        e.push_back(p(ge[2 * k]));
        e.push_back(p(ge[2 * k + 1]));
    }
    const int id = NewState();
    ms_assert(SetMesh(id, x, y, e) == 0, "mesh accepted");
    const auto m = Get(id);
    CheckTopology(m);
    ms_assert(m.numFaces() == (e.size() == 20 ? 4 : 3), "every cell is a face");
    ms_reach("faces");
}
