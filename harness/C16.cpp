#include "geom.hpp"
using namespace mk;

// C16: descriptions of a mesh: its rims, its cells by number of corners or by quality, hanging edges, obtuse triangles, small flow edges.
namespace
{
    using Key = std::pair<double, double>;
    using Side = std::pair<Key, Key>;
    Side Make(Key a, Key b) { return a < b ? Side{a, b} : Side{b, a}; }
    // splits in closed rings; false when a ring is not closed, or there is an empty one
    bool Rings(const Poly& p, std::vector<std::vector<Key>>& rings)
    {
        rings.clear();
        if (p.x.empty()) return true;
        rings.emplace_back();
        for (size_t i = 0; i < p.x.size(); ++i)
        {
            if (p.x[i] == MISSING) rings.emplace_back();
            else rings.back().push_back({p.x[i], p.y[i]});
        }
        for (auto& r : rings)
            if (r.size() < 4 || r.front() != r.back()) return false;
        return true;
    }
    Poly Sized(int n)
    {
        Poly p;
        p.x.assign(n, -7.25);
        p.y.assign(n, -7.25);
        return p;
    }
    // a mesh of nx by ny cells of size 4, with the cells of the mask, some cut in two
    struct Cells
    {
        std::vector<double> x, y;
        std::vector<int> e;
    };
    Cells Build(int nx, int ny, const std::vector<char>& on, const std::vector<char>& cut)
    {
        Cells c;
        auto id = [&](int i, int j) { return j * (nx + 1) + i; };
        for (int j = 0; j <= ny; ++j)
            for (int i = 0; i <= nx; ++i)
            {
                c.x.push_back(4 * i);
                c.y.push_back(4 * j);
            }
        auto is = [&](int i, int j) { return i >= 0 && j >= 0 && i < nx && j < ny && on[j * nx + i]; };
        for (int j = 0; j <= ny; ++j)
            for (int i = 0; i <= nx; ++i)
            {
                if (i < nx && (is(i, j) || is(i, j - 1))) c.e.push_back(id(i, j)), c.e.push_back(id(i + 1, j));
                if (j < ny && (is(i, j) || is(i - 1, j))) c.e.push_back(id(i, j)), c.e.push_back(id(i, j + 1));
                if (is(i, j) && cut[j * nx + i]) c.e.push_back(id(i, j)), c.e.push_back(id(i + 1, j + 1));
            }
        return c;
    }
    std::vector<Key> Corners(const M2& m, int f)
    {
        std::vector<Key> r;
        for (int k : FaceNodes(m, f)) r.push_back({m.x[k], m.y[k]});
        std::sort(r.begin(), r.end());
        return r;
    }
    void CheckFaces(const M2& m, const std::vector<char>& want, const Poly& p)
    {
        std::vector<std::vector<Key>> rings;
        ms_assert(Rings(p, rings), "the cells come as closed rings");
        std::vector<std::vector<Key>> have, expect;
        for (auto& r : rings)
        {
            std::vector<Key> k(r.begin() + 1, r.end());
            std::sort(k.begin(), k.end());
            have.push_back(k);
        }
        for (int f = 0; f < m.numFaces(); ++f)
            if (want[f]) expect.push_back(Corners(m, f));
        std::sort(have.begin(), have.end());
        std::sort(expect.begin(), expect.end());
        ms_assert(have == expect, "exactly the cells asked for are listed");
    }
}
MS_HARNESS(rim)
{
    const int id = NewState();
    std::vector<char> on, cut(9, 0);
    int any = 0;
    for (int k = 0; k < 9; ++k)
    {
        const int b = ms_pick(nm("cell", k), 0, 1);
        on.push_back(b);
        any += b;
    }
    cut[4] = 1;
    ms_assume(any > 0);
    const auto c = Build(3, 3, on, cut);
    ms_assert(SetMesh(id, c.x, c.y, c.e) == 0, "set");
    const auto m = Get(id);
    int n = -1;
    ms_assert(mkernel_mesh2d_count_mesh_boundaries_as_polygons(id, n) == 0 && n >= 0 && n < 1000, "the size is told");
    Poly p = Sized(n);
    ms_assert(mkernel_mesh2d_get_mesh_boundaries_as_polygons(id, p.gl()) == 0, "the rim is told");
    std::vector<std::vector<Key>> rings;
    ms_assert(Rings(p, rings), "the rim comes as closed rings");
    std::vector<Side> have, want;
    for (auto& r : rings)
        for (size_t i = 0; i + 1 < r.size(); ++i) have.push_back(Make(r[i], r[i + 1]));
    for (int e = 0; e < m.numEdges(); ++e)
        if (m.validEdge(e) && (m.ef[2 * e] >= 0) + (m.ef[2 * e + 1] >= 0) == 1) want.push_back(Make({m.x[m.e[2 * e]], m.y[m.e[2 * e]]}, {m.x[m.e[2 * e + 1]], m.y[m.e[2 * e + 1]]}));
    std::sort(have.begin(), have.end());
    std::sort(want.begin(), want.end());
    ms_assert(have == want, "the rim consists of exactly the edges with one cell, each once");
    if (rings.size() > 1) ms_reach("several rings");
}
MS_HARNESS(grid_rim)
{
    const int id = NewState();
    const int N = 4, M = 4;
    std::vector<double> x, y;
    std::vector<char> ok(N * M, 1);
    const int a = ms_pick("hole a", -1, 15);
    const int b = ms_pick("hole b", -1, 15);
    ms_assume(a <= b);
    if (a >= 0) ok[a] = 0;
    if (b >= 0) ok[b] = 0;
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < M; ++j)
        {
            x.push_back(ok[i * M + j] ? 4 * j : MISSING);
            y.push_back(ok[i * M + j] ? 4 * i : MISSING);
        }
    ms_assert(SetCurvi(id, N, M, x, y) == 0, "set");
    const int n0 = ms_int("n0", -1, 4);
    const int m0 = ms_int("m0", 0, 3);
    const int n1 = ms_int("n1", 1, 3);
    const int m1 = ms_int("m1", 3, 4);
    int n = -1;
    const int rc = mkernel_curvilinear_count_boundaries_as_polygons(id, n0, m0, n1, m1, n);
    Poly p = Sized(rc == 0 ? n : 100);
    const int rc2 = mkernel_curvilinear_get_boundaries_as_polygons(id, n0, m0, n1, m1, p.gl());
    if (n0 < 0 || n0 > 3 || m1 > 3)
    {
        ms_assert(rc != 0 && rc2 != 0, "a block outside the grid is refused");
        ms_reach("refused");
        return;
    }
    ms_assert(rc == 0 && rc2 == 0 && n >= 0, "the rim is told");
    std::vector<std::vector<Key>> rings;
    ms_assert(Rings(p, rings), "the rim comes as closed rings");
    std::map<Side, int> sides;
    for (int i = std::min(n0, n1); i < std::max(n0, n1); ++i)
        for (int j = std::min(m0, m1); j < std::max(m0, m1); ++j)
        {
            if (!(ok[i * M + j] && ok[i * M + j + 1] && ok[i * M + M + j] && ok[i * M + M + j + 1])) continue;
            const Key k[4] = {{4. * j, 4. * i}, {4. * j + 4, 4. * i}, {4. * j + 4, 4. * i + 4}, {4. * j, 4. * i + 4}};
            for (int q = 0; q < 4; ++q) ++sides[Make(k[q], k[(q + 1) % 4])];
        }
    std::vector<Side> have, want;
    for (auto& r : rings)
        for (size_t i = 0; i + 1 < r.size(); ++i) have.push_back(Make(r[i], r[i + 1]));
    for (auto& [s, k] : sides)
        if (k == 1) want.push_back(s);
    std::sort(have.begin(), have.end());
    ms_assert(have == want, "the rim consists of exactly the sides with one cell, each once");
    if (rings.size() > 1) ms_reach("several rings");
}
MS_HARNESS(faces)
{
    const int id = NewState();
    std::vector<char> on(6, 1), cut;
    for (int k = 0; k < 6; ++k)
    {
        const int b = ms_pick(nm("cut", k), 0, 1);
        cut.push_back(b);
    }
    auto c = Build(3, 2, on, cut);
    const int pent = ms_pick("pent", 0, 1);
    if (pent && !cut[4] && !cut[5])
    {
        // an extra node on the side between two cells makes both pentagons
        c.x.push_back(4 * 2);
        c.y.push_back(6);
        const int a = 4 + 2, b = 8 + 2, q = 12;
        for (size_t e = 0; e < c.e.size(); e += 2)
            if (c.e[e] == a && c.e[e + 1] == b)
            {
                c.e[e + 1] = q;
                c.e.push_back(q);
                c.e.push_back(b);
                break;
            }
    }
    ms_assert(SetMesh(id, c.x, c.y, c.e) == 0, "set");
    const auto m = Get(id);
    const int k = ms_int("corners", -2000000000, 2000000000);
    int n = 12345;
    ms_assert(mkernel_mesh2d_get_face_polygons_dimension(id, k, n) == 0, "the size is told");
    std::vector<char> want;
    int num = 0;
    for (int f = 0; f < m.numFaces(); ++f)
    {
        want.push_back(m.npf[f] == k);
        num += m.npf[f] == k;
    }
    ms_assert(n == (num ? num * (k + 2) - 1 : 0), "the size is right");
    Poly p = Sized(n);
    ms_assert(mkernel_mesh2d_get_face_polygons(id, k, p.gl()) == 0, "the cells are told");
    CheckFaces(m, want, p);
    if (num) ms_reach(k == 3 ? "triangles" : k == 4 ? "quadrilaterals" : "pentagons");
    else ms_reach("none");
}
MS_HARNESS(filtered)
{
    const int id = NewState();
    auto g = Rect(5, 5, 4, 4);
    const int k = 6 * ms_pick("node", 0, 2);
    const int dx = ms_pick("dx", -1, 1);
    const int dy = ms_pick("dy", -1, 1);
    g.x[k] += dx;
    g.y[k] += dy;
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "set");
    const auto m = Get(id);
    Poly v = Sized(m.numEdges());
    ms_assert(mkernel_mesh2d_get_orthogonality(id, v.gl()) == 0, "orthogonality");
    const double lo = ms_lattice("lo", -4, 64, -8);
    const double hi = ms_lattice("hi", -4, 64, -8);
    const bool all = ms_pick("all", 0, 1);
    const double min = all ? -1000 : lo;
    int n = -1;
    ms_assert(mkernel_mesh2d_get_filtered_face_polygons_dimension(id, 0, min, hi, n) == 0, "the size is told");
    std::vector<char> want;
    int num = 0, p0 = 0;
    for (int f = 0; f < m.numFaces(); p0 += m.npf[f], ++f)
    {
        char in = 1;
        for (int q = 0; q < m.npf[f]; ++q)
        {
            const double o = v.v[m.fe[p0 + q]];
            in = o >= min && o <= hi ? in : 0;
        }
        want.push_back(in);
        num += in ? m.npf[f] + 2 : 0;
    }
    ms_assert(n == (num ? num - 1 : 0), "the size is right");
    Poly p = Sized(n);
    ms_assert(mkernel_mesh2d_get_filtered_face_polygons(id, 0, min, hi, p.gl()) == 0, "the cells are told");
    CheckFaces(m, want, p);
    if (num) ms_reach("some");
}
MS_HARNESS(hanging)
{
    const int id = NewState();
    // a cell with a tree of loose edges: the edge k joins node k + 4 to an earlier node
    std::vector<double> x{0, 4, 4, 0}, y{0, 0, 4, 4};
    std::vector<int> e{0, 1, 1, 2, 2, 3, 3, 0};
    const double px[] = {8, 9, 13, -5}, py[] = {1, 6, 3, 7};
    for (int k = 0; k < 4; ++k)
    {
        const int to = ms_pick(nm("to", k), -1, k + 3);
        x.push_back(px[k]);
        y.push_back(py[k]);
        if (to < 0) continue;
        e.push_back(to);
        e.push_back(k + 4);
    }
    const bool close = ms_pick("close", 0, 1);
    if (close)
    {
        for (size_t i = 8; i < e.size(); i += 2) ms_assume(e[i] != 4 || e[i + 1] != 6);
        e.push_back(4);
        e.push_back(6);
    }
    ms_assert(SetMesh(id, x, y, e) == 0, "set");
    auto m = Get(id);
    auto loose = [](const M2& a) {
        std::vector<int> deg(a.numNodes(), 0), r;
        for (int i = 0; i < a.numEdges(); ++i)
            if (a.validEdge(i)) ++deg[a.e[2 * i]], ++deg[a.e[2 * i + 1]];
        for (int i = 0; i < a.numEdges(); ++i)
            if (a.validEdge(i) && (deg[a.e[2 * i]] == 1 || deg[a.e[2 * i + 1]] == 1)) r.push_back(i);
        return r;
    };
    const auto want = loose(m);
    int n = -1;
    ms_assert(mkernel_mesh2d_count_hanging_edges(id, n) == 0 && n == (int)want.size(), "the number of hanging edges is right");
    std::vector<int> have(n, -1);
    ms_assert(mkernel_mesh2d_get_hanging_edges(id, have.data()) == 0, "the hanging edges are told");
    std::sort(have.begin(), have.end());
    ms_assert(have == want, "exactly the edges with a node without other edges are hanging");
    ms_assert(mkernel_mesh2d_delete_hanging_edges(id) == 0, "they are deleted");
    const auto r = Get(id);
    CheckTopology(r);
    std::set<Side> kept, gone;
    auto side = [](const M2& a, int i) { return Make({a.x[a.e[2 * i]], a.y[a.e[2 * i]]}, {a.x[a.e[2 * i + 1]], a.y[a.e[2 * i + 1]]}); };
    for (int i = 0; i < m.numEdges(); ++i)
        if (m.validEdge(i) && !std::binary_search(want.begin(), want.end(), i)) kept.insert(side(m, i));
    for (int i = 0; i < r.numEdges(); ++i)
        if (r.validEdge(i)) gone.insert(side(r, i));
    ms_assert(kept == gone, "and nothing else");
    if (n) ms_reach("hanging");
}
MS_HARNESS(obtuse)
{
    // two triangles and a square beside them; a free apex
    const double ax = ms_lattice("ax", -4, 12, 0);
    const double ay = ms_lattice("ay", 1, 8, 0);
    const int id = NewState();
    std::vector<double> x{0, 8, ax, 4, 0, 8}, y{0, 0, ay, -3, -8, -8};
    // apex triangle 0-1-2, lower triangle 0-1-3, and pentagon 0-3-1-5-4
    std::vector<int> e{0, 1, 1, 2, 2, 0, 0, 3, 3, 1, 0, 4, 4, 5, 5, 1};
    ms_assert(SetMesh(id, x, y, e) == 0, "set");
    const auto m = Get(id);
    int n = -1;
    ms_assert(mkernel_mesh2d_count_obtuse_triangles(id, n) == 0, "the number is told");
    Poly p = Sized(n);
    ms_assert(mkernel_mesh2d_get_obtuse_triangles_mass_centers(id, p.gl()) == 0, "the triangles are told");
    const bool obtuse = (ax < 0) | (ax > 8) | (ax * (ax - 8) + ay * ay < 0);
    ms_assert(n == 1 + obtuse, "exactly the triangles with an angle over 90 degrees are counted");
    bool low = false, up = !obtuse;
    for (int i = 0; i < n; ++i)
    {
        low |= (std::abs(p.x[i] - 4) < 1e-9) & (std::abs(p.y[i] + 1) < 1e-9);
        up |= (std::abs(3 * p.x[i] - 8 - ax) < 1e-9) & (std::abs(3 * p.y[i] - ay) < 1e-9);
    }
    ms_assert(low & up, "with their centres");
    ms_reach(obtuse ? "obtuse" : "acute");
}
// flow edges between rectangles of different width
MS_HARNESS(flow)
{
    const int id = NewState();
    auto g = Rect(4, 3, 4, 4);
    const int w = ms_pick("width", 1, 7);
    for (int j = 0; j < 3; ++j)
    {
        g.x[4 * j + 2] = 4 + w;
        g.x[4 * j + 3] = 8 + w;
    }
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "set");
    const auto m = Get(id);
    const double t = ms_lattice("threshold", 0, 24, -4);
    std::vector<Key> want;
    for (int e = 0; e < m.numEdges(); ++e)
    {
        const int a = m.ef[2 * e], b = m.ef[2 * e + 1];
        if (a < 0 || b < 0) continue;
        const P p = FaceMean(m, a), q = FaceMean(m, b);
        double s = 0;
        int at = 0;
        for (int f = 0; f < m.numFaces(); at += m.npf[f], ++f)
            if (f == a || f == b) s += std::sqrt(0.5 * Area2(m, &m.fn[at], 4));
        const double length = std::sqrt((p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y));
        if (length < t * 0.5 * s) want.push_back({(p.x + q.x) / 2, (p.y + q.y) / 2});
    }
    int n = -1;
    ms_assert(mkernel_mesh2d_count_small_flow_edge_centers(id, t, n) == 0, "the number is told");
    ms_assert(n == (int)want.size(), "exactly the flow edges below the threshold are counted");
    Poly p = Sized(n);
    ms_assert(mkernel_mesh2d_get_small_flow_edge_centers(id, t, p.gl()) == 0, "the centres are told");
    bool ok = true;
    for (int i = 0; i < n; ++i) ok &= std::abs(p.x[i] - want[i].first) < 1e-9 && std::abs(p.y[i] - want[i].second) < 1e-9;
    ms_assert(ok, "with their centres");
    if (n > 0 && n < 7) ms_reach("some");
}
