#include "geom.hpp"
using namespace mk;

// C12: refinement keeps the area and the nodes, refines what it is asked to and leaves the rest alone.
namespace
{
    meshkernel::MeshRefinementParameters Params()
    {
        meshkernel::MeshRefinementParameters p;
        p.max_num_refinement_iterations = ms_pick("iterations", 1, 2);
        p.refine_intersected = 0;
        p.use_mass_center_when_refining = 0;
        p.min_edge_size = ms_bool("coarse") ? 1.5 : 0.5;
        p.connect_hanging_nodes = ms_pick("connect", 0, 1);
        p.account_for_samples_outside = 0;
        p.smoothing_iterations = 0;
        p.directional_refinement = 0;
        return p;
    }
    int Start(int nx, int ny)
    {
        const int id = NewState();
        const auto g = Rect(nx, ny, 4, 4);
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "set");
        return id;
    }
    int StartMixed()
    {
        const int id = NewState();
        auto g = Rect(4, 3, 4, 4);
        for (int k : {0, 5, 1, 6, 9, 6}) g.e.push_back(k);
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "set");
        return id;
    }
    int NodeAt(const M2& m, P p)
    {
        for (int i = 0; i < m.numNodes(); ++i)
            if (m.validNode(i) && m.x[i] == p.x && m.y[i] == p.y) return i;
        return -1;
    }
    // what every refinement has to respect
    void Same(const M2& m, const M2& a)
    {
        CheckTopology(a);
        ms_assert(TotalArea2(a) == TotalArea2(m), "the area covered stays the same");
        ms_assert(a.numNodes() >= m.numNodes(), "no node slot disappears");
        bool kept = true;
        for (int i = 0; i < m.numNodes(); ++i)
            if (m.validNode(i)) kept &= a.validNode(i) && a.x[i] == m.x[i] && a.y[i] == m.y[i];
        ms_assert(kept, "the nodes stay where they are");
        for (int i = 0; i < a.numNodes(); ++i)
            for (int k = 0; k < i; ++k)
                if (a.validNode(i) && a.validNode(k)) ms_assert(a.x[i] != a.x[k] || a.y[i] != a.y[k], "no two nodes in the same place");
    }
    double Len2(P a, P b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
    // every edge of the cell has been split half-way
    bool Split(const M2& m, const M2& a, int f)
    {
        const auto n = FaceNodes(m, f);
        for (size_t k = 0; k < n.size(); ++k)
        {
            const P p = Node(m, n[k]), q = Node(m, n[(k + 1) % n.size()]);
            if (NodeAt(a, {0.5 * (p.x + q.x), 0.5 * (p.y + q.y)}) < 0) return false;
        }
        return true;
    }
    // in[f]: 1 has to be refined, 0 may be, -1 must not be touched
    void Judge(const M2& m, const M2& a, const std::vector<int>& in, double least)
    {
        Same(m, a);
        const auto was = FaceSets(m), is = FaceSets(a);
        for (int f = 0; f < m.numFaces(); ++f)
        {
            auto n = FaceNodes(m, f);
            std::sort(n.begin(), n.end());
            if (in[f] > 0)
            {
                ms_assert(Split(m, a, f), "the edges of a selected cell are split");
                ms_reach("refined");
            }
            if (in[f] < 0)
            {
                ms_assert(is.count(n) == 1, "cells away from the selection stay as they are");
                ms_reach("untouched");
            }
        }
        for (int e = 0; e < a.numEdges(); ++e)
            if (a.validEdge(e)) ms_assert(Len2(Node(a, a.e[2 * e]), Node(a, a.e[2 * e + 1])) >= least * least, "no edge is made shorter than allowed");
    }
    // A cell has to be refined when one of its nodes has only cells around it that lie inside, and stays as it is when no cell with a node inside touches it
    std::vector<int> Cells(const M2& m, const std::vector<char>& sel)
    {
        std::vector<int> in(m.numFaces(), -1);
        std::vector<char> near(m.numNodes(), 0), deep(sel);
        for (int f = 0; f < m.numFaces(); ++f)
        {
            const auto n = FaceNodes(m, f);
            int c = 0;
            for (int i : n) c += sel[i];
            if (c) in[f] = 0;
            for (int i : n)
            {
                if (c) near[i] = 1;
                if (c < (int)n.size()) deep[i] = 0;
            }
        }
        for (int f = 0; f < m.numFaces(); ++f)
            for (int i : FaceNodes(m, f))
            {
                if (in[f] < 0 && near[i]) in[f] = 0;
                if (deep[i]) in[f] = 1;
            }
        return in;
    }
    void Polygon(int id)
    {
        const double x0 = ms_lattice("x0", -2, 5, 1) + 1;
        const double x1 = ms_lattice("x1", -1, 8, 1) + 1;
        const double y0 = ms_lattice("y0", -2, 3, 1) + 1;
        const double y1 = ms_lattice("y1", -1, 6, 1) + 1;
        ms_assume(x0 < x1 && y0 < y1);
        const auto m = Get(id);
        const auto p = Params();
        auto g = Box(x0, y0, x1, y1);
        ms_assert(mkernel_mesh2d_refine_based_on_polygon(id, g.gl(), p) == 0, "refinement succeeds");
        const auto a = Get(id);
        std::vector<char> sel;
        for (int i = 0; i < m.numNodes(); ++i) sel.push_back(m.x[i] > x0 && m.x[i] < x1 && m.y[i] > y0 && m.y[i] < y1);
        Judge(m, a, Cells(m, sel), p.min_edge_size);
    }
}
MS_HARNESS(polygon) { Polygon(Start(5, 4)); }
MS_HARNESS(mixed) { Polygon(StartMixed()); }
namespace
{
    bool In(const M2& m, int f, const Poly& s, int k)
    {
        const P c = FaceMean(m, f);
        return s.x[k] > c.x - 2 && s.x[k] < c.x + 2 && s.y[k] > c.y - 2 && s.y[k] < c.y + 2;
    }
}
// cells that hold a sample with a positive level are refined, twice when the level is two
MS_HARNESS(samples)
{
    const int id = Start(5, 4);
    const auto m = Get(id);
    const double x = ms_lattice("x", 0, 7, 1) + 1;
    const double y = ms_lattice("y", 0, 5, 1) + 1;
    const int v = ms_pick("v", -1, 2);
    const int w = ms_pick("w", 0, 2);
    Poly s({x, 4.5, 7}, {y, 6, 5}, {(double)v, (double)w, 0.0});
    auto p = Params();
    p.refinement_type = 2;
    ms_assert(mkernel_mesh2d_refine_based_on_samples(id, s.gl(), 1.0, 1, p) == 0, "refinement succeeds");
    const auto a = Get(id);
    std::vector<int> in(m.numFaces(), -1);
    std::vector<char> near(m.numNodes(), 0);
    for (int f = 0; f < m.numFaces(); ++f)
    {
        for (int k = 0; k < 3; ++k)
            if (s.v[k] > 0 && In(m, f, s, k)) in[f] = 1;
        // known finding: refining another cell first lowers the level of samples near that cell as well
        bool sure = false;
        for (int k = 0; k < 3; ++k)
        {
            if (!(s.v[k] > 0) || !In(m, f, s, k)) continue;
            bool lowered = false;
            for (int g = 0; g < m.numFaces(); ++g)
                for (int l = 0; l < 3; ++l)
                    if (g != f && s.v[l] > 0 && In(m, g, s, l) && Len2(FaceMean(m, g), {s.x[k], s.y[k]}) <= 8) lowered = true;
            sure = sure || !lowered;
        }
        if (in[f] > 0 && !sure && !Split(m, a, f))
        {
            ms_reach("KNOWN:sample-level-lowered");
            in[f] = 0;
        }
        if (in[f] > 0)
            for (int i : FaceNodes(m, f)) near[i] = 1;
    }
    // each level may spread to the next cells
    for (int k = 0; k < p.max_num_refinement_iterations; ++k)
    {
        for (int f = 0; f < m.numFaces(); ++f)
            for (int i : FaceNodes(m, f))
                if (in[f] < 0 && near[i]) in[f] = 0;
        for (int f = 0; f < m.numFaces(); ++f)
            if (in[f] == 0)
                for (int i : FaceNodes(m, f)) near[i] = 1;
    }
    Judge(m, a, in, 0.0); // levels do not look at the smallest size
}
// the whole mesh, the smallest size free
MS_HARNESS(whole)
{
    const int id = Start(3, 3);
    const auto m = Get(id);
    auto p = Params();
    p.max_num_refinement_iterations = ms_pick("levels", 1, 3);
    p.min_edge_size = ms_lattice("least", 1, 24, -2);
    Poly none;
    ms_assert(mkernel_mesh2d_refine_based_on_polygon(id, none.gl(), p) == 0, "refinement succeeds");
    const auto a = Get(id);
    Same(m, a);
    int k = 0;
    double size = 4;
    while (k < p.max_num_refinement_iterations && size / 2 >= p.min_edge_size)
    {
        size /= 2;
        ++k;
    }
    const int n = 1 << k;
    ms_assert(a.numFaces() == 4 * n * n, "every cell is cut in four at every level, down to the smallest size");
    bool ok = true;
    for (int f = 0, q = 0; f < a.numFaces(); q += a.npf[f], ++f) ok &= a.npf[f] == 4 && Area2(a, &a.fn[q], 4) == 2 * size * size;
    ms_assert(ok, "into cells of the same size");
}
// one row of quadrilaterals is cut in two
MS_HARNESS(split)
{
    const bool mixed = ms_bool("mixed");
    const int id = mixed ? StartMixed() : Start(4, 3);
    const auto m = Get(id);
    const int i = ms_int("i", -2000000000, 2000000000);
    const int j = ms_int("j", -2000000000, 2000000000);
    int edge = -1;
    for (int e = 0; e < m.numEdges(); ++e)
        if ((m.e[2 * e] == i && m.e[2 * e + 1] == j) || (m.e[2 * e] == j && m.e[2 * e + 1] == i)) edge = e;
    const int rc = mkernel_mesh2d_split_row(id, i, j);
    const auto a = Get(id);
    if (edge < 0)
    {
        ms_assert(rc != 0 && SameNodes(m, a) && SameEdges(m, a), "nodes without an edge between them are refused");
        return;
    }
    if (rc != 0)
    {
        ms_assert(SameNodes(m, a) && SameEdges(m, a), "an edge that cannot be split leaves the mesh as it is");
        ms_reach("refused");
        return;
    }
    Same(m, a);
    if (mixed) return; // a row that ends in a triangle is cut up to or into it
    // follow the row both ways, through opposite edges of quadrilaterals
    std::set<int> cut{edge}, cells;
    for (bool more = true; more;)
    {
        more = false;
        for (int f = 0, q = 0; f < m.numFaces(); q += m.npf[f], ++f)
            if (m.npf[f] == 4)
                for (int k = 0; k < 4; ++k)
                    if (cut.count(m.fe[q + k]))
                    {
                        more |= cells.insert(f).second;
                        more |= cut.insert(m.fe[q + (k + 2) % 4]).second;
                    }
    }
    if (a.nve == m.nve)
    {
        ms_assert(SameNodes(m, a) && SameEdges(m, a), "nothing to split leaves the mesh as it is");
        return;
    }
    for (int e : cut)
    {
        const P u = Node(m, m.e[2 * e]), v = Node(m, m.e[2 * e + 1]);
        ms_assert(NodeAt(a, {0.5 * (u.x + v.x), 0.5 * (u.y + v.y)}) >= 0, "every edge across the row is split half-way");
    }
    const auto was = FaceSets(m), is = FaceSets(a);
    for (int f = 0; f < m.numFaces(); ++f)
    {
        bool touched = cells.count(f) > 0;
        int q = 0;
        for (int g = 0; g < f; ++g) q += m.npf[g];
        for (int k = 0; k < m.npf[f]; ++k) touched |= cut.count(m.fe[q + k]) > 0;
        auto n = FaceNodes(m, f);
        std::sort(n.begin(), n.end());
        ms_assert(touched != (is.count(n) == 1), "the cells of the row are cut, the others stay");
    }
    ms_reach("split");
}
MS_HARNESS(casulli)
{
    const int id = Start(4, 4);
    const auto m = Get(id);
    const bool part = ms_bool("part");
    if (!part)
    {
        ms_assert(mkernel_mesh2d_casulli_refinement(id) == 0, "refinement succeeds");
    }
    else
    {
        const double x1 = ms_lattice("x1", 0, 6, 1) + 1;
        const double y1 = ms_lattice("y1", 0, 6, 1) + 1;
        const double x0 = ms_lattice("x0", -1, 3, 1) + 1;
        const double y0 = -1 + 4 * ms_pick("y0", 0, 1);
        ms_assume(x0 < x1 && y0 < y1);
        auto g = Box(x0, y0, x1, y1);
        ms_assert(mkernel_mesh2d_casulli_refinement_on_polygon(id, g.gl()) == 0, "refinement succeeds");
    }
    const auto a = Get(id);
    CheckTopology(a);
    ms_assert(TotalArea2(a) == TotalArea2(m), "the area covered stays the same");
    ms_assert(a.numFaces() >= m.numFaces(), "there are not fewer cells than before");
    if (!part) ms_assert(a.numFaces() > m.numFaces(), "refining everything gives more cells");
    if (a.numFaces() > m.numFaces()) ms_reach("finer");
}
MS_HARNESS(derefine)
{
    const int id = Start(5 + ms_pick("n", 0, 2), 5);
    const auto m = Get(id);
    if (ms_bool("all"))
    {
        ms_assert(mkernel_mesh2d_casulli_derefinement(id) == 0, "derefinement succeeds");
    }
    else
    {
        const double x1 = ms_lattice("x1", 1, 9, 1) + 1;
        const double y1 = ms_lattice("y1", 1, 9, 1) + 1;
        const double x0 = ms_lattice("x0", -1, 4, 1) + 1;
        ms_assume(x0 < x1);
        auto g = Box(x0, -1, x1, y1);
        ms_assert(mkernel_mesh2d_casulli_derefinement_on_polygon(id, g.gl()) == 0, "derefinement succeeds");
    }
    const auto a = Get(id);
    CheckTopology(a);
    ms_assert(TotalArea2(a) == TotalArea2(m), "the area covered stays the same");
    ms_assert(a.numFaces() <= m.numFaces(), "there are not more cells than before");
    if (a.numFaces() < m.numFaces()) ms_reach("coarser");
}
// shallow parts (by values on a grid) are refined, deep parts are not
MS_HARNESS(depths)
{
    const int id = Start(5, 3);
    const auto m = Get(id);
    const int type = ms_pick("type", 0, 3);
    const int hide = ms_pick("given", 0, 1);
    std::vector<int> deep;
    for (int k = 0; k < 6; ++k)
    {
        const int q = ms_pick(nm("deep", k), 0, 1);
        deep.push_back(q);
    }
    std::vector<double> d, gx{-1, 9, 19}, gy{-1, 11};
    std::vector<float> fl;
    std::vector<short> sh;
    std::vector<int> in;
    for (int q : deep)
    {
        d.push_back(100.0 * q);
        fl.push_back(100.0f * q);
        sh.push_back((short)(100 * q));
        in.push_back(100 * q);
    }
    GriddedSamples g{};
    g.num_x = 3;
    g.num_y = 2;
    g.x_coordinates = gx.data();
    g.y_coordinates = gy.data();
    if (hide)
    {
        g.x_origin = -1;
        g.y_origin = -1;
        g.cell_size = 10;
        gy[1] = 9;
        g.x_coordinates = g.y_coordinates = nullptr;
    }
    if (type == 0) mkernel_get_interpolation_type_double(g.value_type), g.values = d.data();
    if (type == 1) mkernel_get_interpolation_type_float(g.value_type), g.values = fl.data();
    if (type == 2) mkernel_get_interpolation_type_short(g.value_type), g.values = sh.data();
    if (type == 3) mkernel_get_interpolation_type_int(g.value_type), g.values = in.data();
    auto p = Params();
    p.refinement_type = 1;
    p.max_courant_time = 1.0;
    ms_assert(mkernel_mesh2d_refine_based_on_gridded_samples(id, g, p, true) == 0, "refinement succeeds");
    const auto a = Get(id);
    std::vector<int> sel(m.numFaces(), 0);
    for (int f = 0; f < m.numFaces(); ++f)
    {
        // one cell of the grid of samples around all of the mesh cell, with room for its neighbours
        const P c = FaceMean(m, f);
        for (int i = 0; i < 2; ++i)
            if (c.x - 2 > gx[i] && c.x + 2 < gx[i + 1])
            {
                const int n = deep[i] + deep[i + 1] + deep[3 + i] + deep[4 + i];
                if (n == 0) sel[f] = 1;
            }
        if (deep == std::vector<int>(6, 1)) sel[f] = -1;
    }
    Judge(m, a, sel, 0.0);
}
