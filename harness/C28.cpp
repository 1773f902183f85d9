// C28: coarsening tells the cells it takes away, and takes those away.
#include "topo.hpp"
#include "geom.hpp"
using namespace mk;
namespace
{
    // the cells told, as numbers of faces of m; -1 for a place that is no centre
    std::vector<int> Told(int id, const M2& m, Poly* box, int& rc)
    {
        Poly out(std::vector<double>(m.numFaces() + 4, -77.0), std::vector<double>(m.numFaces() + 4, -77.0));
        auto& l = out.gl();
        rc = box ? mkernel_mesh2d_casulli_derefinement_elements_on_polygon(id, box->gl(), l) : mkernel_mesh2d_casulli_derefinement_elements(id, l);
        std::vector<int> r;
        if (rc) return r;
        for (int k = 0; k < l.num_coordinates && k < m.numFaces() + 4; ++k)
        {
            int at = -1;
            for (int f = 0; f < m.numFaces(); ++f)
            {
                // the centre of mass lies within the cell
                Ring ring;
                for (int i : FaceNodes(m, f)) ring.push_back(Node(m, i));
                if (InRing(ring, {out.x[k], out.y[k]})) at = f;
            }
            r.push_back(at);
        }
        return r;
    }
    using Face = std::vector<std::pair<double, double>>;
    std::set<Face> Faces(const M2& m)
    {
        std::set<Face> s;
        for (int f = 0; f < m.numFaces(); ++f)
        {
            Face c;
            for (int i : FaceNodes(m, f)) c.push_back({m.x[i], m.y[i]});
            std::sort(c.begin(), c.end());
            s.insert(c);
        }
        return s;
    }
    bool Edit(int id, int what, int n, int m, int at)
    {
        int k = -1;
        const int i = at % n, j = at / n;
        switch (what)
        {
        case 0: return true;
        case 1: return mkernel_mesh2d_delete_node(id, at) == 0;
        case 2:
            if (i + 1 >= n || j + 1 >= m) return false;
            return mkernel_mesh2d_insert_edge(id, at, at + n + 1, k) == 0;
        case 3:
            if (i + 1 >= n) return false;
            return mkernel_mesh2d_delete_edge(id, 2 * i + 1, 2 * j, -50, -50, 50, 50) == 0;
        default: return false;
        }
    }
} // namespace
MS_HARNESS(whole)
{
    const int n = ms_pick("n", 1, 7);
    const int m = ms_pick("m", 2, 7);
    const int edit = ms_pick("edit", 0, 3);
    const int at = ms_pick("at", 0, 48);
    const int asked = ms_pick("asked", 0, 1);
    if (at >= n * m || (!edit && at)) return;
    if (!ms_thorough() && n * m > 30 && edit) return;
    const auto g = Rect(n, m, 2, 2);
    const int id = NewState();
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
    if (!Edit(id, edit, n, m, at)) return;
    M2 a;
    if (asked) a = Get(id);
    int rc = -1;
    // what is told before the mesh is looked at
    Poly out(std::vector<double>(60, -77.0), std::vector<double>(60, -77.0));
    auto& l = out.gl();
    rc = mkernel_mesh2d_casulli_derefinement_elements(id, l);
    const int count = l.num_coordinates;
    const M2 b = Get(id);
    if (asked) ms_assert(SameNodes(a, b) && SameEdges(a, b), "telling changes nothing");
    if (b.numFaces() == 0)
    {
        ms_assert(rc != 0 || count == 0, "without cells there is nothing to tell");
        ms_assert(mkernel_mesh2d_casulli_derefinement(id) >= 0, "the process goes on");
        ms_reach("none");
        return;
    }
    ms_assert(rc == 0, "the cells are told");
    int rc2 = -1;
    const auto told = Told(id, b, nullptr, rc2);
    ms_assert(rc2 == 0 && (int)told.size() == count, "the same is told again");
    std::set<int> distinct;
    for (int f : told)
    {
        ms_assert(f >= 0, "what is told is a cell");
        distinct.insert(f);
    }
    ms_assert(distinct.size() == told.size(), "a cell is told once");
    if (n > 2 && m > 2)
    {
        // the cells taken away lie apart, and leave no cell out of reach
        std::vector<int> by(b.numNodes(), 0);
        for (int f : told)
            for (int i : FaceNodes(b, f)) ++by[i];
        bool apart = true, reached = true;
        for (int k : by) apart &= k < 2;
        for (int f = 0; f < b.numFaces(); ++f)
        {
            bool touched = false;
            for (int i : FaceNodes(b, f)) touched |= by[i] > 0;
            reached &= touched;
        }
        ms_assert(apart, "no two of the cells told share a node");
        if (!edit) ms_assert(reached, "each cell shares a node with one of the cells told");
    }
    const auto before = Faces(b);
    if (mkernel_mesh2d_casulli_derefinement(id) != 0)
    {
        const M2 c = Get(id);
        ms_assert(SameNodes(c, b) && SameEdges(c, b), "what is refused changes nothing");
        ms_reach("refused");
        return;
    }
    const M2 c = Get(id);
    CheckTopology(c);
    const auto after = Faces(c);
    bool gone = true;
    for (int f = 0; f < b.numFaces(); ++f)
    {
        Face q;
        for (int i : FaceNodes(b, f)) q.push_back({b.x[i], b.y[i]});
        std::sort(q.begin(), q.end());
        if (distinct.count(f)) gone &= !after.count(q);
    }
    const bool thin = n < 3 || m < 3 || edit;
    if (told.size()) ms_assert(c.numFaces() < b.numFaces() || thin, "there are fewer cells");
    else ms_assert(after == before, "nothing changes when nothing is told");
    ms_assert(gone || thin, "the cells told are gone");
    if (!edit) ms_assert(std::fabs(TotalArea2(c) - TotalArea2(b)) < 1e-9, "the area covered stays the same");
    ms_reach(told.size() ? "coarser" : "same");
}
MS_HARNESS(part)
{
    const int n = ms_pick("n", 4, 7);
    const double x1 = ms_lattice("x1", 1, 9, 1) + 1;
    const double y1 = ms_lattice("y1", 1, 9, 1) + 1;
    const double x0 = ms_lattice("x0", -1, 4, 1) + 1;
    ms_assume(x0 < x1);
    const auto g = Rect(n, 5, 2, 2);
    const int id = NewState();
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
    const M2 a = Get(id);
    Poly box({x0, x1, x1, x0, x0}, {-1, -1, y1, y1, -1});
    int rc = -1;
    const auto told = Told(id, a, &box, rc);
    ms_assert(rc == 0, "the cells are told");
    bool in = true;
    std::set<int> distinct;
    for (int f : told)
    {
        ms_assert(f >= 0, "what is told is a cell");
        distinct.insert(f);
        bool any = false;
        for (int i : FaceNodes(a, f)) any |= (a.x[i] > x0) & (a.x[i] < x1) & (a.y[i] < y1);
        in &= any;
    }
    ms_assert(distinct.size() == told.size(), "a cell is told once");
    ms_assert(in, "cells told have a node within the polygon");
    const M2 b = Get(id);
    ms_assert(SameNodes(a, b) && SameEdges(a, b), "telling changes nothing");
    if (mkernel_mesh2d_casulli_derefinement_on_polygon(id, box.gl()) != 0) return;
    const M2 c = Get(id);
    CheckTopology(c);
    ms_assert(std::fabs(TotalArea2(c) - TotalArea2(a)) < 1e-9, "the area covered stays the same");
    if (told.empty()) ms_assert(c.numFaces() == a.numFaces(), "nothing changes when nothing is told");
    // cells that neither are told nor share a node with one that is are left alone
    const auto after = Faces(c);
    std::set<int> near;
    for (int f : told)
        for (int i : FaceNodes(a, f)) near.insert(i);
    for (int f = 0; f < a.numFaces(); ++f)
    {
        Face q;
        bool far = true;
        for (int i : FaceNodes(a, f))
        {
            q.push_back({a.x[i], a.y[i]});
            far &= !near.count(i);
        }
        std::sort(q.begin(), q.end());
        if (far) ms_assert(after.count(q) > 0, "cells away from those told are left alone");
    }
    ms_reach(c.numFaces() < a.numFaces() ? "coarser" : "same");
}
