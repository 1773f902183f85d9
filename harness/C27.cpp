// C27: measures of a mesh or grid are those of the mesh or grid as it is now.
#include "topo.hpp"
#include "geom.hpp"
#include <MeshKernel/Mesh2D.hpp>
using namespace mk;
namespace
{
    bool Close(double a, double b) { return a - b < 1e-9 && b - a < 1e-9; }
    double FaceArea(const M2& m, int f)
    {
        Ring r;
        for (int i : FaceNodes(m, f)) r.push_back(Node(m, i));
        double a = 0;
        for (size_t i = 0; i < r.size(); ++i)
        {
            const P p = r[i], q = r[(i + 1) % r.size()];
            a += p.x * q.y - q.x * p.y;
        }
        return std::fabs(a) / 2;
    }
    double Len(P a, P b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)); }
    // an edit of a mesh of three by three cells; false if it was refused
    bool Edit(int id, int what, int at)
    {
        const double x[4] = {0, 1, 3, 4.5}, y[4] = {0, 2, 3, 5};
        int k = -1;
        switch (what)
        {
        case 0: return true;
        case 1: return mkernel_mesh2d_delete_node(id, at) == 0;
        case 2: return mkernel_mesh2d_move_node(id, x[at % 4] + 0.25, y[at / 4] - 0.25, at) == 0;
        case 3: // a diagonal
            if (at % 4 == 3 || at / 4 == 3) return false;
            return mkernel_mesh2d_insert_edge(id, at, at + 5, k) == 0;
        case 4: // an edge between neighbours is taken away
            if (at % 4 == 3) return false;
            return mkernel_mesh2d_delete_edge(id, (x[at % 4] + x[at % 4 + 1]) / 2, y[at / 4], -50, -50, 50, 50) == 0;
        case 5:
            if (at % 4 == 3) return false;
            return mkernel_mesh2d_merge_two_nodes(id, at, at + 1) == 0;
        case 6:
        {
            // a node outside, joined to one of the others
            int n = -1;
            if (mkernel_mesh2d_insert_node(id, -2, -3, n) != 0) return false;
            return mkernel_mesh2d_insert_edge(id, at, n, k) == 0;
        }
        default: return false;
        }
    }
    int Start()
    {
        const double x[4] = {0, 1, 3, 4.5}, y[4] = {0, 2, 3, 5};
        auto g = Rect(4, 4, 1, 1);
        for (int i = 0; i < 16; ++i)
        {
            g.x[i] = x[i % 4];
            g.y[i] = y[i / 4];
        }
        const int id = NewState();
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
        return id;
    }
    std::vector<double> Measure(int id, int which, int edges, int& rc)
    {
        std::vector<double> none(edges, 0.0), v(edges, -77.0);
        Poly q(none, none, v);
        auto& l = q.gl();
        if (which == 0) rc = mkernel_mesh2d_get_orthogonality(id, l);
        if (which == 1) rc = mkernel_mesh2d_get_smoothness(id, l);
        if (which >= 2)
        {
            int type = -1;
            if (which == 2) mkernel_mesh2d_get_orthogonality_property_type(type);
            else type = (int)meshkernel::Mesh2D::Property::EdgeLength;
            rc = mkernel_mesh2d_get_property(id, type, l);
        }
        return q.v;
    }
} // namespace
MS_HARNESS(mesh)
{
    const int first = ms_pick("first", 0, 6);
    const int at = ms_pick("at", 0, 15);
    const int second = ms_pick("second", 0, 6);
    const int which = ms_pick("which", 0, 3);
    const int back = ms_pick("undo", 0, 1);
    if (back && second == 0) return;
    const int id = Start();
    if (!Edit(id, first, at)) return;
    if (!Edit(id, second, (5 * at + 3) % 16)) return;
    if (back)
    {
        bool done = false;
        int mesh = -1;
        if (mkernel_undo_state(done, mesh) != 0 || !done) return;
    }
    // how many are told, without anything else being asked first
    int n = -1, type = -1, rc = -1;
    if (which == 3) type = (int)meshkernel::Mesh2D::Property::EdgeLength;
    else mkernel_mesh2d_get_orthogonality_property_type(type);
    ms_assert(mkernel_mesh2d_get_property_dimension(id, type, n) == 0, "the number of values is told");
    ms_assert(n > 0 && n < 64, "the number of values is told");
    const auto v = Measure(id, which, n, rc);
    ms_assert(rc == 0, "values are told");
    const M2 m = Get(id);
    ms_assert(n == m.numEdges(), "there is a value for each edge");
    const auto again = Measure(id, which, n, rc);
    ms_assert(rc == 0 && v == again, "values do not depend on what was asked before");
    bool right = true, inner = true;
    for (int e = 0; e < n; ++e)
    {
        std::vector<int> f;
        if (m.validEdge(e))
            for (int s = 0; s < 2; ++s)
                if (m.ef[2 * e + s] >= 0) f.push_back(m.ef[2 * e + s]);
        if (which == 3)
        {
            right &= m.validEdge(e) ? Close(v[e], Len(Node(m, m.e[2 * e]), Node(m, m.e[2 * e + 1]))) : v[e] == MISSING;
            continue;
        }
        if (f.size() != 2)
        {
            inner &= v[e] == MISSING;
            continue;
        }
        if (which == 1)
        {
            const double a = FaceArea(m, f[0]), b = FaceArea(m, f[1]);
            right &= Close(v[e], a > b ? a / b : b / a);
        }
        else right &= v[e] == MISSING || (v[e] >= 0 && v[e] <= 1 + 1e-9);
    }
    ms_assert(inner, "only edges between two faces have a value");
    ms_assert(right, "values are those of the mesh as it is");
    // a mesh that is set with the same nodes and edges has the same values
    std::vector<double> x, y;
    std::vector<int> at2(m.numNodes(), -1), e2, of;
    for (int i = 0; i < m.numNodes(); ++i)
        if (m.validNode(i))
        {
            at2[i] = (int)x.size();
            x.push_back(m.x[i]);
            y.push_back(m.y[i]);
        }
    for (int e = 0; e < n; ++e)
        if (m.validEdge(e))
        {
            e2.push_back(at2[m.e[2 * e]]);
            e2.push_back(at2[m.e[2 * e + 1]]);
            of.push_back(e);
        }
    const int other = NewState();
    ms_assert(SetMesh(other, x, y, e2) == 0, "the same mesh is taken");
    const auto w = Measure(other, which, (int)of.size(), rc);
    ms_assert(rc == 0, "values of the same mesh are told");
    bool same = true;
    for (size_t e = 0; e < of.size(); ++e) same &= Close(w[e], v[of[e]]);
    ms_assert(same, "values are those of a new mesh with the same nodes and edges");
    ms_reach(which == 3 ? "lengths" : which == 1 ? "ratios" : "angles");
}
// two triangles: the line between the centres of their circles is at right angles to the edge they share
MS_HARNESS(pair)
{
    const int ax = 2 * ms_pick("ax", -3, 7);
    const int ay = ms_pick("ay", 1, 12);
    const int bx = 2 * ms_pick("bx", -3, 7);
    const int by = ms_pick("by", 1, 12);
    const int order = ms_pick("order", 0, 3);
    if (!ms_thorough() && (order + ay + by) % 4) return;
    std::vector<double> x{0, 8, 0, 0}, y{0, 0, 0, 0};
    x[2] = ax;
    y[2] = ay;
    x[3] = bx;
    y[3] = -by;
    std::vector<int> e{0, 1, 1, 2, 2, 0, 0, 3, 3, 1};
    std::rotate(e.begin(), e.begin() + 2 * order, e.end());
    const int shared = (5 - order) % 5;
    const int id = NewState();
    if (SetMesh(id, x, y, e) != 0) return;
    const M2 m = Get(id);
    if (m.numFaces() != 2) return;
    int rc = -1;
    const auto v = Measure(id, 0, 5, rc);
    ms_assert(rc == 0, "values are told");
    for (int k = 0; k < 5; ++k) ms_assert(k == shared || v[k] == MISSING, "only the edge they share has a value");
    auto acute = [](P a, P b, P c) {
        auto dot = [](P o, P p, P q) { return (p.x - o.x) * (q.x - o.x) + (p.y - o.y) * (q.y - o.y); };
        return dot(a, b, c) > 0 && dot(b, a, c) > 0 && dot(c, a, b) > 0;
    };
    if (acute({x[0], y[0]}, {x[1], y[1]}, {x[2], y[2]}) && acute({x[0], y[0]}, {x[1], y[1]}, {x[3], y[3]}))
    {
        ms_assert(v[shared] < 1e-9, "acute triangles are at right angles");
        ms_reach("acute");
    }
    else ms_reach("obtuse");
    const auto w = Measure(id, 1, 5, rc);
    ms_assert(rc == 0 && Close(w[shared], ay > by ? double(ay) / by : double(by) / ay), "the ratio is that of their areas");
}
// measures along the lines of a grid
MS_HARNESS(grid)
{
    const int n = ms_pick("n", 2, 4);
    const int m = ms_pick("m", 2, 5);
    const int dir = ms_pick("direction", -1, 2);
    const int which = ms_pick("which", 0, 1);
    const int gone = ms_pick("gone", -1, 19);
    const int moved = ms_pick("moved", 0, 19);
    if (gone >= n * m || moved >= n * m) return;
    std::vector<double> x, y;
    for (int k = 0; k < n * m; ++k)
    {
        x.push_back(2 * (k % m) + (k % m == 2) * 0.5);
        y.push_back(3 * (k / m) - (k / m == 1) * 0.75);
    }
    x[moved] += 0.625;
    y[moved] -= 0.375;
    if (gone >= 0) x[gone] = y[gone] = MISSING;
    const int id = NewState();
    if (SetCurvi(id, n, m, x, y) != 0) return;
    const CG g = GetCurvi(id);
    if (g.n != n || g.m != m) return;
    std::vector<double> v(n * m + 4, -77.0);
    const int rc = which ? mkernel_curvilinear_compute_curvature(id, dir, v.data()) : mkernel_curvilinear_compute_smoothness(id, dir, v.data());
    if (dir < 0 || dir > 1)
    {
        ms_assert(rc != 0, "a direction that is not there is refused");
        ms_assert(v[0] == -77.0, "what is refused tells nothing");
        ms_reach("refused");
        return;
    }
    ms_assert(rc == 0, "values are told");
    ms_assert(v[n * m] == -77.0 && v[n * m + 1] == -77.0, "no more values are told than there are nodes");
    bool right = true, rim = true;
    for (int k = 0; k < n * m; ++k)
    {
        const int i = dir == 0 ? k % m : k / m, last = dir == 0 ? m - 1 : n - 1, step = dir == 0 ? 1 : m;
        if (i == 0 || i == last)
        {
            rim &= v[k] == MISSING;
            continue;
        }
        if (g.x[k] == MISSING || g.x[k - step] == MISSING || g.x[k + step] == MISSING)
        {
            right &= v[k] == MISSING;
            continue;
        }
        const P a{g.x[k - step], g.y[k - step]}, b{g.x[k], g.y[k]}, c{g.x[k + step], g.y[k + step]};
        if (which == 0)
        {
            const double p = Len(a, b), q = Len(b, c);
            right &= Close(v[k], p > q ? p / q : q / p);
        }
        else
        {
            const double turn = (b.x - a.x) * (c.y - b.y) - (b.y - a.y) * (c.x - b.x);
            right &= turn == 0 ? v[k] >= 0 && v[k] < 0.01 : v[k] > 0;
        }
    }
    ms_assert(rim, "the first and last node of a line have no value");
    ms_assert(right, "values are those of the node and its neighbours on the line");
    ms_reach(which ? "curvature" : "smoothness");
}
