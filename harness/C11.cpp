#include "geom.hpp"
#include <MeshKernel/TriangulationInterpolation.hpp>
#include <MeshKernel/BilinearInterpolationOnGriddedSamples.hpp>
#include <MeshKernel/Mesh2D.hpp>
using namespace mk;

// C11: interpolation of samples to mesh locations.
namespace
{
    enum { MEAN = 1, CLOSEST, MAX, MIN, IDW, MINABS };
    int Loc(int what) // 0 faces, 1 nodes, 2 edges
    {
        int t = -1;
        if (what == 0) mkernel_get_faces_location_type(t);
        if (what == 1) mkernel_get_nodes_location_type(t);
        if (what == 2) mkernel_get_edges_location_type(t);
        return t;
    }
    int Method(int m)
    {
        int t = -1;
        if (m == MEAN) mkernel_get_averaging_method_simple_averaging(t);
        if (m == CLOSEST) mkernel_get_averaging_method_closest_point(t);
        if (m == MAX) mkernel_get_averaging_method_max(t);
        if (m == MIN) mkernel_get_averaging_method_min(t);
        if (m == IDW) mkernel_get_averaging_method_inverse_distance_weighting(t);
        if (m == MINABS) mkernel_get_averaging_method_min_absolute_value(t);
        return t;
    }
    struct S { double x, y, v; };
    std::vector<double> Average(int id, const std::vector<S>& s, int what, int method, double radius, int least, int n)
    {
        Poly g, out(std::vector<double>(n, 0.0), std::vector<double>(n, 0.0), std::vector<double>(n, -7.0));
        for (auto& q : s)
        {
            g.x.push_back(q.x);
            g.y.push_back(q.y);
            g.v.push_back(q.v);
        }
        ms_assert(mkernel_mesh2d_averaging_interpolation(id, g.gl(), Loc(what), Method(method), radius, least, out.gl()) == 0, "averaging succeeds");
        return out.v;
    }
    // all but the inverse distance weighting, whose square roots and quotients are left to the harness of its own
    int AnyMethod()
    {
        const int k = ms_pick("method", 0, 4);
        return k < 4 ? k + 1 : MINABS;
    }
    // the statistic of the samples in the open box with this half size around c
    void Expect(const std::vector<S>& s, P c, double h, int method, int least, double got)
    {
        std::vector<S> in;
        for (auto& q : s)
            if (q.v != MISSING && q.x > c.x - h && q.x < c.x + h && q.y > c.y - h && q.y < c.y + h) in.push_back(q);
        const bool counts = method == MEAN || method == IDW;
        if (in.empty() || (counts && (int)in.size() < least))
        {
            ms_assert(got == MISSING, "too few samples near a location give no value");
            ms_reach("none");
            return;
        }
        double lo = in[0].v, hi = in[0].v, sum = 0, ab = std::abs(in[0].v);
        for (auto& q : in)
        {
            if (q.v < lo) lo = q.v;
            if (q.v > hi) hi = q.v;
            if (std::abs(q.v) < ab) ab = std::abs(q.v);
            sum += q.v;
        }
        if (method == MEAN) ms_assert(std::abs(got * (double)in.size() - sum) < 1e-6, "the mean of the samples near the location");
        if (method == MAX) ms_assert(got == hi, "the largest of the samples near the location");
        if (method == MIN) ms_assert(got == lo, "the smallest of the samples near the location");
        if (method == MINABS) ms_assert(got == ab, "the smallest absolute value of the samples near the location");
        if (method == IDW)
        {
            double w = 0, t = 0;
            for (auto& q : in)
            {
                const double d = std::sqrt((q.x - c.x) * (q.x - c.x) + (q.y - c.y) * (q.y - c.y));
                w += 1 / (d > 0.01 ? d : 0.01);
                t += q.v / (d > 0.01 ? d : 0.01);
            }
            ms_assert(std::abs(got * w - t) < 1e-6, "the mean of the samples near the location, weighted by the inverse of their distance");
            ms_assert(got >= lo - 1e-6 && got <= hi + 1e-6, "a weighted mean lies between the samples near the location");
        }
        if (method == CLOSEST)
        {
            bool ok = false;
            for (auto& q : in)
            {
                bool nearest = true;
                const double d = (q.x - c.x) * (q.x - c.x) + (q.y - c.y) * (q.y - c.y);
                for (auto& r : in) nearest &= d <= (r.x - c.x) * (r.x - c.x) + (r.y - c.y) * (r.y - c.y);
                ok |= nearest & (q.v == got);
            }
            ms_assert(ok, "the value of the sample nearest to the location");
        }
        ms_reach("some");
    }
    int Start()
    {
        const int id = NewState();
        const auto g = Rect(3, 3, 4, 4);
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "set");
        return id;
    }
}

MS_HARNESS(faces)
{
    const int id = Start();
    std::vector<S> s;
    const double x0 = ms_lattice("x0", -2, 5, 1) + 1;
    const double y0 = ms_lattice("y0", -2, 5, 1) + 1;
    s.push_back({x0, y0, 3});
    const double x1 = ms_lattice("x1", -2, 5, 1) + 1;
    s.push_back({x1, 3, 1});
    s.push_back({1, 7, -2});
    if (ms_bool("missing")) s[1].v = MISSING;
    const int method = AnyMethod();
    const int least = ms_pick("least", 1, 2);
    const auto r = Average(id, s, 0, method, 1.0, least, 4);
    const auto m = Get(id);
    ms_assert(m.numFaces() == 4, "four cells");
    for (int f = 0; f < 4; ++f) Expect(s, FaceMean(m, f), 2, method, least, r[f]);
}
MS_HARNESS(values)
{
    const int id = Start();
    const double a = ms_lattice("a", -8, 8, 0);
    const double b = ms_lattice("b", -8, 8, -1);
    const double c = ms_lattice("c", -8, 8, -2);
    std::vector<S> s{{1, 1, a}, {3, 1, b}, {1, 3, c}, {5, 2.5, b}, {5.5, 6, a}, {7, 7, c}};
    const int method = AnyMethod();
    const int least = ms_pick("least", 1, 3);
    const auto r = Average(id, s, 0, method, 1.0, least, 4);
    const auto m = Get(id);
    for (int f = 0; f < 4; ++f) Expect(s, FaceMean(m, f), 2, method, least, r[f]);
}
// the dual cell of the middle node is the box half-way its neighbours; edges get the mean of their nodes
MS_HARNESS(nodes)
{
    const int id = Start();
    std::vector<S> s;
    const double x0 = ms_lattice("x0", -2, 5, 1) + 1;
    const double y0 = ms_lattice("y0", -2, 5, 1) + 1;
    s.push_back({x0, y0, 3});
    s.push_back({3, 5, 1});
    s.push_back({1, 7, -2});
    const int method = AnyMethod();
    const auto r = Average(id, s, 1, method, 1.0, 1, 9);
    const auto m = Get(id);
    Expect(s, Node(m, 4), 2, method, 1, r[4]);
    const auto q = Average(id, s, 2, method, 1.0, 1, 12);
    for (int e = 0; e < 12; ++e)
    {
        const double u = r[m.e[2 * e]], v = r[m.e[2 * e + 1]];
        ms_assert(q[e] == (u == MISSING || v == MISSING ? MISSING : 0.5 * (u + v)), "an edge gets the mean of the values at its nodes");
    }
}
MS_HARNESS(weighted)
{
    const int id = Start();
    const double x0 = ms_pick("x0", -1, 8) + 0.5;
    const double y0 = ms_pick("y0", -1, 8) + 0.25;
    std::vector<S> s{{x0, y0, 3}, {3, 1, 1}, {5, 7, -2}, {1, 2, 5}};
    const int least = ms_pick("least", 0, 3);
    const auto r = Average(id, s, 0, IDW, 1.0, least, 4);
    const auto m = Get(id);
    for (int f = 0; f < 4; ++f) Expect(s, FaceMean(m, f), 2, IDW, least, r[f]);
    const auto q = Average(id, s, 1, IDW, 1.0, least, 9);
    Expect(s, Node(m, 4), 2, IDW, least, q[4]);
}
// samples of a linear function give that function back inside the area they span, and nothing outside it
namespace
{
    void Judge(const Ring& hull, P p, double want, double got)
    {
        if (InRing(hull, p) || OnRing(hull, p))
        {
            ms_assert(std::abs(got - want) < 1e-6, "samples of a linear function give its value");
            ms_reach("inside");
        }
        else
        {
            ms_assert(got == MISSING, "there is no value outside the samples");
            ms_reach("outside");
        }
    }
    // at a point
    void Triangulated(const std::vector<S>& s, const Ring& hull, P p, double want)
    {
        std::vector<meshkernel::Sample> q;
        for (auto& k : s) q.emplace_back(k.x, k.y, k.v);
        const std::vector<meshkernel::Point> at{meshkernel::Point(p.x, p.y)};
        meshkernel::TriangulationInterpolation t(at, q, meshkernel::Projection::cartesian);
        t.Compute();
        Judge(hull, p, want, t.GetResults()[0]);
    }
    // at nodes, edges or faces of a mesh
    void OnMesh(const std::vector<S>& s, const Ring& hull, double a, double b, double c, int what)
    {
        const int id = NewState();
        const auto r = Rect(3, 3, 2, 2, 1, 1);
        ms_assert(SetMesh(id, r.x, r.y, r.e) == 0, "set");
        Poly g;
        for (auto& q : s)
        {
            g.x.push_back(q.x);
            g.y.push_back(q.y);
            g.v.push_back(q.v);
        }
        const auto m = Get(id);
        const int n = what == 0 ? 4 : what == 1 ? 9 : 12;
        Poly out(std::vector<double>(n, 0.0), std::vector<double>(n, 0.0), std::vector<double>(n, -7.0));
        ms_assert(mkernel_mesh2d_triangulation_interpolation(id, g.gl(), Loc(what), out.gl()) == 0, "interpolation succeeds");
        for (int k = 0; k < n; ++k)
        {
            const P p = what == 0 ? FaceMean(m, k) : what == 1 ? Node(m, k) : P{m.ex[k], m.ey[k]};
            ms_assert(out.x[k] == p.x && out.y[k] == p.y, "the locations of the values are returned");
            Judge(hull, p, a * p.x + b * p.y + c, out.v[k]);
        }
    }
}
MS_HARNESS(triangulation)
{
    const double px = ms_lattice("px", -2, 10, -1);
    const double py = ms_lattice("py", -2, 10, -1);
    const std::vector<P> at = {{0, 0}, {4, 0}, {4, 4}, {0, 4}, {2, 2}};
    std::vector<S> s;
    for (auto p : at) s.push_back({p.x, p.y, 2 * p.x - p.y + 1});
    Triangulated(s, {{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {px, py}, 2 * px - py + 1);
}
MS_HARNESS(coefficients)
{
    const double a = ms_lattice("a", -8, 8, 0);
    const double b = ms_lattice("b", -8, 8, 0);
    const double c = ms_lattice("c", -8, 8, 0);
    const int what = ms_pick("what", 0, 2);
    std::vector<S> s;
    for (auto p : Ring{{0, 0}, {4, 0}, {4, 4}, {0, 4}, {2, 2}}) s.push_back({p.x, p.y, a * p.x + b * p.y + c});
    OnMesh(s, {{0, 0}, {4, 0}, {4, 4}, {0, 4}}, a, b, c, what);
}
MS_HARNESS(skew)
{
    const double px = ms_lattice("px", -1, 9, -1);
    const double py = ms_lattice("py", -1, 9, -1);
    std::vector<S> s;
    for (auto p : Ring{{0, 0}, {1, 1}, {4, 2}}) s.push_back({p.x, p.y, p.x + 2 * p.y});
    Triangulated(s, {{0, 0}, {4, 2}, {1, 1}}, {px, py}, px + 2 * py);
}
MS_HARNESS(irregular)
{
    const double px = ms_lattice("px", -2, 22, -1);
    const double py = ms_lattice("py", -2, 22, -1);
    std::vector<S> s;
    for (auto p : Ring{{0, 1}, {3, 0}, {9, 2}, {10, 7}, {4, 10}, {1, 8}, {4, 4}, {7, 5}}) s.push_back({p.x, p.y, p.x - p.y});
    Triangulated(s, {{0, 1}, {3, 0}, {9, 2}, {10, 7}, {4, 10}, {1, 8}}, {px, py}, px - py);
}
// values on a grid, bilinear in between
namespace
{
    // both ways of giving the grid; nodes, edges and faces of a mesh
    void Gridded(const std::vector<double>& gx, const std::vector<double>& gy, bool constant, const std::vector<double>& v)
    {
        const int id = NewState();
        const auto r = Rect(2, 2, 1, 1, 0.25, 0.25);
        std::vector<meshkernel::Point> n;
        std::vector<meshkernel::Edge> e;
        for (size_t i = 0; i < r.x.size(); ++i) n.emplace_back(r.x[i], r.y[i]);
        for (size_t i = 0; i < r.e.size(); i += 2) e.emplace_back(r.e[i], r.e[i + 1]);
        meshkernel::Mesh2D mesh(e, n, meshkernel::Projection::cartesian);
        const std::span<const double> xs(gx), ys(gy), vs(v);
        using B = meshkernel::BilinearInterpolationOnGriddedSamples<double>;
        auto b = constant ? std::make_unique<B>(mesh, (meshkernel::UInt)gx.size(), (meshkernel::UInt)gy.size(), meshkernel::Point(gx[0], gy[0]), gx[1] - gx[0], vs)
                          : std::make_unique<B>(mesh, xs, ys, vs);
        b->Compute();
        const int nx = (int)gx.size(), ny = (int)gy.size();
        std::vector<double> at;
        auto want = [&](P p)
        {
            for (int i = 0; i + 1 < nx; ++i)
                for (int j = 0; j + 1 < ny; ++j)
                    if (p.x >= gx[i] && p.x < gx[i + 1] && p.y >= gy[j] && p.y < gy[j + 1])
                    {
                        const double s = (p.x - gx[i]) / (gx[i + 1] - gx[i]), t = (p.y - gy[j]) / (gy[j + 1] - gy[j]);
                        ms_reach("inside");
                        return s * t * v[(j + 1) * nx + i + 1] + (1 - s) * t * v[(j + 1) * nx + i] + (1 - s) * (1 - t) * v[j * nx + i] + s * (1 - t) * v[j * nx + i + 1];
                    }
            ms_reach("outside");
            return MISSING;
        };
        for (int i = 0; i < 4; ++i)
        {
            at.push_back(want({r.x[i], r.y[i]}));
            ms_assert(std::abs(b->GetNodeResults()[i] - at[i]) < 1e-6, "a node gets the bilinear value, or none outside the grid");
        }
        for (int k = 0; k < 4; ++k)
        {
            const double u = at[r.e[2 * k]], w = at[r.e[2 * k + 1]];
            ms_assert(std::abs(b->GetEdgeResults()[k] - (u == MISSING || w == MISSING ? MISSING : 0.5 * (u + w))) < 1e-6, "an edge gets the mean of the values at its nodes, or none");
        }
        ms_assert(std::abs(b->GetFaceResults()[0] - want({0.75, 0.75})) < 1e-6, "a face gets the bilinear value, or none outside the grid");
        (void)id;
    }
}
MS_HARNESS(gridded)
{
    const double x0 = ms_lattice("x0", -10, 6, -2);
    const double y0 = ms_lattice("y0", -10, 6, -2);
    const bool constant = ms_bool("constant");
    std::vector<double> v{1, 3, -2, 5, 0, 4, 7, -1, 2};
    if (constant) Gridded({x0, x0 + 1, x0 + 2}, {y0, y0 + 1, y0 + 2}, true, v);
    else Gridded({x0, x0 + 1, x0 + 3}, {y0, y0 + 2, y0 + 3}, false, v);
}
MS_HARNESS(gridded_values)
{
    std::vector<double> v;
    for (int k = 0; k < 6; ++k)
    {
        const double q = ms_lattice(nm("v", k), -16, 16, -1);
        v.push_back(q);
    }
    if (ms_bool("constant")) Gridded({0, 2, 4}, {0, 2}, true, v);
    else Gridded({0, 1, 2}, {0, 2}, false, v);
}
// a mesh with a deleted node and edge: unused slots get no value, the others the same as before
MS_HARNESS(holes)
{
    const int id = Start();
    const int what = ms_pick("what", 0, 2);
    const int node = ms_pick("node", -1, 8);
    const int edge = ms_pick("edge", -1, 11);
    if (node >= 0) ms_assert(mkernel_mesh2d_delete_node(id, node) == 0, "deleting a node succeeds");
    if (edge >= 0 && Get(id).validEdge(edge)) ms_assert(mkernel_mesh2d_delete_edge_by_index(id, edge) == 0, "deleting an edge succeeds");
    const auto m = Get(id);
    const int n = what == 0 ? m.numFaces() : what == 1 ? m.numNodes() : m.numEdges();
    if (n == 0) return;
    std::vector<S> s;
    for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 8; ++j) s.push_back({i + 0.5, j + 0.5, 3.0});
    const auto r = Average(id, s, what, MEAN, 1.0, 1, n);
    for (int k = 0; k < n; ++k)
    {
        const bool v = what == 0 || (what == 1 ? m.validNode(k) : m.validEdge(k));
        ms_assert(v ? r[k] == 3 || r[k] == MISSING : r[k] == MISSING, "only locations of the mesh get a value");
        if (what == 0) ms_assert(r[k] == 3, "every face gets a value");
    }
    Poly g;
    for (auto& q : s)
    {
        g.x.push_back(q.x);
        g.y.push_back(q.y);
        g.v.push_back(q.v);
    }
    Poly out(std::vector<double>(n, 0.0), std::vector<double>(n, 0.0), std::vector<double>(n, -7.0));
    ms_assert(mkernel_mesh2d_triangulation_interpolation(id, g.gl(), Loc(what), out.gl()) == 0, "interpolation succeeds");
}
