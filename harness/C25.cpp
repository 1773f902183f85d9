// C25: splines go through their points, and grids made from splines follow them.
#include "topo.hpp"
#include "geom.hpp"
using namespace mk;
namespace
{
    using N2 = std::array<double, 2>;
    // bends of the natural cubic spline through y, spaced one apart
    std::vector<double> Bends(const std::vector<double>& y)
    {
        const int n = (int)y.size();
        std::vector<double> m(n, 0), d(n, 0), r(n, 0);
        for (int i = 1; i + 1 < n; ++i)
        {
            d[i] = 4;
            r[i] = 6 * (y[i + 1] - 2 * y[i] + y[i - 1]);
            if (i > 1)
            {
                const double w = 1 / d[i - 1];
                d[i] -= w;
                r[i] -= w * r[i - 1];
            }
        }
        for (int i = n - 2; i > 0; --i) m[i] = (r[i] - m[i + 1]) / d[i];
        return m;
    }
    double At(const std::vector<double>& y, int k, double t)
    {
        const auto m = Bends(y);
        const double a = 1 - t;
        return a * y[k] + t * y[k + 1] + ((a * a * a - a) * m[k] + (t * t * t - t) * m[k + 1]) / 6;
    }
} // namespace
// points along splines
static void Sample(const std::vector<std::vector<double>>& xs, const std::vector<std::vector<double>>& ys, int between)
{
    std::vector<double> x, y, wx, wy;
    for (size_t s = 0; s < xs.size(); ++s)
    {
        if (s)
        {
            x.push_back(MISSING);
            y.push_back(MISSING);
            wx.push_back(MISSING);
            wy.push_back(MISSING);
        }
        for (size_t k = 0; k < xs[s].size(); ++k)
        {
            x.push_back(xs[s][k]);
            y.push_back(ys[s][k]);
            wx.push_back(xs[s][k]);
            wy.push_back(ys[s][k]);
            if (k + 1 < xs[s].size())
                for (int p = 1; p <= between; ++p)
                {
                    const double t = (double)p / (between + 1);
                    wx.push_back(At(xs[s], (int)k, t));
                    wy.push_back(At(ys[s], (int)k, t));
                }
        }
    }
    const size_t n = wx.size();
    Poly in{x, y}, out{std::vector<double>(n + 2, -7777.0), std::vector<double>(n + 2, -7777.0)};
    ms_assert(mkernel_get_splines(in.gl(), out.gl(), between) == 0, "the splines are told");
    bool same = true;
    for (size_t k = 0; k < n; ++k)
    {
        const double a = out.x[k] - wx[k], b = out.y[k] - wy[k];
        same &= (a < 1e-9) & (a > -1e-9) & (b < 1e-9) & (b > -1e-9);
    }
    ms_assert(same, "the points lie on the splines through the given points, with as many between them as asked for");
    ms_assert(out.x[n] == -7777.0 && out.y[n] == -7777.0 && out.x[n + 1] == -7777.0 && out.y[n + 1] == -7777.0, "no more points are told than there are");
}
MS_HARNESS(sample)
{
    const int n = ms_pick("n", 2, 5);
    const int k = ms_pick("k", 0, 4);
    const int other = ms_pick("other", 0, 2);
    const int between = ms_pick("between", 0, 5);
    const int u = ms_pick("u", -2, 2);
    if (k >= n) return;
    std::vector<double> x, y;
    for (int i = 0; i < n; ++i)
    {
        x.push_back(2 * i);
        y.push_back(i % 2 ? 1.5 : -0.5 * i);
    }
    x[k] += 0.25 * u;
    y[k] += u * u - 2;
    std::vector<std::vector<double>> xs, ys;
    const std::vector<double> ox{20, 21, 23, 22}, oy{1, 3, 3, 8};
    if (other == 2)
    {
        xs.push_back(ox);
        ys.push_back(oy);
    }
    xs.push_back(x);
    ys.push_back(y);
    if (other == 1)
    {
        xs.push_back(ox);
        ys.push_back(oy);
    }
    Sample(xs, ys, between);
    ms_reach(n == 2 ? "straight" : "bent");
}
// grids between two families of splines
static void FromSplines(int projection, int across, int along, int order, int turned, int shape, int other, int n, int m)
{
    int id = -1;
    ms_assert(mkernel_allocate_state(projection, id) == 0, "a state is made");
    if (other)
    {
        const auto g = Rect(2, 2, 1, 1, 20, 20);
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
    }
    const double at[3] = {0, 0.5, 1.5};
    std::vector<std::array<double, 4>> lines;
    const double slope = shape == 1 ? 0.125 : 0;
    for (int k = 0; k < across; ++k) lines.push_back({-0.5, at[k] - slope * 0.5, at[along - 1] + 0.5, at[k] + slope * (at[along - 1] + 0.5)});
    for (int k = 0; k < along; ++k) lines.push_back({at[k], -0.5, at[k], at[across - 1] + 0.5});
    std::vector<int> perm;
    {
        std::vector<int> left;
        for (size_t k = 0; k < lines.size(); ++k) left.push_back((int)k);
        int o = order;
        while (!left.empty())
        {
            const int c = o % (int)left.size();
            o /= (int)left.size();
            perm.push_back(left[c]);
            left.erase(left.begin() + c);
        }
    }
    std::vector<double> x, y;
    for (int q : perm)
    {
        auto l = lines[q];
        if (turned >> q & 1) l = {l[2], l[3], l[0], l[1]};
        if (!x.empty())
        {
            x.push_back(MISSING);
            y.push_back(MISSING);
        }
        for (int k = 0; k <= 2; ++k)
        {
            x.push_back(l[0] + (l[2] - l[0]) * 0.5 * k);
            y.push_back(l[1] + (l[3] - l[1]) * 0.5 * k);
        }
    }
    meshkernel::CurvilinearParameters p;
    p.m_refinement = m;
    p.n_refinement = n;
    ms_assert(mkernel_curvilinear_compute_grid_from_splines(id, Poly{x, y}.gl(), p) == 0, "splines that cross give a grid");
    const CG g = GetCurvi(id);
    ms_assert(g.rc == 0 && (int)g.x.size() == g.n * g.m, "the grid is told");
    // along the splines of the first one's family there are m cells between splines, along the others n
    const bool first = perm[0] < across;
    const int u = (along - 1) * (first ? m : n) + 1, v = (across - 1) * (first ? n : m) + 1;
    ms_assert((g.n == u && g.m == v) || (g.n == v && g.m == u), "the number of cells between splines is the number asked for");
    bool within = true;
    for (size_t k = 0; k < g.x.size(); ++k)
    {
        const double gy = g.y[k] - slope * g.x[k];
        within &= g.x[k] > -1e-3 && gy > -1e-3 && g.x[k] < at[along - 1] + 1e-3 && gy < at[across - 1] + 1e-3;
    }
    ms_assert(within, "the grid lies between the outermost splines");
    // lines of the grid one after the other, the crossings on the splines
    const bool swap = !(g.n == v && g.m == u) || (u == v && std::fabs(g.X(0, 0) - g.X(0, g.m - 1)) < 1e-3);
    const auto X = [&](int i, int j) { return swap ? g.X(j, i) : g.X(i, j); }; // i across, j along
    const auto Y = [&](int i, int j) { return swap ? g.Y(j, i) : g.Y(i, j); };
    const bool fx = X(0, 0) > X(0, u - 1), fy = Y(0, 0) > Y(v - 1, 0);
    bool order1 = true, met = true, straight = true;
    for (int i = 0; i < v; ++i)
        for (int j = 0; j < u; ++j)
        {
            const int a = fy ? v - 1 - i : i, b = fx ? u - 1 - j : j;
            const double px = X(a, b), py = Y(a, b);
            if (j) order1 &= px > X(a, fx ? b + 1 : b - 1);
            if (i) order1 &= py > Y(fy ? a + 1 : a - 1, b);
            const int ku = first ? m : n, kv = first ? n : m;
            if (j % ku == 0) straight &= std::fabs(px - at[j / ku]) < 1e-3;
            if (i % kv == 0) straight &= std::fabs(py - slope * px - at[i / kv]) < 1e-3;
        }
    ms_assert(order1, "the lines of the grid follow one after the other");
    ms_assert(straight, "every spline between the outermost ones is a line of the grid");
    int had = 0;
    M2 was = Get(id);
    for (int i = 0; i < was.numNodes(); ++i) had += was.validNode(i);
    ms_assert(mkernel_curvilinear_convert_to_mesh2d(id) == 0, "a grid from splines becomes part of the mesh");
    M2 now = Get(id);
    int has = 0;
    for (int i = 0; i < now.numNodes(); ++i) has += now.validNode(i);
    ms_assert(has == had + u * v, "the mesh has the nodes of the grid");
    ms_reach(projection ? "sphere" : "plane");
}
MS_HARNESS(grid)
{
    const int across = ms_pick("across", 2, 3);
    const int order = ms_pick("order", 0, 119);
    const int turned = ms_pick("turned", 0, 31);
    if (across == 2 && (order >= 24 || turned >= 16)) return;
    if (!ms_thorough() && across == 3 && (order * 7 + turned) % 4) return;
    FromSplines(0, across, 2, order, turned, (order + turned) % 2, 0, 2, 3);
}
MS_HARNESS(size)
{
    const int projection = ms_pick("projection", 0, 1);
    const int across = ms_pick("across", 2, 3);
    const int along = ms_pick("along", 2, 3);
    const int other = ms_pick("other", 0, 1);
    const int n = ms_pick("n", 1, 4);
    const int m = ms_pick("m", 1, 4);
    const int order = ms_pick("order", 0, 2);
    FromSplines(projection, across, along, order * 5, order * 3, 0, other, n, m);
}
