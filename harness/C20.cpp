// C20: networks of lines are divided as asked for.
#include "topo.hpp"
#include "geom.hpp"
#include <MeshKernel/Network1D.hpp>
using namespace mk;
namespace
{
    bool Near(P a, P b, double tol = 1e-9) { return (a.x - b.x < tol) & (b.x - a.x < tol) & (a.y - b.y < tol) & (b.y - a.y < tol); }
    double Dist(P a, P b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)); }
    using Line = std::vector<P>;
    P At(const Line& l, double c)
    {
        for (size_t i = 0; i + 1 < l.size(); ++i)
        {
            const double d = Dist(l[i], l[i + 1]);
            if (c <= d || i + 2 == l.size()) return {l[i].x + (l[i + 1].x - l[i].x) * c / d, l[i].y + (l[i + 1].y - l[i].y) * c / d};
            c -= d;
        }
        return l[0];
    }
    double Length(const Line& l)
    {
        double s = 0;
        for (size_t i = 0; i + 1 < l.size(); ++i) s += Dist(l[i], l[i + 1]);
        return s;
    }
    Poly Lines(const std::vector<Line>& ls)
    {
        Poly q;
        for (size_t k = 0; k < ls.size(); ++k)
        {
            if (k) AddSep(q, MISSING);
            for (auto p : ls[k])
            {
                q.x.push_back(p.x);
                q.y.push_back(p.y);
            }
        }
        return q;
    }
    // the distances along a line at which points are wanted, after dividing each gap
    std::vector<double> Divide(std::vector<double> c, double off)
    {
        std::sort(c.begin(), c.end());
        std::vector<double> r{c[0]};
        for (size_t i = 1; i < c.size(); ++i)
        {
            const double g = c[i] - c[i - 1];
            const int n = (int)std::ceil(g / off);
            for (int j = 1; j < n; ++j) r.push_back(c[i - 1] + g * j / n);
            r.push_back(c[i]);
        }
        return r;
    }
} // namespace
// points around fixed places on a line
MS_HARNESS(fixed)
{
    // distances along this line are x + y: 0, 4, 8, 16
    const std::vector<meshkernel::Point> line{{0, 0}, {4, 0}, {4, 4}, {12, 4}};
    const int n = ms_thorough() ? 4 : 3;
    const int st = ms_thorough() ? -2 : -1;
    std::vector<double> c;
    for (int i = 0; i < n; ++i)
    {
        const double v = ms_lattice(nm("place", i), 0, ms_thorough() ? 64 : 32, st);
        c.push_back(v);
        if (i) ms_assume(c[i - 1] < c[i]);
    }
    const double off = ms_lattice("offset", 1, ms_thorough() ? 16 : 8, st);
    const double least = ms_lattice("least", 1, ms_thorough() ? 16 : 8, st);
    meshkernel::Network1D net({line}, meshkernel::Projection::cartesian);
    net.ComputeFixedChainages({c}, least, off);
    const auto d = net.ComputeDiscretizationsFromChainages();
    ms_assert(d.size() == 1, "one list of points per line");
    const auto& p = d[0];
    const int m = (int)p.size();
    ms_assert(m >= 2 && m <= 2 + 2 * n, "at most two points are added for each place");
    ms_assert((p[0].x == 0) & (p[0].y == 0), "the line's start stays a point");
    ms_assert((p[m - 1].x == 12) & (p[m - 1].y == 4), "the line's end stays a point");
    bool on = true, order = true;
    for (int i = 0; i < m; ++i)
    {
        const double x = p[i].x, y = p[i].y;
        on &= ((y == 0) & (x >= 0) & (x <= 4)) | ((x == 4) & (y >= 0) & (y <= 4)) | ((y == 4) & (x >= 4) & (x <= 12));
        if (i) order &= (x + y > p[i - 1].x + p[i - 1].y);
        if (i && i + 1 < m) order &= (x + y - p[i - 1].x - p[i - 1].y >= least);
    }
    ms_assert(on, "every point lies on the line");
    bool apart = true;
    for (int i = 1; i < n; ++i) apart &= c[i] - c[i - 1] >= 2 * off;
    ms_assert(!apart | order, "points added are not closer than the least distance to the one before");
    const auto has = [&](double s)
    {
        bool h = false;
        for (int i = 0; i < m; ++i) h |= (p[i].x + p[i].y == s);
        return h;
    };
    // places with room around them
    bool all = true, some = false;
    for (int i = 0; i < n; ++i)
    {
        bool room = (c[i] - off >= least) & (c[i] + off < 16) & (2 * off >= least);
        for (int j = 0; j < n; ++j)
            if (j != i) room &= (c[i] - c[j] >= 2 * off + least) | (c[j] - c[i] >= 2 * off + least);
        all &= !room | (has(c[i] - off) & has(c[i] + off));
        some |= room;
    }
    ms_assert(all, "a place with room around it gets a point on either side, at the offset");
    ms_reach("placed");
}
// even spacing
MS_HARNESS(spaced)
{
    const int shape = ms_pick("shape", 0, 4);
    const Line shapes[5] = {{{0, 0}, {10, 0}}, {{0, 0}, {3, 4}, {3, 5}, {3, 5.5}, {3, 6}, {13, 6}}, {{0, 0}, {0.5, 0}, {0.5, 0.5}, {1, 0.5}, {1, 1}, {1.5, 1}}, {{7, 7}, {4, 3}, {-8, -2}}, {{0, 0}, {6, 0}, {6, 0.25}, {0, 0.25}}};
    const Line& l = shapes[shape];
    const int o = ms_pick("spacing", 1, 64);
    const double off = o * 0.25;
    const int f = ms_pick("place", 0, 9);
    std::vector<meshkernel::Point> pts;
    for (auto q : l) pts.push_back({q.x, q.y});
    meshkernel::Network1D net({pts}, meshkernel::Projection::cartesian);
    std::vector<double> want{0, Length(l)};
    const double place = 0.125 + f * want[1] / 10;
    if (f)
    {
        net.ComputeFixedChainages({{place}}, 0.0625, 0.0625);
        want.push_back(place - 0.0625);
        if (place + 0.0625 < want[1]) want.push_back(place + 0.0625);
    }
    net.ComputeOffsettedChainages(off);
    const auto d = net.ComputeDiscretizationsFromChainages();
    want = Divide(want, off);
    bool ok = d.size() == 1 && d[0].size() == want.size();
    ms_assert(ok, "each gap gets the fewest pieces that are not longer than the spacing");
    for (size_t i = 0; i < want.size(); ++i)
    {
        const P w = At(l, want[i]);
        ok &= Near(w, {d[0][i].x, d[0][i].y});
    }
    ms_assert(ok, "points lie on the line, evenly within each gap");
    ms_reach(f ? "between" : "whole");
}
// several lines become one mesh
MS_HARNESS(mesh)
{
    const int n = ms_pick("lines", 1, 4);
    const int flip = ms_pick("flip", 0, 15);
    const int o = ms_pick("spacing", 0, 5);
    const double off = o == 0 ? 0.5 : o == 1 ? 1 : o == 2 ? 2 : o == 3 ? 2.5 : o == 4 ? 4 : 30;
    const bool twice = ms_pick("twice", 0, 1);
    std::vector<Line> ls = {{{0, 0}, {4, 0}, {10, 0}}, {{10, 0}, {10, 5}, {10, 6}}, {{10, 0}, {16, 8}}, {{30, 0}, {30, 7}}};
    ls.resize(n);
    for (int k = 0; k < n; ++k)
        if (flip >> k & 1) std::reverse(ls[k].begin(), ls[k].end());
    Poly q = Lines(ls);
    const int id = NewState();
    ms_assert(mkernel_network1d_set(id, q.gl()) == 0, "lines are taken");
    ms_assert(mkernel_network1d_compute_offsetted_chainages(id, off) == 0, "lines are divided");
    ms_assert(mkernel_network1d_to_mesh1d(id, 0.01) == 0, "the mesh is made");
    const M1 m = Get1(id);
    // every expected piece is an edge between the nodes at its ends, each of them once
    std::vector<std::array<P, 2>> want;
    for (auto& l : ls)
    {
        const auto c = Divide({0, Length(l)}, off);
        for (size_t i = 1; i < c.size(); ++i) want.push_back({At(l, c[i - 1]), At(l, c[i])});
    }
    const auto compare = [&](const M1& m)
    {
        int live = 0;
        bool all = true;
        for (size_t e = 0; e + 1 < m.e.size(); e += 2) live += m.e[e] >= 0 && m.e[e + 1] >= 0;
        ms_assert(live == (int)want.size(), "as many edges as pieces");
        for (auto& w : want)
        {
            int found = 0;
            for (size_t e = 0; e + 1 < m.e.size(); e += 2)
            {
                if (m.e[e] < 0 || m.e[e + 1] < 0 || m.e[e] >= (int)m.x.size() || m.e[e + 1] >= (int)m.x.size()) continue;
                const P a{m.x[m.e[e]], m.y[m.e[e]]}, b{m.x[m.e[e + 1]], m.y[m.e[e + 1]]};
                found += (Near(a, w[0], 1e-6) && Near(b, w[1], 1e-6)) || (Near(a, w[1], 1e-6) && Near(b, w[0], 1e-6));
            }
            all &= found == 1;
        }
        ms_assert(all, "every piece of a line is an edge");
        // lines that meet share the node they meet in
        bool once = true;
        for (size_t i = 0; i < m.x.size(); ++i)
            for (size_t j = 0; j < i; ++j) once &= m.x[i] == MISSING || m.x[j] == MISSING || !Near({m.x[i], m.y[i]}, {m.x[j], m.y[j]}, 1e-6);
        ms_assert(once, "lines that meet share a node");
    };
    compare(m);
    ms_reach("made");
    if (twice)
    {
        // a network that is replaced leaves the mesh alone
        Poly r = Lines({{{0, 50}, {8, 50}}});
        ms_assert(mkernel_network1d_set(id, r.gl()) == 0, "lines are taken");
        const M1 m2 = Get1(id);
        ms_assert(m.x == m2.x && m.e == m2.e, "the mesh stays when the network is replaced");
        ms_assert(mkernel_network1d_compute_offsetted_chainages(id, off) == 0, "lines are divided");
        ms_assert(mkernel_network1d_to_mesh1d(id, 0.01) == 0, "the mesh is made");
        const Line l{{0, 50}, {8, 50}};
        const auto c = Divide({0, 8}, off);
        for (size_t i = 1; i < c.size(); ++i) want.push_back({At(l, c[i - 1]), At(l, c[i])});
        compare(Get1(id));
        ms_reach("joined");
    }
}
// what cannot be done is refused, and changes nothing
MS_HARNESS(refused)
{
    const int what = ms_pick("what", 0, 5);
    const int id = NewState();
    Poly q = Lines({{{0, 0}, {4, 0}}, {{8, 0}, {8, 8}}});
    ms_assert(mkernel_network1d_set(id, q.gl()) == 0, "lines are taken");
    int rc = 0;
    if (what == 0)
    {
        std::vector<double> f{1.0};
        rc = mkernel_network1d_compute_fixed_chainages(id, f.data(), 1, 0.1, 0.1);
    }
    if (what == 1)
    {
        std::vector<double> f{1.0, MISSING, 2.0, MISSING, 3.0};
        rc = mkernel_network1d_compute_fixed_chainages(id, f.data(), 5, 0.1, 0.1);
    }
    if (what == 2) rc = mkernel_network1d_compute_offsetted_chainages(id, 0.0);
    if (what == 3) rc = mkernel_network1d_compute_offsetted_chainages(id, -2.0);
    if (what == 4)
    {
        Poly r = Lines({{{0, 0}, {4, 0}}, {{8, 0}}});
        rc = mkernel_network1d_set(id, r.gl());
    }
    if (what == 5)
    {
        std::vector<double> f{1.0, MISSING, 2.0};
        rc = mkernel_network1d_compute_fixed_chainages(id, f.data(), -1, 0.1, 0.1);
    }
    ms_assert(rc != 0, "what cannot be done is refused");
    ms_assert(mkernel_network1d_compute_offsetted_chainages(id, 1.0) == 0, "lines are divided");
    ms_assert(mkernel_network1d_to_mesh1d(id, 0.01) == 0, "the mesh is made");
    const M1 m = Get1(id);
    ms_assert(m.x.size() == 14 && m.e.size() == 24, "a call that was refused changed nothing");
    ms_reach("refused");
}
