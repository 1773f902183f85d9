// C19: refining, spreading and offsetting outlines.
#include "topo.hpp"
#include "geom.hpp"
using namespace mk;
namespace
{
    Poly Sized(int n, double v = -77) { return Poly(std::vector<double>(n, v), std::vector<double>(n, v)); }
    // the point is at the given fraction of the segment
    bool Near(P a, P b, double tol = 1e-9) { return (a.x - b.x < tol) & (b.x - a.x < tol) & (a.y - b.y < tol) & (b.y - a.y < tol); }
    double Dist(P a, P b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)); }
    double Off(P a, P b, P p) { return Cross(a, b, p) / Dist(a, b); }
} // namespace
// pieces of the outline are divided evenly
MS_HARNESS(refine)
{
    const int ax = ms_pick("x", 3, 12);
    const bool two = ms_pick("two", 0, 1);
    const int first = ms_pick("first", -1, 12);
    const int second = ms_pick("second", -1, 12);
    const int t = ms_pick("target", -1, 4);
    const double target = t < 0 ? -1 : t == 0 ? 0.5 : t == 1 ? 2 : t == 2 ? 2.9 : t == 3 ? 5 : 40;
    const Ring r[2] = {{{0, 0}, {8, 0}, {(double)ax, 6}, {0, 6}}, {{20, 0}, {24, 0}, {24, 3}, {22, 6}}};
    Poly q;
    AddRing(q, r[0]);
    if (two)
    {
        AddSep(q, MISSING);
        AddRing(q, r[1]);
    }
    const int id = NewState();
    int n = -5;
    const int rc = mkernel_polygon_count_refine(id, q.gl(), first, second, target, n);
    // both points in one outline; 0 and 0 is the whole first one
    int k = -1, f = first, s = second;
    if (first >= 0 && second >= 0 && first <= 4 && second <= 4) k = 0;
    if (two && first >= 6 && second >= 6 && first <= 10 && second <= 10) k = 1, f -= 6, s -= 6;
    if (first == 0 && second == 0) s = 4;
    if (target < 0) return; // no requirement but to return
    if (k < 0)
    {
        // points of different outlines, or points that are not there
        if (first < 0 || second < 0 || first > (two ? 10 : 4) || second > (two ? 10 : 4)) ms_assert(rc != 0, "points that are not there are refused");
        ms_reach("refused");
        return;
    }
    ms_assert(rc == 0, "the number of points is told");
    ms_assert(n >= 5 && n < 1000, "there are not fewer points than before");
    Poly o = Sized(n);
    ms_assert(mkernel_polygon_refine(id, q.gl(), first, second, target, o.gl()) == 0, "the number told is the number of points");
    std::vector<P> want;
    for (int i = 0; i < 4; ++i)
    {
        const P a = r[k][i], b = r[k][(i + 1) % 4];
        want.push_back(a);
        const bool in = f < s ? i >= f && i < s : f > s ? i >= f || i < s : false;
        const int parts = in ? (int)std::floor(Dist(a, b) / target + 0.5) : 1;
        for (int j = 1; j < parts; ++j) want.push_back({a.x + (b.x - a.x) * j / parts, a.y + (b.y - a.y) * j / parts});
    }
    want.push_back(r[k][0]);
    bool ok = (int)want.size() == n;
    for (int i = 0; ok && i < n; ++i) ok &= Near(want[i], {o.x[i], o.y[i]});
    ms_assert(ok, "exactly the pieces from the first to the second point are divided, evenly");
    ms_reach("refined");
}
// points are spread over part of the outline, and stay on it
MS_HARNESS(spread)
{
    const int shape = ms_pick("shape", 0, 2);
    const Ring shapes[3] = {{{0, 0}, {1, 0}, {2, 0}, {10, 0}, {10, 6}, {0, 6}}, {{0, 0}, {4, -1}, {9, 0}, {9, 1}, {9, 2}, {5, 9}}, {{0, 0}, {3, 0}, {3, 9}, {2, 9}, {1, 9}, {0, 9}}};
    const Ring& r = shapes[shape];
    const int m = (int)r.size();
    const int first = ms_pick("first", -1, m + 1);
    const int second = ms_pick("second", -1, m + 1);
    Poly q;
    AddRing(q, r);
    const int id = NewState();
    int n = -5;
    const int rc = mkernel_polygon_count_linear_refine(id, q.gl(), first, second, n);
    if (first < 0 || second < 0 || first > m || second > m)
    {
        ms_assert(rc != 0, "points that are not there are refused");
        ms_reach("refused");
        return;
    }
    ms_assert(rc == 0 && n >= 4 && n < 1000, "the number of points is told");
    Poly o = Sized(n);
    ms_assert(mkernel_polygon_linear_refine(id, q.gl(), first, second, o.gl()) == 0, "the number told is the number of points");
    auto at = [&](int i) { return P{o.x[i], o.y[i]}; };
    ms_assert(Near(at(0), at(n - 1)), "the outline is closed");
    bool on = true;
    for (int i = 0; i < n; ++i)
    {
        double best = 1e9;
        for (int k = 0; k < m; ++k)
        {
            const P a = r[k], b = r[(k + 1) % m], p = at(i);
            double t = ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / (Dist(a, b) * Dist(a, b));
            t = t < 0 ? 0 : t > 1 ? 1 : t;
            best = std::min(best, Dist(p, {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}));
        }
        on &= best < 1e-6;
    }
    ms_assert(on, "every point lies on the outline");
    // the points outside the part, and both its ends, are there
    bool kept = true;
    for (int i = 0; i < m; ++i)
    {
        const bool inner = first < second ? i > first && i < second : first > second ? i > first || i < second : false;
        if (inner) continue;
        bool is = false;
        for (int k = 0; k < n; ++k) is |= Near(at(k), r[i], 1e-6);
        kept &= is || (i == 0 && second == m && first == 0);
    }
    ms_assert(kept, "the points outside the part and its ends stay");
    ms_reach("spread");
}
// the sides of the copy are parallel to the sides of the outline, at the distance
MS_HARNESS(offset)
{
    const double d = 0.25 * ms_pick("distance", -2, 3);
    const int both = ms_pick("both", 0, 1);
    const int holes = ms_pick("holes", 0, 2);
    const bool second = ms_pick("second", 0, 1);
    const bool reverse = ms_pick("reverse", 0, 1);
    const int ax = ms_pick("x", 18, 22);
    std::vector<Ring> rings{{{0, 0}, {20, 0}, {(double)ax, 20}, {0, 20}}};
    if (holes > 0) rings.push_back({{4, 4}, {8, 4}, {8, 8}});
    if (holes > 1) rings.push_back({{12, 12}, {16, 12}, {16, 16}, {12, 15}});
    const size_t first = rings.size();
    if (second) rings.push_back({{40, 0}, {50, 0}, {45, 10}});
    Poly q;
    for (size_t k = 0; k < rings.size(); ++k)
    {
        if (k) AddSep(q, k == first ? MISSING : INNER);
        if (reverse) std::reverse(rings[k].begin(), rings[k].end());
        AddRing(q, rings[k]);
    }
    const int id = NewState();
    int n = -5;
    ms_assert(mkernel_polygon_count_offset(id, q.gl(), both, d, n) == 0, "the number of points is told");
    const int size = (int)q.x.size();
    ms_assert(n == (both ? 2 * size + 1 : size), "there are as many points as in the outlines, for each copy");
    Poly o = Sized(n);
    ms_assert(mkernel_polygon_get_offset(id, q.gl(), both, d, o.gl()) == 0, "the copy is made");
    // split the result
    std::vector<Ring> out(1);
    std::vector<double> seps;
    for (int i = 0; i < n; ++i)
    {
        if (o.x[i] == MISSING || o.x[i] == INNER)
        {
            ms_assert(o.x[i] == o.y[i], "a separator is a separator in both coordinates");
            seps.push_back(o.x[i]);
            out.emplace_back();
            continue;
        }
        out.back().push_back({o.x[i], o.y[i]});
    }
    ms_assert(out.size() == rings.size() * (1 + both), "every outline has its copies");
    // each copy belongs to one outline and one sign
    int used = 0;
    for (size_t k = 0; k < rings.size(); ++k)
        for (int side = 0; side <= both; ++side)
        {
            const double want = (side ? -d : d);
            bool found = false;
            for (auto& c : out)
            {
                const Ring& r = rings[k];
                const size_t m = r.size();
                if (c.size() != m + 1) continue;
                bool ok = Near(c[0], c[m]);
                for (size_t i = 0; i < m; ++i)
                {
                    // the outline runs counter-clockwise unless reversed; the distance counts to its right then
                    ok &= std::abs(Off(r[i], r[(i + 1) % m], c[i]) + want) < 1e-9 && std::abs(Off(r[i], r[(i + 1) % m], c[i + 1]) + want) < 1e-9;
                }
                found |= ok;
            }
            used += found;
        }
    ms_assert(used == (int)rings.size() * (1 + both), "the sides of the copies are parallel to those of the outlines, at the distance");
    for (size_t i = 0; i < seps.size(); ++i)
    {
        const bool starts = (i + 1) % first == 0 || (second && i + 1 >= first * (1 + both));
        ms_assert(seps[i] == (starts ? MISSING : INNER), "holes stay holes");
    }
    ms_reach(both ? "both" : "one");
}
// points are selected when they lie in the outline
MS_HARNESS(included)
{
    const double x = ms_lattice("x", -6, 26, 0);
    const double y = ms_lattice("y", -6, 26, 0);
    const bool hole = ms_pick("hole", 0, 1);
    const bool sep = ms_pick("separator", 0, 1);
    const Ring r{{0, 0}, {20, 0}, {24, 20}, {0, 20}}, h{{5, 5}, {11, 5}, {11, 11}};
    ms_assume(!OnRing(r, {x, y}));
    Poly q;
    AddRing(q, r);
    if (hole)
    {
        ms_assume(!OnRing(h, {x, y}));
        AddSep(q, INNER);
        AddRing(q, h);
    }
    Poly p({1, x, 100, 3}, {1, y, 3, 100});
    if (sep)
    {
        AddSep(p, MISSING);
        p.x.push_back(x);
        p.y.push_back(y);
    }
    const int id = NewState();
    Poly s = Sized((int)p.x.size());
    s.v.assign(p.x.size(), -5);
    ms_assert(mkernel_polygon_get_included_points(id, q.gl(), p.gl(), s.gl()) == 0, "the selection is told");
    const bool in = InRing(r, {x, y}) & !(hole && InRing(h, {x, y}));
    bool ok = (s.v[0] == 1) & (s.v[1] == (in ? 1.0 : 0.0)) & (s.v[2] == 0) & (s.v[3] == 0);
    if (sep) ok &= s.v[5] == (in ? 1.0 : 0.0);
    ms_assert(ok, "exactly the points in the outline are selected");
    ms_reach(in ? "in" : "out");
}
