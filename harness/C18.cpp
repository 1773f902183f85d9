// C18: grids made in a polygon or between splines keep to it.
#include "topo.hpp"
#include "geom.hpp"
using namespace mk;
namespace
{
    constexpr int N = 10;
    // ten points on the sides of a box of 3 by 2, counter-clockwise from the lower left corner
    Ring Outline(double sx, double sy)
    {
        Ring r;
        for (int i = 0; i < 3; ++i) r.push_back({sx * i, 0});
        for (int i = 0; i < 2; ++i) r.push_back({sx * 3, sy * i});
        for (int i = 3; i > 0; --i) r.push_back({sx * i, sy * 2});
        for (int i = 2; i > 0; --i) r.push_back({0, sy * i});
        return r;
    }
    bool Same(const CG& g, int i, int j, P p) { return (g.X(i, j) == p.x) & (g.Y(i, j) == p.y); }
    bool Finite(const CG& g, int i, int j) { return std::isfinite(g.X(i, j)) && std::isfinite(g.Y(i, j)); }
} // namespace
// the rim of the grid, with one point of the outline anywhere near its place
MS_HARNESS(rim)
{
    Ring r = Outline(4, 4);
    const int first = ms_pick("first", -1, N + 1);
    const int second = ms_pick("second", -1, N + 1);
    const int third = ms_pick("third", -1, N + 1);
    const bool four = ms_pick("four", 0, 1);
    Poly q;
    AddRing(q, r);
    const int id = NewState();
    const auto before = GetSnap(id);
    const int rc = mkernel_curvilinear_compute_transfinite_from_polygon(id, q.gl(), first, second, third, four);
    const int all[] = {first, second, third};
    bool inside = true;
    for (int k : all) inside &= k >= 0 && k <= N;
    const int a = first % N, b = second % N, c = third % N;
    const bool distinct = inside && a != b && b != c && a != c;
    if (rc)
    {
        ms_assert(SameSnap(before, GetSnap(id)), "a refused grid changes nothing");
        if (distinct && four)
        {
            // the four corners of the box, either way round
            const int corner[] = {0, 3, 5, 8};
            for (int k = 0; k < 4; ++k)
            {
                ms_assert(!(a == corner[k] && b == corner[(k + 1) % 4] && c == corner[(k + 2) % 4]), "the corners of a box are accepted");
                ms_assert(!(c == corner[k] && b == corner[(k + 1) % 4] && a == corner[(k + 2) % 4]), "the corners of a box are accepted");
            }
        }
        ms_reach("refused");
        return;
    }
    ms_assert(distinct, "points that are not there or not different are refused");
    const auto g = GetCurvi(id);
    ms_assert(g.n > 1 && g.m > 1, "the grid has cells");
    const int ln = g.n - 1, lm = g.m - 1;
    ms_assert(Same(g, 0, 0, r[a]) && Same(g, ln, 0, r[b]) && Same(g, ln, lm, r[c]), "the selected points are corners of the grid");
    bool fin = true;
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j) fin &= g.valid(i, j) && Finite(g, i, j);
    ms_assert(fin, "every node has a place");
    // along the sides the nodes are the points of the outline one after the other, in one direction
    const int step = Same(g, 1, 0, r[(a + 1) % N]) ? 1 : -1;
    bool ok = true;
    auto at = [&](int k) { return r[((k % N) + N) % N]; };
    for (int i = 0; i <= ln; ++i) ok &= Same(g, i, 0, at(a + step * i));
    for (int j = 0; j <= lm; ++j) ok &= Same(g, ln, j, at(b + step * j));
    // when the outline has points to spare, the fourth side may cut the last piece short
    const bool spare = four && 2 * (ln + lm) < N;
    for (int i = 0; i <= ln - spare; ++i) ok &= Same(g, ln - i, lm, at(c + step * i));
    ms_assert(ok, "the sides follow the outline");
    if (four)
    {
        ms_assert(2 * (ln + lm) == N || 2 * (ln + lm) < N, "the sides use each point at most once");
        for (int j = 0; j <= lm; ++j) ok &= Same(g, 0, j, at(a - step * j));
        ms_assert(ok, "so does the fourth side");
    }
    else
    {
        for (int j = 0; j <= lm; ++j)
        {
            const double t = double(j) / lm;
            ok &= std::abs(g.X(0, j) - (r[a].x * (1 - t) + g.X(0, lm) * t)) < 1e-9;
            ok &= std::abs(g.Y(0, j) - (r[a].y * (1 - t) + g.Y(0, lm) * t)) < 1e-9;
        }
        ms_assert(ok, "the open side is straight");
    }
    ms_reach(step > 0 ? "forward" : "backward");
}
// with the corners of a box the grid is even, wherever the box is
MS_HARNESS(box)
{
    const double sx = ms_pick("x", -2, 2);
    const double sy = ms_pick("y", -2, 2);
    const int turn = ms_pick("turn", 0, 3);
    const bool back = ms_pick("back", 0, 1);
    const bool four = ms_pick("four", 0, 1);
    Ring r = Outline(4, 2);
    for (auto& p : r) p.x += sx, p.y += sy;
    const int corner[] = {0, 3, 5, 8};
    int c[3];
    for (int k = 0; k < 3; ++k) c[k] = corner[(turn + (back ? 3 - k : k)) % 4];
    Poly q;
    AddRing(q, r);
    const int id = NewState();
    ms_assert(mkernel_curvilinear_compute_transfinite_from_polygon(id, q.gl(), c[0], c[1], c[2], four) == 0, "the corners of a box are accepted");
    const auto g = GetCurvi(id);
    ms_assert((g.n == 4 && g.m == 3) || (g.n == 3 && g.m == 4), "there are as many lines as points along the sides");
    bool ok = true;
    const P o = r[c[0]], u = r[c[1]], v = r[c[2]];
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j)
        {
            const double s = double(i) / (g.n - 1), t = double(j) / (g.m - 1);
            const double ex = g.X(i, j) - (o.x + s * (u.x - o.x) + t * (v.x - u.x)), ey = g.Y(i, j) - (o.y + s * (u.y - o.y) + t * (v.y - u.y));
            ok &= (ex < 1e-6) & (ex > -1e-6) & (ey < 1e-6) & (ey > -1e-6);
        }
    ms_assert(ok, "the lines are spread evenly over the box");
    ms_reach("box");
}
MS_HARNESS(triangle)
{
    const int sides[] = {ms_pick("side a", 1, 5), 0, 0};
    int s[3] = {sides[0], 0, 0};
    s[1] = ms_pick("side b", 1, 5);
    s[2] = ms_pick("side c", 1, 5);
    const int start = ms_pick("start", 0, 2);
    const bool back = ms_pick("back", 0, 1);
    const P corner[] = {{0, 0}, {12, 1}, {5, 9}};
    Ring r;
    int at[3];
    for (int k = 0; k < 3; ++k)
    {
        at[k] = (int)r.size();
        const P a = corner[k], b = corner[(k + 1) % 3];
        for (int i = 0; i < s[k]; ++i) r.push_back({a.x + (b.x - a.x) * i / s[k], a.y + (b.y - a.y) * i / s[k]});
    }
    const int n = (int)r.size();
    Poly q;
    AddRing(q, r);
    const int id = NewState();
    const auto before = GetSnap(id);
    int c[3];
    for (int k = 0; k < 3; ++k) c[k] = at[(start + (back ? 3 - k : k)) % 3];
    const int rc = mkernel_curvilinear_compute_transfinite_from_triangle(id, q.gl(), c[0], c[1], c[2]);
    if (rc)
    {
        ms_assert(SameSnap(before, GetSnap(id)), "a refused grid changes nothing");
        ms_assert(back || n % 2 || 2 * s[0] >= n || 2 * s[1] >= n || 2 * s[2] >= n, "a triangle whose sides fit together is accepted");
        ms_reach("refused");
        return;
    }
    const auto g = GetCurvi(id);
    bool fin = true;
    int nodes = 0;
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j)
        {
            if (!g.valid(i, j)) continue;
            ++nodes;
            const P p{g.X(i, j), g.Y(i, j)};
            bool in = std::isfinite(p.x) && std::isfinite(p.y);
            for (int k = 0; k < 3; ++k) in &= Cross(corner[k], corner[(k + 1) % 3], p) > -1e-6;
            fin &= in;
        }
    ms_assert(fin, "every node lies in the triangle");
    auto edge = [&](P a, P b) {
        for (int i = 0; i < g.n; ++i)
            for (int j = 0; j < g.m; ++j)
                for (int d = 0; d < 2; ++d)
                {
                    const int u = i + d, v = j + 1 - d;
                    if (u >= g.n || v >= g.m) continue;
                    if ((Same(g, i, j, a) && Same(g, u, v, b)) || (Same(g, i, j, b) && Same(g, u, v, a))) return true;
                }
        return false;
    };
    if (n % 2) return; // the sides of an outline with an odd number of points do not fit together
    bool ok = true;
    for (int k = 0; k < n; ++k) ok &= edge(r[k], r[(k + 1) % n]);
    ms_assert(ok, "every piece of the outline is an edge of the grid");
    // cells fill the triangle: their areas add up
    double area = 0;
    for (int i = 0; i + 1 < g.n; ++i)
        for (int j = 0; j + 1 < g.m; ++j)
        {
            if (!(g.valid(i, j) && g.valid(i + 1, j) && g.valid(i, j + 1) && g.valid(i + 1, j + 1))) continue;
            const P a{g.X(i, j), g.Y(i, j)}, b{g.X(i, j + 1), g.Y(i, j + 1)}, d{g.X(i + 1, j + 1), g.Y(i + 1, j + 1)}, e{g.X(i + 1, j), g.Y(i + 1, j)};
            area += std::abs(Cross(a, b, d) + Cross(a, d, e)) / 2;
        }
    ms_assert(std::abs(area - Cross(corner[0], corner[1], corner[2]) / 2) < 1e-6, "the cells fill the triangle");
    ms_reach("made");
}
// any number as index of a corner
MS_HARNESS(index)
{
    const Ring r = Outline(4, 4);
    const int which = ms_pick("which", 0, 2);
    const int turn = ms_pick("turn", 0, 3);
    const bool four = ms_pick("four", 0, 1);
    const int given = ms_int("value", -2000000000, 2000000000);
    // the points that are there one by one, all others at once
    static volatile int point[N + 1];
    for (int k = 0; k <= N; ++k) point[k] = k;
    int value = given;
    for (int k = 0; k <= N; ++k)
        if (given == k) value = point[k];
    const int corner[] = {0, 3, 5, 8};
    int at[3] = {corner[turn], corner[(turn + 1) % 4], corner[(turn + 2) % 4]};
    const int was = at[which];
    at[which] = value;
    Poly q;
    AddRing(q, r);
    const int id = NewState();
    const auto before = GetSnap(id);
    const int rc = mkernel_curvilinear_compute_transfinite_from_polygon(id, q.gl(), at[0], at[1], at[2], four);
    if (value < 0 || value > N)
    {
        ms_assert(rc != 0, "points that are not there are refused");
        ms_assert(SameSnap(before, GetSnap(id)), "a refused grid changes nothing");
        ms_reach("refused");
        return;
    }
    if (value == was)
    {
        ms_assert(rc == 0, "the corners of a box are accepted");
        const auto g = GetCurvi(id);
        ms_assert(g.n > 1 && g.m > 1 && Same(g, 0, 0, r[at[0]]) && Same(g, g.n - 1, 0, r[at[1]]), "the selected points are corners of the grid");
        ms_reach("made");
    }
}
