// C22: snapping moves what was selected onto the land boundary, and nothing else.
#include "topo.hpp"
#include "geom.hpp"
using namespace mk;
namespace
{
    bool Near(P a, P b, double tol = 1e-9) { return (a.x - b.x < tol) & (b.x - a.x < tol) & (a.y - b.y < tol) & (b.y - a.y < tol); }
    double Dist2(P a, P b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
    using Line = std::vector<P>;
    const std::vector<Line> kLand = {{{-2, -1}, {6, -1}, {6, 3}}, {{-2, 8}, {2, 12}, {14, 12}}, {{30, -20}, {30, -4}}};
    P Closest(P a, P b, P p)
    {
        const double l = Dist2(a, b);
        double t = ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / l;
        t = t < 0 ? 0 : t > 1 ? 1 : t;
        return {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)};
    }
    // s is a nearest point of the land boundary to p
    bool Snapped(P p, P s)
    {
        bool on = false, nearest = true;
        const double d = Dist2(p, s);
        for (auto& l : kLand)
            for (size_t i = 0; i + 1 < l.size(); ++i)
            {
                on |= Dist2(s, Closest(l[i], l[i + 1], s)) < 1e-16;
                nearest &= d <= Dist2(p, Closest(l[i], l[i + 1], p)) + 1e-9;
            }
        return on & nearest;
    }
    Poly Land()
    {
        Poly q;
        for (size_t k = 0; k < kLand.size(); ++k)
        {
            if (k) AddSep(q, MISSING);
            for (auto p : kLand[k])
            {
                q.x.push_back(p.x);
                q.y.push_back(p.y);
            }
        }
        return q;
    }
} // namespace
MS_HARNESS(outline)
{
    const int two = ms_pick("more", 0, 2); // a second outline, or a hole
    const int first = ms_pick("first", -1, 11);
    const int last = ms_pick("last", -1, 11);
    const int ax = ms_thorough() ? ms_pick("x", -3, 9) : (first + 3 * last + 8) % 13 - 3;
    const int ay = ms_pick("y", -3, 9);
    const Ring r[2] = {{{0, 0}, {8, 1}, {9, 9}, {(double)ax, (double)ay + 0.5}}, two == 2 ? Ring{{5, 3}, {7, 3}, {7, 5}, {6, 5}} : Ring{{20, 0}, {24, 0}, {24, 3}, {22, 6}}};
    Poly q, land = Land();
    AddRing(q, r[0]);
    if (two)
    {
        AddSep(q, two == 2 ? INNER : MISSING);
        AddRing(q, r[1]);
    }
    Poly was = q;
    const int id = NewState();
    const int rc = mkernel_polygon_snap_to_landboundary(id, land.gl(), q.gl(), first, last);
    const int n = (int)was.x.size();
    const bool there = first >= 0 && last >= 0 && first < n && last < n;
    bool same = true;
    for (int i = 0; i < n; ++i) same &= q.x[i] == was.x[i] && q.y[i] == was.y[i];
    int k = -1, f = first, l = last;
    if (there && first <= 4 && last <= 4) k = 0;
    if (there && two == 1 && first >= 6 && last >= 6) k = 1, f -= 6, l -= 6;
    if (k < 0)
    {
        if (!there) ms_assert(rc != 0, "points that are not there are refused");
        if (rc != 0) ms_assert(same, "what is refused changes nothing");
        ms_reach("refused");
        return;
    }
    if (first == 0 && last == 0) l = 4;
    ms_assert(rc == 0, "points of one outline are snapped");
    bool moved = true, stay = true;
    for (int i = 0; i < n; ++i)
    {
        const int p = i - 6 * k;
        const bool in = p >= 0 && p <= 4 && (f <= l ? p >= f && p <= l : p >= f || p <= l);
        // the closing point is the first point
        const bool also = (p == 4 && (f <= l ? f == 0 : true)) || (p == 0 && (f <= l ? l == 4 : true));
        const bool unmoved = q.x[i] == was.x[i] && q.y[i] == was.y[i];
        if (in) moved &= Snapped({was.x[i], was.y[i]}, {q.x[i], q.y[i]});
        else if (also) stay &= unmoved || Snapped({was.x[i], was.y[i]}, {q.x[i], q.y[i]});
        else stay &= unmoved;
    }
    ms_assert(moved, "points selected are at the nearest point of the land boundary");
    ms_assert(stay, "other points stay where they are");
    ms_reach(f <= l ? "forward" : "around");
}
// any position of a point, with straight coasts
MS_HARNESS(point)
{
    const int which = ms_pick("which", 1, 3);
    const double ax = ms_lattice("x", -16, 52, -2);
    const double ay = ms_lattice("y", -16, 48, -2);
    Ring r{{0, 0}, {8, 1}, {9, 9}, {1, 8}};
    r[which] = {ax, ay};
    Poly q, land({-2, 14}, {4, 4});
    AddRing(q, r);
    AddSep(land, MISSING);
    land.x.insert(land.x.end(), {16, 16});
    land.y.insert(land.y.end(), {0, 32});
    Poly was = q;
    const int id = NewState();
    ms_assert(mkernel_polygon_snap_to_landboundary(id, land.gl(), q.gl(), which, which) == 0, "a point of the outline is snapped");
    const double cx = ax < -2 ? -2 : ax;
    const double d1 = (cx - ax) * (cx - ax) + (4 - ay) * (4 - ay);
    const double cy = ay < 0 ? 0 : ay;
    const double d2 = (16 - ax) * (16 - ax) + (cy - ay) * (cy - ay);
    const double x = q.x[which], y = q.y[which];
    const bool first = (x - cx < 1e-9) & (cx - x < 1e-9) & (y - 4 < 1e-9) & (4 - y < 1e-9);
    const bool second = (x - 16 < 1e-9) & (16 - x < 1e-9) & (y - cy < 1e-9) & (cy - y < 1e-9);
    ms_assert((first & (d1 <= d2)) | (second & (d2 <= d1)), "the point selected is at the nearest point of the land boundary");
    bool stay = true;
    for (int i = 0; i < (int)was.x.size(); ++i)
        if (i != which) stay &= q.x[i] == was.x[i] && q.y[i] == was.y[i];
    ms_assert(stay, "other points stay where they are");
    ms_reach("snapped");
}
MS_HARNESS(grid)
{
    const int dir = ms_pick("direction", 0, 1);
    const int a = ms_pick("from", 0, 4);
    const int b = ms_pick("to", 0, 4);
    const int line = ms_pick("line", 0, 3);
    const int region = ms_pick("region", -1, 3);
    const int gone = ms_pick("gone", -1, 3);
    if (a == b) return;
    // five nodes along, four across
    const int n = dir ? 5 : 4, m = dir ? 4 : 5;
    std::vector<double> x, y;
    for (int k = 0; k < n * m; ++k)
    {
        const int i = dir ? k / m : k % m, j = dir ? k % m : k / m; // along, across
        x.push_back(2 * i + 0.5 * j);
        y.push_back(2 * j + 1 + 0.25 * i);
    }
    const auto at = [&](int i, int j) { return dir ? i * m + j : j * m + i; };
    // a corner can be missing
    const int hole[4] = {0, m - 1, (n - 1) * m, n * m - 1};
    if (gone >= 0) x[hole[gone]] = y[hole[gone]] = MISSING;
    const int pa = at(a, line), pb = at(b, line), pr = region < 0 ? 0 : at(std::max(a, b), region);
    if (x[pa] == MISSING || x[pb] == MISSING || x[pr] == MISSING) return;
    const int id = NewState();
    if (SetCurvi(id, n, m, x, y) != 0) return;
    const CG before = GetCurvi(id);
    Poly land = Land();
    const int rc = region < 0 ? mkernel_curvilinear_snap_to_landboundary(id, land.gl(), x[pa], y[pa], x[pb], y[pb])
                              : mkernel_curvilinear_snap_to_landboundary(id, land.gl(), x[pa], y[pa], x[pb], y[pb], x[pr], y[pr]);
    ms_assert(rc == 0, "a part of a grid line is snapped");
    const CG g = GetCurvi(id);
    ms_assert(g.n == n && g.m == m, "the grid keeps its size");
    bool snapped = true, stay = true, along = true;
    const int lo = std::min(a, b), hi = std::max(a, b);
    for (int i = 0; i < 5; ++i)
        for (int j = 0; j < 4; ++j)
        {
            const int k = at(i, j), s = at(i, line);
            const P was{before.x[k], before.y[k]}, is{g.x[k], g.y[k]};
            const bool same = was.x == is.x && was.y == is.y;
            if (was.x == MISSING || i < lo || i > hi)
            {
                stay &= same;
                continue;
            }
            if (j == line)
            {
                snapped &= Snapped(was, is);
                continue;
            }
            // the others of the selected part follow, at most as far, within the region
            if (region >= 0 && (j < std::min(line, region) || j > std::max(line, region))) stay &= same;
            const P from{before.x[s], before.y[s]}, to{g.x[s], g.y[s]};
            if (from.x == MISSING) stay &= same;
            else
            {
                const double ux = to.x - from.x, uy = to.y - from.y, vx = is.x - was.x, vy = is.y - was.y;
                along &= std::abs(ux * vy - uy * vx) < 1e-9 && ux * vx + uy * vy >= -1e-9 && vx * vx + vy * vy <= ux * ux + uy * uy + 1e-9;
            }
        }
    ms_assert(snapped, "nodes of the selected part are at the nearest point of the land boundary");
    ms_assert(stay, "nodes outside of the selected part or region stay where they are");
    ms_assert(along, "nodes nearby follow, at most as far");
    ms_reach(region < 0 ? "default" : "region");
    bool did = false;
    int mesh = -1;
    ms_assert(mkernel_undo_state(did, mesh) == 0 && did, "the step is undone");
    ms_assert(SameGrid(before, GetCurvi(id)), "undoing gives the grid as it was");
}
// nodes of a mesh stay, or go to the nearest point of the land boundary
MS_HARNESS(mesh)
{
    const int from = ms_pick("from", -2, 4);
    const int to = ms_pick("to", 3, 11);
    const int shape = ms_pick("shape", 0, 3);
    const int select = ms_pick("select", 0, 3);
    const int half = ms_pick("y", -14, ms_thorough() ? 20 : 4);
    const double y = 0.5 * half;
    if (from >= to || (!ms_thorough() && (from + to + half) % 3)) return;
    auto g = Rect(5, 5, 2, 2);
    const int id = NewState();
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
    if (shape & 1) ms_assert(mkernel_mesh2d_delete_node(id, 12) == 0, "a node is deleted");
    const M2 b = Get(id);
    const P a{from + 0.25, y}, z{to + 0.5, shape & 2 ? y - 1.5 : y};
    Poly land({a.x, z.x}, {a.y, z.y}), q;
    double x0 = -50, x1 = 50, y1 = 50;
    if (select == 1) x1 = 3;
    if (select == 2) y1 = 1;
    if (select == 3) x0 = 3;
    if (select) q = Box(x0, -50, x1, y1);
    const int rc = mkernel_mesh2d_snap_to_landboundary(id, q.gl(), land.gl());
    const M2 c = Get(id);
    ms_assert(SameEdges(b, c), "edges stay");
    if (rc != 0)
    {
        ms_assert(SameNodes(b, c), "what is refused changes nothing");
        ms_reach("refused");
        return;
    }
    bool stay = true, near = true, any = false;
    for (int i = 0; i < b.numNodes(); ++i)
    {
        if (!b.validNode(i)) continue;
        const bool same = c.x[i] == b.x[i] && c.y[i] == b.y[i];
        const bool in = b.x[i] > x0 && b.x[i] < x1 && b.y[i] < y1;
        any |= !same;
        if (!in) stay &= same;
        if (same) continue;
        const double ux = z.x - a.x, uy = z.y - a.y;
        double t = ((b.x[i] - a.x) * ux + (b.y[i] - a.y) * uy) / (ux * ux + uy * uy);
        t = t < 0 ? 0 : t > 1 ? 1 : t;
        near &= std::abs(a.x + t * ux - c.x[i]) < 1e-9 && std::abs(a.y + t * uy - c.y[i]) < 1e-9;
    }
    ms_assert(stay, "nodes outside of the polygon stay where they are");
    ms_assert(near, "nodes that move go to the nearest point of the land boundary");
    if (!select && !shape && y <= 0 && y >= -3) ms_assert(c.y[1] == y || from > 2, "the side along a land boundary is snapped");
    ms_reach(any ? "moved" : "stayed");
}
