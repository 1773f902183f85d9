// C24: triangulations use every point given and are Delaunay.
#include "topo.hpp"
#include "geom.hpp"
using namespace mk;
namespace
{
    double Area(const Ring& r)
    {
        double s = 0;
        for (size_t i = 0; i < r.size(); ++i)
        {
            const P a = r[i], b = r[(i + 1) % r.size()];
            s += a.x * b.y - a.y * b.x;
        }
        return std::abs(s) / 2;
    }
    // p relative to the circle through a, b, c (counter clockwise): positive inside
    double InCircle(P a, P b, P c, P p)
    {
        const double ax = a.x - p.x, ay = a.y - p.y, bx = b.x - p.x, by = b.y - p.y, cx = c.x - p.x, cy = c.y - p.y;
        return (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) + (cx * cx + cy * cy) * (ax * by - bx * ay);
    }
    double Angle(P a, P b, P c) // at b, degrees
    {
        const double ux = a.x - b.x, uy = a.y - b.y, vx = c.x - b.x, vy = c.y - b.y;
        return std::atan2(std::abs(ux * vy - uy * vx), ux * vx + uy * vy) * 180 / 3.14159265358979323846;
    }
    bool Shapely(P a, P b, P c, double lo, double hi)
    {
        const double x = Angle(a, b, c), y = Angle(b, c, a), z = Angle(c, a, b);
        return x >= lo && y >= lo && z >= lo && x <= hi && y <= hi && z <= hi;
    }
    std::vector<std::vector<int>> FaceNodes(const M2& m)
    {
        std::vector<std::vector<int>> r;
        int p = 0;
        for (int f = 0; f < m.numFaces(); ++f)
        {
            r.push_back(std::vector<int>(m.fn.begin() + p, m.fn.begin() + p + m.npf[f]));
            p += m.npf[f];
        }
        return r;
    }
    // every well shaped triangle (within the ring) with no other point in its circle is there
    bool Complete(const M2& m, const std::vector<std::vector<int>>& f, const std::vector<P>& s, const Ring* ring)
    {
        bool found = true;
        const int n = (int)s.size();
        for (int i = 0; i < n; ++i)
            for (int j = i + 1; j < n; ++j)
                for (int k = j + 1; k < n; ++k)
                {
                    P a = s[i], b = s[j], c = s[k];
                    if (Cross(a, b, c) < 0) std::swap(b, c);
                    if (ring && !InRing(*ring, {(a.x + b.x + c.x) / 3, (a.y + b.y + c.y) / 3})) continue;
                    if (Cross(a, b, c) < 1e-9 || !Shapely(a, b, c, 5.01, 149.99)) continue;
                    bool alone = true;
                    for (int l = 0; l < n; ++l)
                        if (l != i && l != j && l != k) alone &= InCircle(a, b, c, s[l]) < -1e-6;
                    if (!alone) continue;
                    int got = 0;
                    for (auto& t : f)
                    {
                        if (t.size() != 3) continue;
                        int hit = 0;
                        for (int v : t)
                            for (P p : {a, b, c}) hit += m.x[v] == p.x && m.y[v] == p.y;
                        got += hit == 3;
                    }
                    found &= got == 1;
                }
        return found;
    }
} // namespace
MS_HARNESS(samples)
{
    const int mask = ms_pick("points", 0, 1023);
    const int order = ms_pick("order", 0, 1);
    const int slope = ms_thorough() ? ms_pick("slope", 0, 3) : mask % 4;
    // an irregular set of ten places
    const P all[10] = {{0, 0}, {4, 1}, {9, 0}, {1, 4}, {5, 5}, {8, 4}, {0, 9}, {4, 8}, {10, 9}, {6, 2}};
    std::vector<P> s;
    for (int k = 0; k < 10; ++k)
        if (mask >> k & 1) s.push_back({all[k].x + slope * 0.25 * all[k].y, all[k].y});
    if (order) std::reverse(s.begin(), s.end());
    Poly q;
    for (auto p : s)
    {
        q.x.push_back(p.x);
        q.y.push_back(p.y);
    }
    const int n = (int)s.size();
    const int id = NewState();
    const int rc = mkernel_mesh2d_make_triangular_mesh_from_samples(id, q.gl());
    if (n < 3)
    {
        const M2 m = Get(id);
        ms_assert(m.numFaces() == 0, "fewer than three points give no triangles");
        ms_reach("few");
        return;
    }
    ms_assert(rc == 0, "points are triangulated");
    const M2 m = Get(id);
    const auto f = FaceNodes(m);
    bool ours = true, empty = true;
    double sum = 0;
    for (int i = 0; i < m.numNodes(); ++i)
    {
        bool in = !m.validNode(i);
        for (auto p : s) in |= p.x == m.x[i] && p.y == m.y[i];
        ours &= in;
    }
    for (auto& t : f)
    {
        Ring r;
        for (int i : t) r.push_back(Node(m, i));
        sum += Area(r);
        if (t.size() != 3) continue;
        P a = r[0], b = r[1], c = r[2];
        if (Cross(a, b, c) < 0) std::swap(b, c);
        for (auto p : s) empty &= InCircle(a, b, c, p) < 1e-6;
    }
    ms_assert(ours, "nodes are points given");
    ms_assert(empty, "no point lies within the circle around a triangle");
    ms_assert(Complete(m, f, s, nullptr), "every well shaped triangle with no other point in its circle is there");
    // within the hull
    double x0 = 1e9, x1 = -1e9;
    for (auto p : s) x0 = std::min(x0, p.x), x1 = std::max(x1, p.x);
    std::vector<P> h = s, hull;
    std::sort(h.begin(), h.end(), [](P a, P b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
    for (int pass = 0; pass < 2; ++pass)
    {
        const size_t base = hull.size();
        for (auto p : h)
        {
            while (hull.size() >= base + 2 && Cross(hull[hull.size() - 2], hull.back(), p) <= 0) hull.pop_back();
            hull.push_back(p);
        }
        hull.pop_back();
        std::reverse(h.begin(), h.end());
    }
    ms_assert(sum <= Area(hull) + 1e-9, "triangles do not overlap");
    ms_reach(f.empty() ? "flat" : "made");
}
MS_HARNESS(outline)
{
    const int shape = ms_pick("shape", 0, 4);
    const int per = ms_pick("pieces", 1, ms_thorough() ? 6 : 4);
    const int start = ms_pick("start", 0, ms_thorough() ? 5 : 2);
    const bool back = ms_pick("reverse", 0, 1);
    const bool other = ms_pick("other", 0, 1);
    const Ring shapes[5] = {BoxRing(0, 0, 8, 8), {{0, 0}, {10, 1}, {8, 9}, {-1, 7}}, {{0, 0}, {12, 0}, {12, 6}, {6, 6}, {6, 12}, {0, 12}}, {{0, 0}, {8, 0}, {4, 7}}, {{0, 0}, {8, 0}, {12, 7}, {8, 14}, {0, 14}, {-4, 7}}};
    const Ring& c = shapes[shape];
    Ring r;
    for (size_t i = 0; i < c.size(); ++i)
        for (int k = 0; k < per; ++k)
        {
            const P a = c[i], b = c[(i + 1) % c.size()];
            r.push_back({a.x + (b.x - a.x) * k / per, a.y + (b.y - a.y) * k / per});
        }
    Poly q;
    AddRing(q, r, start, back);
    const int id = NewState();
    int was = 0;
    if (other)
    {
        const auto g = Rect(2, 2, 1, 1, 30, 30);
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
        was = 4;
    }
    ms_assert(mkernel_mesh2d_make_triangular_mesh_from_polygon(id, q.gl()) == 0, "the outline is filled");
    const M2 m = Get(id);
    const auto f = FaceNodes(m);
    bool points = true, in = true, three = true;
    for (auto p : r)
    {
        int got = 0;
        for (int i = 0; i < m.numNodes(); ++i) got += m.x[i] == p.x && m.y[i] == p.y;
        points &= got == 1;
    }
    for (int i = was; i < m.numNodes(); ++i)
        if (m.validNode(i)) in &= OnRing(r, Node(m, i)) || InRing(r, Node(m, i));
    double sum = 0;
    for (auto& t : f)
    {
        Ring g;
        for (int i : t) g.push_back(Node(m, i));
        if (g[0].x >= 30) continue;
        sum += Area(g);
        three &= t.size() == 3;
    }
    ms_assert(points, "points of the outline are nodes");
    ms_assert(in, "nodes lie within the outline");
    ms_assert(three, "cells are triangles");
    ms_assert(sum <= Area(c) + 1e-6, "triangles do not overlap");
    std::vector<P> s;
    for (int i = was; i < m.numNodes(); ++i)
        if (m.validNode(i)) s.push_back(Node(m, i));
    ms_assert(Complete(m, f, s, &r), "every well shaped triangle within the outline with no other point in its circle is there");
    bool kept = true;
    for (int i = 0; i < was; ++i) kept &= m.x[i] >= 30;
    ms_assert(kept, "what was there stays");
    ms_reach(other ? "joined" : "filled");
    bool done = false;
    int mesh = -1;
    ms_assert(mkernel_undo_state(done, mesh) == 0 && done, "the step is undone");
    ms_assert(Get(id).numFaces() == (other ? 1 : 0), "undoing gives the mesh as it was");
}
