#include "mk.hpp"
using namespace mk;

// C06: selection by polygon, against the definition: inside or on the boundary of an outer ring, and not inside or on one of its holes.
namespace
{
    struct P { double x, y; };
    using Ring = std::vector<P>;
    double Cross(P a, P b, P p) { return (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x); }
    // closed region bounded by a simple ring (first point not repeated)
    bool In(const Ring& r, P p)
    {
        bool in = false;
        for (size_t i = 0; i < r.size(); ++i)
        {
            const P a = r[i], b = r[(i + 1) % r.size()];
            const double c = Cross(a, b, p);
            if (c == 0 && p.x >= std::min(a.x, b.x) && p.x <= std::max(a.x, b.x) && p.y >= std::min(a.y, b.y) && p.y <= std::max(a.y, b.y)) return true;
            if (a.y <= p.y && b.y > p.y && c > 0) in = !in;
            if (b.y <= p.y && a.y > p.y && c < 0) in = !in;
        }
        return in;
    }
    void Add(Poly& g, Ring r, int start, bool reverse)
    {
        std::rotate(r.begin(), r.begin() + start % (int)r.size(), r.end());
        if (reverse) std::reverse(r.begin(), r.end());
        r.push_back(r.front());
        for (auto p : r)
        {
            g.x.push_back(p.x);
            g.y.push_back(p.y);
        }
    }
    void Sep(Poly& g, double s)
    {
        g.x.push_back(s);
        g.y.push_back(s);
    }
    Ring Square(double x, double y, double h) { return {{x, y}, {x + h, y}, {x + h, y + h}, {x, y + h}}; }
    double Selected(int id, Poly& sel, P p)
    {
        Poly pts({p.x}, {p.y}), out({p.x}, {p.y}, {-7});
        ms_assert(mkernel_polygon_get_included_points(id, sel.gl(), pts.gl(), out.gl()) == 0, "selection succeeds");
        return out.v[0];
    }
    std::vector<int> Nodes(int id, Poly& sel, int inside)
    {
        int n = -1;
        ms_assert(mkernel_mesh2d_count_nodes_in_polygons(id, sel.gl(), inside, n) == 0 && n >= 0, "count succeeds");
        std::vector<int> s(n + 4, -5);
        ms_assert(mkernel_mesh2d_get_nodes_in_polygons(id, sel.gl(), inside, s.data()) == 0, "nodes succeed");
        for (int k = n; k < n + 4; ++k) ms_assert(s[k] == -5, "no more nodes are returned than counted");
        s.resize(n);
        return s;
    }
    void CheckNodes(int id, Poly& sel, const std::vector<bool>& in)
    {
        const auto m = Get(id);
        for (int inside = 0; inside < 2; ++inside)
        {
            std::vector<int> want;
            for (int i = 0; i < m.numNodes(); ++i)
                if (m.validNode(i) && in[i] == (inside == 1)) want.push_back(i);
            ms_assert(Nodes(id, sel, inside) == want, inside ? "exactly the nodes inside are selected" : "exactly the nodes outside are selected");
        }
    }
} // namespace
// a concave or convex quadrilateral with one symbolic corner, a symbolic point; any start corner and orientation
MS_HARNESS(quad)
{
    const double dx = ms_lattice("dx", 0, 4, -1);
    const double dy = ms_lattice("dy", 4, 8, -1);
    const double px = ms_lattice("px", -1, 9, -1);
    const double py = ms_lattice("py", -1, 9, -1);
    const int start = ms_pick("start", 0, 3);
    const int rev = ms_pick("reverse", 0, 1);
    const Ring r{{0.5, 0}, {3, 1}, {4, 4}, {dx, dy}};
    Poly sel;
    Add(sel, r, start, rev == 1);
    const int id = NewState();
    const bool in = In(r, {px, py});
    ms_assert(Selected(id, sel, {px, py}) == (in ? 1.0 : 0.0), "a point is selected exactly when it is inside");
    if (in) ms_reach("in");
    else ms_reach("out");
}
// an arbitrary triangle
MS_HARNESS(triangle)
{
    const double ax = ms_lattice("ax", 0, 3, 0);
    const double ay = ms_lattice("ay", 0, 3, 0);
    const double bx = ms_lattice("bx", 0, 3, 0);
    const double by = ms_lattice("by", 0, 3, 0);
    const double px = ms_lattice("px", 0, 6, -1);
    const double py = ms_lattice("py", 0, 6, -1);
    const Ring r{{1, 3}, {ax, ay}, {bx, by}};
    ms_assume(Cross(r[0], r[1], r[2]) != 0);
    Poly sel;
    Add(sel, r, 0, false);
    const int id = NewState();
    ms_assert(Selected(id, sel, {px, py}) == (In(r, {px, py}) ? 1.0 : 0.0), "a point is selected exactly when it is inside");
    ms_reach("triangle");
}
// one polygon with two holes and a second polygon with one: nodes of a mesh
MS_HARNESS(holes)
{
    const double hx = ms_lattice("hx", 0, 4, -1);
    const double hy = ms_lattice("hy", 0, 4, -1);
    const double qx = ms_lattice("qx", 10, 14, -1);
    const double hs = ms_lattice("size", 1, 2, -1);
    const int rev = ms_pick("reverse", 0, 3);
    const Ring o1{{-0.5, -0.5}, {4.25, -0.5}, {4.25, 4.25}, {-0.5, 3.5}};
    const Ring i1 = Square(hx, hy, hs), i2 = Square(3.25, 2.75, 0.5), o2 = Square(qx, 1, 2), i3 = Square(qx + 0.75, 1.5, 0.75);
    Poly sel;
    Add(sel, o1, 0, rev & 1);
    Sep(sel, INNER);
    Add(sel, i1, 1, rev & 2);
    Sep(sel, INNER);
    Add(sel, i2, 2, rev & 1);
    Sep(sel, MISSING);
    Add(sel, o2, 3, rev & 2);
    Sep(sel, INNER);
    Add(sel, i3, 0, rev & 1);
    const int id = NewState();
    auto g = Rect(9, 5);
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "mesh accepted");
    if (ms_pick("hole", 0, 1)) ms_assert(mkernel_mesh2d_delete_node(id, 16) == 0, "node deleted");
    std::vector<bool> in;
    for (size_t i = 0; i < g.x.size(); ++i)
    {
        const P p{g.x[i], g.y[i]};
        in.push_back((In(o1, p) && !In(i1, p) && !In(i2, p)) || (In(o2, p) && !In(i3, p)));
    }
    CheckNodes(id, sel, in);
    ms_reach("holes");
}
// a symbolic triangle over a mesh with one symbolic node; no polygon selects everything
MS_HARNESS(nodes)
{
    const double ax = ms_lattice("ax", 0, 8, -1);
    const double ay = ms_lattice("ay", 0, 8, -1);
    const int id = NewState();
    auto g = Rect(4, 4);
    const double nx = ms_lattice("nx", -1, 1, -2);
    g.x[5] += nx;
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "mesh accepted");
    const Ring r{{-0.5, 1}, {3, -1}, {ax, ay}};
    ms_assume(Cross(r[0], r[1], r[2]) > 0);
    Poly sel;
    Add(sel, r, 0, false);
    std::vector<bool> in;
    for (size_t i = 0; i < g.x.size(); ++i) in.push_back(In(r, {g.x[i], g.y[i]}));
    CheckNodes(id, sel, in);
    Poly none;
    ms_assert(Nodes(id, none, 1).size() == g.x.size(), "no polygon selects all nodes");
    ms_reach("nodes");
}
