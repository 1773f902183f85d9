#include "geom.hpp"
using namespace mk;

// C10: deleting the part of a mesh in polygons removes exactly the cells the option selects.
namespace
{
    struct Region
    {
        std::vector<Ring> outer, holes;
        Poly g;
    };
    // outer rings, holes belong to the ring with the same index
    Region Make(std::vector<Ring> outer, std::vector<Ring> holes = {}, int start = 0, bool rev = false)
    {
        Region r{outer, holes, {}};
        for (size_t i = 0; i < outer.size(); ++i)
        {
            if (i) AddSep(r.g, MISSING);
            AddRing(r.g, outer[i], start, rev);
            if (i < holes.size() && !holes[i].empty())
            {
                AddSep(r.g, INNER);
                AddRing(r.g, holes[i]);
            }
        }
        return r;
    }
    bool In(const Region& r, P p)
    {
        bool in = false;
        for (size_t i = 0; i < r.outer.size(); ++i) in |= InRing(r.outer[i], p) & !(i < r.holes.size() && !r.holes[i].empty() && InRing(r.holes[i], p));
        return in;
    }
    bool Touches(const Region& r, P p)
    {
        bool on = false;
        for (auto& o : r.outer) on |= OnRing(o, p);
        for (auto& h : r.holes) on |= OnRing(h, p);
        return on;
    }
    bool Cuts(const Region& r, P a, P b)
    {
        bool c = false;
        for (auto* l : {&r.outer, &r.holes})
            for (auto& o : *l)
                for (size_t i = 0; i < o.size(); ++i) c |= Crosses(o[i], o[(i + 1) % o.size()], a, b);
        return c;
    }
    // no polygon vertex on a mesh edge, no node (or cell centre) on the polygon
    void General(const Region& r, const M2& m, int option)
    {
        bool bad = false;
        for (int i = 0; i < m.numNodes(); ++i) bad |= Touches(r, Node(m, i));
        for (int e = 0; e < m.numEdges(); ++e)
            for (auto* l : {&r.outer, &r.holes})
                for (auto& o : *l)
                    for (auto p : o) bad |= OnSegment(Node(m, m.e[2 * e]), Node(m, m.e[2 * e + 1]), p);
        if (option == 2)
            for (int f = 0; f < m.numFaces(); ++f) bad |= Touches(r, FaceMean(m, f));
        ms_assume(!bad);
    }
    // an edge without cells is selected as a cell would be
    char loose(const Region& r, const M2& m, int option, int e, const std::vector<char>& inside, const std::vector<char>& cut)
    {
        const int a = m.e[2 * e], b = m.e[2 * e + 1];
        if (option == 0) return inside[a] & inside[b] & (cut[e] ^ 1);
        if (option == 1) return (inside[a] & inside[b]) | cut[e];
        return In(r, {0.5 * (m.x[a] + m.x[b]), 0.5 * (m.y[a] + m.y[b])});
    }
    void Delete(int id, Region& r, bool general = true, int options = 2)
    {
        const int option = ms_pick("option", 0, options);
        const bool inv = ms_bool("invert");
        const auto m = Get(id);
        if (!general) General(r, m, option);
        std::vector<char> inside(m.numNodes()), cut(m.numEdges()), keep(m.numFaces());
        for (int i = 0; i < m.numNodes(); ++i) inside[i] = In(r, Node(m, i));
        for (int e = 0; e < m.numEdges(); ++e) cut[e] = Cuts(r, Node(m, m.e[2 * e]), Node(m, m.e[2 * e + 1]));
        for (int f = 0, p = 0; f < m.numFaces(); p += m.npf[f], ++f)
        {
            char all = 1, c = 0, sel;
            for (int k = 0; k < m.npf[f]; ++k)
            {
                all &= inside[m.fn[p + k]];
                c |= cut[m.fe[p + k]];
            }
            if (option == 0) sel = all & (c ^ 1);
            else if (option == 1) sel = all | c;
            else sel = In(r, FaceMean(m, f));
            keep[f] = sel ^ (inv ? 0 : 1);
        }
        ms_assert(mkernel_mesh2d_delete(id, r.g.gl(), option, inv) == 0, "deleting succeeds");
        const auto a = Get(id);
        CheckTopology(a);
        bool same = true, nodes = true;
        int left = 0;
        std::vector<char> used(m.numNodes(), 0);
        for (int e = 0; e < m.numEdges(); ++e)
        {
            char stays = 0;
            for (int s = 0; s < 2; ++s)
                if (m.ef[2 * e + s] >= 0) stays |= keep[m.ef[2 * e + s]];
            if (m.ef[2 * e] < 0 && m.ef[2 * e + 1] < 0) stays = loose(r, m, option, e, inside, cut) ^ (inv ? 0 : 1);
            const bool is = a.validEdge(e);
            same &= stays == (is ? 1 : 0);
            if (is)
            {
                ++left;
                ms_assert(a.e[2 * e] == m.e[2 * e] && a.e[2 * e + 1] == m.e[2 * e + 1], "a remaining edge joins the same nodes");
                used[m.e[2 * e]] = used[m.e[2 * e + 1]] = 1;
            }
        }
        ms_assert(same, "an edge stays just when one of its cells is not selected");
        ms_assert(a.nve == left, "no other edges appear");
        for (int i = 0; i < m.numNodes(); ++i)
        {
            nodes &= a.validNode(i) == (used[i] == 1);
            if (used[i]) nodes &= a.x[i] == m.x[i] && a.y[i] == m.y[i];
        }
        ms_assert(nodes, "the nodes of the remaining edges stay where they are, the other nodes are gone");
        ms_reach(left ? "some left" : "none left");
        if (left < m.numEdges()) ms_reach("some gone");
    }
    int Start(int nx, int ny)
    {
        const int id = NewState();
        const auto g = Rect(nx, ny, 4, 4);
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "set");
        return id;
    }
    // rectangles with some of the cells cut into triangles
    int StartMixed()
    {
        const int id = NewState();
        auto g = Rect(4, 3, 4, 4);
        for (int k : {0, 5, 1, 6, 9, 6}) g.e.push_back(k);
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "set");
        return id;
    }
}

// cells are 4 wide: odd coordinates are never on a node, an edge or a centre
MS_HARNESS(box)
{
    const int id = ms_thorough() ? Start(4, 4) : Start(4, 3);
    const double x0 = ms_lattice("x0", -2, 5, 1) + 1;
    const double x1 = ms_lattice("x1", -1, 6, 1) + 1;
    const double y0 = ms_lattice("y0", -2, 3, 1) + 1;
    const double y1 = ms_lattice("y1", -1, ms_thorough() ? 6 : 4, 1) + 1;
    ms_assume(x0 < x1 && y0 < y1);
    const int start = ms_pick("start", 0, ms_thorough() ? 3 : 1);
    auto r = Make({BoxRing(x0, y0, x1, y1)}, {}, start, start & 1);
    Delete(id, r);
}
// edges without cells beside the mesh and in it
MS_HARNESS(loose_edges)
{
    const int id = NewState();
    auto g = Rect(4, 3, 4, 4);
    for (P p : {P{14.5, 4}, P{18, 4}, P{18, 6.5}, P{5.5, 2.5}}) { g.x.push_back(p.x); g.y.push_back(p.y); }
    for (int k : {3, 12, 12, 13, 13, 14, 1, 15}) g.e.push_back(k);
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "set");
    const double x0 = ms_lattice("x0", ms_thorough() ? -1 : 1, 9, 1) + 1;
    const double x1 = ms_lattice("x1", ms_thorough() ? 0 : 4, 10, 1) + 1;
    const double y0 = ms_lattice("y0", -1, ms_thorough() ? 2 : 1, 1) + 1;
    const double y1 = ms_lattice("y1", 0, ms_thorough() ? 4 : 3, 1) + 1;
    ms_assume(x0 < x1 && y0 < y1);
    auto r = Make({BoxRing(x0, y0, x1, y1)});
    Delete(id, r, true, 2);
}
MS_HARNESS(triangle)
{
    const bool mixed = ms_bool("mixed");
    const int id = mixed ? StartMixed() : Start(4, 3);
    const double x = ms_lattice("x", 0, ms_thorough() ? 13 : 7, 0);
    const double y = ms_lattice("y", 3, 9, 0);
    auto r = Make({{{-1, -1}, {13, 1}, {x, y}}});
    Delete(id, r, false, mixed ? 1 : 2);
}
MS_HARNESS(hole)
{
    const int id = Start(5, 4);
    const double x = ms_lattice("x", 0, 6, 1) + 1;
    const double y = ms_lattice("y", 0, 4, 1) + 1;
    const double h = ms_lattice("h", 1, 3, 1);
    auto r = Make({BoxRing(-1, -1, 23, 17)}, {BoxRing(x, y, x + h, y + h)});
    Delete(id, r);
}
MS_HARNESS(two)
{
    const int id = Start(5, 3);
    const double x = ms_lattice("x", -2, 3, 1) + 1;
    const double y = ms_lattice("y", -2, 3, 1) + 1;
    const double z = 15 + 2 * ms_pick("z", 0, ms_thorough() ? 2 : 1);
    auto r = Make({BoxRing(13, -1, z, 9), BoxRing(x, y, x + 6, y + 4)});
    Delete(id, r);
}
MS_HARNESS(concave)
{
    const int id = Start(4, 4);
    const double x = ms_lattice("x", -1, 10, 0);
    const double y = ms_lattice("y", 0, ms_thorough() ? 12 : 5, 0);
    // the last vertex makes a notch in a square
    auto r = Make({{{-2, -2}, {14, -2}, {14, 14}, {x, y}, {-2, 14}}});
    Delete(id, r, false);
}
MS_HARNESS(everything)
{
    const int id = StartMixed();
    const auto m = Get(id);
    const int option = ms_pick("option", 0, 2);
    const bool inv = ms_bool("invert");
    Poly none;
    ms_assert(mkernel_mesh2d_delete(id, none.gl(), option, inv) == 0, "deleting succeeds");
    const auto a = Get(id);
    ms_assert(a.nve == (inv ? m.nve : 0), "no polygon selects the whole mesh");
}
