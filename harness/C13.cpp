#include "geom.hpp"
using namespace mk;

// C13: contacts between a 1D mesh and the cells of a 2D mesh.
namespace
{
    int Start(int nx, int ny)
    {
        const int id = NewState();
        const auto g = Rect(nx, ny, 4, 4);
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "set");
        return id;
    }
    struct Line
    {
        std::vector<P> n;
        std::vector<int> mask;
    };
    void SetLine(int id, const Line& l)
    {
        std::vector<double> x, y;
        std::vector<int> e;
        for (size_t i = 0; i < l.n.size(); ++i)
        {
            x.push_back(l.n[i].x);
            y.push_back(l.n[i].y);
            if (i)
            {
                e.push_back((int)i - 1);
                e.push_back((int)i);
            }
        }
        ms_assert(SetMesh1(id, x, y, e) == 0, "set 1D");
    }
    std::vector<int> Mask(int n)
    {
        std::vector<int> m;
        for (int i = 0; i < n; ++i)
        {
            const int q = ms_pick(nm("mask", i), 0, 1);
            m.push_back(q);
        }
        return m;
    }
    bool InCell(const M2& m, int f, P p)
    {
        const P c = FaceMean(m, f);
        return p.x > c.x - 2 && p.x < c.x + 2 && p.y > c.y - 2 && p.y < c.y + 2;
    }
    int CellOf(const M2& m, P p)
    {
        for (int f = 0; f < m.numFaces(); ++f)
            if (InCell(m, f, p)) return f;
        return -1;
    }
    bool Rim(const M2& m, int f)
    {
        int q = 0;
        for (int g = 0; g < f; ++g) q += m.npf[g];
        for (int k = 0; k < m.npf[f]; ++k)
            if (m.ef[2 * m.fe[q + k]] < 0 || m.ef[2 * m.fe[q + k] + 1] < 0) return true;
        return false;
    }
    double D2(P a, P b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
    void Valid(const CT& c, const M2& m, const Line& l)
    {
        ms_assert(c.rc == 0, "the contacts can be read");
        for (size_t i = 0; i < c.m1.size(); ++i)
        {
            ms_assert(c.m1[i] >= 0 && c.m1[i] < (int)l.n.size() && c.m2[i] >= 0 && c.m2[i] < m.numFaces(), "a contact joins a node of the 1D mesh and a cell of the 2D mesh");
            ms_assert(l.mask[c.m1[i]] == 1, "only nodes of the mask are connected");
            for (size_t k = 0; k < i; ++k) ms_assert(c.m1[i] != c.m1[k] || c.m2[i] != c.m2[k], "no contact is made twice");
        }
    }
    int Count(const CT& c, int n, int f)
    {
        int k = 0;
        for (size_t i = 0; i < c.m1.size(); ++i) k += (n < 0 || c.m1[i] == n) && (f < 0 || c.m2[i] == f);
        return k;
    }
}
// the cell that holds the node
MS_HARNESS(single)
{
    const int id = Start(4, 3);
    const auto m = Get(id);
    const double x = ms_lattice("x", -2, 6, 1) + 1;
    const double y = ms_lattice("y", -2, 4, 1) + 1;
    Line l{{{1, 1}, {x, y}, {11, 6}}, {}};
    ms_assume((x != 1 || y != 1) && (x != 11 || y != 6));
    l.mask = Mask(3);
    SetLine(id, l);
    const bool part = ms_bool("part");
    Poly g;
    if (part) g = Box(-20, -20, 6, 20);
    ms_assert(mkernel_contacts_compute_single(id, l.mask.data(), g.gl(), 2.0) == 0, "contacts are computed");
    const auto c = GetContacts(id);
    Valid(c, m, l);
    for (int i = 0; i < 3; ++i)
    {
        const int f = CellOf(m, l.n[i]), n = Count(c, i, -1);
        if (!l.mask[i] || (part && l.n[i].x > 6))
        {
            ms_assert(n == 0, "nodes outside the polygon or the mask are not connected");
            continue;
        }
        if (f >= 0) ms_assert(n == 1 && Count(c, i, f) == 1, "a node inside a cell is connected to that cell only");
        else
        {
            ms_assert(n <= 2, "a node outside is connected at most once on each side");
            for (size_t k = 0; k < c.m1.size(); ++k)
                if (c.m1[k] == i) ms_assert(Rim(m, c.m2[k]), "a node outside is connected to a cell at the rim");
            if (n) ms_reach("projected");
        }
        if (f >= 0) ms_reach("inside");
    }
}
// a line below the mesh: its contacts do not cross each other, nor the line
MS_HARNESS(apart)
{
    const int id = Start(6, 3);
    const auto m = Get(id);
    const int shape = ms_pick("shape", 0, 2);
    const double x = ms_lattice("x", 1, ms_thorough() ? 19 : 12, 0) + 0.5;
    const double y = ms_lattice("y", -8, ms_thorough() ? -1 : -4, 0) - 0.5;
    Line l{{{6.5, -1}, {x, y}, {10.5, -1}}, {}};
    if (shape == 1) l = Line{{{2, -0.5}, {4, -1.5}, {x, y}, {11.5, -1}, {13, -0.75}}, {}};
    if (shape == 2) l = Line{{{12, -1}, {x, y}, {9, -0.5}, {5, -1}}, {}};
    for (int i = 0; i < (int)l.n.size(); ++i) l.mask.push_back(1);
    SetLine(id, l);
    const double factor = ms_pick("factor", 1, 3);
    Poly g;
    ms_assert(mkernel_contacts_compute_single(id, l.mask.data(), g.gl(), factor) == 0, "contacts are computed");
    const auto c = GetContacts(id);
    Valid(c, m, l);
    bool apart = true, free = true;
    for (size_t i = 0; i < c.m1.size(); ++i)
    {
        const P a = l.n[c.m1[i]], b = FaceMean(m, c.m2[i]);
        for (size_t k = 0; k < i; ++k) apart &= !Crosses(a, b, l.n[c.m1[k]], FaceMean(m, c.m2[k]));
        for (size_t k = 0; k + 1 < l.n.size(); ++k)
            if ((int)k != c.m1[i] && (int)k + 1 != c.m1[i]) free &= !Crosses(a, b, l.n[k], l.n[k + 1]);
    }
    ms_assert(apart, "no two contacts of nodes outside cross");
    ms_assert(free, "no contact crosses the line");
    if (c.m1.size() > 1) ms_reach("two");
}
// a point selects the cell it lies in and the nearest node
MS_HARNESS(points)
{
    const int id = Start(4, 3);
    const auto m = Get(id);
    Line l{{{1, 1}, {6, 3.5}, {11, 6}}, {}};
    l.mask = Mask(3);
    SetLine(id, l);
    const double x = ms_lattice("x", -2, 6, 1) + 1;
    const double y = ms_lattice("y", -2, 4, 1) + 1;
    const std::vector<P> p{{x, y}, {9.5, 1.5}};
    Poly g({x, 9.5}, {y, 1.5});
    ms_assert(mkernel_contacts_compute_with_points(id, l.mask.data(), g.gl()) == 0, "contacts are computed");
    const auto c = GetContacts(id);
    ms_assert(c.rc == 0, "the contacts can be read");
    size_t at = 0;
    bool any = l.mask[0] + l.mask[1] + l.mask[2] > 0;
    for (int k = 0; k < 2; ++k)
    {
        const int f = CellOf(m, p[k]);
        if (f < 0 || !any) continue;
        ms_assert(at < c.m1.size() && c.m2[at] == f, "a point in a cell makes a contact with it");
        const int n = c.m1[at];
        ms_assert(n >= 0 && n < 3 && l.mask[n] == 1, "only nodes of the mask are connected");
        for (int i = 0; i < 3; ++i)
            if (l.mask[i]) ms_assert(D2(l.n[n], p[k]) <= D2(l.n[i], p[k]), "with the nearest node of the mask");
        ++at;
        ms_reach("connected");
    }
    ms_assert(at == c.m1.size(), "no other contacts");
}
// each polygon connects its nearest pair of node and cell
MS_HARNESS(polygons)
{
    const int id = Start(4, 4);
    const auto m = Get(id);
    const double nx = ms_lattice("nx", -2, 6, 1) + 1;
    Line l{{{1, 1}, {nx, 9.5}, {13, 6}}, {}};
    l.mask = Mask(3);
    SetLine(id, l);
    const double x0 = ms_lattice("x0", -1, 3, 1) + 1;
    const double y0 = ms_lattice("y0", -1, 5, 1) + 1;
    Poly g;
    const std::vector<Ring> r{BoxRing(x0 - 4, y0 - 4, x0 + 4, y0 + 2), BoxRing(9, -3, 15, 15)};
    AddRing(g, r[0]);
    AddSep(g, MISSING);
    AddRing(g, r[1]);
    ms_assert(mkernel_contacts_compute_with_polygons(id, l.mask.data(), g.gl()) == 0, "contacts are computed");
    const auto c = GetContacts(id);
    ms_assert(c.rc == 0, "the contacts can be read");
    size_t at = 0;
    const bool any = l.mask[0] + l.mask[1] + l.mask[2] > 0;
    for (int k = 0; k < 2; ++k)
    {
        double best = 1e9;
        for (int f = 0; f < m.numFaces(); ++f)
        {
            const P q = FaceMean(m, f);
            if (!(q.x > r[k][0].x && q.x < r[k][2].x && q.y > r[k][0].y && q.y < r[k][2].y)) continue;
            if (k == 1 && q.x > r[0][0].x && q.x < r[0][2].x && q.y > r[0][0].y && q.y < r[0][2].y) continue;
            for (int i = 0; i < 3; ++i)
                if (l.mask[i] && D2(q, l.n[i]) < best) best = D2(q, l.n[i]);
        }
        if (best == 1e9 || !any) continue;
        ms_assert(at < c.m1.size(), "a polygon with cells makes a contact");
        const int n = c.m1[at], f = c.m2[at];
        ms_assert(n >= 0 && n < 3 && l.mask[n] == 1 && f >= 0 && f < m.numFaces(), "between a node of the mask and a cell");
        ms_assert(D2(FaceMean(m, f), l.n[n]) == best, "which are nearest to each other");
        const P q = FaceMean(m, f);
        ms_assert(q.x > r[k][0].x && q.x < r[k][2].x && q.y > r[k][0].y && q.y < r[k][2].y, "the cell lies in the polygon");
        ++at;
        ms_reach("connected");
    }
    ms_assert(at == c.m1.size(), "no other contacts");
}
// every rim cell with its nearest node within reach
MS_HARNESS(boundary)
{
    const int id = Start(4, 4);
    const auto m = Get(id);
    const double nx = ms_lattice("nx", -3, 7, 1) + 1;
    const double ny = ms_lattice("ny", -3, 2, 1) + 1;
    Line l{{{-3, 1}, {nx, ny}, {15, 8.5}}, {}};
    ms_assume(nx != -3 || ny != 1);
    l.mask = Mask(3);
    SetLine(id, l);
    const double radius = 1.5 + 2 * ms_pick("radius", 0, 2);
    const bool part = ms_bool("part");
    Poly g;
    if (part) g = Box(-20, -20, 7, 20);
    ms_assert(mkernel_contacts_compute_boundary(id, l.mask.data(), g.gl(), radius) == 0, "contacts are computed");
    const auto c = GetContacts(id);
    Valid(c, m, l);
    for (int f = 0; f < m.numFaces(); ++f)
    {
        const P q = FaceMean(m, f);
        double best = 1e9;
        for (int i = 0; i < 3; ++i)
            if (l.mask[i] && D2(q, l.n[i]) < best) best = D2(q, l.n[i]);
        if (!Rim(m, f) || (part && q.x > 7) || best > radius * radius)
        {
            ms_assert(Count(c, -1, f) == 0, "cells inside the mesh, outside the polygon or out of reach are not connected");
            continue;
        }
        if (best == radius * radius) continue;
        ms_assert(Count(c, -1, f) == 1, "a rim cell within reach is connected once");
        for (size_t k = 0; k < c.m1.size(); ++k)
            if (c.m2[k] == f) ms_assert(D2(q, l.n[c.m1[k]]) == best, "to the nearest node");
        ms_reach("connected");
    }
}
// cells crossed by 1D edges
MS_HARNESS(multiple)
{
    const int id = Start(4, 3);
    const auto m = Get(id);
    const double x = ms_lattice("x", -2, 6, 1) + 1;
    const double y = ms_lattice("y", -2, 4, 1) + 1;
    Line l{{{1.5, 1.25}, {x, y}, {10.75, 6.5}}, {}};
    l.mask = Mask(3);
    SetLine(id, l);
    ms_assert(mkernel_contacts_compute_multiple(id, l.mask.data()) == 0, "contacts are computed");
    const auto c = GetContacts(id);
    Valid(c, m, l);
    for (size_t k = 0; k < c.m1.size(); ++k)
    {
        const int n = c.m1[k], f = c.m2[k];
        ms_assert(Count(c, -1, f) == 1, "a cell is connected once");
        ms_assert(CellOf(m, l.n[n]) >= 0, "the node lies in the 2D mesh");
        const auto v = FaceNodes(m, f);
        bool ok = false;
        for (int e = 0; e < 2; ++e)
        {
            if (n != e && n != e + 1) continue;
            const int o = n == e ? e + 1 : e;
            bool cross = false;
            for (int i = 0; i < 4; ++i) cross |= Crosses(l.n[e], l.n[e + 1], Node(m, v[i]), Node(m, v[(i + 1) % 4])) | OnSegment(l.n[e], l.n[e + 1], Node(m, v[i]));
            ok |= cross & (D2(FaceMean(m, f), l.n[n]) <= D2(FaceMean(m, f), l.n[o]));
        }
        ms_assert(ok, "a 1D edge of the node crosses the cell, and its other node is not nearer");
        ms_reach("connected");
    }
    for (int f = 0; f < m.numFaces(); ++f)
    {
        const auto v = FaceNodes(m, f);
        bool must = false;
        for (int e = 0; e < 2; ++e)
        {
            const double a = D2(FaceMean(m, f), l.n[e]), b = D2(FaceMean(m, f), l.n[e + 1]);
            if (a == b) continue;
            const int n = a < b ? e : e + 1;
            if (!l.mask[n] || CellOf(m, l.n[n]) < 0) continue;
            bool cross = false;
            for (int i = 0; i < 4; ++i) cross |= Crosses(l.n[e], l.n[e + 1], Node(m, v[i]), Node(m, v[(i + 1) % 4]));
            must |= cross & (a <= D2(l.n[e], l.n[e + 1]));
        }
        ms_assert(!must || Count(c, -1, f) == 1, "a cell crossed by an edge and within its length from the start of the edge is connected");
    }
}
