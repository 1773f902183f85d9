#pragma once
#include "topo.hpp"
namespace mk
{
    struct P { double x, y; };
    using Ring = std::vector<P>;
    inline double Cross(P a, P b, P p) { return (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x); }
    // p lies on segment a-b
    inline bool OnSegment(P a, P b, P p)
    {
        return (Cross(a, b, p) == 0) & ((p.x - a.x) * (p.x - b.x) <= 0) & ((p.y - a.y) * (p.y - b.y) <= 0);
    }
    inline bool OnRing(const Ring& r, P p)
    {
        bool on = false;
        for (size_t i = 0; i < r.size(); ++i) on |= OnSegment(r[i], r[(i + 1) % r.size()], p);
        return on;
    }
    // strictly inside or outside a simple ring (first point not repeated); p not on the ring
    inline bool InRing(const Ring& r, P p)
    {
        bool in = false;
        for (size_t i = 0; i < r.size(); ++i)
        {
            const P a = r[i], b = r[(i + 1) % r.size()];
            const double c = Cross(a, b, p);
            in ^= ((a.y <= p.y) & (b.y > p.y) & (c > 0)) | ((b.y <= p.y) & (a.y > p.y) & (c < 0));
        }
        return in;
    }
    // the segments cross in their interiors
    inline bool Crosses(P a, P b, P c, P d)
    {
        const double u = Cross(a, b, c), v = Cross(a, b, d), s = Cross(c, d, a), t = Cross(c, d, b);
        return (((u > 0) & (v < 0)) | ((u < 0) & (v > 0))) & (((s > 0) & (t < 0)) | ((s < 0) & (t > 0)));
    }
    inline void AddRing(Poly& g, Ring r, int start = 0, bool reverse = false)
    {
        std::rotate(r.begin(), r.begin() + start % (int)r.size(), r.end());
        if (reverse) std::reverse(r.begin(), r.end());
        r.push_back(r.front());
        for (auto p : r)
        {
            g.x.push_back(p.x);
            g.y.push_back(p.y);
        }
    }
    inline void AddSep(Poly& g, double s)
    {
        g.x.push_back(s);
        g.y.push_back(s);
    }
    inline Ring BoxRing(double x0, double y0, double x1, double y1) { return {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}; }
    inline P Node(const M2& m, int i) { return {m.x[i], m.y[i]}; }
    inline P FaceMean(const M2& m, int f)
    {
        int p = 0;
        for (int i = 0; i < f; ++i) p += m.npf[i];
        P c{0, 0};
        for (int i = 0; i < m.npf[f]; ++i)
        {
            c.x += m.x[m.fn[p + i]];
            c.y += m.y[m.fn[p + i]];
        }
        return {c.x / m.npf[f], c.y / m.npf[f]};
    }
    inline std::vector<int> FaceNodes(const M2& m, int f)
    {
        int p = 0;
        for (int i = 0; i < f; ++i) p += m.npf[i];
        return std::vector<int>(m.fn.begin() + p, m.fn.begin() + p + m.npf[f]);
    }
} // namespace mk
