#pragma once
#include "mk.hpp"
#include <map>
#include <set>
namespace mk
{
    inline double Area2(const M2& m, const int* n, int k)
    {
        double s = 0;
        for (int i = 0; i < k; ++i)
        {
            const int a = n[i], b = n[(i + 1) % k];
            s += (m.x[a] - m.x[n[0]]) * (m.y[b] - m.y[n[0]]) - (m.x[b] - m.x[n[0]]) * (m.y[a] - m.y[n[0]]);
        }
        return s;
    }
    // The parts of what mesh2d_get_data returns agree with each other. Returns what is wrong, or nullptr.
    inline const char* Inconsistent(const M2& m)
    {
        if (m.rc) return "the mesh cannot be read";
        int nv = 0, ne = 0;
        for (int i = 0; i < m.numNodes(); ++i) nv += m.validNode(i);
        std::set<std::pair<int, int>> seen;
        for (int e = 0; e < m.numEdges(); ++e)
        {
            const int a = m.e[2 * e], b = m.e[2 * e + 1];
            if (!m.validEdge(e))
            {
                if (m.ef[2 * e] >= 0 || m.ef[2 * e + 1] >= 0) return "an unused edge has a face";
                continue;
            }
            ++ne;
            if (a >= m.numNodes() || b >= m.numNodes() || !m.validNode(a) || !m.validNode(b)) return "an edge refers to a node that is not there";
            if (a == b) return "an edge starts and ends in the same node";
            if (!seen.insert({std::min(a, b), std::max(a, b)}).second) return "two edges join the same nodes";
            if (m.ex[e] != 0.5 * (m.x[a] + m.x[b]) || m.ey[e] != 0.5 * (m.y[a] + m.y[b])) return "an edge centre is not half-way its nodes";
        }
        if (m.nvn != nv) return "the number of valid nodes is wrong";
        if (m.nve != ne) return "the number of valid edges is wrong";
        std::vector<std::vector<int>> of(m.numEdges());
        std::set<std::vector<int>> faces;
        int p = 0;
        for (int f = 0; f < m.numFaces(); ++f)
        {
            const int k = m.npf[f];
            if (k < 3 || p + k > (int)m.fn.size()) return "a face has fewer than three nodes";
            for (int i = 0; i < k; ++i)
            {
                const int a = m.fn[p + i], b = m.fn[p + (i + 1) % k], e = m.fe[p + i];
                if (!m.validNode(a)) return "a face refers to a node that is not there";
                if (e < 0 || e >= m.numEdges() || !m.validEdge(e)) return "a face refers to an edge that is not there";
                if (!((m.e[2 * e] == a && m.e[2 * e + 1] == b) || (m.e[2 * e] == b && m.e[2 * e + 1] == a))) return "an edge of a face does not join its nodes";
                of[e].push_back(f);
            }
            std::vector<int> s(m.fn.begin() + p, m.fn.begin() + p + k);
            std::sort(s.begin(), s.end());
            if (std::adjacent_find(s.begin(), s.end()) != s.end()) return "a face uses a node twice";
            if (!faces.insert(s).second) return "a face is reported twice";
            if (!(Area2(m, &m.fn[p], k) > 0)) return "a face is not counter-clockwise";
            p += k;
        }
        if (p != (int)m.fn.size()) return "the number of face nodes is wrong";
        for (int e = 0; e < m.numEdges(); ++e)
        {
            if (of[e].size() > 2) return "an edge has more than two faces";
            std::vector<int> l;
            for (int s = 0; s < 2; ++s)
                if (m.ef[2 * e + s] >= 0) l.push_back(m.ef[2 * e + s]);
            std::sort(l.begin(), l.end());
            if (l != of[e]) return "the faces of an edge are not the faces it belongs to";
        }
        return nullptr;
    }
    inline void CheckTopology(const M2& m)
    {
        const char* w = Inconsistent(m);
        ms_assert(w == nullptr, w ? w : "the parts of the mesh agree");
    }
    inline std::set<std::vector<int>> FaceSets(const M2& m)
    {
        std::set<std::vector<int>> r;
        int p = 0;
        for (int f = 0; f < m.numFaces(); p += m.npf[f], ++f)
        {
            std::vector<int> s(m.fn.begin() + p, m.fn.begin() + p + m.npf[f]);
            std::sort(s.begin(), s.end());
            r.insert(s);
        }
        return r;
    }
    inline double TotalArea2(const M2& m)
    {
        double s = 0;
        int p = 0;
        for (int f = 0; f < m.numFaces(); p += m.npf[f], ++f) s += Area2(m, &m.fn[p], m.npf[f]);
        return s;
    }
} // namespace mk
