// C26: the edges and faces that a polygon crosses are told, with where they are crossed.
#include "topo.hpp"
#include "geom.hpp"
#include <MeshKernel/Mesh2D.hpp>
#include <MeshKernel/Mesh2DIntersections.hpp>
using namespace mk;
namespace
{
    struct Hit
    {
        int segment;
        double s, t; // along the segment, along the edge
        double turn; // of the edge against the segment
    };
    double Turn(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
    // where a ring crosses the edge from p to q (never through an end)
    std::vector<Hit> Crossings(const Ring& r, P p, P q)
    {
        std::vector<Hit> h;
        for (size_t k = 0; k < r.size(); ++k)
        {
            const P a = r[k], b = r[(k + 1) % r.size()];
            const double u = Turn(a, b, p), v = Turn(a, b, q), w = Turn(p, q, a), z = Turn(p, q, b);
            if ((u > 0) == (v > 0) || (w > 0) == (z > 0)) continue;
            h.push_back({(int)k, w / (w - z), u / (u - v), (b.x - a.x) * (q.y - p.y) - (b.y - a.y) * (q.x - p.x)});
        }
        return h;
    }
    std::vector<std::vector<int>> FaceEdges(const M2& m)
    {
        std::vector<std::vector<int>> r;
        int k = 0;
        for (int n : m.npf)
        {
            r.emplace_back(m.fe.begin() + k, m.fe.begin() + k + n);
            k += n;
        }
        return r;
    }
    bool Close(double a, double b) { return a - b < 1e-9 && b - a < 1e-9; }
    struct Told
    {
        int rc = 0;
        std::vector<int> nodes, edge, segment, face, count, faceEdge;
        std::vector<double> along, onSegment;
    };
    Told Ask(int id, Poly& q, int edges)
    {
        Told t;
        const int n = 4 * edges + 8;
        t.nodes.assign(2 * n, -77);
        t.edge.assign(n, -77);
        t.segment.assign(n, -77);
        t.face.assign(n, -77);
        t.count.assign(n, -77);
        t.faceEdge.assign(n, -77);
        t.along.assign(n, -77);
        t.onSegment.assign(n, -77);
        t.rc = mkernel_mesh2d_intersections_from_polygon(id, q.gl(), t.nodes.data(), t.edge.data(), t.along.data(), t.onSegment.data(), t.segment.data(), t.face.data(), t.count.data(), t.faceEdge.data());
        return t;
    }
    void Check(int id, const std::vector<Ring>& rings, Poly& q)
    {
        const M2 m = Get(id);
        const Told t = Ask(id, q, m.numEdges());
        ms_assert(t.rc == 0, "crossings are told");
        const M2 after = Get(id);
        ms_assert(SameNodes(m, after) && SameEdges(m, after), "asking changes nothing");
        std::vector<std::vector<Hit>> hits(m.numEdges() * rings.size());
        std::vector<int> crossed(m.numEdges(), 0);
        int want = 0;
        for (int e = 0; e < m.numEdges(); ++e)
        {
            if (!m.validEdge(e)) continue;
            bool ofFace = false;
            for (int f : m.fe) ofFace |= f == e;
            if (!ofFace) continue; // edges on their own are not told
            for (size_t r = 0; r < rings.size(); ++r)
            {
                hits[e * rings.size() + r] = Crossings(rings[r], Node(m, m.e[2 * e]), Node(m, m.e[2 * e + 1]));
                if (!hits[e * rings.size() + r].empty()) crossed[e] |= 1 << r;
            }
            want += crossed[e] != 0;
        }
        bool right = true, where = true, sides = true, order = true;
        std::vector<int> seen(m.numEdges(), 0);
        double last = -1;
        int n = 0;
        for (; t.edge[n] != -77; ++n)
        {
            const int e = t.edge[n];
            if (e < 0 || e >= m.numEdges() || !crossed[e] || seen[e]++)
            {
                right = false;
                continue;
            }
            bool found = false;
            for (size_t r = 0; r < rings.size(); ++r)
                for (auto& h : hits[e * rings.size() + r])
                    if (h.segment == t.segment[n] && Close(h.s, t.onSegment[n]) && Close(h.t, t.along[n]))
                    {
                        found = true;
                        const int a = h.turn < 0 ? m.e[2 * e + 1] : m.e[2 * e], b = h.turn < 0 ? m.e[2 * e] : m.e[2 * e + 1];
                        sides &= t.nodes[2 * n] == a && t.nodes[2 * n + 1] == b;
                    }
            where &= found;
            if (rings.size() == 1)
            {
                double d = 0;
                for (int k = 0; k <= t.segment[n] && k < (int)rings[0].size(); ++k)
                {
                    const P a = rings[0][k], b = rings[0][(k + 1) % rings[0].size()];
                    d += std::hypot(b.x - a.x, b.y - a.y) * (k == t.segment[n] ? t.onSegment[n] : 1);
                }
                order &= d >= last - 1e-9;
                last = d;
            }
        }
        ms_assert(right && n == want, "edges told are the ones crossed, once each");
        ms_assert(where, "where along edge and segment is where they cross");
        ms_assert(sides, "nodes are told from the same side of the polygon");
        ms_assert(order, "crossings are in the order along the polygon");
        ms_assert(t.nodes[2 * n] == -77 && t.along[n] == -77 && t.segment[n] == -77, "no more is told than there is");
        // faces
        const auto fe = FaceEdges(m);
        bool faces = true;
        std::vector<int> had(m.numFaces(), 0);
        int k = 0, f = 0;
        for (; t.count[f] != -77; ++f)
        {
            std::vector<int> got;
            const int face = t.face[k];
            if (face < 0 || face >= m.numFaces() || had[face]++)
            {
                faces = false;
                break;
            }
            for (int i = 0; i < t.count[f]; ++i, ++k)
            {
                faces &= t.face[k] == face;
                got.push_back(t.faceEdge[k]);
            }
            std::vector<int> w;
            for (int e : fe[face])
                for (size_t r = 0; r < rings.size(); ++r)
                    if (crossed[e] >> r & 1) w.push_back(e);
            std::sort(w.begin(), w.end());
            std::sort(got.begin(), got.end());
            faces &= got == w && !w.empty();
        }
        for (int i = 0; i < m.numFaces() && faces; ++i)
        {
            bool any = false;
            for (int e : fe[i]) any |= crossed[e] != 0;
            faces &= any == (had[i] == 1);
        }
        ms_assert(faces, "faces told are the ones of which edges are crossed, with these edges");
        ms_reach(n ? "crossed" : "clear");
    }
    int Mesh(int shape)
    {
        // four by four nodes, two apart
        auto g = Rect(4, 4, 2, 2);
        if (shape == 1)
        {
            // a diagonal, and an edge that belongs to no face
            g.e.push_back(0);
            g.e.push_back(5);
            g.x.push_back(9);
            g.y.push_back(1);
            g.e.push_back(3);
            g.e.push_back(16);
        }
        if (shape == 2)
        {
            g.x[5] += 0.5;
            g.y[10] -= 0.5;
        }
        const int id = NewState();
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
        if (shape == 3) ms_assert(mkernel_mesh2d_delete_node(id, 5) == 0, "a node is deleted");
        return id;
    }
    // corners on edges and crossings in nodes are left out
    bool Touches(int id, const std::vector<Ring>& r)
    {
        const M2 m = Get(id);
        bool t = false;
        for (auto& g : r)
            for (size_t k = 0; k < g.size(); ++k)
            {
                for (int e = 0; e < m.numEdges(); ++e) t |= m.validEdge(e) && Turn(Node(m, m.e[2 * e]), Node(m, m.e[2 * e + 1]), g[k]) == 0;
                for (int i = 0; i < m.numNodes(); ++i) t |= m.validNode(i) && Turn(g[k], g[(k + 1) % g.size()], Node(m, i)) == 0;
            }
        return t;
    }
} // namespace
// triangles and boxes
MS_HARNESS(ring)
{
    const int shape = ms_pick("shape", 0, 3);
    const int a = ms_pick("a", 0, 11);
    const int b = ms_pick("b", 0, 11);
    const int c = ms_pick("c", 0, 11);
    const int d = ms_thorough() ? ms_pick("d", -1, 11) : (a + b) % 3 ? -1 : (5 * a + c) % 12;
    const P at[12] = {{-1.25, -0.75}, {1.125, 0.625}, {3.375, -1.5}, {7.25, -0.5}, {-1.5, 2.875}, {2.625, 2.375}, {4.75, 3.25}, {8.125, 2.5}, {0.875, 5.125}, {5.375, 4.625}, {3.125, 7.5}, {7.75, 7.875}};
    Ring r{at[a], at[b], at[c]};
    if (d >= 0) r.push_back(at[d]);
    for (size_t i = 0; i < r.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            if (r[i].x == r[j].x) return;
    const int id = Mesh(shape);
    if (Touches(id, {r})) return;
    Poly q;
    AddRing(q, r);
    Check(id, {r}, q);
}
// several outlines and holes
MS_HARNESS(more)
{
    const int shape = ms_pick("shape", 0, 3);
    const int two = ms_pick("more", 0, 2);
    const int x = ms_pick("x", -1, 5);
    const int y = ms_pick("y", -1, 5);
    const int w = ms_pick("w", 1, 4);
    const double x0 = x + 0.375, y0 = y + 0.625;
    std::vector<Ring> r{{{x0 - 0.0625, y0}, {x0 + w, y0 + 0.0625}, {x0 + w + 0.125, y0 + w}, {x0, y0 + w + 0.125}}};
    Poly q;
    AddRing(q, r[0]);
    if (two == 1) r.push_back({{7.75, -2.5}, {9.25, -2.25}, {5.125, 4.5}});
    if (two == 2) r.push_back({{x0 + 0.328125 * w, y0 + 0.265625 * w}, {x0 + 0.796875 * w, y0 + 0.328125 * w}, {x0 + 0.515625 * w, y0 + 0.859375 * w}});
    if (two)
    {
        AddSep(q, two == 2 ? INNER : MISSING);
        AddRing(q, r[1]);
    }
    const int id = Mesh(shape);
    if (Touches(id, r)) return;
    Check(id, r, q);
}
// any position of a corner: which edges are crossed
MS_HARNESS(corner)
{
    const int which = ms_pick("which", 0, 2);
    const int k = ms_pick("x", -3, 8);
    const double y = ms_lattice("y", -12, 35, -2);
    if (!ms_thorough() && (k + 9) % 6 != 2 * which) return;
    const double x = k;
    const P c{x + 0.375, y + 0.625};
    Ring r{{-1.3125, -0.6875}, {7.1875, 1.5625}, {2.8125, 7.4375}};
    r[which] = c;
    const int id = Mesh(0);
    const M2 m = Get(id);
    std::vector<meshkernel::Point> nodes, line;
    std::vector<meshkernel::Edge> edges;
    for (int i = 0; i < m.numNodes(); ++i) nodes.emplace_back(m.x[i], m.y[i]);
    for (int e = 0; e < m.numEdges(); ++e) edges.emplace_back(m.e[2 * e], m.e[2 * e + 1]);
    for (int k = 0; k <= 3; ++k) line.emplace_back(r[k % 3].x, r[k % 3].y);
    meshkernel::Mesh2D mesh(edges, nodes, meshkernel::Projection::cartesian);
    meshkernel::Mesh2DIntersections cut(mesh);
    cut.Compute(line);
    const auto& found = cut.EdgeIntersections();
    ms_assert((int)found.size() == m.numEdges(), "each edge has its place");
    bool same = true;
    for (int e = 0; e < m.numEdges(); ++e)
    {
        const P p = Node(m, m.e[2 * e]), z = Node(m, m.e[2 * e + 1]);
        bool hit = false, touch = false;
        for (int k = 0; k < 3; ++k)
        {
            const P a = r[k], b = r[(k + 1) % 3];
            const double s = Turn(a, b, p), u = Turn(a, b, z), v = Turn(p, z, a), w = Turn(p, z, b);
            hit |= (((s > 0) & (u < 0)) | ((s < 0) & (u > 0))) & (((v > 0) & (w < 0)) | ((v < 0) & (w > 0)));
            touch |= (s == 0) | (u == 0) | (v == 0) | (w == 0);
        }
        const bool told = found[e].edgeIndex == (meshkernel::UInt)e;
        same &= touch | (told == hit);
    }
    ms_assert(same, "edges told are the ones crossed, wherever the corner is");
    ms_reach("corner");
}
