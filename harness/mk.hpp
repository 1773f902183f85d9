#pragma once
// Shared harness helpers. Only the public C API and the core classes' public interface used by the repository's own tests.
#include "ms.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <list>
#include <algorithm>
#include <MeshKernelApi/MeshKernel.hpp>
#include <MeshKernelApi/Mesh2D.hpp>
#include <MeshKernelApi/GeometryList.hpp>
#include <MeshKernelApi/Mesh1D.hpp>
#include <MeshKernelApi/Contacts.hpp>
#include <MeshKernelApi/CurvilinearGrid.hpp>
#include <MeshKernelApi/GriddedSamples.hpp>
#include <MeshKernelApi/BoundingBox.hpp>
#include <MeshKernel/Parameters.hpp>

namespace mk
{
    using namespace meshkernelapi;
    constexpr double MISSING = -999.0;
    constexpr double INNER = -998.0;

    // stable name for the k-th instance of an input
    inline const char* nm(const char* b, int k)
    {
        static std::list<std::string> keep;
        keep.push_back(std::string(b) + std::to_string(k));
        return keep.back().c_str();
    }

    struct Poly
    {
        std::vector<double> x, y, v;
        GeometryList g{};
        Poly() = default;
        Poly(std::vector<double> xs, std::vector<double> ys) : x(std::move(xs)), y(std::move(ys)) {}
        Poly(std::vector<double> xs, std::vector<double> ys, std::vector<double> vs) : x(std::move(xs)), y(std::move(ys)), v(std::move(vs)) {}
        GeometryList& gl()
        {
            if (v.size() != x.size()) v.assign(x.size(), 0.0);
            g.geometry_separator = MISSING;
            g.inner_outer_separator = INNER;
            g.num_coordinates = (int)x.size();
            g.coordinates_x = x.data();
            g.coordinates_y = y.data();
            g.values = v.data();
            return g;
        }
    };

    // The complete observable mesh2d state
    struct M2
    {
        int rc = 0;
        std::vector<double> x, y, ex, ey, fx, fy;
        std::vector<int> e, ef, fn, fe, npf;
        int numNodes() const { return (int)x.size(); }
        int numEdges() const { return (int)e.size() / 2; }
        int numFaces() const { return (int)npf.size(); }
        int nvn = 0, nve = 0;
        bool validNode(int i) const { return i >= 0 && i < numNodes() && x[i] != MISSING && y[i] != MISSING; }
        bool validEdge(int i) const { return i >= 0 && i < numEdges() && e[2 * i] >= 0 && e[2 * i + 1] >= 0; }
    };

    inline int SetMesh(int id, const std::vector<double>& x, const std::vector<double>& y, const std::vector<int>& e)
    {
        Mesh2D m{};
        auto xx = x, yy = y;
        auto ee = e;
        m.num_nodes = (int)x.size();
        m.num_edges = (int)e.size() / 2;
        m.node_x = xx.data();
        m.node_y = yy.data();
        m.edge_nodes = ee.data();
        return mkernel_mesh2d_set(id, m);
    }

    inline M2 Get(int id)
    {
        M2 r;
        Mesh2D m{};
        r.rc = mkernel_mesh2d_get_dimensions(id, m);
        if (r.rc) return r;
        r.x.assign(m.num_nodes, 0);
        r.y.assign(m.num_nodes, 0);
        r.e.assign(2 * m.num_edges, -7);
        r.ex.assign(m.num_edges, 0);
        r.ey.assign(m.num_edges, 0);
        r.ef.assign(2 * m.num_edges, -7);
        r.fx.assign(m.num_faces, 0);
        r.fy.assign(m.num_faces, 0);
        r.npf.assign(m.num_faces, 0);
        r.fn.assign(m.num_face_nodes, -7);
        r.fe.assign(m.num_face_nodes, -7);
        r.nvn = m.num_valid_nodes;
        r.nve = m.num_valid_edges;
        m.node_x = r.x.data();
        m.node_y = r.y.data();
        m.edge_nodes = r.e.data();
        m.edge_x = r.ex.data();
        m.edge_y = r.ey.data();
        m.edge_faces = r.ef.data();
        m.face_x = r.fx.data();
        m.face_y = r.fy.data();
        m.face_nodes = r.fn.data();
        m.face_edges = r.fe.data();
        m.nodes_per_face = r.npf.data();
        r.rc = mkernel_mesh2d_get_data(id, m);
        return r;
    }

    // Same valid nodes (same index, same coordinates) and same valid edges (same index, same end nodes). Slots beyond the end count as invalid.
    inline bool SameNodes(const M2& a, const M2& b)
    {
        bool ok = true;
        const int n = std::max(a.numNodes(), b.numNodes());
        for (int i = 0; i < n; ++i)
        {
            const double ax = i < a.numNodes() ? a.x[i] : MISSING, ay = i < a.numNodes() ? a.y[i] : MISSING;
            const double bx = i < b.numNodes() ? b.x[i] : MISSING, by = i < b.numNodes() ? b.y[i] : MISSING;
            ok &= (ax == bx) & (ay == by);
        }
        return ok;
    }
    inline bool SameEdges(const M2& a, const M2& b)
    {
        const int n = std::max(a.numEdges(), b.numEdges());
        for (int i = 0; i < n; ++i)
        {
            const bool va = a.validEdge(i), vb = b.validEdge(i);
            if (va != vb) return false;
            if (va && (a.e[2 * i] != b.e[2 * i] || a.e[2 * i + 1] != b.e[2 * i + 1])) return false;
        }
        return true;
    }
    inline bool SameFaces(const M2& a, const M2& b) { return a.npf == b.npf && a.fn == b.fn && a.fe == b.fe; }

    // nx by ny nodes, unit spacing unless given
    struct Grid
    {
        std::vector<double> x, y;
        std::vector<int> e;
    };
    inline Grid Rect(int nx, int ny, double dx = 1.0, double dy = 1.0, double x0 = 0.0, double y0 = 0.0)
    {
        Grid g;
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i)
            {
                g.x.push_back(x0 + i * dx);
                g.y.push_back(y0 + j * dy);
            }
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i + 1 < nx; ++i)
            {
                g.e.push_back(j * nx + i);
                g.e.push_back(j * nx + i + 1);
            }
        for (int j = 0; j + 1 < ny; ++j)
            for (int i = 0; i < nx; ++i)
            {
                g.e.push_back(j * nx + i);
                g.e.push_back((j + 1) * nx + i);
            }
        return g;
    }
    inline int NewState(int projection = 0)
    {
        int id = -1;
        mkernel_allocate_state(projection, id);
        return id;
    }

    struct M1
    {
        int rc = 0;
        std::vector<double> x, y;
        std::vector<int> e;
        bool operator==(const M1& o) const { return rc == o.rc && x == o.x && y == o.y && e == o.e; }
    };
    inline M1 Get1(int id)
    {
        M1 r;
        Mesh1D m{};
        r.rc = mkernel_mesh1d_get_dimensions(id, m);
        if (r.rc) return r;
        r.x.assign(m.num_nodes, 0);
        r.y.assign(m.num_nodes, 0);
        r.e.assign(2 * m.num_edges, -7);
        m.node_x = r.x.data();
        m.node_y = r.y.data();
        m.edge_nodes = r.e.data();
        r.rc = mkernel_mesh1d_get_data(id, m);
        return r;
    }
    inline int SetMesh1(int id, std::vector<double> x, std::vector<double> y, std::vector<int> e)
    {
        Mesh1D m{};
        m.num_nodes = (int)x.size();
        m.num_edges = (int)e.size() / 2;
        m.node_x = x.data();
        m.node_y = y.data();
        m.edge_nodes = e.data();
        return mkernel_mesh1d_set(id, m);
    }
    struct CT
    {
        int rc = 0;
        std::vector<int> m1, m2;
        bool operator==(const CT& o) const { return rc == o.rc && m1 == o.m1 && m2 == o.m2; }
    };
    inline CT GetContacts(int id)
    {
        CT r;
        Contacts c{};
        r.rc = mkernel_contacts_get_dimensions(id, c);
        if (r.rc) return r;
        r.m1.assign(c.num_contacts, -7);
        r.m2.assign(c.num_contacts, -7);
        c.mesh1d_indices = r.m1.data();
        c.mesh2d_indices = r.m2.data();
        r.rc = mkernel_contacts_get_data(id, c);
        return r;
    }
    struct CG
    {
        int rc = 0, n = 0, m = 0;
        std::vector<double> x, y;
        double X(int i, int j) const { return x[i * m + j]; } // n index, m index
        double Y(int i, int j) const { return y[i * m + j]; }
        bool valid(int i, int j) const { return X(i, j) != MISSING && Y(i, j) != MISSING; }
    };
    inline bool SameGrid(const CG& a, const CG& b)
    {
        if (a.rc != b.rc || a.n != b.n || a.m != b.m) return false;
        bool ok = true;
        for (size_t i = 0; i < a.x.size(); ++i) ok &= (a.x[i] == b.x[i]) & (a.y[i] == b.y[i]);
        return ok;
    }
    inline CG GetCurvi(int id)
    {
        CG r;
        CurvilinearGrid c{};
        r.rc = mkernel_curvilinear_get_dimensions(id, c);
        if (r.rc) return r;
        r.n = c.num_n;
        r.m = c.num_m;
        r.x.assign(c.num_n * c.num_m, 0);
        r.y.assign(c.num_n * c.num_m, 0);
        if (r.x.empty()) return r;
        c.node_x = r.x.data();
        c.node_y = r.y.data();
        r.rc = mkernel_curvilinear_get_data(id, c);
        return r;
    }
    inline int SetCurvi(int id, int n, int m, std::vector<double> x, std::vector<double> y)
    {
        CurvilinearGrid c{};
        c.num_n = n;
        c.num_m = m;
        c.node_x = x.data();
        c.node_y = y.data();
        return mkernel_curvilinear_set(id, c);
    }
    // Everything a user can read back from one state
    struct Snap
    {
        M2 m2;
        M1 m1;
        CT ct;
        CG cg;
        int projection = -1, und = 0, red = 0;
    };
    inline Snap GetSnap(int id)
    {
        Snap s;
        s.m2 = Get(id);
        s.m1 = Get1(id);
        s.ct = GetContacts(id);
        s.cg = GetCurvi(id);
        mkernel_get_projection(id, s.projection);
        mkernel_undo_state_count_for_id(id, s.und, s.red);
        return s;
    }
    inline bool SameSnap(const Snap& a, const Snap& b, bool withUndo = true)
    {
        return a.m2.rc == b.m2.rc && SameNodes(a.m2, b.m2) && SameEdges(a.m2, b.m2) && SameFaces(a.m2, b.m2) && a.m1 == b.m1 && a.ct == b.ct && SameGrid(a.cg, b.cg) && a.projection == b.projection && (!withUndo || (a.und == b.und && a.red == b.red));
    }
    inline Poly Box(double x0, double y0, double x1, double y1) { return Poly({x0, x1, x1, x0, x0}, {y0, y0, y1, y1, y0}); }
} // namespace mk
