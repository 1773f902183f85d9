// C29: what an operation does depends on the mesh as it is, not on how it came to be.
#include "topo.hpp"
#include "geom.hpp"
#include <MeshKernel/Mesh2D.hpp>
#include <MeshKernel/Parameters.hpp>
#include <functional>
using namespace mk;
namespace
{
    using Row = std::vector<long long>;
    long long Q(double v) { return std::llround(v * 1e6); }
    using Table = std::vector<Row>;
    struct Result
    {
        int rc = -77;
        Table told;              // what was told, in the order of the places
        std::set<Row> nodes, edges; // the mesh afterwards
        bool operator==(const Result& o) const { return (rc != 0) == (o.rc != 0) && told == o.told && nodes == o.nodes && edges == o.edges; }
    };
    void Mesh(int id, Result& r)
    {
        const M2 m = Get(id);
        for (int e = 0; e < m.numEdges(); ++e)
        {
            if (!m.validEdge(e)) continue;
            const int a = m.e[2 * e], b = m.e[2 * e + 1];
            Row p{Q(m.x[a]), Q(m.y[a])}, q{Q(m.x[b]), Q(m.y[b])};
            r.nodes.insert(p);
            r.nodes.insert(q);
            if (q < p) std::swap(p, q);
            p.insert(p.end(), q.begin(), q.end());
            r.edges.insert(p);
        }
    }
    Poly Box(double x0, double y0, double x1, double y1) { return Poly({x0, x1, x1, x0, x0}, {y0, y0, y1, y1, y0}); }
    void Points(const GeometryList& g, int n, Table& t, bool values = false)
    {
        for (int i = 0; i < n; ++i)
        {
            Row r{Q(g.coordinates_x[i]), Q(g.coordinates_y[i])};
            if (values) r.push_back(Q(g.values[i]));
            t.push_back(r);
        }
    }
    Poly Room(int n) { return Poly(std::vector<double>(n, -77), std::vector<double>(n, -77), std::vector<double>(n, -77)); }
    const double X[4] = {0, 1, 3, 4.5}, Y[4] = {0, 2, 3, 5};
    constexpr int numEdits = 9;
    bool Edit(int id, int what, int at)
    {
        int k = -1;
        bool done = false;
        switch (what)
        {
        case 0: return mkernel_mesh2d_delete_node(id, at) == 0;
        case 1: return mkernel_mesh2d_move_node(id, X[at % 4] + 0.25, Y[at / 4] - 0.25, at) == 0;
        case 2: // a diagonal
            if (at % 4 == 3 || at / 4 == 3) return false;
            return mkernel_mesh2d_insert_edge(id, at, at + 5, k) == 0;
        case 3: // an edge between neighbours is taken away
            if (at % 4 == 3) return false;
            return mkernel_mesh2d_delete_edge(id, (X[at % 4] + X[at % 4 + 1]) / 2, Y[at / 4], -50, -50, 50, 50) == 0;
        case 4:
            if (at % 4 == 3) return false;
            return mkernel_mesh2d_merge_two_nodes(id, at, at + 1) == 0;
        case 5: // a node outside, joined to one of the others
            if (mkernel_mesh2d_insert_node(id, -2, -3, k) != 0) return false;
            return mkernel_mesh2d_insert_edge(id, at, k, k) == 0;
        case 6: // undone
            if (mkernel_mesh2d_delete_node(id, at) != 0) return false;
            mkernel_mesh2d_count_hanging_edges(id, k);
            return mkernel_undo_state(done, k) == 0 && done;
        case 7: // and done again
            if (mkernel_mesh2d_delete_node(id, at) != 0) return false;
            if (mkernel_undo_state(done, k) != 0 || !done) return false;
            mkernel_mesh2d_count_hanging_edges(id, k);
            return mkernel_redo_state(done, k) == 0 && done;
        default:
        {
            if (at % 4 == 3 || at / 4 == 3) return false;
            auto b = Box(X[at % 4] - 0.125, Y[at / 4] - 0.125, X[at % 4 + 1] + 0.125, Y[at / 4 + 1] + 0.125);
            return mkernel_mesh2d_delete(id, b.gl(), 2, 0) == 0;
        }
        }
    }
    int Start()
    {
        auto g = Rect(4, 4, 1, 1);
        for (int i = 0; i < 16; ++i)
        {
            g.x[i] = X[i % 4];
            g.y[i] = Y[i / 4];
        }
        // a triangle
        g.e.push_back(5);
        g.e.push_back(10);
        const int id = NewState();
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
        return id;
    }
    meshkernel::MeshRefinementParameters Refinement(int hanging)
    {
        meshkernel::MeshRefinementParameters p;
        p.max_num_refinement_iterations = 1;
        p.refine_intersected = 0;
        p.use_mass_center_when_refining = 0;
        p.min_edge_size = 0.1;
        p.refinement_type = 2;
        p.connect_hanging_nodes = hanging;
        p.account_for_samples_outside = 0;
        p.smoothing_iterations = 0;
        p.directional_refinement = 0;
        return p;
    }
    constexpr int numOps = 51;
    Result Do(int id, int op)
    {
        Result r;
        Poly in = Box(0.5, 0.5, 3.5, 4), none, out = Room(400);
        Poly land({-1, 6}, {-0.2, -0.3});
        Poly samples({0.5, 2, 3.5, 1.5, 2.5, 4.25, -0.5, 5, 2, 0.25}, {1, 2.5, 4, 4.5, 0.5, 2.5, -0.5, 5.5, 1, 4.75}, {3, 4, 5, 6, 7, 8, 9, 10, 11, 12});
        int n = -1, k = -1;
        switch (op)
        {
        case 0: case 1: case 2: case 3: case 4: case 5:
            r.rc = mkernel_mesh2d_delete(id, in.gl(), op / 2, op % 2);
            break;
        case 6: r.rc = mkernel_mesh2d_refine_based_on_polygon(id, in.gl(), Refinement(1)); break;
        case 7: r.rc = mkernel_mesh2d_refine_based_on_polygon(id, none.gl(), Refinement(0)); break;
        case 8: r.rc = mkernel_mesh2d_casulli_refinement(id); break;
        case 9: r.rc = mkernel_mesh2d_casulli_derefinement(id); break;
        case 10: r.rc = mkernel_mesh2d_casulli_refinement_on_polygon(id, in.gl()); break;
        case 11: r.rc = mkernel_mesh2d_casulli_derefinement_on_polygon(id, in.gl()); break;
        case 12: case 13: r.rc = mkernel_mesh2d_flip_edges(id, op - 12, 0, none.gl(), none.gl()); break;
        case 14:
        {
            meshkernel::OrthogonalizationParameters p;
            p.outer_iterations = 1;
            p.boundary_iterations = 2;
            p.inner_iterations = 2;
            r.rc = mkernel_mesh2d_compute_orthogonalization(id, 0, p, none.gl(), none.gl());
            break;
        }
        case 15:
            r.rc = mkernel_mesh2d_count_mesh_boundaries_as_polygons(id, n);
            r.told.push_back({n});
            break;
        case 16:
        {
            auto& g = out.gl();
            r.rc = mkernel_mesh2d_get_mesh_boundaries_as_polygons(id, g);
            break;
        }
        case 17:
            r.rc = mkernel_mesh2d_count_small_flow_edge_centers(id, 0.9, n);
            r.told.push_back({n});
            break;
        case 18:
            r.rc = mkernel_mesh2d_count_obtuse_triangles(id, n);
            r.told.push_back({n});
            break;
        case 19:
            r.rc = mkernel_mesh2d_count_hanging_edges(id, n);
            r.told.push_back({n});
            break;
        case 20: r.rc = mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(id, 0.6, 0.6); break;
        case 21: r.rc = mkernel_mesh2d_delete_hanging_edges(id); break;
        case 22: r.rc = mkernel_mesh2d_merge_nodes(id, none.gl()); break;
        case 23: r.rc = mkernel_mesh2d_merge_nodes_with_merging_distance(id, in.gl(), 1.25); break;
        case 24: r.rc = mkernel_mesh2d_translate(id, 1, 2); break;
        case 25: r.rc = mkernel_mesh2d_rotate(id, 1, 2, 90); break;
        case 26: r.rc = mkernel_mesh2d_remove_disconnected_regions(id); break;
        case 27: r.rc = mkernel_mesh2d_snap_to_landboundary(id, none.gl(), land.gl()); break;
        case 28: r.rc = mkernel_mesh2d_refine_based_on_samples(id, samples.gl(), 1.0, 1, Refinement(1)); break;
        case 29:
            r.rc = mkernel_mesh2d_count_nodes_in_polygons(id, in.gl(), 1, n);
            r.told.push_back({n});
            break;
        case 30:
            for (int q = 3; q <= 6; ++q)
            {
                n = -1;
                r.rc = mkernel_mesh2d_get_face_polygons_dimension(id, q, n);
                r.told.push_back({n});
            }
            break;
        case 31:
            r.rc = mkernel_mesh2d_convert_to_curvilinear(id, 2, 2.5);
            break;
        case 32:
        {
            auto& g = out.gl();
            r.rc = mkernel_mesh2d_casulli_derefinement_elements(id, g);
            if (r.rc == 0) Points(g, g.num_coordinates, r.told);
            std::sort(r.told.begin(), r.told.end());
            break;
        }
        case 33:
        {
            std::vector<int> a(400, -77), b(400, -77), c(400, -77), d(400, -77), e(400, -77), f(400, -77);
            std::vector<double> s(400, -77), t(400, -77);
            r.rc = mkernel_mesh2d_intersections_from_polygon(id, in.gl(), a.data(), b.data(), s.data(), t.data(), c.data(), d.data(), e.data(), f.data());
            for (int i = 0; i < 400; ++i)
                if (s[i] != -77) r.told.push_back({Q(s[i]), Q(t[i]), c[i]});
            std::sort(r.told.begin(), r.told.end());
            break;
        }
        case 34:
        {
            r.rc = SetMesh1(id, {0.4, 1.6, 2.8, 4}, {0.6, 1.4, 2.2, 3}, {0, 1, 1, 2, 2, 3});
            std::vector<int> mask(4, 1);
            r.rc = mkernel_contacts_compute_single(id, mask.data(), none.gl(), 0.0);
            break;
        }
        case 35:
        {
            r.rc = SetMesh1(id, {0.4, 1.6, 2.8, 4}, {0.6, 1.4, 2.2, 3}, {0, 1, 1, 2, 2, 3});
            std::vector<int> mask(4, 1);
            r.rc = mkernel_contacts_compute_multiple(id, mask.data());
            break;
        }
        case 36:
        {
            r.rc = SetMesh1(id, {-0.4, 1.6, 2.8, 5}, {-0.6, 1.4, 2.2, 5.5}, {0, 1, 1, 2, 2, 3});
            std::vector<int> mask(4, 1);
            r.rc = mkernel_contacts_compute_boundary(id, mask.data(), none.gl(), 2.0);
            break;
        }
        case 37:
            r.rc = mkernel_mesh2d_get_filtered_face_polygons_dimension(id, 0, 0.0, 0.3, n);
            r.told.push_back({n});
            break;
        case 38:
        {
            auto g = Rect(2, 3, 1, 1, 4.5, 0);
            Mesh2D o{};
            o.num_nodes = 6;
            o.num_edges = (int)g.e.size() / 2;
            o.node_x = g.x.data();
            o.node_y = g.y.data();
            o.edge_nodes = g.e.data();
            r.rc = mkernel_mesh2d_connect_meshes(id, o, 0.4);
            break;
        }
        case 39: case 40: case 41:
        {
            const BoundingBox bb{-50, -50, 50, 50};
            for (int q = 0; q < 16; ++q)
            {
                int i = -1;
                const int c = mkernel_mesh2d_get_location_index(id, X[q % 4] + 0.3, Y[q / 4] + 0.4, op - 39, bb, i);
                r.told.push_back({c != 0, i});
            }
            r.rc = 0;
            break;
        }
        case 42: case 43:
            for (int q = 0; q < 16; ++q)
            {
                double px = -77, py = -77;
                int c;
                if (op == 42) c = mkernel_mesh2d_get_closest_node(id, X[q % 4] + 0.3, Y[q / 4] + 0.4, 0.7, -50, -50, 50, 50, px, py);
                else
                {
                    c = mkernel_mesh2d_get_edge(id, X[q % 4] + 0.3, Y[q / 4] + 0.1, -50, -50, 50, 50, k);
                    px = k;
                }
                r.told.push_back({c != 0, Q(px), Q(py)});
            }
            r.rc = 0;
            break;
        case 44: case 45: case 46:
        {
            // values at nodes, edges and faces, where these are
            const M2 m = Get(id);
            const int loc = op == 44 ? 1 : op == 45 ? 2 : 0, size = op == 44 ? m.numNodes() : op == 45 ? m.numEdges() : m.numFaces();
            Poly v = Room(size);
            r.rc = mkernel_mesh2d_triangulation_interpolation(id, samples.gl(), loc, v.gl());
            for (int i = 0; i < size && r.rc == 0; ++i)
            {
                const bool valid = op == 44 ? m.validNode(i) : op == 45 ? m.validEdge(i) : true;
                if (valid) r.told.push_back({Q(v.g.values[i])});
            }
            break;
        }
        case 47: case 48:
        {
            const M2 m = Get(id);
            const int size = op == 47 ? m.numNodes() : m.numFaces();
            Poly v = Room(size);
            r.rc = mkernel_mesh2d_averaging_interpolation(id, samples.gl(), op == 47 ? 1 : 0, 1, 1.5, 1, v.gl());
            for (int i = 0; i < size && r.rc == 0; ++i)
                if (op == 48 || m.validNode(i)) r.told.push_back({Q(v.g.values[i])});
            break;
        }
        case 49:
            r.rc = mkernel_mesh2d_insert_edge_from_coordinates(id, 0, 0, -1, -1.5, n, n, k);
            break;
        case 50:
        {
            // a row of cells, told by the ends of an edge across it
            int a = -1, b = -1;
            r.rc = mkernel_mesh2d_get_node_index(id, 0, 2, 0.1, -50, -50, 50, 50, a);
            if (r.rc == 0) r.rc = mkernel_mesh2d_get_node_index(id, 0, 3, 0.1, -50, -50, 50, 50, b);
            if (r.rc == 0) r.rc = mkernel_mesh2d_split_row(id, a, b);
            break;
        }
        default: break;
        }
        // indices in what was told become places
        if (op >= 39 && op <= 43 && op != 42)
        {
            const M2 m = Get(id);
            for (auto& t : r.told)
            {
                const int i = op == 43 ? (int)(t[1] / 1000000) : (int)t[1];
                const bool node = op == 40, edge = op == 41 || op == 43;
                P p{-77, -77};
                if (node && i >= 0 && i < m.numNodes()) p = {m.x[i], m.y[i]};
                if (edge && i >= 0 && i < m.numEdges()) p = {m.ex[i], m.ey[i]};
                if (!node && !edge && i >= 0 && i < m.numFaces()) p = {m.fx[i], m.fy[i]};
                t = {t[0], Q(p.x), Q(p.y)};
            }
        }
        if (op == 16 && r.rc == 0)
        {
            // any order and start: the points
            Points(out.g, 400, r.told);
            std::sort(r.told.begin(), r.told.end());
            r.told.erase(std::unique(r.told.begin(), r.told.end()), r.told.end());
        }
        if (op >= 34 && op <= 36 && r.rc == 0)
        {
            const CT c = GetContacts(id);
            const M2 m = Get(id);
            for (size_t i = 0; i < c.m1.size(); ++i)
                if (c.m2[i] >= 0 && c.m2[i] < m.numFaces()) r.told.push_back({c.m1[i], Q(m.fx[c.m2[i]]), Q(m.fy[c.m2[i]])});
                else r.told.push_back({c.m1[i], -1});
            std::sort(r.told.begin(), r.told.end());
        }
        if (op == 31 && r.rc == 0)
        {
            const CG g = GetCurvi(id);
            r.told.push_back({g.n, g.m});
            for (size_t i = 0; i < g.x.size(); ++i) r.told.push_back({Q(g.x[i]), Q(g.y[i])});
            std::sort(r.told.begin(), r.told.end());
        }
        Mesh(id, r);
        return r;
    }
    // the mesh of a state, as a new state
    int Anew(int id)
    {
        const M2 m = Get(id);
        std::vector<double> x, y;
        std::vector<int> at(m.numNodes(), -1), e;
        for (int i = 0; i < m.numNodes(); ++i)
            if (m.validNode(i))
            {
                at[i] = (int)x.size();
                x.push_back(m.x[i]);
                y.push_back(m.y[i]);
            }
        for (int k = 0; k < m.numEdges(); ++k)
            if (m.validEdge(k))
            {
                e.push_back(at[m.e[2 * k]]);
                e.push_back(at[m.e[2 * k + 1]]);
            }
        const int other = NewState();
        ms_assert(SetMesh(other, x, y, e) == 0, "the same mesh is taken");
        return other;
    }
    // there is more than one line around the mesh, or there are edges without faces
    bool Ragged(int id)
    {
        const M2 m = Get(id);
        std::map<int, int> deg;
        std::map<int, int> to;
        for (int i = 0; i < m.numNodes(); ++i) to[i] = i;
        std::function<int(int)> root = [&](int i) { return to[i] == i ? i : to[i] = root(to[i]); };
        int parts = 0;
        for (int e = 0; e < m.numEdges(); ++e)
            if (m.validEdge(e) && m.ef[2 * e] < 0 && m.ef[2 * e + 1] < 0) return true;
        for (int e = 0; e < m.numEdges(); ++e)
            if (m.validEdge(e) && (m.ef[2 * e] < 0) != (m.ef[2 * e + 1] < 0))
            {
                for (int s = 0; s < 2; ++s)
                    if (!deg[m.e[2 * e + s]]++) ++parts;
                const int a = root(m.e[2 * e]), b = root(m.e[2 * e + 1]);
                if (a != b)
                {
                    to[a] = b;
                    --parts;
                }
            }
        return parts > 1;
    }
} // namespace
MS_HARNESS(history)
{
    const int op = ms_pick("operation", 0, numOps - 1);
    const int edit = ms_pick("edit", 0, numEdits - 1);
    const int at = ms_pick("at", 0, 15);
    const int second = ms_pick("second", -1, ms_thorough() ? numEdits - 1 : 0);
    const int next = ms_thorough() ? second : (op + edit + at) % numEdits, where = (5 * at + 3 + op) % 16;
    const int a = Start();
    const int b = Start();
    if (!Edit(a, edit, at)) return;
    ms_assert(Edit(b, edit, at), "the same edit succeeds again");
    if (second >= 0)
    {
        if (!Edit(a, next, where)) return;
        ms_assert(Edit(b, next, where), "the same edit succeeds again");
    }
    if (op == 14 && Ragged(b)) return; // C02, orthogonalise-hole
    // b is looked at and set anew, a is not
    const int c = Anew(b);
    const auto p = Do(a, op), q = Do(c, op);
    ms_assert((p.rc != 0) == (q.rc != 0), "it succeeds or not as on a new mesh");
    ms_assert(p.told == q.told, "what is told is the same as of a new mesh");
    ms_assert(p.nodes == q.nodes, "the nodes are the same as on a new mesh");
    ms_assert(p.edges == q.edges, "the edges are the same as on a new mesh");
    ms_reach(p.rc == 0 ? "done" : "refused");
}
namespace
{
    const double U[5] = {0, 1, 3, 4.5, 6}, V[4] = {0, 2, 3, 5};
    constexpr int numGridEdits = 15, numGridOps = 26;
    bool EditGrid(int id, int what, int at)
    {
        const int i = at % 5, j = at / 5;
        bool done = false;
        int k = -1;
        const BoundingBox bb{-50, -50, 50, 50};
        switch (what)
        {
        case 0: return mkernel_curvilinear_move_node(id, U[i], V[j], U[i] + 0.25, V[j] - 0.125) == 0;
        case 1: return mkernel_curvilinear_delete_node(id, U[i], V[j]) == 0;
        case 2:
            if (i == 4) return false;
            return mkernel_curvilinear_refine(id, U[i], V[j], U[i + 1], V[j], 2) == 0;
        case 3:
            if (j == 3) return false;
            return mkernel_curvilinear_refine(id, U[i], V[j], U[i], V[j + 1], 3) == 0;
        case 4:
            if (i > 2) return false;
            return mkernel_curvilinear_derefine(id, U[i], V[j], U[i + 2], V[j]) == 0;
        case 5: return mkernel_curvilinear_delete_interior(id, U[i], V[j], U[4], V[3]) == 0;
        case 6: return mkernel_curvilinear_delete_exterior(id, U[0], V[0], U[i], V[j]) == 0;
        case 7:
            if (j) return false;
            return mkernel_curvilinear_line_mirror(id, 1.0, U[0], V[0], U[4], V[0]) == 0;
        case 8:
            if (i || j > 2) return false;
            return mkernel_curvilinear_insert_face(id, -0.25, (V[j] + V[j + 1]) / 2) == 0;
        case 9:
        case 10:
            if (mkernel_curvilinear_delete_node(id, U[i], V[j]) != 0) return false;
            mkernel_curvilinear_get_location_index(id, 1.2, 2.1, what == 9 ? 1 : 0, bb, k);
            if (mkernel_undo_state(done, k) != 0 || !done) return false;
            if (what == 9) return true;
            mkernel_curvilinear_get_location_index(id, 1.2, 2.1, 1, bb, k);
            return mkernel_redo_state(done, k) == 0 && done;
        case 13:
        case 14:
            // a line added and taken back
            if (i > 1) return false;
            if (j == 0 && mkernel_curvilinear_line_mirror(id, 1.0, U[i], V[0], U[4], V[0]) != 0) return false;
            if (j == 1 && mkernel_curvilinear_line_mirror(id, 1.0, U[i], V[3], U[4], V[3]) != 0) return false;
            if (j == 2 && mkernel_curvilinear_line_mirror(id, 1.0, U[0], V[i], U[0], V[3]) != 0) return false;
            if (j == 3 && mkernel_curvilinear_line_mirror(id, 1.0, U[4], V[i], U[4], V[3]) != 0) return false;
            if (what == 13) return true;
            return mkernel_undo_state(done, k) == 0 && done;
        case 11:
            if (i == 4 || mkernel_curvilinear_refine(id, U[i], V[j], U[i + 1], V[j], 2) != 0) return false;
            mkernel_curvilinear_get_location_index(id, 1.2, 2.1, 1, bb, k);
            return mkernel_undo_state(done, k) == 0 && done;
        default:
            if (i == 4) return false;
            return mkernel_curvilinear_full_refine(id, 1 + i % 2, 1 + j % 2) == 0;
        }
    }
    Table DoGrid(int id, int op, int& rc)
    {
        Table t;
        const BoundingBox bb{-50, -50, 50, 50};
        rc = -77;
        switch (op)
        {
        case 0: rc = mkernel_curvilinear_move_node(id, 3, 3, 3.125, 2.75); break;
        case 1: rc = mkernel_curvilinear_delete_node(id, 3.125, 2.875); break;
        case 2: rc = mkernel_curvilinear_refine(id, 1, 2, 4.5, 2, 2); break;
        case 3: rc = mkernel_curvilinear_refine(id, 3, 0, 3, 5, 2); break;
        case 4: rc = mkernel_curvilinear_derefine(id, 0, 2, 4.5, 2); break;
        case 5: rc = mkernel_curvilinear_delete_interior(id, 1, 0, 4.5, 3); break;
        case 6: rc = mkernel_curvilinear_delete_exterior(id, 1, 0, 4.5, 3); break;
        case 7: rc = mkernel_curvilinear_line_mirror(id, 1.25, 0, 0, 0, 5); break;
        case 8: rc = mkernel_curvilinear_line_mirror(id, 1.25, 0, 5, 4.5, 5); break;
        case 9: rc = mkernel_curvilinear_insert_face(id, 6.5, 2.5); break;
        case 10: rc = mkernel_curvilinear_insert_face(id, 2, 5.25); break;
        case 11: rc = mkernel_curvilinear_smoothing(id, 2, 0, 0, 6, 5); break;
        case 12: rc = mkernel_curvilinear_smoothing_directional(id, 2, 0, 2, 6, 2, 0, 0, 6, 5); break;
        case 13: rc = mkernel_curvilinear_line_attraction_repulsion(id, 0.5, 3, 0, 3, 5, 1, 0, 4.5, 5); break;
        case 14: rc = mkernel_curvilinear_full_refine(id, 2, 1); break;
        case 15:
        {
            meshkernel::OrthogonalizationParameters p;
            p.outer_iterations = 1;
            p.boundary_iterations = 2;
            p.inner_iterations = 2;
            rc = mkernel_curvilinear_initialize_orthogonalize(id, p);
            if (rc == 0) rc = mkernel_curvilinear_set_block_orthogonalize(id, 0, 0, 6, 5);
            if (rc == 0) rc = mkernel_curvilinear_orthogonalize(id);
            if (rc == 0) rc = mkernel_curvilinear_finalize_orthogonalize(id);
            break;
        }
        case 16: case 17: case 18:
            for (int q = 0; q < 20; ++q)
            {
                int i = -1;
                const int c = mkernel_curvilinear_get_location_index(id, U[q % 5] + 0.3, V[q / 5] + 0.4, op - 16, bb, i);
                t.push_back({c != 0, c ? -1 : i});
            }
            rc = 0;
            break;
        case 19: rc = mkernel_curvilinear_convert_to_mesh2d(id); break;
        case 20: case 21:
        {
            std::vector<double> v(2000, -77);
            rc = op == 20 ? mkernel_curvilinear_compute_smoothness(id, 0, v.data()) : mkernel_curvilinear_compute_curvature(id, 1, v.data());
            for (double d : v) t.push_back({Q(d)});
            break;
        }
        case 23: rc = mkernel_curvilinear_line_mirror(id, 1.25, 0, 0, 3, 0); break;
        case 24: rc = mkernel_curvilinear_line_mirror(id, 1.25, 6, 2, 6, 5); break;
        case 22:
        {
            rc = mkernel_curvilinear_initialize_line_shift(id);
            if (rc == 0) rc = mkernel_curvilinear_set_line_line_shift(id, 3, 0, 3, 5);
            if (rc == 0) rc = mkernel_curvilinear_set_block_line_shift(id, 1, 0, 4.5, 5);
            if (rc == 0) rc = mkernel_curvilinear_move_node_line_shift(id, 3, 3, 3.5, 3);
            if (rc == 0) rc = mkernel_curvilinear_line_shift(id);
            if (rc == 0) rc = mkernel_curvilinear_finalize_line_shift(id);
            break;
        }
        default:
        {
            int n = -1;
            rc = mkernel_curvilinear_count_boundaries_as_polygons(id, 0, 0, 4, 3, n);
            t.push_back({n});
            break;
        }
        }
        const CG g = GetCurvi(id);
        t.push_back({g.n, g.m});
        for (size_t i = 0; i < g.x.size(); ++i) t.push_back({Q(g.x[i]), Q(g.y[i])});
        Result r;
        Mesh(id, r);
        t.insert(t.end(), r.edges.begin(), r.edges.end());
        return t;
    }
    int StartGrid()
    {
        std::vector<double> x, y;
        for (int k = 0; k < 20; ++k)
        {
            x.push_back(U[k % 5]);
            y.push_back(V[k / 5]);
        }
        const int id = NewState();
        ms_assert(SetCurvi(id, 4, 5, x, y) == 0, "the grid is taken");
        return id;
    }
} // namespace
MS_HARNESS(grid)
{
    const int op = ms_pick("operation", 0, numGridOps - 1);
    const int edit = ms_pick("edit", 0, numGridEdits - 1);
    const int at = ms_pick("at", 0, 19);
    const int a = StartGrid();
    const int b = StartGrid();
    if (!EditGrid(a, edit, at)) return;
    ms_assert(EditGrid(b, edit, at), "the same edit succeeds again");
    const CG g = GetCurvi(b);
    if (g.n < 2 || g.m < 2) return;
    const int c = NewState();
    ms_assert(SetCurvi(c, g.n, g.m, g.x, g.y) == 0, "the same grid is taken");
    int p = -1, q = -1;
    const auto s = DoGrid(a, op, p), t = DoGrid(c, op, q);
    ms_assert((p != 0) == (q != 0), "it succeeds or not as on a new grid");
    ms_assert(s == t, "the result is the same as on a new grid");
    ms_reach(p == 0 ? "done" : "refused");
}
