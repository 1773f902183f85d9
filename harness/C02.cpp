#include "mk.hpp"
#include <MeshKernel/Parameters.hpp>
using namespace mk;

// C02: undo of a bulk operation restores exactly the mesh before it; redo the mesh after it; a failing operation changes nothing.
namespace
{
    // a quad/triangle mix: 4x4 nodes, one cell split in two triangles
    Grid Mixed(int nx = 4, int ny = 4)
    {
        auto g = Rect(nx, ny);
        g.e.push_back(0);
        g.e.push_back(nx + 1);
        return g;
    }
    // Load a mesh and optionally delete one node or one edge first, so that the operation meets unused slots
    int g_pre = 0;
    int Load(const Grid& g, int variants = 3)
    {
        const int id = NewState();
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "mesh accepted");
        const int pre = ms_pick("pre", 0, variants - 1);
        g_pre = pre;
        if (pre == 1) ms_assert(mkernel_mesh2d_delete_node(id, 5) == 0, "node deleted");
        if (pre == 2) ms_assert(mkernel_mesh2d_delete_edge_by_index(id, 7) == 0, "edge deleted");
        return id;
    }
    template <class F>
    void RoundTrip(int id, F op, const char* known = nullptr)
    {
        const auto before = Get(id);
        ms_assert(before.rc == 0, "mesh readable");
        int c0 = 0, c1 = 0, r = 0;
        mkernel_undo_state_count(c0, r);
        const int rc = op();
        mkernel_undo_state_count(c1, r);
        const auto after = Get(id);
        ms_assert(after.rc == 0, "mesh readable after the operation");
        if (rc != 0)
        {
            if (known)
            {
                ms_reach(known);
                return;
            }
            ms_assert(c1 == c0, "a failed operation adds no undo entry");
            ms_assert(SameNodes(before, after) && SameEdges(before, after), "a failed operation changes nothing");
            ms_reach("failed");
            return;
        }
        ms_reach("succeeded");
        ms_assert(c1 == c0 + 1 || c1 == c0, "a successful operation adds at most one undo entry");
        if (c1 == c0)
        {
            ms_assert(SameNodes(before, after) && SameEdges(before, after), "an operation without undo entry changes nothing");
            ms_reach("noop");
            return;
        }
        for (int round = 0; round < 2; ++round)
        {
            bool done = false;
            int uid = -1;
            ms_assert(mkernel_undo_state(done, uid) == 0 && done && uid == id, "undo succeeds and names the state");
            auto m = Get(id);
            ms_assert(m.rc == 0 && SameNodes(m, before), "undo restores the nodes");
            ms_assert(SameEdges(m, before), "undo restores the edges");
            ms_assert(SameFaces(m, before), "undo restores the faces");
            done = false;
            uid = -1;
            ms_assert(mkernel_redo_state(done, uid) == 0 && done && uid == id, "redo succeeds and names the state");
            m = Get(id);
            ms_assert(m.rc == 0 && SameNodes(m, after), "redo restores the nodes");
            ms_assert(SameEdges(m, after), "redo restores the edges");
            ms_assert(SameFaces(m, after), "redo restores the faces");
        }
        ms_reach("undone");
    }
    // No polygon, or an axis aligned box whose corners are symbolic (quarter steps, off the mesh nodes)
    Poly PickBox(const char* name)
    {
        if (ms_pick(name, 0, 1) == 0) return Poly();
        const double x0 = ms_lattice("bx0", -4, 14, -2);
        const double x1 = ms_lattice("bx1", -4, 14, -2);
        const double y0 = ms_thorough() ? ms_lattice("by0", -4, 14, -2) : -0.375;
        const double y1 = ms_lattice("by1", -4, 14, -2);
        ms_assume(x0 < x1 && y0 < y1);
        return Box(x0 + 0.125, y0 + 0.125, x1 + 0.125, y1 + 0.125);
    }
} // namespace

MS_HARNESS(erase)
{
    const int id = Load(Mixed());
    auto p = PickBox("box");
    const int option = ms_pick("option", 0, 2), invert = ms_pick("invert", 0, 1);
    RoundTrip(id, [&] { return mkernel_mesh2d_delete(id, p.gl(), option, invert); });
}
MS_HARNESS(merge)
{
    auto g = Mixed();
    static const int nodes[] = {5, 3, 9, 0, 1, 2, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15};
    const int k = nodes[ms_pick("node", 0, ms_thorough() ? 15 : 2)], l = ms_pick("dir", 0, 3);
    g.x[k] += l == 0 ? 0.75 : l == 1 ? -0.75 : 0.0;
    g.y[k] += l == 2 ? 0.75 : l == 3 ? -0.75 : 0.0;
    const int id = Load(g);
    auto p = PickBox("box");
    const int how = ms_pick("how", 0, 1);
    RoundTrip(id, [&] { return how ? mkernel_mesh2d_merge_nodes_with_merging_distance(id, p.gl(), 0.375) : mkernel_mesh2d_merge_nodes(id, p.gl()); });
}
MS_HARNESS(refine)
{
    const int id = Load(Mixed());
    auto p = PickBox("box");
    meshkernel::MeshRefinementParameters q;
    q.max_num_refinement_iterations = 1;
    q.min_edge_size = 0.1;
    const int hang = ms_pick("connect", 0, 1), inter = ms_pick("intersected", 0, 1), how = ms_pick("how", 0, 2);
    q.connect_hanging_nodes = hang;
    q.refine_intersected = inter;
    if (how == 0) RoundTrip(id, [&] { return mkernel_mesh2d_refine_based_on_polygon(id, p.gl(), q); });
    else
    {
        q.refinement_type = how == 1 ? 2 : 1;
        Poly s({0.5, 1.5, 2.25}, {0.5, 1.25, 2.5}, {1, 1, 1});
        RoundTrip(id, [&] { return mkernel_mesh2d_refine_based_on_samples(id, s.gl(), 1.0, 1, q); });
    }
}
MS_HARNESS(casulli)
{
    const int tri = ms_pick("mesh", 0, 1);
    const int id = Load(tri ? Mixed(5, 5) : Rect(5, 5));
    const int how = ms_pick("how", 0, 3);
    Poly p;
    if (how == 1 || how == 3) p = PickBox("box");
    RoundTrip(id, [&] {
        switch (how)
        {
        case 0: return mkernel_mesh2d_casulli_refinement(id);
        case 1: return mkernel_mesh2d_casulli_refinement_on_polygon(id, p.gl());
        case 2: return mkernel_mesh2d_casulli_derefinement(id);
        default: return mkernel_mesh2d_casulli_derefinement_on_polygon(id, p.gl());
        }
    },
              how <= 1 && g_pre == 1 ? "KNOWN:casulli-partial" : nullptr);
}
MS_HARNESS(split)
{
    const int id = Load(Mixed());
    const int a = ms_int("a", 0, 15), b = ms_int("b", 0, 15);
    ms_assume(a != b);
    RoundTrip(id, [&] { return mkernel_mesh2d_split_row(id, a, b); });
}
MS_HARNESS(flip)
{
    const int id = Load(Mixed());
    auto p = PickBox("box");
    Poly land;
    const int tri = ms_pick("triangulate", 0, 1);
    RoundTrip(id, [&] { return mkernel_mesh2d_flip_edges(id, tri, 0, p.gl(), land.gl()); });
}
MS_HARNESS(join)
{
    const int id = Load(Mixed());
    const int how = ms_pick("how", 0, 5);
    auto g = Rect(2, 3, how == 0 ? 0.5 : 1.0, 0.5, ms_pick("gap", 0, 2) * 0.125 + 3.0, ms_pick("shift", 0, 2) * 0.5);
    Mesh2D m{};
    m.num_nodes = (int)g.x.size();
    m.num_edges = (int)g.e.size() / 2;
    m.node_x = g.x.data();
    m.node_y = g.y.data();
    m.edge_nodes = g.e.data();
    meshkernel::MakeGridParameters q;
    q.num_columns = 2;
    q.num_rows = 2;
    q.block_size_x = q.block_size_y = 1.0;
    q.origin_x = 5.0;
    Poly tri({5, 7, 6, 5}, {0, 0, 2, 0});
    RoundTrip(id, [&] {
        switch (how)
        {
        case 0:
        case 1: return mkernel_mesh2d_connect_meshes(id, m, 0.4);
        case 2: return mkernel_mesh2d_add(id, m);
        case 3: return mkernel_mesh2d_set(id, m);
        case 4: return mkernel_mesh2d_make_rectangular_mesh(id, q);
        default: return mkernel_mesh2d_make_triangular_mesh_from_polygon(id, tri.gl());
        }
    });
}
MS_HARNESS(move)
{
    const int id = Load(Mixed());
    const int how = ms_pick("how", 0, 2);
    if (how == 0)
    {
        const double x = ms_lattice("tx", -8, 8, -2), y = ms_lattice("ty", -8, 8, -2);
        RoundTrip(id, [&] { return mkernel_mesh2d_translate(id, x, y); });
    }
    else if (how == 1)
    {
        const int t = ms_pick("theta", -2, 2);
        RoundTrip(id, [&] { return mkernel_mesh2d_rotate(id, 1.0, 2.0, t * 30.0); });
    }
    else
    {
        auto p = PickBox("box");
        Poly land({-0.25, -0.125, -0.25}, {-1.0, 2.0, 4.0});
        RoundTrip(id, [&] { return mkernel_mesh2d_snap_to_landboundary(id, p.gl(), land.gl()); });
    }
}
MS_HARNESS(clean)
{
    auto g = Mixed();
    const int how = ms_pick("how", 0, 2);
    const int extra = ms_pick("extra", 0, 2);
    if (extra > 0)
    {
        // a separate component: one edge or a triangle
        const int n = (int)g.x.size();
        for (int i = 0; i < 3; ++i) { g.x.push_back(6.0 + (i == 1)); g.y.push_back(i == 2 ? 1.0 : 0.0); }
        if (extra == 1) for (int v : {n, n + 1, n + 1, n + 2}) g.e.push_back(v);
        else for (int v : {n, n + 1, n + 1, n + 2, n + 2, n}) g.e.push_back(v);
    }
    if (how == 2)
    {
        const int k = ms_pick("node", 0, 15);
        g.x[k] += 0.5;
    }
    const int id = Load(g);
    const double t = how == 2 ? ms_pick("threshold", 1, 6) * 0.25 : 1.0;
    RoundTrip(id, [&] {
        switch (how)
        {
        case 0: return mkernel_mesh2d_remove_disconnected_regions(id);
        case 1: return mkernel_mesh2d_delete_hanging_edges(id);
        default: return mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(id, t, 0.4);
        }
    });
}
MS_HARNESS(locate)
{
    const int id = Load(Mixed());
    const int how = ms_pick("how", 0, 2);
    if (how == 0)
    {
        const double x = ms_pick("x", -1, 7) * 0.5, y = ms_pick("y", -1, 7) * 0.5;
        RoundTrip(id, [&] { return mkernel_mesh2d_delete_edge(id, x, y, -10, -10, 10, 10); });
    }
    else if (how == 1)
    {
        const int ix = ms_pick("x0", -1, 4);
        const int iy = ms_pick("y0", -1, 4);
        const double x0 = ix * 0.75, y0 = iy * 0.75;
        int n0, n1, e;
        RoundTrip(id, [&] { return mkernel_mesh2d_insert_edge_from_coordinates(id, x0, y0, 5.0, 5.0, n0, n1, e); });
    }
    else
    {
        if (g_pre == 1)
        {
            ms_reach("KNOWN:orthogonalise-hole");
            return;
        }
        meshkernel::OrthogonalizationParameters q;
        q.outer_iterations = q.boundary_iterations = q.inner_iterations = 1;
        auto p = PickBox("box");
        Poly land;
        RoundTrip(id, [&] { return mkernel_mesh2d_compute_orthogonalization(id, 0, q, p.gl(), land.gl()); });
    }
}
