// C31: doing it step by step gives what one call gives.
#include "topo.hpp"
#include "geom.hpp"
using namespace mk;
namespace
{
    int Mesh(int shape)
    {
        auto g = Rect(5, 4, 2, 2);
        g.x[7] += 0.75;
        g.y[7] -= 0.25;
        g.x[11] -= 0.5;
        g.x[13] += 0.25;
        g.y[13] += 0.5;
        if (shape == 1)
        {
            g.e.push_back(0);
            g.e.push_back(6);
        }
        const int id = NewState();
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "the mesh is taken");
        return id;
    }
    meshkernel::OrthogonalizationParameters Param(int outer, int boundary, int inner, double factor)
    {
        meshkernel::OrthogonalizationParameters p;
        p.outer_iterations = outer;
        p.boundary_iterations = boundary;
        p.inner_iterations = inner;
        p.orthogonalization_to_smoothing_factor = factor;
        return p;
    }
    void Look(int id, int what)
    {
        int k = 0;
        double v = 0;
        switch (what)
        {
        case 1: Get(id); break;
        case 2: mkernel_mesh2d_count_hanging_edges(id, k); break;
        case 3: mkernel_mesh2d_count_obtuse_triangles(id, k); break;
        case 4: mkernel_mesh2d_get_closest_node(id, 1, 1, 5, -50, -50, 50, 50, v, v); break;
        case 5: mkernel_mesh2d_count_mesh_boundaries_as_polygons(id, k); break;
        default: break;
        }
    }
} // namespace
MS_HARNESS(mesh)
{
    const int shape = ms_pick("shape", 0, 1);
    const int outer = ms_pick("outer", 1, 3);
    const int inner = ms_pick("inner", 1, 3);
    const int boundary = ms_pick("boundary", 1, 2);
    const int factor = ms_pick("factor", 0, 2);
    const int select = ms_pick("select", 0, 2);
    const int look = ms_pick("look", 0, 5);
    const int when = ms_pick("when", 0, 2);
    if (!look && when) return;
    auto p = Param(outer, boundary, inner, factor == 0 ? 0.0 : factor == 1 ? 0.9 : 1.0);
    const int a = Mesh(shape), b = Mesh(shape);
    Poly none, box;
    if (select == 1) box = Box(-1, -1, 5, 10);
    if (select == 2) box = Box(1, 1, 5, 10);
    const M2 was = Get(a);
    ms_assert(mkernel_mesh2d_compute_orthogonalization(a, 0, p, box.gl(), none.gl()) == 0, "the mesh is orthogonalised");
    ms_assert(mkernel_mesh2d_initialize_orthogonalization(b, 0, p, box.gl(), none.gl()) == 0, "it begins");
    if (when == 0) Look(b, look);
    for (int i = 0; i < outer; ++i)
    {
        ms_assert(mkernel_mesh2d_prepare_outer_iteration_orthogonalization(b) == 0, "a round begins");
        if (when == 1) Look(b, look);
        for (int k = 0; k < boundary * inner; ++k) ms_assert(mkernel_mesh2d_compute_inner_ortogonalization_iteration(b) == 0, "a step is made");
        if (when == 2) Look(b, look);
        ms_assert(mkernel_mesh2d_finalize_inner_ortogonalization_iteration(b) == 0, "a round ends");
    }
    ms_assert(mkernel_mesh2d_delete_orthogonalization(b) == 0, "it ends");
    const M2 ga = Get(a), gb = Get(b);
    ms_assert(SameNodes(ga, gb) && SameEdges(ga, gb), "the steps give the mesh that one call gives");
    ms_assert(mkernel_mesh2d_prepare_outer_iteration_orthogonalization(b) != 0, "nothing is done after the end");
    ms_assert(mkernel_mesh2d_compute_inner_ortogonalization_iteration(b) != 0, "nothing is done after the end");
    ms_assert(mkernel_mesh2d_finalize_inner_ortogonalization_iteration(b) != 0, "nothing is done after the end");
    bool did = false;
    int of = -1;
    ms_assert(mkernel_undo_state(did, of) == 0 && did && of == b, "the steps are undone at once");
    ms_assert(SameNodes(was, Get(b)), "undoing gives the mesh as it was");
    ms_reach("same");
}
// what is done to the mesh between the steps ends the steps
MS_HARNESS(edited)
{
    const int shape = ms_pick("shape", 0, 1);
    const int edit = ms_pick("edit", 0, 6);
    const int when = ms_pick("when", 0, 2);
    const int select = ms_pick("select", 0, 1);
    const int at = ms_pick("at", 0, edit == 1 ? 19 : edit == 3 ? 30 : 0);
    auto p = Param(2, 1, 2, 0.5);
    const int b = Mesh(shape);
    Poly none, box;
    if (select == 1) box = Box(-1, -1, 5, 10);
    ms_assert(mkernel_mesh2d_initialize_orthogonalization(b, 0, p, box.gl(), none.gl()) == 0, "it begins");
    if (when > 0) ms_assert(mkernel_mesh2d_prepare_outer_iteration_orthogonalization(b) == 0, "a round begins");
    if (when > 1) ms_assert(mkernel_mesh2d_compute_inner_ortogonalization_iteration(b) == 0, "a step is made");
    bool did = false;
    int of = -1;
    const M2 before = Get(b);
    switch (edit)
    {
    case 0:
    {
        auto g = Rect(3, 3, 1, 1);
        ms_assert(SetMesh(b, g.x, g.y, g.e) == 0, "the mesh is taken");
        break;
    }
    case 1: ms_assert(mkernel_mesh2d_move_node(b, before.x[at] + 0.125, before.y[at] - 0.125, at) == 0, "a node is moved"); break;
    case 2: ms_assert(mkernel_mesh2d_delete_node(b, 5) == 0, "a node is deleted"); break;
    case 3: ms_assert(mkernel_mesh2d_delete_edge_by_index(b, at) == 0, "an edge is deleted"); break;
    case 4:
    {
        meshkernel::MeshRefinementParameters r;
        r.max_num_refinement_iterations = 1;
        r.min_edge_size = 0.1;
        ms_assert(mkernel_mesh2d_refine_based_on_polygon(b, Box(-1, -1, 20, 20).gl(), r) == 0, "the mesh is refined");
        break;
    }
    case 5:
        if (when < 2) return;
        ms_assert(mkernel_undo_state(did, of) == 0 && did && of == b, "the steps are undone");
        break;
    case 6:
        ms_assert(mkernel_undo_state(did, of) == 0 && did && of == b, "the steps are undone");
        ms_assert(mkernel_undo_state(did, of) == 0 && did && of == b, "the mesh is taken away");
        break;
    }
    const M2 now = Get(b);
    // on an empty mesh there is nothing to do, and that is no error
    const bool empty = now.numNodes() == 0;
    ms_assert(mkernel_mesh2d_prepare_outer_iteration_orthogonalization(b) != 0 || empty, "no round begins on a mesh that was changed");
    ms_assert(mkernel_mesh2d_compute_inner_ortogonalization_iteration(b) != 0 || empty, "no step is made on a mesh that was changed");
    ms_assert(mkernel_mesh2d_finalize_inner_ortogonalization_iteration(b) != 0 || empty, "no round ends on a mesh that was changed");
    const M2 then = Get(b);
    ms_assert(SameNodes(now, then) && SameEdges(now, then) && SameFaces(now, then), "the mesh stays as it was made");
    if (edit < 5)
    {
        ms_assert(mkernel_undo_state(did, of) == 0 && did && of == b, "what was done is undone");
        const M2 back = Get(b);
        ms_assert(SameNodes(before, back) && SameEdges(before, back), "undoing gives the mesh that was there");
    }
    ms_reach("refused");
}
namespace
{
    struct Sp
    {
        Poly g;
        meshkernel::CurvilinearParameters p;
        meshkernel::SplinesToCurvilinearParameters s;
    };
    Sp Splines(int across, int bend, int skew, int n, int m, int outside, int adapt)
    {
        Sp q;
        auto add = [&](double x, double y)
        { q.g.x.push_back(x); q.g.y.push_back(y); };
        add(-1, 0);
        add(5, bend ? 1 : 0);
        add(11, 0);
        for (int k = 0; k < across; ++k)
        {
            const double x = across == 1 ? 5 : 10.0 * k / (across - 1);
            add(MISSING, MISSING);
            add(x - (skew ? 0.25 : 0), -2);
            add(x, 0.125);
            add(x + (skew ? 0.25 : 0), 3);
        }
        q.p.m_refinement = m;
        q.p.n_refinement = n;
        q.s.average_width = 2;
        q.s.aspect_ratio = 0.5;
        q.s.grow_grid_outside = outside;
        q.s.curvature_adapted_grid_spacing = adapt;
        q.s.remove_skinny_triangles = 0;
        return q;
    }
} // namespace
MS_HARNESS(splines)
{
    const int across = ms_pick("across", 2, 3);
    const int bend = ms_pick("bend", 0, 1);
    const int skew = ms_pick("skew", 0, 1);
    const int n = ms_pick("n", 1, 4);
    const int m = ms_pick("m", 2, 5);
    const int outside = ms_pick("outside", 0, 1);
    const int adapt = ms_pick("adapt", 0, 1);
    const int look = ms_pick("look", 0, 2);
    Sp q = Splines(across, bend, skew, n, m, outside, adapt);
    const int a = NewState(), b = NewState();
    const int rc = mkernel_curvilinear_compute_orthogonal_grid_from_splines(a, q.g.gl(), q.p, q.s);
    ms_assert(rc == 0, "the grid is grown");
    ms_assert(mkernel_curvilinear_initialize_orthogonal_grid_from_splines(b, q.g.gl(), q.p, q.s) == 0, "it begins");
    for (int k = 1; k <= n; ++k)
    {
        // before the first layer there is no grid yet
        if (look == 1) ms_assert((mkernel_curvilinear_refresh_orthogonal_grid_from_splines(b) == 0) == (k > 1), "the grid so far is told");
        if (look == 2)
        {
            Get(b);
            GetCurvi(b);
        }
        ms_assert(mkernel_curvilinear_iterate_orthogonal_grid_from_splines(b, k) == 0, "a layer is grown");
    }
    ms_assert(mkernel_curvilinear_refresh_orthogonal_grid_from_splines(b) == 0, "the grid is told");
    const CG ga = GetCurvi(a), gb = GetCurvi(b);
    ms_assert(ga.rc == 0 && ga.n > 1 && ga.m > 1, "there is a grid");
    ms_assert(SameGrid(ga, gb), "the layers give the grid that one call gives");
    ms_assert(mkernel_curvilinear_delete_orthogonal_grid_from_splines(b) == 0, "it ends");
    ms_assert(mkernel_curvilinear_iterate_orthogonal_grid_from_splines(b, 1) != 0, "nothing is done after the end");
    ms_assert(mkernel_curvilinear_refresh_orthogonal_grid_from_splines(b) != 0, "nothing is done after the end");
    ms_assert(mkernel_curvilinear_delete_orthogonal_grid_from_splines(b) != 0, "nothing is done after the end");
    ms_assert(SameGrid(ga, GetCurvi(b)), "the grid stays when it ends");
    ms_reach("same");
}
MS_HARNESS(layer)
{
    const int n = ms_pick("n", 1, 4);
    const int m = ms_pick("m", 2, 3);
    const int done = ms_pick("done", 0, 4);
    const int layer = ms_int("layer", -2147483647 - 1, 2147483647);
    if (done > n) return;
    Sp q = Splines(2, 0, 0, n, m, 0, 0);
    const int b = NewState();
    ms_assert(mkernel_curvilinear_initialize_orthogonal_grid_from_splines(b, q.g.gl(), q.p, q.s) == 0, "it begins");
    for (int k = 1; k <= done; ++k) ms_assert(mkernel_curvilinear_iterate_orthogonal_grid_from_splines(b, k) == 0, "a layer is grown");
    const bool ok = layer >= 1 && layer <= n;
    if (ok) return;
    ms_assert(mkernel_curvilinear_iterate_orthogonal_grid_from_splines(b, layer) != 0, "a layer that does not exist is refused");
    ms_reach("refused");
}
// splines that give no grid: nothing can be grown from them
MS_HARNESS(nothing)
{
    const int kind = ms_pick("kind", 0, 5);
    const int n = ms_int("n", -2, 3);
    const int m = ms_int("m", -2, 3);
    const int layer = ms_int("layer", 0, 4);
    const int which = ms_pick("which", 0, 2);
    const int had = ms_bool("had");
    Sp q = Splines(2, 0, 0, n, m, 0, 0);
    if (kind == 1) q.g = Poly();
    if (kind == 2) q.g = Poly({0, 5, 10}, {0, 1, 0});
    if (kind == 3) q.g = Poly({0, 5, 10, MISSING, 0, 5, 10}, {0, 1, 0, MISSING, 5, 6, 5});
    if (kind == 4) q.s.average_width = -1;
    if (kind == 5) q.s.average_width = 0;
    const int b = NewState();
    CG was;
    if (had)
    {
        SetCurvi(b, 2, 2, {0, 1, 0, 1}, {0, 0, 1, 1});
        was = GetCurvi(b);
    }
    if (mkernel_curvilinear_initialize_orthogonal_grid_from_splines(b, q.g.gl(), q.p, q.s) == 0)
    {
        ms_reach("begun");
        return;
    }
    if (which == 0) ms_assert(mkernel_curvilinear_iterate_orthogonal_grid_from_splines(b, layer) != 0, "nothing is grown when it could not begin");
    if (which == 1) ms_assert(mkernel_curvilinear_refresh_orthogonal_grid_from_splines(b) != 0, "nothing is told when it could not begin");
    if (which == 2) mkernel_curvilinear_delete_orthogonal_grid_from_splines(b);
    if (had) ms_assert(SameGrid(was, GetCurvi(b)), "the grid stays when another could not be grown");
    ms_reach("refused");
}
// the steps in any order
MS_HARNESS(order)
{
    const int len = ms_thorough() ? 6 : 5;
    const int b = Mesh(ms_pick("shape", 0, 1));
    auto p = Param(2, 1, 2, 0.5);
    Poly none;
    bool begun = false;
    for (int k = 0; k < len; ++k)
    {
        const int what = ms_pick(nm("what", k), 0, 4);
        const M2 was = Get(b);
        int rc = 0;
        switch (what)
        {
        case 0: ms_assert(mkernel_mesh2d_initialize_orthogonalization(b, 0, p, none.gl(), none.gl()) == 0, "it begins"); begun = true; break;
        case 1: rc = mkernel_mesh2d_prepare_outer_iteration_orthogonalization(b); break;
        case 2: rc = mkernel_mesh2d_compute_inner_ortogonalization_iteration(b); break;
        case 3: rc = mkernel_mesh2d_finalize_inner_ortogonalization_iteration(b); break;
        case 4: mkernel_mesh2d_delete_orthogonalization(b); begun = false; break;
        }
        if (!begun && what > 0 && what < 4) ms_assert(rc != 0, "a step that was not begun is refused");
        if (begun && (what == 1 || what == 3)) ms_assert(rc == 0, "rounds begin and end once it has begun");
        const M2 is = Get(b);
        bool finite = true;
        for (int i = 0; i < is.numNodes(); ++i) finite &= std::isfinite(is.x[i]) && std::isfinite(is.y[i]) && is.validNode(i);
        ms_assert(finite && SameEdges(was, is), "every node keeps a place and the edges stay");
        if (what != 2 || rc != 0) ms_assert(SameNodes(was, is), "only steps move nodes");
    }
    ms_reach(begun ? "begun" : "ended");
}
