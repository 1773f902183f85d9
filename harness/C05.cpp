int Arg(int i);
double ArgD(int i);
#define ARG_INT(i) Arg(i)
#define ARG_DBL(i) ArgD(i)
#define ARG_BOOL(i) ms_bool(nm("bool", i))
#include "calls.hpp"
// C05: whatever the arguments, a call either succeeds or reports an error and changes nothing; changes can be undone.
static std::string current;
static bool Is(std::initializer_list<const char*> l)
{
    for (auto c : l)
        if (current == c) return true;
    return false;
}
// Symbolic scalar arguments. Where the code feeds them to hashes, square roots or iteration counts, one path per value instead.
int Arg(int i)
{
    if (Is({"curvilinear_smoothing", "curvilinear_smoothing_directional", "mesh2d_averaging_interpolation", "mesh2d_refine_based_on_samples"})) return ms_pick(nm("int", i), 0, 3);
    if (Is({"curvilinear_compute_transfinite_from_polygon", "curvilinear_get_boundaries_as_polygons", "curvilinear_count_boundaries_as_polygons"})) return ms_pick(nm("int", i), i == 4 ? 0 : -1, 4);
    if (Is({"polygon_count_refine", "polygon_refine"})) return ms_pick(nm("int", i), -1, 5);
    // how much is made, how long an array is, or a flag
    if (Is({"curvilinear_full_refine", "curvilinear_refine", "mesh2d_delete", "network1d_compute_fixed_chainages"})) return ms_int(nm("int", i), -2, 12);
    return ms_int(nm("int", i), -2000000000, 2000000000);
}
double ArgD(int i)
{
    if (Is({"mesh2d_rotate"})) return i == 2 ? ms_pick(nm("double", i), -1, 3) * 30.0 : ms_pick(nm("double", i), -1, 3) * 1.0;
    if (i == 0 && Is({"curvilinear_line_attraction_repulsion"})) return ms_pick(nm("double", i), -1, 2) * 0.5;
    if (i > 4 && Is({"curvilinear_line_attraction_repulsion"})) return i == 6 ? 0.0 : i == 8 ? 3.0 : ms_pick(nm("double", i), 0, 1) * 3.0;
    if (Is({"curvilinear_insert_face", "curvilinear_get_location_index"})) return ms_pick(nm("double", i), -1, 8) * 0.5;
    if (Is({"curvilinear_smoothing", "curvilinear_line_attraction_repulsion", "curvilinear_refine", "curvilinear_snap_to_landboundary", "curvilinear_snap_to_spline"})) return ms_pick(nm("double", i), 0, 3) * 1.0;
    if (Is({"mesh2d_averaging_interpolation", "mesh2d_refine_based_on_samples", "polygon_count_refine", "polygon_refine", "mesh2d_merge_nodes_with_merging_distance"})) return ms_pick(nm("double", i), -1, 4) * 0.5;
    if (Is({"curvilinear_smoothing_directional", "mesh2d_insert_edge_from_coordinates", "mesh2d_get_closest_node", "mesh2d_get_node_index"})) return i < 3 ? ms_pick(nm("double", i), -1, 3) * 1.0 : i < 5 ? -1.0 : 3.0;
    return ms_lattice(nm("double", i), -1, 7, -1); // half-integers in [-0.5,3.5]
}
namespace
{
    bool SameMeshes(const Snap& a, const Snap& b)
    {
        return a.m2.rc == b.m2.rc && SameNodes(a.m2, b.m2) && SameEdges(a.m2, b.m2) && SameFaces(a.m2, b.m2) && a.m1 == b.m1 && SameGrid(a.cg, b.cg) && a.projection == b.projection;
    }
    void Any(int fn)
    {
        const int id = Full(0);
        const auto before = GetSnap(id);
        const char* name = "";
        current = Name(fn);
        const int rc = Call(fn, id, name);
        bool v = false;
        mkernel_is_valid_state(id, v);
        if (!v) return; // expunged
        const auto after = GetSnap(id);
        if (rc != 0)
        {
            ms_assert(SameSnap(before, after), "a call that reports an error changes nothing");
            ms_reach("refused");
            return;
        }
        if (after.und == before.und)
        {
            ms_assert(SameMeshes(before, after), "a call that cannot be undone does not change the meshes");
            return;
        }
        ms_assert(after.und == before.und + 1 && after.red == 0, "a call records at most one undo action");
        bool did = false;
        int which = -1;
        ms_assert(mkernel_undo_state(did, which) == 0 && did && which == id, "the change can be undone");
        ms_assert(SameMeshes(before, GetSnap(id)), "undo restores the state before the call");
        ms_assert(mkernel_redo_state(did, which) == 0 && did && which == id, "the change can be redone");
        ms_assert(SameMeshes(after, GetSnap(id)), "redo restores the state after the call");
        ms_reach("undone");
    }
} // namespace
#define BLOCK(n, lo, hi)                              \
    MS_HARNESS(n)                                     \
    {                                                 \
        const int fn = ms_pick("function", lo, hi);   \
        Any(fn);                                      \
    }
BLOCK(contacts, 0, 7)
BLOCK(curvi1, 8, 26)
BLOCK(curvi2, 27, 39)
BLOCK(curvi3, 40, 54)
BLOCK(mesh1, 55, 76)
BLOCK(mesh2, 77, 96)
BLOCK(mesh3, 97, 115)
BLOCK(mesh4, 116, 136)
BLOCK(net, 137, NUM_CALLS - 1)
// development aid: one function only
MS_HARNESS(one)
{
    const char* f = getenv("MS_FN");
    Any(f ? atoi(f) : 0);
}
