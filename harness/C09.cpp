#include "topo.hpp"
using namespace mk;

// C09: nearest-location queries return the nearest valid location of the mesh as it is now, whatever was queried, changed or undone before.
namespace
{
    enum { FACES = 0, NODES = 1, EDGES = 2 };
    int Loc(int what)
    {
        int t = -1;
        if (what == FACES) mkernel_get_faces_location_type(t);
        if (what == NODES) mkernel_get_nodes_location_type(t);
        if (what == EDGES) mkernel_get_edges_location_type(t);
        return t;
    }
    struct L { double x, y; bool valid; };
    std::vector<L> Locations(const M2& m, int what)
    {
        std::vector<L> r;
        if (what == NODES)
            for (int i = 0; i < m.numNodes(); ++i) r.push_back({m.x[i], m.y[i], m.validNode(i)});
        if (what == EDGES)
            for (int e = 0; e < m.numEdges(); ++e)
            {
                const bool v = m.validEdge(e);
                r.push_back({v ? 0.5 * (m.x[m.e[2 * e]] + m.x[m.e[2 * e + 1]]) : 0, v ? 0.5 * (m.y[m.e[2 * e]] + m.y[m.e[2 * e + 1]]) : 0, v});
            }
        if (what == FACES)
            for (int f = 0; f < m.numFaces(); ++f) r.push_back({m.fx[f], m.fy[f], true});
        return r;
    }
    const BoundingBox ALL{-100, -100, 100, 100};
    bool In(const BoundingBox& b, const L& l) { return l.x >= b.xLowerLeft && l.x <= b.xUpperRight && l.y >= b.yLowerLeft && l.y <= b.yUpperRight; }
    // Faces are searched by their circumcentres, which cannot be read: the answer is the face that a state which was just given the same mesh answers
    void Faces(const M2& m, double px, double py, const BoundingBox& box, int rc, int idx)
    {
        const int fresh = NewState();
        std::vector<double> x, y;
        std::vector<int> e, to(m.numNodes(), -1);
        for (int i = 0; i < m.numNodes(); ++i)
            if (m.validNode(i))
            {
                to[i] = (int)x.size();
                x.push_back(m.x[i]);
                y.push_back(m.y[i]);
            }
        for (int k = 0; k < m.numEdges(); ++k)
            if (m.validEdge(k))
            {
                e.push_back(to[m.e[2 * k]]);
                e.push_back(to[m.e[2 * k + 1]]);
            }
        ms_assert(SetMesh(fresh, x, y, e) == 0, "the same mesh is accepted by another state");
        int i2 = -7;
        const int rc2 = mkernel_mesh2d_get_location_index(fresh, px, py, Loc(FACES), box, i2);
        const auto f = Get(fresh);
        if (m.numFaces() == 0) ms_assert(rc != 0, "there is no face to be found");
        ms_assert((rc == 0) == (rc2 == 0), "a face is found just when a state with the same mesh finds one");
        if (rc == 0) ms_assert(idx >= 0 && idx < m.numFaces() && i2 >= 0 && i2 < f.numFaces() && m.fx[idx] == f.fx[i2] && m.fy[idx] == f.fy[i2], "the face is the one that a state with the same mesh finds");
        ms_reach("face");
    }
    // the answer is a location inside the box, and no other one is nearer
    void Query(int id, double px, double py, int what, const BoundingBox& box, int rule = 0)
    {
        int idx = -7;
        const int rc = rule == 0 ? mkernel_mesh2d_get_location_index(id, px, py, Loc(what), box, idx)
                                 : mkernel_mesh2d_get_edge(id, px, py, box.xLowerLeft, box.yLowerLeft, box.xUpperRight, box.yUpperRight, idx);
        const auto m = Get(id);
        if (what == FACES)
        {
            Faces(m, px, py, box, rc, idx);
            return;
        }
        const auto l = Locations(m, what);
        int n = 0;
        for (auto& q : l) n += q.valid && In(box, q);
        if (n == 0)
        {
            ms_assert(rc != 0, "nothing to be found is reported as an error");
            return;
        }
        ms_assert(rc == 0, "the query succeeds");
        ms_assert(idx >= 0 && idx < (int)l.size() && l[idx].valid && In(box, l[idx]), "the answer is a valid location inside the box");
        const double d = (l[idx].x - px) * (l[idx].x - px) + (l[idx].y - py) * (l[idx].y - py);
        bool nearest = true;
        for (auto& q : l)
            if (q.valid && In(box, q)) nearest &= !((q.x - px) * (q.x - px) + (q.y - py) * (q.y - py) < d);
        ms_assert(nearest, "no other location is nearer");
        ms_reach("found");
    }
    int Load()
    {
        const int id = NewState();
        auto g = Rect(3, 3, 2, 2);
        g.e.push_back(4);
        g.e.push_back(8);
        g.x[4] += 0.25;
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "mesh accepted");
        return id;
    }
    void Undo(bool redo = false)
    {
        bool did = false;
        int which = -1;
        ms_assert((redo ? mkernel_redo_state(did, which) : mkernel_undo_state(did, which)) == 0 && did, redo ? "redone" : "undone");
    }
    void Change(int id, int c)
    {
        int o = -1;
        Poly box = Box(-0.5, -0.5, 1.0, 1.0), none;
        switch (c)
        {
        case 0: mkernel_mesh2d_delete_node(id, 4); break;
        case 1: mkernel_mesh2d_delete_edge_by_index(id, 2); break;
        case 2: mkernel_mesh2d_move_node(id, 5.0, 5.0, 8); break;
        case 3: mkernel_mesh2d_translate(id, 7, 3); break;
        case 4: mkernel_mesh2d_insert_edge(id, 0, 4, o); break;
        case 5: mkernel_mesh2d_merge_two_nodes(id, 4, 8); break;
        case 6: mkernel_mesh2d_delete(id, box.gl(), 0, 0); break;
        case 7: mkernel_mesh2d_casulli_refinement(id); break;
        case 8: {
            auto g = Rect(2, 2, 1, 1, 8, 1);
            ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "second mesh accepted");
            break;
        }
        case 9: mkernel_mesh2d_rotate(id, 2, 2, 90); break;
        case 10: mkernel_mesh2d_flip_edges(id, 1, 0, none.gl(), none.gl()); break;
        case 11: {
            auto g = Rect(2, 2, 1, 1, 8, 1);
            Mesh2D a{};
            a.num_nodes = 4;
            a.num_edges = 4;
            a.node_x = g.x.data();
            a.node_y = g.y.data();
            a.edge_nodes = g.e.data();
            ms_assert(mkernel_mesh2d_add(id, a) == 0, "mesh added");
            break;
        }
        case 12: {
            int e = -1;
            mkernel_mesh2d_insert_node(id, 5.5, 2.0, o);
            mkernel_mesh2d_insert_edge(id, 5, o, e);
            break;
        }
        case 13: mkernel_mesh2d_merge_nodes_with_merging_distance(id, none.gl(), 2.6); break;
        }
    }
} // namespace
// any point, a box that may exclude locations
MS_HARNESS(point)
{
    const int id = Load();
    const int what = ms_pick("what", 1, 2);
    const int b = ms_pick("box", 0, 2);
    const double px = ms_lattice("px", -2, 10, -1);
    const double py = ms_lattice("py", -2, 10, -1);
    Query(id, px, py, what, b == 0 ? ALL : b == 1 ? BoundingBox{-0.5, -0.5, 3.0, 2.5} : BoundingBox{50, 50, 60, 60}, what == EDGES ? 1 : 0);
}
// rectangular faces, whose circumcentres are their centres
MS_HARNESS(face)
{
    const int id = NewState();
    auto g = Rect(4, 3, 2, 4);
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "mesh accepted");
    const auto m = Get(id);
    const int b = ms_pick("box", 0, 2);
    const BoundingBox box = b == 0 ? ALL : b == 1 ? BoundingBox{-0.5, -0.5, 4.0, 7.0} : BoundingBox{50, 50, 60, 60};
    const double px = ms_lattice("px", -2, 14, -1);
    const double py = ms_lattice("py", -2, 18, -1);
    int idx = -7;
    const int rc = mkernel_mesh2d_get_location_index(id, px, py, Loc(FACES), box, idx);
    int n = 0;
    for (int f = 0; f < m.numFaces(); ++f) n += In(box, {m.fx[f], m.fy[f], true});
    if (n == 0)
    {
        ms_assert(rc != 0, "nothing to be found is reported as an error");
        return;
    }
    ms_assert(rc == 0 && idx >= 0 && idx < m.numFaces() && In(box, {m.fx[idx], m.fy[idx], true}), "a face inside the box is found");
    bool nearest = true;
    for (int f = 0; f < m.numFaces(); ++f)
        if (In(box, {m.fx[f], m.fy[f], true})) nearest &= !((m.fx[f] - px) * (m.fx[f] - px) + (m.fy[f] - py) * (m.fy[f] - py) < (m.fx[idx] - px) * (m.fx[idx] - px) + (m.fy[idx] - py) * (m.fy[idx] - py));
    ms_assert(nearest, "no other face is nearer");
    ms_reach("found");
}
// three queries of different kinds with different boxes in a row
MS_HARNESS(queries)
{
    const int id = Load();
    const BoundingBox boxes[] = {ALL, {-0.5, -0.5, 2.75, 4.5}, {1.25, -0.5, 4.5, 4.5}};
    for (int k = 0; k < 3; ++k)
    {
        const int what = ms_pick(nm("what", k), 0, 2);
        const int b = ms_pick(nm("box", k), 0, 2);
        if (k < 2)
        {
            int i;
            mkernel_mesh2d_get_location_index(id, 0.3, 0.4, Loc(what), boxes[b], i);
        }
        else if (what == FACES)
        {
            const int at = ms_pick("at", 0, 2);
            Query(id, 0.4 + 1.5 * at, 0.9, what, boxes[b]);
        }
        else
        {
            const double px = ms_lattice("px", -1, 9, -1);
            Query(id, px, 0.5, what, boxes[b]);
        }
    }
}
// query, change, query, undo, query, redo, query
MS_HARNESS(history)
{
    const int id = Load();
    const int c = ms_pick("change", 0, 13);
    const int first = ms_pick("first", 0, 2);
    const int what = ms_pick("what", 0, 2);
    const int upto = c == 12 ? 0 : ms_pick("upto", 0, 2);
    int i;
    mkernel_mesh2d_get_location_index(id, 0.3, 0.4, Loc(what), ALL, i);
    if (first != what) mkernel_mesh2d_get_location_index(id, 0.3, 0.4, Loc(first), ALL, i);
    Change(id, c);
    if (upto > 0)
    {
        if (first == what) mkernel_mesh2d_get_location_index(id, 0.3, 0.4, Loc(what), ALL, i);
        Undo();
    }
    if (upto > 1)
    {
        if (first == what) mkernel_mesh2d_get_location_index(id, 0.3, 0.4, Loc(what), ALL, i);
        Undo(true);
    }
    if (what == FACES)
    {
        const int at = ms_pick("at", 0, 3);
        Query(id, 0.4 + 1.5 * at, 2.9, what, ALL);
    }
    else if (c == 7 || c == 9 || c == 11)
    { // coordinates that are not multiples of a power of two
        const int at = ms_pick("at", 0, 5);
        Query(id, -0.4 + 1.9 * at, 2.9, what, ALL);
    }
    else
    {
        const double px = ms_lattice("px", -1, 19, -1);
        Query(id, px, 2.75, what, ALL);
    }
}
// nearest node within a radius
MS_HARNESS(radius)
{
    const int id = Load();
    const int c = ms_pick("change", 0, 2);
    int idx = -7, o;
    mkernel_mesh2d_get_location_index(id, 0.3, 0.4, Loc(EDGES), {0, 0, 1, 1}, o);
    if (c == 1) mkernel_mesh2d_delete_node(id, 0);
    if (c == 2)
    {
        mkernel_mesh2d_translate(id, 1, 0);
        mkernel_mesh2d_get_node_index(id, 0, 0, 10, -100, -100, 100, 100, o);
        Undo();
    }
    const double px = ms_pick("px", -4, 8) * 0.5, py = ms_pick("py", -2, 2) * 0.5;
    const double r = ms_pick("r", 0, 12) * 0.25;
    const int rc = mkernel_mesh2d_get_node_index(id, px, py, r, -100, -100, 100, 100, idx);
    const auto m = Get(id);
    double best = 1e9;
    for (int i = 0; i < m.numNodes(); ++i)
        if (m.validNode(i)) best = std::min(best, (m.x[i] - px) * (m.x[i] - px) + (m.y[i] - py) * (m.y[i] - py));
    if (best > r * r) ms_assert(rc != 0 || idx < 0, "no node within the radius");
    if (best < r * r)
    {
        ms_assert(rc == 0 && m.validNode(idx), "a node within the radius is found");
        ms_assert((m.x[idx] - px) * (m.x[idx] - px) + (m.y[idx] - py) * (m.y[idx] - py) == best, "the nearest node is found");
        double x = 0, y = 0;
        ms_assert(mkernel_mesh2d_get_closest_node(id, px, py, r, -100, -100, 100, 100, x, y) == 0 && x == m.x[idx] && y == m.y[idx], "the coordinates are those of the node");
        ms_reach("near");
    }
}

// the same on a curvilinear grid
namespace
{
    std::vector<L> GridLocations(const CG& g, int what)
    {
        std::vector<L> r;
        auto ok = [&](int i) { return g.x[i] != MISSING; };
        if (what == NODES)
            for (int i = 0; i < g.n * g.m; ++i) r.push_back({g.x[i], g.y[i], ok(i)});
        auto edge = [&](int a, int b) { r.push_back({0.5 * (g.x[a] + g.x[b]), 0.5 * (g.y[a] + g.y[b]), ok(a) && ok(b)}); };
        if (what == EDGES)
        {
            for (int n = 0; n + 1 < g.n; ++n)
                for (int m = 0; m < g.m; ++m) edge(n * g.m + m, (n + 1) * g.m + m);
            for (int n = 0; n < g.n; ++n)
                for (int m = 0; m + 1 < g.m; ++m) edge(n * g.m + m, n * g.m + m + 1);
        }
        if (what == FACES)
            for (int n = 0; n + 1 < g.n; ++n)
                for (int m = 0; m + 1 < g.m; ++m)
                {
                    const int a = n * g.m + m, b = a + 1, c = a + g.m + 1, d = a + g.m;
                    r.push_back({0.25 * (g.x[a] + g.x[b] + g.x[c] + g.x[d]), 0.25 * (g.y[a] + g.y[b] + g.y[c] + g.y[d]), ok(a) && ok(b) && ok(c) && ok(d)});
                }
        return r;
    }
} // namespace
MS_HARNESS(grid)
{
    const int id = NewState();
    // warped, so that the locations are in general position
    const std::vector<double> x{0, 2, 4, 6, 0.5, 2.25, 4.5, 6.25, 0, 1.75, 4, 6.5}, y{0, 0, 0.25, 0, 2, 2.5, 2, 2.25, 4, 4, 4.5, 4};
    ms_assert(SetCurvi(id, 3, 4, x, y) == 0, "grid accepted");
    const int first = ms_pick("first", 0, 2);
    const int what = ms_pick("what", 0, 2);
    const int c = ms_pick("change", 0, 7);
    const int upto = c == 7 ? 0 : ms_pick("upto", 0, 2);
    int i;
    mkernel_curvilinear_get_location_index(id, 0.3, 0.4, Loc(what), ALL, i);
    if (first != what) mkernel_curvilinear_get_location_index(id, 0.3, 0.4, Loc(first), BoundingBox{0, 0, 5, 5}, i);
    int rc = 0;
    switch (c)
    {
    case 0: rc = mkernel_curvilinear_move_node(id, 6.5, 4, 8, 5); break;
    case 1: rc = mkernel_curvilinear_insert_face(id, 1, -0.25); break;
    case 2: rc = mkernel_curvilinear_delete_node(id, 6.5, 4); break;
    case 3: rc = mkernel_curvilinear_refine(id, 0, 0, 2, 0, 2); break;
    case 4: rc = mkernel_curvilinear_line_mirror(id, 1.0, 0, 0, 0, 4); break;
    case 5: rc = mkernel_curvilinear_delete_exterior(id, 0, 0, 4.5, 2); break;
    case 6: rc = mkernel_curvilinear_refine(id, 0, 0, 0, 4, 2); break;
    case 7: rc = SetCurvi(id, 2, 3, {8, 9, 10, 8, 9, 10.5}, {1, 1, 1, 2, 2, 2}); break;
    }
    ms_assert(rc == 0, "the change is accepted");
    for (int k = 0; k < upto; ++k)
    {
        if (first == what) mkernel_curvilinear_get_location_index(id, 0.3, 0.4, Loc(what), ALL, i);
        Undo(k == 1);
    }
    double px = 0;
    if (c == 3 || c == 6)
    { // coordinates that are not multiples of a power of two
        const int at = ms_pick("at", 0, 5);
        px = -0.4 + 1.4 * at;
    }
    else
        px = ms_lattice("px2", -1, 19, -1);
    const double py = 2.625;
    int idx = -7;
    ms_assert(mkernel_curvilinear_get_location_index(id, px, py, Loc(what), ALL, idx) == 0, "the query succeeds");
    const auto l = GridLocations(GetCurvi(id), what);
    ms_assert(idx >= 0 && idx < (int)l.size() && l[idx].valid, "the answer is a valid location");
    bool nearest = true;
    for (auto& q : l)
        if (q.valid) nearest &= !((q.x - px) * (q.x - px) + (q.y - py) * (q.y - py) < (l[idx].x - px) * (l[idx].x - px) + (l[idx].y - py) * (l[idx].y - py));
    ms_assert(nearest, "no other location is nearer");
    ms_reach("found");
}
