#include "topo.hpp"
using namespace mk;

// C08: what is set is what is read back.
namespace
{
    void SameAsGiven(const M2& m, const std::vector<double>& x, const std::vector<double>& y, const std::vector<int>& e)
    {
        ms_assert(m.rc == 0 && m.numNodes() == (int)x.size() && m.numEdges() == (int)e.size() / 2, "the numbers of nodes and edges are those that were set");
        bool ok = true;
        for (size_t i = 0; i < x.size(); ++i) ok &= (m.x[i] == x[i]) & (m.y[i] == y[i]);
        ms_assert(ok, "the nodes are those that were set");
        ok = true;
        for (size_t i = 0; i < e.size(); ++i) ok &= m.e[i] == e[i];
        ms_assert(ok, "the edges are those that were set");
    }
    void NodeEdgeData(int id, const M2& m)
    {
        Mesh2D d{};
        ms_assert(mkernel_mesh2d_get_dimensions(id, d) == 0, "dimensions");
        std::vector<double> x(d.num_nodes, -5), y(d.num_nodes, -5);
        std::vector<int> e(2 * d.num_edges, -5);
        d.node_x = x.data();
        d.node_y = y.data();
        d.edge_nodes = e.data();
        ms_assert(mkernel_mesh2d_get_node_edge_data(id, d) == 0, "node and edge data");
        SameAsGiven(m, x, y, e);
    }
    void Join(std::vector<double>& x, std::vector<double>& y, std::vector<int>& e, const std::vector<double>& bx, const std::vector<double>& by, const std::vector<int>& be)
    {
        const int n = (int)x.size();
        x.insert(x.end(), bx.begin(), bx.end());
        y.insert(y.end(), by.begin(), by.end());
        for (int i : be) e.push_back(i + n);
    }
} // namespace
// symbolic coordinates (lattice up to +-512), fixed connectivity, replacing another mesh, then adding to it
MS_HARNESS(mesh2d)
{
    const int id = NewState();
    if (ms_pick("replace", 0, 1))
    {
        auto o = Rect(4, 2);
        ms_assert(SetMesh(id, o.x, o.y, o.e) == 0, "first mesh accepted");
    }
    auto g = Rect(3, 2, 8, 8);
    for (int i : {0, 4})
    {
        const double dx = ms_lattice(nm("dx", i), -2, 2, 0), dy = ms_lattice(nm("dy", i), -2, 2, -1);
        g.x[i] += dx;
        g.y[i] += dy;
    }
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "mesh accepted");
    auto m = Get(id);
    SameAsGiven(m, g.x, g.y, g.e);
    ms_assert(m.numFaces() == 2, "two faces");
    NodeEdgeData(id, m);
    const double ox = ms_lattice("ox", 64, 67, 0);
    auto h = Rect(2, 2, 1, 1, ox, 3);
    Mesh2D a{};
    a.num_nodes = 4;
    a.num_edges = 4;
    a.node_x = h.x.data();
    a.node_y = h.y.data();
    a.edge_nodes = h.e.data();
    ms_assert(mkernel_mesh2d_add(id, a) == 0, "mesh added");
    Join(g.x, g.y, g.e, h.x, h.y, h.e);
    m = Get(id);
    SameAsGiven(m, g.x, g.y, g.e);
    ms_assert(m.numFaces() == 3, "three faces");
    CheckTopology(m);
    ms_reach("mesh2d");
}
// adding to a mesh with unused nodes and edges, in two and one dimension
MS_HARNESS(append)
{
    const int id = NewState();
    auto g = Rect(3, 3);
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "mesh accepted");
    const int kind = ms_pick("kind", 0, 2);
    const int at = ms_int("at", 0, 8);
    if (kind == 1) ms_assert(mkernel_mesh2d_delete_node(id, at) == 0, "node deleted");
    if (kind == 2) ms_assert(mkernel_mesh2d_delete_edge_by_index(id, at) == 0, "edge deleted");
    auto before = Get(id);
    // the last node of the added mesh is not used
    std::vector<double> x{8, 9, 9, 8, 4}, y{0, 0, 1, 1, 7};
    std::vector<int> e{0, 1, 1, 2, 2, 3, 3, 0, 0, 2};
    Mesh2D a{};
    a.num_nodes = 5;
    a.num_edges = 5;
    a.node_x = x.data();
    a.node_y = y.data();
    a.edge_nodes = e.data();
    ms_assert(mkernel_mesh2d_add(id, a) == 0, "mesh added");
    const auto m = Get(id);
    CheckTopology(m);
    const int nn = before.numNodes(), ne = before.numEdges();
    ms_assert(m.numNodes() == nn + 4 && m.numEdges() == ne + 5 && m.numFaces() == before.numFaces() + 2, "the new part is appended");
    for (int i = 0; i < nn; ++i) ms_assert(m.validNode(i) == before.validNode(i) && (!m.validNode(i) || (m.x[i] == before.x[i] && m.y[i] == before.y[i])), "the nodes that were there are unchanged");
    for (int k = 0; k < ne; ++k) ms_assert(m.validEdge(k) == before.validEdge(k) && (!m.validEdge(k) || (m.e[2 * k] == before.e[2 * k] && m.e[2 * k + 1] == before.e[2 * k + 1])), "the edges that were there are unchanged");
    for (int i = 0; i < 4; ++i) ms_assert(m.x[nn + i] == x[i] && m.y[nn + i] == y[i], "the new nodes follow");
    for (int k = 0; k < 10; ++k) ms_assert(m.e[2 * ne + k] == e[k] + nn, "the new edges refer to the new nodes");
    ms_reach("appended");
}
// symbolic connectivity: refused, or what is read back is what was given
MS_HARNESS(edges)
{
    const int id = NewState();
    std::vector<double> x{0, 2, 3, -1, 1}, y{0, 0, 2, 2, 5};
    std::vector<int> e{0, 1, 1, 2, 2, 3, 3, 4};
    for (int k = 0; k < 2; ++k)
    {
        const int a = ms_int(nm("a", k), -2000000000, 2000000000), b = ms_int(nm("b", k), -2000000000, 2000000000);
        ms_assume(a != b);
        e.push_back(a);
        e.push_back(b);
    }
    bool good = true;
    for (int k = 8; k < 12; ++k) good &= (e[k] >= 0) & (e[k] < 5);
    std::set<std::pair<int, int>> s;
    if (good)
        for (int k = 0; k < 6; ++k) good &= s.insert({std::min(e[2 * k], e[2 * k + 1]), std::max(e[2 * k], e[2 * k + 1])}).second;
    const int rc = SetMesh(id, x, y, e);
    const auto m = Get(id);
    if (rc == 0)
    {
        ms_assert(m.rc == 0, "an accepted mesh can be read");
        for (int k = 0; k < m.numEdges(); ++k) ms_assert(!m.validEdge(k) || (m.validNode(m.e[2 * k]) && m.validNode(m.e[2 * k + 1])), "an edge refers to existing nodes");
    }
    else ms_assert(m.rc == 0 && m.numNodes() == 0 && m.numEdges() == 0, "a refused mesh leaves the state as it was");
    if (good)
    {
        ms_assert(rc == 0, "a mesh with valid connectivity is accepted");
        SameAsGiven(m, x, y, e);
        ms_reach("accepted");
    }
    else ms_reach("odd");
}
// faces given by the caller
MS_HARNESS(faces)
{
    const int id = NewState();
    auto g = Rect(3, 2);
    const double dx = ms_lattice("dx", -3, 3, -2);
    g.x[1] += dx;
    std::vector<int> fn{0, 1, 4, 3, 1, 2, 5, 4}, npf{4, 4};
    const int rot = ms_pick("rotate", 0, 3), second = ms_pick("faces", 1, 2);
    std::rotate(fn.begin(), fn.begin() + rot, fn.begin() + 4);
    Mesh2D a{};
    a.num_nodes = 6;
    a.num_edges = 7;
    a.num_faces = second;
    a.num_face_nodes = 4 * second;
    a.node_x = g.x.data();
    a.node_y = g.y.data();
    a.edge_nodes = g.e.data();
    a.face_nodes = fn.data();
    a.nodes_per_face = npf.data();
    ms_assert(mkernel_mesh2d_set(id, a) == 0, "mesh with faces accepted");
    const auto m = Get(id);
    SameAsGiven(m, g.x, g.y, g.e);
    CheckTopology(m);
    ms_assert(m.numFaces() == 2, "all faces are there");
    ms_reach("faces");
}
// a face list that does not fit the edges is refused or ignored
MS_HARNESS(badfaces)
{
    const int id = NewState();
    auto g = Rect(3, 2);
    std::vector<int> fn{0, 1, 4, 3, 1, 2, 5, 4, 0, 1, 4, 3}, npf{4, 4, 4};
    const int at = ms_pick("at", 0, 11);
    const int node = ms_int("node", -2000000000, 2000000000);
    fn[at] = node;
    Mesh2D a{};
    a.num_nodes = 6;
    a.num_edges = 7;
    a.num_faces = ms_pick("faces", 2, 3);
    a.num_face_nodes = 4 * a.num_faces;
    a.node_x = g.x.data();
    a.node_y = g.y.data();
    a.edge_nodes = g.e.data();
    a.face_nodes = fn.data();
    a.nodes_per_face = npf.data();
    if (mkernel_mesh2d_set(id, a) != 0) return;
    const auto m = Get(id);
    CheckTopology(m);
    ms_reach("accepted");
}
MS_HARNESS(mesh1d)
{
    const int id = NewState();
    std::vector<double> x(4), y(4);
    for (int i = 0; i < 4; ++i)
    {
        x[i] = ms_lattice(nm("x", i), 2 * i, 2 * i + 2, -1);
        y[i] = i % 2 ? ms_lattice(nm("y", i), -1, 1, -3) : 0.0;
    }
    std::vector<int> e{0, 1, 2, 1};
    const int a = ms_int("a", 0, 2);
    e.push_back(3);
    e.push_back(a);
    ms_assert(SetMesh1(id, x, y, e) == 0, "1d mesh accepted");
    auto m = Get1(id);
    bool ok = m.rc == 0 && m.x.size() == 4 && m.e.size() == 6;
    ms_assert(ok, "the numbers are those that were set");
    for (int i = 0; i < 4; ++i) ok &= (m.x[i] == x[i]) & (m.y[i] == y[i]);
    for (int i = 0; i < 6; ++i) ok &= m.e[i] == e[i];
    ms_assert(ok, "the 1d mesh is the one that was set");
    std::vector<double> bx{x[0] + 1, 3}, by{7, y[1]};
    std::vector<int> be{1, 0};
    Mesh1D b{};
    b.num_nodes = 2;
    b.num_edges = 1;
    b.node_x = bx.data();
    b.node_y = by.data();
    b.edge_nodes = be.data();
    ms_assert(mkernel_mesh1d_add(id, b) == 0, "1d mesh added");
    Join(x, y, e, bx, by, be);
    m = Get1(id);
    ms_assert(m.rc == 0 && m.x.size() == 6 && m.e.size() == 8, "the numbers are the sums");
    ok = true;
    for (int i = 0; i < 6; ++i) ok &= (m.x[i] == x[i]) & (m.y[i] == y[i]);
    for (int i = 0; i < 8; ++i) ok &= m.e[i] == e[i];
    ms_assert(ok, "the added 1d mesh follows the first one");
    ms_reach("mesh1d");
}
MS_HARNESS(contacts)
{
    const int id = NewState();
    const int n = ms_pick("n", 1, 3);
    std::vector<int> a(4), b(4);
    for (int i = 0; i < n; ++i)
    {
        a[i] = ms_int(nm("a", i), 0, 1000000);
        b[i] = ms_int(nm("b", i), 0, 1000000);
    }
    for (int twice = 0; twice < 2; ++twice)
    {
        Contacts c{};
        c.num_contacts = n;
        c.mesh1d_indices = a.data();
        c.mesh2d_indices = b.data();
        const int rc = mkernel_contacts_set(id, c);
        ms_assert(rc == 0, "contacts accepted");
        const auto r = GetContacts(id);
        ms_assert(r.rc == 0 && (int)r.m1.size() == n, "the number is the one that was set");
        bool ok = true;
        for (int i = 0; i < n; ++i) ok &= (r.m1[i] == a[i]) & (r.m2[i] == b[i]);
        ms_assert(ok, "the contacts are those that were set");
        std::swap(a, b);
    }
    ms_reach("contacts");
}
MS_HARNESS(curvilinear)
{
    const int id = NewState();
    const int n = ms_pick("n", 2, 4), m = ms_pick("m", 2, 3);
    std::vector<double> x, y;
    for (int i = 0; i < n * m; ++i)
    {
        x.push_back((i % m) * 4.0);
        y.push_back((i / m) * 4.0);
    }
    for (int k = 0; k < 2; ++k)
    {
        const int at = ms_pick(nm("at", k), 0, 3);
        const double dx = ms_lattice(nm("dx", k), -1, 1, -2), dy = k ? 0.0 : ms_lattice(nm("dy", k), -1, 1, -1);
        x[at] += dx;
        y[at] += dy;
    }
    const bool hole = ms_pick("hole", 0, 1) == 1;
    if (hole) x[n * m - 1] = y[n * m - 1] = MISSING;
    ms_assert(SetCurvi(id, n, m, x, y) == 0, "grid accepted");
    const auto g = GetCurvi(id);
    ms_assert(g.rc == 0 && g.n == n && g.m == m, "the dimensions are those that were set");
    bool ok = true;
    for (int i = 0; i < n * m; ++i) ok &= (g.x[i] == x[i]) & (g.y[i] == y[i]);
    ms_assert(ok, "the grid nodes are those that were set");
    // conversion to a 2d mesh: one node per valid grid node, one edge per valid grid edge, one face per valid cell
    ms_assert(mkernel_curvilinear_convert_to_mesh2d(id) == 0, "converted");
    const auto r = Get(id);
    CheckTopology(r);
    int nodes = 0, edges = 0, cells = 0;
    auto v = [&](int i, int j) { return x[i * m + j] != MISSING; };
    auto find = [&](int i, int j) {
        int c = 0;
        for (int q = 0; q < r.numNodes(); ++q) c += (r.x[q] == x[i * m + j]) & (r.y[q] == y[i * m + j]);
        return c;
    };
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < m; ++j)
        {
            if (!v(i, j)) continue;
            ++nodes;
            ms_assert(find(i, j) >= 1, "every valid grid node is a mesh node");
            edges += (i + 1 < n && v(i + 1, j)) + (j + 1 < m && v(i, j + 1));
            cells += i + 1 < n && j + 1 < m && v(i + 1, j) && v(i, j + 1) && v(i + 1, j + 1);
        }
    ms_assert(r.nvn == nodes && r.nve == edges && r.numFaces() == cells, "nodes, edges and faces of the mesh are those of the grid");
    ms_assert(GetCurvi(id).x.empty(), "the grid is gone after the conversion");
    ms_reach("curvilinear");
}
