// C17: rectangular grids and meshes are laid out as asked.
#include "topo.hpp"
#include "geom.hpp"
using namespace mk;
using meshkernel::MakeGridParameters;
namespace
{
    // the mesh of the same request holds exactly the nodes and cells of the grid, besides what was there
    void CheckMesh(int id, const M2& before, const CG& g)
    {
        const auto m = Get(id);
        CheckTopology(m);
        bool ok = true;
        int old = 0;
        for (int i = 0; i < before.numNodes(); ++i)
        {
            ok &= (m.x[i] == before.x[i]) & (m.y[i] == before.y[i]);
            ++old;
        }
        ms_assert(ok, "the nodes that were there stay");
        std::vector<P> want;
        int cells = 0, edges = 0;
        for (int i = 0; i < g.n; ++i)
            for (int j = 0; j < g.m; ++j)
            {
                if (!g.valid(i, j)) continue;
                want.push_back({g.X(i, j), g.Y(i, j)});
                const bool r = j + 1 < g.m && g.valid(i, j + 1), u = i + 1 < g.n && g.valid(i + 1, j);
                edges += r + u;
                cells += r && u && g.valid(i + 1, j + 1);
            }
        ms_assert(m.numFaces() == before.numFaces() + cells, "there is one cell for each cell of the grid");
        ms_assert(m.nvn == before.nvn + (int)want.size() && m.nve == before.nve + edges, "there is one node for each node of the grid");
        int found = 0;
        for (const P& w : want)
        {
            bool is = false;
            for (int i = old; i < m.numNodes(); ++i) is |= (w.x == m.x[i]) & (w.y == m.y[i]);
            found += is;
        }
        ms_assert(found == (int)want.size(), "the nodes of the mesh are those of the grid");
    }
    bool In(const Ring& r, P p) { return InRing(r, p) | OnRing(r, p); }
    int Start(bool filled)
    {
        const int id = NewState();
        if (filled)
        {
            auto g = Rect(2, 2, 3, 3, 1000, 1000);
            SetMesh(id, g.x, g.y, g.e);
        }
        return id;
    }
    template <typename A, typename B>
    CG Both(bool filled, A grid, B mesh, bool withMesh = true)
    {
        const int id = Start(filled);
        const auto before = GetSnap(id);
        const int rc = grid(id);
        const auto g = GetCurvi(id);
        if (rc)
        {
            ms_assert(SameSnap(before, GetSnap(id)), "a refused grid changes nothing");
            if (withMesh) ms_assert(mesh(id) != 0, "a grid that is refused is refused as a mesh");
            ms_assert(SameSnap(before, GetSnap(id)), "a refused mesh changes nothing");
            ms_reach("refused");
            CG r;
            r.rc = rc;
            return r;
        }
        bool undone = false;
        int whose = -1;
        if (withMesh)
        {
            ms_assert(mesh(id) == 0, "a grid that is made is made as a mesh");
            CheckMesh(id, before.m2, g);
            ms_assert(mkernel_undo_state(undone, whose) == 0 && undone && whose == id, "the mesh is undone");
        }
        ms_assert(mkernel_undo_state(undone, whose) == 0 && undone && whose == id, "the grid is undone");
        ms_assert(SameSnap(before, GetSnap(id), false), "nothing of it is left");
        return g;
    }
} // namespace
MS_HARNESS(straight)
{
    // as a grid in any place, and as a mesh in a few
    const bool mesh = ms_pick("mesh", 0, 1);
    const bool filled = mesh && ms_pick("filled", 0, 1);
    const int cols = ms_pick("columns", -1, 3);
    const int rows = ms_pick("rows", -1, 3);
    MakeGridParameters p;
    p.num_columns = cols;
    p.num_rows = rows;
    p.angle = 0;
    if (mesh)
        p.origin_x = -3, p.origin_y = 5.5;
    else
    {
        p.origin_x = ms_lattice("x", -16, 16, -1);
        p.origin_y = ms_lattice("y", -16, 16, -1);
    }
    if (mesh)
    {
        p.block_size_x = 0.75 * ms_pick("width", -1, 2);
        p.block_size_y = 2.5 * ms_pick("height", -1, 1);
    }
    else
    {
        p.block_size_x = ms_lattice("wide", -1, 32, -1);
        p.block_size_y = ms_lattice("high", -1, 32, -1);
    }
    const bool bad = (cols < 1) | (rows < 1) | (p.block_size_x <= 0) | (p.block_size_y <= 0);
    const auto g = Both(filled, [&](int id) { return mkernel_curvilinear_compute_rectangular_grid(id, p); }, [&](int id) { return mkernel_mesh2d_make_rectangular_mesh(id, p); }, mesh);
    ms_assert(bad == (g.rc != 0), "a grid without cells is refused and any other is made");
    if (g.rc) return;
    ms_assert(g.n == rows + 1 && g.m == cols + 1, "there are as many rows and columns as asked");
    bool ok = true;
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j) ok &= (g.X(i, j) == p.origin_x + j * p.block_size_x) & (g.Y(i, j) == p.origin_y + i * p.block_size_y);
    ms_assert(ok, "the nodes are where they should be");
    ms_reach("made");
}
MS_HARNESS(turned)
{
    const int cols = 2, rows = 2;
    const int big = ms_pick("big", 0, 2);
    MakeGridParameters p;
    p.num_columns = cols;
    p.num_rows = rows;
    p.angle = 22.5 * ms_pick("angle", -5, 5);
    const int far = ms_pick("far", -1, 1);
    p.origin_x = 1000 * far;
    p.origin_y = 7 - 100 * far;
    p.block_size_x = 1 + 1.5 * (big == 1);
    p.block_size_y = 1 + 1.5 * (big == 2);
    const int id = NewState();
    const int rc = mkernel_curvilinear_compute_rectangular_grid(id, p);
    ms_assert((rc == 0) == (p.angle > -90 && p.angle < 90), "a grid turned by a right angle or more is refused and any other is made");
    if (rc)
    {
        ms_reach("refused");
        return;
    }
    const auto g = GetCurvi(id);
    ms_assert(g.n == rows + 1 && g.m == cols + 1, "there are as many rows and columns as asked");
    const double c = std::cos(p.angle * M_PI / 180), s = std::sin(p.angle * M_PI / 180);
    bool ok = (g.X(0, 0) == p.origin_x) & (g.Y(0, 0) == p.origin_y);
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j)
        {
            const double ex = g.X(i, j) - p.origin_x - (j * p.block_size_x * c - i * p.block_size_y * s);
            const double ey = g.Y(i, j) - p.origin_y - (j * p.block_size_x * s + i * p.block_size_y * c);
            ok &= (ex < 1e-9) & (ex > -1e-9) & (ey < 1e-9) & (ey > -1e-9);
        }
    ms_assert(ok, "the nodes are where they should be");
    ms_reach("turned");
}
MS_HARNESS(extension)
{
    // as a grid in any place, and as a mesh in a few
    const bool mesh = ms_pick("mesh", 0, 1);
    const bool filled = mesh && ms_pick("filled", 0, 1);
    MakeGridParameters p;
    p.angle = 0;
    if (mesh)
        p.origin_x = -3, p.origin_y = 5.5;
    else
    {
        p.origin_x = ms_lattice("x", -16, 16, -1);
        p.origin_y = ms_lattice("y", -16, 16, -1);
    }
    const int w = ms_pick("width", -3, 7);
    const int h = ms_pick("height", -3, 7);
    p.upper_right_x = p.origin_x + w;
    p.upper_right_y = p.origin_y + h;
    const int bx = ms_pick("block x", 0, 1);
    const int by = ms_pick("block y", -1, 1);
    p.block_size_x = bx ? 4 : 2;
    p.block_size_y = by < 0 ? 0 : by ? 4 : 1;
    const auto g = Both(filled, [&](int id) { return mkernel_curvilinear_compute_rectangular_grid_on_extension(id, p); }, [&](int id) { return mkernel_mesh2d_make_rectangular_mesh_on_extension(id, p); }, mesh);
    if (w <= 0 || h <= 0 || by < 0) ms_assert(g.rc != 0, "an extension without area is refused");
    if (w >= p.block_size_x && h >= p.block_size_y && by >= 0) ms_assert(g.rc == 0, "an extension with place for a block is filled");
    if (g.rc) return;
    bool ok = (g.n > 1) & (g.m > 1);
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j) ok &= (g.X(i, j) == p.origin_x + j * p.block_size_x) & (g.Y(i, j) == p.origin_y + i * p.block_size_y);
    ms_assert(ok, "the blocks start at the origin and have the size asked for");
    ms_assert((g.m - 1) * p.block_size_x >= w && (g.n - 1) * p.block_size_y >= h, "the blocks cover the extension");
    ms_assert((g.m - 2) * p.block_size_x < w && (g.n - 2) * p.block_size_y < h, "there is no block beyond the extension");
    ms_reach("made");
}
MS_HARNESS(polygon)
{
    const bool filled = ms_pick("filled", 0, 1);
    const int w = ms_pick("width", 1, 4);
    const int h = ms_pick("height", 1, 4);
    const double x = -3, y = 5;
    // the upper right corner of the box is anywhere within it
    const double cx = -3 + 0.75 * ms_pick("x", 1, 6);
    const double cy = 5 + 0.75 * ms_pick("y", 1, 6);
    ms_assume((cx < x + 1.25 * w) & (cy < y + 1.25 * h));
    MakeGridParameters p;
    p.angle = 0;
    p.block_size_x = 1.25;
    p.block_size_y = 1.5;
    Ring r{{x, y}, {x + 1.25 * w, y}, {cx, cy}, {x, y + 1.25 * h}};
    Poly q;
    AddRing(q, r);
    const auto g = Both(
        filled, [&](int id) { return mkernel_curvilinear_compute_rectangular_grid_from_polygon(id, p, q.gl()); }, [&](int id) { return mkernel_mesh2d_make_rectangular_mesh_from_polygon(id, p, q.gl()); });
    ms_assert(g.rc == 0, "the polygon is filled");
    // the blocks have their size, and the cells are those with four corners in the polygon
    int fi = -1, fj = -1, n = 0;
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j)
            if (g.valid(i, j))
            {
                if (fi < 0) fi = i, fj = j;
                ++n;
            }
    bool ok = true;
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j)
        {
            if (!g.valid(i, j)) continue;
            const P at{g.X(i, j), g.Y(i, j)};
            ok &= (at.x == g.X(fi, fj) + (j - fj) * p.block_size_x) & (at.y == g.Y(fi, fj) + (i - fi) * p.block_size_y) & In(r, at);
            bool cell = false;
            for (int a = -1; a <= 0; ++a)
                for (int b = -1; b <= 0; ++b)
                {
                    const int u = i + a, v = j + b;
                    if (u < 0 || v < 0 || u + 1 >= g.n || v + 1 >= g.m) continue;
                    cell |= g.valid(u, v) && g.valid(u + 1, v) && g.valid(u, v + 1) && g.valid(u + 1, v + 1);
                }
            ok &= cell;
        }
    ms_assert(ok, "every node is a corner of a block of the size asked for and lies in the polygon");
    if (!n) return;
    // the lattice of the blocks, continued over the whole polygon
    bool complete = true;
    for (int i = -6; i <= 6; ++i)
        for (int j = -6; j <= 6; ++j)
        {
            const double ax = g.X(fi, fj) + j * p.block_size_x, ay = g.Y(fi, fj) + i * p.block_size_y;
            const bool in = In(r, {ax, ay}) & In(r, {ax + p.block_size_x, ay}) & In(r, {ax, ay + p.block_size_y}) & In(r, {ax + p.block_size_x, ay + p.block_size_y});
            const int u = fi + i, v = fj + j;
            const bool have = u >= 0 && v >= 0 && u + 1 < g.n && v + 1 < g.m && g.valid(u, v) && g.valid(u + 1, v) && g.valid(u, v + 1) && g.valid(u + 1, v + 1);
            complete &= in == have;
        }
    ms_assert(complete, "exactly the blocks within the polygon are there");
    ms_reach("filled");
}
// grids on a circle, and grids whose cells grow
MS_HARNESS(circle)
{
    MakeGridParameters p;
    p.num_columns = ms_pick("columns", 1, 7);
    p.num_rows = ms_pick("rows", 1, 3);
    const double r[4] = {0.5, 1, 3, 10}, d[3] = {0.25, 1, 4}, a[5] = {-90, -30, 0, 45, 90};
    p.radius_curvature = r[ms_pick("radius", 0, 3)];
    p.block_size_x = d[ms_pick("dx", 0, 2)];
    p.block_size_y = d[ms_pick("dy", 0, 2)];
    p.angle = a[ms_pick("angle", 0, 4)];
    p.origin_x = ms_pick("x", 0, 1) * 5 - 2;
    p.origin_y = 3;
    p.uniform_rows_fraction = 1;
    const int graded = ms_pick("graded", 0, 2);
    if (graded == 1) p.uniform_columns_fraction = 0.5;
    if (graded == 2) p.maximum_uniform_size_rows = 1, p.uniform_rows_fraction = 0.5;
    const CG g = Both(ms_pick("filled", 0, 1), [&](int id)
                      { return mkernel_curvilinear_compute_circular_grid(id, p); }, [&](int)
                      { return 0; }, false);
    ms_assert(g.rc == 0 && g.n == p.num_rows + 1 && g.m == p.num_columns + 1, "the grid has the rows and columns asked for");
    const double pi = 3.14159265358979323846;
    double step = p.block_size_x / p.radius_curvature;
    if (step * p.num_columns > 2 * pi) step = 2 * pi / p.num_columns;
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j)
        {
            const double q = p.radius_curvature + i * p.block_size_y, t = p.angle * pi / 180 + pi / 2 - j * step;
            ms_assert(std::fabs(g.X(i, j) - (p.origin_x + q * std::cos(t))) < 1e-9 && std::fabs(g.Y(i, j) - (p.origin_y + q * std::sin(t))) < 1e-9, "every node is in its place on its circle");
        }
    ms_reach(step * p.num_columns > 6.28 ? "closed" : "open");
}
MS_HARNESS(graded)
{
    MakeGridParameters p;
    p.num_columns = ms_pick("columns", 1, 6);
    p.num_rows = ms_pick("rows", 1, 5);
    p.block_size_x = 2;
    p.block_size_y = 3;
    const double a[3] = {-90, 0, 30}, f[6] = {0, 0.25, 0.5, 0.75, 1, 1.5}, s[3] = {1, 2, 5};
    const double angle = a[ms_pick("angle", 0, 2)];
    p.angle = angle;
    p.radius_curvature = ms_pick("round", 0, 1) ? 40 : 0;
    const int fc = ms_pick("columnsfraction", 0, 5), fr = ms_pick("rowsfraction", 0, 5), sc = ms_pick("columnssize", 0, 2), sr = ms_pick("rowssize", 0, 2);
    if (!ms_thorough() && (fc != fr && sc != sr)) return;
    p.uniform_columns_fraction = f[fc];
    p.uniform_rows_fraction = f[fr];
    p.maximum_uniform_size_columns = s[sc];
    p.maximum_uniform_size_rows = s[sr];
    const CG g = Both(false, [&](int id)
                      { return mkernel_curvilinear_compute_circular_grid(id, p); }, [&](int)
                      { return 0; }, false);
    if (g.rc) return;
    ms_assert(g.n == p.num_rows + 1 && g.m == p.num_columns + 1, "the grid has the rows and columns asked for");
    bool finite = true;
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j) finite &= std::isfinite(g.X(i, j)) && std::isfinite(g.Y(i, j)) && g.valid(i, j);
    ms_assert(finite, "every node has a place");
    // the steps between lines, across and along
    auto Step = [&](int i0, int j0, int i1, int j1)
    { return std::hypot(g.X(i1, j1) - g.X(i0, j0), g.Y(i1, j1) - g.Y(i0, j0)); };
    std::vector<double> up, right;
    for (int i = 0; i + 1 < g.n; ++i) up.push_back(Step(i, 0, i + 1, 0));
    for (int j = 0; j + 1 < g.m; ++j) right.push_back(Step(0, j, 0, j + 1));
    for (int i = 0; i + 1 < g.n; ++i)
        for (int j = 0; j < g.m; ++j) ms_assert(std::fabs(Step(i, j, i + 1, j) - up[i]) < 1e-9, "the rows are equally far apart everywhere");
    for (size_t k = 0; k < up.size(); ++k)
    {
        ms_assert(up[k] > p.block_size_y - 1e-9, "no row is thinner than asked for");
        if (k) ms_assert(up[k] > up[k - 1] - 1e-9, "the rows only grow");
        if (fr == 4 || sr == 0) ms_assert(std::fabs(up[k] - p.block_size_y) < 1e-9, "uniform rows have the size asked for");
    }
    if (p.radius_curvature == 0)
    {
        const size_t c = right.size();
        for (size_t k = 0; k < c; ++k)
        {
            ms_assert(right[k] > p.block_size_x - 1e-9, "no column is thinner than asked for");
            ms_assert(right[k] < p.block_size_x * p.maximum_uniform_size_columns + 1e-9, "no column is wider than asked for");
            ms_assert(std::fabs(right[k] - right[c - 1 - k]) < 1e-9, "the columns grow the same way to both sides");
            if (k && 2 * k <= c - 1) ms_assert(right[k] < right[k - 1] + 1e-9, "the columns only grow outwards");
            if (fc == 4 || sc == 0) ms_assert(std::fabs(right[k] - p.block_size_x) < 1e-9, "uniform columns have the size asked for");
        }
        const double t = angle * 3.14159265358979323846 / 180;
        ms_assert(std::fabs(g.X(0, 1) - g.X(0, 0) - right[0] * std::cos(t)) < 1e-9 && std::fabs(g.Y(0, 1) - g.Y(0, 0) - right[0] * std::sin(t)) < 1e-9, "the columns lie at the angle asked for");
        ms_assert(std::fabs(g.X(1, 0) - g.X(0, 0) + up[0] * std::sin(t)) < 1e-9 && std::fabs(g.Y(1, 0) - g.Y(0, 0) - up[0] * std::cos(t)) < 1e-9, "the rows lie at the angle asked for");
    }
    ms_reach("graded");
}
