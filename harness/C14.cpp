#include "geom.hpp"
using namespace mk;

// C14: edits of curvilinear grids. Grids of N x M nodes, cells of size 4.
namespace
{
    bool Undo(int id)
    {
        bool done = false;
        int of = -1;
        return mkernel_undo_state(done, of) == 0 && done && of == id;
    }
    bool Redo(int id)
    {
        bool done = false;
        int of = -1;
        return mkernel_redo_state(done, of) == 0 && done && of == id;
    }
    CG Make(int n, int m, double size = 4)
    {
        CG g;
        g.n = n;
        g.m = m;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < m; ++j)
            {
                g.x.push_back(size * j);
                g.y.push_back(size * i);
            }
        return g;
    }
    void Drop(CG& g, int i, int j) { g.x[i * g.m + j] = g.y[i * g.m + j] = MISSING; }
    bool Cell(const CG& g, int i, int j)
    {
        return i >= 0 && j >= 0 && i + 1 < g.n && j + 1 < g.m && g.valid(i, j) && g.valid(i + 1, j) && g.valid(i, j + 1) && g.valid(i + 1, j + 1);
    }
    // nodes that are not a corner of any cell disappear
    CG Tidy(const CG& g)
    {
        CG r = g;
        for (int i = 0; i < g.n; ++i)
            for (int j = 0; j < g.m; ++j)
                if (!Cell(g, i, j) && !Cell(g, i - 1, j) && !Cell(g, i, j - 1) && !Cell(g, i - 1, j - 1)) Drop(r, i, j);
        return r;
    }
    bool Near(double a, double b) { return a - b < 1e-9 && b - a < 1e-9; }
    bool Close(const CG& a, const CG& b)
    {
        if (a.rc || a.n != b.n || a.m != b.m) return false;
        for (size_t i = 0; i < a.x.size(); ++i)
            if (!Near(a.x[i], b.x[i]) || !Near(a.y[i], b.y[i])) return false;
        return true;
    }
    // a point that is nearer to node (i, j) than to any other, up to distance sqrt(2)
    struct Click
    {
        int i, j;
        double x, y;
    };
    Click Choose(const CG& g, int k)
    {
        Click c;
        c.i = ms_pick(nm("n", k), 0, g.n - 1);
        c.j = ms_pick(nm("m", k), 0, g.m - 1);
        ms_assume(g.valid(c.i, c.j));
        const double dx = ms_lattice(nm("dx", k), -1, 1, 0);
        const double dy = ms_lattice(nm("dy", k), -1, 1, 0);
        c.x = g.X(c.i, c.j) + dx;
        c.y = g.Y(c.i, c.j) + dy;
        return c;
    }
    int Start(const CG& g)
    {
        const int id = NewState();
        ms_assert(SetCurvi(id, g.n, g.m, g.x, g.y) == 0, "set");
        return id;
    }
    // a grid with at most one missing node
    CG Some(int n, int m)
    {
        CG g = Make(n, m);
        const int hole = ms_pick("hole", -1, n * m - 1);
        if (hole >= 0) Drop(g, hole / m, hole % m);
        return Tidy(g);
    }
    CG Refined(const CG& g, int i0, int i1, int fi, int j0, int j1, int fj)
    {
        std::vector<std::pair<int, double>> rows, cols; // cell and fraction
        for (int i = 0; i + 1 < g.n; ++i)
            for (int k = 0; k < (i >= i0 && i < i1 ? fi : 1); ++k) rows.push_back({i, double(k) / (i >= i0 && i < i1 ? fi : 1)});
        rows.push_back({g.n - 1, 0.0});
        for (int j = 0; j + 1 < g.m; ++j)
            for (int k = 0; k < (j >= j0 && j < j1 ? fj : 1); ++k) cols.push_back({j, double(k) / (j >= j0 && j < j1 ? fj : 1)});
        cols.push_back({g.m - 1, 0.0});
        CG r;
        r.n = (int)rows.size();
        r.m = (int)cols.size();
        for (auto [i, u] : rows)
            for (auto [j, v] : cols)
            {
                // the new node belongs to any of the cells around it
                bool in = false;
                for (int a = 0; a < 2; ++a)
                    for (int b = 0; b < 2; ++b)
                        if ((a == 0 || u == 0) && (b == 0 || v == 0)) in |= Cell(g, i - a, j - b);
                r.x.push_back(in ? 4 * (j + v) : MISSING);
                r.y.push_back(in ? 4 * (i + u) : MISSING);
            }
        return r;
    }
}
// refining between two nodes of a grid line
MS_HARNESS(refine)
{
    const CG g = Some(3, 4);
    const int id = Start(g);
    const Click a = Choose(g, 0), b = Choose(g, 1);
    const int f = ms_pick("factor", 1, 3);
    const int rc = mkernel_curvilinear_refine(id, a.x, a.y, b.x, b.y, f);
    const CG r = GetCurvi(id);
    if ((a.i != b.i && a.j != b.j) || (a.i == b.i && a.j == b.j))
    {
        ms_assert(rc != 0 && SameGrid(r, g), "nodes that are not on a grid line are refused");
        ms_reach("refused");
        return;
    }
    ms_assert(rc == 0, "refining is done");
    const CG e = Refined(g, std::min(a.i, b.i), std::max(a.i, b.i), f, std::min(a.j, b.j), std::max(a.j, b.j), f);
    ms_assert(Close(r, e), "each cell along the line is cut in equal parts and nothing else changes");
    ms_reach("refined");
}
MS_HARNESS(full)
{
    const CG g = Some(3, 4);
    const int id = Start(g);
    const int fm = ms_pick("fm", 1, 3);
    const int fn = ms_pick("fn", 1, 3);
    ms_assert(mkernel_curvilinear_full_refine(id, fm, fn) == 0, "refining is done");
    ms_assert(Close(GetCurvi(id), Refined(g, 0, g.n, fn, 0, g.m, fm)), "every cell is cut in equal parts");
}
// old nodes of a distorted grid stay where they are
MS_HARNESS(keep)
{
    CG g = Make(3, 4);
    const int k = ms_pick("node", 0, 11);
    const int dx = ms_pick("dx", -1, 1);
    const int dy = ms_pick("dy", -1, 1);
    g.x[k] += dx;
    g.y[k] += dy;
    const int id = Start(g);
    const bool whole = ms_bool("whole");
    int f[2] = {2, 3}; // along n, m
    if (whole) ms_assert(mkernel_curvilinear_full_refine(id, 3, 2) == 0, "refining is done");
    else
    {
        const bool along = ms_pick("along m", 0, 1);
        f[along ? 0 : 1] = 1;
        ms_assert((along ? mkernel_curvilinear_refine(id, g.X(0, 0), g.Y(0, 0), g.X(0, 3), g.Y(0, 3), 3) : mkernel_curvilinear_refine(id, g.X(0, 0), g.Y(0, 0), g.X(2, 0), g.Y(2, 0), 2)) == 0, "refining is done");
    }
    const CG r = GetCurvi(id);
    ms_assert(r.n == 2 * f[0] + 1 && r.m == 3 * f[1] + 1, "the refined grid has the right size");
    bool ok = true;
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j) ok &= Near(r.X(i * f[0], j * f[1]), g.X(i, j)) & Near(r.Y(i * f[0], j * f[1]), g.Y(i, j));
    ms_assert(ok, "every node of the grid is kept");
    // derefining each line again gives the old grid back
    if (whole)
    {
        for (int i = 0; i < 2; ++i)
        {
            const CG c = GetCurvi(id);
            ms_assert(mkernel_curvilinear_derefine(id, c.X(i, 0), c.Y(i, 0), c.X(i + 2, 0), c.Y(i + 2, 0)) == 0, "derefining is done");
        }
        for (int j = 0; j < 3; ++j)
        {
            const CG c = GetCurvi(id);
            ms_assert(mkernel_curvilinear_derefine(id, c.X(0, j), c.Y(0, j), c.X(0, j + 3), c.Y(0, j + 3)) == 0, "derefining is done");
        }
        ms_assert(Close(GetCurvi(id), g), "derefining gives back what was refined");
    }
}
MS_HARNESS(derefine)
{
    const CG g = Some(3, 4);
    const int id = Start(g);
    const Click a = Choose(g, 0), b = Choose(g, 1);
    const int rc = mkernel_curvilinear_derefine(id, a.x, a.y, b.x, b.y);
    const CG r = GetCurvi(id);
    if (a.i == b.i && a.j == b.j)
    {
        ms_assert(rc != 0 && SameGrid(r, g), "coinciding nodes are refused");
        ms_reach("refused");
        return;
    }
    ms_assert(rc == 0, "derefining is done");
    CG e;
    for (int i = 0; i < g.n; ++i)
    {
        if (i > std::min(a.i, b.i) && i < std::max(a.i, b.i)) continue;
        ++e.n;
        e.m = 0;
        for (int j = 0; j < g.m; ++j)
        {
            if (j > std::min(a.j, b.j) && j < std::max(a.j, b.j)) continue;
            ++e.m;
            e.x.push_back(g.X(i, j));
            e.y.push_back(g.Y(i, j));
        }
    }
    ms_assert(SameGrid(r, Tidy(e)) || SameGrid(r, e), "exactly the grid lines strictly between the nodes are gone");
}
MS_HARNESS(block)
{
    const CG g = Some(4, 4);
    const int id = Start(g);
    const Click a = Choose(g, 0), b = Choose(g, 1);
    const bool inside = ms_bool("inside");
    const int rc = inside ? mkernel_curvilinear_delete_interior(id, a.x, a.y, b.x, b.y) : mkernel_curvilinear_delete_exterior(id, a.x, a.y, b.x, b.y);
    const CG r = GetCurvi(id);
    if (a.i == b.i && a.j == b.j)
    {
        ms_assert(rc != 0 && SameGrid(r, g), "coinciding corners are refused");
        return;
    }
    ms_assert(rc == 0, "deleting is done");
    const int i0 = std::min(a.i, b.i), i1 = std::max(a.i, b.i), j0 = std::min(a.j, b.j), j1 = std::max(a.j, b.j);
    CG e = g;
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j)
            if (inside ? i > i0 && i < i1 && j > j0 && j < j1 : i < i0 || i > i1 || j < j0 || j > j1) Drop(e, i, j);
    ms_assert(SameGrid(r, Tidy(e)), "exactly the nodes strictly inside (outside) the block and those without a cell are gone");
    ms_reach(inside ? "inside" : "outside");
}
MS_HARNESS(node)
{
    const CG g = Some(3, 4);
    const int id = Start(g);
    const Click a = Choose(g, 0);
    CG e = g;
    const bool del = ms_bool("delete");
    if (del)
    {
        ms_assert(mkernel_curvilinear_delete_node(id, a.x, a.y) == 0, "deleting is done");
        Drop(e, a.i, a.j);
        e = Tidy(e);
    }
    else
    {
        const double x = ms_lattice("x", -8, 24, 1);
        const double y = ms_lattice("y", -8, 24, 1);
        ms_assert(mkernel_curvilinear_move_node(id, a.x, a.y, x, y) == 0, "moving is done");
        e.x[a.i * g.m + a.j] = x;
        e.y[a.i * g.m + a.j] = y;
    }
    ms_assert(SameGrid(GetCurvi(id), e), "exactly the nearest node is deleted or moved");
    ms_reach(del ? "deleted" : "moved");
}
// a face is added at the rim edge nearest to the point
MS_HARNESS(face)
{
    CG g = Some(3, 4);
    const int id = Start(g);
    // an edge: first node and direction
    const int i = ms_pick("n", 0, 2);
    const int j = ms_pick("m", 0, 3);
    const bool along = ms_pick("along m", 0, 1); // edge to (i, j + 1), else to (i + 1, j)
    const int i2 = along ? i : i + 1, j2 = along ? j + 1 : j;
    ms_assume(i2 < 3 && j2 < 4 && g.valid(i, j) && g.valid(i2, j2));
    const double dx = ms_lattice("dx", -1, 1, 0);
    const double dy = ms_lattice("dy", -1, 1, 0);
    const double x = (g.X(i, j) + g.X(i2, j2)) / 2 + dx * 0.5, y = (g.Y(i, j) + g.Y(i2, j2)) / 2 + dy * 0.5;
    const bool lo = along ? Cell(g, i - 1, j) : Cell(g, i, j - 1), hi = Cell(g, i, j);
    ms_assume(lo || hi);
    const int rc = mkernel_curvilinear_insert_face(id, x, y);
    const CG r = GetCurvi(id);
    if (lo && hi)
    {
        // inside the grid: refused, or nothing changes
        ms_assert(SameGrid(r, g), "an inner edge gets no face");
        ms_reach("inner");
        return;
    }
    ms_assert(rc == 0, "the face is added");
    // in an enlarged picture of the grid
    CG e;
    e.n = g.n + 2;
    e.m = g.m + 2;
    e.x.assign(e.n * e.m, MISSING);
    e.y.assign(e.n * e.m, MISSING);
    for (int p = 0; p < g.n; ++p)
        for (int q = 0; q < g.m; ++q)
        {
            e.x[(p + 1) * e.m + q + 1] = g.X(p, q);
            e.y[(p + 1) * e.m + q + 1] = g.Y(p, q);
        }
    const int s = lo ? 1 : -1;
    for (auto [p, q] : {std::pair{i, j}, std::pair{i2, j2}})
    {
        const int P = along ? p + s : p, Q = along ? q : q + s;
        e.x[(P + 1) * e.m + Q + 1] = 4 * Q;
        e.y[(P + 1) * e.m + Q + 1] = 4 * P;
    }
    // cut away the outer lines that were not needed
    const int a0 = along && s < 0 && i == 0 ? 0 : 1, a1 = along && s > 0 && i == g.n - 1 ? e.n : e.n - 1;
    const int b0 = !along && s < 0 && j == 0 ? 0 : 1, b1 = !along && s > 0 && j == g.m - 1 ? e.m : e.m - 1;
    CG c;
    c.n = a1 - a0;
    c.m = b1 - b0;
    for (int p = a0; p < a1; ++p)
        for (int q = b0; q < b1; ++q)
        {
            c.x.push_back(e.X(p, q));
            c.y.push_back(e.Y(p, q));
        }
    ms_assert(SameGrid(r, c), "exactly the mirrored nodes of the edge are added");
    ms_reach("rim");
    ms_assert(Undo(id) && SameGrid(GetCurvi(id), g), "and removed again by undo");
    ms_assert(Redo(id) && SameGrid(GetCurvi(id), c), "and added again by redo");
}
// a rim line is mirrored outwards
MS_HARNESS(mirror)
{
    const CG g = Make(4, 5);
    const int id = Start(g);
    const Click a = Choose(g, 0), b = Choose(g, 1);
    ms_assume((a.i == b.i) != (a.j == b.j));
    const double f = 0.5 * ms_pick("factor", 1, 3);
    const bool along = a.i == b.i; // the line runs in m direction
    const int k = along ? a.i : a.j, last = along ? g.n - 1 : g.m - 1;
    const int lo = along ? std::min(a.j, b.j) : std::min(a.i, b.i), hi = along ? std::max(a.j, b.j) : std::max(a.i, b.i);
    const int rc = mkernel_curvilinear_line_mirror(id, f, a.x, a.y, b.x, b.y);
    const CG r = GetCurvi(id);
    if (k != 0 && k != last)
    {
        // a line inside the grid, possibly from rim to rim
        ms_assert(SameGrid(r, g), "an inner line is not mirrored");
        ms_reach("inner");
        return;
    }
    ms_assert(rc == 0, "mirroring is done");
    CG e;
    e.n = g.n + along;
    e.m = g.m + !along;
    const int shift = k == 0;
    for (int i = 0; i < e.n; ++i)
        for (int j = 0; j < e.m; ++j)
        {
            const int p = along ? i - shift : i, q = along ? j : j - shift; // place in the old grid
            const bool old = p >= 0 && q >= 0 && p < g.n && q < g.m;
            const int t = along ? j : i;
            const double far = k == 0 ? -4 * f : 4 * last + 4 * f;
            if (old) e.x.push_back(g.X(p, q)), e.y.push_back(g.Y(p, q));
            else if (t < lo || t > hi) e.x.push_back(MISSING), e.y.push_back(MISSING);
            else e.x.push_back(along ? 4 * q : far), e.y.push_back(along ? far : 4 * p);
        }
    ms_assert(SameGrid(r, e), "a line is added at the given fraction of the last cell and nothing else changes");
    ms_reach("rim");
    ms_assert(Undo(id) && SameGrid(GetCurvi(id), g), "and removed again by undo");
    ms_assert(Redo(id) && SameGrid(GetCurvi(id), e), "and added again by redo");
}
// what happens outside the block
MS_HARNESS(frame)
{
    CG g = Make(4, 5);
    g.x[1 * 5 + 2] += 1;
    g.y[2 * 5 + 1] += 0.5;
    g.x[2 * 5 + 3] -= 1;
    const int id = Start(g);
    const Click a = Choose(g, 0), b = Choose(g, 1);
    ms_assume(a.i != b.i && a.j != b.j);
    const int what = ms_pick("what", 0, 4);
    const int at = ms_pick("line", 0, 2);
    const int i0 = std::min(a.i, b.i), i1 = std::max(a.i, b.i), j0 = std::min(a.j, b.j), j1 = std::max(a.j, b.j);
    // a grid line through the block, along m (kinds 1, 3) or n (kinds 2, 4)
    const bool along = what == 1 || what == 3;
    const int c = along ? i0 + at : j0 + at;
    ms_assume(what == 0 ? at == 0 : c <= (along ? i1 : j1));
    const double lx0 = along ? g.X(c, j0) : g.X(i0, c), ly0 = along ? g.Y(c, j0) : g.Y(i0, c), lx1 = along ? g.X(c, j1) : g.X(i1, c), ly1 = along ? g.Y(c, j1) : g.Y(i1, c);
    int rc = 0;
    if (what == 0) rc = mkernel_curvilinear_smoothing(id, 2, a.x, a.y, b.x, b.y);
    else if (what <= 2) rc = mkernel_curvilinear_smoothing_directional(id, 2, lx0, ly0, lx1, ly1, a.x, a.y, b.x, b.y);
    else rc = mkernel_curvilinear_line_attraction_repulsion(id, 0.25, lx0, ly0, lx1, ly1, a.x, a.y, b.x, b.y);
    ms_assert(rc == 0, "the operation is done");
    const CG r = GetCurvi(id);
    ms_assert(r.rc == 0 && r.n == g.n && r.m == g.m, "the size stays");
    bool ok = true, line = true, all = true;
    for (int i = 0; i < g.n; ++i)
        for (int j = 0; j < g.m; ++j)
        {
            const bool same = (r.X(i, j) == g.X(i, j)) & (r.Y(i, j) == g.Y(i, j));
            if (i < i0 || i > i1 || j < j0 || j > j1) ok &= same;
            if ((i == 0 || i == g.n - 1) && (j == 0 || j == g.m - 1) && what <= 2) ok &= same;
            if (what >= 3 && (along ? i : j) == c) line &= same;
            all &= same;
            // rim nodes stay on the rim, which is straight
            if (what <= 2 && (i == 0 || i == g.n - 1)) ok &= Near(r.Y(i, j), g.Y(i, j));
            if (what <= 2 && (j == 0 || j == g.m - 1)) ok &= Near(r.X(i, j), g.X(i, j));
        }
    ms_assert(ok, "nodes outside the block and corners stay, rim nodes stay on the rim");
    ms_assert(line, "nodes of the attracting line stay");
    if (!all) ms_reach(what == 0 ? "smoothed" : what <= 2 ? "directional" : "attracted");
}
// shifting a grid line
MS_HARNESS(shift)
{
    const CG g = Make(4, 5);
    const int id = Start(g);
    const bool along = ms_pick("along m", 0, 1);
    const int c = ms_pick("line", 0, along ? 3 : 4);
    const int s = ms_pick("start", 0, 3);
    const int e = ms_pick("end", 1, 4);
    const int p = ms_pick("node", 0, 4);
    ms_assume(s < e && e < (along ? 5 : 4) && p >= s && p <= e);
    const int lo = ms_pick("lo", 0, 4);
    const int hi = ms_pick("hi", 0, 4);
    ms_assume(lo <= c && c <= hi && lo < hi && hi < (along ? 4 : 5));
    const int dx = ms_pick("dx", -1, 1);
    auto N = [&](int t, int u) { return along ? t * 5 + u : u * 5 + t; }; // t across, u along the line
    ms_assert(mkernel_curvilinear_initialize_line_shift(id) == 0, "initialise");
    ms_assert(mkernel_curvilinear_set_line_line_shift(id, g.x[N(c, s)], g.y[N(c, s)], g.x[N(c, e)], g.y[N(c, e)]) == 0, "line");
    ms_assert(mkernel_curvilinear_set_block_line_shift(id, g.x[N(lo, s)], g.y[N(lo, s)], g.x[N(hi, e)], g.y[N(hi, e)]) == 0, "block");
    const double tx = g.x[N(c, p)] + dx, ty = g.y[N(c, p)] + 1;
    ms_assert(mkernel_curvilinear_move_node_line_shift(id, g.x[N(c, p)], g.y[N(c, p)], tx, ty) == 0, "move");
    ms_assert(mkernel_curvilinear_line_shift(id) == 0, "shift");
    ms_assert(mkernel_curvilinear_finalize_line_shift(id) == 0, "finish");
    const CG r = GetCurvi(id);
    ms_assert(r.rc == 0 && r.n == g.n && r.m == g.m, "the size stays");
    bool ok = true, on = true;
    for (int t = 0; t < (along ? 4 : 5); ++t)
        for (int u = 0; u < (along ? 5 : 4); ++u)
        {
            const int k = N(t, u);
            const bool edge = t != c && (t == lo || t == hi);
            if (t < lo || t > hi || u < s || u > e || edge) ok &= Near(r.x[k], g.x[k]) & Near(r.y[k], g.y[k]);
            else if (t == c)
            {
                const double w = u == p ? 1 : u < p ? double(u - s) / (p - s) : double(e - u) / (e - p);
                on &= Near(r.x[k], g.x[k] + dx * w) & Near(r.y[k], g.y[k] + w);
            }
        }
    ms_assert(ok, "nodes outside the block and on its far sides stay");
    ms_assert(on, "the nodes of the line follow the moved node in proportion");
    ms_reach("shifted");
}
