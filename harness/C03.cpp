#include "mk.hpp"
using namespace mk;

// C03: the undo/redo history behaves like a pair of stacks, whatever sequence of edits, undos, redos, clears and size changes.
namespace
{
    // reference model: contents of a state = set of deleted edges, or "emptied"
    struct Content { int mask = 0; bool empty = false; bool operator==(const Content& o) const { return mask == o.mask && empty == o.empty; } };
    struct Action { int id; Content before, after; };
    bool Shows(int id, const Content& c)
    {
        const auto m = Get(id);
        if (m.rc != 0) return false;
        if (c.empty) return m.numNodes() == 0 && m.numEdges() == 0;
        if (m.numEdges() != 12 || m.numNodes() != 9) return false;
        for (int e = 0; e < 12; ++e)
            if (m.validEdge(e) != ((c.mask >> e & 1) == 0)) return false;
        return true;
    }
    void History(int n, int nops, int projection)
    {
        const auto g = Rect(3, 3);
        int id[2] = {NewState(projection), NewState(projection)};
        for (int s : id) ms_assert(SetMesh(s, g.x, g.y, g.e) == 0, "mesh accepted");
        mkernel_clear_undo_state();
        Content cur[2];
        std::vector<Action> done, undone;
        int maxSize = 50;
        for (int k = 0; k < n; ++k)
        {
            const int op = ms_pick(nm("op", k), 0, nops - 1);
            if (op == 0 || op == 1)
            {
                const int s = op;
                const int edge = k; // horizontal edges 0..5: no node loses all its edges
                const int rc = mkernel_mesh2d_delete_edge_by_index(id[s], edge);
                ms_assert((rc != 0) == cur[s].empty, "the edit fails exactly when the mesh is empty");
                if (rc == 0)
                {
                    Content a = cur[s];
                    a.mask |= 1 << edge;
                    if (maxSize > 0)
                    {
                        done.push_back({s, cur[s], a});
                        std::erase_if(undone, [&](const Action& x) { return x.id == s; });
                        if ((int)done.size() > maxSize) done.erase(done.begin());
                    }
                    cur[s] = a;
                }
            }
            else if (op == 2 || op == 3)
            {
                bool did = false;
                int which = -1;
                const int rc = op == 2 ? mkernel_undo_state(did, which) : mkernel_redo_state(did, which);
                ms_assert(rc == 0, "undo and redo never fail");
                auto& from = op == 2 ? done : undone;
                auto& to = op == 2 ? undone : done;
                ms_assert(did == !from.empty(), "undo (redo) happens exactly when there is something to undo (redo)");
                if (!from.empty())
                {
                    const auto a = from.back();
                    from.pop_back();
                    ms_assert(which == id[a.id], "the last action is the one undone (redone)");
                    cur[a.id] = op == 2 ? a.before : a.after;
                    to.push_back(a);
                    if (op == 3 && (int)done.size() > maxSize) done.erase(done.begin());
                    ms_reach(op == 2 ? "undo" : "redo");
                }
                else ms_assert(which == -999, "no state is named when nothing is undone");
            }
            else if (op == 4)
            {
                const int s = ms_pick(nm("which", k), 0, 2);
                if (s == 2)
                {
                    ms_assert(mkernel_clear_undo_state() == 0, "clearing succeeds");
                    done.clear();
                    undone.clear();
                }
                else
                {
                    ms_assert(mkernel_clear_undo_state_for_id(id[s]) == 0, "clearing succeeds");
                    std::erase_if(done, [&](const Action& x) { return x.id == s; });
                    std::erase_if(undone, [&](const Action& x) { return x.id == s; });
                }
            }
            else if (op == 5)
            {
                const int sz = ms_pick(nm("size", k), -1, 2);
                const int rc = mkernel_set_undo_size(sz);
                ms_assert((rc == 0) == (sz >= 0), "a negative size is refused");
                if (rc == 0)
                {
                    maxSize = sz;
                    if (sz == 0) done.clear(), undone.clear();
                    while ((int)done.size() > sz) done.erase(done.begin());
                }
            }
            else
            {
                ms_assert(mkernel_deallocate_state(id[0]) == 0, "deallocating succeeds");
                Content a;
                a.empty = true;
                if (maxSize > 0)
                {
                    done.push_back({0, cur[0], a});
                    std::erase_if(undone, [&](const Action& x) { return x.id == 0; });
                    if ((int)done.size() > maxSize) done.erase(done.begin());
                }
                cur[0] = a;
            }
            int c = -1, r = -1;
            ms_assert(mkernel_undo_state_count(c, r) == 0 && c == (int)done.size() && r == (int)undone.size(), "the counts are those of the history");
            for (int s = 0; s < 2; ++s)
            {
                ms_assert(mkernel_undo_state_count_for_id(id[s], c, r) == 0, "count per state");
                ms_assert(c == (int)std::count_if(done.begin(), done.end(), [&](auto& x) { return x.id == s; }) && r == (int)std::count_if(undone.begin(), undone.end(), [&](auto& x) { return x.id == s; }), "the counts per state are those of the history");
                ms_assert(Shows(id[s], cur[s]), "each state shows the contents of its history");
            }
        }
        ms_reach("history");
    }
} // namespace
MS_HARNESS(history)
{
    History(ms_thorough() ? 5 : 4, 7, 0);
}
MS_HARNESS(undoredo)
{
    History(ms_thorough() ? 8 : 6, 4, 0);
}
// any size, with any number of actions done and undone
MS_HARNESS(limit)
{
    const int did = ms_pick("done", 0, 5);
    const int back = ms_pick("undone", 0, 5);
    if (back > did) return;
    const int more = ms_pick("more", 0, 2);
    const int size = ms_int("size", -2000000000, 2000000000);
    const auto g = Rect(3, 3);
    const int id = NewState(0);
    ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "mesh accepted");
    ms_assert(mkernel_clear_undo_state() == 0 && mkernel_set_undo_size(50) == 0, "the history is empty");
    std::vector<Content> past{Content{}};
    for (int k = 0; k < did; ++k)
    {
        ms_assert(mkernel_mesh2d_delete_edge_by_index(id, k) == 0, "the edit succeeds");
        Content a = past.back();
        a.mask |= 1 << k;
        past.push_back(a);
    }
    bool ok = false;
    int which = -1, c = -1, r = -1;
    for (int k = 0; k < back; ++k) ms_assert(mkernel_undo_state(ok, which) == 0 && ok, "undone");
    const int rc = mkernel_set_undo_size(size);
    ms_assert((rc == 0) == (size >= 0), "a negative size is refused");
    ms_assert(Shows(id, past[did - back]), "the size changes no mesh");
    ms_assert(mkernel_undo_state_count(c, r) == 0, "counts");
    int here = did - back;
    const int limit = size < 0 ? 50 : size > 50 ? 50 : size;
    if (size >= 0)
    {
        ms_assert(c == (size < here ? size : here), "as many actions are kept as asked for");
        ms_assert(r == back || (size == 0 && r == 0), "what was undone stays");
        ms_reach(c < here ? "less" : "same");
    }
    else ms_assert(c == here && r == back, "a refused size changes nothing");
    if (more)
    {
        for (int k = 0; k < more; ++k)
        {
            // vertical edges, never those above
            ms_assert(mkernel_mesh2d_delete_edge_by_index(id, 6 + k) == 0, "the edit succeeds");
            Content a = past[here];
            a.mask |= 1 << (6 + k);
            past.resize(here + 1);
            past.push_back(a);
            ++here;
        }
        const int kept = c + more < limit ? c + more : limit;
        ms_assert(mkernel_undo_state_count(c, r) == 0 && c == kept, "no more actions are kept than asked for");
        if (limit > 0) ms_assert(r == 0, "nothing can be redone after an edit");
    }
    // undoing everything that is kept goes back as far as that
    int n = 0;
    for (; n < 12; ++n)
    {
        ms_assert(mkernel_undo_state(ok, which) == 0, "undo never fails");
        if (!ok) break;
        --here;
        ms_assert(here >= 0 && Shows(id, past[here]), "each undo goes back by one");
    }
    ms_assert(n == c, "as many can be undone as told");
    for (int k = 0; k < n; ++k)
    {
        ms_assert(mkernel_redo_state(ok, which) == 0 && ok, "what was undone can be redone");
        ++here;
        ms_assert(Shows(id, past[here]), "each redo goes forward by one");
    }
    ms_reach("all");
}
