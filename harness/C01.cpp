#include "mk.hpp"
using namespace mk;

// C01: undo restores exactly the mesh before the edit; redo exactly the mesh after it.
namespace
{
    constexpr int NN = 9, NE = 12;
    int Load(bool sym)
    {
        auto g = Rect(3, 3);
        if (sym)
        {
            g.x[4] += ms_lattice("x4", -1, 1, -2);
            g.y[4] += ms_lattice("y4", -1, 1, -2);
        }
        int id = NewState();
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "mesh accepted");
        return id;
    }
    // One edit with symbolic arguments; returns the exit code
    int Edit(int id, int kind, int k)
    {
        int o = 0;
        switch (kind)
        {
        case 0: {
            const double x = ms_lattice(nm("ix", k), -4, 12, -1); const double y = ms_lattice(nm("iy", k), -4, 12, -1);
            return mkernel_mesh2d_insert_node(id, x, y, o);
        }
        case 1: {
            const int a = ms_int(nm("ea", k), 0, NN - 1), b = ms_int(nm("eb", k), 0, NN - 1);
            ms_assume(a != b);
            return mkernel_mesh2d_insert_edge(id, a, b, o);
        }
        case 2: {
            const int a = ms_int(nm("dn", k), 0, NN - 1);
            return mkernel_mesh2d_delete_node(id, a);
        }
        case 3: {
            const int a = ms_int(nm("de", k), 0, NE - 1);
            return mkernel_mesh2d_delete_edge_by_index(id, a);
        }
        case 4: {
            const int a = ms_pick(nm("mn", k), 0, NN - 1);
            const double x = ms_pick(nm("mx", k), 0, 1) * 0.75, y = ms_pick(nm("my", k), 0, 1) * 0.5;
            return mkernel_mesh2d_move_node(id, x, y, a);
        }
        case 5: {
            const int a = ms_int(nm("ma", k), 0, NN - 1), b = ms_int(nm("mb", k), 0, NN - 1);
            return mkernel_mesh2d_merge_two_nodes(id, a, b);
        }
        }
        return 0;
    }
    void Sequence(int n, const int* kinds, bool reads)
    {
        const int id = Load(false);
        std::vector<M2> s{Get(id)};
        std::vector<int> did; // number of undo entries per edit
        for (int k = 0; k < n; ++k)
        {
            int c0, c1, r;
            mkernel_undo_state_count(c0, r);
            const int rc = Edit(id, kinds[k], k);
            mkernel_undo_state_count(c1, r);
            did.push_back(c1 - c0);
            ms_assert(rc == 0 || c1 == c0, "a failed edit adds no undo entry");
            s.push_back(Get(id));
            if (rc != 0) ms_assert(SameNodes(s[k], s[k + 1]) && SameEdges(s[k], s[k + 1]), "a failed edit changes nothing");
        }
        ms_reach("edited");
        for (int k = n - 1; k >= 0; --k)
        {
            for (int i = 0; i < did[k]; ++i)
            {
                bool undone = false;
                int uid = -1;
                ms_assert(mkernel_undo_state(undone, uid) == 0 && undone && uid == id, "undo succeeds");
            }
            const auto m = Get(id);
            ms_assert(SameNodes(m, s[k]), "undo restores the nodes");
            ms_assert(SameEdges(m, s[k]), "undo restores the edges");
            ms_assert(SameFaces(m, s[k]), "undo restores the faces");
        }
        for (int k = 0; k < n; ++k)
        {
            for (int i = 0; i < did[k]; ++i)
            {
                bool redone = false;
                int uid = -1;
                ms_assert(mkernel_redo_state(redone, uid) == 0 && redone && uid == id, "redo succeeds");
            }
            const auto m = Get(id);
            ms_assert(SameNodes(m, s[k + 1]), "redo restores the nodes");
            ms_assert(SameEdges(m, s[k + 1]), "redo restores the edges");
            ms_assert(SameFaces(m, s[k + 1]), "redo restores the faces");
        }
        ms_reach("done");
    }
} // namespace
MS_HARNESS(edit1)
{
    const int kinds[] = {ms_int("kind", 0, 5)};
    Sequence(1, kinds, true);
}
MS_HARNESS(edit2)
{
    const int kinds[] = {ms_int("kindA", 0, 5), ms_int("kindB", 0, 5)};
    Sequence(2, kinds, true);
}
