#define ARG_INT(i) 0
#define ARG_DBL(i) 0.0
#define ARG_BOOL(i) false
#include "calls.hpp"

// C04: calls on an unknown state are refused and change nothing; calls on one state never change another one; ids are never reused.
MS_HARNESS(unknown)
{
    const int a = Full(0);
    const int gone = NewState();
    ms_assert(mkernel_expunge_state(gone) == 0, "expunge");
    const auto sa = GetSnap(a);
    const int fn = ms_pick("function", 0, NUM_CALLS - 1);
    const int id = ms_int("id", -2000000000, 2000000000);
    ms_assume(id != a);
    bool v = true;
    ms_assert(mkernel_is_valid_state(id, v) == 0 && !v, "an id that was not handed out is not valid");
    const char* name = "";
    const int rc = Call(fn, id, name);
    ms_assert(rc != 0, "a call on an unknown state is refused");
    v = true;
    ms_assert(mkernel_is_valid_state(id, v) == 0 && !v, "the refused call creates no state");
    ms_assert(SameSnap(sa, GetSnap(a)), "the refused call changes no other state");
    ms_reach("refused");
}
MS_HARNESS(isolation)
{
    const int first = ms_pick("first", 0, 1);
    int id[2];
    id[0] = Full(0);
    id[1] = Full(ms_pick("same", 0, 1) * 10.0);
    const int a = id[first], b = id[1 - first];
    const auto sb = GetSnap(b);
    const int fn = ms_pick("function", 0, NUM_CALLS - 1);
    const char* name = "";
    Call(fn, a, name);
    ms_assert(SameSnap(sb, GetSnap(b)), "a call on one state leaves the other one as it was");
    bool v = false;
    ms_assert(mkernel_is_valid_state(b, v) == 0 && v, "the other state stays valid");
    ms_reach("called");
}
MS_HARNESS(lifecycle)
{
    std::vector<int> seen;
    std::vector<bool> alive;
    for (int k = 0; k < (ms_thorough() ? 6 : 5); ++k)
    {
        const int op = ms_int(nm("op", k), 0, 2);
        if (op == 0 || seen.empty())
        {
            const int p = ms_int(nm("projection", k), -1, 4);
            int id = -5;
            const int rc = mkernel_allocate_state(p, id);
            ms_assert((rc == 0) == (p >= 0 && p <= 2), "a state is allocated exactly for the known projections");
            if (rc == 0)
            {
                ms_assert(id >= 0 && std::find(seen.begin(), seen.end(), id) == seen.end(), "a new state has an id that was never used");
                seen.push_back(id);
                alive.push_back(true);
                int q = -1;
                ms_assert(mkernel_get_projection(id, q) == 0 && q == p, "the projection is the requested one");
                const auto m = Get(id);
                ms_assert(m.rc == 0 && m.numNodes() == 0 && m.numEdges() == 0 && m.numFaces() == 0, "a new state has an empty mesh");
            }
        }
        else
        {
            const int i = ms_int(nm("which", k), 0, 4);
            ms_assume(i < (int)seen.size());
            const int rc = op == 1 ? mkernel_expunge_state(seen[i]) : mkernel_deallocate_state(seen[i]);
            ms_assert((rc == 0) == alive[i], "releasing succeeds exactly for a valid state");
            if (rc == 0 && op == 1) alive[i] = false;
        }
        for (size_t i = 0; i < seen.size(); ++i)
        {
            bool v = false;
            ms_assert(mkernel_is_valid_state(seen[i], v) == 0 && v == alive[i], "a state is valid until it is expunged");
        }
    }
    ms_reach("lifecycle");
}
