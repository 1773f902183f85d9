// C30: a call that fails tells why, and everything can be cleared.
int Arg(int i);
#define ARG_INT(i) Arg(i)
#define ARG_DBL(i) 1.0
#define ARG_BOOL(i) true
#include "calls.hpp"
static int number = 0;
int Arg(int) { return number; }
namespace
{
    int codes[10];
    void Codes()
    {
        int k = 0;
        mkernel_get_exit_code_success(codes[k++]);
        mkernel_get_exit_code_meshkernel_error(codes[k++]);
        mkernel_get_exit_code_not_implemented_error(codes[k++]);
        mkernel_get_exit_code_algorithm_error(codes[k++]);
        mkernel_get_exit_code_constraint_error(codes[k++]);
        mkernel_get_exit_code_mesh_geometry_error(codes[k++]);
        mkernel_get_exit_code_linear_algebra_error(codes[k++]);
        mkernel_get_exit_code_range_error(codes[k++]);
        mkernel_get_exit_code_stdlib_exception(codes[k++]);
        mkernel_get_exit_code_unknown_exception(codes[k++]);
        for (int a = 0; a < 10; ++a)
            for (int b = 0; b < a; ++b) ms_assert(codes[a] != codes[b], "every kind of failure has its own code");
        ms_assert(codes[0] == 0, "success is zero");
    }
    bool Known(int rc)
    {
        for (int k = 1; k < 10; ++k)
            if (codes[k] == rc) return true;
        return false;
    }
    std::string Message()
    {
        static char text[600];
        memset(text, 'x', sizeof text);
        ms_assert(mkernel_get_error(text) == 0, "the message can be asked for");
        ms_assert(memchr(text, 0, 512) != nullptr, "the message ends");
        for (int k = 512; k < 600; ++k) ms_assert(text[k] == 'x', "the message keeps to its room");
        return text;
    }
} // namespace
// every function, with one of two numbers for its integers, on a state that is there or any other
MS_HARNESS(errors)
{
    Codes();
    const int id = Full(0);
    const int fn = ms_pick("function", 0, NUM_CALLS - 1);
    const int there = ms_pick("there", 0, 1);
    number = ms_pick("number", 0, 2) * 500 - 500;
    const int other = ms_int("id", -2000000000, 2000000000);
    ms_assume(other != id);
    // something else goes wrong first
    int n = -1;
    ms_assert(mkernel_allocate_state(12345, n) != 0, "an unknown projection is refused");
    const auto before = Message();
    ms_assert(!before.empty(), "a failure has a message");
    const char* name = "";
    const std::string what = Name(fn);
    // here the number is the length of an array, or how much is to be made
    if (there && number > 0 && (what == "network1d_compute_fixed_chainages" || what == "curvilinear_full_refine" || what == "curvilinear_refine")) return;
    const int rc = Call(fn, there ? id : other, name);
    const auto after = Message();
    if (rc != 0)
    {
        ms_assert(Known(rc), "the code is that of a kind of failure");
        ms_assert(!after.empty(), "a failure has a message");
        ms_assert(after != before, "the message is that of the last failure");
        ms_assert(Message() == after, "the message can be asked for again");
        ms_reach("failed");
    }
    else
    {
        ms_assert(there == 1, "a call on an unknown state is refused");
        ms_assert(after == before, "the message stays when a call succeeds");
        ms_reach("fine");
    }
}
// clearing everything, whatever was done before
MS_HARNESS(clear)
{
    const int states = ms_pick("states", 0, 3);
    const int edits = ms_pick("edits", 0, 3);
    const int undos = ms_pick("undos", 0, 2);
    const int gone = ms_pick("gone", 0, 2);
    const int size = ms_int("size", 0, 2000000000);
    const int asked = ms_int("asked", -2000000000, 2000000000);
    std::vector<int> id;
    for (int s = 0; s < states; ++s) id.push_back(Full(s));
    bool ok = false;
    int k = -1, c = -1, r = -1;
    ms_assert(mkernel_set_undo_size(size) == 0, "the size is set");
    for (int s : id)
        for (int e = 0; e < edits; ++e) ms_assert(mkernel_mesh2d_delete_edge_by_index(s, e) == 0, "edited");
    for (int u = 0; u < undos; ++u) ms_assert(mkernel_undo_state(ok, k) == 0, "undone");
    if (gone == 1 && states > 0) ms_assert(mkernel_deallocate_state(id[0]) == 0, "deallocated");
    if (gone == 2 && states > 0) ms_assert(mkernel_expunge_state(id[0]) == 0, "expunged");
    ms_assert(mkernel_clear_state() == 0, "everything is cleared");
    ok = true;
    ms_assert(mkernel_is_valid_state(asked, ok) == 0 && !ok, "no state is left");
    ms_assert(mkernel_undo_state_count(c, r) == 0 && c == 0 && r == 0, "no history is left");
    ms_assert(mkernel_undo_state(ok, k) == 0 && !ok && mkernel_redo_state(ok, k) == 0 && !ok, "nothing can be undone or redone");
    for (int s : id) ms_assert(mkernel_mesh2d_delete_edge_by_index(s, 0) != 0, "the states are gone");
    // and it can be used again
    std::vector<int> again;
    for (int s = 0; s < 2; ++s)
    {
        const int n = NewState();
        const M2 m = Get(n);
        ms_assert(m.numNodes() == 0 && m.numEdges() == 0, "a new state is empty");
        again.push_back(n);
    }
    ms_assert(again[0] != again[1], "new states are different");
    const auto g = Rect(3, 3);
    ms_assert(SetMesh(again[0], g.x, g.y, g.e) == 0, "the mesh is taken");
    ms_assert(Get(again[1]).numNodes() == 0, "by one of them");
    ms_reach("cleared");
}
