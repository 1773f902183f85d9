#pragma once
// One call of every API function that takes a state id; calls.inc is generated by tools/gen_calls.py from the API header.
// The including harness defines ARG_INT, ARG_DBL and ARG_BOOL, which give the i-th scalar argument.
#include "mk.hpp"
using namespace mk;
namespace
{
    // arguments: large buffers whose first entries describe a valid unit square
    Poly Dummy()
    {
        Poly p({0, 2, 2, 0, 0}, {0, 0, 2, 2, 0}, {1, 1, 1, 1, 1});
        p.x.resize(4096);
        p.y.resize(4096);
        p.v.resize(4096);
        return p;
    }
    GeometryList& Glist(Poly& p)
    {
        p.gl().num_coordinates = 5;
        return p.g;
    }
    double dbl[12][4096];
    int ibuf[8][4096];
    void Square()
    {
        static const double x[] = {0, 1, 1, 0}, y[] = {0, 0, 1, 1};
        static const int e[] = {0, 1, 1, 2, 2, 3, 3, 0};
        memset(dbl, 0, sizeof(dbl));
        memset(ibuf, 0, sizeof(ibuf));
        std::copy(x, x + 4, dbl[0]);
        std::copy(y, y + 4, dbl[1]);
        std::copy(e, e + 8, ibuf[0]);
    }
    Mesh2D DummyMesh2D()
    {
        Square();
        Mesh2D m{};
        m.num_nodes = 4;
        m.num_edges = 4;
        m.node_x = dbl[0];
        m.node_y = dbl[1];
        m.edge_nodes = ibuf[0];
        m.edge_faces = ibuf[1];
        m.face_edges = ibuf[2];
        m.face_nodes = ibuf[3];
        m.nodes_per_face = ibuf[4];
        m.edge_x = dbl[2];
        m.edge_y = dbl[3];
        m.face_x = dbl[4];
        m.face_y = dbl[5];
        return m;
    }
    Mesh1D DummyMesh1D()
    {
        Square();
        Mesh1D m{};
        m.num_nodes = 4;
        m.num_edges = 3;
        m.node_x = dbl[0];
        m.node_y = dbl[1];
        m.edge_nodes = ibuf[0];
        return m;
    }
    Contacts DummyContacts()
    {
        Square();
        Contacts c{};
        c.num_contacts = 1;
        c.mesh1d_indices = ibuf[1];
        c.mesh2d_indices = ibuf[2];
        return c;
    }
    CurvilinearGrid DummyCurvilinearGrid()
    {
        Square();
        dbl[0][2] = 0;
        dbl[0][3] = 1;
        CurvilinearGrid c{};
        c.num_n = 2;
        c.num_m = 2;
        c.node_x = dbl[0];
        c.node_y = dbl[1];
        return c;
    }
    GriddedSamples DummyGriddedSamples()
    {
        Square();
        GriddedSamples g{};
        g.num_x = 2;
        g.num_y = 2;
        g.cell_size = 1;
        g.values = dbl[2];
        return g;
    }
    inline const char* Name(int fn)
    {
        static const char* const names[] = {
#include "names.inc"
        };
        return names[fn];
    }
    // Returns the exit code of API function fn on state id
    int Call(int fn, int id, const char*& name)
    {
        switch (fn)
        {
#include "calls.inc"
        }
        return 0;
    }
    // A state with a mesh, a 1d mesh, a curvilinear grid and contacts
    int Full(double shift)
    {
        const int id = NewState();
        auto g = Rect(3, 3, 1, 1, shift, 0), c4 = Rect(4, 4, 1, 1, shift, 0);
        ms_assert(SetMesh(id, g.x, g.y, g.e) == 0, "mesh accepted");
        ms_assert(SetMesh1(id, {shift + 0.5, shift + 1.25, shift + 1.75}, {0.5, 0.5, 1.5}, {0, 1, 1, 2}) == 0, "1d mesh accepted");
        for (int k = 0; k < 16; ++k) // not a uniform grid, so that smoothing, attraction and orthogonalisation move its nodes
        {
            const int n = k / 4, m = k % 4;
            c4.x[k] += 0.25 * ((3 * m + n) % 2);
            c4.y[k] += 0.125 * ((m + 2 * n) % 3);
        }
        ms_assert(SetCurvi(id, 4, 4, c4.x, c4.y) == 0, "grid accepted");
        int i1[] = {0, 2}, i2[] = {0, 3};
        Contacts c{};
        c.num_contacts = 2;
        c.mesh1d_indices = i1;
        c.mesh2d_indices = i2;
        ms_assert(mkernel_contacts_set(id, c) == 0, "contacts accepted");
        return id;
    }
} // namespace
