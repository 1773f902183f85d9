case 0: { name = "contacts_compute_boundary"; static int a0[4096] = {}; Poly p1 = Dummy(); auto& a1 = Glist(p1); const double a2 = ARG_DBL(2); return mkernel_contacts_compute_boundary(id, a0, a1, a2); }
case 1: { name = "contacts_compute_multiple"; static int a0[4096] = {}; return mkernel_contacts_compute_multiple(id, a0); }
case 2: { name = "contacts_compute_single"; static int a0[4096] = {}; Poly p1 = Dummy(); auto& a1 = Glist(p1); const double a2 = ARG_DBL(2); return mkernel_contacts_compute_single(id, a0, a1, a2); }
case 3: { name = "contacts_compute_with_points"; static int a0[4096] = {}; Poly p1 = Dummy(); auto& a1 = Glist(p1); return mkernel_contacts_compute_with_points(id, a0, a1); }
case 4: { name = "contacts_compute_with_polygons"; static int a0[4096] = {}; Poly p1 = Dummy(); auto& a1 = Glist(p1); return mkernel_contacts_compute_with_polygons(id, a0, a1); }
case 5: { name = "contacts_get_data"; auto a0 = DummyContacts(); return mkernel_contacts_get_data(id, a0); }
case 6: { name = "contacts_get_dimensions"; auto a0 = DummyContacts(); return mkernel_contacts_get_dimensions(id, a0); }
case 7: { name = "contacts_set"; auto a0 = DummyContacts(); return mkernel_contacts_set(id, a0); }
case 8: { name = "curvilinear_compute_curvature"; const int a0 = ARG_INT(0); static double a1[4096] = {}; return mkernel_curvilinear_compute_curvature(id, a0, a1); }
case 9: { name = "curvilinear_compute_orthogonal_grid_from_splines"; Poly p0 = Dummy(); auto& a0 = Glist(p0); meshkernel::CurvilinearParameters a1{}; meshkernel::SplinesToCurvilinearParameters a2{}; return mkernel_curvilinear_compute_orthogonal_grid_from_splines(id, a0, a1, a2); }
case 10: { name = "curvilinear_compute_grid_from_splines"; Poly p0 = Dummy(); auto& a0 = Glist(p0); meshkernel::CurvilinearParameters a1{}; return mkernel_curvilinear_compute_grid_from_splines(id, a0, a1); }
case 11: { name = "curvilinear_compute_smoothness"; const int a0 = ARG_INT(0); static double a1[4096] = {}; return mkernel_curvilinear_compute_smoothness(id, a0, a1); }
case 12: { name = "curvilinear_compute_transfinite_from_polygon"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); const int a2 = ARG_INT(2); const int a3 = ARG_INT(3); const int a4 = ARG_INT(4); return mkernel_curvilinear_compute_transfinite_from_polygon(id, a0, a1, a2, a3, a4); }
case 13: { name = "curvilinear_compute_transfinite_from_splines"; Poly p0 = Dummy(); auto& a0 = Glist(p0); meshkernel::CurvilinearParameters a1{}; return mkernel_curvilinear_compute_transfinite_from_splines(id, a0, a1); }
case 14: { name = "curvilinear_compute_transfinite_from_triangle"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); const int a2 = ARG_INT(2); const int a3 = ARG_INT(3); return mkernel_curvilinear_compute_transfinite_from_triangle(id, a0, a1, a2, a3); }
case 15: { name = "curvilinear_convert_to_mesh2d";  return mkernel_curvilinear_convert_to_mesh2d(id); }
case 16: { name = "curvilinear_delete_exterior"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); return mkernel_curvilinear_delete_exterior(id, a0, a1, a2, a3); }
case 17: { name = "curvilinear_delete_interior"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); return mkernel_curvilinear_delete_interior(id, a0, a1, a2, a3); }
case 18: { name = "curvilinear_delete_node"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); return mkernel_curvilinear_delete_node(id, a0, a1); }
case 19: { name = "curvilinear_delete_orthogonal_grid_from_splines";  return mkernel_curvilinear_delete_orthogonal_grid_from_splines(id); }
case 20: { name = "curvilinear_derefine"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); return mkernel_curvilinear_derefine(id, a0, a1, a2, a3); }
case 21: { name = "curvilinear_finalize_line_shift";  return mkernel_curvilinear_finalize_line_shift(id); }
case 22: { name = "curvilinear_finalize_orthogonalize";  return mkernel_curvilinear_finalize_orthogonalize(id); }
case 23: { name = "curvilinear_get_data"; auto a0 = DummyCurvilinearGrid(); return mkernel_curvilinear_get_data(id, a0); }
case 24: { name = "curvilinear_get_boundaries_as_polygons"; const int a0 = ARG_INT(0); const int a1 = ARG_INT(1); const int a2 = ARG_INT(2); const int a3 = ARG_INT(3); Poly p4 = Dummy(); auto& a4 = Glist(p4); return mkernel_curvilinear_get_boundaries_as_polygons(id, a0, a1, a2, a3, a4); }
case 25: { name = "curvilinear_count_boundaries_as_polygons"; const int a0 = ARG_INT(0); const int a1 = ARG_INT(1); const int a2 = ARG_INT(2); const int a3 = ARG_INT(3); int a4{}; return mkernel_curvilinear_count_boundaries_as_polygons(id, a0, a1, a2, a3, a4); }
case 26: { name = "curvilinear_get_dimensions"; auto a0 = DummyCurvilinearGrid(); return mkernel_curvilinear_get_dimensions(id, a0); }
case 27: { name = "curvilinear_get_location_index"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const int a2 = ARG_INT(2); BoundingBox a3{}; int a4{}; return mkernel_curvilinear_get_location_index(id, a0, a1, a2, a3, a4); }
case 28: { name = "curvilinear_initialize_line_shift";  return mkernel_curvilinear_initialize_line_shift(id); }
case 29: { name = "curvilinear_initialize_orthogonal_grid_from_splines"; Poly p0 = Dummy(); auto& a0 = Glist(p0); meshkernel::CurvilinearParameters a1{}; meshkernel::SplinesToCurvilinearParameters a2{}; return mkernel_curvilinear_initialize_orthogonal_grid_from_splines(id, a0, a1, a2); }
case 30: { name = "curvilinear_initialize_orthogonalize"; meshkernel::OrthogonalizationParameters a0{}; return mkernel_curvilinear_initialize_orthogonalize(id, a0); }
case 31: { name = "curvilinear_insert_face"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); return mkernel_curvilinear_insert_face(id, a0, a1); }
case 32: { name = "curvilinear_iterate_orthogonal_grid_from_splines"; const int a0 = ARG_INT(0); return mkernel_curvilinear_iterate_orthogonal_grid_from_splines(id, a0); }
case 33: { name = "curvilinear_line_attraction_repulsion"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); const double a4 = ARG_DBL(4); const double a5 = ARG_DBL(5); const double a6 = ARG_DBL(6); const double a7 = ARG_DBL(7); const double a8 = ARG_DBL(8); return mkernel_curvilinear_line_attraction_repulsion(id, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
case 34: { name = "curvilinear_line_mirror"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); const double a4 = ARG_DBL(4); return mkernel_curvilinear_line_mirror(id, a0, a1, a2, a3, a4); }
case 35: { name = "curvilinear_line_shift";  return mkernel_curvilinear_line_shift(id); }
case 36: { name = "curvilinear_compute_rectangular_grid"; meshkernel::MakeGridParameters a0{}; return mkernel_curvilinear_compute_rectangular_grid(id, a0); }
case 37: { name = "curvilinear_compute_rectangular_grid_from_polygon"; meshkernel::MakeGridParameters a0{}; Poly p1 = Dummy(); auto& a1 = Glist(p1); return mkernel_curvilinear_compute_rectangular_grid_from_polygon(id, a0, a1); }
case 38: { name = "curvilinear_compute_rectangular_grid_on_extension"; meshkernel::MakeGridParameters a0{}; return mkernel_curvilinear_compute_rectangular_grid_on_extension(id, a0); }
case 39: { name = "curvilinear_compute_circular_grid"; meshkernel::MakeGridParameters a0{}; return mkernel_curvilinear_compute_circular_grid(id, a0); }
case 40: { name = "curvilinear_move_node"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); return mkernel_curvilinear_move_node(id, a0, a1, a2, a3); }
case 41: { name = "curvilinear_move_node_line_shift"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); return mkernel_curvilinear_move_node_line_shift(id, a0, a1, a2, a3); }
case 42: { name = "curvilinear_orthogonalize";  return mkernel_curvilinear_orthogonalize(id); }
case 43: { name = "curvilinear_refine"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); const int a4 = ARG_INT(4); return mkernel_curvilinear_refine(id, a0, a1, a2, a3, a4); }
case 44: { name = "curvilinear_refresh_orthogonal_grid_from_splines";  return mkernel_curvilinear_refresh_orthogonal_grid_from_splines(id); }
case 45: { name = "curvilinear_full_refine"; const int a0 = ARG_INT(0); const int a1 = ARG_INT(1); return mkernel_curvilinear_full_refine(id, a0, a1); }
case 46: { name = "curvilinear_set"; auto a0 = DummyCurvilinearGrid(); return mkernel_curvilinear_set(id, a0); }
case 47: { name = "curvilinear_set_block_line_shift"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); return mkernel_curvilinear_set_block_line_shift(id, a0, a1, a2, a3); }
case 48: { name = "curvilinear_set_block_orthogonalize"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); return mkernel_curvilinear_set_block_orthogonalize(id, a0, a1, a2, a3); }
case 49: { name = "curvilinear_set_frozen_lines_orthogonalize"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); return mkernel_curvilinear_set_frozen_lines_orthogonalize(id, a0, a1, a2, a3); }
case 50: { name = "curvilinear_set_line_line_shift"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); return mkernel_curvilinear_set_line_line_shift(id, a0, a1, a2, a3); }
case 51: { name = "curvilinear_smoothing"; const int a0 = ARG_INT(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); const double a4 = ARG_DBL(4); return mkernel_curvilinear_smoothing(id, a0, a1, a2, a3, a4); }
case 52: { name = "curvilinear_smoothing_directional"; const int a0 = ARG_INT(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); const double a4 = ARG_DBL(4); const double a5 = ARG_DBL(5); const double a6 = ARG_DBL(6); const double a7 = ARG_DBL(7); const double a8 = ARG_DBL(8); return mkernel_curvilinear_smoothing_directional(id, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
case 53: { name = "curvilinear_snap_to_landboundary"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); const double a4 = ARG_DBL(4); const double a5 = ARG_DBL(5); const double a6 = ARG_DBL(6); return mkernel_curvilinear_snap_to_landboundary(id, a0, a1, a2, a3, a4, a5, a6); }
case 54: { name = "curvilinear_snap_to_spline"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); const double a4 = ARG_DBL(4); const double a5 = ARG_DBL(5); const double a6 = ARG_DBL(6); return mkernel_curvilinear_snap_to_spline(id, a0, a1, a2, a3, a4, a5, a6); }
case 55: { name = "deallocate_state";  return mkernel_deallocate_state(id); }
case 56: { name = "expunge_state";  return mkernel_expunge_state(id); }
case 57: { name = "get_projection"; int a0{}; return mkernel_get_projection(id, a0); }
case 58: { name = "mesh1d_get_data"; auto a0 = DummyMesh1D(); return mkernel_mesh1d_get_data(id, a0); }
case 59: { name = "mesh1d_get_dimensions"; auto a0 = DummyMesh1D(); return mkernel_mesh1d_get_dimensions(id, a0); }
case 60: { name = "mesh1d_set"; auto a0 = DummyMesh1D(); return mkernel_mesh1d_set(id, a0); }
case 61: { name = "mesh1d_add"; auto a0 = DummyMesh1D(); return mkernel_mesh1d_add(id, a0); }
case 62: { name = "mesh2d_averaging_interpolation"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); const int a2 = ARG_INT(2); const double a3 = ARG_DBL(3); const size_t a4 = ARG_INT(4); Poly p5 = Dummy(); auto& a5 = Glist(p5); return mkernel_mesh2d_averaging_interpolation(id, a0, a1, a2, a3, a4, a5); }
case 63: { name = "mesh2d_compute_inner_ortogonalization_iteration";  return mkernel_mesh2d_compute_inner_ortogonalization_iteration(id); }
case 64: { name = "mesh2d_rotate"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); return mkernel_mesh2d_rotate(id, a0, a1, a2); }
case 65: { name = "splines_snap_to_landboundary"; Poly p0 = Dummy(); auto& a0 = Glist(p0); Poly p1 = Dummy(); auto& a1 = Glist(p1); const int a2 = ARG_INT(2); const int a3 = ARG_INT(3); return mkernel_splines_snap_to_landboundary(id, a0, a1, a2, a3); }
case 66: { name = "mesh2d_translate"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); return mkernel_mesh2d_translate(id, a0, a1); }
case 67: { name = "mesh2d_casulli_derefinement_elements"; Poly p0 = Dummy(); auto& a0 = Glist(p0); return mkernel_mesh2d_casulli_derefinement_elements(id, a0); }
case 68: { name = "mesh2d_casulli_derefinement_elements_on_polygon"; Poly p0 = Dummy(); auto& a0 = Glist(p0); Poly p1 = Dummy(); auto& a1 = Glist(p1); return mkernel_mesh2d_casulli_derefinement_elements_on_polygon(id, a0, a1); }
case 69: { name = "mesh2d_casulli_derefinement";  return mkernel_mesh2d_casulli_derefinement(id); }
case 70: { name = "mesh2d_casulli_derefinement_on_polygon"; Poly p0 = Dummy(); auto& a0 = Glist(p0); return mkernel_mesh2d_casulli_derefinement_on_polygon(id, a0); }
case 71: { name = "mesh2d_casulli_refinement";  return mkernel_mesh2d_casulli_refinement(id); }
case 72: { name = "mesh2d_casulli_refinement_on_polygon"; Poly p0 = Dummy(); auto& a0 = Glist(p0); return mkernel_mesh2d_casulli_refinement_on_polygon(id, a0); }
case 73: { name = "mesh2d_compute_orthogonalization"; const int a0 = ARG_INT(0); meshkernel::OrthogonalizationParameters a1{}; Poly p2 = Dummy(); auto& a2 = Glist(p2); Poly p3 = Dummy(); auto& a3 = Glist(p3); return mkernel_mesh2d_compute_orthogonalization(id, a0, a1, a2, a3); }
case 74: { name = "mesh2d_connect_meshes"; auto a0 = DummyMesh2D(); const double a1 = ARG_DBL(1); return mkernel_mesh2d_connect_meshes(id, a0, a1); }
case 75: { name = "mesh2d_convert_projection"; const int a0 = ARG_INT(0); static char a1[4096] = {}; return mkernel_mesh2d_convert_projection(id, a0, a1); }
case 76: { name = "mesh2d_convert_to_curvilinear"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); return mkernel_mesh2d_convert_to_curvilinear(id, a0, a1); }
case 77: { name = "mesh2d_count_hanging_edges"; int a0{}; return mkernel_mesh2d_count_hanging_edges(id, a0); }
case 78: { name = "mesh2d_count_mesh_boundaries_as_polygons"; int a0{}; return mkernel_mesh2d_count_mesh_boundaries_as_polygons(id, a0); }
case 79: { name = "mesh2d_count_nodes_in_polygons"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); int a2{}; return mkernel_mesh2d_count_nodes_in_polygons(id, a0, a1, a2); }
case 80: { name = "mesh2d_count_obtuse_triangles"; int a0{}; return mkernel_mesh2d_count_obtuse_triangles(id, a0); }
case 81: { name = "mesh2d_count_small_flow_edge_centers"; const double a0 = ARG_DBL(0); int a1{}; return mkernel_mesh2d_count_small_flow_edge_centers(id, a0, a1); }
case 82: { name = "mesh2d_delete"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); const int a2 = ARG_INT(2); return mkernel_mesh2d_delete(id, a0, a1, a2); }
case 83: { name = "mesh2d_delete_edge"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); const double a4 = ARG_DBL(4); const double a5 = ARG_DBL(5); return mkernel_mesh2d_delete_edge(id, a0, a1, a2, a3, a4, a5); }
case 84: { name = "mesh2d_delete_edge_by_index"; const int a0 = ARG_INT(0); return mkernel_mesh2d_delete_edge_by_index(id, a0); }
case 85: { name = "mesh2d_delete_hanging_edges";  return mkernel_mesh2d_delete_hanging_edges(id); }
case 86: { name = "mesh2d_delete_node"; const int a0 = ARG_INT(0); return mkernel_mesh2d_delete_node(id, a0); }
case 87: { name = "mesh2d_delete_orthogonalization";  return mkernel_mesh2d_delete_orthogonalization(id); }
case 88: { name = "mesh2d_delete_small_flow_edges_and_small_triangles"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); return mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(id, a0, a1); }
case 89: { name = "mesh2d_finalize_inner_ortogonalization_iteration";  return mkernel_mesh2d_finalize_inner_ortogonalization_iteration(id); }
case 90: { name = "mesh2d_flip_edges"; const int a0 = ARG_INT(0); const int a1 = ARG_INT(1); Poly p2 = Dummy(); auto& a2 = Glist(p2); Poly p3 = Dummy(); auto& a3 = Glist(p3); return mkernel_mesh2d_flip_edges(id, a0, a1, a2, a3); }
case 91: { name = "mesh2d_get_closest_node"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); const double a4 = ARG_DBL(4); const double a5 = ARG_DBL(5); const double a6 = ARG_DBL(6); double a7{}; double a8{}; return mkernel_mesh2d_get_closest_node(id, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
case 92: { name = "mesh2d_get_data"; auto a0 = DummyMesh2D(); return mkernel_mesh2d_get_data(id, a0); }
case 93: { name = "mesh2d_get_node_edge_data"; auto a0 = DummyMesh2D(); return mkernel_mesh2d_get_node_edge_data(id, a0); }
case 94: { name = "mesh2d_get_dimensions"; auto a0 = DummyMesh2D(); return mkernel_mesh2d_get_dimensions(id, a0); }
case 95: { name = "mesh2d_get_edge"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); const double a4 = ARG_DBL(4); const double a5 = ARG_DBL(5); int a6{}; return mkernel_mesh2d_get_edge(id, a0, a1, a2, a3, a4, a5, a6); }
case 96: { name = "mesh2d_get_hanging_edges"; static int a0[4096] = {}; return mkernel_mesh2d_get_hanging_edges(id, a0); }
case 97: { name = "mesh2d_get_face_polygons"; const int a0 = ARG_INT(0); Poly p1 = Dummy(); auto& a1 = Glist(p1); return mkernel_mesh2d_get_face_polygons(id, a0, a1); }
case 98: { name = "mesh2d_get_face_polygons_dimension"; const int a0 = ARG_INT(0); int a1{}; return mkernel_mesh2d_get_face_polygons_dimension(id, a0, a1); }
case 99: { name = "mesh2d_get_filtered_face_polygons_dimension"; const int a0 = ARG_INT(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); int a3{}; return mkernel_mesh2d_get_filtered_face_polygons_dimension(id, a0, a1, a2, a3); }
case 100: { name = "mesh2d_get_filtered_face_polygons"; const int a0 = ARG_INT(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); Poly p3 = Dummy(); auto& a3 = Glist(p3); return mkernel_mesh2d_get_filtered_face_polygons(id, a0, a1, a2, a3); }
case 101: { name = "mesh2d_get_location_index"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const int a2 = ARG_INT(2); BoundingBox a3{}; int a4{}; return mkernel_mesh2d_get_location_index(id, a0, a1, a2, a3, a4); }
case 102: { name = "mesh2d_get_mesh_boundaries_as_polygons"; Poly p0 = Dummy(); auto& a0 = Glist(p0); return mkernel_mesh2d_get_mesh_boundaries_as_polygons(id, a0); }
case 103: { name = "mesh2d_get_node_index"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); const double a4 = ARG_DBL(4); const double a5 = ARG_DBL(5); const double a6 = ARG_DBL(6); int a7{}; return mkernel_mesh2d_get_node_index(id, a0, a1, a2, a3, a4, a5, a6, a7); }
case 104: { name = "mesh2d_get_nodes_in_polygons"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); static int a2[4096] = {}; return mkernel_mesh2d_get_nodes_in_polygons(id, a0, a1, a2); }
case 105: { name = "mesh2d_get_obtuse_triangles_mass_centers"; Poly p0 = Dummy(); auto& a0 = Glist(p0); return mkernel_mesh2d_get_obtuse_triangles_mass_centers(id, a0); }
case 106: { name = "mesh2d_get_orthogonality"; Poly p0 = Dummy(); auto& a0 = Glist(p0); return mkernel_mesh2d_get_orthogonality(id, a0); }
case 107: { name = "mesh2d_get_property"; const int a0 = ARG_INT(0); Poly p1 = Dummy(); auto& a1 = Glist(p1); return mkernel_mesh2d_get_property(id, a0, a1); }
case 108: { name = "mesh2d_get_property_dimension"; const int a0 = ARG_INT(0); int a1{}; return mkernel_mesh2d_get_property_dimension(id, a0, a1); }
case 109: { name = "mesh2d_get_small_flow_edge_centers"; const double a0 = ARG_DBL(0); Poly p1 = Dummy(); auto& a1 = Glist(p1); return mkernel_mesh2d_get_small_flow_edge_centers(id, a0, a1); }
case 110: { name = "mesh2d_get_smoothness"; Poly p0 = Dummy(); auto& a0 = Glist(p0); return mkernel_mesh2d_get_smoothness(id, a0); }
case 111: { name = "mesh2d_initialize_orthogonalization"; const int a0 = ARG_INT(0); meshkernel::OrthogonalizationParameters a1{}; Poly p2 = Dummy(); auto& a2 = Glist(p2); Poly p3 = Dummy(); auto& a3 = Glist(p3); return mkernel_mesh2d_initialize_orthogonalization(id, a0, a1, a2, a3); }
case 112: { name = "mesh2d_insert_edge"; const int a0 = ARG_INT(0); const int a1 = ARG_INT(1); int a2{}; return mkernel_mesh2d_insert_edge(id, a0, a1, a2); }
case 113: { name = "mesh2d_insert_edge_from_coordinates"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); int a4{}; int a5{}; int a6{}; return mkernel_mesh2d_insert_edge_from_coordinates(id, a0, a1, a2, a3, a4, a5, a6); }
case 114: { name = "mesh2d_insert_node"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); int a2{}; return mkernel_mesh2d_insert_node(id, a0, a1, a2); }
case 115: { name = "mesh2d_intersections_from_polygon"; Poly p0 = Dummy(); auto& a0 = Glist(p0); static int a1[4096] = {}; static int a2[4096] = {}; static double a3[4096] = {}; static double a4[4096] = {}; static int a5[4096] = {}; static int a6[4096] = {}; static int a7[4096] = {}; static int a8[4096] = {}; return mkernel_mesh2d_intersections_from_polygon(id, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
case 116: { name = "mesh2d_make_global"; const int a0 = ARG_INT(0); const int a1 = ARG_INT(1); return mkernel_mesh2d_make_global(id, a0, a1); }
case 117: { name = "mesh2d_make_triangular_mesh_from_polygon"; Poly p0 = Dummy(); auto& a0 = Glist(p0); return mkernel_mesh2d_make_triangular_mesh_from_polygon(id, a0); }
case 118: { name = "mesh2d_make_triangular_mesh_from_samples"; Poly p0 = Dummy(); auto& a0 = Glist(p0); return mkernel_mesh2d_make_triangular_mesh_from_samples(id, a0); }
case 119: { name = "mesh2d_make_rectangular_mesh"; meshkernel::MakeGridParameters a0{}; return mkernel_mesh2d_make_rectangular_mesh(id, a0); }
case 120: { name = "mesh2d_make_rectangular_mesh_from_polygon"; meshkernel::MakeGridParameters a0{}; Poly p1 = Dummy(); auto& a1 = Glist(p1); return mkernel_mesh2d_make_rectangular_mesh_from_polygon(id, a0, a1); }
case 121: { name = "mesh2d_make_rectangular_mesh_on_extension"; meshkernel::MakeGridParameters a0{}; return mkernel_mesh2d_make_rectangular_mesh_on_extension(id, a0); }
case 122: { name = "mesh2d_merge_nodes"; Poly p0 = Dummy(); auto& a0 = Glist(p0); return mkernel_mesh2d_merge_nodes(id, a0); }
case 123: { name = "mesh2d_merge_nodes_with_merging_distance"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const double a1 = ARG_DBL(1); return mkernel_mesh2d_merge_nodes_with_merging_distance(id, a0, a1); }
case 124: { name = "mesh2d_merge_two_nodes"; const int a0 = ARG_INT(0); const int a1 = ARG_INT(1); return mkernel_mesh2d_merge_two_nodes(id, a0, a1); }
case 125: { name = "mesh2d_move_node"; const double a0 = ARG_DBL(0); const double a1 = ARG_DBL(1); const int a2 = ARG_INT(2); return mkernel_mesh2d_move_node(id, a0, a1, a2); }
case 126: { name = "mesh2d_prepare_outer_iteration_orthogonalization";  return mkernel_mesh2d_prepare_outer_iteration_orthogonalization(id); }
case 127: { name = "mesh2d_refine_based_on_gridded_samples"; auto a0 = DummyGriddedSamples(); meshkernel::MeshRefinementParameters a1{}; const bool a2 = ARG_BOOL(2); return mkernel_mesh2d_refine_based_on_gridded_samples(id, a0, a1, a2); }
case 128: { name = "mesh2d_refine_based_on_polygon"; Poly p0 = Dummy(); auto& a0 = Glist(p0); meshkernel::MeshRefinementParameters a1{}; return mkernel_mesh2d_refine_based_on_polygon(id, a0, a1); }
case 129: { name = "mesh2d_refine_based_on_samples"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const double a1 = ARG_DBL(1); const int a2 = ARG_INT(2); meshkernel::MeshRefinementParameters a3{}; return mkernel_mesh2d_refine_based_on_samples(id, a0, a1, a2, a3); }
case 130: { name = "mesh2d_refine_ridges_based_on_gridded_samples"; auto a0 = DummyGriddedSamples(); const double a1 = ARG_DBL(1); const int a2 = ARG_INT(2); const int a3 = ARG_INT(3); meshkernel::MeshRefinementParameters a4{}; return mkernel_mesh2d_refine_ridges_based_on_gridded_samples(id, a0, a1, a2, a3, a4); }
case 131: { name = "mesh2d_remove_disconnected_regions";  return mkernel_mesh2d_remove_disconnected_regions(id); }
case 132: { name = "mesh2d_set"; auto a0 = DummyMesh2D(); return mkernel_mesh2d_set(id, a0); }
case 133: { name = "mesh2d_snap_to_landboundary"; Poly p0 = Dummy(); auto& a0 = Glist(p0); Poly p1 = Dummy(); auto& a1 = Glist(p1); return mkernel_mesh2d_snap_to_landboundary(id, a0, a1); }
case 134: { name = "mesh2d_split_row"; const int a0 = ARG_INT(0); const int a1 = ARG_INT(1); return mkernel_mesh2d_split_row(id, a0, a1); }
case 135: { name = "mesh2d_add"; auto a0 = DummyMesh2D(); return mkernel_mesh2d_add(id, a0); }
case 136: { name = "mesh2d_triangulation_interpolation"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); Poly p2 = Dummy(); auto& a2 = Glist(p2); return mkernel_mesh2d_triangulation_interpolation(id, a0, a1, a2); }
case 137: { name = "network1d_compute_fixed_chainages"; static double a0[4096] = {}; const int a1 = ARG_INT(1); const double a2 = ARG_DBL(2); const double a3 = ARG_DBL(3); return mkernel_network1d_compute_fixed_chainages(id, a0, a1, a2, a3); }
case 138: { name = "network1d_compute_offsetted_chainages"; const double a0 = ARG_DBL(0); return mkernel_network1d_compute_offsetted_chainages(id, a0); }
case 139: { name = "network1d_set"; Poly p0 = Dummy(); auto& a0 = Glist(p0); return mkernel_network1d_set(id, a0); }
case 140: { name = "network1d_to_mesh1d"; const double a0 = ARG_DBL(0); return mkernel_network1d_to_mesh1d(id, a0); }
case 141: { name = "polygon_count_offset"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); const double a2 = ARG_DBL(2); int a3{}; return mkernel_polygon_count_offset(id, a0, a1, a2, a3); }
case 142: { name = "polygon_count_refine"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); const int a2 = ARG_INT(2); const double a3 = ARG_DBL(3); int a4{}; return mkernel_polygon_count_refine(id, a0, a1, a2, a3, a4); }
case 143: { name = "polygon_count_linear_refine"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); const int a2 = ARG_INT(2); int a3{}; return mkernel_polygon_count_linear_refine(id, a0, a1, a2, a3); }
case 144: { name = "polygon_get_included_points"; Poly p0 = Dummy(); auto& a0 = Glist(p0); Poly p1 = Dummy(); auto& a1 = Glist(p1); Poly p2 = Dummy(); auto& a2 = Glist(p2); return mkernel_polygon_get_included_points(id, a0, a1, a2); }
case 145: { name = "polygon_get_offset"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); const double a2 = ARG_DBL(2); Poly p3 = Dummy(); auto& a3 = Glist(p3); return mkernel_polygon_get_offset(id, a0, a1, a2, a3); }
case 146: { name = "polygon_refine"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); const int a2 = ARG_INT(2); const double a3 = ARG_DBL(3); Poly p4 = Dummy(); auto& a4 = Glist(p4); return mkernel_polygon_refine(id, a0, a1, a2, a3, a4); }
case 147: { name = "polygon_linear_refine"; Poly p0 = Dummy(); auto& a0 = Glist(p0); const int a1 = ARG_INT(1); const int a2 = ARG_INT(2); Poly p3 = Dummy(); auto& a3 = Glist(p3); return mkernel_polygon_linear_refine(id, a0, a1, a2, a3); }
case 148: { name = "polygon_snap_to_landboundary"; Poly p0 = Dummy(); auto& a0 = Glist(p0); Poly p1 = Dummy(); auto& a1 = Glist(p1); const int a2 = ARG_INT(2); const int a3 = ARG_INT(3); return mkernel_polygon_snap_to_landboundary(id, a0, a1, a2, a3); }
#define NUM_CALLS 149
