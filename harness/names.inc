"contacts_compute_boundary",
"contacts_compute_multiple",
"contacts_compute_single",
"contacts_compute_with_points",
"contacts_compute_with_polygons",
"contacts_get_data",
"contacts_get_dimensions",
"contacts_set",
"curvilinear_compute_curvature",
"curvilinear_compute_orthogonal_grid_from_splines",
"curvilinear_compute_grid_from_splines",
"curvilinear_compute_smoothness",
"curvilinear_compute_transfinite_from_polygon",
"curvilinear_compute_transfinite_from_splines",
"curvilinear_compute_transfinite_from_triangle",
"curvilinear_convert_to_mesh2d",
"curvilinear_delete_exterior",
"curvilinear_delete_interior",
"curvilinear_delete_node",
"curvilinear_delete_orthogonal_grid_from_splines",
"curvilinear_derefine",
"curvilinear_finalize_line_shift",
"curvilinear_finalize_orthogonalize",
"curvilinear_get_data",
"curvilinear_get_boundaries_as_polygons",
"curvilinear_count_boundaries_as_polygons",
"curvilinear_get_dimensions",
"curvilinear_get_location_index",
"curvilinear_initialize_line_shift",
"curvilinear_initialize_orthogonal_grid_from_splines",
"curvilinear_initialize_orthogonalize",
"curvilinear_insert_face",
"curvilinear_iterate_orthogonal_grid_from_splines",
"curvilinear_line_attraction_repulsion",
"curvilinear_line_mirror",
"curvilinear_line_shift",
"curvilinear_compute_rectangular_grid",
"curvilinear_compute_rectangular_grid_from_polygon",
"curvilinear_compute_rectangular_grid_on_extension",
"curvilinear_compute_circular_grid",
"curvilinear_move_node",
"curvilinear_move_node_line_shift",
"curvilinear_orthogonalize",
"curvilinear_refine",
"curvilinear_refresh_orthogonal_grid_from_splines",
"curvilinear_full_refine",
"curvilinear_set",
"curvilinear_set_block_line_shift",
"curvilinear_set_block_orthogonalize",
"curvilinear_set_frozen_lines_orthogonalize",
"curvilinear_set_line_line_shift",
"curvilinear_smoothing",
"curvilinear_smoothing_directional",
"curvilinear_snap_to_landboundary",
"curvilinear_snap_to_spline",
"deallocate_state",
"expunge_state",
"get_projection",
"mesh1d_get_data",
"mesh1d_get_dimensions",
"mesh1d_set",
"mesh1d_add",
"mesh2d_averaging_interpolation",
"mesh2d_compute_inner_ortogonalization_iteration",
"mesh2d_rotate",
"splines_snap_to_landboundary",
"mesh2d_translate",
"mesh2d_casulli_derefinement_elements",
"mesh2d_casulli_derefinement_elements_on_polygon",
"mesh2d_casulli_derefinement",
"mesh2d_casulli_derefinement_on_polygon",
"mesh2d_casulli_refinement",
"mesh2d_casulli_refinement_on_polygon",
"mesh2d_compute_orthogonalization",
"mesh2d_connect_meshes",
"mesh2d_convert_projection",
"mesh2d_convert_to_curvilinear",
"mesh2d_count_hanging_edges",
"mesh2d_count_mesh_boundaries_as_polygons",
"mesh2d_count_nodes_in_polygons",
"mesh2d_count_obtuse_triangles",
"mesh2d_count_small_flow_edge_centers",
"mesh2d_delete",
"mesh2d_delete_edge",
"mesh2d_delete_edge_by_index",
"mesh2d_delete_hanging_edges",
"mesh2d_delete_node",
"mesh2d_delete_orthogonalization",
"mesh2d_delete_small_flow_edges_and_small_triangles",
"mesh2d_finalize_inner_ortogonalization_iteration",
"mesh2d_flip_edges",
"mesh2d_get_closest_node",
"mesh2d_get_data",
"mesh2d_get_node_edge_data",
"mesh2d_get_dimensions",
"mesh2d_get_edge",
"mesh2d_get_hanging_edges",
"mesh2d_get_face_polygons",
"mesh2d_get_face_polygons_dimension",
"mesh2d_get_filtered_face_polygons_dimension",
"mesh2d_get_filtered_face_polygons",
"mesh2d_get_location_index",
"mesh2d_get_mesh_boundaries_as_polygons",
"mesh2d_get_node_index",
"mesh2d_get_nodes_in_polygons",
"mesh2d_get_obtuse_triangles_mass_centers",
"mesh2d_get_orthogonality",
"mesh2d_get_property",
"mesh2d_get_property_dimension",
"mesh2d_get_small_flow_edge_centers",
"mesh2d_get_smoothness",
"mesh2d_initialize_orthogonalization",
"mesh2d_insert_edge",
"mesh2d_insert_edge_from_coordinates",
"mesh2d_insert_node",
"mesh2d_intersections_from_polygon",
"mesh2d_make_global",
"mesh2d_make_triangular_mesh_from_polygon",
"mesh2d_make_triangular_mesh_from_samples",
"mesh2d_make_rectangular_mesh",
"mesh2d_make_rectangular_mesh_from_polygon",
"mesh2d_make_rectangular_mesh_on_extension",
"mesh2d_merge_nodes",
"mesh2d_merge_nodes_with_merging_distance",
"mesh2d_merge_two_nodes",
"mesh2d_move_node",
"mesh2d_prepare_outer_iteration_orthogonalization",
"mesh2d_refine_based_on_gridded_samples",
"mesh2d_refine_based_on_polygon",
"mesh2d_refine_based_on_samples",
"mesh2d_refine_ridges_based_on_gridded_samples",
"mesh2d_remove_disconnected_regions",
"mesh2d_set",
"mesh2d_snap_to_landboundary",
"mesh2d_split_row",
"mesh2d_add",
"mesh2d_triangulation_interpolation",
"network1d_compute_fixed_chainages",
"network1d_compute_offsetted_chainages",
"network1d_set",
"network1d_to_mesh1d",
"polygon_count_offset",
"polygon_count_refine",
"polygon_count_linear_refine",
"polygon_get_included_points",
"polygon_get_offset",
"polygon_refine",
"polygon_linear_refine",
"polygon_snap_to_landboundary",
