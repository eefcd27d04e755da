// Written by tools/gen_flags.py: the flag accessors of the public API.
use super::*;

pub fn all() -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    header_flags!(v, Header, end_point_snap set_end_point_snap, mid_point_snap set_mid_point_snap, center_snap set_center_snap, node_snap set_node_snap, quadrant_snap set_quadrant_snap, intersection_snap set_intersection_snap, insertion_snap set_insertion_snap, perpendicular_snap set_perpendicular_snap, tangent_snap set_tangent_snap, nearest_snap set_nearest_snap, apparent_intersection_snap set_apparent_intersection_snap, extension_snap set_extension_snap, parallel_snap set_parallel_snap, sort_objects_for_object_selection set_sort_objects_for_object_selection, sort_objects_for_object_snap set_sort_objects_for_object_snap, sort_objects_for_redraw set_sort_objects_for_redraw, sort_objects_for_mslide set_sort_objects_for_mslide, sort_objects_for_regen set_sort_objects_for_regen, sort_objects_for_plotting set_sort_objects_for_plotting, sort_objects_for_post_script_output set_sort_objects_for_post_script_output, no_twist set_no_twist, align_direction set_align_direction, simplify set_simplify, close set_close);
    block_flags!(v, Block, is_anonymous set_is_anonymous, has_non_consistent_attribute_definitions set_has_non_consistent_attribute_definitions, is_xref set_is_xref, is_xref_overlay set_is_xref_overlay, is_externally_dependent set_is_externally_dependent, is_referenced_external_reference set_is_referenced_external_reference, is_resolved_external_reference set_is_resolved_external_reference);
    class_flags!(v, Class, is_erase_allowed set_is_erase_allowed, is_transform_allowed set_is_transform_allowed, is_color_change_allowed set_is_color_change_allowed, is_layer_change_allowed set_is_layer_change_allowed, is_line_type_change_allowed set_is_line_type_change_allowed, is_line_type_scale_change_allowed set_is_line_type_scale_change_allowed, is_visibility_change_allowed set_is_visibility_change_allowed, is_clone_allowed set_is_clone_allowed, is_lineweight_change_allowed set_is_lineweight_change_allowed, is_plot_style_name_change_allowed set_is_plot_style_name_change_allowed, is_R13_format_proxy set_is_R13_format_proxy);
    view_flags!(v, ViewMode, is_perspective_view_active set_is_perspective_view_active, is_front_clipping_on set_is_front_clipping_on, is_back_clipping_on set_is_back_clipping_on, is_ucs_follow_mode_on set_is_ucs_follow_mode_on, is_front_clipping_at_eye set_is_front_clipping_at_eye);
    entity_flags!(v, Face3D, is_first_edge_invisible set_is_first_edge_invisible, is_second_edge_invisible set_is_second_edge_invisible, is_third_edge_invisible set_is_third_edge_invisible, is_fourth_edge_invisible set_is_fourth_edge_invisible);
    entity_flags!(v, AttributeDefinition, is_text_backwards set_is_text_backwards, is_text_upside_down set_is_text_upside_down, is_invisible set_is_invisible, is_constant set_is_constant, is_input_verification_required set_is_input_verification_required, is_attribute_present set_is_attribute_present);
    entity_flags!(v, Attribute, is_invisible set_is_invisible, is_constant set_is_constant, is_input_verification_required set_is_input_verification_required, is_attribute_present set_is_attribute_present, is_text_backwards set_is_text_backwards, is_text_upside_down set_is_text_upside_down);
    entity_flags!(v, Image, show_image set_show_image, show_image_when_not_alligned set_show_image_when_not_alligned, use_clipping_boundary set_use_clipping_boundary, use_transparency set_use_transparency);
    entity_flags!(v, LwPolyline, is_closed set_is_closed, is_pline_gen set_is_pline_gen);
    entity_flags!(v, MLine, has_at_least_one_vertex set_has_at_least_one_vertex, is_closed set_is_closed, suppress_start_caps set_suppress_start_caps, suppress_end_caps set_suppress_end_caps);
    entity_flags!(v, Polyline, is_closed set_is_closed, curve_fit_vertices_added set_curve_fit_vertices_added, spline_fit_vertices_added set_spline_fit_vertices_added, is_3d_polyline set_is_3d_polyline, is_3d_polygon_mesh set_is_3d_polygon_mesh, is_polygon_mesh_closed_in_n_direction set_is_polygon_mesh_closed_in_n_direction, is_polyface_mesh set_is_polyface_mesh, is_line_type_pattern_generated_continuously set_is_line_type_pattern_generated_continuously);
    entity_flags!(v, RText, is_expression set_is_expression, is_inline_mtext_sequences_enabled set_is_inline_mtext_sequences_enabled);
    entity_flags!(v, Spline, is_closed set_is_closed, is_periodic set_is_periodic, is_rational set_is_rational, is_planar set_is_planar, is_linear set_is_linear);
    entity_flags!(v, Text, is_text_backwards set_is_text_backwards, is_text_upside_down set_is_text_upside_down);
    entity_flags!(v, DgnUnderlay, is_clipping_on set_is_clipping_on, is_underlay_on set_is_underlay_on, is_monochrome set_is_monochrome, adjust_for_background set_adjust_for_background, is_clip_inside_mode set_is_clip_inside_mode);
    entity_flags!(v, DwfUnderlay, is_clipping_on set_is_clipping_on, is_underlay_on set_is_underlay_on, is_monochrome set_is_monochrome, adjust_for_background set_adjust_for_background, is_clip_inside_mode set_is_clip_inside_mode);
    entity_flags!(v, PdfUnderlay, is_clipping_on set_is_clipping_on, is_underlay_on set_is_underlay_on, is_monochrome set_is_monochrome, adjust_for_background set_adjust_for_background, is_clip_inside_mode set_is_clip_inside_mode);
    entity_flags!(v, Vertex, is_extra_created_by_curve_fit set_is_extra_created_by_curve_fit, is_curve_fit_tangent_defined set_is_curve_fit_tangent_defined, is_spline_vertex_created_by_spline_fitting set_is_spline_vertex_created_by_spline_fitting, is_spline_frame_control_point set_is_spline_frame_control_point, is_3d_polyline_vertex set_is_3d_polyline_vertex, is_3d_polygon_mesh set_is_3d_polygon_mesh, is_polyface_mesh_vertex set_is_polyface_mesh_vertex);
    entity_flags!(v, Wipeout, show_image set_show_image, show_image_when_not_alligned set_show_image_when_not_alligned, use_clipping_boundary set_use_clipping_boundary, use_transparency set_use_transparency);
    object_flags!(v, DimensionAssoc, is_first_point_reference set_is_first_point_reference, is_second_point_reference set_is_second_point_reference, is_third_point_reference set_is_third_point_reference, is_fourth_point_reference set_is_fourth_point_reference);
    object_flags!(v, Layout, is_ps_lt_scale set_is_ps_lt_scale, is_lim_check set_is_lim_check);
    object_flags!(v, MLineStyle, fill_on set_fill_on, display_miters set_display_miters, start_square_end_cap set_start_square_end_cap, start_inner_arcs_cap set_start_inner_arcs_cap, start_round_cap set_start_round_cap, end_square_cap set_end_square_cap, end_inner_arcs_cap set_end_inner_arcs_cap, end_round_cap set_end_round_cap);
    object_flags!(v, PlotSettings, plot_viewport_borders set_plot_viewport_borders, show_plot_styles set_show_plot_styles, plot_centered set_plot_centered, plot_hidden set_plot_hidden, use_standard_scale set_use_standard_scale, plot_plot_styles set_plot_plot_styles, scale_line_weights set_scale_line_weights, print_line_weights set_print_line_weights, draw_viewports_first set_draw_viewports_first, model_type set_model_type, update_paper set_update_paper, zoom_to_paper_on_update set_zoom_to_paper_on_update, initializing set_initializing, prev_plot_init set_prev_plot_init);
    v
}
