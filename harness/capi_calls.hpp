// generated by tools/mkcapicalls.py from capyver/props/a14_table.json
CALL(capy_3d_annotation_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_3d_stream_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_3d_stream_new, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_annotation_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_annotation_set_3d_stream, (L{}), (L{}), (L{}), (L{}))
CALL(capy_annotation_set_destination, (L{}), (L{}), (L{}), (L{}))
CALL(capy_annotation_set_flags, (L{}), (L{}), (L{}), (L{}))
CALL(capy_annotation_set_line_endings, (L{}), (L{}), (L{}), (L{}))
CALL(capy_annotation_set_line_leader, (L{}), (L{}), (L{}), (L{}))
CALL(capy_annotation_set_parent_field, (L{}), (L{}), (L{}), (L{}))
CALL(capy_annotation_set_rectangle, (L{}), (L{}), (L{}), (L{}))
CALL(capy_annotation_set_uri, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_annotation_set_widget_button_appearance, (L{}), (L{3}), (L{}), (L{4}))
CALL(capy_bdc_tags_add_tag, (L{}), (L{1, 3}), (L{}), (L{2, 4}))
CALL(capy_bdc_tags_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_bdc_tags_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_collection_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_collection_field_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_collection_field_new, (L{3}), (L{1}), (L{}), (L{2}))
CALL(capy_collection_field_set_E, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_collection_field_set_O, (L{}), (L{}), (L{}), (L{}))
CALL(capy_collection_field_set_V, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_collection_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_collection_schema_add_entry, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_collection_schema_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_collection_schema_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_collection_set_D, (L{}), (L{}), (L{}), (L{2}))
CALL(capy_collection_set_schema, (L{}), (L{}), (L{}), (L{}))
CALL(capy_collection_set_view, (L{}), (L{}), (L{}), (L{}))
CALL(capy_color_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_color_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_color_set_cmyk, (L{}), (L{}), (L{}), (L{}))
CALL(capy_color_set_gray, (L{}), (L{}), (L{}), (L{}))
CALL(capy_color_set_icc, (L{}), (L{}), (L{}), (L{3}))
CALL(capy_color_set_lab, (L{}), (L{}), (L{}), (L{}))
CALL(capy_color_set_pattern, (L{}), (L{}), (L{}), (L{}))
CALL(capy_color_set_rgb, (L{}), (L{}), (L{}), (L{}))
CALL(capy_color_set_separation, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_add_simple_navigation, (L{}), (L{}), (L{}), (L{2}))
CALL(capy_dc_annotate, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_append_viewport, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_B, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_BDC_builtin, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_BDC_ocg, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_BDC_testing, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_dc_cmd_BMC, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_Bstar, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_Do_image, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_Do_trgroup, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_EMC, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_G, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_J, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_K, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_M, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_Q, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_RG, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_S, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_W, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_Wstar, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_b, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_bstar, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_c, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_cm, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_d, (L{}), (L{}), (L{}), (L{2}))
CALL(capy_dc_cmd_f, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_fstar, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_g, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_gs, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_h, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_i, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_j, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_k, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_l, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_m, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_n, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_q, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_re, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_rg, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_ri, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_s, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_sh, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_v, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_w, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_cmd_y, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_render_text, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_dc_render_text_obj, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_set_custom_page_properties, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_set_group_matrix, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_set_nonstroke, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_set_page_transition, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_set_stroke, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_set_transparency_group_properties, (L{}), (L{}), (L{}), (L{}))
CALL(capy_dc_text_new, (L{1}), (L{}), (L{}), (L{}))
CALL(capy_destination_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_destination_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_destination_set_page_fit, (L{}), (L{}), (L{}), (L{}))
CALL(capy_destination_set_page_xyz, (L{}), (L{}), (L{}), (L{}))
CALL(capy_document_properties_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_document_properties_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_document_properties_set_author, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_document_properties_set_colorspace, (L{}), (L{}), (L{}), (L{}))
CALL(capy_document_properties_set_creator, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_document_properties_set_default_page_properties, (L{}), (L{}), (L{}), (L{}))
CALL(capy_document_properties_set_device_profile, (L{}), (L{}), (L{}), (L{}))
CALL(capy_document_properties_set_language, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_document_properties_set_metadata_xml, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_document_properties_set_output_intent, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_document_properties_set_page_layout, (L{}), (L{}), (L{}), (L{}))
CALL(capy_document_properties_set_page_mode, (L{}), (L{}), (L{}), (L{}))
CALL(capy_document_properties_set_pdfa, (L{}), (L{}), (L{}), (L{}))
CALL(capy_document_properties_set_pdfx, (L{}), (L{}), (L{}), (L{}))
CALL(capy_document_properties_set_tagged, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_document_properties_set_title, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_embedded_file_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_embedded_file_load_file, (L{}), (L{}), (L{}), (L{}))
CALL(capy_embedded_file_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_embedded_file_set_contents, (L{}), (L{}), (L{}), (L{2}))
CALL(capy_embedded_file_set_pdf_name, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_embedded_file_set_subtype, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_file_attachment_annotation_new, (L{1}), (L{}), (L{}), (L{}))
CALL(capy_font_properties_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_font_properties_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_font_properties_set_named_instance, (L{}), (L{}), (L{}), (L{}))
CALL(capy_font_properties_set_subfont, (L{}), (L{}), (L{}), (L{}))
CALL(capy_font_properties_set_variation, (L{}), (L{}), (L{}), (L{2}))
CALL(capy_form_field_add_Opt_entry, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_form_field_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_form_field_new, (L{1}), (L{}), (L{}), (L{}))
CALL(capy_form_field_set_Ff, (L{}), (L{}), (L{}), (L{}))
CALL(capy_form_field_set_T, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_form_field_set_V, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_form_field_set_parent, (L{}), (L{}), (L{}), (L{}))
CALL(capy_form_xobject_new, (L{5}), (L{}), (L{}), (L{}))
CALL(capy_function_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_3d_stream, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_annotation, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_custom_structure_item, (L{4}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_form_field, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_form_xobject, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_function, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_graphics_state, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_icc_profile, (L{4}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_image, (L{3}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_lab_colorspace, (L{8}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_optional_content_group, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_outline, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_page, (L{}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_page_labeling, (L{}), (L{}), (L{}), (L{4}))
CALL(capy_generator_add_rolemap_entry, (L{4}), (L{}), (L{}), (L{2}))
CALL(capy_generator_add_separation, (L{5}), (L{1}), (L{}), (L{2}))
CALL(capy_generator_add_shading, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_shading_pattern, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_soft_mask, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_structure_item, (L{4}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_tiling_pattern, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_add_transparency_group, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_convert_image, (L{4}), (L{}), (L{}), (L{}))
CALL(capy_generator_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_generator_embed_file, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_load_font, (L{3}), (L{}), (L{}), (L{}))
CALL(capy_generator_load_icc_profile, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_load_image, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_load_image_from_memory, (L{3}), (L{}), (L{}), (L{}))
CALL(capy_generator_new, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_generator_set_collection, (L{}), (L{}), (L{}), (L{}))
CALL(capy_generator_text_width, (L{5}), (L{1}), (L{}), (L{2}))
CALL(capy_generator_write, (L{}), (L{}), (L{}), (L{}))
CALL(capy_graphics_state_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_graphics_state_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_graphics_state_set_AIS, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_graphics_state_set_BM, (L{}), (L{}), (L{}), (L{}))
CALL(capy_graphics_state_set_CA, (L{}), (L{}), (L{}), (L{}))
CALL(capy_graphics_state_set_FL, (L{}), (L{}), (L{}), (L{}))
CALL(capy_graphics_state_set_HT, (L{}), (L{}), (L{}), (L{}))
CALL(capy_graphics_state_set_OP, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_graphics_state_set_OPM, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_graphics_state_set_SM, (L{}), (L{}), (L{}), (L{}))
CALL(capy_graphics_state_set_SMask, (L{}), (L{}), (L{}), (L{}))
CALL(capy_graphics_state_set_TK, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_graphics_state_set_blackpoint_compensation, (L{}), (L{}), (L{}), (L{}))
CALL(capy_graphics_state_set_ca, (L{}), (L{}), (L{}), (L{}))
CALL(capy_graphics_state_set_op, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_halftone_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_halftone_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_halftone_set_default, (L{}), (L{}), (L{}), (L{}))
CALL(capy_halftone_set_type1, (L{}), (L{}), (L{}), (L{}))
CALL(capy_image_pdf_properties_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_image_pdf_properties_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_image_pdf_properties_set_interpolate, (L{}), (L{}), (L{}), (L{}))
CALL(capy_image_pdf_properties_set_mask, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_line_annotation_new, (L{6}), (L{0}), (L{}), (L{1}))
CALL(capy_link_annotation_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_measure_append_A, (L{}), (L{}), (L{}), (L{}))
CALL(capy_measure_append_D, (L{}), (L{}), (L{}), (L{}))
CALL(capy_measure_append_X, (L{}), (L{}), (L{}), (L{}))
CALL(capy_measure_append_Y, (L{}), (L{}), (L{}), (L{}))
CALL(capy_measure_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_measure_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_number_format_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_number_format_new, (L{3}), (L{0}), (L{}), (L{1}))
CALL(capy_optional_content_group_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_optional_content_group_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_outline_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_outline_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_outline_set_C, (L{}), (L{}), (L{}), (L{}))
CALL(capy_outline_set_F, (L{}), (L{}), (L{}), (L{}))
CALL(capy_outline_set_destination, (L{}), (L{}), (L{}), (L{}))
CALL(capy_outline_set_parent, (L{}), (L{}), (L{}), (L{}))
CALL(capy_outline_set_title, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_page_draw_context_new, (L{1}), (L{}), (L{}), (L{}))
CALL(capy_page_properties_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_page_properties_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_page_properties_set_pagebox, (L{}), (L{}), (L{}), (L{}))
CALL(capy_page_properties_set_transparency_group_properties, (L{}), (L{}), (L{}), (L{}))
CALL(capy_printers_mark_annotation_new, (L{1}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_builder_build, (L{1}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_builder_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_builder_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_builder_set_alpha_data, (L{}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_builder_set_alpha_depth, (L{}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_builder_set_colorspace, (L{}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_builder_set_input_data_compression_format, (L{}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_builder_set_pixel_data, (L{}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_builder_set_pixel_depth, (L{}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_builder_set_size, (L{}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_get_colorspace, (L{1}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_get_size, (L{1, 2}), (L{}), (L{}), (L{}))
CALL(capy_raster_image_has_profile, (L{1}), (L{}), (L{}), (L{}))
CALL(capy_shading_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_shading_pattern_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_shading_pattern_new, (L{1}), (L{}), (L{}), (L{}))
CALL(capy_shading_pattern_set_matrix, (L{}), (L{}), (L{}), (L{}))
CALL(capy_shading_set_domain, (L{}), (L{}), (L{}), (L{}))
CALL(capy_shading_set_extend, (L{}), (L{}), (L{1, 2}), (L{}))
CALL(capy_soft_mask_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_soft_mask_new, (L{2}), (L{}), (L{}), (L{}))
CALL(capy_struct_item_extra_data_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_struct_item_extra_data_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_struct_item_extra_data_set_actual_text, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_struct_item_extra_data_set_alt, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_struct_item_extra_data_set_lang, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_struct_item_extra_data_set_t, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_text_annotation_new, (L{2}), (L{0}), (L{}), (L{1}))
CALL(capy_text_cmd_BDC_builtin, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_EMC, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_J, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_M, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_TD, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_TJ, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_TL, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_Tc, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_Td, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_Tf, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_Tj, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_text_cmd_Tm, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_Tr, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_Tstar, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_d, (L{}), (L{}), (L{}), (L{2}))
CALL(capy_text_cmd_gs, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_j, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_cmd_w, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_sequence_append_actualtext_end, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_sequence_append_actualtext_start, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_text_sequence_append_codepoint, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_sequence_append_kerning, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_sequence_append_ligature_glyph, (L{}), (L{2}), (L{}), (L{3}))
CALL(capy_text_sequence_append_raw_glyph, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_sequence_append_string, (L{}), (L{1}), (L{}), (L{2}))
CALL(capy_text_sequence_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_sequence_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_text_set_nonstroke, (L{}), (L{}), (L{}), (L{}))
CALL(capy_text_set_stroke, (L{}), (L{}), (L{}), (L{}))
CALL(capy_tiling_pattern_context_new, (L{1}), (L{}), (L{}), (L{}))
CALL(capy_transition_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_transition_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_transition_set_B, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_transition_set_D, (L{}), (L{}), (L{}), (L{}))
CALL(capy_transition_set_Di, (L{}), (L{}), (L{}), (L{}))
CALL(capy_transition_set_Dm, (L{}), (L{}), (L{}), (L{}))
CALL(capy_transition_set_M, (L{}), (L{}), (L{}), (L{}))
CALL(capy_transition_set_S, (L{}), (L{}), (L{}), (L{}))
CALL(capy_transition_set_SS, (L{}), (L{}), (L{}), (L{}))
CALL(capy_transparency_group_new, (L{5}), (L{}), (L{}), (L{}))
CALL(capy_transparency_group_properties_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_transparency_group_properties_new, (L{0}), (L{}), (L{}), (L{}))
CALL(capy_transparency_group_properties_set_CS, (L{}), (L{}), (L{}), (L{}))
CALL(capy_transparency_group_properties_set_I, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_transparency_group_properties_set_K, (L{}), (L{}), (L{1}), (L{}))
CALL(capy_type2_function_new, (L{5}), (L{}), (L{}), (L{1}))
CALL(capy_type2_shading_new, (L{6}), (L{}), (L{}), (L{}))
CALL(capy_type3_function_new, (L{8}), (L{}), (L{}), (L{1, 3, 5, 7}))
CALL(capy_type3_shading_new, (L{3}), (L{}), (L{}), (L{}))
CALL(capy_type4_function_new, (L{6}), (L{}), (L{}), (L{1, 3, 5}))
CALL(capy_type4_shading_add_triangle, (L{}), (L{}), (L{}), (L{}))
CALL(capy_type4_shading_extend, (L{}), (L{}), (L{}), (L{}))
CALL(capy_type4_shading_new, (L{5}), (L{}), (L{}), (L{}))
CALL(capy_type6_shading_add_patch, (L{}), (L{}), (L{}), (L{}))
CALL(capy_type6_shading_extend, (L{}), (L{}), (L{}), (L{}))
CALL(capy_type6_shading_new, (L{5}), (L{}), (L{}), (L{}))
CALL(capy_viewport_destroy, (L{}), (L{}), (L{}), (L{}))
CALL(capy_viewport_new, (L{4}), (L{}), (L{}), (L{}))
CALL(capy_viewport_set_measure, (L{}), (L{}), (L{}), (L{}))
CALL(capy_widget_annotation_new, (L{0}), (L{}), (L{}), (L{}))
