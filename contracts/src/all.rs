pub static ALL: &[(&str, fn())] = &[
    ("c01_inverse_f64", c01::c01_inverse_f64),
    ("c01_inverse_f32", c01::c01_inverse_f32),
    ("c01_gj_inverse_f64", c01::c01_gj_inverse_f64),
    ("c01_gj_inverse_f32", c01::c01_gj_inverse_f32),
    ("c02_algebra_f64", c02::c02_algebra_f64),
    ("c02_algebra_f32", c02::c02_algebra_f32),
    ("c02_scalar_f64", c02::c02_scalar_f64),
    ("c02_scalar_f32", c02::c02_scalar_f32),
    ("c02_index_f64", c02::c02_index_f64),
    ("c02_index_f32", c02::c02_index_f32),
    ("c02_index_bounds", c02::c02_index_bounds),
    ("c02_narrow", c02::c02_narrow),
    ("c03_bradford_f64", c03::c03_bradford_f64),
    ("c03_bradford_f32", c03::c03_bradford_f32),
    ("c03_cat02_f64", c03::c03_cat02_f64),
    ("c03_cat02_f32", c03::c03_cat02_f32),
    ("c03_bradford_via_f64", c03::c03_bradford_via_f64),
    ("c03_cat02_via_f64", c03::c03_cat02_via_f64),
    ("c03_von_kries_f64", c03::c03_von_kries_f64),
    ("c03_von_kries_f32", c03::c03_von_kries_f32),
    ("c03_von_kries_white_f64", c03::c03_von_kries_white_f64),
    ("c03_von_kries_white_f32", c03::c03_von_kries_white_f32),
    ("c03_identical_f64", c03::c03_identical_f64),
    ("c03_identical_f32", c03::c03_identical_f32),
    ("c03_as_xyy_f64", c03::c03_as_xyy_f64),
    ("c03_native_saturated", c03::c03_native_saturated),
    ("c04_native_white_anywhere", c04::c04_native_white_anywhere),
    ("c04_new_f64", c04::c04_new_f64),
    ("c04_new_f32", c04::c04_new_f32),
    ("c04_specified_f64", c04::c04_specified_f64),
    ("c04_specified_f32", c04::c04_specified_f32),
    ("c05_tables_f64", c05::c05_tables_f64),
    ("c05_tables_f32", c05::c05_tables_f32),
    ("c05_coding_f64", c05::c05_coding_f64),
    ("c05_coding_f32", c05::c05_coding_f32),
    ("c05_precisions", c05::c05_precisions),
    ("c05_srgb_definitions", c05::c05_srgb_definitions),
    ("c06_curve_enc_f64", c06::c06_curve_enc_f64),
    ("c06_curve_enc_f32", c06::c06_curve_enc_f32),
    ("c06_curve_dec_f64", c06::c06_curve_dec_f64),
    ("c06_curve_dec_f32", c06::c06_curve_dec_f32),
    ("c06_channels_f64", c06::c06_channels_f64),
    ("c06_channels_f32", c06::c06_channels_f32),
    ("c06_linear_f64", c06::c06_linear_f64),
    ("c06_linear_f32", c06::c06_linear_f32),
    ("c06_round_f64", c06::c06_round_f64),
    ("c06_round_f32", c06::c06_round_f32),
    ("c06_mono_enc_f64", c06::c06_mono_enc_f64),
    ("c06_mono_enc_f32", c06::c06_mono_enc_f32),
    ("c06_mono_dec_f64", c06::c06_mono_dec_f64),
    ("c06_mono_dec_f32", c06::c06_mono_dec_f32),
    ("c07_trip_f64", c07::c07_trip_f64),
    ("c07_trip_f32", c07::c07_trip_f32),
    ("c07_matrices_f64", c07::c07_matrices_f64),
    ("c07_matrices_f32", c07::c07_matrices_f32),
    ("c07_between_f64", c07::c07_between_f64),
    ("c07_between_f32", c07::c07_between_f32),
    ("c07_via_f64", c07::c07_via_f64),
    ("c07_slice_f64", c07::c07_slice_f64),
    ("c07_slice_f32", c07::c07_slice_f32),
    ("c07_rgb_slice_f64", c07::c07_rgb_slice_f64),
    ("c07_rgb_slice_f32", c07::c07_rgb_slice_f32),
    ("c07_native_u8", c07::c07_native_u8),
    ("c07_native_long", c07::c07_native_long),
    #[cfg(target_feature = "avx")] ("c08_equals_scalar_avx2", c08::c08_equals_scalar_avx2),
    #[cfg(target_feature = "avx")] ("c08_equals_scalar_sse41", c08::c08_equals_scalar_sse41),
    #[cfg(target_feature = "avx")] ("c08_equals_scalar_sse2", c08::c08_equals_scalar_sse2),
    #[cfg(target_feature = "avx")] ("c08_equals_scalar_width1", c08::c08_equals_scalar_width1),
    #[cfg(target_feature = "avx")] ("c08_short_avx2", c08::c08_short_avx2),
    #[cfg(target_feature = "avx")] ("c08_short_sse2", c08::c08_short_sse2),
    #[cfg(target_feature = "avx")] ("c08_native_long", c08::c08_native_long),
    ("c09_from_xyy_f64", c09::c09_from_xyy_f64),
    ("c09_from_xyy_f32", c09::c09_from_xyy_f32),
    ("c09_from_xyz_f64", c09::c09_from_xyz_f64),
    ("c09_from_xyz_f32", c09::c09_from_xyz_f32),
    ("c09_scale_f64", c09::c09_scale_f64),
    ("c09_scale_f32", c09::c09_scale_f32),
    ("c09_unit_f64", c09::c09_unit_f64),
    ("c09_unit_f32", c09::c09_unit_f32),
    ("c10_definition_f64", c10::c10_definition_f64),
    ("c10_definition_f32", c10::c10_definition_f32),
    ("c10_fixed_f64", c10::c10_fixed_f64),
    ("c10_fixed_f32", c10::c10_fixed_f32),
    ("c10_mono_f64", c10::c10_mono_f64),
    ("c10_there_f64", c10::c10_there_f64),
    ("c10_there_f32", c10::c10_there_f32),
    ("c10_back_f64", c10::c10_back_f64),
    ("c10_back_f32", c10::c10_back_f32),
    ("c10_as_xyy_f64", c10::c10_as_xyy_f64),
    ("c11_basic_f64", c11::c11_basic_f64),
    ("c11_basic_f32", c11::c11_basic_f32),
    ("c11_triangle_f64", c11::c11_triangle_f64),
    ("c11_triangle_f32", c11::c11_triangle_f32),
    ("c11_triangle_from_lemmas", c11::c11_triangle_from_lemmas),
    ("c12_native_opposite", c12::c12_native_opposite),
    ("c12_formula_f64", c12::c12_formula_f64),
    ("c12_formula_f32", c12::c12_formula_f32),
    ("c12_grey_f64", c12::c12_grey_f64),
    ("c12_grey_f32", c12::c12_grey_f32),
    ("c12_opposite_f64", c12::c12_opposite_f64),
    ("c12_opposite_f32", c12::c12_opposite_f32),
    ("c12_laws_f64", c12::c12_laws_f64),
    ("c12_laws_f32", c12::c12_laws_f32),
    ("c12_published", c12::c12_published),
    ("c12_elementary_f64", c12::c12_elementary_f64),
    ("c12_elementary_f32", c12::c12_elementary_f32),
    ("c13_all_f32", c13::c13_all_f32),
    ("c13_thresholds_f64", c13::c13_thresholds_f64),
    ("c13_every_level", c13::c13_every_level),
    ("c13_special_f64", c13::c13_special_f64),
    ("c14_rgb_f64", c14::c14_rgb_f64),
    ("c14_rgb_f32", c14::c14_rgb_f32),
    ("c14_xyz_f64", c14::c14_xyz_f64),
    ("c14_xyz_f32", c14::c14_xyz_f32),
    ("c14_functions_f64", c14::c14_functions_f64),
    ("c14_functions_f32", c14::c14_functions_f32),
    ("c14_normalize_f64", c14::c14_normalize_f64),
    ("c14_normalize_f32", c14::c14_normalize_f32),
    ("c14_pow_f64", c14::c14_pow_f64),
    ("c14_pow_f32", c14::c14_pow_f32),
    ("c14_left_scalar", c14::c14_left_scalar),
    ("c14_sums", c14::c14_sums),
    ("c14_narrow", c14::c14_narrow),
    ("c14_past_the_end", c14::c14_past_the_end),
    ("c14_approximately_rgb", c14::c14_approximately_rgb),
    ("c14_approximately_xyz", c14::c14_approximately_xyz),
    ("c14_native_long_sums", c14::c14_native_long_sums),
    ("c14_native_zeros", c14::c14_native_zeros),
    ("c15_new", c15::c15_new),
    ("c15_new_uniform", c15::c15_new_uniform),
    ("c15_one_odd_gap", c15::c15_one_odd_gap),
    ("c15_collect", c15::c15_collect),
    ("c15_scale", c15::c15_scale),
    ("c15_constant", c15::c15_constant),
    ("c15_from_values", c15::c15_from_values),
    ("c15_macro", c15::c15_macro),
    ("c15_shape_enumerates", c15::c15_shape_enumerates),
    ("c15_shape_enumerates_f32", c15::c15_shape_enumerates_f32),
    ("c15_too_few", c15::c15_too_few),
    ("c15_misfit", c15::c15_misfit),
    ("c15_misfit_varying", c15::c15_misfit_varying),
    ("c15_sample_approximately", c15::c15_sample_approximately),
    ("c15_linspace", c15::c15_linspace),
    ("c15_native_long", c15::c15_native_long),
    ("c15_equality", c15::c15_equality),
    ("c15_approximately", c15::c15_approximately),
    ("c15_native_zeros", c15::c15_native_zeros),
    ("c16_interpolate", c16::c16_interpolate),
    ("c16_extrapolate", c16::c16_extrapolate),
    ("c16_align", c16::c16_align),
    ("c16_trim", c16::c16_trim),
    ("c16_linear", c16::c16_linear),
    ("c16_trim_empty", c16::c16_trim_empty),
    ("c16_cmf_align", c16::c16_cmf_align),
    ("c17_linear", c17::c17_linear),
    ("c17_extrapolator", c17::c17_extrapolator),
    ("c17_sprague_samples", c17::c17_sprague_samples),
    ("c17_sprague_samples_uneven", c17::c17_sprague_samples_uneven),
    ("c17_sprague_cubic", c17::c17_sprague_cubic),
    ("c17_sprague_ramp", c17::c17_sprague_ramp),
    ("c17_sprague_linear", c17::c17_sprague_linear),
    ("c17_sprague_smooth", c17::c17_sprague_smooth),
    ("c17_coefficients_f32", c17::c17_coefficients_f32),
    ("c17_sprague_published", c17::c17_sprague_published),
    ("c18_linear", c18::c18_linear),
    ("c18_scale", c18::c18_scale),
    ("c18_diffuser", c18::c18_diffuser),
    ("c18_white", c18::c18_white),
    ("c18_integral", c18::c18_integral),
    ("c18_weights", c18::c18_weights),
    ("c18_same_colour", c18::c18_same_colour),
    ("c18_lagrange", c18::c18_lagrange),
    ("c19_weighted_sum", c19::c19_weighted_sum),
    ("c19_operators", c19::c19_operators),
    ("c19_equality", c19::c19_equality),
    ("c19_white", c19::c19_white),
    ("c19_agrees_with_vspd", c19::c19_agrees_with_vspd),
    ("c19_native_zeros", c19::c19_native_zeros),
    ("c20_combination", c20::c20_combination),
    ("c20_linear", c20::c20_linear),
    ("c20_black_white", c20::c20_black_white),
    ("c20_round_trip", c20::c20_round_trip),
    ("c21_special", c21::c21_special),
    ("c21_locus_f64", c21::c21_locus_f64),
    ("c21_locus_f32", c21::c21_locus_f32),
    ("c21_outside_f64", c21::c21_outside_f64),
    ("c21_outside_f32", c21::c21_outside_f32),
    ("c21_decreasing_f64", c21::c21_decreasing_f64),
    ("c21_decreasing_f32", c21::c21_decreasing_f32),
    ("c22_view_f64", c22::c22_view_f64),
    ("c22_view_f32", c22::c22_view_f32),
    ("c22_view_u8", c22::c22_view_u8),
    ("c22_reject_f64", c22::c22_reject_f64),
    ("c22_reject_f32", c22::c22_reject_f32),
    ("c22_reject_u8", c22::c22_reject_u8),
    ("c22_native_huge", c22::c22_native_huge),
    ("c23_definition", c23::c23_definition),
    ("c23_linear", c23::c23_linear),
    ("c23_non_negative", c23::c23_non_negative),
    ("c23_any_table", c23::c23_any_table),
    #[cfg(feature = "selftest")] ("zz_fma", zz::zz_fma),
    #[cfg(feature = "selftest")] ("zz_hypot", zz::zz_hypot),
    #[cfg(feature = "selftest")] ("zz_clamp", zz::zz_clamp),
    #[cfg(feature = "selftest")] ("zz_signum", zz::zz_signum),
    #[cfg(feature = "selftest")] ("zz_recip", zz::zz_recip),
    #[cfg(feature = "selftest")] ("zz_sincos", zz::zz_sincos),
    #[cfg(feature = "selftest")] ("zz_rem", zz::zz_rem),
    #[cfg(feature = "selftest")] ("zz_exp", zz::zz_exp),
    #[cfg(feature = "selftest")] ("zz_totalcmp", zz::zz_totalcmp),
    #[cfg(feature = "selftest")] ("zz_totalcmp2", zz::zz_totalcmp2),
    #[cfg(feature = "selftest")] ("zz_bsearch", zz::zz_bsearch),
    #[cfg(feature = "selftest")] ("zz_bsearch2", zz::zz_bsearch2),
    #[cfg(feature = "selftest")] ("zz_windows", zz::zz_windows),
    #[cfg(feature = "selftest")] ("zz_chunks", zz::zz_chunks),
    #[cfg(feature = "selftest")] ("zz_rev", zz::zz_rev),
    #[cfg(feature = "selftest")] ("zz_fromfn", zz::zz_fromfn),
    #[cfg(feature = "selftest")] ("zz_dyn", zz::zz_dyn),
    #[cfg(feature = "selftest")] ("zz_once", zz::zz_once),
    #[cfg(feature = "selftest")] ("zz_lazy", zz::zz_lazy),
    #[cfg(feature = "selftest")] ("zz_tls", zz::zz_tls),
    #[cfg(feature = "selftest")] ("zz_hash", zz::zz_hash),
    #[cfg(feature = "selftest")] ("zz_btree", zz::zz_btree),
    #[cfg(feature = "selftest")] ("zz_rc", zz::zz_rc),
    #[cfg(feature = "selftest")] ("zz_cow", zz::zz_cow),
    #[cfg(feature = "selftest")] ("zz_string", zz::zz_string),
    #[cfg(feature = "selftest")] ("zz_parse", zz::zz_parse),
    #[cfg(feature = "selftest")] ("zz_deque", zz::zz_deque),
    #[cfg(feature = "selftest")] ("zz_sort", zz::zz_sort),
    #[cfg(feature = "selftest")] ("zz_iter", zz::zz_iter),
    #[cfg(feature = "selftest")] ("zz_maxby", zz::zz_maxby),
    #[cfg(feature = "selftest")] ("zz_copy", zz::zz_copy),
    #[cfg(feature = "selftest")] ("zz_floor", zz::zz_floor),
    #[cfg(feature = "selftest")] ("zz_bits", zz::zz_bits),
    #[cfg(feature = "selftest")] ("zz_bitsabs", zz::zz_bitsabs),
    #[cfg(feature = "selftest")] ("zz_simd", zz::zz_simd),
    #[cfg(feature = "selftest")] ("zz_simdf", zz::zz_simdf),
    #[cfg(feature = "selftest")] ("zz_iterby", zz::zz_iterby),
    #[cfg(feature = "selftest")] ("zz_tanh", zz::zz_tanh),
    #[cfg(feature = "selftest")] ("zz_asin", zz::zz_asin),
    #[cfg(feature = "selftest")] ("zz_minmax_f32", zz::zz_minmax_f32),
    #[cfg(feature = "selftest")] ("zz_catch", zz::zz_catch),
    #[cfg(feature = "selftest")] ("zz_maxmin", zz::zz_maxmin),
    #[cfg(feature = "selftest")] ("zz_powneg", zz::zz_powneg),
    #[cfg(feature = "selftest")] ("zz_numtraits", zz::zz_numtraits),
    #[cfg(feature = "selftest")] ("zz_f1", zz::zz_f1),
    #[cfg(feature = "selftest")] ("zz_f2", zz::zz_f2),
    #[cfg(feature = "selftest")] ("zz_f3", zz::zz_f3),
    #[cfg(feature = "selftest")] ("zn_edge", zz::zn_edge),
    #[cfg(feature = "selftest")] ("zn_strict", zz::zn_strict),
    #[cfg(feature = "selftest")] ("zn_sq", zz::zn_sq),
    #[cfg(feature = "selftest")] ("zn_sqrt", zz::zn_sqrt),
    #[cfg(feature = "selftest")] ("zn_abs", zz::zn_abs),
    #[cfg(feature = "selftest")] ("zn_pow", zz::zn_pow),
    #[cfg(feature = "selftest")] ("zn_pow2", zz::zn_pow2),
    #[cfg(feature = "selftest")] ("zn_exp", zz::zn_exp),
    #[cfg(feature = "selftest")] ("zn_cbrt", zz::zn_cbrt),
    #[cfg(feature = "selftest")] ("zn_div", zz::zn_div),
    #[cfg(feature = "selftest")] ("zn_nan", zz::zn_nan),
    #[cfg(feature = "selftest")] ("zn_min", zz::zn_min),
    #[cfg(feature = "selftest")] ("zn_trunc", zz::zn_trunc),
    #[cfg(feature = "selftest")] ("zn_trunc2", zz::zn_trunc2),
    #[cfg(feature = "selftest")] ("zn_floor", zz::zn_floor),
    #[cfg(feature = "selftest")] ("zn_sin", zz::zn_sin),
    #[cfg(feature = "selftest")] ("zn_atan", zz::zn_atan),
    #[cfg(feature = "selftest")] ("zn_search", zz::zn_search),
    #[cfg(feature = "selftest")] ("zn_sort", zz::zn_sort),
    #[cfg(feature = "selftest")] ("zn_index", zz::zn_index),
    #[cfg(feature = "selftest")] ("zn_overflow", zz::zn_overflow),
    #[cfg(feature = "selftest")] ("zn_case", zz::zn_case),
    #[cfg(feature = "selftest")] ("zn_panic", zz::zn_panic),
    #[cfg(feature = "selftest")] ("zn_panic2", zz::zn_panic2),
    #[cfg(feature = "selftest")] ("zn_oob", zz::zn_oob),
    #[cfg(feature = "selftest")] ("zn_uninit", zz::zn_uninit),
    #[cfg(feature = "selftest")] ("zn_f32", zz::zn_f32),
    #[cfg(feature = "selftest")] ("zn_hyp", zz::zn_hyp),
    #[cfg(feature = "selftest")] ("zn_ge", zz::zn_ge),
    #[cfg(feature = "selftest")] ("zn_clamp", zz::zn_clamp),
    #[cfg(feature = "selftest")] ("zn_rem", zz::zn_rem),
    #[cfg(feature = "selftest")] ("zn_sign", zz::zn_sign),
];
