//! Harnesses.  Each `h_*` function builds inputs (some of them symbolic),
//! calls the real code of /repo and asserts a property about what came back.
//! The same source is compiled twice: to LLVM IR, which `qsym` executes
//! symbolically, and natively (feature "native"), where a solver model is
//! replayed against the real code.
#![cfg_attr(feature = "native", feature(internal_output_capture))]
#![allow(dead_code, static_mut_refs)]

pub mod prelude;
#[cfg(not(feature = "native"))]
mod stubs;
#[cfg(feature = "native")]
pub mod native_rt;

macro_rules! harnesses {
    ($($m:ident :: { $($f:ident),* $(,)? }),* $(,)?) => {
        $(pub mod $m;)*
        $($(
            #[cfg(not(feature = "native"))]
            const _: () = {
                #[no_mangle]
                pub extern "C" fn $f() { crate::$m::$f() }
            };
        )*)*
        #[cfg(feature = "native")]
        pub static TABLE: &[(&str, fn())] = &[$($((stringify!($f), $m::$f),)*)*];
    };
}

pub mod scene;

harnesses! {
    selftest::{h_self_arith, h_self_vec, h_self_file},
    enums::{h_c30_valid, h_c30_invalid_collision, h_c30_invalid_visual, h_c30_invalid_class, h_c30_codes},
    fgd::{
        h_c26_kinds, h_c26_kinds_deep, h_c26_numbers, h_c26_color_steps,
        h_c27_choices, h_c27_choices_many, h_c27_choices_deep, h_c27_flags, h_c27_flags_many, h_c27_flags_deep,
        h_c28_class, h_c28_many, h_c28_class_deep, h_c28_file, h_c28_save,
    },
    read::{h_c01_structure, h_c01_many, h_c01_structure_deep, h_c01_noise, h_c01_noise_deep, h_c01_lines, h_c01_pairs, h_c01_faces,
        h_c02_sequences, h_c02_sequences_deep, h_c02_fields, h_c02_fields_deep, h_c02_extra, h_c02_spelling, h_c02_property, h_c02_property_deep, h_c02_file, h_c02_degenerate,
        h_c03_points, h_c03_standard, h_c03_axes, h_c03_extra, h_c03_texture, h_c03_texture_deep, h_c03_spacing,
    },
    geo::{h_c05_flat, h_c06_flat, h_c07_flat, h_c05_boxes, h_c05_solids, h_c05_large, h_c05_moved, h_c05_cut, h_c06_boxes, h_c06_solids, h_c06_outline, h_c06_moved, h_c06_cut,
        h_c07_boxes, h_c07_solids, h_c07_moved, h_c07_cut, h_c07_brushes, h_c07_origin},
    tree::{h_c12_groups, h_c12_four, h_c12_layers, h_c12_many, h_c13_many, h_c18_many, h_c19_many, h_c13_tree, h_c13_floats, h_c13_layers,
        h_c19_names, h_c19_kinds, h_c19_kinds_deep,
        h_c18_kinds, h_c18_integer_text, h_c18_integer_text_deep, h_c18_float_text, h_c18_declared, h_c18_declared_deep, h_c18_internal, h_c18_group},
    mesh::{h_c14_faces, h_c14_brushes, h_c14_brushes_deep, h_c14_names, h_c14_far, h_c14_large, h_c17_large, h_c16_large, h_c06_large, h_c14_alike, h_c11_many, h_c16_brushes, h_c16_brushes_deep, h_c16_solids, h_c16_flat, h_c17_flat,
        h_c17_brushes, h_c17_brushes_deep, h_c17_solids, h_c11_brushes, h_c11_brushes_deep, h_c11_definitions, h_c11_definitions_deep, h_c11_others, h_c11_names},
    join::{h_c15_twice, h_c15_twice_deep, h_c15_smooth, h_c15_smooth_deep, h_c15_brushes, h_c15_brushes_deep, h_c15_solids, h_c15_flat, h_c15_large},
    twice::{h_c20_orders, h_c20_orders_deep, h_c20_history, h_c29_defaults, h_c29_flags, h_c29_flags_deep, h_c29_flags_many, h_c29_numbers, h_c29_texts},
    shade::{h_c08_standard, h_c08_standard_deep, h_c08_bracketed, h_c08_bracketed_deep, h_c08_axes, h_c08_size, h_c08_scale, h_c08_unknown,
        h_c09_normals, h_c09_points, h_c09_standard, h_c09_standard_deep, h_c09_bracketed, h_c09_axes,
        h_c10_phong, h_c10_text, h_c10_angle, h_c10_flat, h_c10_angle_wide, h_c10_angle_high, h_c10_angle_text, h_c10_entities},
    diff::{h_c04_letters, h_c04_letters_deep, h_c04_two_letters, h_c04_two_letters_deep, h_c04_mixed, h_c04_mixed_deep, h_c04_faults, h_c04_long, h_c04_far},
    wad::{
        h_c21_directory, h_c21_many, h_c21_whitelist, h_c21_whitelist_which, h_c21_fields,
        h_c22_mips, h_c22_mips_deep, h_c22_two,
        h_c23_own, h_c23_rgb, h_c23_palette_file,
        h_c24_truncated, h_c24_magic, h_c24_magic_deep, h_c24_directory, h_c24_offsets, h_c24_size, h_c24_partial, h_c24_missing,
        h_c25_two, h_c25_many, h_c25_shared, h_c25_three, h_c25_fail, h_c25_deep, h_c25_three_deep,
    },
}
