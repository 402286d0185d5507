"""Which harnesses decide which property, and within what bounds."""

COMMON_OUT = ""


def H(name, what="", reach=(), **k):
    return dict(name=name, what=what, reach=list(reach), **k)


PROPS = {}

PROPS["C01"] = dict(
    harnesses=[
        H("h_c01_structure", "1 or 2 entities, worldspawn at any place, each with 0 to 2 values of two keys (repeated or not) and 0 to 2 brushes at arbitrary positions, values before or after the brushes", ["end"], weight=4),
        H("h_c01_structure_deep", "up to 3 entities", ["end"], thorough=True, supersedes="h_c01_structure", weight=4),
        H("h_c01_many", "nine entities, worldspawn at any place, with 0 to 4 brushes and values each", ["end"]),
        H("h_c01_noise", "a comment or foreign line (arbitrary characters) at every place of a three-entity map", ["end"]),
        H("h_c01_noise_deep", "two such lines", ["end"], thorough=True, supersedes="h_c01_noise", weight=3),
        H("h_c01_lines", "line ends LF and CRLF, last line without end, text behind a symbol", ["end"]),
        H("h_c01_pairs", "an arbitrary key of up to 3 characters with an arbitrary value next to similar keys", ["end"]),
        H("h_c01_faces", "three faces in every order with arbitrary position and mapping", ["end"]),
    ],
    bounds="up to 2 (thorough 3) entities with up to 2 brushes of 3 faces and 2 values each, and nine entities with up to 4 of each; one (thorough two) foreign lines of up to 4 arbitrary ASCII characters at every place; coordinates any multiple of 1/8 up to 4096",
    outside="longer maps (each line is handled on its own in the scope it stands in); foreign lines with bytes above 127",
)
PROPS["C02"] = dict(
    harnesses=[
        H("h_c02_sequences", "every sequence of 3 lines from all kinds of map lines, in file, entity and brush scope and behind a complete entity, with every way of closing", ["accepted", "refused"]),
        H("h_c02_sequences_deep", "every sequence of 4 lines", ["accepted", "refused"], thorough=True, supersedes="h_c02_sequences", weight=3),
        H("h_c02_fields", "every field of a face line of either convention and any trailing count left out, repeated, cut off or replaced by 19 spellings", ["accepted", "refused"], weight=2),
        H("h_c02_fields_deep", "two such changes", ["accepted", "refused"], thorough=True, weight=9),
        H("h_c02_extra", "0 to 8 trailing fields", ["accepted", "refused"]),
        H("h_c02_spelling", "a number field of 1 to 3 arbitrary ASCII characters", ["accepted", "refused"]),
        H("h_c02_property", "a property line of up to 5 arbitrary ASCII characters", ["accepted", "refused"]),
        H("h_c02_property_deep", "up to 7 characters", ["accepted", "refused"], thorough=True, supersedes="h_c02_property"),
        H("h_c02_file", "missing file, folder, empty file, an arbitrary non-ASCII byte at every place", ["end"]),
        H("h_c02_degenerate", "a face whose points are arbitrary but on one line", ["end"]),
    ],
    bounds="line sequences of length 3 (thorough 4) behind 4 prefixes and before 4 suffixes; one (thorough two) faults per face line; number fields of up to 3 and property lines of up to 7 characters, all ASCII characters",
    outside="longer maps and lines; read errors in the middle of the map file",
)
PROPS["C03"] = dict(
    harnesses=[
        H("h_c03_points", "the nine coordinates of an axis-aligned plane at an arbitrary place, points in both orders and at several distances", ["in", "out"], weight=4),
        H("h_c03_standard", "arbitrary offsets, four rotations, nine scales on each axis", ["end"], weight=4),
        H("h_c03_axes", "arbitrary bracketed axes and offsets", ["end"]),
        H("h_c03_extra", "arbitrary trailing fields of each supported count", ["colour", "no colour"]),
        H("h_c03_texture", "texture names of 1 or 2 arbitrary printable characters", ["known", "unknown"]),
        H("h_c03_texture_deep", "up to 3 characters", ["known", "unknown"], thorough=True, supersedes="h_c03_texture"),
        H("h_c03_spacing", "blanks of five kinds in every gap; ten spellings of numbers, five of names", ["end"]),
    ],
    bounds="coordinates, offsets and axes any multiple of 1/8 (1/4) up to 4096 (16), colours any float up to 1e6, axis-aligned faces, rotations by quarters, 9 scale pairs, names up to 3 characters",
    outside="arbitrary rotations and scales (C08), oblique planes (C05, C09)",
    assumptions=["decimal text of a symbolic number stands for that number (core's number parser is inverse to the text)"],
)
PROPS["C04"] = dict(
    harnesses=[
        H("h_c04_letters", "two files of up to 4 lines, each line with an arbitrary letter", ["same", "different"], weight=3),
        H("h_c04_letters_deep", "up to 5 lines", ["same", "different"], thorough=True, supersedes="h_c04_letters", weight=3),
        H("h_c04_two_letters", "all pairs of files of up to 5 lines over two letters", ["same", "different"]),
        H("h_c04_two_letters_deep", "up to 6 lines", ["same", "different"], thorough=True, supersedes="h_c04_two_letters"),
        H("h_c04_mixed", "all pairs of files of up to 2 lines of seven kinds, some differing in one character", ["same", "different"]),
        H("h_c04_mixed_deep", "up to 3 lines of five kinds", ["same", "different"], thorough=True),
        H("h_c04_faults", "property lines without two quoted strings, missing files", ["end"]),
        H("h_c04_far", "files of 258 common lines and one line gone, new or both", ["end"]),
        H("h_c04_long", "files of 40 lines that differ in one or two places: lines removed, added, replaced, moved, repeated, the end cut off", ["same", "different"], weight=2),
    ],
    bounds="files of up to 4 (thorough 5) lines with arbitrary letters, up to 5 (6) over two letters, 40 lines with one or two edits; the oracle is the definition: the longest common subsequence over all subsets of lines, and all ways of taking the reported lines out",
    outside="longer files; what follows a brace or the second string on its line (not compared)",
)
PROPS["C21"] = dict(
    harnesses=[
        H("h_c21_directory", "three directory entries with arbitrary type bytes, pointing at two headers in any way, directory before or behind the headers, WAD2 and WAD3", ["texture"]),
        H("h_c21_many", "eleven entries with five kinds of whitelists", ["end"]),
        H("h_c21_whitelist", "an arbitrary two-letter entry name against a whitelist of case variants and prefixes", ["listed", "not listed"]),
        H("h_c21_whitelist_which", "two arbitrary entry names and an arbitrary listed name; the header's own name is a decoy", ["match"]),
        H("h_c21_fields", "all bytes of one header's name, sizes and offsets arbitrary (name ASCII)", ["end"]),
    ],
    bounds="up to 3 directory entries (11 with listed types and names), 2 texture headers, texture pixels 1x1; entry and header names up to 16 ASCII bytes; every other header and directory byte free",
    outside="names with bytes above 127; more than 3 entries (entries are handled independently of each other)",
)
PROPS["C22"] = dict(
    harnesses=[
        H("h_c22_mips", "every requested number of levels 1 to 4 for textures of several sizes, arbitrary pixel bytes, entry offset and gap varied", ["four levels"]),
        H("h_c22_two", "two textures with their own offsets and bytes in one file", ["end"]),
        H("h_c22_mips_deep", "as h_c22_mips with more sizes and offsets", ["four levels"], thorough=True, supersedes="h_c22_mips"),
    ],
    bounds="textures up to 16x16, all pixel bytes of the read levels symbolic at the sampled places, offsets and gaps from a fixed list, 1 to 2 textures per file",
    outside="larger textures (sizes only enter through width*height and its quarters)",
)
PROPS["C23"] = dict(
    harnesses=[
        H("h_c23_own", "the 256 stored colours of a WAD3 texture, arbitrary bytes, for all level counts and palette places", ["end"]),
        H("h_c23_rgb", "arbitrary pixel indices against an arbitrary own and an arbitrary supplied palette, names with five kinds of first letters", ["no palette", "own", "supplied"]),
        H("h_c23_palette_file", "palette files of length 0, 1, 767, 768, 769 and 800 with arbitrary bytes", ["read", "refused"]),
    ],
    bounds="8x8 textures, three arbitrary indices per level, all 768 palette bytes arbitrary, 1 to 4 levels",
    outside="larger textures",
)
PROPS["C24"] = dict(
    harnesses=[
        H("h_c24_truncated", "a WAD with two textures (one palette) cut after every possible number of bytes", ["read", "refused"], weight=3),
        H("h_c24_magic", "any two of the first four bytes arbitrary", ["read", "refused"], weight=5),
        H("h_c24_magic_deep", "arbitrary first four bytes", ["read", "refused"], thorough=True, supersedes="h_c24_magic"),
        H("h_c24_directory", "arbitrary 32-bit entry count and directory offset", ["read", "refused"]),
        H("h_c24_offsets", "arbitrary 32-bit entry offset and mip offsets", ["read", "refused"], weight=4),
        H("h_c24_size", "arbitrary 32-bit width and height", ["read", "refused"]),
        H("h_c24_partial", "one good and one damaged texture: no partial list, unless the damaged one is not wanted", ["not wanted", "refused"]),
        H("h_c24_missing", "missing files and directories in place of files", ["end"]),
    ],
    bounds="files up to about 2 KiB with two textures; every one of the damaged fields takes all its values",
    outside="several damaged fields at once beyond the combinations listed; read errors of the operating system in the middle of a file",
)
PROPS["C25"] = dict(
    harnesses=[
        H("h_c25_two", "two textures read by two workers, interleaved at every file operation and atomic access", ["read"], interp=True, flaky=True),
        H("h_c25_many", "six textures read in every order of the workers", ["read"], interp=True, flaky=True),
        H("h_c25_three", "three textures, every order and up to the stated pre-emptions", ["read"], interp=True, flaky=True),
        H("h_c25_shared", "three entries of which two or all lead to one texture, up to two pre-emptions", ["read"], interp=True, flaky=True),
        H("h_c25_fail", "several failing reads", ["refused"], interp=True, flaky=True),
        H("h_c25_deep", "as h_c25_two, more pre-emptions", ["read"], thorough=True, interp=True, flaky=True, supersedes="h_c25_two"),
        H("h_c25_three_deep", "as h_c25_three, more pre-emptions", ["read"], thorough=True, interp=True, flaky=True, supersedes="h_c25_three"),
    ],
    bounds="2 or 3 (without pre-emption 6) workers, switches at file operations, atomic accesses (locks), lock waits and job ends, at most 2 to 4 pre-emptions; every worker order",
    outside="data races on plain memory (ruled out by the type system for safe code), more workers or pre-emptions",
    assumptions=["rayon runs each closure once per item and collects results in item order (its own code is replaced by a scheduler model)"],
)
PROPS["C26"] = dict(
    harnesses=[
        H("h_c26_kinds", "one property of every kind with arbitrary numbers and texts", ["integer", "float", "vector", "string", "color", "target"]),
        H("h_c26_kinds_deep", "as h_c26_kinds with longer texts", ["integer", "float", "vector", "string", "color", "target"], thorough=True, supersedes="h_c26_kinds"),
        H("h_c26_numbers", "numbers at the ends of their ranges, printed and parsed by the real code", ["end"]),
        H("h_c26_color_steps", "every colour component whatever its value maps to the right step of 0 to 255", ["end"]),
    ],
    bounds="all finite 32-bit floats and integers (as placeholders in the text, whose own formatting is taken from core::fmt and run for real on boundary values); texts of up to 1 (thorough 3) arbitrary ASCII characters",
    outside="longer texts; the decimal digits core::fmt prints for a number",
    assumptions=["core's printing and parsing of numbers are inverse to each other"],
)
PROPS["C27"] = dict(
    harnesses=[
        H("h_c27_choices", "choice lists of 1 to 3 entries with arbitrary values, texts and default index", ["end"]),
        H("h_c27_choices_deep", "longer lists and texts", ["end"], thorough=True, supersedes="h_c27_choices"),
        H("h_c27_choices_many", "up to 12 choices, some alike, with every default index", ["end"]),
        H("h_c27_flags", "flag lists of up to 3 entries with an arbitrary 32-bit default", ["end"]),
        H("h_c27_flags_many", "31 flags with an arbitrary 32-bit default", ["end"]),
        H("h_c27_flags_deep", "longer lists and texts", ["end"], thorough=True, supersedes="h_c27_flags"),
    ],
    bounds="1 to 4 choices (12 with listed texts) with every index; 0 to 4 (thorough 0 to 8) flags with every 32-bit mask, 0 to 31 flags with any single bit; texts of up to 2 (thorough 3) arbitrary ASCII characters",
    outside="longer lists of choices; longer flag lists with several arbitrary bits (entries are printed one by one)",
)
PROPS["C28"] = dict(
    harnesses=[
        H("h_c28_class", "a class of any kind with metadata of every kind and properties in any mix", ["end"]),
        H("h_c28_class_deep", "more metadata and properties", ["end"], thorough=True, supersedes="h_c28_class"),
        H("h_c28_many", "up to 9 includes and classes with up to 7 properties, some alike", ["end"]),
        H("h_c28_file", "game definitions with 0 to 2 includes and classes", ["end"]),
        H("h_c28_save", "saving to a new file, over an existing one, and to places that cannot be written", ["new", "old", "full"]),
    ],
    bounds="0 to 3 metadata entries and properties, 0 to 3 includes and classes (up to 9 of each in three fixed patterns), arbitrary numbers and short arbitrary texts",
    outside="longer lists; a disk that fills up in the middle of a write is modelled as a failed write of the operating system",
)
PROPS["C30"] = dict(
    harnesses=[
        H("h_c30_valid", "the codes of all kinds and back"),
        H("h_c30_invalid_collision", "every 32-bit integer that is no collision code is refused"),
        H("h_c30_invalid_visual", "every 32-bit integer that is no visual code is refused"),
        H("h_c30_invalid_class", "every 32-bit integer that is no class code is refused"),
        H("h_c30_codes", "codes of entity, component and metadata kinds with arbitrary payload"),
    ],
    bounds="all 2^32 integers; payload texts of up to 3 characters",
    outside="longer payload texts",
)
GEO_BOUNDS = "boxes in 8 orientations up to 512 units wide anywhere within 3584 units of the origin; 26 kinds of solids (tetrahedra, pyramids, prisms, double pyramid, frustum, dodecahedron, cuboctahedron, solids with redundant planes, prisms of up to 16 sides, an empty one) with 4 to 18 planes at every scale from 1 to 64 and every position within 1664 units; five of them with any one face moved in or out; three box shapes cut by 8 oblique planes at 9 depths, at every position and scale; roofs of slopes 1/30, 1/62 and 1/125 and boxes with 1/128, 1/64 or 3/64 of a unit cut off a corner or an edge, within 64 units; three orders of the faces; all coordinates multiples of 1/8"
GEO_OUT = "other orientations and shapes, coordinates off the 1/8 grid, solids with edges or gaps below 0.03 units (except the named ones and exact coincidence), coordinates beyond 4096"
GEO_ASM = ["a brush is well-conditioned: no corner lies within 0.03 units of a plane it is not exactly on",
           "float reasoning by affine forms with error bounds in qsym; every comparison so decided is proved again by Z3 in real arithmetic at the end of the run (float_facts in the evidence)"]
PROPS["C05"] = dict(
    harnesses=[
        H("h_c05_flat", "roofs of little slope, boxes with a corner or an edge cut off by a hair", ["solid"]),
        H("h_c05_boxes", "turned boxes of any size and place", ["solid"]),
        H("h_c05_large", "a prism of 32 sides at any place and scale", ["solid"]),
        H("h_c05_solids", "26 kinds of solids at any place and scale", ["solid"]),
        H("h_c05_moved", "solids with one face moved: more corners, fewer, or a redundant plane", ["solid"]),
        H("h_c05_cut", "boxes cut by an oblique plane", ["solid"]),
    ], bounds=GEO_BOUNDS, outside=GEO_OUT, assumptions=GEO_ASM)
PROPS["C06"] = dict(
    harnesses=[
        H("h_c06_flat", "roofs of little slope, boxes with a corner or an edge cut off by a hair", ["solid"]),
        H("h_c06_boxes", "turned boxes of any size and place", ["solid"]),
        H("h_c06_solids", "26 kinds of solids at any place and scale", ["solid"]),
        H("h_c06_moved", "solids with one face moved", ["solid"]),
        H("h_c06_cut", "boxes cut by an oblique plane", ["solid"]),
        H("h_c06_outline", "a prism of 32 sides at any place and scale", ["solid"]),
        H("h_c06_large", "indices of 1 to 20 brushes in surfaces and collision, beyond 256 vertices", ["end"]),
    ], bounds=GEO_BOUNDS, outside=GEO_OUT, assumptions=GEO_ASM)
PROPS["C07"] = dict(
    harnesses=[
        H("h_c07_flat", "roofs of little slope, boxes with a corner or an edge cut off by a hair", ["solid"]),
        H("h_c07_boxes", "centre of turned boxes of any size and place", ["solid"]),
        H("h_c07_solids", "centre of 26 kinds of solids at any place and scale", ["solid"]),
        H("h_c07_moved", "solids with one face moved: planes without a face do not count", ["solid"]),
        H("h_c07_cut", "boxes cut by an oblique plane, also with nothing left", ["solid", "nothing"]),
        H("h_c07_brushes", "entities with 0 to 3 boxes of any place and width", ["several", "none"]),
        H("h_c07_origin", "origin of 0 to 3 components, each any number, empty or unreadable, with and without brushes", ["origin"]),
    ], bounds=GEO_BOUNDS + "; 0 to 3 brushes in each of two entities; origin components any float within 1e30 or whole number within 2^24", outside=GEO_OUT + "; origins with other white space than single blanks or with more components", assumptions=GEO_ASM)
SHADE_BOUNDS = "8 sets of faces (two equal components, nearly equal ones in every order, all signs, pyramids, ramps, boxes) at any place on the 1/8 grid within 1024"
SHADE_OUT = "other orientations than the listed; scales, rotations and bracketed axes other than the listed ones where the list is used; coordinates beyond 1024"
PROPS["C08"] = dict(
    harnesses=[
        H("h_c08_standard", "standard projection, any place and any offset on the 1/8 grid within 2048, 12 rotations, 8 scales, 4 sizes", ["end"]),
        H("h_c08_standard_deep", "the same with every combination of rotation and scale", ["end"], thorough=True, supersedes="h_c08_standard"),
        H("h_c08_bracketed", "bracketed axes, any place and any offset, 8 pairs of axes", ["end"]),
        H("h_c08_bracketed_deep", "the same with every combination of axes and scale", ["end"], thorough=True, supersedes="h_c08_bracketed"),
        H("h_c08_axes", "any axes with components on the 1/16 grid within 4", ["end"]),
        H("h_c08_size", "8 widths by 4 heights of textures from 1 to 4096", ["end"]),
        H("h_c08_scale", "any one component of the scale from 0.001 to 1000 in either sign", ["end"], thorough=True, topts=dict(secs=600)),
        H("h_c08_unknown", "some textures known, others not", ["end"]),
    ],
    bounds=SHADE_BOUNDS + "; offsets on the 1/8 grid within 2048; axes components on the 1/16 grid within 4", outside=SHADE_OUT, assumptions=GEO_ASM)
PROPS["C09"] = dict(
    harnesses=[
        H("h_c09_normals", "normals without phong shading (5 ways not to ask for it)", ["end"]),
        H("h_c09_points", "faces given by points at other distances", ["end"]),
        H("h_c09_standard", "tangents of standard projections, 12 rotations, 8 scales", ["end"]),
        H("h_c09_standard_deep", "the same with every combination of rotation and scale", ["end"], thorough=True, supersedes="h_c09_standard"),
        H("h_c09_bracketed", "tangents of bracketed axes, 8 pairs of axes", ["end"]),
        H("h_c09_axes", "one axis any on the 1/16 grid within 4, the other listed", ["end"]),
    ],
    bounds=SHADE_BOUNDS + "; axes components on the 1/16 grid within 4", outside=SHADE_OUT + "; frames whose handedness is within 0.001 of none", assumptions=GEO_ASM)
PROPS["C10"] = dict(
    harnesses=[
        H("h_c10_phong", "ten values of _phong by six missing or unreadable angles, seven solids, either order", ["smooth", "flat"]),
        H("h_c10_text", "_phong of one or two arbitrary characters", ["smooth", "flat"]),
        H("h_c10_angle", "any _phong_angle from 0 to 180 on the 1/1024 grid, five solids", ["end"]),
        H("h_c10_angle_wide", "any _phong_angle from -720 to 0", ["end"]),
        H("h_c10_angle_high", "any _phong_angle from 180 to 3600", ["end"]),
        H("h_c10_flat", "roofs whose sides meet at 0.9, 1.8 and 3.8 degrees, any _phong_angle from 0 to 16", ["end"]),
        H("h_c10_angle_text", "angles in unusual notation, infinite and negative ones", ["end"]),
        H("h_c10_entities", "two entities with values of their own", ["smooth", "flat"]),
    ],
    bounds="seven solids and three flat roofs; _phong_angle on the 1/1024 grid from -720 to 3600 except 0.02 to 0.001 degrees below an angle between two faces; x on the 1/8 grid within 1024", outside="vertices in which more than three faces meet (unit length only); other solids", assumptions=GEO_ASM)
PROPS["C11"] = dict(
    harnesses=[
        H("h_c11_brushes", "two worldspawn brushes, each all, partly or not at all of a liquid, liquids known or not, with three lists of layer definitions", ["layer", "rest"], weight=3),
        H("h_c11_brushes_deep", "three brushes, six lists of definitions", ["layer", "rest"], thorough=True, supersedes="h_c11_brushes", weight=9),
        H("h_c11_many", "nine brushes in seven patterns with five lists of definitions", ["layer", "rest"], weight=2),
        H("h_c11_definitions", "0 to 2 layer definitions of any liquid, visual and collision kind", ["layer", "rest"], weight=3),
        H("h_c11_definitions_deep", "0 to 3 definitions", ["layer", "rest"], thorough=True, supersedes="h_c11_definitions", weight=9),
        H("h_c11_others", "the same brushes in another entity, before or behind worldspawn", ["end"]),
        H("h_c11_names", "the liquids' names with any one character replaced or added", ["layer", "no layer"]),
    ],
    bounds="2 (thorough 3; nine in seven patterns) worldspawn brushes with six texture patterns, one at any place on the 1/8 grid within 1024; 0 to 2 (3) definitions of 3 textures, 2 visual and 3 collision kinds; names one character away from the liquids'",
    outside="more brushes or definitions (brushes and definitions are looked at one by one)",
)
PROPS["C12"] = dict(
    harnesses=[
        H("h_c12_groups", "three entities, each with any id and group of one character or none, worldspawn first or last", ["flat", "grouped", "nested"], weight=8),
        H("h_c12_four", "four entities", ["flat", "grouped", "nested"], thorough=True, supersedes="h_c12_groups", weight=8, topts=dict(secs=800)),
        H("h_c12_layers", "worldspawn anywhere among the entities, with liquid layers", ["end"]),
        H("h_c12_many", "seven forests of twelve entities in 24 map orders with five kinds of ids, some beginning like others, classes equal or not", ["end"]),
    ],
    bounds="3 (thorough 4) entities besides worldspawn, ids and groups any single characters that form a forest: every forest of that many entities in every order; twelve entities in seven forests",
    outside="larger maps; ids of several arbitrary characters (five families of them are covered)",
)
PROPS["C13"] = dict(
    harnesses=[
        H("h_c13_tree", "every tree of three entities, each with an origin at any place or a brush at any place", ["geometry", "nested"], weight=3),
        H("h_c13_floats", "a parent and a child at any 32-bit float", ["geometry", "nested"]),
        H("h_c13_layers", "liquid layers of 1, 3 or 5 brushes, at any place", ["end"]),
        H("h_c13_many", "seven forests of seven entities, up to six deep, in seven map orders, at any place along one axis", ["end"]),
    ],
    bounds="3 entities nested in any way, seven in seven ways; centres any multiple of 1/8 within 1024, for one level any floats",
    outside="more than six levels (each level subtracts its parent's centre); the rounding of path sums of centres off the grid",
)
PROPS["C14"] = dict(
    harnesses=[
        H("h_c14_faces", "a tetrahedron with any of three textures on each face and any of four lists as brush and plane blacklist", ["end"], weight=3),
        H("h_c14_brushes", "two brushes with seven texture patterns in an entity of five classes with five blacklists", ["mesh", "no mesh"], weight=3),
        H("h_c14_brushes_deep", "three brushes", ["mesh", "no mesh"], thorough=True, supersedes="h_c14_brushes", weight=8),
        H("h_c14_far", "six brushes with up to 18 faces and one texture on faces far apart", ["end"]),
        H("h_c14_large", "14 and 28 brushes, beyond 256 vertices in a surface", ["end"]),
        H("h_c14_alike", "texture names that begin or end like others or contain them, on the faces, in the table and in both blacklists", ["end"]),
        H("h_c14_names", "all names of two arbitrary letters", ["brush", "plane", "shown"]),
    ],
    bounds="1 to 2 (thorough 3) brushes of 4 to 6 faces, six of up to 18, 14 and 28 in three texture patterns, two known and one unknown texture, one brush at any place on the 1/8 grid within 1024",
    outside="more brushes or textures; faces that merely touch the solid",
)
PROPS["C16"] = dict(
    harnesses=[
        H("h_c16_brushes", "0 to 5 brushes, equal or not, in any place, with and without origin, of a class with four kinds of definition", ["none", "shapes"]),
        H("h_c16_brushes_deep", "0 to 3 brushes of any of three solids", ["none", "shapes"], thorough=True),
        H("h_c16_solids", "24 kinds of solids at eight places", ["end"]),
        H("h_c16_flat", "roofs of little slope and boxes with a corner or an edge cut off by a hair, faces in every turn", ["end"]),
        H("h_c16_large", "2, 36 and 44 brushes", ["end"]),
    ],
    bounds="0 to 5 brushes, also 36 and 44 of fixed kinds; boxes at any place on the 1/8 grid within 1024, 22 other solids (up to 14 faces, up to four planes in a corner, with redundant planes) at eight places",
    outside="other solids at arbitrary places (their corners are C05's; here points are compared exactly); corners that two faces place at slightly different floats, which stay two points",
)
PROPS["C17"] = dict(
    harnesses=[
        H("h_c17_brushes", "0 to 5 brushes, equal or not, in any place, with and without origin, of a class with four kinds of definition", ["none", "shapes"]),
        H("h_c17_brushes_deep", "0 to 3 brushes of any of three solids", ["none", "shapes"], thorough=True),
        H("h_c17_solids", "24 kinds of solids at eight places", ["end"]),
        H("h_c17_flat", "roofs of little slope and boxes with a corner or an edge cut off by a hair, faces in every turn", ["end"]),
        H("h_c17_large", "2, 36 and 44 brushes, beyond 256 positions", ["end"]),
    ],
    bounds="0 to 5 brushes, also 36 and 44 of fixed kinds; boxes at any place on the 1/8 grid within 1024, 22 other solids (up to 14 faces, up to four planes in a corner, with redundant planes) at eight places",
    outside="other solids at arbitrary places (their faces are C05's)",
)
PROPS["C18"] = dict(
    harnesses=[
        H("h_c18_kinds", "a property of every kind with any default; in the map any readable value, an unreadable one or none", ["color", "destination", "float", "integer", "source", "string", "vector"]),
        H("h_c18_many", "seven declared properties of all kinds in five entities of three classes, given or not in eight ways, any numbers", ["end"]),
        H("h_c18_integer_text", "a value of up to 4 arbitrary characters for a whole number", ["number", "text"]),
        H("h_c18_integer_text_deep", "up to 6 characters", ["number", "text"], thorough=True, supersedes="h_c18_integer_text"),
        H("h_c18_float_text", "delicate spellings of floats", ["end"]),
        H("h_c18_declared", "classes and property names of arbitrary letters, further properties in the map", ["defined", "undefined"]),
        H("h_c18_declared_deep", "longer names", ["defined", "undefined"], thorough=True, supersedes="h_c18_declared"),
        H("h_c18_internal", "the editor's id, group, type and name with arbitrary text", ["id", "text"]),
        H("h_c18_group", "the group as a property", ["number", "text"]),
    ],
    bounds="values: any float or integer, texts of up to 4 (thorough 6) arbitrary characters; 1 to 2 declared properties and definitions with arbitrary names, seven properties in three definitions",
    outside="longer texts; core's conversion of decimal text to the nearest float",
    assumptions=["core's printing and parsing of numbers are inverse to each other"],
)
PROPS["C19"] = dict(
    harnesses=[
        H("h_c19_names", "0 to 3 definitions with arbitrary names of 2 or 3 letters, worldspawn and other classes", ["defined", "undefined"], weight=3),
        H("h_c19_many", "nine definitions, two of them of the right name at any places, the others of similar names", ["end"]),
        H("h_c19_kinds", "one definition of every combination of entity type, script, application, visual and collision kind, brush or point", ["defined", "undefined"], weight=3),
        H("h_c19_kinds_deep", "and a second one of four kinds with the same or another name", ["defined", "undefined"], thorough=True, supersedes="h_c19_kinds", weight=3),
    ],
    bounds="0 to 3 definitions (nine of listed names), names of 1 to 3 arbitrary letters, all combinations of kinds",
    outside="longer lists and names",
)
PROPS["C15"] = dict(
    harnesses=[
        H("h_c15_twice", "a box with a face given twice with any offset and colour, four other mappings, first or later in the brush", ["colour", "joined", "no colour"], weight=3),
        H("h_c15_twice_deep", "every face", ["colour", "joined", "no colour"], thorough=True, supersedes="h_c15_twice", weight=3),
        H("h_c15_smooth", "a smoothly shaded box at any height whose faces share normals and tangents, with any offsets and colours", ["colour", "joined", "no colour"], weight=2),
        H("h_c15_smooth_deep", "offsets of three faces", ["colour", "joined", "no colour"], thorough=True, supersedes="h_c15_smooth", weight=2),
        H("h_c15_brushes", "the same brush again, one that touches it at any height, others", ["colour", "joined", "no colour"], weight=2),
        H("h_c15_brushes_deep", "three brushes", ["colour", "joined", "no colour"], thorough=True, supersedes="h_c15_brushes", weight=3),
        H("h_c15_solids", "22 kinds of solids with three texture patterns, flat and smooth with three angles", ["colour", "joined", "no colour"], weight=5),
        H("h_c15_flat", "roofs of little slope and boxes with a corner or an edge cut off by a hair, with two texture patterns, flat and smooth with three angles, colours that differ by little", ["colour", "joined", "no colour"], weight=3),
        H("h_c15_large", "13 and 22 boxes, equal or not, beyond 256 vertices in a surface", ["no colour"]),
    ],
    bounds="the oracle is a second conversion in which every face has a texture of its own of the same size, so that nothing can be joined; 1 to 2 (thorough 3) brushes of 4 to 14 faces, offsets on the 1/8 grid, colours any floats",
    outside="brushes off the grid; attributes that are no numbers",
    assumptions=["a face's own corners are what C05, C06 and C08 to C10 decide"],
)
PROPS["C20"] = dict(
    harnesses=[
        H("h_c20_orders", "a map with something in every table converted under 24 orders of the hash tables, at any place, two configurations", ["end"], interp=True),
        H("h_c20_orders_deep", "48 orders", ["end"], thorough=True, interp=True, supersedes="h_c20_orders"),
        H("h_c20_history", "other conversions in between, also of other text under the same file name and of a missing file", ["end"]),
    ],
    bounds="one map with 4 entities, 4 textures, 2 liquid layers, up to 5 values each at any place on the 1/8 grid within 1024; all orders of up to 4 (thorough 8, half of them) entries of a hash table; up to 3 conversions in between",
    outside="tables with more entries; whatever else could differ between processes (time, environment), none of which the code reads",
    assumptions=["the order in which std's hash tables yield their entries depends on their hashes only; the stand-in for the hash function brings about each order"],
)
PROPS["C29"] = dict(
    harnesses=[
        H("h_c29_defaults", "any integer, float, vector, colour, text of up to 3 characters", ["color", "float", "integer", "string", "vector"]),
        H("h_c29_flags", "0 to 5 flags with any mask", ["end"]),
        H("h_c29_flags_deep", "0 to 8 flags with any mask", ["end"], thorough=True, supersedes="h_c29_flags"),
        H("h_c29_flags_many", "31 flags, one or all but one of them marked", ["end"]),
        H("h_c29_numbers", "numbers at the ends of their ranges, printed and parsed by the real code", ["color", "float", "integer", "vector"]),
        H("h_c29_texts", "texts with delicate characters", ["string"]),
    ],
    bounds="all integers, floats within 1e30, colour components within 4, texts of up to 3 arbitrary characters without quotation marks, masks of up to 5 (thorough 8) flags",
    outside="choices (their default is an index in the definition, but a value in the map); the decimal digits core::fmt prints for a number",
    assumptions=["core's printing and parsing of numbers are inverse to each other"],
)
