#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays readable)."""
import json, os
M2, M3, ST = "src/indices/morton_index_2d.rs", "src/indices/morton_index_3d.rs", "src/indices/storage.rs"
MO, NU, D2, D3, DM, IX, AL, HE = ("src/morton.rs", "src/number.rs", "src/dimensions/dim_2d.rs", "src/dimensions/dim_3d.rs",
                              "src/dimensions/mod.rs", "src/indices/mod.rs", "src/align.rs", "src/helper.rs")
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

BITS = ("bits/depth", "packed cells, level 0 in the most significant bits (last byte of the dynamic byte vector); unused bits zero", f"{M2}, {M3}: FixedDepthStorageND / StaticStorageND / DynamicStorageND")
RAND = "The unit tests draw a handful of random cell lists (3D: only octants 0..4) at one or two depths per type; "

p("C01", "An index reproduces exactly the cells it was built from",
  "An index built from a list of cells that fits (slice or array, 2D or 3D, any storage flavour and width) reports those cells, in order, at levels 0,1,2,... and through its cell iterator, and reports the list's length as its depth. A fixed-depth index always reports its full depth and reads as the zero cell at every level the list did not reach. Reading never changes the index.",
  ["inputs"], "every storage type and width, every list length up to the capacity (dynamic: up to the stated bound), every assignment of cells",
  RAND + "8^42 cell lists and all the lengths in between, where byte and word boundaries fall, are never reached.",
  [M2, M3, ST, IX], [("TryFrom<&[Cell]> / TryFrom<[Cell; N]>", f"{M2}, {M3}"), ("get/set_cell_at_level_unchecked", ST), ("CellIter", IX)], [BITS], ["MortonIndex::get_cell_at_level", "MortonIndexND::cells", "MortonIndex::depth"])

p("C02", "Capacity limits are enforced exactly, never by truncation",
  "Every operation that can ask for more levels than a type can hold (building from cells, zeroed, from a grid index with a depth, child/descendant, converting from a dynamic index) succeeds exactly when the requested depth is within floor(bits/dimensions) and otherwise reports failure (an error carrying that capacity, or None). It never panics, truncates or wraps, and the advertised maximum depth is that same capacity. Dynamic indices have no such limit (only their construction from grid coordinates is limited, to 32 levels, as documented).",
  ["inputs"], "every storage type and width, every requested depth below and above the capacity, every cell content",
  "Tests only try capacity+1 once per type; much larger requests (256 and more levels, where narrow depth counters wrap) and the other entry points are untested.",
  [M2, M3, ST], [("length/depth checks against MAX_LEVELS", f"{M2}, {M3}"), ("max_depth", ST)], [BITS])

p("C03", "Setting one cell changes that cell and nothing else",
  "After setting the cell at a level below the depth, that level reads back as the new cell and every other level and the depth are unchanged. The result equals (compares equal to) the index built directly from the updated cell list. Clones taken before are unaffected.",
  ["inputs"], "every storage type and width, every index, every level below its depth, every new cell",
  RAND + "cells are set once each on a zero index, so failure to clear the old cell or damage to already written neighbours cannot show.",
  [M2, M3, ST, NU], [("set_cell_at_level", f"{M2}, {M3}"), ("set_cell_at_level_unchecked", ST), ("set_bits", NU)], [BITS])

p("C04", "Accessing a level at or beyond the depth always panics",
  "Checked reading or writing of a cell at a level greater than or equal to the index's depth panics for every index and level; it never returns a value and never modifies the index. This holds with and without overflow checks compiled in. Accessing any level below the depth never panics.",
  ["inputs", "configurations"], "every storage type and width, every index, every usize level; both overflow-checked and unchecked builds",
  "One test per type writes at exactly one out-of-range level; reads, huge levels and build profiles without overflow checks are untested.",
  [M2, M3], [("level >= depth check", f"{M2}, {M3}: get_cell_at_level, set_cell_at_level")])

p("C05", "Grid coordinates map to the index whose cells interleave their bits",
  "Building an index from grid coordinates at grid depth d (the full depth for fixed-depth types) yields an index of depth d whose cell at level l is the one located, under the chosen ordering, at bit d-1-l of each coordinate. Coordinate bits at or above d are ignored. This holds for every ordering, every supported grid depth including 0, and every storage flavour and width, without panicking.",
  ["inputs"], "every storage type and width, every grid depth up to the capacity (dynamic: up to half the machine word), all coordinates, all orderings",
  "Tests round-trip random indices at the full depth and one or two shallower depths; most depths (hence most chunk layouts) and stray high bits are never tried.",
  [M2, M3, NU, D2, D3], [("from_grid_index", f"{M2}, {M3}"), ("add_zero(es)_before_every_bit_*", NU), ("get_bit_shifts_for_xyz", D3)], [BITS])

p("C06", "An index maps to the grid position of its cell, and the mapping inverts",
  "For an index of depth d the grid coordinates have, at bit d-1-l, the position under the chosen ordering of the cell at level l, and all other bits are zero. Converting to grid coordinates and back at the same depth and ordering gives back the same index, and converting coordinates to an index and back gives back their low d bits. This holds whenever the coordinates fit the machine word.",
  ["inputs"], "every storage type and width, every depth whose coordinates fit in usize, all cells, all orderings",
  RAND + "each round trip uses a single random index per type.",
  [M2, M3, D2, D3], [("to_grid_index", f"{M2}, {M3}"), ("QuadrantOrdering/OctantOrdering::to_index", f"{D2}, {D3}")])

p("C07", "Indices order like a pre-order walk of the tree",
  "Comparing two indices of the same type gives the lexicographic order of their cell lists, an ancestor coming before each of its descendants. It is a total order that agrees with the partial order and with equality. Converting both indices to another storage flavour without changing their depths does not change how they compare.",
  ["inputs"], "every storage type and width, all pairs of indices of equal or different depths",
  "The sort tests compare random equal-depth indices and check only a weak consequence (no inversion among adjacent cells), never prefixes or mixed depths.",
  [M2, M3], [("Ord/PartialOrd for Static/DynamicStorage, derived for FixedDepthStorage", f"{M2}, {M3}")], [BITS])

p("C08", "Equality and hashing depend only on depth and cells, not on history",
  "Two indices of the same type are equal exactly when they have the same depth and the same cells, however each of them was produced (from cells, zeroed, set, ancestor, descendant, inverted, from a grid index, from raw bits, by conversion). Equal indices feed identical data to any hasher. Clones equal their originals.",
  ["inputs", "histories"], "every storage type and width, all pairs of indices, every way of producing them",
  "Tests compare results of one operation with one expected value; leftover bits from other routes to the same node (which break HashMap lookups) are not looked for.",
  [M2, M3], [("PartialEq/Hash of the storages", f"{M2}, {M3}"), ("zeroing of unused bits in ancestor/descendant/zeroed/conversions", f"{M2}, {M3}")], [BITS])

p("C09", "Ancestors are exactly the prefixes of an index",
  "For a variable-depth index of depth d, the ancestor n generations up has depth d-n and the first d-n cells, and there is none exactly when n exceeds d. The parent is the ancestor one generation up (none for the root), and asking for depth k gives the prefix of length k for k<=d and nothing for k>d. The original is unchanged and the result equals the index built directly from the prefix.",
  ["inputs"], "every variable-depth storage type and width, every index, every generation count up to usize::MAX, every requested depth",
  RAND + "parent and a few generation counts are tried; counts above 255 and values left behind below the new depth are not.",
  [MO, M2, M3], [("VariableDepthStorage::ancestor", f"{M2}, {M3}"), ("parent, with_depth", MO)], [BITS])

p("C10", "Descending appends cells, and the parent of a child is the original",
  "For a variable-depth index, the descendant by a list of cells is the index with that list appended, or none exactly when the result would exceed the capacity; the child is the one-cell case and the empty list gives the index itself. The parent of a child equals the original, and descending in two steps equals descending once by the concatenation. The original is unchanged.",
  ["inputs"], "every variable-depth storage type and width, every index, every list of cells",
  RAND + "single random descents; growth across each byte boundary with arbitrary content is not covered.",
  [MO, M2, M3], [("VariableDepthStorage::descendant", f"{M2}, {M3}"), ("child", MO)], [BITS])

p("C11", "Converting between storage flavours preserves the node",
  "Converting an index between fixed, static and dynamic storage keeps every cell and the depth, except that converting to fixed depth pads the missing levels with zero cells. Converting from dynamic fails with the capacity exactly when the depth exceeds what the target can hold. Converting to another flavour and back gives the original (up to the zero padding), and the converted value equals the one built directly from the same cells.",
  ["inputs"], "every width, 2D and 3D, every source depth from 0 upwards, all cells",
  "Tests convert at the full depth and at one level less (or half); shorter dynamic indices, whose byte length differs from the target's, are not tried.",
  [M2, M3, NU], [("From/TryFrom between MortonIndexND<...>", f"{M2}, {M3}"), ("from_u8_slice/as_u8_slice", NU)], [BITS])

p("C12", "Inverting an index reverses its cells and is its own inverse",
  "The inverted index has the same depth, and its cell at level l is the original's cell at level depth-1-l. Inverting twice gives an index equal to the original. The original is unchanged.",
  ["inputs"], "every storage type and width, every depth, all cells",
  RAND + "16 random samples per type.",
  [MO], [("inverted", MO)])

p("C13", "Names are the documented spelling of the cells or grid position",
  "The cell-concatenation name is one decimal digit per level, from the root down; the with-root name is the same preceded by 'r'. The grid name is the depth followed by the coordinates under the default ordering, in decimal without padding, joined by '-' (x, y and then z in 3D). Distinct nodes of one type always get distinct names.",
  ["inputs"], "every storage type and width, every depth, all cells",
  "Naming is only used in test failure messages; no test checks a name.",
  [MO, M2, M3], [("to_string", f"{M2}, {M3}")])

p("C14", "Raw bits and the fast 3D path agree with the general encoding",
  "A 3D index made from raw bits has, at level l, the octant in the l-th group of three bits counted from the most significant end, and is equal to the index built from those octants whatever the remaining unused bits were. The fast 64-bit construction from grid coordinates gives the same index as the general one for all coordinates and orderings.",
  ["inputs"], "every width, all raw bit patterns, all depths within capacity, all coordinates, all orderings",
  "from_raw_index has no test and the fast path is compared on random coordinates only.",
  [M3, NU], [("from_raw_index", M3), ("from_grid_index_fast", M3)], [BITS])

p("C15", "Cell numbering and cell orderings are consistent bijections",
  "Converting a number to a quadrant or octant succeeds exactly for numbers below 4 or 8 and is inverse to taking its index; cells compare in index order. Each ordering maps the cells one-to-one onto the positions of the 2x2 or 2x2x2 block with the first-named axis in the lowest index bit, and the per-axis bit shifts an octant ordering reports describe that same mapping. The defaults are XY and XYZ.",
  ["inputs"], "every usize value, every cell, every ordering",
  "Tests check the 3D mapping against the reported shifts, i.e. against each other, and never out-of-range numbers.",
  [D2, D3], [("TryFrom<usize>, Into<usize>, to_index, get_bit_shifts_for_xyz", f"{D2}, {D3}")])

p("C16", "Integer bit ranges read and write exactly the addressed bits",
  "For every unsigned integer type and every bit range within it, reading returns those bits moved down to bit 0 with nothing above them. Writing makes the range hold the low bits of the new value and leaves every bit outside the range unchanged. The word-sized variants do the same through a machine word.",
  ["inputs"], "u8, u16, u32, u64, u128, usize; all values; all ranges within the width (non-empty for writing)",
  "Tests write a few constant patterns of the right size into zero for u8 and u16 only.",
  [NU], [("Bits::get_bits/set_bits/get_bits_as_usize/set_bits_from_usize", f"{NU}: impl_bits")])

p("C17", "Byte-vector bit ranges behave like one long little-endian number",
  "Treating a byte vector as one little-endian number, reading a bit range returns exactly those bits (as bytes, or as a machine word for up to 64 bits) with zero bits above them. Writing a range from another byte vector or a machine word makes the range hold the new value's low bits and changes no other bit. No access leaves the vector.",
  ["inputs"], "all vector contents, all ranges up to the stated vector length, all new values",
  "Tests use one constant 4-byte pattern and fewer than ten ranges, written into zero bytes.",
  [NU], [("Bits for Vec<u8>, set_vec_u8_bits", NU)])

p("C18", "Numeric and byte-slice conversions keep the value they can hold",
  "Conversions between the unsigned integer types keep the low bits (all of them when the target is at least as wide) and the reported size is the width in bytes. Building an integer from a byte slice uses its first bytes in the requested byte order, filling missing trailing bytes with zero and ignoring excess ones; viewing an integer or vector as bytes and building it back in native order gives the same value. Building a byte vector keeps all bytes, reversed for the foreign byte order.",
  ["inputs"], "all integer types, all values, all slices up to the stated length, both byte orders",
  "None of these conversions is tested directly.",
  [NU], [("as_*/from_*/as_u8_slice/from_u8_slice/size", NU)])

p("C19", "Bit-spreading helpers place input bit i at its documented position",
  "The one-zero helpers move input bit i to bit 2i (or 2i+1 for the 'behind' form) and the two-zero helpers to bit 3i, with every other output bit zero. This holds for all bits of the documented input window (4 or 8 bits for the one-zero forms on 8 or 16 bits, 8 for the two-zero form on 8 bits, 21 for the one on 32 bits). Bits above the window are ignored.",
  ["inputs"], "all inputs of each helper",
  "Tests try a few constants, mostly runs of low ones.",
  [NU], [("add_zero_before/behind_every_bit_*, add_two_zeroes_before_every_bit_*", NU)])

p("C20", "Aligning rounds up to the next multiple, without overflow on the way",
  "Aligning a value to a non-zero alignment gives the smallest multiple of the alignment that is not below the value, whenever that multiple is representable. Aligning to zero gives the value unchanged. An already aligned value is returned unchanged, up to the type's maximum.",
  ["inputs"], "u8, u16, u32, u64, u128, usize: all values and alignments within the stated bounds",
  "Alignment has no tests at all.",
  [AL], [("Alignable::align_to", AL)])

p("C21", "Displaying a slice of indices lists every name in order",
  "The displayable wrapper renders a slice as '[', the names of its elements in order under the chosen naming, separated by ', ', and ']' (just '[]' when empty), for both display and debug formatting. Comparing two wrappers compares the wrapped slices and ignores the naming.",
  ["inputs"], "all slices up to the stated length, all cells, all namings",
  "The helper has no tests.",
  [HE], [("Display/Debug/PartialEq/Ord for DisplayableMortonIndexSlice", HE)])

p("C22", "Default and zeroed indices are the root and the all-zero node",
  "The default variable-depth index is the root (depth 0), the default fixed-depth index is the all-zero index of full depth. A zeroed index of depth d has depth d and only zero cells, equals the index built from d zero cells, and behaves like it under every further operation. The root's descendants reach every node.",
  ["inputs", "histories"], "every storage type and width, every depth, every following single operation",
  "Tests use zeroed only as a starting point for setting cells at one depth.",
  [M2, M3], [("zeroed, Default", f"{M2}, {M3}")], [BITS])

p("C23", "Any history of operations behaves like a list of cells",
  "Applying any sequence of child, parent, descendant, ancestor, set-cell, truncate-to-depth, invert and clone operations to a variable-depth index gives at every step the same depth, cells and success or failure as applying it to a plain list of cells with the type's capacity. After any such history the index is equal to, hashes like and orders like the index built directly from that list.",
  ["histories", "inputs"], "every variable-depth storage type and width; all sequences of operations up to the stated length from an arbitrary start index",
  "Tests apply a single operation to a freshly built index; state left behind by one operation and exposed by a later one is invisible to them.",
  [MO, M2, M3], [("VariableDepthMortonIndex and MortonIndex operations", f"{MO}, {M2}, {M3}")], [BITS])

p("C24", "Storage types alone obey the same contract as the indices",
  "Used directly through their public interface, the 2D and 3D storages report the depth, cells, ancestors, descendants, iteration, default and order that the index wrapping them reports. Failure cases are the same too.",
  ["inputs"], "every storage type and width, every depth, all cells",
  "The storages are public but only exercised through the index types.",
  [M2, M3, ST, IX], [("Storage, VariableDepthStorage, StorageType, IntoIterator for storages", f"{M2}, {M3}, {ST}")], [BITS])

p("C25", "Valid use never panics, overflows or leaves its memory",
  "Every public operation that is used within its documented conditions finishes normally for every input: it does not panic, overflow, divide by zero or read or write memory outside the values it was given or created. That holds in builds with overflow checks and debug assertions and in builds without them, with the same results in both. Unchecked cell reads and writes at levels below the depth give the same results as the checked ones.",
  ["inputs"], "all index types, orderings, bit and byte utilities, alignment; every depth and argument shape within the stated bounds, all cells, coordinates, values and bytes; both build configurations",
  "A stray read past a byte vector or an overflow at one bit pattern is silent in an ordinary test run, and the tests run in one build configuration with a few inputs.",
  [M2, M3, ST, NU, AL, HE, DM], [("unsafe get/set_cell_at_level_unchecked, unreachable_unchecked, debug_assert", f"{M2}, {M3}"), ("raw pointer reads and writes on byte vectors", NU)], [BITS])

p("C26", "Grid positions nest along the hierarchy",
  "The grid position of the ancestor n generations up is the node's position shifted right by n on every axis. The position of a child is twice the parent's position plus the child cell's offset on each axis. Building from the coarser position and depth gives that ancestor. Building the same coordinates with another axis ordering gives the index whose position has its axes permuted accordingly, and at one depth a larger coordinate on one axis, with the others unchanged, yields a larger index.",
  ["inputs"], "every variable-depth storage type and width, every depth (dynamic: to the stated bound), every generation count, every pair of orderings, all coordinates",
  "Tests convert single positions at one or two depths and never relate positions of different depths or orderings.",
  [M2, M3, D2, D3, DM], [("from_grid_index/to_grid_index", f"{M2}, {M3}"), ("ordering conversions", f"{D2}, {D3}"), ("ancestor/descendant", f"{M2}, {M3}")], [BITS])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
