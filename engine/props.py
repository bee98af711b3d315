"""Per-property configuration: bounds, what lies outside them, shards."""
import re

ASSUMPTIONS = [
    'the LLVM IR rustc produces (opt-level 2, fat LTO, overflow checks and debug assertions on) is taken as the code under test; '
    'code generation below IR is trusted, and spot-checked by replaying sampled paths natively',
    'memory allocation never fails',
    'LLVM poison flags (nsw, nuw, exact, inbounds) are ignored: arithmetic wraps',
    'z3 and the term rewriter (differentially tested in engine/selftest_terms.py) are trusted',
    'little-endian 64-bit target; the integer storage types u8, u16, u32, u64, u128 and usize',
]

PROPS = {}

TYPES = 'all 26 index types (fixed and static over u8, u16, u32, u64, u128, usize, and dynamic; 2D and 3D), '
VAR = 'all 14 variable-depth index types, '
FAMS = 'all 12 conversion families (2D/3D x u8, u16, u32, u64, u128, usize), '
DYN_Q = 'dynamic depths from the table DYN in harness/src/ix.rs (0 to 66 and values around byte, word and counter boundaries up to 258)'
DYN_T = 'dynamic depths from the table DYN_T in harness/src/ix.rs (0 to 140 and values around byte, word and counter boundaries up to 600)'
DYN_OUT = 'dynamic depths outside the table; '


# the code is compiled with overflow checks and debug assertions, as its tests are, and without, as users ship it
PROFILES = ['release', 'unchecked']


def elsewhere(cfg, name, tier):
    """whether a harness is run again on the build without run-time checks"""
    if any(re.match(rx, name) for rx, _ in cfg.get('limits', [])):
        return False
    if tier:
        return True
    if 'second' in cfg:
        return re.search(cfg['second'], name) is not None
    m = re.search(r'_((f|s)?[23]_(8|16|32|64|128|us)|d[23])$', name)
    return m is None or m.group(1) in SECOND


SECOND = ('f2_32', 'f3_64', 's2_32', 's3_64', 'd2', 'd3', '2_32', '3_64')

HUGE = ('; beyond the claim, and as far as two minutes go (on the unchanged tree: to the end): dynamic indices of about %d depths from %d to %d levels, around the places where 8- or 16-bit counters of levels, bits '
        'or bytes wrap, with symbolic cells at up to 25 levels around those places and zero cells elsewhere')


def prop(pid, quick, thorough=None, outside='', shards=(), huge=None, **kw):
    b = [quick, thorough or quick]
    shards = list(shards)
    if huge:
        b = [x + HUGE % huge for x in b]
        shards.append((r'c\d\d_huge', (3, 3)))
        kw['limits'] = [(r'c\d\d_huge', (120, 3600))]
    PROPS[pid] = dict(bounds=b, outside=outside, shards=shards, **kw)


FAR = ('; beyond the claim, and as far as two minutes go (on the unchanged tree: to the end): vectors of 40 to 65 900 bytes with ranges at 13 far '
       'bits and ranges of up to 524 297 bits, with symbolic bytes at the ends of the range and of the vector')
LONG = ('; beyond the claim, and as far as two minutes go (on the unchanged tree: to the end): slices of 22 lengths from 4 to 300 with symbolic '
        'cells at 8 places')


prop('C01',
     TYPES + 'every list length up to the capacity for fixed and static types, ' + DYN_Q + '; every cell symbolic; arrays of 25 lengths up to 300; '
     'the iterator driven by next, nth, skip, step_by, count, last, fold and collect for up to 9 depths',
     TYPES + 'every list length up to the capacity for fixed and static types, ' + DYN_T + '; every cell symbolic; arrays of 25 lengths up to 300',
     outside=DYN_OUT + 'array lengths other than those instantiated',
     huge=(11, 300, 65537))
prop('C02',
     TYPES + 'every requested depth up to capacity+10, and 255, 256, 257, 1000, 65536 where a list or number is asked for; cells, '
     'coordinates and orderings symbolic; dynamic construction up to 513 cells; dynamic from_grid_index up to its documented 32 levels, and refused for every depth beyond',
     outside='from_raw_index with a depth beyond the capacity; '
     'lists longer than those tried',
     huge=(60, 256, 131074))
prop('C03',
     TYPES + 'every depth (bounded types), ' + DYN_Q + '; level: every one for bounded types and for depths up to 34, otherwise 8 '
     'representative ones; cells symbolic; sequences of two and three writes',
     TYPES + 'every depth (bounded types), ' + DYN_T + '; every level; cells symbolic; sequences of two and three writes',
     outside=DYN_OUT, shards=[(r'c03_set_(d.|s2_128)', (4, 8))],
     huge=(22, 300, 262146))
prop('C04',
     TYPES + 'every depth (bounded types), ' + DYN_Q + '; the level is a symbolic 64-bit value, all cells symbolic; '
     'overflow-checked and unchecked builds',
     TYPES + 'every depth (bounded types), ' + DYN_T + '; the level is a symbolic 64-bit value, all cells symbolic; '
     'overflow-checked and unchecked builds',
     outside=DYN_OUT, second='',
     huge=(22, 300, 262146))
prop('C05',
     TYPES + 'every grid depth up to the capacity (dynamic: up to 32), every ordering, all 64-bit coordinates symbolic',
     outside='dynamic grid depths above 32 (documented panic)')
prop('C06',
     TYPES + 'every depth up to the capacity; dynamic up to 64 (round trips: up to 32); every ordering; cells '
     'and coordinates symbolic',
     outside='dynamic indices deeper than 64 levels, whose coordinates do not fit usize')
prop('C07',
     TYPES + 'all pairs of depths for capacities up to 21, otherwise each depth with 8 related ones; dynamic: pairs of 15 depths '
     'up to 65; all cells symbolic',
     TYPES + 'all pairs of depths (dynamic: each of DYN_T with 8 related ones); all cells symbolic',
     outside=DYN_OUT + 'transitivity is a consequence of agreement with the lexicographic reference and is not checked separately',
     shards=[(r'c07_pairs_s2_128', (4, 16)), (r'c07_pairs_d', (5, 16)), (r'c07_flavours_2_(128|32)', (3, 8)),
             (r'c07_pairs_(s3_128|s2_64|s2_us)', (2, 8)), (r'c07_pairs_', (1, 4))],
     huge=(11, 300, 32770))
prop('C08',
     'indices produced in 11 ways (from cells, zeroed+set, ancestor, descendant, inverted, set twice, grid round trip, clone, children, '
     'grown and truncated, parent+child), by conversion, and from raw bits (3D); depths: all (dynamic: 23 '
     'up to 65); all cells and raw bits symbolic',
     'the same with every depth (dynamic: every depth up to 70)',
     outside=DYN_OUT, shards=[(r'c08_routes_', (1, 6)), (r'c08_equality_', (1, 4))],
     huge=(9, 300, 21847))
prop('C09',
     VAR + 'every depth, ' + DYN_Q + '; generations: every one up to depth+1 for depths up to 34, otherwise 16 representative ones, '
     'and huge ones; cells symbolic',
     VAR + 'every depth, ' + DYN_T + '; every generation count up to depth+2; cells symbolic',
     outside=DYN_OUT, shards=[(r'c09_(ancestor|withdepth)_d', (4, 8))],
     huge=(20, 300, 131074))
prop('C10',
     VAR + 'every depth and every number of appended cells up to capacity+2, and 14 numbers from 128 to 65 536; dynamic: the depths of DYN, up to 34 with 20 numbers of appended cells '
     'up to 256, beyond with 8; cells symbolic; two-step descents within 11 levels',
     VAR + 'every depth and every number of appended cells up to capacity+2 (dynamic: DYN_T with 20 numbers up to 256); cells symbolic; two-step '
     'descents within 24 levels',
     outside=DYN_OUT, shards=[(r'c10_append_d', (5, 8)), (r'c10_append_s2_128', (2, 6)), (r'c10_\w+_(s._128|s._64|s._us|d.)$', (1, 6))],
     huge=(40, 299, 131074))
prop('C11', FAMS + 'every depth up to the capacity and 7 beyond it; all cells symbolic',
     outside='conversions between different widths go through two steps only where the library offers them',
     huge=(50, 256, 131136))
prop('C12', TYPES + 'every depth, ' + DYN_Q + '; all cells symbolic', TYPES + 'every depth, ' + DYN_T + '; all cells symbolic',
     outside=DYN_OUT,
     huge=(11, 300, 65537))
prop('C13',
     TYPES + 'cell names: every depth, ' + DYN_Q + ', all cells symbolic; grid names: all nodes within 5 levels (fixed types: the last '
     '5 levels free), 12 fixed nodes of every depth, deep nodes with one free cell, and 12 (2D) or 7 (3D) free levels at any depth against the standard formatter; '
     'distinctness of names within 3 levels',
     TYPES + 'cell names: every depth, ' + DYN_T + ', all cells symbolic; grid names: all nodes within 7 levels, deep nodes with one free '
     'cell at every level, and 20 (2D) or 14 (3D) free levels; distinctness of names within 4 levels',
     outside='grid names of deep nodes with more free cells than stated; dynamic indices deeper than 64 levels',
     shards=[(r'c13_(wide|grid|deep)_', (1, 6))],
     huge=(10, 300, 21847))
prop('C14', '3D fixed and static over u8, u16, u32, u64, u128, usize: every raw bit pattern and depth up to the capacity; the fast path: '
     'all 64-bit coordinates, 6 orderings', outside='static raw indices with a depth beyond the capacity')
prop('C15', 'all 64-bit numbers, all cells, all orderings and coordinates below 2', outside='')
prop('C16', 'u8, u16, u32, u64, u128, usize: all values, new values, and ranges 0 <= start <= end <= width (symbolic)', outside='',
     shards=[(r'c16_bits_(64|us)', (1, 4)), (r'c16_bits_128', (1, 8))])
prop('C17', 'vectors of up to 5 bytes with every bit range, and of 4 to 16 bytes with ranges around byte and word boundaries; '
     'all bytes and new values symbolic' + FAR,
     'vectors of up to 8 bytes with every bit range, and of 4 to 16 bytes with every start bit' + FAR,
     outside='other longer vectors', shards=[(r'c17_', (1, 8)), (r'c17_far', (3, 3))],
     limits=[(r'c17_far', (120, 3600))])
prop('C18', 'all integer types and values (symbolic); byte slices of 0 to width+3 bytes, and of 13 lengths from 64 '
     'to 65 551; byte vectors of 0 to 20 bytes, and of 17 lengths from 33 to 65 800 with symbolic bytes at up to 18 places',
     'all integer types and values (symbolic); byte slices of 0 to 2*width+8 bytes, and of 13 lengths from 64 '
     'to 65 551; byte vectors of 0 to 64 bytes, and of 17 lengths from 33 to 65 800 with symbolic bytes at up to 18 places',
     outside='big-endian targets; a byte vector converted to an integer of another size (the library panics)')
prop('C19', 'all inputs of every helper (symbolic)', outside='')
prop('C20',
     'u8: all values and alignments (symbolic); all widths: all values with every power-of-two alignment, 64-value windows around zero, '
     'powers of two and the maximum with all alignments below 16, values around zero, the alignment, its double and the maximum '
     'with alignments of every magnitude, the 16 largest values with all alignments below 64, exact multiples. '
     'Beyond the claim, when the solver finishes in a minute: all values and alignments of 16, 32 and 64 bits',
     'as quick, with every window position, alignments below 64, and ten minutes for the unrestricted 16, 32 and 64 bit queries',
     outside='wide values with alignments other than those (bit-blasted division by a symbolic divisor)',
     limits=[(r'c20_full_(16|32|64|us)', (60, 600))])
prop('C21',
     TYPES + 'slices of up to 3 indices (the first of any depth up to 4, the others 0, 1 or 4; fixed types: 4 free '
     'levels; 2 levels for grid names), all namings, Display and Debug, plain and alternate; comparisons of slices of up to 2 indices of 10 types'
     + LONG, 'the same with slices of up to 4 indices' + LONG, outside='other longer slices and deeper indices (their names: C13); widths, precisions and other formatting flags',
     limits=[(r'c21_(long|comparelong)', (120, 3600))])
prop('C22', TYPES + 'defaults; zeroed: every depth, ' + DYN_Q + '; nine further operations on zeroed indices; the root\'s descendants of '
     'every depth; conversions of zeroed indices',
     TYPES + 'as quick with ' + DYN_T, outside=DYN_OUT,
     huge=(60, 298, 131074))
prop('C23',
     VAR + 'histories: two operations (with many argument choices) from 7 to 9 starting depths, three operations from 3 or 4, for all types; four '
     'operations from the root for 6 types; order against an arbitrary index after two operations; all cells symbolic',
     VAR + 'two and three operations with many argument choices, four from the root and five from depth 2; all cells symbolic',
     outside='longer histories, other argument sizes (C03, C09, C10 and C12 decide each single operation from every index)',
     shards=[(r'c23_(two|three)_', (1, 6)), (r'c23_(four|five)_', (1, 6)), (r'c23_ordered_d', (3, 3))],
     huge=(6, 255, 65546))
prop('C24',
     'all 26 storage types: every depth (bounded types), ' + DYN_Q + '; lengths up to capacity+2 and 300; all cells symbolic; order: pairs of '
     'depths as in C07; ancestors and descendants as in C09 and C10; arrays of 23 lengths up to 300; iterators as in C01',
     'the same with every depth pair and generation, ' + DYN_T, outside=DYN_OUT,
     shards=[(r'c24_(compare|write|ancestors|descendants)_d', (4, 8)), (r'c24_write_s2_128', (4, 8)), (r'c24_(compare|write|ancestors|descendants)_', (1, 4))],
     huge=(40, 299, 131074))
prop('C25',
     TYPES + 'every depth (bounded types), 27 dynamic depths up to 256; each public operation once over its documented domain, with representative '
     'levels, generations and lengths, and once more on its result; ' + FAMS + 'every raw bit pattern; all integers with every bit range (reads) or 72 ranges (writes); byte slices up to '
     'width+2; byte vectors of up to 3 bytes with every range and of 7 to 17 with 170 ranges; overflow-checked and unchecked builds; all cells, bytes, values and coordinates symbolic',
     TYPES + 'as quick with ' + DYN_T,
     outside='sequences longer than two operations (C23); grid names and text of slices (C13, C21); undefined behaviour that is not an access outside an object, '
     'a division by zero, an overflow or unreachable code (for instance: aliasing rules)')
prop('C26',
     VAR + 'every depth (dynamic: 20 up to 64), up to 10 generations or up to 4 appended cells; every pair of orderings; coordinates and cells symbolic; order along an axis at every depth '
     '(dynamic: 10 up to 32)',
     VAR + 'every depth (dynamic: up to 64), every generation; every pair of orderings; coordinates and cells symbolic',
     outside='dynamic indices deeper than 64 levels')
