CH = "include/strf/detail/facets/charset.hpp"
DST = "include/strf/destination.hpp"
prop("C04", "Code point operations of the UTF charsets match the Unicode encoding forms",
     "For every code point value and every code unit the UTF-8, UTF-16 and UTF-32 charsets agree with the Unicode encoding forms: encode_char writes exactly the code units of the code point and returns their end, encoded_char_size is their number, validate returns that number for scalar values and a negative value otherwise, decode_unit returns the code point of a single unit or U+FFFD. "
     "encode_fill writes exactly count copies and write_replacement_char exactly one U+FFFD to the destination, whatever its buffer sizes, and count_codepoints returns the number of code points and the position reached, stopping at the limit. "
     "The same holds when the charset is used through dynamic_charset.",
     ["inputs"], "All 32-bit code point values, all code units, all counts, all source contents, all destination buffer sizes, five character types, static and dynamic charsets.",
     "Width, fill and precision handling rely on these for every code point; tests sample a few values and buffer sizes.",
     [UTF, CH], [("static_charset<CharT, csid_utf8/16/32>", UTF), ("dynamic_charset", CH)],
     "Full proof, no bound. Destination's virtual functions by contract.")
prop("C07", "Fixed-size destinations never overrun and report truncation exactly",
     "For every sequence of operations on a cstr_destination or array_destination over an array of n units, nothing outside the array is written, the array receives exactly the first units of the output in order, and good() is true exactly while everything passed so far has fitted and recycle() was not needed. "
     "finish() returns a pointer to the end of what was delivered and truncated == not good(); cstr_destination always puts its null terminator there. "
     "Once bad they offer at least the guaranteed discard space after each recycle, never the caller's array again. discarder drops everything.",
     ["inputs", "histories"], "All array sizes, all histories of write, buffer_ptr/advance_to/advance, put, ensure, recycle, flush followed by finish; five character types; all constructors.",
     "Truncation can happen at any unit in any operation order, also repeatedly; tests fix a handful of sequences.",
     [DST], [("basic_cstr_destination", DST), ("array_destination", DST), ("discarder", DST), ("output_buffer::write / ensure / advance / flush / put", DST)],
     "Class-invariant proof over an unbounded nondeterministic history; no bound.")
prop("C08", "String, C file and streambuf destinations deliver everything once, in order",
     "For every sequence of operations, the string appender and string makers (also the pre-sized one), the narrow and wide C file writers and the streambuf writer pass to their sink exactly the output units, each once and in order, for every distribution over buffer fills and direct writes, before finish() returns or the destructor ends. "
     "After a sink write that was short nothing more is written, good() is false, and finish() returns the number of units really written and success == false. "
     "An appender only appends; nothing outside the internal buffer is accessed.",
     ["inputs", "histories", "faults"], "All histories of write, advance, put, ensure, recycle, flush, then finish and/or destruction; all points at which a sink write may be short; five character types.",
     "Loss or duplication needs a particular alternation of buffered and direct writes or a partial write at a particular point.",
     ["include/strf/to_string.hpp", "include/strf/to_cfile.hpp", "include/strf/to_streambuf.hpp", DST],
     [("basic_string_appender/basic_string_maker/basic_sized_string_maker", "include/strf/to_string.hpp"), ("cfile_writer_base, narrow/wide traits", "include/strf/to_cfile.hpp"), ("basic_streambuf_writer", "include/strf/to_streambuf.hpp")],
     "Class-invariant proof over an unbounded history; std::basic_string, streambuf::sputn, fwrite, fputwc by contract.")
SB = "include/strf/detail/single_byte_charsets.hpp"
prop("C05", "Single-byte charset tables and code point operations match the standards",
     "For each of the 25 single-byte charsets (ASCII, ISO-8859-1..11,13..16, windows-1250..1258), every byte and every 32-bit code point value, decoding gives the code point the charset's standard assigns (U+FFFD for unassigned bytes), and encoding gives exactly that byte for the characters of the charset, and for every other value reports it as unsupported; U+FFFD encodes as '?'. "
     "encode_char writes one unit ('?' when unsupported), validate returns 1 or a negative value, encoded_char_size is 1, encode_fill writes exactly count copies, write_replacement_char one '?', and count_codepoints is the number of units up to the limit. The same holds through dynamic_charset.",
     ["inputs"], "All bytes, all 32-bit code point values, all counts and destination buffer sizes, 25 charsets, char and char8_t, static and dynamic charset.",
     "There are 2^32 code point values per charset, of which tests check those in the tables and a few outside.",
     [SB, CH], [("impl_<charset>::encode / decode / is_valid", SB), ("single_byte_static_charset", SB), ("dynamic_charset", CH)],
     "Full proof, no bound; tables compared with the Unicode mapping files (through Python's codecs) and Microsoft's best-fit tables.")
prop("C06", "Single-byte transcoding is exact, and its size calculation agrees with it",
     "Transcoding between a single-byte charset and UTF-32 (or within the charset) writes, for every source unit, the unit the charset tables assign, and the replacement ('?' or U+FFFD) for each invalid or unsupported one, which it reports to the notifier as invalid_sequence or unsupported_codepoint. "
     "It stops exactly at the end of input, at a full destination, or at an invalid or unsupported unit whose stop flag is set, never accessing memory outside the ranges. "
     "The size calculation gives the same size, position and stop reason as the transcoding for a destination of that size; for valid input the unsafe variants agree with the checked ones.",
     ["inputs"], "All source contents, lengths, destination sizes, limits and flags; 25 charsets; char, char8_t, char32_t, wchar_t; with and without notifier.",
     "Errors at every position combined with every destination size, limit, flag combination and charset cannot be enumerated by tests.",
     [SB], [("single_byte_charset_to_utf32, utf32_to_single_byte_charset, single_byte_charset_sanitizer", SB), ("find_first_* / find_invalid_sequence", SB)],
     "Full proof per charset and direction, no bound; encode/decode by contract (proved in the same run). One known finding: the surrogate range of the strict policy.")

IN, DG = "include/strf/detail/printable_types/int.hpp", "include/strf/detail/int_digits.hpp"
prop("C10", "Integers are printed exactly, with their sign, prefix, zeros and fill",
     "For every integer value and format (base 2, 8, 10 or 16, sign display, base prefix, precision, pad0, lettercase, and alignment with fill character and width), the text printed without punctuation is the exact digits in that base, without leading zeros but those asked for, preceded by the sign or prefix, and padded with the fill character on the side asked for to exactly the width when the content is narrower. "
     "It is the same whatever the sizes of the buffers of the destination, into which the printing never writes out of bounds. "
     "The pre-calculated size is the exact number of units that are printed, and the pre-calculated width the number of characters (saturated).",
     ["inputs"], "All values of the 8, 16, 32 and 64 bit signed and unsigned types, all precisions and pad0 up to 10^9, widths, fill characters, destination buffer sizes; char, char16_t, char32_t, wchar_t; static formats without punctuation.",
     "An error at a boundary value (10^k, 2^k, the minimal value) combined with one format and one destination buffer size among 2^64 values times all formats.",
     [IN, DG], [("default_int_printer, aligned_default_int_printer", IN), ("int_printer_no_pad0_nor_punct, int_printer_static_base_and_punct<,,false>", IN), ("count_digits, write_txtdigits_backwards, intdigits_writer", DG), ("write_fill", "include/strf/detail/strf_def.hpp")],
     "Full proof, no bound. The digit axioms of the specification are proved in the same run; the fill character's encoding by contract (C04).")
WT = "include/strf/width_t.hpp"
prop("C09", "Fixed-point width arithmetic is exact or saturates",
     "A width is a multiple of 1/65536 in a 32-bit range. For all operand values, conversions from integers, sat_add, sat_sub, sat_mul and the product give the exact value (products rounded toward zero) clamped to the range; sums, differences, negation and quotients are exact whenever the result is in the range. "
     "Comparisons between widths, and between a width and an integer of any type, order them by their mathematical values. "
     "floor, ceil, round (to nearest, halves toward zero), and the non-negative floor and ceil are those of the value; widths added to a premeasurement saturate, and its accumulated and remaining widths are those of the sum and its limit.",
     ["inputs"], "All pairs of widths, and of a width and an integer of every 16 to 64 bit type; all run-time operations of width_t.",
     "Overflow and rounding errors appear at isolated pairs among 2^64 or more; tests check some dozens.",
     [WT], [("width_t and its free operators, sat_add, sat_sub, sat_mul, compare", WT)],
     "Full proof, loop-free, bit-precise (products over the integers). Not covered: the compile-time literals.")

ST, CP, CS = "include/strf/detail/printable_types/string.hpp", "include/strf/detail/printable_types/char.hpp", "include/strf/detail/printable_types/bool.hpp"
prop("C11", "Strings, characters and booleans are printed exactly, aligned and transcoded",
     "For every string (in the charset of the destination, or transcoded with any of the policies: transcode, unsafe_transcode, sani), repeated character, char32_t and bool, and every precision and alignment format, the text printed is the source, cut at the prefix the width calculator selects for the precision, encoded for the destination, and padded on the side asked for with as many fill characters as the rounded difference between the format width and the content's width. "
     "It is the same whatever the sizes of the buffers of the destination, into which the printing never writes out of bounds, and the source is not read out of bounds. "
     "The pre-calculated size is the exact number of units printed, and the pre-calculated width that of content and fill (saturated).",
     ["inputs"], "All source strings, precisions, widths, alignments, fill characters, repetition counts, letter cases, destination buffer sizes; with and without premeasurement; char, char16_t, char32_t, wchar_t.",
     "An error at one combination of printer class, cut, alignment and destination buffer size; each of the 60 specialised printers has its own code, of which tests run a few inputs.",
     [ST, CP, CS, "include/strf/detail/facets/charset.hpp"], [("strcpy_printer, aligned_strcpy_printer, transcode_printer, aligned_transcode_printer, unsafe_..., ..._conv_string_printer", ST), ("char_printer, fmt_char_printer, conv_char32_printer, fmt_conv_char32_printer", CP), ("bool_printer, fmt_bool_printer", CS)],
     "Full proof, no bound. Width calculators, transcoder functions and encode_fill by contract at their calls.")

prop("C12", "Transcoding through UTF-32 or into a destination equals one transcoding",
     "For all pairs of charsets, strf::transcode and decode_encode (safe and unsafe; into a buffer, into a destination, or only measuring; charsets given as values, dynamic charsets, or template arguments, or functions given directly) deliver the units that decoding the whole source to UTF-32 in one step and then encoding all of it would, however the work is cut by the 32-code-point pivot buffer and by the destination's buffers. "
     "The result tells exactly how many source units (and code points after them) have been dealt with, how many units were written, and why it stopped; nothing is written past the end of the output, and the size functions never report more than the limit. "
     "The functions taking charsets use the transcoder of exactly those two charsets, pass source, destination, notifier and flags through unchanged, and return what it returns.",
     ["inputs"], "All source strings, buffer sizes, limits, pivot cuts, destination buffer schedules and failures, flags and notifiers; all pairs of unit types; static, dynamic and template-argument charsets.",
     "Bugs at the seams: a pivot block that ends inside the remaining output space, a destination that fails between blocks, a limit reached in a later block. Tests have short sources that never leave the first block.",
     ["include/strf/detail/facets/charset.hpp"], [("strf::transcode, decode_encode, unsafe_decode_encode, decode_encode_size, unsafe_decode_encode_size", "include/strf/detail/facets/charset.hpp")],
     "Full proof, no bound. Transcoder functions by contract at their calls (their own proofs are C01 to C03, C05, C06).")

WC = "include/strf/detail/facets/width_calculator.hpp"
prop("C13", "Width calculators measure strings as documented and cut them where they should",
     "For every string in any charset and every limit, std_width_calc evaluates the width as the sum, over the extended grapheme clusters of UAX #29 (Unicode 13 character classes), of the documented width of each cluster's first code point: str_width returns that sum, or the limit if the sum is not below it; "
     "str_width_and_pos returns the end and the exact width of the longest prefix of whole clusters whose width is within the limit. "
     "fast_width, width_as_u32len and width_as_fast_u32len do the same with width 1 per code unit, or per code point as the charset counts them (saturated to the greatest width). "
     "char_width returns the documented width of the decoded character. A limit that is negative is as zero.",
     ["inputs"], "All strings of any length and all limits; every code point (32-bit values), every history of the cluster automaton; any charset.",
     "Classes are decided by 1400 comparisons in a search tree, and clusters by a 14-state automaton whose state must survive the cut of the string into blocks of 32 code points; tests sample some dozens of strings shorter than a block.",
     [WC, "include/strf/detail/ch32_width_and_gcb_prop"], [("std_width_calc_func", WC), ("std_width_calc_t, fast_width_t, width_as_u32len_t, width_as_fast_u32len_t", WC), ("table of cluster break classes and widths", "include/strf/detail/ch32_width_and_gcb_prop")],
     "Full proof, no bound. Transcoder to UTF-32 and count_codepoints by contract at their calls. The character classes are compared with the Unicode Character Database.")

NP = "include/strf/detail/facets/numpunct.hpp"
prop("C14", "Punctuated integers have their separators exactly where the grouping says",
     "For every digit grouping and number of digits, separators_count and distribute describe the digit sequence cut, from the least significant digit, into groups of the given sizes (the last repeated, or followed by no more separators); the constructors and digits_grouping_creator build the grouping of the given sizes, or the empty one if they are invalid. "
     "With punct() (or int_format_full_dynamic), every integer in base 2, 8, 10 or 16 is printed as without it (C10), with the encoded thousands separator of the numpunct facet of that base before each group but the first, and none at all if the charset can not encode it; precision counts digits only, pad0 and width count each separator as one character. "
     "It is the same whatever the sizes of the buffers of the destination, into which the printing never writes out of bounds. "
     "The pre-calculated size is the exact number of units printed, and the pre-calculated width the number of characters (saturated).",
     ["inputs"], "All values of the integer types, all groupings (up to six groups of 1 to 31), separators, precisions and pad0 up to 10^9, widths, alignments, fill characters, destination buffer sizes; char, char16_t, char32_t, wchar_t.",
     "There are 2^30 groupings, for each 2^64 values, times separators of 0 to 4 units, each written by a loop of its own per base and kind of separator that must refill the buffer at the right moments.",
     [NP, DG, IN], [("digits_grouping, digits_grouping_iterator, digits_grouping_creator, digits_distribution, numpunct", NP), ("write_little_sep, write_big_sep, write_txtdigits_backwards_little_sep", DG), ("int_printer_static_base_and_punct<,,true>, int_printer_full_dynamic", IN)],
     "Full proof, no bound, one obligation set per number of groups. validate, encode_char, encode_fill and the destination's virtual functions by contract at their calls. The quick tier leaves out some combinations of character type and integer type, which the thorough tier proves.")

TRP, TRS = "include/strf/detail/tr_printer.hpp", "include/strf/detail/printable_types/tr_string.hpp"
prop("C15", "A tr-string prints its text and the arguments it refers to, and nothing else",
     "For every tr-string and any number of arguments, the output is the text of the tr-string, with each reference replaced by what the argument it refers to prints: '{' followed by digits refers to the argument of that number, '{' followed by '-' is a comment that prints nothing, '{{' prints '{', any other '{' (also at the end of the string) refers to the argument next to the one of the previous such reference; what follows until the next '}' is skipped. "
     "A reference to an argument that does not exist, however large its number, prints the replacement character, and the error handler is called once for it, with the tr-string, its length and the position of the '{'. "
     "It is the same whatever the sizes of the buffers of the destination, into which the printing never writes out of bounds; nothing is read outside the tr-string or the array of arguments. "
     "The size calculated in advance is exactly the number of units printed, and the width the sum of the widths of pieces and arguments (1 for a replacement character), which saturates, or anything not below the limit when the sum is not below it.",
     ["inputs"], "All tr-strings of char, char8_t, char16_t, char32_t, wchar_t (up to 2^48 units), any number of arguments of any sizes and widths, replacement character of 0 to 8 units, all width limits, destination buffer sizes.",
     "A tr-string comes from a translation and is arbitrary; three parsers of it (writer, size, premeasurements) must agree on every one, on every number (however long), and on truncated references; tests try a few dozens of strings.",
     [TRP, TRS], [("read_uint, tr_string_write, tr_string_size, tr_do_premeasurements, tr_pre_size, tr_pre_width, tr_pre_size_and_width", TRP)],
     "Full proof, no bound. The printers of the arguments, write_replacement_char, str_width and the destination's virtual functions by contract at their calls.")
prop("C16", "Each printing function prints its arguments in order, at the end it was asked to",
     "For every printing function (to(...), and the functions of a destination creator, with no_reserve, reserve(n) or reserve_calc): a call prints the arguments in their order (and, with tr or trline, what the tr-string makes of them), then, with line or trline, exactly one line feed, and nothing else; all into the destination that it creates once, before printing anything, and finishes once, after everything, returning what finish() returns. "
     "The size given to the creator is the one given to reserve, or, with reserve_calc, exactly the number of units printed (line feed included); with no_reserve none is given. "
     "Each argument is printed with the facets given to the function, whether given before, or together with the arguments, the last one of a category winning; those given to with(facets...)(arguments...) apply only to these. The charset and the error notifier among them are the ones a tr-string uses. "
     "tr(...), join(...) and with(...)(...) can also be arguments, and print and measure the same as their own arguments printed directly: the size measured is the sum of sizes, and the width the sum of widths, saturated and not exceeding the limit.",
     ["inputs"], "char, char8_t, char16_t, char32_t, wchar_t; printing functions x reservation x up to three arguments; all sizes, widths, width limits, values of arguments and facets, tr-strings, reserved sizes.",
     "Every use of the library goes through these functions, which are templates combined by template machinery: the printed text, the reserved size, the line feed and the facets each take a different path per combination, and tests try a few combinations with a few values, none with sizes known only in part.",
     ["include/strf/detail/printing_syntax.hpp", "include/strf/detail/reserve_policies.hpp", "include/strf/detail/separate_args_and_print.hpp", "include/strf/detail/printers_tuple.hpp", TRS, "include/strf/detail/printable_types/facets_pack.hpp" , "include/strf/detail/printable_types/join.hpp"],
     [("printing_syntax, printing_with_tr_string_reserve_calc and the other reservation policies", "include/strf/detail/reserve_policies.hpp"), ("separate_args_and_print", "include/strf/detail/separate_args_and_print.hpp"), ("call_printers, printers_tuple", "include/strf/detail/printers_tuple.hpp"), ("tr_string printer", TRS)],
     "Full proof for none to three arguments (the functions are variadic templates; each is instantiated with these numbers). The arguments' printers, destination creators and destination's virtual functions by contract at their calls; tr_string_write, tr_string_size and tr_do_premeasurements by the contract that C15 proves.")

prop("C17", "Aligned joins fill exactly what is missing, ranges print each element in order",
     "join_left, join_right, join_center, join_align and formatted join(...) with a width print their arguments in order and, only if the sum of their widths is less than the width given, the fill character as many times as the difference is (rounded), all of it after, before, or half before (rounded down) and half after, according to the alignment, in the encoding of the charset given. "
     "Printing a range prints each element once, in order, with the facets and the format given, as it is or transformed by the function given, with the separator between each two, and nothing before the first or after the last; an empty range prints nothing; the elements, separator and function are those given, whichever way the range was made (iterators, container, array, initializer list). "
     "For both, the measured size is exactly the number of units printed, and the measured width the sum of all widths (fill and separators included), saturated and not exceeding the limit, whatever the limit and nested or not; reserve_calc reserves exactly what is printed.",
     ["inputs"], "char, char8_t, char16_t, char32_t, wchar_t; alignments, widths (negative and enormous too), fill characters, widths and sizes of arguments, width limits; ranges and separators of any length, destinations of any capacity.",
     "The fill and the separators depend on widths of arguments that are only partially known (measuring stops at the limit), in three code paths (printing, measuring the size, measuring size and width); errors show only for combinations of limit, width and contents that tests hardly try. Two defects were found by this property and repaired.",
     ["include/strf/detail/printable_types/join.hpp", "include/strf/detail/printable_types/range.hpp"],
     [("join_printing::make_printer, aligned_join_printer, join_align/left/right/center", "include/strf/detail/printable_types/join.hpp"), ("range_printer, separated_range_printer, fmt_range_printer, fmt_separated_range_printer, transformed_range_printer, sep_transformed_range_printer", "include/strf/detail/printable_types/range.hpp")],
     "Full proof for joins of none, one and three arguments (join is a variadic template) and for ranges of any number of elements (loop invariants over partial sums). The arguments' printers, encode_fill, encoded_char_size, str_width and destination's virtual functions by contract at their calls; width_t's sat_mul by the contract that C09 proves.")
