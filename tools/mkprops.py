#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so that it can be edited readably)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
BUF=[("strbuf_t","size, capacity, allocator and content of one buffer","strbuf.h struct strbuf_t")]
p("B01","A buffer edit history behaves as byte-sequence edits",
"After any history of assign, append, append-char, prepend, insert, strip, concatenate, formatted and fetched edits that fit, a buffer's content is exactly the byte sequence those edits denote, for every byte value (zero bytes included) and every length. An edit with an invalid or empty source adds nothing (assigning an invalid view empties the buffer), and no edit changes any other buffer or any source text.",
["histories","inputs"],"every finite history of edits over several live buffers, every byte content and length",
"tests run a few short ASCII histories per function; content depends on the interleaving of earlier growth, size and position, which only a model of the whole history can predict",
["strbuf.c"],[("insert_strview_into_buf","strbuf.c insert_strview_into_buf()"),("assign","strbuf.c strbuf_assign()"),("append_char","strbuf.c append_char_to_buf()"),("strip","strbuf.c strbuf_strip_strview()")],BUF,["every public strbuf call's return"])
p("B02","Buffers stay well formed and terminated, and writes stay inside them",
"After every operation on a live buffer, 0 <= size <= capacity, the byte after the content is zero, and the content is readable as a C string up to its first zero byte. No operation reads or writes outside the storage of the buffer and of the views it was given.",
["histories","inputs"],"every history of operations, at every size/capacity relation (including capacity 0 and exactly full)",
"the tests never look at memory next to a buffer nor at full or zero-capacity buffers after each operation",
["strbuf.c"],[("terminator writes","strbuf.c every function storing cstr[size]=0"),("capacity test before write","strbuf.c insert_strview_into_buf(), append_char_to_buf(), strbuf_assign()")],BUF,["every public strbuf call's return"])
p("B03","Edits may take their text from the buffer being edited",
"Assign, append, prepend, insert and strip give the same result when their source view points into the destination buffer (any sub-range, straddling the insertion point or not) as they would with a private copy of that text taken before the call. This holds for dynamic buffers that relocate or stay in place during the call and for fixed-capacity buffers.",
["histories","inputs","configurations"],"every content, sub-range, insertion index and capacity slack; allocators that move or do not move the block",
"tests use two or three hand-picked overlaps; the case split (before/straddling/after insertion point x relocation) needs every sub-range and slack",
["strbuf.c"],[("left-behind/shifted split","strbuf.c insert_strview_into_buf()"),("offset rebasing after relocation","strbuf.c insert_strview_into_buf(), strbuf_assign()"),("buf_contains_str","strbuf.c buf_contains_str()")],BUF)
p("B04","A fixed-capacity buffer never grows, moves or truncates: it is emptied",
"A buffer of fixed capacity keeps its address and its capacity for its whole life and never calls an allocator. An edit whose result does not fit leaves it empty (not truncated, not partially written), an edit whose result fits - including exactly filling it - is applied completely, and destroying it only clears the handle.",
["histories","inputs"],"every history on fixed buffers of every capacity, results around the capacity boundary",
"tests check one overflow per function at most; off-by-one capacity errors show only at exact-fit sizes after particular histories",
["strbuf.c","strbuf.h"],[("failed path empties","strbuf.c every `failed` branch"),("buf_is_dynamic","strbuf.c buf_is_dynamic()"),("strbuf_create_fixed","strbuf.c strbuf_create_fixed()")],BUF)
p("B05","Every dynamic block is owned by exactly one handle or handed-over string",
"At every moment the blocks obtained from an allocator are exactly one per live dynamic buffer that uses it plus one per C string handed over from it; temporary blocks are returned before a call ends. Blocks are only resized or released through the allocator (and allocator data) they came from, never twice, never after release, and destroying a buffer releases its block and clears the handle.",
["histories","configurations"],"every history over several buffers with different allocators, moving and non-moving",
"leaks, double releases and cross-allocator releases need multi-step histories with several allocators; tests use one allocator and never count blocks",
["strbuf.c","accessories/strbuf_crypt/strbuf_crypt.c"],[("destroy_buf","strbuf.c destroy_buf()"),("temporary build buffer","strbuf.c buffer_vcat()"),("change_buf_capacity","strbuf.c change_buf_capacity()")],BUF+[("ledger","live allocator blocks","the allocators supplied by the user")])
p("B06","Capacity changes only as documented",
"A dynamic buffer's capacity changes only when an edit needs more room, where it becomes the needed size rounded up to a multiple of the configured growth step, or when asked: grow raises it to at least the requested size and never lowers it, shrink sets it to the content size. Neither growing nor shrinking changes the content, no other operation lowers the capacity, and the allocated block always covers the recorded capacity plus terminator.",
["histories","configurations"],"every history, several growth-step configurations, requests above, at and below size and capacity",
"capacity is asserted in a handful of places only, with one growth step",
["strbuf.c","strbuf.h"],[("round_up_capacity","strbuf.c round_up_capacity()"),("change_buf_capacity","strbuf.c change_buf_capacity()"),("strbuf_grow/strbuf_shrink","strbuf.c")],BUF)
p("B07","Formatted output lands whole or leaves the buffer empty",
"The printf-style and prnf-style functions replace (or, for the append forms, extend) the content with exactly the formatted text, of any length. If the text does not fit a fixed buffer or the formatter reports an error, the buffer ends up empty and well formed; the variadic and va_list forms agree.",
["histories","inputs","fault_sequences"],"every mix of literal text and conversions at every fill level of dynamic and fixed buffers, formatter failures included",
"tests format one short string per function; exact-fit, growth during formatting and formatter failure are not exercised",
["strbuf.c"],[("two-pass vsnprintf","strbuf.c strbuf_append_vprintf()"),("per-character handler and count check","strbuf.c strbuf_vprnf(), strbuf_append_vprnf(), char_handler_for_prnf()")],BUF)
p("B08","Results are views of the whole buffer; null handles are inert",
"Every modifying or viewing function returns a view of exactly the buffer's content after the call, located in the buffer itself, even if the buffer moved. Called with a null handle address or a null handle, every function does nothing and returns an invalid view (null pointer for C strings), and a buffer once destroyed or handed over is such a null handle.",
["histories","inputs"],"every operation after every history, including destroyed, handed-over and never-created handles",
"tests mostly ignore the returned view and never pass null handles",
["strbuf.c"],[("strview_of_buf","strbuf.c strview_of_buf()"),("buf_ptr && *buf_ptr guards","strbuf.c every public function")],BUF)
p("B09","Concatenation builds exactly its arguments, in order, atomically",
"strbuf_cat and its va_list form replace the content by the concatenation of all argument views as they were before the call, for any number of arguments (1 to over 100), any of which may be views of a dynamic destination itself. A fixed-capacity destination that cannot hold the result, or is given a view of itself, is emptied; no partial result is ever left.",
["inputs","histories"],"every argument count and mix of foreign, empty, invalid and self views at every capacity",
"tests use up to a handful of arguments and one self-view pattern",
["strbuf.c","strbuf.h"],[("buffer_vcat","strbuf.c buffer_vcat()"),("argument counting macro","strbuf.h PP_NARG")],BUF)
p("B10","Handing a buffer over as a C string keeps its text and frees its wrapper",
"Converting a buffer to a C string yields a zero-terminated string with exactly the buffer's content and clears the handle. For a dynamic buffer the string is one block that its allocator can release and that needs no more than the content plus terminator; for a fixed buffer it lies in the buffer's own storage and no allocator is involved.",
["histories"],"every content, length, capacity and allocator, after every history",
"one test checks one short string with the stdlib allocator",
["strbuf.c"],[("strbuf_to_cstr","strbuf.c strbuf_to_cstr()")],BUF)
p("B11","Sizes beyond the integer range empty the buffer instead of wrapping",
"When an edit's resulting size would exceed the largest int, the buffer is left empty and well formed, whatever mix of sources and positions is involved. Near that limit, capacity rounding saturates at the largest int instead of wrapping.",
["inputs","histories"],"every source size up to INT_MAX combined with every current size, single and multi-argument edits",
"no test uses sizes anywhere near the limit",
["strbuf.c"],[("add_will_overflow_int","strbuf.c add_will_overflow_int()"),("round_up_capacity clip","strbuf.c round_up_capacity()")],BUF)
p("B12","Fetcher-driven appends accept exactly what the fetcher delivered",
"The append-using function offers the fetcher exactly the free space at the end of the content (possibly none) and calls it once. A count within 0..offered extends the content by exactly those bytes; any other count empties the buffer and yields an invalid view; capacity never changes.",
["inputs","histories","fault_sequences"],"every fetcher result (negative, short, exact, excessive) at every fill level",
"not covered by any test",
["strbuf.c"],[("strbuf_append_using","strbuf.c strbuf_append_using()")],BUF)
p("B13","Creation yields exactly the requested buffer or a null handle",
"Creating a buffer yields an empty buffer with exactly the requested capacity, or one holding exactly the initial text with that capacity; from caller-supplied memory it yields a fixed buffer whose capacity is what remains after header and terminator. Creation is refused with a null handle, without touching memory, when no allocator is available, the capacity exceeds the int range, or the supplied memory is absent, misaligned or too small.",
["inputs","configurations"],"every initial capacity/content, memory size and alignment, with default, explicit and no allocator, static/stack initialisers",
"tests create a few typical buffers; refusal paths and boundary sizes are not tried",
["strbuf.c","strbuf.h"],[("strbuf_create_*","strbuf.c strbuf_create_empty(), strbuf_create_init(), strbuf_create_fixed()"),("static initialisers","strbuf.h STRBUF_STATIC_INIT, STRBUF_FIXED_CAP")],BUF)
p("B14","Insertion happens at the named position",
"Insert-at-index inserts before the byte at the index, counting back from the end for negative indexes and clamping out-of-range indexes to the nearest end. Insert-before and insert-after insert at the edges of a view of the destination and leave the buffer unchanged if that view is not within the destination's content.",
["inputs","histories"],"every index in the int range, every location view (inside, at either end, empty, foreign, invalid)",
"tests use a few in-range positions",
["strbuf.c"],[("index normalisation","strbuf.c insert_strview_into_buf()"),("location range test","strbuf.c strbuf_insert_before_strview(), strbuf_insert_after_strview()")],BUF)
p("B15","The allocation check catches every failed default allocation",
"When the library is compiled with the standard-library default allocator and its allocation check (STRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB), a request for memory that fails - whichever operation makes it, and whether it is for a new block or a resize - ends the program at the assertion before the failed result is used: no call returns and nothing is read or written through it. The check never fires otherwise, also not when memory is released.",
["inputs","fault points"],"every operation that obtains memory, with any one of its requests failing",
"tests never run out of memory",
["strbuf.c"],[("allocation check","strbuf.c allocfunc_stdlib()"),("growth","strbuf.c change_buf_capacity(), create_buf()")],BUF)
VW=[("strview_t","pointer and size of a view","strview.h struct strview_t")]
p("V01","Views stay inside their source and never modify or over-read it",
"Every view produced by a view function is either invalid (null with size 0) or lies within the source view it was taken from. No view function modifies the viewed text or reads a byte outside the views and strings it was given.",
["inputs","histories"],"every chain of view operations on every content, including empty and invalid views and extreme indexes",
"tests compare texts of a few results; over-reads at the ends of a source and stray pointers of empty results are invisible to them",
["strview.c"],[("bounds of every loop","strview.c"),("strview_sub clipping","strview.c strview_sub()")],VW)
p("V02","Delimiter splitting partitions the source",
"Splitting at the first (last) delimiter returns exactly the text before the first (after the last) byte that is one of the delimiters and leaves exactly the text on its other side; if there is none, the whole source is returned and the source becomes invalid. With quote exclusion, delimiters inside double-quoted text are ignored; splitting all fields yields them in order, up to the array size, so that fields and delimiters re-assemble the source.",
["inputs","histories"],"every text, delimiter set, quote arrangement and repetition until exhaustion",
"tests split a few fixed sentences",
["strview.c"],[("split_first_delim","strview.c split_first_delim()"),("split_last_delim","strview.c split_last_delim()"),("strview_split_all","strview.c strview_split_all()")],VW)
p("V03","Line splitting is independent of how the stream is chunked",
"For any mix of CR, LF, CRLF and LFCR endings and any way of cutting a text stream into chunks, repeatedly splitting lines with the end-of-line state kept between calls yields the same lines as splitting the whole text at once, a two-character ending counting once. When no complete line is available the result is invalid and source and state are unchanged.",
["histories","inputs"],"every text over terminators and other bytes, every chunking, with and without saved state",
"tests use one or two chunk boundaries",
["strview.c"],[("eol discriminator","strview.c strview_split_line()")],VW+[("*eol","pending half of a two-character line ending","caller's variable")])
p("V04","Search finds the first/last occurrence exactly when one exists",
"Find-first (find-last) returns the leftmost (rightmost) position where the needle's bytes occur in the haystack, as a view into the haystack of the needle's length, and an invalid view exactly when there is none; an invalid haystack or needle finds nothing. The case-insensitive forms differ only in equating ASCII letters of different case, and contains agrees with find.",
["inputs"],"every haystack/needle pair including empty, equal, longer-than-haystack and overlapping occurrences, all byte values",
"tests search a few sentences; boundary positions and overlaps need systematic pairs",
["strview.c"],[("find_first/find_last","strview.c find_first(), find_last()"),("memcmp_nocase","strview.c memcmp_nocase()")],VW)
p("V05","Comparisons are exact and mutually consistent",
"Match is equality of validity and bytes, starts-with is the prefix relation, and their nocase forms equate ASCII letter case only. Compare is a total order on the bytes - bytewise unsigned, a proper prefix before the longer text - whose result is zero exactly when the bytes are equal (an invalid view counting as empty).",
["inputs"],"every pair of views (embedded zeros, bytes above 127, prefixes, empty, invalid)",
"tests compare a few ASCII words; order laws quantify over pairs and triples",
["strview.c"],[("strview_is_match*","strview.c"),("strview_compare","strview.c strview_compare()"),("strview_starts_with*","strview.c")],VW)
p("V06","Index, position and sub-view operations cut where they say",
"Sub-views clip their indexes to the text, with negative indexes counted from its end, and are invalid when the range is reversed or outside. Splitting by index, popping a character, and splitting left/right of a position return and remove exactly the named part, so that the two parts re-assemble the source; a foreign position changes nothing.",
["inputs","histories"],"every text length, every int index pair and every position view including ends, empty, foreign and invalid ones",
"tests use in-range positions mostly",
["strview.c"],[("strview_sub","strview.c strview_sub()"),("split_index","strview.c split_index()"),("strview_split_left/right","strview.c")],VW)
p("V07","Trimming and de-quoting remove exactly the outer characters named",
"Trimming removes the longest run of the given characters at the named end(s) and nothing else. De-quoting removes matching pairs of one kind of quote character (double or single) around the text, all nested levels of that kind, and leaves any other text unchanged.",
["inputs"],"every text and trim set, including all-trimmed, empty and invalid; every quote nesting",
"tests use a few examples; de-quoting ordinary words is not tried",
["strview.c"],[("strview_trim*","strview.c"),("strview_dequote","strview.c strview_dequote()")],VW)
p("V08","Conversions between views and C strings are faithful",
"A view made from a C string covers exactly its characters (invalid for a null pointer). Copying a view to a C string writes at most the given size, always terminates it when the size is non-zero, and copies the longest prefix that fits; swap exchanges two views and validity is reported truthfully.",
["inputs"],"every text, every destination size from 0 up, null destinations, empty and invalid views",
"tests use ample destinations",
["strview.c","strview.h"],[("strview_to_cstr","strview.c strview_to_cstr()"),("cstr","strview.c cstr()")],VW)
NF=["strnum.c","strnum.h"]
p("N01","Integer conversion is exact over the full range of every type",
"For every supported integer type, base and sign, a text whose value lies in the type's range converts to exactly that value and any other numeric text is reported as out of range, at any length and with any number of leading zeros.",
["inputs"],"every digit string (thousands of digits), base 2/10/16, sign, every destination type, values around every limit",
"tests try a few values per type; the digit loop changes arithmetic width along the way, and errors show only near particular magnitudes",
NF,[("consume_decimal_digits","strnum.c consume_decimal_digits()"),("range checks","strnum.c consume_signed(), consume_unsigned()"),("bin/hex digits","strnum.c consume_hex_digits(), consume_bin_digits()")])
p("N02","A failed conversion changes nothing",
"When a conversion reports an error - invalid or out of range - neither the destination nor the source view is modified, for integers and floats. An invalid or absent source is reported as invalid.",
["inputs"],"every failing input, every type and option set, null destination and null source",
"tests rarely inspect destination and source after an error",
NF,[("output only if !err","strnum.c consume_signed(), consume_unsigned(), strnum_consume_float/double/ldouble()")])
p("N03","Number syntax and consumption follow the options exactly",
"A conversion accepts exactly: leading spaces, a sign (signed types), a base prefix and digits of the base - each unless disabled or preset by options - consumes the longest such text and leaves the source at the first byte after it. Anything else is reported as invalid.",
["inputs","histories"],"every text over digits, letters, signs, prefixes, spaces and other bytes, every option combination; repeated conversion of a list",
"tests use hand-picked texts per option; combinations of options with near-miss prefixes and odd bytes are not covered",
NF,[("consume_base_prefix","strnum.c consume_base_prefix()"),("consume_sign","strnum.c consume_sign()"),("digit classes","strnum.c isbdigit(), xdigit_value()")])
p("N04","Floating-point syntax, specials, signs and consumption",
"A float conversion accepts leading spaces, a sign, then inf, infinity or nan in any case, or digits with an optional fraction and an optional exponent, each unless disabled by options, and consumes exactly that text; an 'e' not followed by a number is not consumed. Specials and signs (negative zero and negative infinity included) convert faithfully for all three types.",
["inputs"],"every text over digits, '.', 'e', signs, special words and other bytes, every option combination, all three float types",
"tests use a few well-formed numbers",
NF,[("process_float_components","strnum.c process_float_components()"),("consume_float_special","strnum.c"),("consume_exponent","strnum.c")])
p("N05","Value-returning conversions agree with the checked ones",
"Each value-returning conversion yields the value the checked conversion of the same type would store, or the given default exactly when the checked conversion fails. It never alters its caller's view, and the fixed-width functions use the range of their width.",
["inputs"],"every input, option set and default value for all 21 functions",
"tests call some of them with a few values",
NF,[("strnum_i8..strnum_ldouble","strnum.c")])
p("N06","Finite float conversions are accurate and range errors are real",
"A decimal text of any number of digits with any exponent whose value is within the normal range of the destination type converts to that value within a few units of precision; zero stays zero whatever its exponent. Out-of-range is reported exactly when the magnitude exceeds the type's range (or the exponent itself does not fit an int), and a finite text never yields a NaN or infinity.",
["inputs"],"every digit count, decimal point position and exponent whose scaling powers are representable, all three types",
"tests check a few values of ordinary magnitude; error accumulation over chunks appears only with long digit strings or extreme exponents",
NF,[("make_float_type","strnum.c make_float_type macro"),("ERANGE test","strnum.c strnum_consume_float/double/ldouble()")])
p("A01","Descriptor I/O moves every byte once, in order, under any fault pattern",
"Reading into a buffer appends exactly the bytes the descriptor delivered, at most the free space, and writing a buffer or view removes exactly the bytes the descriptor accepted; across any sequence of partial transfers, end-of-file and errors, bytes delivered equal bytes accepted plus bytes still held, in order. The descriptor's result is returned unchanged and an error or zero-length transfer changes nothing.",
["fault_sequences","histories"],"every sequence of reads, writes, grows and edits with every result the descriptor may give (error, 0, short, full)",
"accessories have no tests at all",
["accessories/strbuf_io.c","accessories/strview_io.c"],[("strbuf_append_read","accessories/strbuf_io.c"),("strbuf_write","accessories/strbuf_io.c"),("strview_write","accessories/strview_io.c")],BUF)
p("A02","Packed integers have the stated byte order and unpack to the same value",
"Packing an 8- to 64-bit integer, signed or unsigned, little- or big-endian appends exactly its two's-complement bytes in that order. Unpacking reads them back to the same value and advances the view by exactly the type's size; any sequence of packs read back by the matching sequence of unpacks yields the original values.",
["inputs","histories"],"every integer type, value, byte order and sequence of packs/unpacks",
"accessories have no tests",
["accessories/strbuf_pack.h","accessories/strview_unpack.h","accessories/xendian.h"],[("xendian_swap*","accessories/xendian.h"),("STRBUF_PACK_*","accessories/strbuf_pack.h"),("STRVIEW_UNPACK_*","accessories/strview_unpack.h")])
p("A03","Encryption is AES-256-CBC with PKCS#7, and decryption inverts it",
"Encrypting a buffer replaces its content by the AES-256-CBC encryption of the padded content under the given key and initialisation vector, and decrypting that restores the original content, for every length. Both work on dynamic buffers of any capacity and on fixed buffers with room for the result, return a view of the result, leave key and vector untouched, and leave a fixed buffer without room unchanged.",
["inputs","configurations"],"every content length (block boundaries included), key, vector, capacity slack and allocator",
"accessories have no tests",
["accessories/strbuf_crypt/strbuf_crypt.c","accessories/strbuf_crypt/aes/*"],[("strbuf_crypt","accessories/strbuf_crypt/strbuf_crypt.c"),("AES rounds","accessories/strbuf_crypt/aes/aes_enc.c, aes_dec.c, aes_keyschedule.c")],BUF)
p("A04","Decrypting malformed data is safe",
"Decrypting content that is empty, not a whole number of blocks, or whose padding is malformed leaves an empty, well-formed buffer and returns an invalid view; memory outside the buffer is never touched.",
["inputs","fault_sequences"],"every malformed ciphertext: all lengths, truncations, corruptions and wrong keys",
"accessories have no tests",
["accessories/strbuf_crypt/strbuf_crypt.c"],[("padding check","accessories/strbuf_crypt/strbuf_crypt.c dec256cbc()")],BUF)
p("X01","Operations on separate objects are independent under any interleaving",
"The library has no hidden shared state. What an operation returns and does to its objects depends only on its arguments and those objects: whatever operations on other, separate objects ran before it, or run to completion in the middle of it (from an allocator or fetcher callback, a signal handler or another thread), each of the two gives exactly the results and effects it gives when it runs alone. The one exception is a user installing a default allocator.",
["schedules","histories"],"every pair of operations on disjoint objects and every point inside the first at which the second may run",
"tests call one operation at a time on one object; a shared scratch variable only shows when a second operation runs at a particular point inside the first",
["strbuf.c","strview.c","strnum.c","accessories/strbuf_io.c","accessories/strbuf_crypt/strbuf_crypt.c","accessories/strbuf_crypt/aes/*"],[("work areas on the stack","strbuf.c insert_strview_into_buf(), append_vprintf(), cat; strnum.c consume_*; strbuf_crypt.c encdec_with_ctx_on_stack(), dec256cbc()"),("state in the objects","strbuf.h struct strbuf_t, strview.h strview_t")],BUF)
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for q in P:
            assert len(q["title"])<=80,(q["id"],len(q["title"]))
            f.write(json.dumps(q)+"\n")
    print(len(P),"properties")
