#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the two stay in step)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, tech="model-based property testing (stateful histories, shrinking, ASan)"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, tech=tech))

prop("C01", "Strings behave as plain byte sequences under any history of edits",
 "After any sequence of string operations (copying, adding, inserting, formatting, removing, replacing, trimming, reversing, searching, comparing, reading from a stream), every string holds exactly the bytes, length and terminating null that the same operations give on an abstract byte sequence, including when a string is an operand of its own operation. Queries answer what the abstract sequence answers, refused operations leave the string as it was, and no operation touches memory outside of the string or loses memory.",
 ["histories","inputs"], "all histories of public string calls on constructed, never-set and heap strings, with any operands (empty, self, out-of-range indices)",
 "The unit test runs one fixed script and prints; it asserts nothing about the bytes, self-operands, indices at the ends or memory.",
 ["str/str.c","str/str.h"], [("string editing and query calls","str/str.c")],
 "Histories of up to 60 calls against a byte-string model, under AddressSanitizer with leak accounting; one to three strings per history, lengths mostly below a few hundred bytes.")
prop("C02", "Arrays behave as element sequences and never exceed their capacity",
 "After any sequence of array operations (adding, inserting, setting, deleting, popping, shifting, resizing, copying, swapping, reversing, shuffling), an array holds exactly the elements, in the order, that the same operations give on an abstract sequence; its length never exceeds its capacity and refused operations change nothing.",
 ["histories","inputs"], "all histories of public array calls, all element sizes, any indices and counts",
 "The unit test uses a handful of ints in one script; capacity changes in the middle of histories, other element sizes and extreme counts never occur.",
 ["array/array.c","array/array.h"], [("array insertion, deletion, shifting, resizing","array/array.c")],
 "Histories of up to 80 calls with element sizes 1..40 against a sequence model, under AddressSanitizer.")
prop("C03", "Byte buffers keep exactly the bytes written, also through files",
 "After any sequence of writes, insertions, deletions, concatenations and resizes a byte buffer holds exactly the bytes that the same calls give on an abstract byte sequence, and multi-byte integers and texts occupy the documented number of bytes. Writing a buffer to a stream and reading it back gives the same bytes; refused calls change nothing and no memory outside of the buffer is touched.",
 ["histories","inputs"], "all histories of public byte-buffer calls incl. going through files",
 "The unit test inserts a few constants once and prints them.",
 ["bytebuffer/bytebuffer.c","bytebuffer/bytebuffer.h"], [("inserting, deleting, file reading and writing","bytebuffer/bytebuffer.c")],
 "Histories of up to 60 calls against a byte model, files in a private scratch directory.")
prop("C04", "Maps are insertion-ordered dictionaries, whatever the collisions",
 "After any sequence of insertions, replacements, removals and rehashes, looking a key up finds the value last stored under it and only that, keys never stored or since removed are not found, and the entries keep their insertion order and positions. This holds for any byte-string keys, any collisions, any initial capacity and any hash seed, and growth never loses, duplicates or reorders an entry.",
 ["histories","inputs","configurations"], "all histories of public map calls; all keys (colliding ones included), initial capacities and hash seeds",
 "The unit test inserts few keys; collisions, removal in the middle of a probe chain, growth after removal and other hash seeds are never combined.",
 ["map/map.c","map/map.h"], [("open addressing, removal, rehash","map/map.c")],
 "Histories of up to 120 calls against an ordered dictionary; every key and index is looked up after each change; hash seeds are generated.")
prop("C05", "Deques keep order from both ends and their handles stay valid",
 "After any sequence of appends, prepends, pops and resets, walking a deque from either end visits exactly the live values in order, each neighbour link agrees in both directions and the reported size is their number. A handle keeps naming its value until that value is popped, however the deque grows or reuses slots in between; when memory runs out the call is refused and nothing changes.",
 ["histories","fault_sequences"], "all histories of public deque calls from any initial size, with allocation failures at any point",
 "The unit test makes a few appends and pops; slot reuse, growth while full and failing allocations do not occur.",
 ["deque/deque.c","deque/deque.h"], [("node free list, growth, linking","deque/deque.c")],
 "Histories of up to 150 calls against a list model with injected allocation failures.")
prop("C06", "Tuples lay their members out as the C compiler lays out a struct",
 "For any list of member sizes a tuple places its members in order, without overlap, aligned and padded as a C struct of those members (or back to back when packed), and reports the matching total size. Writing one member changes only that member; reading and exporting give back exactly what was written.",
 ["inputs","histories"], "all lists of member sizes, packed or not, and all histories of member writes",
 "The unit test checks three fixed structs.",
 ["tuple/tuple.c","tuple/tuple.h"], [("field layout and padding","tuple/tuple.c")],
 "Generated layouts compared with an independent computation and with six real C structs.", "property testing against an independent layout computation and real structs (ASan, shrinking)")
prop("C07", "Trees keep every subtree exactly as built",
 "After any sequence of inserting, removing, replacing and clearing children, every node of a tree has exactly the children, in the order, and the value bytes that the same calls give on an abstract tree; removing a child releases all of its descendants and nothing else. Lookup by value or by position finds a child exactly when it exists, and a refused call changes nothing.",
 ["histories","inputs","fault_sequences"], "all histories of public tree calls on any node, values of any size, allocation failures at any point",
 "The unit test builds one small tree.",
 ["tree/tree.c","tree/tree.h"], [("children table, value storage, recursive release","tree/tree.c")],
 "Histories of up to 120 calls against a model tree compared in full after every call.")
prop("C08", "Variants own an exact, independent copy of their value",
 "A variant always returns exactly the bytes, size and tag last stored in it, independently of the memory it was set from (even when that memory is its own) and of every other variant. Replacing a value by one of any other size keeps this true and releases the old one; a refused replacement leaves the old value.",
 ["histories","inputs","fault_sequences"], "all histories of sets and clears on several variants, all value sizes, allocation failures at any point",
 "The unit test stores a few scalars once.",
 ["variant/variant.c","variant/variant.h"], [("value replacement","variant/variant.c")],
 "Histories of up to 40 calls on 1..4 variants against byte copies, with injected allocation failures.")
prop("C09", "Arena blocks are aligned, inside the arena and never overlap",
 "Every block handed out by a region or a double-ended stack lies wholly inside its memory, is aligned to a machine word (a region also zeroes it) and overlaps no other live block, from either end and whatever the mix of sizes. A request is refused exactly when it cannot fit (huge sizes included), the reported margin is what can still be handed out, and resetting one end frees that end only. An arena without memory (of size 0, refused by the heap, cleared) refuses every request, and a resize the heap refuses changes nothing.",
 ["histories","inputs"], "all histories of requests, resets and resizes on arenas of any size over own or caller's memory",
 "The unit tests make a few small requests on large arenas; exhaustion, both ends meeting, unaligned arena sizes and huge requests do not occur.",
 ["allocators/region/region.c","allocators/bistack/bistack.c"], [("bump allocation and margins","allocators/region/region.c"),("front and back allocation","allocators/bistack/bistack.c")],
 "Histories of up to 80 calls on arenas of 1..2000 bytes; every live block carries a pattern verified after each call.")
prop("C10", "Object pools hand each slot to one owner at a time",
 "Every object handed out by an object pool is a distinct, whole, zeroed, aligned slot of the pool until it is freed; the pool hands out exactly as many objects as it was made for, again and again, in whatever order they are freed. Freeing a pointer that is not one of its objects is refused and changes nothing.",
 ["histories","inputs"], "all histories of allocations and frees, all object sizes and counts, own or caller's memory",
 "The unit test allocates and frees a fixed few objects in order.",
 ["allocators/objpool/objpool.c","allocators/objpool/objpool.h"], [("free-slot list inside the objects","allocators/objpool/objpool.c")],
 "Histories of up to 200 calls on pools of 1..40 objects; a pattern in every live object is verified after each call.")
prop("C11", "Memory pools never overlap live blocks and get all memory back",
 "Every block handed out by a memory pool lies inside it, is aligned, and overlaps no other live block however blocks are freed, coalesced, reused or resized; resizing keeps the contents up to the smaller size. Released neighbours of the same size, or both large, merge and can be had as one block. Once all blocks are freed, in any order, the pool offers as much memory as at the start; foreign pointers are refused.",
 ["histories","inputs"], "all histories of allocation, release and resizing with any sizes and orders, own or caller's memory",
 "The memory pool's own test does not even build in this repository; nothing exercises it.",
 ["allocators/mempool/mempool.c","allocators/mempool/mempool.h"], [("free list, buckets, coalescing","allocators/mempool/mempool.c")],
 "Histories of up to 200 calls on pools of 64..6000 bytes; patterns in every live block are verified after each call.")
prop("C12", "UTF-8 coding round-trips and malformed UTF-8 is never overrun",
 "Every Unicode scalar value is encoded to its standard UTF-8 bytes and decoded back to itself, by every coder, counter and iterator of the library, through memory and streams; exactly the code points up to the Unicode maximum outside of the surrogates count as valid. Reading truncated or arbitrary bytes never touches memory beyond the terminating null and always makes progress.",
 ["inputs"], "all sequences of scalar values, all malformed byte strings, all buffer sizes",
 "The unit tests print one fixed text.",
 ["lex/lex.c","lex/lex.h","str/str.c"], [("UTF-8 encoder, decoder, validity","lex/lex.c"),("reading runes from a stream","lex/lex.c"),("rune text stored in strings","str/str.c")],
 "Compared with an independently written coder on generated scalar sequences; malformed text lies in exact-size memory under AddressSanitizer.", "differential and round-trip property testing (ASan, shrinking)")
prop("C13", "Number lexers recognise C and Go literals exactly",
 "Given any well-formed C or Go number literal followed by any delimiter, the number lexers consume exactly that literal, return its text, classify it as integer or floating point, and its conversion gives its exact value, digit separators included. Literals malformed in one of the diagnosed ways are reported with that diagnosis.",
 ["inputs"], "all well-formed literals of both grammars, all delimiters, all single-way malformations",
 "The unit test lexes a dozen fixed literals.",
 ["lex/lex.c","lex/lex.h"], [("number lexers per base","lex/lex.c"),("conversion of lexed numbers","lex/lex.c")],
 "Literals are derived from the grammars together with their value; C float literals with leading zeros and hex integers directly followed by a sign are outside of the domain (documented by the code as other tokens/errors).", "grammar-based property testing against values computed from the derivation (ASan, shrinking)")
prop("C14", "Integer logarithms, digit counts and numeral conversions are exact",
 "For every 64-bit value and every base, the logarithm, digit-count and log-table helpers agree with repeated exact division, at powers of the base and their neighbours too. Converting a numeral written in any alphabet gives its exact value; a character outside of the alphabet ends the conversion, which reports it and gives the value before it.",
 ["inputs"], "all values and bases; all alphabets, numerals and foreign characters",
 "The unit tests use a few small values in base 2 and 10.",
 ["harbol_common_includes.h","lex/lex.c"], [("log, digit count and rounding helpers","harbol_common_includes.h"),("numeral conversion (convert_*)","lex/lex.c")],
 "Values are concentrated around powers of the base, checked by repeated division.", "property testing against exact repeated division (shrinking)")
prop("C15", "String literals, comments and words are delimited and decoded exactly",
 "String literals in C and Go style yield exactly the bytes their text denotes (plain characters, every kind of escape, Unicode escapes in UTF-8) and end just behind the closing quote; comments, multi-character-quoted texts, identifiers and line ends are delimited exactly as written, and skipped lines are counted right. Malformed escapes, missing quotes and texts cut short are reported with the matching diagnosis and never read past the end.",
 ["inputs"], "all literals, comments, words and line ends, followed by arbitrary text",
 "The unit test lexes a few fixed texts.",
 ["lex/lex.c","lex/lex.h"], [("string literal and escape lexers","lex/lex.c"),("comment and identifier lexers","lex/lex.c")],
 "Texts are assembled next to their value and placed in exact-size memory.", "grammar-based property testing against values assembled with the text (ASan, shrinking)")
prop("C16", "Lexing any text is memory-safe, makes progress and reports known errors",
 "Whatever null-terminated text they are given, at whatever position, the lexing and skipping functions read and write only that text's memory, return a position inside the text not before where they started, and report success or one of the documented errors, each of which has a message. A tokenizer built from them reaches the end of every text.",
 ["inputs"], "all null-terminated byte strings and start positions",
 "The unit test feeds well-formed text only.",
 ["lex/lex.c","lex/lex.h"], [("all lexing and skipping functions","lex/lex.c")],
 "Token soup and random bytes in exact-size memory under AddressSanitizer, steered by coverage.", "coverage-guided fuzzing with position/progress invariants (ASan, shrinking)")
prop("C17", "Math expressions evaluate as their grammar says",
 "Any expression of the documented grammar evaluates to the value its derivation denotes: precedence, associativity, both kinds of brackets, unary signs, the predefined constants and functions, and names and functions supplied by the caller, with any spacing. Evaluating arbitrary text, however long or deeply nested, ends without touching memory outside of it, exhausting the stack or changing it.",
 ["inputs"], "all expressions of the grammar (nested up to some hundred deep), all texts",
 "The unit test evaluates a few fixed expressions and prints the results.",
 ["math/math_parser.c","math/math_parser.h"], [("recursive-descent evaluator","math/math_parser.c"),("predefined names","math/math_parser.c")],
 "Expressions are evaluated next to their derivation (relative tolerance 1e-12); brackets and calls nested more than about 1000 deep are refused (an unspecified value); signs are not limited.", "grammar-based differential property testing (ASan, shrinking)")

exec(open(os.path.join(HERE, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more_props.py")) else None

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
              "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    m = {"version": 1, "setup_cmd": "mkdir -p build evidence replays",
         "hooks": {"guard": "HARBOL_VERIF", "enable": "no hooks were needed: the checks compile the unchanged sources of /repo with -include engine/shim.h, which redirects allocation, time and randomness", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "env VERIF_TIER=thorough python3 run.py " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "exploration",
                     "level_note": p["note"] + " Exploration: it shows the absence of violations among the generated cases only."} for p in P],
         "not_applicable": [],
         "notes": "Every check is a generated-input search (random and coverage-guided mutation of recorded choice sequences) with shrinking; see DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
main()
