#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is reviewable)."""
import json, os
ALLB = ["v1/buffer.go", "v1/minibuf.go", "v2/buffer.go", "v2/minibuf.go",
        "v3/_buffer.go", "v3/_minibuf.go", "v3/buffer.generated.go", "v3/minibuf.generated.go"]
BUFS = ["v1/buffer.go", "v2/buffer.go", "v3/_buffer.go", "v3/buffer.generated.go"]
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

STATE = [("contents", "the byte sequence held by the buffer", "field buf of Buffer / MiniBuffer"),
         ("cursors", "current byte position and current bit position", "fields off, boff"),
         ("capacities", "cached byte and bit capacity", "fields cap, bcap")]

prop("C01", "Integer and raw-byte writes store exactly the declared bytes",
 "In every version (v1, v2, v3) and for both Buffer and MiniBuffer, writing a list of raw bytes or of 16/32/64-bit integers at an in-range position stores each element's bytes in the requested byte order, back to back in list order starting at that position, whatever the values, signs, list length, alignment and buffer size. No byte outside that range changes. An empty list is accepted and changes nothing.",
 ["inputs", "histories"], "every contents, position, element type, byte order, list length (including 0) and element value that fits in the buffer",
 "Tests write one or two fixed small values at offset 0 of a fixed buffer; they never look at the neighbouring bytes, at long lists, at unaligned offsets or at empty lists.",
 ALLB + ["generation/complex.go"],
 [("typed write loops", "v1 writeComplex/write; v2 write*, v3 Write*{LE,BE}"), ("generated loops", "generation/complex.go")], STATE,
 ["WriteByte*", "WriteBytes*", "WriteU*/WriteI*", "WriteComplex*", "Bytes"])

prop("C02", "Integer and raw-byte reads return exactly the stored bytes",
 "In every version and for both buffer kinds, reading n raw bytes or n 16/32/64-bit integers (n may be 0) at an in-range position yields exactly the n elements obtained by decoding consecutive stored bytes in the requested byte order, with full width and sign. Reading never changes the buffer's contents. A MiniBuffer read that fills a caller-supplied result list overwrites exactly its first n elements and leaves the remaining elements untouched.",
 ["inputs", "histories"], "every contents, position, element type, byte order and count, and every prior content of the caller's result variable",
 "Tests decode one or two fixed values with mostly zero high bytes into a fresh result; sign/width mistakes, index mistakes at later elements and stale results are never exercised.",
 ALLB + ["generation/complex.go"],
 [("typed read loops", "v1 readComplex; v2 read*; v3 Read*{LE,BE}"), ("generated loops", "generation/complex.go")], STATE,
 ["ReadByte*", "ReadBytes*", "ReadU*/ReadI*", "ReadComplex*"])

prop("C03", "Floats are stored and read back bit-exactly",
 "In v3, for both buffer kinds, both widths and both byte orders, writing floating-point numbers stores their IEEE-754 bit patterns in the requested byte order at consecutive positions and touches nothing else, and reading returns numbers with exactly the stored bit patterns. This holds for every bit pattern, including signed zeros, subnormals, infinities and NaNs with any payload, and for empty lists.",
 ["inputs"], "every 32-bit and 64-bit pattern, position, list length and byte order",
 "Tests use a single ordinary constant per width, so NaN payloads, sign bits, subnormals, multi-element lists and unaligned positions are never exercised.",
 ["v3/buffer.generated.go", "v3/minibuf.generated.go", "generation/complex.go"],
 [("unsafe bit reinterpretation", "v3 Write/ReadF{32,64}{LE,BE}")], STATE, ["WriteF*", "ReadF*"])

prop("C04", "A bit offset always denotes one fixed bit, most significant first",
 "In every version and for both buffer kinds, bit offset i denotes the bit of weight 2^(7 - i mod 8) of byte i div 8, for reading as for writing. Setting, clearing or flipping one bit changes that bit to the requested value and no other bit of the buffer, and reading a bit changes nothing; bytes written through the byte operations are what the bit operations see, and vice versa.",
 ["inputs", "histories"], "every contents and every in-range bit offset, under every interleaving of bit and byte operations",
 "Tests touch one bit of an all-zero or near-zero buffer; a wrong mask, index or side effect on other bits needs other offsets and contents to show.",
 ALLB, [("shift/mask on byte off/8", "readbit/setbit/flipbit; ReadBit/SetBit/ClearBit/FlipBit")], STATE,
 ["ReadBit*", "SetBit*", "ClearBit*", "FlipBit*", "Bytes"])

prop("C05", "Multi-bit fields are exact at any offset and width",
 "In every version and for both buffer kinds, reading n bits at an in-range bit offset returns the number whose n binary digits are those bits, first bit most significant, independent of what the result variable held before; writing n bits stores the n low-order binary digits of the value, most significant first, and changes no other bit. This holds for every offset, alignment and width from 0 to 64, a width of 0 reading as 0 and writing nothing.",
 ["inputs", "histories"], "every contents, bit offset, width 0..64, value (including values wider than the field) and prior content of the result variable",
 "Tests use widths 3 and 8 on two offsets with a zeroed result; width 0, width 64, byte-crossing fields, over-wide values and reused result variables are never exercised.",
 ALLB, [("per-bit loops", "readbits/setbits; ReadBits/SetBits")], STATE, ["ReadBits*", "SetBits*"])

prop("C06", "Checked buffers reject every out-of-range access and nothing else",
 "Every read, write or bit operation of the checked Buffer (all versions) any part of which lies outside the buffer panics with the library's error for that case: overread/overwrite when it extends past the end, underread/underwrite when it starts before 0 (either one when both apply), also for positions and counts so large that their sum or product does not fit in 64 bits. Invalid bit values (v1, v2), invalid integer sizes (v1) and negative grow or truncate counts (v3) are rejected with their own errors. An operation that lies fully inside the buffer is never rejected.",
 ["inputs", "histories"], "every buffer size, cursor position, offset, count and element width, after every history of resizing",
 "Each panic test uses one far-out-of-range constant; off-by-one limits, widths larger than one byte, limits after grow/truncate/reset, and arithmetic overflow are not exercised.",
 BUFS + ["v1/errors.go", "v2/errors.go", "v3/errors.go", "generation/complex.go"],
 [("bounds checks", "the over/under checks at the head of every checked operation"), ("cached capacity", "refresh/Refresh")], STATE,
 ["all Buffer operations"])

prop("C07", "A call that panics has no effect and never wedges the buffer",
 "When any operation of the checked Buffer panics, the contents, both capacities and both positions are exactly what they were before the call, even for multi-byte and multi-bit operations that are only partly out of range. The buffer stays fully usable after the panic is recovered: no later call blocks or misbehaves because of it.",
 ["inputs", "histories", "fault_sequences"], "every rejected call, at every point of every history of accepted and rejected calls",
 "The panic tests stop at the panic; none inspects the buffer afterwards or calls it again, so partial writes, moved cursors and locks left held are invisible.",
 BUFS, [("check before write", "head of each operation"), ("cursor moved after the access", "*Next operations"), ("deferred unlock", "v1/v2 Buffer")], STATE,
 ["recover() after each call, then all getters and further calls"])

prop("C08", "Cursor operations act at the cursor and move it by exactly the amount used",
 "In every version and for both buffer kinds, a '...Next' operation has exactly the effect and result of its positional form at the current position and then advances the corresponding position (byte or bit) by exactly the bytes or bits it transferred; positional operations and failed calls move neither position, and the byte and bit positions never affect each other except through the two align operations. Seeking sets or offsets a position, aligning sets bit position = 8 * byte position or byte position = bit position div 8, and the remaining-amount queries return capacity - position - 1 for the current or the given position (the first, if several are given).",
 ["histories", "inputs"], "every sequence of positional, cursor, seek and align operations, of every element width and list length",
 "Most Next tests make one call and look at the data only, so a wrong advance, a cursor moved by a positional call, or cross-talk between the two cursors survives them.",
 ALLB + ["generation/complex.go"],
 [("Next wrappers", "*Next methods"), ("seek/align", "SeekByte/Seek, SeekBit, AlignBit, AlignByte, After*")], STATE,
 ["ByteOffset/Offset", "BitOffset", "After*"])

prop("C09", "Reported capacities always match the contents",
 "After any sequence of operations, in every version and for both buffer kinds, the reported byte capacity equals the number of bytes the buffer exposes and the reported bit capacity is exactly eight times that. Refreshing never changes anything observable. No operation other than grow, truncate and reset changes the capacity.",
 ["histories"], "every history of construction, growth, truncation, reset, refresh, reads and writes",
 "Tests look at the capacity after a single Grow, Truncate or Reset; staleness needs particular multi-step histories (e.g. truncate, then in-place grow, then reset).",
 ALLB, [("cached statistics", "refresh/Refresh and every resize path")], STATE,
 ["ByteCapacity/Capacity", "BitCapacity", "Bytes"])

prop("C10", "Growing, truncating and resetting keep the right bytes",
 "Growing by n bytes keeps every existing byte in place and appends exactly n zero bytes, whatever the buffer held in the past; truncating on the left (right) by n, with n up to the size, removes exactly the first (last) n bytes and keeps the others in order; resetting leaves an empty buffer with both positions 0. None of grow and truncate moves either position. This holds in every version that has the operation, for both buffer kinds, after any history.",
 ["histories", "inputs"], "every history mixing grow, truncate and reset (including growth into storage retained from earlier truncation or reset), every n including 0 and the whole size",
 "Tests grow a fresh zero buffer once and check the capacity only; contents after growth into reused storage, and repeated resize histories, are never checked.",
 ALLB, [("in-place growth or reallocation", "grow/Grow"), ("reslicing", "TruncateLeft/TruncateRight, Reset/reset")], STATE,
 ["Grow", "TruncateLeft", "TruncateRight", "Reset"])

prop("C11", "Ownership of storage: what is shared and what is copied",
 "A buffer built from one slice uses that slice as its storage (changes are visible both ways while it is not resized), a buffer built from several slices holds their concatenation in its own storage and never modifies or is affected by them, and a buffer built from none is empty. The internal-bytes accessor exposes the live storage, so later in-place changes of the buffer show in it. Data handed to write operations and lists of 16-, 32- and 64-bit values returned by reads are copies: later changes to them do not alter the buffer and vice versa, and raw bytes that are taken from the buffer's own storage and written back at another place arrive as they were when the call was made, however the two places overlap.",
 ["histories", "inputs"], "every number, length and spare capacity of input slices, and every later history of changes on either side",
 "Tests build from one literal and never change an input, a result or the buffer afterwards, so wrong aliasing in either direction is invisible to them.",
 ALLB, [("constructors", "NewBuffer, NewMiniBuffer"), ("fresh result slices", "typed reads")], STATE,
 ["NewBuffer", "NewMiniBuffer", "Bytes", "typed reads and writes"])

prop("C12", "MiniBuffer behaves exactly like Buffer on in-range operations",
 "For every history of operations that stay in range, a MiniBuffer and a Buffer of the same version that start with the same contents produce the same results, the same contents, the same positions and the same capacities after every operation, so that one can be substituted for the other.",
 ["histories", "inputs"], "every history of in-range operations applied in lockstep to both kinds",
 "The two kinds are tested separately, each with a few literals, and never against each other.",
 ALLB + ["generation/complex.go"], [("parallel implementations", "buffer and minibuf sources of each version")], STATE,
 ["every operation both kinds offer"])

prop("C13", "v1 and v2 Buffer are safe for concurrent use",
 "When several goroutines use one v1 or v2 Buffer at the same time, every call takes effect atomically: the results and the final contents, capacities and positions are those of some sequential order of the calls that respects each goroutine's order and real time - for example, concurrent '...Next' calls never consume or overwrite the same position twice. No interleaving loses an update, deadlocks, or is a data race between two calls on the buffer.",
 ["schedules", "histories"], "every interleaving of calls by several goroutines, at the granularity of individual reads and writes of the buffer's state",
 "No existing test starts a goroutine; the guarantee is about schedules.",
 ["v1/buffer.go", "v2/buffer.go"], [("embedded mutex held for the whole call", "public methods of v1/v2 Buffer")], STATE + [("lock", "the buffer's mutex", "embedded sync.Mutex")],
 ["results of concurrent calls and final state"], None)

prop("C14", "v1/v2 MiniBuffer can be used under its own lock",
 "Every v1/v2 MiniBuffer operation can be called by a goroutine that holds the buffer's own lock: it neither blocks on, acquires nor releases that lock, whether it returns or panics. Hence goroutines that bracket their calls with the buffer's Lock and Unlock get mutual exclusion for the whole bracketed section.",
 ["schedules", "histories"], "every operation, every bracketed group of operations and every interleaving of such groups",
 "No existing test takes the lock.",
 ["v1/minibuf.go", "v2/minibuf.go"], [("methods that do not touch the embedded mutex", "all MiniBuffer methods")], STATE + [("lock", "the buffer's mutex", "embedded sync.Mutex")],
 ["Lock", "Unlock", "TryLock around every call"])

prop("C15", "Code regenerated from the v3 templates is equivalent to the shipped code",
 "Running the repository's generator over the v3 templates produces a v3 package that compiles, offers the same operations as the shipped one, and behaves exactly like it: every operation of the regenerated Buffer and MiniBuffer has the same results, effects and rejections for every input as the contract the shipped package follows.",
 ["programs", "inputs", "histories"], "every generator directive and template line, and every input of every operation of the regenerated package",
 "The existing tests only exercise the checked-in generated files; the generator and the templates are not even run by them.",
 ["generation/main.go", "generation/complex.go", "v3/_buffer.go", "v3/_minibuf.go", "v3/buffer.generated.go", "v3/minibuf.generated.go"],
 [("code generation", "GenerateComplex"), ("templates", "v3/_*.go")], None, ["generator run, then every operation of the generated package"])

prop("C16", "Generator output depends only on the templates",
 "Running the generator on a directory writes, for each template '_x.go' (x beginning with neither '_' nor '.'), exactly one file 'x.generated.go' whose content is the template with every valid directive line replaced by the positional and the '...Next' operation it names and every invalid directive replaced by a comment, all other text kept verbatim (a directive is the form with its five single-spaced arguments alone on its line, from the first character to the last: anything before or after it, a carriage return included, makes the line text). The outcome does not depend on what was in the directory before (absent, longer, shorter or stale outputs, other files), repeating the run changes nothing, and templates and unrelated files are never modified. A template that cannot be read is left out (its output stays as it was) and one whose output cannot be written does not keep the others from being written; a run that asks for no known kind of generation, or whose directory does not exist, changes nothing.",
 ["inputs", "histories", "configurations"], "every set of templates, directives (valid and invalid), and pre-existing files, and every sequence of runs and edits",
 "The generator has no tests at all.",
 ["generation/main.go", "generation/complex.go"], [("directive expansion", "GenerateComplex"), ("output writing", "generation/main.go")],
 [("directory", "the files before and after a run", "working directory of the generator")], ["files in the directory after each run"])

prop("C17", "A reset buffer is indistinguishable from a new one",
 "In v2 and v3, for both buffer kinds, a buffer that has been reset behaves in every later history exactly like a newly constructed empty buffer: same results, contents, capacities, positions and rejections, no matter what it contained or how it was used before the reset.",
 ["histories"], "every history before the reset and every history after it",
 "Tests check the capacity right after one reset; leftovers (old bytes, positions, cached sizes) only show in particular later histories.",
 ["v2/buffer.go", "v2/minibuf.go", "v3/_buffer.go", "v3/_minibuf.go", "v3/buffer.generated.go", "v3/minibuf.generated.go"],
 [("reset", "Reset/reset"), ("growth into retained storage", "grow/Grow")], STATE, ["Reset followed by any operations"])

prop("C18", "Whole-buffer bit operations hit every bit exactly once",
 "In every version and for both buffer kinds, clearing, setting or flipping all bits makes every bit 0, every bit 1, or the complement of what it was, over exactly the buffer's current contents - also when the buffer is empty or has just been grown, truncated or reset - and changes neither capacities nor positions nor any storage outside the buffer's contents.",
 ["inputs", "histories"], "every contents and size including the empty buffer, after every resize history",
 "Tests use one four-byte buffer; empty buffers and resized buffers are never exercised.",
 ALLB, [("byte loops", "clearallbits/setallbits/flipallbits; ClearAllBits/SetAllBits/FlipAllBits")], STATE,
 ["ClearAllBits", "SetAllBits", "FlipAllBits", "Bytes"])

prop("C19", "Separate buffers never influence each other",
 "Buffers of any version and kind that were not built from the same or overlapping storage are independent: in every interleaving of constructions and operations (including rejected ones, resizing and resetting) on several buffers, each buffer gives exactly the results and shows exactly the contents, capacities and positions it would if the others did not exist, an operation on one buffer never changes another one or a list of values returned by an earlier typed read of another one, and goroutines that each use buffers of their own need no synchronisation: they get the same results and there is no data race.",
 ["histories", "schedules"], "every interleaving of histories of several buffers, in one goroutine or in several",
 "Every existing test uses one buffer at a time, in one goroutine.",
 ALLB, [("per-buffer storage, no package-level mutable state", "constructors, grow/Grow, reset/Reset, typed reads, conversion temporaries")], STATE,
 ["any operation on one buffer, then every other buffer"])

prop("C20", "Calls touch only the memory they are granted",
 "In every version and for both buffer kinds (for MiniBuffer: in-range operations), no call reads or writes memory outside the buffer's storage and the lists handed to it, not even temporarily or without a visible effect, so it makes no difference whether storage or a list begins or ends where mapped memory does; apart from the resizing calls, no call touches what lies between the contents and the storage's capacity. Calls that read, query or move positions, calls that write nothing (an empty list, no bits) and calls that are rejected never write to the storage; no call writes to a list of values it is given to store, to positions passed to a remaining-amount query, or to the slices a buffer is built from when there are several, and such a buffer never touches those slices again. Storage that is only read, and every such list or slice, may therefore be a read-only mapping or be read by others meanwhile.",
 ["inputs", "histories"], "every placement and size of storage and lists relative to the memory around them, every call and its arguments",
 "Tests use heap slices with room around them that the process may read and write; a byte read too many or written and put back leaves no trace in any result.",
 ALLB, [("word-sized loads and stores, unsafe", "typed reads and writes, ReadBits/SetBits, WriteBytes"), ("in-place conversions", "typed writes and reads"), ("several slices", "NewBuffer/NewMiniBuffer")], STATE,
 ["memory faults of calls made behind fences (unmapped or read-only pages)", "the outcome of the same call on plain memory"])

prop("C21", "Calls cost only what they handle, and keep nothing",
 "In every version and for both buffer kinds (for MiniBuffer: in-range operations), the memory a call allocates and the time it takes are bounded in proportion to the amount of data it is asked to transfer (list elements, bits; all of the contents for the whole-buffer bit operations; the slices a buffer is built from when there are several), plus, for resizing calls, the amount added and the largest size the buffer has had - never to the size of the buffer a small call works on, the positions it works at or the number of calls made before, and rejected calls are no exception. Between calls nothing is kept but the storage of the buffers in use: memory in use does not grow with the number of calls that do not enlarge a buffer; lists handed over or returned, slices a buffer was built from when there were several, storage a buffer has moved out of, and buffers that were dropped, with their storage, can be collected while other buffers and calls go on; and no call leaves a goroutine running. How growth is amortised is not promised.",
 ["inputs", "histories"], "every call and its arguments, on buffers of every size, after every number of calls of every kind",
 "Tests make a few calls on buffers of a few bytes, where a copy of all of the contents or a value kept per call costs nothing that shows in a result.",
 ALLB, [("in-place access", "typed reads and writes, bit fields, queries"), ("storage", "grow/Grow, reset/Reset, TruncateLeft/TruncateRight, constructors")], STATE,
 ["allocation, time, memory in use and collectability around calls"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
