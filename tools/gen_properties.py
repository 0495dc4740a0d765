#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

LZ="src/lzss_huff.rs"; AH="src/tools/adaptive_huff.rs"; NP="src/tools/node_pool.rs"; RB="src/tools/ring_buffer.rs"
PT="src/direct_ports/lzhuf.rs"; LW="src/lzw.rs"; TD="src/td0.rs"; MN="src/main.rs"; LB="src/lib.rs"

p("C01","LZSS+Huffman compression with a length header is lossless",
  "With the length header enabled, expanding the output of LZSS+Huffman compression returns exactly the original bytes, for every input including the empty one. This holds for every consistent parameter set (window from the lookahead size up to 4096, match threshold not above the lookahead or 255, any precursor byte), when the same parameters are used on both sides.",
  ["inputs","configurations"],"every byte string within the size limit; every consistent (window, lookahead, threshold, precursor)",
  "The tests round-trip two short strings and two files with the standard parameters only; the property is over all inputs and all parameter sets.",
  [LZ,AH,NP,RB],[("compress/expand","src/lzss_huff.rs: compress, expand"),("dictionary index maintenance","src/lzss_huff.rs: insert_node, delete_node; src/tools/node_pool.rs"),("window arithmetic","src/tools/ring_buffer.rs")],
  [("dictionary","sliding window, must be equal on both sides at every symbol","src/lzss_huff.rs LZSS.dictionary"),("Huffman tree","adaptive code, must be equal on both sides at every symbol","src/tools/adaptive_huff.rs")],
  ["lzss_huff::compress_slice","lzss_huff::expand_slice"])
p("C02","Headerless LZSS+Huffman expansion recovers the data plus bounded padding",
  "With the length header disabled, expanding the output of LZSS+Huffman compression returns the original bytes in full, followed by at most the few spurious bytes that the final padding bits (fewer than eight) can encode, so never more than seven. Empty input gives empty compressed data and expands to nothing.",
  ["inputs","configurations"],"every byte string; every consistent parameter set with header off",
  "Only one headerless string and two TD0 files are expanded, and the TD0 comparison deliberately ignores the last bytes.",
  [LZ,AH],[("end of stream handling","src/lzss_huff.rs: expand, decoder EOF arms"),("final partial byte","src/tools/adaptive_huff.rs: put_code")],None,["lzss_huff::compress_slice","lzss_huff::expand_slice"])
p("C03","The LZHUF direct port is lossless",
  "Decoding the output of the LZHUF direct port's encoder returns exactly the original bytes, for every input including the empty one, and the encoded stream starts with the original length as a 32-bit little-endian integer.",
  ["inputs"],"every byte string (the port has no options)",
  "The tests round-trip two short strings and two files.",
  [PT],[("encode/decode","src/direct_ports/lzhuf.rs: encode, decode"),("search tree","src/direct_ports/lzhuf.rs: insert_node, delete_node")],None,["direct_ports::lzhuf::encode_slice","direct_ports::lzhuf::decode_slice"])
p("C04","LZHUF port and LZSS+Huffman module are bit-for-bit interchangeable",
  "With standard options the LZSS+Huffman module and the LZHUF direct port produce identical compressed bytes for every input. Each one expands the other's output to exactly the original bytes.",
  ["inputs"],"every byte string",
  "The tests compare both against LZHUF.C on two short strings and two play texts; equality of two tree implementations must hold for all inputs, including binary, highly repetitive and long ones.",
  [LZ,PT,AH,NP,RB],[("match choice and tie-breaking","insert_node in both modules"),("tree rebalancing on deletion","delete_node in both modules"),("adaptive Huffman updates","update/rebuild_huff in both modules")],None,["lzss_huff::compress_slice","direct_ports::lzhuf::encode_slice"])
p("C05","Lossless for long and statistically extreme inputs",
  "LZSS+Huffman compression (rewritten module and direct port) stays lossless however many symbols are coded and however skewed their statistics are: through any number of rebuilds of the adaptive code, and for symbols whose current code is of any length. The compressed stream also decodes to the same data with an independent decoder of the format.",
  ["inputs","histories"],"inputs of tens of thousands to millions of symbols, with symbol frequencies chosen adversarially (geometric/Fibonacci weights, drift, bursts)",
  "The tests' longest input crosses the rebuild a couple of times with English text statistics; codes longer than 16 bits need adversarial frequencies that no sampled file has.",
  [AH,PT,LZ],[("rebuild at maximum frequency","rebuild_huff in src/tools/adaptive_huff.rs and src/direct_ports/lzhuf.rs"),("code emission from leaf to root","encode_char in both"),("sibling-order maintenance","update in both")],
  [("freq/parent/son/symb_map","adaptive Huffman tree as arrays ordered by frequency","src/tools/adaptive_huff.rs")],["compress_slice/expand_slice","encode_slice/decode_slice"])
p("C06","LZSS+Huffman expanders decode every conforming stream",
  "Both LZSS+Huffman expanders decode any well-formed stream of literals and (length, distance) matches to what those tokens mean, not only streams their own compressor would choose: any match length the parameters allow, any distance reaching produced data or the initial precursor-filled window, overlapping matches, and any mixture of tokens.",
  ["inputs","configurations"],"every token sequence valid for the parameters, encoded by an independent encoder",
  "Tests only expand streams from greedy encoders; distances and lengths a greedy encoder never emits, and non-standard parameters, are not reached.",
  [LZ,PT,AH,RB],[("position decoding tables","D_LEN/D_CODE, decode_position"),("match copy","expand/decode inner loop")],None,["lzss_huff::expand_slice","direct_ports::lzhuf::decode_slice"])
p("C07","LZSS+Huffman compressors emit a conforming greedy longest-match stream",
  "The output of either LZSS+Huffman compressor is a well-formed stream, decodable by an independent decoder: the exact length header when enabled, then only valid tokens, then zero padding to the next byte and nothing more. At each step the compressor emits a literal only when the searchable window has no match longer than the threshold, and otherwise a match of the greatest length available there (bounded by the lookahead and the remaining data).",
  ["inputs","configurations"],"every byte string; every consistent parameter set",
  "Byte-exact references exist for two texts with standard parameters only; a search index that loses or misplaces nodes still round-trips, so invertibility tests cannot see it.",
  [LZ,NP,RB,AH,PT],[("search index","insert_node/delete_node and node_pool::Tree"),("position encoding tables","P_LEN/P_CODE, encode_position")],None,["lzss_huff::compress_slice","direct_ports::lzhuf::encode_slice"])
p("C08","LZW compression is lossless for every consistent option set",
  "Expanding the output of LZW compression with the same options returns exactly the original bytes, for every input including the empty one and every consistent option set: code width, symbol range, bit order, chunk size, with or without clear code, stop code and chunk headers of any width that can hold the chunk's bit count. Chunks may end at any bit position.",
  ["inputs","configurations"],"every byte string over the symbol range; every consistent option set",
  "The tests round-trip one 49-byte string under four option sets, always with chunks that fit whole bytes or a single chunk.",
  [LW],[("compress/expand","src/lzw.rs: compress, expand"),("code assignment","src/lzw.rs: advance_code"),("chunk header back-patching","src/lzw.rs: compress")],
  [("dictionary","string table, one step behind in the decoder","src/lzw.rs LZW.dictionary")],["lzw::compress_slice","lzw::expand_slice"])
p("C09","LZW compressor output is exactly the greedy LZW code stream",
  "LZW compression emits exactly the codes of greedy longest-match LZW under the chosen options, as produced by an independent encoder: new codes skip reserved codes, a full table goes stale rather than being reset, the table restarts after the configured number of codes with clear code or chunk header as configured, and codes are packed in the configured bit order with zero padding.",
  ["inputs","configurations"],"every byte string over the symbol range; every consistent option set",
  "Five hand-worked byte strings of one 26-byte input; table-full, multi-chunk, and other option sets are never compared with a specification.",
  [LW],[("match building","src/lzw.rs: check_match"),("code assignment","src/lzw.rs: advance_code"),("bit packing","src/lzw.rs: put_code")],None,["lzw::compress_slice"])
p("C10","LZW expander decodes every conforming code stream",
  "LZW expansion decodes any valid code stream to what the codes mean, not only streams its own compressor emits: non-greedy code choices, clear codes or chunk ends after any number of codes, a code used in the very step that defines it, and continued use of a full table.",
  ["inputs","configurations"],"every valid code sequence under every consistent option set, produced by an independent encoder",
  "Tests expand only what this crate's compressor or Teledisk produced, with a handful of option sets.",
  [LW],[("dictionary rebuild while decoding","src/lzw.rs: expand, get_string"),("resets","clear code / chunk header handling in expand")],None,["lzw::expand_slice"])
p("C11","TD0 compression and expansion are inverse",
  "Compressing a valid normal TD0 image and expanding the result gives back the image: byte-for-byte for version 1.x, and for version 2.x byte-for-byte followed by at most seven spurious bytes. In both directions only the signature and header checksum of the 12-byte header change, signature between 'TD' and 'td', and the new checksum is correct.",
  ["inputs"],"every 10-byte header prefix with either version class, and every body",
  "Two disk images and one string are tested; version dispatch, all other header bytes and arbitrary bodies are not.",
  [TD,LW,LZ],[("header rewrite and dispatch","src/td0.rs: compress, expand"),("TD options","TD_V1_OPTIONS, TD_V2_OPTIONS")],None,["td0::compress_slice","td0::expand_slice"])
p("C12","TD0 conversion accepts only images with a valid header",
  "TD0 compression accepts an input only if it has a complete 12-byte header with signature 'TD' and a correct checksum, and expansion only with signature 'td' and a correct checksum. A wrong signature is reported as a format mismatch, a wrong checksum as a checksum failure, and a rejected input produces no output bytes.",
  ["inputs"],"every input: every signature, every header corruption, every length below 12",
  "No test feeds an invalid TD0 header.",
  [TD,LB],[("signature and CRC check","src/td0.rs: compress, expand"),("error kinds","src/lib.rs: Error")],None,["td0::compress","td0::expand"])
p("C13","Advanced TD0 bodies follow the Teledisk formats",
  "The body of an advanced TD0 image is, for version byte below 20, a sequence of chunks each preceded by a 16-bit little-endian count of 4-bit units followed by that many nibbles of 12-bit little-endian-packed LZW codes restarted per chunk of at most 4096 codes; and for version byte 20 and above, a headerless LZHUF stream. The compressor writes exactly this and the expander reads every image of this form, as judged by an independent codec.",
  ["inputs"],"every body and header; every conforming encoding of it, including chunk boundaries and parses this crate would not choose",
  "Two Teledisk files cover one encoding each; the version boundary and other chunkings are untested.",
  [TD,LW,LZ],[("TD_V1_OPTIONS / TD_V2_OPTIONS","src/td0.rs"),("dispatch on version byte","src/td0.rs: compress, expand")],None,["td0::compress_slice","td0::expand_slice"])
p("C14","Expanding arbitrary bytes never crashes or runs away",
  "Every expander (LZW, LZSS+Huffman, TD0, and the LZHUF port for a bounded declared length), given arbitrary or corrupted bytes, either returns data or returns an error. It never panics, and its output stays within what the compressed length can encode (for the port, the declared length plus less than one match).",
  ["inputs","configurations"],"every byte string, in particular mutations of valid streams",
  "No test feeds malformed compressed data.",
  [LW,LZ,TD,PT,AH],[("decode loops and EOF handling","expand/decode in each module"),("bad code checks","src/lzw.rs: expand")],None,["lzw::expand_slice","lzss_huff::expand_slice","td0::expand_slice","lzhuf::decode_slice"])
p("C15","Expanding a truncated stream never yields wrong data",
  "If a compressed stream produced by LZW, LZSS+Huffman or TD0 compression is cut short at any byte, expanding what is left either reports an error or returns a prefix of what the whole stream expands to. It never returns different bytes.",
  ["inputs","crash_points"],"every input, every cut position",
  "No test expands a truncated stream.",
  [LW,LZ,TD,AH],[("EOF arms in the decode loops","src/lzw.rs: expand; src/lzss_huff.rs: expand"),("get_bit EOF error","src/tools/adaptive_huff.rs, src/lzw.rs")],None,["expand_slice of each module"])
p("C16","Data after the end of a self-delimiting stream is ignored",
  "Streams that mark their own end (LZSS+Huffman with length header, the LZHUF port, LZW with a stop code) expand to the original data unchanged when arbitrary bytes follow them.",
  ["inputs","configurations"],"every input, every option set with header or stop code, every trailing byte string",
  "No test appends data to a stream.",
  [LZ,PT,LW],[("length test in loop","src/lzss_huff.rs: expand; src/direct_ports/lzhuf.rs: decode"),("stop code","src/lzw.rs: expand")],None,["expand_slice / decode_slice"])
p("C17","The size limit is enforced exactly",
  "LZW, LZSS+Huffman and TD0 conversion in either direction fail with the file-too-large error when the data after the input offset is larger than the configured limit, and never for that reason when it is at or below the limit. Default limits are 3,000,000 bytes after the header for TD0 and (2^32-1)/4 bytes otherwise, and a rejected LZW or LZSS+Huffman call writes nothing.",
  ["inputs","configurations"],"every (input length, offset, limit) combination around and away from the boundary",
  "No test triggers the limit.",
  [LW,LZ,TD],[("length check","compress/expand prologue in each module"),("default limits","STD_OPTIONS, TD_V1_OPTIONS, TD_V2_OPTIONS")],None,["compress/expand return value"])
p("C18","I/O failures are returned as errors",
  "If any read, write, flush or seek on the caller's streams fails during any compress or expand operation, the operation returns an error. It never panics because of the failure and never reports success.",
  ["fault_sequences","inputs"],"every operation, every input, failure injected at every stream call, of each kind",
  "Tests use healthy files and memory buffers only.",
  [LW,LZ,PT,TD,AH],[("error propagation","put_code / get_bit / compress / expand in each module")],None,["return value of compress/expand/encode/decode"])
p("C19","Results do not depend on how the streams deliver data",
  "Compression and expansion give the same bytes and the same returned sizes however the caller's streams behave within their contract: reads or writes transferring any smaller number of bytes per call, interrupted calls that must be retried, memory buffers or files, and the slice convenience functions.",
  ["inputs","schedules"],"every input and operation, every schedule of short and interrupted reads and writes",
  "Tests use only streams that transfer everything asked for.",
  [LW,LZ,PT,TD,AH],[("buffered reading and writing","BufReader/BufWriter use in each module")],None,["streams passed to compress/expand"])
p("C20","Input and output offsets only select and place the data",
  "Compressing or expanding with an input offset and an output offset gives the same bytes as handling the input's remainder on its own with zero offsets, placed at the output offset. Bytes of the output stream before the output offset are left as they were. Where the streams stand when they are handed over does not matter.",
  ["inputs","configurations"],"every input, every in/out offset within range, every method with offsets, with and without header",
  "Offsets are only exercised through TD0 with the fixed value 12.",
  [LW,LZ],[("offset seeks","compress/expand in src/lzw.rs and src/lzss_huff.rs"),("length loop","src/lzss_huff.rs: expand")],None,["output stream content"])
p("C21","Returned sizes are exact, also over existing output",
  "Every successful compress or expand call returns the number of input bytes it covered and the number of output bytes it produced. This holds also when the output stream already has longer content: the produced bytes are the same as on a fresh stream, the output size is their number, and bytes after them are untouched.",
  ["inputs","configurations","histories"],"every input and operation, every pre-existing output content",
  "No test looks at the returned sizes or writes into an existing stream.",
  [LW,LZ,PT,TD],[("size computation","end of compress/expand in each module")],None,["(in_size,out_size)","output stream content"])
p("C22","The command line tool does what the library does",
  "For each method the compress and expand commands write exactly the bytes the corresponding library function produces with standard options and exit with success. When the operation fails (bad TD0 image, invalid codes, missing input, unknown method) they exit with failure, and a missing input leaves the output path as it was.",
  ["inputs","configurations"],"every input file, method and direction",
  "Eight fixed file runs; no failing run, no LZW run, no empty or arbitrary input.",
  [MN],[("method dispatch","src/main.rs: main")],None,["process exit status","output file"])
p("C23","Overwriting an existing file needs consent and replaces it exactly",
  "When the output path exists the tool replaces it only if the answer is 'y' or 'Y'; with any other answer (including none) the file stays unchanged. After a successful overwrite the file holds exactly the new output, with nothing left of older, longer content, whatever sequence of commands came before, and also when the file is the input itself.",
  ["histories","inputs"],"every sequence of compress/expand commands over a set of paths with every answer",
  "No test runs the tool on an existing output path.",
  [MN,LW,LZ,PT],[("prompt","src/main.rs: ok_to_overwrite"),("set_len after writing","src/main.rs: main")],None,["files after each command"])
p("C24","The TD0 checksum is the CRC-16 of the format",
  "The checksum function equals the CRC-16 with polynomial 0xA097, most significant bit first, no reflection and no final inversion, for every seed and buffer. It can be computed piecewise by passing the previous result as seed, and any change to a buffer confined to 16 consecutive bits changes it.",
  ["inputs"],"every seed, every buffer, every split, every error burst up to 16 bits",
  "The checksum is only used on its own outputs and two headers.",
  [TD],[("crc16","src/td0.rs: crc16")],None,["td0::crc16"])
p("C25","Every call is independent of other calls",
  "The result of any compression or expansion depends only on its input and options: not on calls made before (including failed ones), on calls running at the same time in other threads, or on repetition.",
  ["histories","schedules"],"every sequence of operations over all methods, repeated and run concurrently",
  "Each test makes one or two calls in a fixed order.",
  [LW,LZ,PT,TD,AH,NP,RB],[("per-call state","structures created in each compress/expand")],None,["return values of repeated and concurrent calls"])
p("C26","LZW expansion rejects codes that have no meaning",
  "If an LZW stream contains a code that is neither assigned, nor reserved, nor the one being defined at that step (including as the first code after a start or reset), expansion fails with a format mismatch error. It never panics or makes up data for such a code.",
  ["inputs","configurations"],"every valid stream with an unassigned code injected at any position, every consistent option set",
  "No test feeds an invalid LZW code.",
  [LW],[("unknown code arm","src/lzw.rs: expand")],None,["lzw::expand_slice error"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
