#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the texts)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
ENC=["src/encoder.cc","src/encoder_common.h","src/encoder_sse_base.h","src/encoder_avx_base.h","src/yencode.cc"]
DEC=["src/decoder.cc","src/decoder_common.h","src/decoder_sse_base.h","src/decoder_avx2_base.h","src/yencode.cc"]
CRC=["src/crc.cc","src/crc_folding.cc","src/crc_folding_256.cc","src/crc.h","src/yencode.cc","crcutil-1.0"]

p("C01","encode/encodeTo produce exactly the yEnc encoding of the data",
 "For every data Buffer, line_size from 1 to 2^31-1 and column_offset in [0, line_size], encode(data, line_size, column_offset) returns exactly the bytes the yEnc rules prescribe: every byte +42 mod 256; NUL, CR, LF and '=' always escaped; '.', TAB and SPACE escaped in the first column, TAB and SPACE also in the last column and at the very end; a CRLF whenever the column has reached line_size and more data follows. encodeTo writes the same bytes to its output and returns their count, column_offset = line_size counts as 0, and line_size = 0 as 128 (as it does for maxSize, minSize, post and multi_post).",
 ["inputs","configurations"],"all data contents and lengths, all line sizes and column offsets, buffer alignments, and every instruction-set level of the dispatch",
 "The tests compare 291 hand-picked (data, line_size, column) tuples over 48 line sizes; the space of positions of special bytes relative to line ends, vector blocks and buffer ends is not sampled, nor are larger line sizes or big inputs.",
 ENC,[("scalar encoder","src/encoder.cc do_encode_generic"),("SIMD line/escape kernels","src/encoder_sse_base.h, src/encoder_avx_base.h"),("scalar tail","src/encoder_common.h do_encode_simd")],observe=["encode","encodeTo"])
p("C02","Encoded data can always be posted: framing-safe lines, nothing forbidden",
 "For every data, line_size >= 1 and column_offset < line_size, encoder output contains no NUL and no CR or LF other than CRLF pairs that separate non-empty lines, never ends in CRLF, and every '=' is followed by exactly one escaped critical character (so '=y' never appears). Every line but the last is line_size or line_size+1 columns long (the first counted from column_offset), no line exceeds that, no line that starts in column 0 begins with '.', and no line starts or ends with TAB or SPACE.",
 ["inputs","configurations"],"all data, line sizes, column offsets and instruction-set levels",
 "Tests compare with a reference for chosen inputs only; none states the validity conditions that let a post survive NNTP transport, for all inputs.",
 ENC,[("escape tables","src/encoder.cc escapeLUT/escapedLUT"),("end-of-line handling","src/encoder_sse_base.h, src/encoder_avx_base.h")],observe=["encode output bytes"])
p("C03","Decoding an encoding returns the original data",
 "For every data and line_size, decode(encode(data, line_size)) equals data, with stripDots either true or false; the same holds through encodeTo/decodeTo, for any column_offset without dot stripping, and when NNTP dot-stuffing has been applied to the encoding and stripDots is true. Encoding never yields fewer bytes than the data and decoding never yields more bytes than its input.",
 ["inputs","configurations"],"all data, line sizes, column offsets and instruction-set levels of either side",
 "No existing test performs a round trip; encoder and decoder are each compared with a reference on sampled inputs only.",
 ENC+DEC[:4],[("inverse escape handling","encoder and decoder kernels")],observe=["encode","decode","encodeTo","decodeTo"])
p("C04","decode/decodeTo give the reference decoding of arbitrary bytes",
 "For every byte sequence - valid yEnc or not - decode(data, stripDots) returns exactly what the byte-at-a-time rule gives: CR and LF dropped, '=' removes itself and subtracts a further 64 from the next byte (a CR so escaped still counts as a CR for line detection), every other byte minus 42 mod 256; with stripDots one '.' is dropped after every CRLF and at the start. A trailing '=' yields nothing, and decodeTo writes the same bytes and returns their count.",
 ["inputs","configurations"],"all byte strings (especially malformed: '==', '=CR', CRLF. sequences at any alignment), lengths, alignments, instruction-set levels",
 "35 test patterns at a few alignments plus some random buffers; sequences straddling vector or buffer boundaries combined with malformed escapes are sampled only sparsely.",
 DEC,[("escape-run resolution","src/decoder_common.h fix_eqMask"),("boundary state between kernel and scalar parts","src/decoder_common.h _do_decode_simd"),("scalar decoder","src/decoder.cc")],observe=["decode","decodeTo"])
p("C05","Incremental decoding does not depend on how the stream is cut",
 "Splitting an article into any sequence of chunks and feeding them through decodeChunk, each call given the state returned by the previous one, yields in total the same output bytes, the same number of consumed bytes, and the same end as decoding it in one call - and, when no end occurs, the same bytes as decode(data, true). This holds whether outputs are allocated or supplied, for empty chunks, for either order of the optional arguments, and every returned state is accepted by the next call.",
 ["histories","inputs","configurations"],"all byte streams and all ways to cut them, all instruction-set levels",
 "The tests call the native incremental decoder only on whole buffers from the initial state; decodeChunk in index.js and every state carried between calls are untested.",
 DEC+["index.js"],[("state carried between calls","src/decoder.cc do_decode_end_scalar"),("state strings","index.js decodeChunk")],state=[("YencDecoderState","last characters that affect what follows","src/decoder.h")],observe=["decodeChunk results"])
p("C06","decodeChunk stops exactly at the first end marker and reports it",
 "decodeChunk reports ended=true exactly when the stream (including what its state argument says preceded) contains CRLF'=y' (possibly dot-stuffed, CRLF'.=y') or CRLF'.'CRLF, the stream's start counting as a line start: read is the offset just past the first such marker, state names its type, and the output is the decoding of what precedes it. Otherwise ended is false, read equals the input length, and state is the string of those last characters that affect what follows ('' if none, CRLF'.=' given as CRLF'='); as an argument, it may have other text before it, and CRLF'.=' is accepted for CRLF'='.",
 ["inputs","histories","configurations"],"all byte strings and start states, all marker positions relative to vector blocks and buffer ends, near-miss sequences",
 "Tests look at the output of the end-searching decoder only, not at read, ended or state, from the initial state only.",
 DEC+["index.js"],[("end search in the kernels","src/decoder_sse_base.h, src/decoder_avx2_base.h searchEnd"),("boundary cases","src/decoder_common.h _do_decode_simd switch"),("result object","index.js decodeChunk, src/yencode.cc DecodeIncr")],observe=["decodeChunk {read, written, ended, state, output}"])
p("C07","No call reads or writes memory outside the buffers it was given",
 "Encoding, decoding and CRC calculation write only within the output (of maxSize(length, line_size) bytes for encoding, of the input's length for decoding) and never touch memory pages beyond those holding the input; results that the library allocates itself are never overrun. This holds for every content - including all-escaped data with the shortest lines - length, alignment, line size, column and instruction-set level.",
 ["inputs","configurations"],"all contents, lengths, alignments, line sizes, columns, chunk states and instruction-set levels, with buffers placed against unmapped pages",
 "The tests' buffers are ordinary heap memory, where small overruns go unnoticed, and few inputs reach the maximum growth.",
 ENC+DEC[:4]+CRC[:3],[("worst-case allocation","src/yencode.cc YENC_MAX_SIZE"),("kernel look-ahead limits","INPUT_OFFSET / lenBuffer in encoder_*_base.h and decoder_common.h"),("capacity checks","src/yencode.cc EncodeTo, DecodeTo, DecodeIncr, EncodeIncr")],observe=["faults on guard pages","canaries"])
p("C08","maxSize/minSize bound the encoded size; too-small outputs are refused",
 "For every length > 0 and line_size, encode of any data of that length has between minSize and maxSize bytes, minSize is attained by data without critical characters, sizes of empty data are 0, and maxSize with an escape ratio r in [0,1] is ceil(length*(1+r)) plus 2 per line of line_size such characters plus 66 (monotone in length and ratio; other ratios throw). encodeTo refuses with an Error exactly when the output is smaller than maxSize(length, line_size), decodeTo and decodeChunk exactly when it is smaller than the input, and a refused call leaves the output untouched.",
 ["inputs"],"all lengths, line sizes, ratios, contents and output sizes, in particular one byte below and at the limit",
 "maxSize and minSize of index.js have no test at all (the tests carry their own copy), and no test passes a too-small output.",
 ["index.js","src/yencode.cc"],[("size formulas","index.js minSize, maxSize; src/yencode.cc YENC_MAX_SIZE"),("capacity checks","src/yencode.cc")],observe=["returned sizes","thrown errors","output bytes after an error"])
p("C09","In-situ decoding gives the same result as decoding to a separate buffer",
 "decodeTo(b, b, stripDots) and decodeChunk with the data Buffer as its own output return the same lengths, state and end, and leave in the buffer's first bytes the same output, as the calls with a separate output do - for every content, length, alignment and state.",
 ["inputs","configurations"],"all byte strings, alignments, states and instruction-set levels",
 "Tests run in-situ decoding for the same few patterns only, and never with state or with end detection results checked.",
 DEC,[("writes never pass the read position","decoder kernels"),("argument handling","src/yencode.cc DecodeTo, DecodeIncr")],observe=["decodeTo","decodeChunk"])
p("C10","crc32 is the IEEE CRC-32 for all data, and incremental",
 "For every data and initial value, crc32(data, initial) equals the CRC-32 (polynomial 0x04C11DB7, reflected, as in zlib) of data continued from initial, as a big-endian 4-byte Buffer. It does not depend on length, alignment or instruction set, and crc32(b, crc32(a)) = crc32(a+b) for every split.",
 ["inputs","configurations"],"all contents, lengths, alignments, initial values, splits and CRC implementations (table/crcutil, PCLMUL, VPCLMUL)",
 "37 CRC test cases with a few random buffers; most lengths, alignments and initial values are never tried.",
 CRC,[("folding","src/crc_folding.cc, src/crc_folding_256.cc"),("generic","src/crc.cc, crcutil-1.0")],observe=["crc32"])
p("C11","CRC arithmetic obeys its algebra for all operands and lengths",
 "crc32_combine(crc32(a), crc32(b), b.length) = crc32(a+b); crc32_zeroes(n, c) is the CRC after n further NUL bytes and crc32_zeroes(-n) undoes it; crc32_multiply is multiplication in GF(2)[x] modulo the CRC polynomial (commutative, associative, unit 80000000); crc32_shift(n, c) = c*x^n, inverse for negative n. All hold for every 32-bit operand and every integer length up to 2^53 in magnitude.",
 ["inputs","configurations"],"all operands, all positive, zero and negative lengths up to 2^53, all implementations of the multiplication",
 "The tests try a handful of operand values with lengths below a few thousand.",
 CRC,[("shift by squaring","src/crc.cc, src/crc_folding.cc"),("exponent reduction","src/crc.h crc32_powmod, crc32_bytepow"),("argument conversion","src/yencode.cc")],observe=["crc32_combine","crc32_zeroes","crc32_multiply","crc32_shift"])
p("C12","post and multi_post emit exactly the documented yEnc article format",
 "post(filename, data, line_size) and a one-part multi_post return '=ybegin line=L size=N name=F' CRLF, the encoding of data, CRLF '=yend size=N crc32=X'; a multi-part encoder returns '=ybegin part=P total=T line=L size=S name=F', '=ypart begin=B end=E' with 1-based inclusive offsets, the encoding, and '=yend size=N part=P pcrc32=X', with the whole file's crc32 on the last part only. F is the name without CR, LF and NUL, cut to 256 characters, in the module's configured encoding, dropping also CR, LF and NUL bytes that the encoding produces, so that no name can add or break header lines; data may be anything Buffer.from accepts.",
 ["inputs","histories"],"all file names, data values and types, line sizes, encodings, ways to split a file into parts",
 "No test covers post or multi_post.",
 ["index.js"],[("post","index.js post"),("YEncoder","index.js YEncoder"),("name sanitising","index.js RE_BADCHAR")],observe=["post","multi_post().encode"])
p("C13","A YEncoder accounts for its parts correctly over every call history",
 "Over every sequence of encode calls on a multi_post encoder, part, pos and crc always equal the number of accepted parts, the bytes accepted and the CRC32 of all bytes accepted; a call that would exceed the number of parts or the file size, or a last part that does not complete the file, throws and changes nothing, so that a correct call afterwards still succeeds. Encoders are independent of each other, and the last part's crc32 is that of the whole file.",
 ["histories"],"all sequences of valid and invalid encode calls, sizes and part counts, several encoders interleaved",
 "No test creates a YEncoder.",
 ["index.js"],[("part accounting","index.js YEncoder.prototype.encode, _encodeSingle"),("CRC chaining","crc32_combine")],state=[("part/pos/crc","progress of the posting","index.js YEncoder")],observe=["part","pos","crc","size","parts","line_size","thrown errors"])
p("C14","Posts made by the library are read back by from_post without loss",
 "For every filename, data, line size, number of non-empty parts and configured encoding (utf8 or latin1), from_post of a post made by post or multi_post returns the data, its crc32, the exact header properties as strings (white space at the end of the name aside), and offsets that delimit the parts of the article, with no warning except that the =yend line has no terminator - and none at all once CRLF is appended. The same holds with stripDots when the article was dot-stuffed, and with text before the header.",
 ["inputs","histories"],"all names, contents, line sizes, splits, encodings, prefixes and suffixes",
 "from_post is tested on five fixed posts; posting is not tested.",
 ["index.js"],[("header parsing","index.js from_post, decoderParseLines"),("posting","index.js post, YEncoder")],observe=["from_post result"])
p("C15","from_post is total and its result describes the input correctly",
 "from_post returns for every Buffer (header lines within Node's maximum string length), without throwing, either a DecoderError with one of the three documented codes or a result whose offsets satisfy 0 <= yencStart < dataStart <= dataEnd < yencEnd <= length, whose props hold exactly the tags and properties written on the header and trailer lines whatever their names (also those that objects inherit, like constructor), whose data is the decoding of data[dataStart..dataEnd) and whose crc32 is that of data (a post without any data line has none of these four). The error code follows from what is missing: no =ybegin line, no =yend line, or no line/size/name or yend size.",
 ["inputs"],"all byte strings: arbitrary garbage, mutated posts, headers from a grammar with repeated, missing, odd and hostile names and values",
 "Five fixed posts; error paths, malformed headers and unusual names are not tested.",
 ["index.js"],[("header location and parsing","index.js from_post, decoderParseLines")],observe=["from_post result and errors"])
p("C16","from_post warns about every inconsistency and only about real ones",
 "from_post's warnings contain size, pcrc32, crc32, part-number, part-range and number-format codes exactly when the header and trailer values contradict each other or the decoded data in that respect; in particular, any change of a posted article's payload that alters the decoded data is reported (data_size_mismatch, pcrc32_mismatch or crc32_mismatch). A consistent post gives no such warning; what the header and trailer lines contain beside properties, properties and lines given again, and a trailer without line end are reported too, when and only when there are any.",
 ["inputs"],"all combinations of present, absent, right and wrong header values in single- and multi-part posts; all payload corruptions",
 "Only five posts with fixed values are tested, almost all consistent.",
 ["index.js"],[("checks","index.js from_post")],observe=["warnings"])
p("C17","Results do not depend on the CPU or on the build options",
 "On every x86-64 CPU model - whichever instruction-set features it reports - and with every build option (run-time dispatch, native tuning, 256-bit AVX disabled, crcutil disabled), encoding, decoding, incremental decoding with its states, and all CRC functions give the same results, and no instruction is executed that the CPU does not report.",
 ["configurations","inputs"],"CPU feature sets (emulated), forced dispatch levels and build options, each over generated inputs",
 "Tests run on the build host and five emulated CPU models with the dispatching build only; native tuning (the default of an npm install) and other options are never built.",
 ["src/platform.cc","src/common.h","binding.gyp","src/encoder.cc","src/decoder.cc","src/crc.cc"],[("CPU detection","src/platform.cc"),("dispatch","encoder_init, decoder_init, crc32_init"),("compile-time selection","binding.gyp, *_set_native_funcs")],observe=["results under emulated CPUs and in every build variant"])
p("C18","Concurrent use from several threads gives the sequential results",
 "Any number of threads (worker_threads, each loading the addon itself) may encode, decode and compute CRCs at the same time: every call gives the result it gives alone, threads may start and end while others work, and there is no data race in the library's shared tables and dispatch pointers.",
 ["schedules","inputs"],"thread schedules (sampled by the OS and by a race detector), overlapping module loads, mixed calls",
 "All tests are single-threaded.",
 ["src/yencode.cc","src/encoder.cc","src/decoder.cc","src/crc.cc"],[("one-time initialisation","src/yencode.cc uv_once"),("no mutable shared state","all kernels")],observe=["results in threads","race detector reports"])
p("C19","Inputs are never modified, results are independent, memory is released",
 "No call changes a Buffer passed as input (data, initial CRC, operands), nor any byte of a supplied output beyond the documented output area; each returned Buffer has memory of its own that later calls, garbage collection, or changes to the inputs never alter. Repeating any call does not accumulate memory.",
 ["histories","inputs"],"all sequences of API calls with retained results and forced garbage collection",
 "Tests compare each result immediately and never look at the inputs again.",
 ["src/yencode.cc","index.js"],[("result ownership","src/yencode.cc NEW_BUFFER with free_buffer")],observe=["Buffers after later calls","resident memory"])
p("C20","Incremental encoding in pieces equals encoding in one go",
 "For line sizes up to 2^31-16, cutting the data into non-empty pieces and encoding them one after another with the incremental encoder, passing on the column it returns, yields exactly the one-shot encoding (the rule for a final TAB or SPACE applying to the last piece only where the encoder is told that it is last). The returned column is always the number of columns used on the current line.",
 ["histories","inputs","configurations"],"all data, line sizes, start columns, cuts and instruction-set levels",
 "The incremental encoder has no test.",
 ENC,[("column in and out","src/encoder.cc, src/encoder_common.h colOffset"),("native entry","src/yencode.cc EncodeIncr")],observe=["encodeIncr {written, output, col}"])
p("C21","Invalid arguments raise an Error and do no harm",
 "Calls with a missing or non-Buffer data argument, a negative line size for non-empty data, a column outside [0, line_size], CRC arguments that are not 4-byte Buffers, too few arguments, or a wrong escape ratio throw an Error (a TypeError is one), never crash the process, never modify any argument, and leave the library working; empty data is accepted everywhere and gives empty results (CRC unchanged). Optional arguments left out take their documented defaults.",
 ["inputs","histories"],"all combinations of argument kinds, counts and out-of-range values, interleaved with valid calls",
 "Tests never pass invalid or missing arguments.",
 ["src/yencode.cc","index.js"],[("argument checks","src/yencode.cc RETURN_ERROR sites"),("JS checks","index.js")],observe=["thrown errors","process survival"])
p("C22","Buffers beyond 2 GiB and 4 GiB are handled like small ones",
 "Encoding, decoding, CRC calculation, posting, from_post (wherever the header and trailer lines are) and the reported lengths stay correct when the input, the output or both exceed 2^31 or 2^32 bytes: contents, written/read counts and end positions are those of the reference, never truncated or negative.",
 ["inputs"],"sizes just below, at and above 2^31 and 2^32 bytes of input and of output",
 "No test uses more than a few hundred KB.",
 ["src/yencode.cc","src/encoder_common.h","src/decoder_common.h","src/crc_folding.cc"],[("size_t/long arithmetic","kernels"),("length conversion","src/yencode.cc return values")],observe=["encode","encodeTo","decode","decodeTo","decodeChunk","crc32"])
p("C23","ARM, RISC-V, 32-bit and big-endian builds give the same results",
 "Built for AArch64, 32-bit ARM (ARM and Thumb code), RISC-V (64 and 32 bits) and 32-bit x86, the kernels for NEON, the ARM CRC32 and PMULL instructions, RISC-V vectors (of any vector length), Zbkc and Zbc, and SSE2 to AVX512-VBMI2, and the generic code on 32-bit and on big-endian CPUs, compute the same encodings, columns, decodings (also with the output being the input), states, ends, CRC32s and CRC arithmetic as the yEnc and CRC rules, for every input and alignment; they use no instructions the system reports as missing, write only to the output area their callers provide and read no page other than those of the input.",
 ["inputs","configurations"],"all inputs and alignments; the architectures, instruction sets and vector lengths named",
 "The test suite only runs the code of the CPU it runs on, here x86-64; these sources are not even compiled.",
 ["src/encoder_neon.cc","src/decoder_neon.cc","src/decoder_neon64.cc","src/encoder_rvv.cc","src/decoder_rvv.cc","src/crc_arm.cc","src/crc_arm_pmull.cc","src/crc_riscv.cc","src/platform.cc","src/common.h","src/encoder.cc","src/decoder.cc","src/crc.cc"],[("NEON kernels","src/encoder_neon.cc, src/decoder_neon.cc, src/decoder_neon64.cc"),("RISC-V vector kernels","src/encoder_rvv.cc, src/decoder_rvv.cc"),("CRC kernels","src/crc_arm.cc, src/crc_arm_pmull.cc, src/crc_riscv.cc"),("generic code","src/encoder.cc, src/decoder.cc, src/crc.cc, src/common.h")],observe=["results of RapidYenc::encode, decode, decode_end, crc32 and crc32_* on emulated CPUs"])
p("C24","The cost of every call is proportional to the data it is given",
 "No content makes a call slow. Encoding, decoding, CRC calculation, post, multi_post parts and from_post - whatever the bytes, line size, state, the lengths of the header and trailer lines, their number of words and properties, the number of lines beginning with '=y', and the text around the article - take time at most proportional to the length of their input; encodeTo, decodeTo and decodeChunk with a supplied output do not take longer because that output is large, decodeChunk not because of bytes beyond the end marker, a call of an encoder or decoder in pieces not because of the number of pieces before it; crc32_zeroes, crc32_shift and crc32_combine take time at most proportional to the number of digits of their length argument.",
 ["inputs","histories"],"all contents, header and trailer lines, sizes, numbers of pieces",
 "Tests use short, ordinary posts; a quadratic search shows only where one line is very long.",
 ["index.js","src/yencode.cc","src/decoder_common.h","src/crc.cc"],[("parsing of header and trailer lines","index.js decoderParseLines, RE_YPROP"),("search for markers","index.js bufferFind, bufferFindRev, from_post"),("powers by repeated squaring","src/crc.cc")],observe=["processor time of calls at growing sizes"])
p("C25","Running out of memory raises an Error and does no harm",
 "If an allocation of memory fails at any point of a call of encode, decode, decodeChunk, post, from_post, the incremental encoder or a multi_post encoder, the call throws an Error or still gives its correct result: the process does not crash, no result is wrong, inputs stay as they are, nothing leaks, and the same call made afterwards succeeds. A multi_post encoder whose encode call throws, for this or any other reason, is left as it was (part, pos, crc), so that the part can be encoded again.",
 ["fault_sequences","histories"],"every call and content; every allocation of the call failing, alone or with those that follow",
 "No test makes an allocation fail.",
 ["src/yencode.cc","index.js"],[("results allocated by the addon","src/yencode.cc malloc, shrink_buffer"),("state of an encoder","index.js YEncoder.encode, _encodeSingle")],observe=["thrown errors","process survival","encoder state after a failed call"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
