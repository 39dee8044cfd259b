// Property-based test driver for the yencode kernels: links the production objects of a build of /repo,
// forces every dispatch level, generates structured inputs, checks them against model.h or metamorphic
// relations, shrinks failures and writes a replay file.
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <pthread.h>
#include <limits.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>
#ifdef REMOTE
# include "remote.h"
#else
# include "common.h"
# include "encoder.h"
# include "encoder_common.h"
# include "decoder.h"
# include "crc.h"
#endif
#include "model.h"

using namespace RapidYenc;

// ------------------------------------------------------------------------------------------------ dispatch control
#ifndef REMOTE
static int g_isa = 0, g_crcIsa = 0;
#ifndef REAL_DISPATCH
namespace RapidYenc { // the linker takes these instead of platform.cc's
	int cpu_supports_isa() { return g_isa; }
	int cpu_supports_crc_isa() { return g_crcIsa; }
}
#endif
struct Isa { const char* name; int isa, crc; bool generic; };
static std::vector<Isa> g_isas;
static size_t (*g_encGeneric)(int, int*, const unsigned char* HEDLEY_RESTRICT, unsigned char* HEDLEY_RESTRICT, size_t, int);
static YencDecoderEnd (*g_decG)(const unsigned char**, unsigned char**, size_t, YencDecoderState*);
static YencDecoderEnd (*g_decRawG)(const unsigned char**, unsigned char**, size_t, YencDecoderState*);
static YencDecoderEnd (*g_decEndG)(const unsigned char**, unsigned char**, size_t, YencDecoderState*);
static crc_func g_crcG; static crc_mul_func g_shiftG, g_mulG;
static int g_curIsa = -1;

static void listIsas() {
#ifdef REAL_DISPATCH
	g_isas.push_back(Isa{"dispatched", 0, 0, false});
#else
	__builtin_cpu_init();
	bool ssse3=__builtin_cpu_supports("ssse3"), sse41=__builtin_cpu_supports("sse4.1"), pop=__builtin_cpu_supports("popcnt"),
		avx=__builtin_cpu_supports("avx"), avx2=__builtin_cpu_supports("avx2") && __builtin_cpu_supports("bmi") && __builtin_cpu_supports("bmi2"),
		bw=__builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512vl"), vbmi2=bw && __builtin_cpu_supports("avx512vbmi2"),
		clmul=__builtin_cpu_supports("pclmul") && sse41, vclmul=__builtin_cpu_supports("vpclmulqdq") && avx2;
	g_isas.push_back(Isa{"generic", 0, 0, true});
	g_isas.push_back(Isa{"sse2", ISA_LEVEL_SSE2, 0, false});
	if(pop) g_isas.push_back(Isa{"sse2+popcnt", ISA_LEVEL_SSE2|ISA_FEATURE_POPCNT, 0, false});
	if(ssse3) g_isas.push_back(Isa{"ssse3", ISA_LEVEL_SSSE3, clmul?1:0, false});
	if(sse41 && pop) g_isas.push_back(Isa{"sse4.1+popcnt", ISA_LEVEL_SSE4_POPCNT, clmul?1:0, false});
	if(avx) g_isas.push_back(Isa{"avx", ISA_LEVEL_AVX, clmul?1:0, false});
	if(avx2) g_isas.push_back(Isa{"avx2", ISA_LEVEL_AVX2, vclmul?2:clmul?1:0, false});
	if(bw) g_isas.push_back(Isa{"avx3", ISA_LEVEL_AVX3|ISA_FEATURE_EVEX512, vclmul?2:clmul?1:0, false});
	if(vbmi2) g_isas.push_back(Isa{"vbmi2", ISA_LEVEL_VBMI2|ISA_FEATURE_EVEX512, vclmul?2:clmul?1:0, false});
#endif
}
static void saveGeneric() {
	g_encGeneric = _do_encode; g_decG = _do_decode; g_decRawG = _do_decode_raw; g_decEndG = _do_decode_end_raw;
	g_crcG = _do_crc32_incremental; g_shiftG = _crc32_shift; g_mulG = _crc32_multiply;
}
static void setIsa(int k) {
	if(k == g_curIsa) return;
	g_curIsa = k;
	const Isa& I = g_isas[k];
	g_isa = I.isa; g_crcIsa = I.crc;
	_do_encode = g_encGeneric; _do_decode = g_decG; _do_decode_raw = g_decRawG; _do_decode_end_raw = g_decEndG;
	_do_crc32_incremental = g_crcG; _crc32_shift = g_shiftG; _crc32_multiply = g_mulG;
	crc32_init();
	if(I.generic) return;
	encoder_init();
	decoder_init();
}
#endif

// ------------------------------------------------------------------------------------------------ random numbers
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed): s(seed) {}
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z>>30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z>>27)) * 0x94D049BB133111EBull; return z ^ (z>>31); }
	uint32_t below(uint32_t n) { return n ? (uint32_t)(((next()>>32) * (uint64_t)n) >> 32) : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b-a+1)); }
	bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b*0xD6E8FEB86659FD93ull)); r.next(); return r.next(); }

// ------------------------------------------------------------------------------------------------ cases
enum Kind { K_ENC, K_DEC, K_STREAM, K_CRC, K_ALG, K_INCR, K_KINDS };
static const char* kindName[] = {"enc","dec","stream","crc","alg","incr"};
struct Case {
	int kind; int isa;
	int64_t ls, col;        // encoder
	int raw, state;         // decoder
	int sa, da, mode;       // alignments; placement mode: 0 slack, 1 flush right, 2 flush left
	uint32_t init, b; int64_t n; // crc
	std::vector<uint32_t> cuts;
	Bytes data;
	Case(): kind(0), isa(0), ls(128), col(0), raw(0), state(0), sa(0), da(0), mode(0), init(0), b(0), n(0) {}
};
static std::string hex(const Bytes& b, size_t max=(size_t)-1) {
	static const char* d="0123456789abcdef"; std::string s;
	for(size_t i=0;i<b.size() && i<max;i++) { s+=d[b[i]>>4]; s+=d[b[i]&15]; }
	if(b.size()>max) s += "..";
	return s;
}
static std::string ser(const Case& c, size_t maxData=(size_t)-1) {
	char buf[512];
	snprintf(buf, sizeof buf, "kind=%s isa=%s ls=%lld col=%lld raw=%d state=%d sa=%d da=%d mode=%d init=%08x b=%08x n=%lld cuts=", kindName[c.kind], g_isas[c.isa].name,
		(long long)c.ls, (long long)c.col, c.raw, c.state, c.sa, c.da, c.mode, c.init, c.b, (long long)c.n);
	std::string s = buf;
	for(size_t i=0;i<c.cuts.size();i++) { if(i) s+=','; s+=std::to_string(c.cuts[i]); if(maxData!=(size_t)-1 && i>20) { s+=",.."; break; } }
	s += " len=" + std::to_string(c.data.size()) + " data=" + hex(c.data, maxData);
	return s;
}
static bool parseCase(const std::string& line, Case& c) {
	std::map<std::string,std::string> m; size_t i=0;
	while(i<line.size()) {
		size_t e=line.find('=', i), sp=line.find(' ', i);
		if(e==std::string::npos) break;
		if(sp==std::string::npos) sp=line.size();
		m[line.substr(i,e-i)] = line.substr(e+1, sp-e-1); i=sp+1;
	}
	c.kind=-1; for(int k=0;k<K_KINDS;k++) if(m["kind"]==kindName[k]) c.kind=k;
	c.isa=-1; for(size_t k=0;k<g_isas.size();k++) if(m["isa"]==g_isas[k].name) c.isa=k;
	if(c.kind<0) return false;
	if(c.isa<0) c.isa = g_isas.size()-1;
	c.ls=atoll(m["ls"].c_str()); c.col=atoll(m["col"].c_str()); c.raw=atoi(m["raw"].c_str()); c.state=atoi(m["state"].c_str());
	c.sa=atoi(m["sa"].c_str()); c.da=atoi(m["da"].c_str()); c.mode=atoi(m["mode"].c_str());
	c.init=strtoul(m["init"].c_str(),0,16); c.b=strtoul(m["b"].c_str(),0,16); c.n=atoll(m["n"].c_str());
	const std::string& cu=m["cuts"]; size_t p=0;
	while(p<cu.size()) { c.cuts.push_back(strtoul(cu.c_str()+p,0,10)); p=cu.find(',',p); if(p==std::string::npos) break; p++; }
	const std::string& h=m["data"];
	for(size_t k=0;k+1<h.size();k+=2) c.data.push_back((uint8_t)strtoul(h.substr(k,2).c_str(),0,16));
	return true;
}

// ------------------------------------------------------------------------------------------------ memory placement
struct Arena { // [guard][size][guard]
	uint8_t* base; size_t size;
	void init(size_t sz) {
		size = (sz + 4095) & ~(size_t)4095;
		uint8_t* m = (uint8_t*)mmap(NULL, size + 65536*2, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		if(m == MAP_FAILED) { perror("mmap"); _exit(3); }
		base = m + 65536;
		if(mprotect(base, size, PROT_READ|PROT_WRITE)) { perror("mprotect"); _exit(3); }
#ifdef REMOTE
		int k = g_fd[0] < 0 ? 0 : 1; g_fd[k] = memfd_create("arena", MFD_CLOEXEC); if(g_fd[k]<0 || ftruncate(g_fd[k],size) || mmap(base,size,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,g_fd[k],0)!=base) { perror("memfd"); _exit(3); }
		g_base[k] = base; g_asize = size;
#endif
		memset(base, 0xA5, size < (1u<<20) ? size : (1u<<20));
	}
	// memory for len bytes; mode 1 ends at the guard page, 2 starts at it, 0 lies inside with slack on both sides
	uint8_t* place(size_t len, int mode, unsigned align) {
		if(len + 16384 > size) { fprintf(stderr, "harness: case too big (%zu)\n", len); _exit(3); }
		if(mode == 1) return base + size - len;
		if(mode == 2) return base;
		return base + 8192 + (align & 4095);
	}
};
static Arena A_src, A_dst, A_tmp;
static const size_t ARENA = 24u<<20;
static const uint8_t CANARY = 0xA5;

// ------------------------------------------------------------------------------------------------ running the code under test
static std::string g_msg; // why the last check failed
static bool fail(const char* fmt, ...) __attribute__((format(printf,1,2)));
static bool fail(const char* fmt, ...) {
	char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); g_msg = b; return false;
}
static void fillCanary(uint8_t* p, size_t n) { memset(p, CANARY, n); }
static bool canaryOk(const uint8_t* p, size_t n) { for(size_t i=0;i<n;i++) if(p[i]!=CANARY) return false; return true; }
static const size_t CAN = 192;

static bool g_checkMem = false; // canaries and guard placement are judged (memory property only)

// one encode call; result appended to out
static bool runEnc(const uint8_t* data, size_t len, long ls, int& col, bool doEnd, const Case& c, Bytes& out, uint8_t* given=NULL) {
	if(!len) return true; // the addon never calls the kernels with empty data
	uint8_t* s = given ? given : A_src.place(len, c.mode, c.sa);
	if(!given) memcpy(s, data, len);
	size_t cap = modelMaxSize(len, ls);
	size_t room = g_checkMem ? cap : cap + 4096;
	uint8_t* d = A_dst.place(room, c.mode, c.da);
	size_t before = std::min((size_t)CAN, (size_t)(d - A_dst.base)), after = std::min((size_t)CAN, (size_t)(A_dst.base + A_dst.size - (d + room)));
	if(g_checkMem) { fillCanary(d-before, before); fillCanary(d+room, after); }
	size_t n = encode((int)ls, &col, s, d, len, doEnd);
	if(g_checkMem) {
		if(n > cap) return fail("encode returned %zu bytes, more than maxSize %zu", n, cap);
		if(!canaryOk(d-before, before)) return fail("encode wrote before its output");
		if(!canaryOk(d+room, after)) return fail("encode wrote beyond maxSize(%zu, %ld)=%zu bytes of output", len, ls, cap);
	}
	if(n > room) return fail("encode returned %zu bytes, more than maxSize %zu", n, cap);
	out.insert(out.end(), d, d+n);
	return true;
}
static bool runDec(const Bytes& data, bool raw, const Case& c, Bytes& out, bool insitu=false) {
	size_t len = data.size();
	if(!len) { out.clear(); return true; }
	uint8_t* s = A_src.place(len, c.mode, c.sa);
	if(len) memcpy(s, data.data(), len);
	size_t room = g_checkMem ? len : len + 4096;
	uint8_t* d = insitu ? s : A_dst.place(room, c.mode, c.da);
	size_t before=0, after=0;
	if(g_checkMem) {
		Arena& A = insitu ? A_src : A_dst;
		before = std::min((size_t)CAN, (size_t)(d - A.base)); after = std::min((size_t)CAN, (size_t)(A.base + A.size - (d + room)));
		fillCanary(d-before, before); fillCanary(d+room, after);
	}
	size_t n = decode(raw, s, d, len, NULL);
	if(n > len) return fail("decode returned %zu bytes for %zu bytes of input", n, len);
	if(g_checkMem) {
		if(!canaryOk(d-before, before)) return fail("decode wrote before its output");
		if(!canaryOk(d+room, after)) return fail("decode wrote beyond %zu bytes of output", len);
	}
	out.assign(d, d+n);
	return true;
}
struct EndRes { int end; size_t read; int state; };
static bool runDecEnd(const uint8_t* data, size_t len, int state, const Case& c, Bytes& out, EndRes& r, bool insitu=false, uint8_t* given=NULL) {
	uint8_t* s = given ? given : A_src.place(len, c.mode, c.sa);
	if(len && !given) memcpy(s, data, len);
	size_t room = g_checkMem ? len : len + 4096;
	uint8_t* d = insitu ? s : A_dst.place(room, c.mode, c.da);
	size_t before=0, after=0;
	if(g_checkMem) {
		Arena& A = insitu ? A_src : A_dst;
		before = std::min((size_t)CAN, (size_t)(d - A.base)); after = std::min((size_t)CAN, (size_t)(A.base + A.size - (d + room)));
		fillCanary(d-before, before); fillCanary(d+room, after);
	}
	const void* sp = s; void* dp = d;
	YencDecoderState st = (YencDecoderState)state;
	YencDecoderEnd e = decode_end(&sp, &dp, len, &st);
	size_t n = (uint8_t*)dp - d;
	r.end = e==YDEC_END_CONTROL ? ME_CONTROL : e==YDEC_END_ARTICLE ? ME_ARTICLE : e==YDEC_END_NONE ? ME_NONE : 99;
	r.read = (const uint8_t*)sp - s;
	r.state = st;
	if(n > len) return fail("decoder advanced its output by %zu bytes for %zu bytes of input", n, len);
	if(r.read > len) return fail("decoder advanced its input by %zu of %zu bytes", r.read, len);
	if(g_checkMem) {
		if(!canaryOk(d-before, before)) return fail("decoder wrote before its output");
		if(!canaryOk(d+room, after)) return fail("decoder wrote beyond %zu bytes of output", len);
	}
	out.insert(out.end(), d, d+n);
	return true;
}
static int toYState(int m) {
	static const int t[] = {YDEC_STATE_CRLF, YDEC_STATE_EQ, YDEC_STATE_CR, YDEC_STATE_NONE, YDEC_STATE_CRLFDT, YDEC_STATE_CRLFDTCR, YDEC_STATE_CRLFEQ};
	return t[m];
}
static const char* stName(int s) {
	switch(s) { case YDEC_STATE_CRLF: return "CRLF"; case YDEC_STATE_EQ: return "="; case YDEC_STATE_CR: return "CR"; case YDEC_STATE_NONE: return "none";
		case YDEC_STATE_CRLFDT: return "CRLF."; case YDEC_STATE_CRLFDTCR: return "CRLF.CR"; case YDEC_STATE_CRLFEQ: return "CRLF="; } return "?";
}
static bool diff(const char* what, const Bytes& got, const Bytes& want) {
	if(got == want) return true;
	size_t i=0; while(i<got.size() && i<want.size() && got[i]==want[i]) i++;
	return fail("%s differs: got %zu bytes, expected %zu, first difference at %zu (got %s, expected %s)", what, got.size(), want.size(), i,
		i<got.size()?hex(Bytes(got.begin()+i, got.begin()+std::min(got.size(),i+8))).c_str():"end", i<want.size()?hex(Bytes(want.begin()+i, want.begin()+std::min(want.size(),i+8))).c_str():"end");
}

// ------------------------------------------------------------------------------------------------ the properties
struct Stats {
	uint64_t evals; std::map<std::string,uint64_t> cls; std::vector<uint64_t> hashes; std::vector<std::string> samples;
	Stats(): evals(0) {}
};
// C01
static bool p_encode(const Case& c, Bytes& out) {
	int col = (int)c.col;
	if(!runEnc(c.data.data(), c.data.size(), c.ls, col, true, c, out)) return false;
	Bytes want; long mc = (long)c.col;
	modelEncode(c.data.data(), c.data.size(), (long)c.ls, mc, true, want);
	return diff("encoding", out, want);
}
// C02: validity of the output alone
static bool p_valid(const Case& c, Bytes& out) {
	int col = (int)c.col;
	if(!runEnc(c.data.data(), c.data.size(), c.ls, col, true, c, out)) return false;
	size_t i=0, cols=(size_t)c.col, lineStart=0; bool atCol0 = c.col==0; size_t payload=0;
	const size_t n = out.size();
	if(c.data.empty()) return n==0 || fail("empty data gives %zu bytes", n);
	if(n == 0) return fail("no output for %zu bytes", c.data.size());
	bool first = true;
	while(i<n) {
		uint8_t ch = out[i];
		if(ch == 0) return fail("NUL at %zu", i);
		if(ch == '\n') return fail("LF without CR at %zu", i);
		if(ch == '\r') {
			if(i+1>=n || out[i+1]!='\n') return fail("CR without LF at %zu", i);
			if(i == lineStart && !(first && c.col>0)) return fail("empty line at %zu", i);
			if(i == lineStart && first && (int64_t)cols < c.ls) return fail("empty first line");
			if(i > lineStart && (out[i-1]==' ' || out[i-1]=='\t') ) return fail("line ends in TAB/SPACE at %zu", i);
			if((int64_t)cols != c.ls && (int64_t)cols != c.ls+1) return fail("line ending at %zu is %zu columns long, line size %lld", i, cols, (long long)c.ls);
			i += 2; lineStart = i; cols = 0; atCol0 = true; first = false;
			if(i>=n) return fail("output ends in CRLF");
			continue;
		}
		if(atCol0 && i==lineStart) {
			if(ch=='.') return fail("line starts with '.' at %zu", i);
			if(ch==' ' || ch=='\t') return fail("line starts with TAB/SPACE at %zu", i);
		}
		if((int64_t)cols >= c.ls) return fail("column %zu written on a line of size %lld at %zu", cols, (long long)c.ls, i);
		if(ch == '=') {
			if(++i>=n) return fail("output ends in '='");
			uint8_t e = (uint8_t)(out[i]-64);
			if(!(e==0 || e==9 || e==10 || e==13 || e==32 || e=='.' || e=='=')) return fail("'=' followed by %02x at %zu, which is no escaped critical character", out[i], i);
			if(out[i]=='y') return fail("'=y' at %zu", i);
			cols += 2; i++;
		} else { cols++; i++; }
		payload++;
	}
	if(out[n-1]==' ' || out[n-1]=='\t') return fail("output ends in TAB/SPACE");
	if(payload != c.data.size()) return fail("%zu bytes encoded as %zu characters", c.data.size(), payload);
	return true;
}
// C03
static bool p_roundtrip(const Case& c, Bytes& out) {
	int col = (int)c.col;
	if(!runEnc(c.data.data(), c.data.size(), c.ls, col, true, c, out)) return false;
	if(out.size() < c.data.size()) return fail("encoding of %zu bytes has only %zu", c.data.size(), out.size());
	Bytes dec;
	if(!runDec(out, false, c, dec) || !diff("decode(encode(x))", dec, c.data)) return false;
	if(c.col == 0) {
		if(!runDec(out, true, c, dec) || !diff("decode(encode(x), stripDots)", dec, c.data)) return false;
		EndRes r; dec.clear();
		if(!runDecEnd(out.data(), out.size(), YDEC_STATE_CRLF, c, dec, r)) return false;
		if(r.end != ME_NONE || (c.data.size() && r.read != out.size())) return fail("end marker reported inside encoded data (end %d, read %zu of %zu)", r.end, r.read, out.size());
		if(!diff("incremental decode of encode(x)", dec, c.data)) return false;
	}
	// dot stuffing as an NNTP transmitter applies it (first line taken to start the article)
	Bytes st;
	for(size_t i=0;i<out.size();i++) {
		if(out[i]=='.' && (i==0 || (i>=2 && out[i-2]=='\r' && out[i-1]=='\n'))) st.push_back('.');
		st.push_back(out[i]);
	}
	if(!runDec(st, true, c, dec) || !diff("decode(dotstuffed(encode(x)), stripDots)", dec, c.data)) return false;
	return true;
}
// C04
static bool p_decode(const Case& c, Bytes& out) {
	if(!runDec(c.data, c.raw, c, out)) return false;
	Bytes want; MState st = c.raw ? M_CRLF : M_NONE; size_t rd;
	modelDecode(c.data.data(), c.data.size(), c.raw, false, st, want, rd);
	return diff(c.raw ? "decoding (stripDots)" : "decoding", out, want);
}
// streaming: cuts are chunk lengths; what remains is the last chunk
static bool streamImpl(const Case& c, Bytes& out, EndRes& R, size_t& total, bool insitu) {
	size_t pos=0; int st = toYState(c.state); total = 0; R.end = ME_NONE; R.state = st; R.read = 0;
	Case cc = c;
	for(size_t k=0; pos<c.data.size(); k++) {
		size_t n = k<c.cuts.size() ? std::min((size_t)c.cuts[k], c.data.size()-pos) : c.data.size()-pos;
		if(n == 0) continue; // the JS layer handles empty chunks
		cc.sa = c.sa + (int)k*7; cc.da = c.da + (int)k*5;
		EndRes r;
		if(!runDecEnd(c.data.data()+pos, n, st, cc, out, r, insitu)) return false;
		if(r.end == ME_NONE && r.read != n) return fail("chunk at %zu: read %zu of %zu although no end was reported", pos, r.read, n);
		pos += r.read; total = pos; st = r.state; R = r;
		if(r.end != ME_NONE) break;
	}
	return true;
}
// C05: cut streams against one call of the same code (and decode without an end)
static bool p_chunks(const Case& c, Bytes& out) {
	Bytes one; EndRes r1={ME_NONE,0,toYState(c.state)}, r2; size_t total;
	if(c.data.size()) { if(!runDecEnd(c.data.data(), c.data.size(), toYState(c.state), c, one, r1)) return false; }
	if(!streamImpl(c, out, r2, total, c.b&1)) return false;
	if(!diff("output of the chunked stream", out, one)) return false;
	if(r1.end != r2.end) return fail("end differs: chunked %d, whole %d", r2.end, r1.end);
	if(total != r1.read) return fail("consumed bytes differ: chunked %zu, whole %zu", total, r1.read);
	if(c.data.size() && r1.state != r2.state) return fail("state differs: chunked %s, whole %s", stName(r2.state), stName(r1.state));
	if(r1.end == ME_NONE && c.state == M_CRLF) {
		Bytes d; if(!runDec(c.data, true, c, d) || !diff("decode(x, stripDots) against the stream", d, one)) return false;
	}
	return true;
}
// C06: against the model, one call and in pieces
static bool p_end(const Case& c, Bytes& out) {
	Bytes want; MState ms = (MState)c.state; size_t rd;
	MEnd me = modelDecode(c.data.data(), c.data.size(), true, true, ms, want, rd);
	EndRes r; size_t total;
	if(!streamImpl(c, out, r, total, false)) return false;
	if(r.end != me) return fail("end %d reported, expected %d (at %zu)", r.end, me, rd);
	if(total != rd) return fail("read is %zu, expected %zu", total, rd);
	if(!diff("output", out, want)) return false;
	if(c.data.size() && me == ME_NONE && r.state != toYState(ms)) return fail("state %s, expected %s", stName(r.state), stName(toYState(ms)));
	return true;
}
// C09
static bool p_insitu(const Case& c, Bytes& out) {
	Bytes sep;
	if(c.kind == K_DEC) {
		if(!runDec(c.data, c.raw, c, sep) || !runDec(c.data, c.raw, c, out, true)) return false;
		return diff("in-situ decoding", out, sep);
	}
	EndRes a={0,0,0}, b={0,0,0};
	if(c.data.empty()) return true;
	if(!runDecEnd(c.data.data(), c.data.size(), toYState(c.state), c, sep, a) || !runDecEnd(c.data.data(), c.data.size(), toYState(c.state), c, out, b, true)) return false;
	if(a.end!=b.end || a.read!=b.read || a.state!=b.state) return fail("in-situ: end %d read %zu state %s, separate: end %d read %zu state %s", b.end, b.read, stName(b.state), a.end, a.read, stName(a.state));
	return diff("in-situ incremental decoding", out, sep);
}
// C10
static bool p_crc(const Case& c, Bytes& out) {
	size_t len = c.data.size();
	uint8_t* s = A_src.place(len, c.mode, c.sa);
	if(len) memcpy(s, c.data.data(), len);
	uint32_t want = modelCrc(c.data.data(), len, c.init);
	uint32_t got = crc32(s, len, c.init);
	out.assign((uint8_t*)&got, (uint8_t*)&got+4);
	if(got != want) return fail("crc32 is %08x, expected %08x (length %zu, initial %08x)", got, want, len, c.init);
	size_t pos=0; uint32_t x = c.init;
	for(size_t k=0; k<=c.cuts.size(); k++) {
		size_t n = k<c.cuts.size() ? std::min((size_t)c.cuts[k], len-pos) : len-pos;
		x = crc32(s+pos, n, x); pos += n;
	}
	if(x != want) return fail("crc32 in pieces is %08x, expected %08x", x, want);
	return true;
}
// C11
static bool p_alg(const Case& c, Bytes& out) {
	uint32_t a=c.init, b=c.b, got, want; int64_t n=c.n; uint64_t m = n<0 ? (uint64_t)-n : (uint64_t)n;
	got = crc32_multiply(a, b); want = mMul(a, b);
	out.assign((uint8_t*)&got, (uint8_t*)&got+4);
	if(got != want) return fail("multiply(%08x, %08x) is %08x, expected %08x", a, b, got, want);
	got = crc32_combine(a, b, m); want = mMul(a, mXpow((__int128)m*8)) ^ b;
	if(got != want) return fail("combine(%08x, %08x, %llu) is %08x, expected %08x", a, b, (unsigned long long)m, got, want);
	got = crc32_zeros(a, m); want = ~mMul(~a, mXpow((__int128)m*8));
	if(got != want) return fail("zeros(%08x, %llu) is %08x, expected %08x", a, (unsigned long long)m, got, want);
	got = crc32_unzero(a, m); want = ~mMul(~a, mXpow(-(__int128)m*8));
	if(got != want) return fail("unzero(%08x, %llu) is %08x, expected %08x", a, (unsigned long long)m, got, want);
	got = crc32_shift(a, n<0 ? ~crc32_powmod(m) : crc32_powmod(m)); want = mMul(a, mXpow(n));
	if(got != want) return fail("shift(%08x, %lld) is %08x, expected %08x", a, (long long)n, got, want);
	size_t cut = c.data.size() ? c.cuts.empty() ? c.data.size()/2 : std::min((size_t)c.cuts[0], c.data.size()) : 0;
	uint32_t ca = crc32(c.data.data(), cut, 0), cb = crc32(c.data.data()+cut, c.data.size()-cut, 0), cw = crc32(c.data.data(), c.data.size(), 0);
	got = crc32_combine(ca, cb, c.data.size()-cut);
	if(got != cw) return fail("combine of two crcs is %08x, crc of the whole %08x (cut %zu of %zu)", got, cw, cut, c.data.size());
	return true;
}
// C20
static bool p_incr(const Case& c, Bytes& out) {
	Bytes one; int col1 = (int)c.col, col = (int)c.col;
	bool fin = c.b & 1; // whether the last piece is encoded as last
	if(c.data.empty()) return true;
	if(!runEnc(c.data.data(), c.data.size(), c.ls, col1, fin, c, one)) return false;
	size_t pos=0; Case cc=c;
	for(size_t k=0; pos<c.data.size(); k++) {
		size_t n = k<c.cuts.size() ? std::min((size_t)c.cuts[k], c.data.size()-pos) : c.data.size()-pos;
		if(n==0) continue;
		cc.sa = c.sa + (int)k*3; cc.da = c.da + (int)k*11;
		size_t o0 = out.size();
		bool last = pos+n >= c.data.size();
		if(!runEnc(c.data.data()+pos, n, c.ls, col, fin && last, cc, out)) return false;
		pos += n;
		(void)o0;
		// columns on the last line so far
		size_t e = out.size(), cnt = 0; bool nl=false;
		while(e>0) { if(e>=2 && out[e-1]=='\n') { nl=true; break; } cnt++; e--; }
		int64_t wantCol = (nl ? 0 : c.col) + (int64_t)cnt;
		if(wantCol != col) return fail("column %d reported after %zu bytes, the line has %lld", col, pos, (long long)wantCol);
	}
	return diff("encoding in pieces", out, one);
}

// ------------------------------------------------------------------------------------------------ generators
static const uint8_t SPECIAL[] = {(uint8_t)(0-42),(uint8_t)(10-42),(uint8_t)(13-42),(uint8_t)('='-42),(uint8_t)(9-42),(uint8_t)(32-42),(uint8_t)('.'-42)};
static uint8_t special(Rng& r) {
	if(r.chance(1,8)) { // near misses: one bit or one step away from a critical character
		uint8_t s = SPECIAL[r.below(7)];
		switch(r.below(4)) { case 0: return s+1; case 1: return s-1; case 2: return s ^ (1<<r.below(8)); default: return s+64; }
	}
	return SPECIAL[r.below(7)];
}
static uint8_t plainByte(Rng& r) { for(;;) { uint8_t b=(uint8_t)r.next(); if(!memchr(SPECIAL, b, 7)) return b; } }
static size_t g_hugeLen=0; // set while a case of up to 8 MiB is generated
static size_t genLen(Rng& r, size_t ls, int big) {
	if(g_hugeLen) return g_hugeLen;
	switch(r.below(12)) {
		case 0: return 1 + r.below(40);
		case 1: case 2: return r.below(300);
		case 3: case 4: { static const int w[]={16,32,64,128,256}; return (size_t)std::max<int64_t>(0, (int64_t)w[r.below(5)]*(1+r.below(6)) + r.range(-3,3)); }
		case 5: case 6: { size_t k=1+r.below(5); int64_t v=(int64_t)std::min<size_t>(ls,4000)*k + r.range(-4,4); return (size_t)std::max<int64_t>(v,0); }
		case 7: return 100 + r.below(700);
		case 8: return 60 + r.below(150);
		case 9: return 64 + r.below(2000);
		case 10: return r.below(140);
		default: return big && r.chance(1,24) ? (r.chance(1,12) ? 60000 + r.below(big) : 2000 + r.below(20000)) : 200 + r.below(400);
	}
}
static int64_t genLs(Rng& r) {
	switch(r.below(16)) {
		case 0: case 1: case 2: return 128;
		case 3: return 1 + r.below(20);
		case 4: case 5: case 6: return 1 + r.below(300);
		case 7: case 8: { static const int w[]={16,32,48,64,80,96,128,160,192,224,256,320,384,512}; return std::max<int64_t>(1, w[r.below(14)] + r.range(-4,4)); }
		case 9: return 300 + r.below(1700);
		case 10: return 12 + r.below(60);
		case 11: { static const int64_t w[]={997,998,1000,1024,2048,4096,65535,65536,1000000,0x3fffffff,0x7ffffffe,0x7fffffff}; return w[r.below(12)]; }
		case 12: return 60 + r.below(200);
		case 13: return 1 + r.below(12);
		case 14: return 120 + r.below(16);
		default: return 30 + r.below(80);
	}
}
static void genEncData(Rng& r, Case& c, size_t len) {
	Bytes& d = c.data; d.resize(len);
	uint8_t base = r.chance(1,2) ? plainByte(r) : (uint8_t)'a';
	bool rnd = r.chance(1,3);
	static const int dens[] = {0, 4, 12, 40, 120, 256};
	switch(r.below(8)) {
		case 0: for(size_t i=0;i<len;i++) d[i]=(uint8_t)r.next(); break;
		case 1: case 2: { // special characters with a density
			int p = dens[r.below(6)];
			for(size_t i=0;i<len;i++) d[i] = (int)r.below(256)<p ? special(r) : rnd ? plainByte(r) : base;
		} break;
		case 3: { // one kind of character over and over
			uint8_t s = special(r); int p = 128 + r.below(129);
			for(size_t i=0;i<len;i++) d[i] = (int)r.below(256)<p ? s : base;
		} break;
		case 4: case 5: { // special characters where lines begin and end
			long col = (long)c.col; int pe = 64 + r.below(193), p = dens[r.below(4)];
			uint8_t only = SPECIAL[r.below(7)]; bool one = r.chance(1,3);
			for(size_t i=0;i<len;i++) {
				if(col>=c.ls) col=0;
				bool edge = col<=1 || col>=c.ls-3 || i<2 || i+3>=len;
				d[i] = (int)r.below(256)<(edge?pe:p) ? (one ? only : special(r)) : rnd ? plainByte(r) : base;
				uint8_t e=(uint8_t)(d[i]+42); col += (e==0||e==10||e==13||e=='='||((e=='.')&&col==0)||((e==9||e==32)&&(col==0||col>=c.ls-1))) ? 2 : 1;
			}
		} break;
		case 6: { // runs
			size_t i=0; while(i<len) { size_t k=1+r.below(40); uint8_t s = r.chance(1,2) ? special(r) : base; while(k-- && i<len) d[i++]=s; }
		} break;
		default: { // a few special characters
			for(size_t i=0;i<len;i++) d[i] = rnd ? plainByte(r) : base;
			if(len) for(int k=1+r.below(4);k--;) d[r.below(len)] = special(r);
		}
	}
}
static void genEnc(Rng& r, Case& c, int big) {
	c.kind = K_ENC; c.ls = genLs(r);
	switch(r.below(6)) { case 0: c.col = 1 + (int64_t)r.below((uint32_t)std::min<int64_t>(c.ls,1<<30)); break; case 1: c.col = std::max<int64_t>(0, c.ls - 1 - r.below(4)); break; default: c.col = 0; }
	if(c.col >= c.ls) c.col = 0;
	size_t len = genLen(r, (size_t)c.ls, big); while(modelMaxSize(len, (size_t)c.ls) > ARENA - (1u<<20)) len /= 2;
	genEncData(r, c, len);
}
// bytes for the decoders: pieces of articles, boundary sequences and malformed escapes
static void genDecData(Rng& r, Bytes& d, int big) {
	size_t len = genLen(r, 128, big);
	d.clear();
	static const char* TOK[] = {"\r\n","\r","\n","=","==","=y","\r\n.","\r\n..","\r\n.=","\r\n=y","\r\n.\r\n","=\r\n",".","y","\r\n=","\r\n.\r","\r\n.=y","=\r",
		"\r\r\n","\r\n\r\n","=\r\n.","=\r\n=y","\r\n.\n","\n.\r\n","\n=y","\r=y","\r\n.y","=.","==y","=\n","\r\n..\r\n","=\r\n.\r\n","===","\r.\r\n","\r\n.==y","\r\n==y"};
	const int NT = sizeof(TOK)/sizeof(*TOK);
	bool ends = r.chance(1,3); // whether complete end markers are wanted (they hide what follows from the end-searching decoder)
	auto tok = [&]() { for(;;) { int t = r.below(NT); const char* s=TOK[t]; if(!ends && !r.chance(1,40) && (strstr(s,"\r\n=y")||strstr(s,"\r\n.=y")||strstr(s,"\r\n.\r\n")) ) continue; for(;*s;s++) d.push_back((uint8_t)*s); return; } };
	auto plain = [&](size_t k, bool rnd) { while(k--) { uint8_t b = rnd ? (uint8_t)r.next() : 'a'; d.push_back(b); } };
	switch(r.below(8)) {
		case 0: plain(len, true); break;
		case 1: { static const uint8_t AL[]={'\r','\n','.','=','y','a'}; int k=4+r.below(3); while(d.size()<len) d.push_back(AL[r.below(k==4?4:6)]); } break;
		case 2: while(d.size()<len) tok(); break;
		case 3: { uint32_t gap=1+r.below(40); bool rnd=r.chance(1,3); while(d.size()<len) { plain(r.below(gap), rnd); tok(); } } break;
		case 4: { // a valid encoding, slightly damaged
			Bytes src; size_t n=len; long ls = r.chance(1,2)?128:1+r.below(200), col=0; int p=r.below(200);
			for(size_t i=0;i<n;i++) src.push_back((int)r.below(256)<p ? special(r) : (uint8_t)r.next());
			modelEncode(src.data(), n, ls, col, true, d);
			if(d.size()) for(int k=r.below(4);k--;) { size_t at=r.below(d.size()); static const uint8_t AL[]={'\r','\n','.','=','y',0}; d[at]=AL[r.below(6)]; }
		} break;
		case 5: { // one interesting sequence at a chosen place
			size_t at = r.below(len+1); plain(at, r.chance(1,4)); for(int k=1+r.below(3);k--;) tok(); if(d.size()<len) plain(len-d.size(), r.chance(1,4));
		} break;
		case 6: { // runs of '=' with anything around
			while(d.size()<len) { plain(r.below(20), false); size_t k=1+r.below(40); if(r.chance(1,3)) k=1+r.below(4); else if(r.chance(1,8)) k=40+r.below(500); while(k--) d.push_back('='); if(r.chance(1,3)) tok(); }
		} break;
		default: { // lines beginning with dots
			size_t ls=1+r.below(70); while(d.size()<len) { plain(r.below(ls), false); d.push_back('\r'); d.push_back('\n'); for(int k=r.below(3);k--;) d.push_back('.'); }
		}
	}
	if(r.chance(1,6)) tok(); // something at the end
	if(d.size() > (size_t)(g_hugeLen ? 9u<<20 : 1u<<20)) d.resize(g_hugeLen ? 9u<<20 : 1u<<20);
	if(g_hugeLen && !ends) { // no end marker, or a late one
		for(size_t i=0;i+3<d.size();i++) if(i==0 || (i>1 && d[i-1]=='\n' && d[i-2]=='\r')) { size_t j = d[i]=='.' ? i+1 : i; if(d[j]=='=' && d[j+1]=='y') d[j+1]='x'; if(j>i && d[j]=='\r' && d[j+1]=='\n') d[j]='x'; }
		if(r.chance(1,3) && d.size()>100) { static const char* E[]={"\r\n=y","\r\n.=y","\r\n.\r\n"}; const char* e=E[r.below(3)]; size_t at=d.size()*3/4 + r.below((uint32_t)(d.size()/4-8)); memcpy(&d[at], e, strlen(e)); }
	}
}
static void genCuts(Rng& r, Case& c) {
	size_t len = c.data.size();
	switch(r.below(5)) {
		case 0: break;
		case 1: { size_t p=0; while(p<len && c.cuts.size()<400) { uint32_t n=1+r.below(3); c.cuts.push_back(n); p+=n; } } break;
		case 2: { int k=1+r.below(3); while(k--) c.cuts.push_back(r.below((uint32_t)len+1)); } break;
		case 3: { size_t p=0; while(p<len && c.cuts.size()<400) { uint32_t n=r.below(200); c.cuts.push_back(n); p+=n; } } break;
		default: { // cut inside an interesting sequence
			if(!len) break;
			size_t at=r.below((uint32_t)len), k=0;
			while(k<len && !(c.data[at]=='\r'||c.data[at]=='='||c.data[at]=='.'||c.data[at]=='\n')) { at=(at+1)%len; k++; }
			c.cuts.push_back((uint32_t)at+r.below(2)); for(int j=1+r.below(4);j--;) c.cuts.push_back(1+r.below(2));
		}
	}
}
static void genPlace(Rng& r, Case& c, bool mem) {
	c.mode = mem ? 1 + (int)r.below(2) : 0;
	if(mem && r.chance(1,8)) c.mode = 0;
	c.sa = r.below(128); c.da = r.below(128);
}
static int64_t genN(Rng& r) {
	int64_t n;
	switch(r.below(6)) {
		case 0: n = r.below(70); break;
		case 1: n = (int64_t)1 << r.below(54); n += r.range(-2,2); break;
		case 2: n = (int64_t)(r.next() & ((1ull<<53)-1)); break;
		case 3: n = (int64_t)(r.next() >> (11 + r.below(53))); break;
		case 4: { static const int64_t w[]={0x7fffffffLL,0x80000000LL,0xffffffffLL,0x100000000LL,0x1fffffffLL,0x20000000LL,0x1ffffffffLL,0x3fffffffcLL,0xfffffffeLL,0x100000001LL,0x1fffffffffffffLL}; n = w[r.below(11)] + r.range(-2,2); } break;
		default: n = r.below(1u<<20);
	}
	if(n > (1LL<<53)) n = 1LL<<53;
	if(n < 0) n = -n;
	return r.chance(1,2) ? -n : n;
}
static uint32_t genOp(Rng& r) { switch(r.below(5)) { case 0: return 1u<<r.below(32); case 1: return ~(1u<<r.below(32)); case 2: { static const uint32_t w[]={0,0xffffffffu,0x80000000u,1,0xEDB88320u,0x7fffffff}; return w[r.below(6)]; } default: return (uint32_t)r.next(); } }

struct Prop { const char* id; int kinds; bool mem; };
static bool g_stateAny = false;
static void genCase(const std::string& prop, uint64_t seed, uint64_t idx, int isa, Case& c) {
	Rng r(mix(mix(seed, idx), (uint64_t)isa*1000003 + std::hash<std::string>()(prop)));
	c.isa = isa;
	bool mem = prop=="C07" || (prop=="C23" && (idx&1));
	std::string k = prop;
	if(prop=="C07" || prop=="C17" || prop=="C18" || prop=="C19" || prop=="C23") { static const char* sub[]={"C01","C01","C04","C06","C10","C20"}; k = sub[r.below(6)]; if(prop!="C07" && prop!="C19" && r.chance(1,12)) k="C11"; }
	if(k=="C09") k = r.chance(1,2) ? "C04" : "C06";
	bool huge = prop!="C23" && prop!="C17" && prop!="C18" && r.chance(1,10000);
	g_hugeLen = 0; if(huge) { uint32_t e = 15 + r.below(8); g_hugeLen = ((size_t)1<<e) + (r.chance(1,3) ? (size_t)r.below(9) : (size_t)r.below(1u<<e)); if(r.chance(1,4)) g_hugeLen -= 4; }
	if(k=="C01" || k=="C02" || k=="C03") { genEnc(r, c, 40000); }
	else if(k=="C04") { c.kind=K_DEC; c.raw=r.below(2); genDecData(r, c.data, 60000); }
	else if(k=="C05" || k=="C06") { c.kind=K_STREAM; genDecData(r, c.data, 20000); c.state = r.chance(1,2) ? 0 : r.below(7); if(k=="C05" || r.chance(1,3)) genCuts(r, c); c.b = r.below(2); }
	else if(k=="C10") {
		c.kind=K_CRC; c.init = r.chance(1,3) ? 0 : (uint32_t)r.next();
		size_t len;
		switch(r.below(6)) { case 0: len=r.below(20); break; case 1: len=r.below(600); break; case 2: len = (size_t)std::max<int64_t>(0,(int64_t)(16<<r.below(7))*(1+r.below(5))+r.range(-4,4)); break; case 3: len = r.below(5000); break; case 4: len = r.chance(1,40)? r.below(300000) : r.below(9000); break; default: len=r.below(300); }
		if(huge) len = g_hugeLen;
		c.data.resize(len); uint64_t x=0; int z=r.below(4);
		for(size_t i=0;i<len;i++) { if(!(i&7)) x=r.next(); c.data[i] = z==0 ? 0 : z==1 ? 0xff : (uint8_t)(x>>(8*(i&7))); }
		if(z<2 && len) c.data[r.below(len)] = (uint8_t)r.next();
		if(r.chance(1,2)) genCuts(r, c);
	}
	else if(k=="C11") { c.kind=K_ALG; c.init=genOp(r); c.b=genOp(r); c.n=genN(r); c.data.resize(r.below(200)); for(size_t i=0;i<c.data.size();i++) c.data[i]=(uint8_t)r.next(); c.cuts.push_back(r.below((uint32_t)c.data.size()+1)); }
	else if(k=="C20") { genEnc(r, c, 10000); c.kind=K_INCR; if(c.ls > 0x7ffffff0) { c.ls = 0x7ffffff0; if(c.col > c.ls) c.col = 0; } genCuts(r, c); c.b=r.below(2); if(r.chance(1,6)) c.col = c.ls < 0x7ffffff0 ? c.ls + r.below(2) : 0; }
	if(huge && c.cuts.size()>6) c.cuts.resize(6);
	if(huge && r.chance(1,2)) for(uint32_t& x: c.cuts) x = r.below((uint32_t)c.data.size()+1);
	g_hugeLen = 0;
	genPlace(r, c, mem);
}
// the check of a property on a case
static bool checkCase(const std::string& prop, const Case& c, Bytes& out) {
	out.clear(); g_msg.clear();
	g_checkMem = prop=="C07" || (prop=="C23" && c.mode);
	if(prop=="C07") { // only memory is judged: content differences belong to the other properties
		Bytes o2;
		switch(c.kind) {
			case K_ENC: { int col=(int)c.col; return runEnc(c.data.data(), c.data.size(), c.ls, col, true, c, out); }
			case K_INCR: { int col=(int)c.col; size_t pos=0; for(size_t k=0; pos<c.data.size(); k++) { size_t n = k<c.cuts.size() ? std::min((size_t)c.cuts[k], c.data.size()-pos) : c.data.size()-pos; if(!n) continue; if(!runEnc(c.data.data()+pos, n, c.ls, col, false, c, out)) return false; if(col<0 || (int64_t)col>c.ls+1) col=0; pos+=n; } return true; }
			case K_DEC: return runDec(c.data, c.raw, c, out) && runDec(c.data, c.raw, c, o2, true);
			case K_STREAM: { EndRes r; size_t t; return streamImpl(c, out, r, t, false) && streamImpl(c, o2, r, t, true); }
			case K_CRC: { uint8_t* s=A_src.place(c.data.size(), c.mode, c.sa); if(c.data.size()) memcpy(s,c.data.data(),c.data.size()); volatile uint32_t x = crc32(s, c.data.size(), c.init); (void)x; return true; }
		}
		return true;
	}
	if(prop=="C19") { // the input and what surrounds it stay as they are
		g_checkMem = true;
		size_t len=c.data.size(), off = 8192 + (c.sa & 4095), w = len + 512; Case cc=c; cc.mode=0;
		uint8_t* s=A_src.base + off; if(len) memcpy(s, c.data.data(), len);
		Bytes snap(s-256, s-256+w); bool ok=true;
		switch(c.kind) {
			case K_ENC: case K_INCR: { int col=(int)c.col; ok = runEnc(s, len, c.ls, col, c.kind==K_ENC, cc, out, s); } break;
			case K_DEC: ok = runDec(c.data, c.raw, cc, out); break;
			case K_STREAM: { EndRes r; if(len) ok = runDecEnd(s, len, toYState(c.state), cc, out, r, false, s); } break;
			case K_CRC: { volatile uint32_t x = crc32(s, len, c.init); (void)x; } break;
			default: break;
		}
		if(!ok) return false;
		for(size_t i=0;i<w;i++) if(s[(ptrdiff_t)i-256] != snap[i]) return fail("the byte at offset %lld of the input (length %zu) was changed", (long long)i-256, len);
		return true;
	}
	if(prop=="C01") return p_encode(c, out);
	if(prop=="C02") return p_valid(c, out);
	if(prop=="C03") return p_roundtrip(c, out);
	if(prop=="C04") return p_decode(c, out);
	if(prop=="C05") return p_chunks(c, out);
	if(prop=="C06") return p_end(c, out);
	if(prop=="C09") return p_insitu(c, out);
	if(prop=="C10") return p_crc(c, out);
	if(prop=="C11") return p_alg(c, out);
	if(prop=="C20") return p_incr(c, out);
	if(prop=="C23" && (c.kind==K_DEC || c.kind==K_STREAM)) { Bytes o2; return p_insitu(c, o2) && (c.kind==K_DEC ? p_decode(c, out) : p_end(c, out)); }
	if(prop=="C17" || prop=="C18" || prop=="C23") switch(c.kind) {
		case K_ENC: return p_encode(c, out); case K_DEC: return p_decode(c, out); case K_STREAM: return p_end(c, out);
		case K_CRC: return p_crc(c, out); case K_ALG: return p_alg(c, out); case K_INCR: return p_incr(c, out);
	}
	fprintf(stderr, "no such property %s\n", prop.c_str()); _exit(3);
}
// whether a case counts as non-trivial, and its classes
static bool classify(const Case& c, const Bytes& out, Stats& S, bool count) {
	const size_t n=c.data.size(); bool nt=false;
	#define CLS(s) do { if(count) S.cls[s]++; } while(0)
	switch(c.kind) {
		case K_ENC: case K_INCR: {
			bool esc = memchr(out.data(), '=', out.size())!=NULL, nl = memchr(out.data(), '\n', out.size())!=NULL;
			if(esc) CLS("enc:escape"); if(nl) CLS("enc:multi-line"); if(n>=130) CLS("enc:longer than a vector block"); if(c.col) CLS("enc:column offset"); if(c.ls<12) CLS("enc:short lines"); if(n>5000) CLS("enc:over 5000 bytes");
			nt = esc && (nl || n>=64);
			if(c.kind==K_INCR) { if(c.cuts.size()) CLS("incr:cut"); nt = nt && c.cuts.size(); }
		} break;
		case K_DEC: case K_STREAM: {
			bool eq = memchr(c.data.data(), '=', n)!=NULL, cr = memchr(c.data.data(), '\r', n)!=NULL, dot=memmem(c.data.data(), n, "\r\n.", 3)!=NULL, y=memmem(c.data.data(), n, "\r\n=y", 4)!=NULL, end=memmem(c.data.data(), n, "\r\n.\r\n", 5)!=NULL, ee=memmem(c.data.data(), n, "==", 2)!=NULL;
			if(eq) CLS("dec:escape"); if(ee) CLS("dec:'=='"); if(dot) CLS("dec:CRLF."); if(y) CLS("dec:CRLF=y"); if(end) CLS("dec:CRLF.CRLF"); if(n>=130) CLS("dec:longer than a vector block"); if(n>5000) CLS("dec:over 5000 bytes");
			nt = n>=8 && ((eq && cr) || dot || ee);
			if(c.kind==K_STREAM) { if(c.cuts.size()) CLS("stream:cut"); if(c.state) CLS("stream:carried state"); }
		} break;
		case K_CRC: if(c.cuts.size()) CLS("crc:in pieces"); if(n>=64) CLS("crc:folded"); if(c.init) CLS("crc:initial"); nt = n>=16; break;
		case K_ALG: if(c.n<0) CLS("alg:negative"); if(c.n>0x7fffffff||c.n<-0x7fffffffLL) CLS("alg:beyond 2^31"); nt = c.init && c.b && c.n; break;
	}
	return nt;
}
static uint64_t hashCase(const Case& c) {
	uint64_t h=1469598103934665603ull ^ (uint64_t)c.kind;
	int64_t v[]={c.isa,c.ls,c.col,c.raw,c.state,c.init,c.b,c.n};
	for(int64_t x: v) h = mix(h, (uint64_t)x);
	for(uint32_t x: c.cuts) h = (h ^ x)*1099511628211ull;
	for(uint8_t x: c.data) h = (h ^ x)*1099511628211ull;
	return h;
}

// ------------------------------------------------------------------------------------------------ faults become failures
static sigjmp_buf g_jb; static volatile sig_atomic_t g_armed=0; static volatile int g_sig; static void* volatile g_addr;
static void onSig(int s, siginfo_t* si, void*) {
	if(!g_armed) { signal(s, SIG_DFL); raise(s); _exit(99); }
	g_sig=s; g_addr=si?si->si_addr:NULL; g_armed=0; siglongjmp(g_jb, 1);
}
static void installSig() {
	static uint8_t alt[65536]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,NULL);
	struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onSig; sa.sa_flags=SA_SIGINFO|SA_NODEFER|SA_ONSTACK; sigemptyset(&sa.sa_mask);
	int sigs[]={SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGTRAP,SIGVTALRM}; for(int s: sigs) sigaction(s,&sa,NULL);
}
#ifdef REMOTE
static void remoteDied(int sig) { if(!g_armed) { fprintf(stderr,"harness: the executor died outside of a case\n"); _exit(3); } g_sig=sig; g_addr=NULL; g_armed=0; siglongjmp(g_jb, 1); }
#endif
static const int HANG=30; // seconds of CPU time; a case takes microseconds
static bool g_hang=false; // the last failure was a call that does not return
static void armTimer(int sec) {
#ifdef REMOTE
	g_remoteWait = sec*1000+10000;
#endif
	 struct itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec=sec; setitimer(ITIMER_VIRTUAL,&it,NULL); }
static bool safeCheck(const std::string& prop, const Case& c, Bytes& out) {
	g_hang=false;
	if(sigsetjmp(g_jb, 0)) {
		switch(g_sig) {
			case SIGVTALRM: g_hang=true; return fail("the call does not return (%d s of CPU time)", HANG);
			case SIGILL: return fail("illegal instruction");
			default: {
#ifdef REMOTE
				if(!g_addr) return fail("signal %d on the emulated CPU", g_sig);
#endif
				const char* where = "elsewhere"; uint8_t* a=(uint8_t*)g_addr;
				if(a>=A_src.base-65536 && a<A_src.base) where="before the input"; else if(a>=A_src.base+A_src.size && a<A_src.base+A_src.size+65536) where="beyond the input";
				else if(a>=A_dst.base-65536 && a<A_dst.base) where="before the output"; else if(a>=A_dst.base+A_dst.size && a<A_dst.base+A_dst.size+65536) where="beyond the output";
				return fail("signal %d: memory access %s", g_sig, where);
			}
		}
	}
	g_armed=1;
	bool ok = checkCase(prop, c, out);
	g_armed=0;
	return ok;
}

// ------------------------------------------------------------------------------------------------ shrinking
static const int g_shrinkWait=6;
static Case shrink(const std::string& prop, Case c) {
	Bytes out; int budget=6000, hangs=0;
	const time_t until = time(NULL) + 40; // large cases
	auto bad = [&](const Case& x) { if(budget--<=0) return false; if(time(NULL) > until) { budget=0; return false; } armTimer(g_shrinkWait); bool b=!safeCheck(prop, x, out); if(g_hang && ++hangs>=4) budget=0; return b; };
	bool progress=true;
	while(progress && budget>0) {
		progress=false;
		for(size_t k=0;k<c.cuts.size();) { Case x=c; x.cuts.erase(x.cuts.begin()+k); if(bad(x)) { c=x; progress=true; } else k++; if(c.cuts.size()>64 && k>64) break; }
		for(size_t chunk=std::max<size_t>(1,c.data.size()/2); chunk>=1; chunk/=2) {
			for(size_t i=0; i+chunk<=c.data.size(); ) {
				Case x=c; x.data.erase(x.data.begin()+i, x.data.begin()+i+chunk);
				if(bad(x)) { c=x; progress=true; } else i+=chunk;
				if(budget<=0) break;
			}
			if(chunk==1) break;
		}
		static const uint8_t simple[]={'a',0}; 
		if(c.data.size()<=2000) for(size_t i=0;i<c.data.size();i++) if(c.data[i]!='a') { Case x=c; x.data[i]=simple[0]; if(bad(x)) { c=x; progress=true; } }
		auto tryV = [&](auto set, int64_t cur, std::vector<int64_t> cand) { for(int64_t v: cand) if(v!=cur && llabs(v)<llabs(cur)) { Case x=c; set(x,v); if(bad(x)) { c=x; progress=true; break; } } };
		tryV([](Case& x,int64_t v){x.col=v;}, c.col, {0,1,c.col/2,c.col-1});
		if(c.ls>1) tryV([](Case& x,int64_t v){ if(v>x.col) x.ls=v; }, c.ls, {1,12,64,128,c.ls/2,c.ls-1});
		tryV([](Case& x,int64_t v){x.sa=(int)v;}, c.sa, {0,c.sa/2,c.sa-1});
		tryV([](Case& x,int64_t v){x.da=(int)v;}, c.da, {0,c.da/2,c.da-1});
		tryV([](Case& x,int64_t v){x.state=(int)v;}, c.state, {0,3});
		tryV([](Case& x,int64_t v){x.n=v;}, c.n, {0,1,c.n/2,c.n/16,c.n<0?c.n+1:c.n-1});
		if(c.init) { Case x=c; x.init=0; if(bad(x)) { c=x; progress=true; } }
		for(size_t k=0;k<c.cuts.size()&&k<64;k++) if(c.cuts[k]>1) { Case x=c; x.cuts[k]/=2; if(bad(x)) { c=x; progress=true; } }
	}
	armTimer(0);
	return c;
}

// ------------------------------------------------------------------------------------------------ workers
struct Shared { std::atomic<uint64_t> idx; std::atomic<int> failed; };
static std::string g_prop="C01", g_build="default", g_tmp="/tmp", g_replayDir="."; static uint64_t g_seed=1; static uint64_t g_cases=100000; static int g_jobs=8;

static std::string jesc(const std::string& s) { std::string o; for(char ch: s) { unsigned char u=(unsigned char)ch; if(ch=='"'||ch=='\\') { o+='\\'; o+=ch; } else if(u<32||u>126) { char b[8]; snprintf(b,sizeof b,"\\u%04x",u); o+=b; } else o+=ch; } return o; }

static bool confirm(const std::string& prop, const Case& c) { // 3 replays out of 3
	Bytes o; for(int i=0;i<3;i++) { armTimer(HANG); bool ok=safeCheck(prop,c,o); armTimer(0); if(ok) return false; if(g_hang) return true; } return true;
}
static std::string writeReplay(const Case& c, const std::string& msg) {
	std::string line = ser(c); uint64_t h=hashCase(c); char nm[64]; snprintf(nm,sizeof nm,"%016llx",(unsigned long long)h);
	std::string path = g_replayDir + "/" + g_prop + "-" + g_build + "-" + nm + ".replay";
	FILE* f=fopen(path.c_str(),"w"); if(!f) { perror(path.c_str()); _exit(3); }
	fprintf(f,"harness prop=%s build=%s\n%s\n# %s\n", g_prop.c_str(), g_build.c_str(), line.c_str(), msg.c_str()); fclose(f);
	return path;
}
// one worker: cases first, first+step, ... of one instruction set
static std::atomic<int>* g_found; // failures seen by all workers: six will do
static int worker(int isa, uint64_t first, uint64_t step, uint64_t count, Shared* sh, const std::string& outFile) {
	installSig(); A_src.init(ARENA); A_dst.init(ARENA); setIsa(isa);
	Stats S; Bytes out; std::string viol, unconf;
	for(uint64_t k=0, idx=first; k<count && g_found->load()<6; k++, idx+=step) {
		sh->idx.store(idx, std::memory_order_relaxed);
		Case c; genCase(g_prop, g_seed, idx, isa, c);
		if((k & 255)==0) armTimer(HANG);
		bool ok = safeCheck(g_prop, c, out);
		S.evals++;
		if(!ok) {
			if(!confirm(g_prop, c)) { fprintf(stderr, "harness: unconfirmed failure at case %llu: %s\n", (unsigned long long)idx, g_msg.c_str()); unconf = ser(c,200) + "\t" + g_msg; sh->failed.store(1); break; }
			g_found->fetch_add(1); Case m = shrink(g_prop, c); 
			if(!confirm(g_prop, m)) { m=c; confirm(g_prop, m); }
			std::string msg=g_msg; viol = writeReplay(m, msg) + "\t" + ser(m,80) + "\t" + msg;
			sh->failed.store(1);
			break;
		}
		bool nt = classify(c, out, S, true);
		if(c.data.size() >= 32768) S.cls["32 KiB and more"]++; if(c.data.size() >= 1u<<20) S.cls["1 MiB and more"]++;
		if(nt) { S.hashes.push_back(hashCase(c)); if(S.samples.size()<2 && k>3 && c.data.size()<200) S.samples.push_back(ser(c)); }
		if((k & 255)==255 && sh->failed.load(std::memory_order_relaxed)) break;
	}
	armTimer(0);
	FILE* f=fopen(outFile.c_str(),"w"); if(!f) return 3;
	fprintf(f,"evals %llu\n",(unsigned long long)S.evals);
	for(auto& x: S.cls) fprintf(f,"class %llu %s\n",(unsigned long long)x.second,x.first.c_str());
	for(auto& x: S.samples) fprintf(f,"sample %s\n",x.c_str());
	if(viol.size()) fprintf(f,"violation %s\n",viol.c_str());
	if(unconf.size()) fprintf(f,"unconfirmed %s\n",unconf.c_str());
	fprintf(f,"hashes %zu\n",S.hashes.size());
	fwrite(S.hashes.data(),8,S.hashes.size(),f); fclose(f);
	return 0;
}

static int runAll(const char* outJson) {
	struct Job { int isa; uint64_t first, step, count; };
	std::vector<Job> jobs; const int SH = std::max(1, g_jobs / (int)g_isas.size() + 1);
	for(size_t i=0;i<g_isas.size();i++) for(int s=0;s<SH;s++) jobs.push_back(Job{(int)i,(uint64_t)s,(uint64_t)SH,g_cases/SH + (s < (int)(g_cases%SH))});
	Shared* sh=(Shared*)mmap(NULL, sizeof(Shared)*jobs.size(), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	g_found=(std::atomic<int>*)mmap(NULL, sizeof(*g_found), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	std::map<pid_t,int> run; size_t nextJob=0; std::vector<int> died(jobs.size(),0);
	auto file=[&](size_t j){ return g_tmp+"/w"+std::to_string(getpid())+"-"+std::to_string(j); };
	pid_t me=getpid();
	auto filep=[&](size_t j){ return g_tmp+"/w"+std::to_string(me)+"-"+std::to_string(j); };
	while(nextJob<jobs.size() || run.size()) {
		while(nextJob<jobs.size() && (int)run.size()<g_jobs) {
			pid_t p=fork(); if(p<0) { perror("fork"); return 3; }
			if(!p) { Job& J=jobs[nextJob]; std::string fn=filep(nextJob); _exit(worker(J.isa,J.first,J.step,J.count,sh+nextJob,fn)); }
			run[p]=(int)nextJob++;
		}
		int st; pid_t p=wait(&st); if(p<0) break; int j=run[p]; run.erase(p);
		if(!WIFEXITED(st) || WEXITSTATUS(st)) died[j]=st?st:1;
	}
	uint64_t evals=0; std::map<std::string,uint64_t> cls; std::vector<std::string> samples, viols, unconf; std::vector<uint64_t> hs; std::map<std::string,uint64_t> perIsa; bool err=false;
	for(size_t j=0;j<jobs.size();j++) {
		if(died[j]) {
			if(WIFEXITED(died[j])) { err=true; fprintf(stderr,"harness: worker %zu failed, status %x\n",j,died[j]); continue; }
			// killed: find out whether the case it was at does it again
			uint64_t idx=sh[j].idx.load(); Case c; g_curIsa=-1; genCase(g_prop,g_seed,idx,jobs[j].isa,c);
			int again=0; for(int t=0;t<3;t++) { pid_t p=fork(); if(!p) { installSig(); A_src.init(ARENA); A_dst.init(ARENA); setIsa(jobs[j].isa); Bytes o; bool ok=safeCheck(g_prop,c,o); _exit(ok?0:7);} int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)==7) again++; }
			if(again==3) viols.push_back(writeReplay(c,"the process died")+"\t"+ser(c,80)+"\tthe process died");
			else { err=true; fprintf(stderr,"harness: worker %zu killed by signal %d, not reproduced by its case\n",j,WTERMSIG(died[j])); }
			continue;
		}
		FILE* f=fopen(filep(j).c_str(),"r"); if(!f) { err=true; continue; }
		char* line=NULL; size_t cap=0; ssize_t n;
		while((n=getline(&line,&cap,f))>0) {
			if(line[n-1]=='\n') line[--n]=0; std::string s=line;
			if(!s.compare(0,6,"evals ")) { uint64_t v=strtoull(s.c_str()+6,0,10); evals+=v; perIsa[g_isas[jobs[j].isa].name]+=v; }
			else if(!s.compare(0,6,"class ")) { char* e; uint64_t v=strtoull(s.c_str()+6,&e,10); cls[e+1]+=v; }
			else if(!s.compare(0,7,"sample ")) { if(samples.size()<12) samples.push_back(s.substr(7)); }
			else if(!s.compare(0,10,"violation ")) viols.push_back(s.substr(10));
			else if(!s.compare(0,12,"unconfirmed ")) unconf.push_back(s.substr(12));
			else if(!s.compare(0,7,"hashes ")) { size_t k=strtoull(s.c_str()+7,0,10), o=hs.size(); hs.resize(o+k); if(fread(hs.data()+o,8,k,f)!=k) err=true; break; }
		}
		free(line); fclose(f); unlink(filep(j).c_str());
	}
	std::sort(hs.begin(),hs.end()); size_t distinct=std::unique(hs.begin(),hs.end())-hs.begin();
	FILE* f=fopen(outJson,"w"); if(!f) { perror(outJson); return 3; }
	fprintf(f,"{\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"build\":\"%s\",\"classes\":{",(unsigned long long)evals,distinct,g_build.c_str());
	bool c1=false; for(auto& x: cls) { fprintf(f,"%s\"%s\":%llu",c1?",":"",jesc(x.first).c_str(),(unsigned long long)x.second); c1=true; }
	fprintf(f,"},\"per_level\":{"); c1=false; for(auto& x: perIsa) { fprintf(f,"%s\"%s\":%llu",c1?",":"",x.first.c_str(),(unsigned long long)x.second); c1=true; }
	fprintf(f,"},\"samples\":["); c1=false; for(auto& x: samples) { fprintf(f,"%s\"%s\"",c1?",":"",jesc(x).c_str()); c1=true; }
	fprintf(f,"],\"violations\":["); c1=false;
	for(auto& x: viols) { size_t t=x.find('\t'), u=x.find('\t',t+1); fprintf(f,"%s{\"replay\":\"%s\",\"case\":\"%s\",\"why\":\"%s\"}",c1?",":"",jesc(x.substr(0,t)).c_str(),jesc(x.substr(t+1,u-t-1)).c_str(),jesc(x.substr(u+1)).c_str()); c1=true; }
	fprintf(f,"],\"unconfirmed\":["); c1=false;
	for(auto& x: unconf) { size_t t=x.find('\t'); fprintf(f,"%s{\"case\":\"%s\",\"why\":\"%s\"}",c1?",":"",jesc(x.substr(0,t)).c_str(),jesc(x.substr(t+1)).c_str()); c1=true; }
	fprintf(f,"]}\n"); fclose(f);
	if(viols.size()) return 1;
	return unconf.size() ? 4 : err ? 3 : 0;
}

#ifndef REMOTE
#include "modes.h"
#else
static int replayMode(const std::string&) { return 3; }
static int runMode(const std::string&, const std::string&) { return 3; }
static size_t g_largeLen;
#endif

int main(int argc, char** argv) {
	saveGeneric(); listIsas();
	std::string out="/dev/stdout", replay, mode="cases", only;
	for(int i=1;i<argc;i++) {
		std::string a=argv[i]; auto v=[&]{ return i+1<argc ? std::string(argv[++i]) : std::string(); };
		if(a=="--prop") g_prop=v(); else if(a=="--seed") g_seed=strtoull(v().c_str(),0,10); else if(a=="--cases") g_cases=strtoull(v().c_str(),0,10);
		else if(a=="--jobs") g_jobs=atoi(v().c_str()); else if(a=="--out") out=v(); else if(a=="--tmp") g_tmp=v(); else if(a=="--replay-dir") g_replayDir=v();
		else if(a=="--replay") replay=v(); else if(a=="--build") g_build=v(); else if(a=="--mode") mode=v(); else if(a=="--isa") only=v(); else if(a=="--large-len") g_largeLen=strtoull(v().c_str(),0,10);
#if defined(HAVE_REAL_PLATFORM) && defined(__x86_64__)
		else if(a=="--sites") { g_siteArg=v(); for(const char* p=g_siteArg.c_str();*p;) { char* e; g_siteOff.push_back(strtol(p,&e,10)); p = *e==':' ? e+1 : e; if(e==p && *p) break; } }
#endif

#ifdef REMOTE
		else if(a=="--remote") addRemote(v());
#endif
		else if(a=="--list") { for(auto& x: g_isas) puts(x.name); return 0; }
		else { fprintf(stderr,"unknown argument %s\n",a.c_str()); return 3; }
	}
	if(only.size()) { std::vector<Isa> k; for(auto& x: g_isas) if(only==x.name) k.push_back(x); g_isas=k; if(k.empty()) { fprintf(stderr,"no such level\n"); return 3; } }
	if(replay.size()) {
		FILE* f=fopen(replay.c_str(),"r"); if(!f) { perror(replay.c_str()); return 3; }
		char* line=NULL; size_t cap=0; std::string cs; while(getline(&line,&cap,f)>0) { std::string s=line; if(s.size()&&s[s.size()-1]=='\n') s.erase(s.size()-1); if(!s.compare(0,8,"harness ")) { size_t p=s.find("prop="); g_prop=s.substr(p+5,3); } else if(!s.compare(0,5,"kind=")) cs=s; }
		if(cs.empty()) return replayMode(replay);
		Case c; if(!parseCase(cs,c)) { fprintf(stderr,"cannot parse replay\n"); return 3; }
		installSig(); A_src.init(ARENA); A_dst.init(ARENA); setIsa(c.isa); Bytes o; armTimer(HANG); bool ok=safeCheck(g_prop,c,o);
		printf("%s%s\n", ok?"ok":"FAIL: ", ok?"":g_msg.c_str()); return ok?0:1;
	}
	if(mode=="cases") return runAll(out.c_str());
	return runMode(mode, out);
}
