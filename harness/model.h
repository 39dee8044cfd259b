// Reference models: byte-at-a-time, written from the yEnc rules and the documentation, sharing no code with /repo.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include <stdint.h>
#include <stddef.h>
#include <vector>
#include <string>
typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- encoding
// Appends to out; col is the number of columns used on the current line, before and after.
static inline void modelEncode(const uint8_t* src, size_t len, long ls, long& col, bool doEnd, Bytes& out) {
	for(size_t i=0; i<len; i++) {
		if(col >= ls) { out.push_back(13); out.push_back(10); col = 0; }
		uint8_t c = (uint8_t)(src[i] + 42);
		bool esc = c==0 || c==10 || c==13 || c=='=';
		if(c=='.' && col==0) esc = true;
		if((c==9 || c==32) && (col==0 || col>=ls-1)) esc = true;
		if(esc) { out.push_back('='); c += 64; col++; }
		out.push_back(c); col++;
	}
	if(doEnd && len) {
		uint8_t c = out.back();
		if(c==9 || c==32) { out.back() = '='; out.push_back(c+64); col++; }
	}
}
// documented worst-case size of an encoding
static inline size_t modelMaxSize(size_t len, size_t ls) { return len*2 + 2*((len*2)/ls) + 2 + 64; }

// ---------------------------------------------------------------- decoding
enum MState { M_CRLF, M_EQ, M_CR, M_NONE, M_CRLFDT, M_CRLFDTCR, M_CRLFEQ };
enum MEnd { ME_NONE, ME_CONTROL, ME_ARTICLE };
// One byte of the decoder; returns an end if this byte completes an end marker.
static inline MEnd modelDecByte(uint8_t c, bool raw, bool findEnd, MState& st, Bytes& out) {
	switch(st) {
		case M_CRLF:
			if(raw && c=='.') { st = M_CRLFDT; return ME_NONE; }
			if(c=='=') { st = M_CRLFEQ; return ME_NONE; }
			break;
		case M_CRLFDT:
			if(c=='\r') { st = M_CRLFDTCR; return ME_NONE; }
			if(c=='=') { st = M_CRLFEQ; return ME_NONE; }
			break;
		case M_CRLFDTCR:
			if(c=='\n') { st = M_CRLF; return findEnd ? ME_ARTICLE : ME_NONE; }
			break;
		case M_CR:
			if(c=='\n') { st = M_CRLF; return ME_NONE; }
			break;
		case M_CRLFEQ:
			if(findEnd && c=='y') { st = M_NONE; return ME_CONTROL; }
			/* fall through */
		case M_EQ:
			out.push_back((uint8_t)(c - 42 - 64));
			st = c=='\r' ? M_CR : M_NONE;
			return ME_NONE;
		case M_NONE: break;
	}
	if(c=='\r') st = M_CR;
	else if(c=='\n') st = M_NONE;
	else if(c=='=') st = M_EQ;
	else { out.push_back((uint8_t)(c - 42)); st = M_NONE; }
	return ME_NONE;
}
static inline MEnd modelDecode(const uint8_t* src, size_t len, bool raw, bool findEnd, MState& st, Bytes& out, size_t& read) {
	for(read=0; read<len; ) {
		MEnd e = modelDecByte(src[read++], raw, findEnd, st, out);
		if(e) return e;
	}
	return ME_NONE;
}

// ---------------------------------------------------------------- CRC32, bit at a time / table from the polynomial
static const uint32_t M_POLY = 0xEDB88320u;
struct ModelCrcTab { uint32_t t[8][256]; ModelCrcTab() {
	for(uint32_t i=0;i<256;i++) { uint32_t c=i; for(int k=0;k<8;k++) c = (c>>1) ^ ((c&1) ? M_POLY : 0); t[0][i]=c; }
	for(int s=1;s<8;s++) for(int i=0;i<256;i++) t[s][i] = (t[s-1][i]>>8) ^ t[0][t[s-1][i]&255];
} };
static inline uint32_t modelCrc(const uint8_t* p, size_t n, uint32_t init) {
	static const ModelCrcTab T;
	uint32_t c = ~init;
	while(n && n < 64) { c = (c>>8) ^ T.t[0][(c ^ *p++) & 255]; n--; }
	while(n & 7) { c = (c>>8) ^ T.t[0][(c ^ *p++) & 255]; n--; }
	for(; n; n-=8, p+=8) {
		c ^= (uint32_t)p[0] | (uint32_t)p[1]<<8 | (uint32_t)p[2]<<16 | (uint32_t)p[3]<<24;
		c = T.t[7][c&255] ^ T.t[6][(c>>8)&255] ^ T.t[5][(c>>16)&255] ^ T.t[4][c>>24]
		  ^ T.t[3][p[4]] ^ T.t[2][p[5]] ^ T.t[1][p[6]] ^ T.t[0][p[7]];
	}
	return ~c;
}
// polynomials in the reflected representation: 0x80000000 is 1, 0x40000000 is x
static inline uint32_t mTimesX(uint32_t a) { return (a>>1) ^ ((a&1) ? M_POLY : 0); }
static inline uint32_t mDivX(uint32_t a) { return (a & 0x80000000u) ? (((a ^ M_POLY) << 1) | 1) : (a << 1); }
static inline uint32_t mMul(uint32_t a, uint32_t b) {
	uint32_t r = 0;
	for(int i=31; i>=0; i--) { if((b>>i)&1) r ^= a; a = mTimesX(a); } // bit 31 is x^0
	return r;
}
static inline uint32_t mPow(uint32_t base, unsigned __int128 n) {
	uint32_t r = 0x80000000u;
	while(n) { if(n&1) r = mMul(r, base); base = mMul(base, base); n >>= 1; }
	return r;
}
static inline uint32_t mXpow(__int128 n) { // x^n, n of either sign
	return n < 0 ? mPow(mDivX(0x80000000u), (unsigned __int128)-n) : mPow(0x40000000u, (unsigned __int128)n);
}
#endif
