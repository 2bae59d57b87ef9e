#pragma once
#include "drv.h"
typedef std::vector<jchar> U16;
static std::string enc(jchar c) { std::string r; if(c >= 1 && c <= 0x7f) r += (char)c; else if(c <= 0x7ff) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); } return r; }
static std::string enc(const U16& u, size_t a = 0, size_t n = ~0ul) { std::string r; for(size_t i = a; i < u.size() && i - a < n; i++) r += enc(u[i]); return r; }
static const jchar pick[] = { 0, 1, 'a', 'z', 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xfffe, 0xffff };
// mostly ASCII text with a few other units at random places (what shortcuts for plain text go by)
static U16 plain(size_t n) { U16 r(n); for(auto& c : r) c = (jchar)(' ' + drv::rnd(95)); if(n) for(unsigned k = drv::rnd(4); k > 0; k--) r[drv::rnd((unsigned)n)] = pick[drv::rnd(15) + 1]; return r; }
static U16 rnds(size_t n) { if(n > 3 && drv::rnd(3) == 0) return plain(n); U16 r(n); for(auto& c : r) c = drv::rnd(3) ? pick[drv::rnd(16)] : (jchar)drv::rnd(65536); return r; }
