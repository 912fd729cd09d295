#pragma once
#include <string>
#include <stdio.h>
// shared by the string buffer scenarios and their oracle
enum { B_APPEND, B_APPC, B_APPN, B_APPSUB, B_INSERT, B_INSC, B_INSN, B_INSSUB, B_DELETE, B_DELCHAR, B_REPLACE, B_REVERSE, B_SETCHAR, B_SETLEN, B_ENSURE, B_TRIM,
       B_LENGTH, B_CHARAT, B_INDEX, B_INDEX2, B_LAST, B_SUB1, B_SUB2, B_STR, B_VALUE, B_CAP, B_CPC, B_NEWSTR, B_COPY, B_ASSIGN, B_APPBUF, B_APPSEQ, B_INSSEQ, B_APPSEQSUB, B_NEWSEQ, B_LASTFROM, B_CPA, B_CPB, B_APPCP, B_N };
// a = buffer | x << 1 | y << 9; b = text id or number; c = variant
static inline long b_pack(long buf, long x, long y) { return buf | x << 1 | y << 9; }
static inline int b_buf(long a) { return (int)(a & 1); }
static inline int b_x(long a) { return (int)(a >> 1 & 255); }
static inline int b_y(long a) { return (int)(a >> 9 & 255); }
static inline std::string b_text(long id) { if (id <= 0) return ""; std::string u = std::string(1, (char)('a' + id % 26)) + std::to_string(id), s; size_t n = (size_t)(id * 5 % 11) + 1; while (s.size() < n) s += u; return s.substr(0, n); }
static inline std::string b_number(long b, long c) { char z[40]; if (c == 3) { snprintf(z, sizeof z, "%ld.500000000000000", b % 50); return z; } if (c == 4) { snprintf(z, sizeof z, "%ld.25", b % 50); return z; } return c == 0 ? std::to_string((int)b) : c == 1 ? std::to_string(b * 1000003) : b % 2 ? "true" : "false"; }
