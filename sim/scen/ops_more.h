#pragma once
// The rest of the operations on values and small objects: arithmetic, bits of numbers, the remaining overloads, exceptions with causes.
#include "ops_alias.h"
#include "library/Java/Lang/Math/Math.hpp"
#include "library/Java/Lang/Error/Error.hpp"
#include "library/Java/Io/IOException/IOException.hpp"
#include "library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp"
#include "library/Java/Security/GeneralSecurityException/GeneralSecurityException.hpp"
#include "library/Java/Security/NoSuchAlgorithmException/NoSuchAlgorithmException.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
namespace more_ops {
using iso_ops::Out; using iso_ops::word; using iso_ops::bytes_of;
using Java::Util::ArrayList; using Java::Util::HashMap; using Java::Util::Stack; using Java::Util::BitSet; using Java::Util::Date; using Java::Util::UUID; using Java::Util::Base64; using Java::Net::URL;
using Java::Util::Concurrent::ConcurrentHashMap; using Java::Util::Concurrent::ConcurrentLinkedQueue; using Java::Util::Concurrent::Semaphore;
using Java::Security::MessageDigest; using Java::Lang::StringBuilder; using Java::Lang::StringBuffer; using Java::Lang::Throwable;
enum { MATHS, MATHS2, MATHS3, EXACT, INTS, INTS2, LONGS, LONGS2, BYTES1, FLOATS, FLOATS2, DOUBLES, DOUBLES2, SHORTS, CHARS, CAUSES, CAUSES2, ERRORS, VALUES, GETCHARS, BUILDER, BUILDER2, BUILDER3, BUFFER, BUFFER2, CONN, CODEC, IDENT, QUEUE1, SEMA, UTCS, CLEARS, DIGEST1, STACKC, ENUMS, STRINGS, PARSED, NOPS };
static const char *names[] = {"elementary functions", "rounding", "neighbours of numbers", "exact arithmetic", "bits of an int", "arithmetic of Integer", "bits of a long", "arithmetic of Long", "Bytes", "classes of float", "arithmetic of Float", "classes of double", "arithmetic of Double", "arithmetic of Short", "code points", "exceptions with causes", "causes of absent causes", "errors", "texts of values", "characters of a text", "appending to a builder", "inserting into a builder", "builders of sequences", "buffers of sequences", "code points of a buffer", "settings of a connection", "coding into given arrays", "parts of identifiers", "a queue of one thread", "a semaphore of one thread", "UTC times", "cleared collections", "resets of a digest", "a stack of characters", "constants", "questions to a text", "numbers from texts"};
#define T(x) do { try { out.add(x); } catch (Exception &e) { out.add(e.getMessage()); } catch (std::exception &e) { out.add("std"); } } while (0)
#define V(x) do { try { x; out.add("done"); } catch (Exception &e) { out.add(e.getMessage()); } catch (std::exception &e) { out.add("std"); } } while (0)
#define D(x) do { try { real(out, x); } catch (Exception &e) { out.add(e.getMessage()); } catch (std::exception &e) { out.add("std"); } } while (0)
static void real(Out &out, double x) { char b[64]; if (x != x) strcpy(b, "nan"); else snprintf(b, sizeof b, "%.9g", x); out.add(b); }
static double some(long b) { static const double s[] = {0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e300, 1e-310, 5e-324, 1.7976931348623157e308, INFINITY, -INFINITY, NAN, 2.5, -2.5, 3.5}; return b & 1 ? s[b >> 1 & 15] : (double)(b % 100003) / 64; }
static float somef(long b) { static const float s[] = {0.0f, -0.0f, 1.0f, -1.0f, 0.5f, 1e38f, -1e38f, 1e-40f, 1.4e-45f, 3.4028235e38f, INFINITY, -INFINITY, NAN, 2.5f, -2.5f, 3.5f}; return b & 1 ? s[b >> 1 & 15] : (float)(b % 10007) / 64; }
static int bits(long b) { static const int s[] = {0, 1, -1, 2147483647, (int)0x80000000, 7, 256, -256}; return b & 1 ? s[b >> 1 & 7] : (int)(b >> 1); }
static long lbits(long b) { static const long s[] = {0, 1, -1, 9223372036854775807l, (long)0x8000000000000000l, 7, 1l << 40, -256}; return b & 1 ? s[b >> 1 & 7] : b >> 1; }
struct Unset : Java::Net::URLConnection { void connect() {} };
struct Made : Java::Lang::Enum<Made> { Made(const char *n, int k) : Java::Lang::Enum<Made>(n, k) {} };
template <class E> static void cause(Out &out, const char *w) {
    E inner; out.add(inner.getMessage()); out.add((long)(inner.getCause() == nullptr)); E a{String(w)}; out.add(a.getMessage()); out.add((long)(a.getCause() == nullptr));
    E b(String(w), &inner), c(&a); out.add(b.getMessage()); out.add((long)(b.getCause() == &inner)); out.add(c.getMessage()); out.add((long)(c.getCause() == &a)); E d(c); d = b; out.add(d.getMessage()); out.add((long)(d.getCause() == &inner));
    try { throw c; } catch (Throwable &t) { for (Throwable *p = &t; p; p = p->getCause()) out.add(p->getMessage()); }
}
template <class B> static void into(Out &out, B &x, const char *w, int n) {
    String s(w); const Java::Lang::CharSequence &q = s; V(x.append(q)); V(x.append(q, 0, 1)); V(x.append(q, n & 3, n & 7)); V(x.insert(1, q)); V(x.insert(n & 7, q, n & 1, 2)); T(x.toString());
}
static void step(const Op &o, Out &out) {
    long b = o.b; const char *w = word((int)(o.a & 15)), *u = word((int)(o.c & 15)); int n = (int)(b & 15); using Java::Lang::Math;
    switch (o.op) {
    case MATHS: { double x = some(b), y = some(o.a * 7 + o.c); D(Math::acos(x)); D(Math::asin(x)); D(Math::atan(x)); D(Math::atan2(x, y)); D(Math::cbrt(x)); D(Math::cos(x)); D(Math::cosh(x)); D(Math::exp(x)); D(Math::expm1(x)); D(Math::hypot(x, y)); D(Math::log(x)); D(Math::log10(x)); D(Math::log1p(x)); D(Math::pow(x, y)); D(Math::sin(x)); D(Math::sinh(x)); D(Math::sqrt(x)); D(Math::tan(x)); D(Math::tanh(x)); D(Math::toDegrees(x)); D(Math::toRadians(x)); D(Math::IEEERemainder(x, y)); break; }
    case MATHS2: { double x = some(b), y = some(o.a * 7 + o.c); float f = somef(b), g = somef(o.a); int i = bits(b), j = bits(o.a); long l = lbits(b), m = lbits(o.a); D(Math::ceil(x)); D(Math::floor(x)); D(Math::rint(x)); if (fabs(x) < 1e15) T(Math::round(x)); if (fabsf(f) < 1e6f) T(Math::round(f)); D(Math::abs(x)); D(Math::abs(f)); if (i != (int)0x80000000) T((long)Math::abs(i)); if (l != (long)0x8000000000000000l) T(Math::abs(l)); D(Math::max(x, y)); D(Math::min(x, y)); D(Math::max(f, g)); D(Math::min(f, g)); T((long)Math::max(i, j)); T((long)Math::min(i, j)); T(Math::max(l, m)); T(Math::min(l, m)); D(Math::signum(x)); D(Math::signum(f)); D(Math::copySign(x, y)); D(Math::copySign(f, g)); break; }
    case MATHS3: { double x = some(b), y = some(o.a * 7 + o.c); float f = somef(b); D(Math::nextAfter(x, y)); D(Math::nextAfter(f, y)); D(Math::nextDown(x)); D(Math::nextDown(f)); D(Math::nextUp(x)); D(Math::nextUp(f)); D(Math::ulp(x)); D(Math::ulp(f)); T((long)Math::getExponent(x)); T((long)Math::getExponent(f)); D(Math::scalb(x, (int)(o.a % 5000) - 2500)); D(Math::scalb(f, (int)(o.a % 500) - 250)); break; }
    case EXACT: { int i = bits(b), j = bits(o.a * 3 + o.c); long l = lbits(b), m = lbits(o.a * 3 + o.c); T((long)Math::addExact(i, j)); T(Math::addExact(l, m)); T((long)Math::subtractExact(i, j)); T(Math::subtractExact(l, m)); T((long)Math::multiplyExact(i, j)); T((long)Math::incrementExact(i)); T(Math::incrementExact(l)); T((long)Math::decrementExact(i)); T(Math::decrementExact(l)); T((long)Math::negateExact(i)); T(Math::negateExact(l)); T((long)Math::toIntExact(l)); if (m == 0 || l != (long)0x8000000000000000l) { T(m ? Math::multiplyExact(l, m) : 0l); } if (j > 0) { T((long)Math::floorDiv(i, j)); T((long)Math::floorMod(i, j)); } if (m > 0) { T(Math::floorDiv(l, m)); T(Math::floorMod(l, m)); } break; }
    case INTS: { int i = bits(b), j = bits(o.a * 3 + o.c); using I = Integer; T((long)I::bitCount(i)); T((long)I::compare(i, j)); T((long)I::compareUnsigned(i, j)); T((long)I::hashCode(i)); T((long)I::highestOneBit(i)); T((long)I::lowestOneBit(i)); T((long)I::max(i, j)); T((long)I::min(i, j)); T((long)I::numberOfLeadingZeros(i)); T((long)I::numberOfTrailingZeros(i)); if (j) { T((long)I::divideUnsigned(i, j)); T((long)I::remainderUnsigned(i, j)); } T((long)I::reverse(i)); T((long)I::reverseBytes(i)); T((long)I::rotateLeft(i, n)); T((long)I::rotateRight(i, n)); T((long)I::signum(i)); T((long)I::sum(i / 2, j / 2)); T(I::toUnsignedLong(i)); T(I::toBinaryString(i)); T(I::toHexString(i)); T(I::toOctalString(i)); T(I::toUnsignedString(i)); break; }
    case INTS2: { Integer x(bits(b) / 4), y(bits(o.a * 3 + o.c) % 30000 + 60000), z; z = x % y; T(z.toString()); z = x / y; T(z.toString()); T((long)(x > y)); T((long)(x >= y)); T((long)(x < y)); T((long)x.byteValue()); T((long)x.equals(y)); T((long)x.equals(x)); T((long)x.hashCode()); x %= y; T(x.toString()); x /= y; T(x.toString()); T(Integer::valueOf(bits(b)).toString()); break; }
    case LONGS: { long i = lbits(b), j = lbits(o.a * 3 + o.c); using L = Long; T((long)L::bitCount(i)); T((long)L::compare(i, j)); T(L::highestOneBit(i)); T(L::lowestOneBit(i)); T((long)L::numberOfLeadingZeros(i)); T((long)L::numberOfTrailingZeros(i)); T(L::reverse(i)); T(L::reverseBytes(i)); T(L::rotateLeft(i, n)); T(L::rotateRight(i, n)); T((long)L::signum(i)); T(L::toBinaryString(i)); T(L::toHexString(i)); T(L::toOctalString(i)); T(L::toString(i)); T(L::valueOf(i).toString()); break; }
    case LONGS2: { Long x(lbits(b) / 8), y(lbits(o.a * 3 + o.c) % 30000 + 60000), z; z = x % y; T(z.toString()); z = x / y; T(z.toString()); T((long)(x > y)); T((long)(x >= y)); T((long)x.byteValue()); T((long)x.compareTo(y)); T((long)x.equals(y)); x += y; T(x.toString()); x -= y; T(x.toString()); x %= y; T(x.toString()); x *= y; T(x.toString()); x /= y; T(x.toString()); T(Long::getLong(String(w)).toString()); T(Long::getLong(String(w), 5l).toString()); T(Long::getLong(String(u), Long(b)).toString()); break; }
    case BYTES1: { byte i = (byte)b, j = (byte)(o.a | 1); T((long)Bytes::compare(i, j)); T((long)Bytes::hashCode(i)); T((long)Bytes::toUnsignedInt(i)); T(Bytes::toUnsignedLong(i)); T(Bytes::toString(i)); T(Bytes::valueOf(i).toString()); Bytes x(i), y(j), z(Bytes::valueOf(j)); T((long)x.byteValue()); T((long)x.hashCode()); z = x / y; T(z.toString()); z = x % y; T(z.toString()); x /= y; T(x.toString()); x %= y; T(x.toString()); T((long)(x < y)); T((long)(x >= y)); T(Bytes(String("17")).toString()); T(Bytes(String(w)).toString()); break; }
    case FLOATS: { float x = somef(b), y = somef(o.a); T((long)Float::isFinite(x)); T((long)Float::isInfinite(x)); T((long)Float::isNaN(x)); D(Float::min(x, y)); T((long)Float::compare(x, y)); T((long)Float::floatToIntBits(x)); T((long)Float::floatToRawIntBits(x)); T(Float::toString(x)); D(Float::intBitsToFloat(bits(b))); T(Float::valueOf(x).toString()); T(Float::valueOf(String("2.5")).toString()); T(Float(String("-0.125")).toString()); T(Float(x).hashCode()); T(Float::valueOf(String(w)).toString()); break; }
    case FLOATS2: { float f = (float)(b % 10007) / 64, g = (float)(o.a % 101) + 1; Float x(f), y(g), z; z = x / y; T(z.toString()); z = x + y; T(z.toString()); z = x - y; T(z.toString()); z = x * y; T(z.toString()); T((long)(x >= y)); T((long)(x > y)); T((long)(x && y)); T((long)(x || y)); T((long)x.byteValue()); T((x += y).toString()); T((x -= y).toString()); T((x *= y).toString()); T((x /= y).toString()); break; }
    case DOUBLES: { double x = some(b), y = some(o.a); T((long)Double::isFinite(x)); T((long)Double::isInfinite(x)); T((long)Double::isNaN(x)); D(Double::min(x, y)); T((long)Double::compare(x, y)); T(Double::doubleToLongBits(x)); T(Double::doubleToRawLongBits(x)); D(Double::longBitsToDouble(lbits(b))); T(Double::valueOf(x).toString()); T(Double::valueOf(String("2.5")).toString()); T(Double(x).hashCode()); T(Double::valueOf(String(w)).toString()); break; }
    case DOUBLES2: { double f = (double)(b % 100003) / 64, g = (double)(o.a % 101) + 1; Double x(f), y(g), z; z = x / y; T(z.toString()); z = x + y; T(z.toString()); z = x - y; T(z.toString()); z = x * y; T(z.toString()); T((long)(x >= y)); T((long)(x > y)); T((long)(x && y)); T((long)(x || y)); if (f >= 0 && f < 255) T((long)x.byteValue()); T((x += y).toString()); T((x -= y).toString()); T((x *= y).toString()); T((x /= y).toString()); break; }
    case SHORTS: { Short x((short)b), y((short)((o.a & 0xff) + 1)), z; z = x % y; T(z.toString()); z = x / y; T(z.toString()); z = x + y; T(z.toString()); z = x - y; T(z.toString()); T((long)(x > y)); T((long)(x >= y)); T(Short::parseShort(String("123")).toString()); break; }
    case CHARS: { using C = Character; wchar_t x = (wchar_t)(0xd700 + (b & 0xfff)), y = (wchar_t)(0xdb00 + (o.a & 0xfff)); T((long)C::isHighSurrogate(x)); T((long)C::isLowSurrogate(y)); T((long)C::isSurrogate(x)); T((long)C::toCodePoint(x, y)); T((long)C().charCount((int)(b & 0x1fffff))); T((long)C::compare((char)(b & 127), (char)(o.a & 127))); T((long)C::digit((int)(b & 127), 2 + (int)(o.a % 35))); Array<char> t; for (const char *p = w; *p; p++) t.push(*p); t.push('x'); t.push('y'); T((long)C::codePointAt(t, n % t.length)); T((long)C::codePointAt(t, n % t.length, t.length)); T((long)C::codePointBefore(t, n % t.length + 1)); T((long)C::codePointBefore(t, n % t.length + 1, 0)); T((long)C::codePointCount(t, 0, t.length)); break; }
    case CAUSES: switch (b & 15) { case 0: cause<Exception>(out, w); break; case 1: cause<Java::Lang::RuntimeException>(out, w); break; case 2: cause<IllegalArgumentException>(out, w); break; case 3: cause<Java::Lang::IndexOutOfBoundsException>(out, w); break; case 4: cause<Java::Lang::ArithmeticException>(out, w); break; case 5: cause<ClassCastException>(out, w); break; case 6: cause<CloneNotSupportedException>(out, w); break; case 7: cause<Java::Lang::InterruptedException>(out, w); break; case 8: cause<Java::Lang::StringIndexOutOfBoundsException>(out, w); break; case 9: cause<Java::Lang::UnsupportedOperationException>(out, w); break; case 10: cause<Java::IO::IOException>(out, w); break; case 11: cause<Java::Security::GeneralSecurityException>(out, w); break; case 12: cause<Java::Security::NoSuchAlgorithmException>(out, w); break; case 13: cause<Java::Lang::Error>(out, w); break; default: cause<Throwable>(out, w); } break;
    case CAUSES2: { { char fill[512]; memset(fill, (int)(b & 255) | 1, sizeof fill); asm volatile("" : : "r"(fill) : "memory"); } Throwable *many[6] = {new Throwable(), new Throwable(String(w)), new Exception(), new Exception(String(u)), new NoSuchElementException(), new NumberFormatException(String(w))}; for (Throwable *t : many) { out.add((long)(t->getCause() == nullptr)); out.add(t->getMessage()); } delete many[0]; delete many[1]; delete (Exception *)many[2]; delete (Exception *)many[3]; delete (NoSuchElementException *)many[4]; delete (NumberFormatException *)many[5]; try { String(w).charAt(99); } catch (Exception &e) { out.add((long)(e.getCause() == nullptr)); out.add(e.getMessage()); } break; }
    case ERRORS: { using A = Java::Lang::AssertionError; Exception inner{String(u)}; A list[] = {A(), A(0.5 * n), A(0.25f), A((long)b), A(n), A('q'), A((boolean)true), A(String(w), &inner)}; for (A &x : list) { out.add(x.getMessage()); out.add((long)(x.getCause() == &inner)); out.add((long)(x.getCause() == nullptr)); } Java::IO::UnsupportedEncodingException e, f{String(w)}; T(e.getMessage()); T(f.getMessage()); out.add((long)(e.getCause() == nullptr)); try { throw f; } catch (Java::IO::IOException &g) { T(g.getMessage()); } break; }
    case VALUES: { T(String::valueOf((boolean)(b & 1))); T(String::valueOf((char)('a' + n))); char m[16]; snprintf(m, sizeof m, "%ld", b % 9999); T(String::valueOf(m)); T(String::valueOf((const char *)m)); T(String::valueOf(String(w))); T(String::valueOf((short)b)); T(String::valueOf(bits(b))); T(String::valueOf(lbits(b))); T(String::valueOf((long long)b)); T(String::valueOf(somef(b & ~1l))); T(String::valueOf(some(b & ~1l))); T(String::format("%b %s", Boolean((boolean)(b & 1)), Boolean(w))); T(String::format("%d|%i", Short((short)b), Integer(n))); T(String::format("%ld %s", Long(b), String(w))); T(String::format("%.3f %s", Double(n / 3.0), Float(0.5f))); break; }
    case GETCHARS: { String s(w); Array<char> to; for (int k = 0; k < 24; k++) to.push('.'); V(s.getChars(0, s.length(), to, 1)); V(s.getChars(n & 3, n & 7, to, n)); T(String(to)); T(String(to, n, 4)); T(String::copyValueOf(to)); T(String::copyValueOf(to, 2, 3)); Array<char> c = s.toCharArray(); out.add((long)c.length); Array<byte> y = s.getBytes(); out.add((long)y.length); T(String(y)); break; }
    case BUILDER: { StringBuilder x(w); Array<char> c; c.push('a'); c.push('b'); c.push('c'); Array<Character> d; d.push(Character('d')); d.push(Character('e')); d.push(Character('f')); V(x.append(d)); V(x.append(d, n & 3, 1)); V(x.append(c)); V(x.append(c, n & 3, 2)); V(x.append(Character('g'))); V(x.append({'h', 'i'})); V(x.append(Boolean((boolean)(b & 1)))); V(x.append(Double(0.5))); V(x.append(Float(0.25f))); V(x.append(Integer(n))); V(x.append(Long(b))); into(out, x, u, n); T(x.toString()); T((long)x.codePointAt(0)); T((long)x.codePointBefore(1)); T((long)x.codePointCount(0, x.length())); break; }
    case BUILDER2: { StringBuilder x(w); Array<char> c; c.push('a'); c.push('b'); c.push('c'); Array<Character> d; d.push(Character('d')); d.push(Character('e')); d.push(Character('f')); V(x.insert(n, d)); V(x.insert(0, d, n & 3, 1)); V(x.insert(1, c)); V(x.insert(1, c, n & 3, 2)); V(x.insert(n & 7, Character('g'))); V(x.insert(0, Boolean((boolean)(b & 1)))); V(x.insert(0, (boolean)true)); V(x.insert(n, Float(0.25f))); V(x.insert(2, 0.5f)); V(x.insert(n & 7, Long(b))); V(x.insert(1, (long)b)); V(x.setCharAt(n, Character('z'))); V(x.setCharAt(0, Character('y'))); T(x.toString()); { StringBuilder y(w); y.setLength((int)(o.a & 127)); T((long)y.indexOf(String("a"))); T((long)y.lastIndexOf(String("a"))); T((long)y.lastIndexOf(String("ab"), (int)(b & 255))); T((long)y.indexOf(String("b"), (int)(b & 255))); y.reverse(); T((long)y.lastIndexOf(String("a"))); T((long)y.length()); T(y.substring(0)); StringBuilder z(y); z.append(y.toString()); T((long)z.length()); } break; }
    case BUILDER3: { String s(w); const Java::Lang::CharSequence &q = s; StringBuilder x(q), y{'a', 'b', (char)('c' + n)}; T(x.toString()); T(y.toString()); x.reverse(); y.append(x.toString()); y.reverse(); T(y.toString()); StringBuilder z("\xed\xa0\x80x"); z.reverse(); T((long)z.length()); V(y.trimToSize()); T((long)y.capacity()); T(y.substring(1)); T(y.substring(n & 3, n & 7)); break; }
    case BUFFER: { String s(w); const Java::Lang::CharSequence &q = s; StringBuffer x(q); into(out, x, u, n); char m[8]; strcpy(m, "native"); V(x.append(m)); V(x.append(m, n & 3, 2)); T(x.toString()); T((long)x.capacity()); break; }
    case BUFFER2: { StringBuffer x(w); x.append("\xe2\x82\xac").append(u); for (int k = 0; k < 3; k++) T((long)x.offsetByCodePoints(k, n & 3)); T((long)x.codePointAt(n & 3)); T((long)x.codePointBefore((n & 3) + 1)); T((long)x.codePointCount(0, n & 7)); V(x.appendCodePoint(65 + n)); T(x.toString()); break; }
    case CONN: { Unset x; T(x.toString()); T(x.getURL().toString()); T((long)x.getConnectTimeout()); T((long)x.getReadTimeout()); x.setAllowUserInteraction(b & 1); x.setConnectTimeout(n); x.setDoInput(b & 2); x.setDoOutput(b & 4); x.setIfModifiedSince(b); x.setUseCaches(b & 8); x.setReadTimeout(n + 1); T((long)x.getAllowUserInteraction()); T((long)x.getConnectTimeout()); T((long)x.getDoInput()); T((long)x.getDoOutput()); T(x.getIfModifiedSince()); T((long)x.getUseCaches()); T((long)x.getReadTimeout()); fresh_ops::Conn c(URL("http://host.example:90/a?b=c#d")); T(c.toString()); T(c.getURL().getQuery()); Unset y(x); T((long)y.getReadTimeout()); break; }
    case CODEC: { Array<byte> in = bytes_of(o.a, b), to; for (int k = 0; k < 120; k++) to.push((byte)'.'); Base64::Encoder e = b & 1 ? Base64::getEncoder() : b & 2 ? Base64::getUrlEncoder() : Base64::getUrlEncoder().withoutPadding(); T((long)e.encode(in, to)); for (int k = 0; k < 50; k++) out.add((long)to[k]); Array<byte> coded = e.encode(in), back; for (int k = 0; k < 60; k++) back.push((byte)0); Base64::Decoder d = b & 1 ? Base64::getDecoder() : Base64::getUrlDecoder(); T((long)d.decode(coded, back)); for (int k = 0; k < 40; k++) out.add((long)back[k]); Array<byte> small; for (int k = 0; k < n; k++) small.push((byte)0); T((long)e.encode(in, small)); T((long)d.decode(coded, small)); Array<byte> line; line.push('\r'); line.push('\n'); Base64::Encoder m = Base64::getMimeEncoder(4 * (n & 3) + 4, line); T(m.encodeToString(in)); break; }
    case IDENT: { UUID x(lbits(b), lbits(o.a * 3 + o.c)), y, z; T(x.node()); T((long)x.version()); T((long)x.variant()); T((long)x.clockSequence()); T(y.node()); T(y.getTimestamp()); y = UUID::fromString("not an identifier"); T(y.getTimestamp()); T(y.toString()); T((long)y.equals(z)); UUID v(y), q; q = v; T(q.getTimestamp()); break; }
    case QUEUE1: { ConcurrentLinkedQueue<String> x; T((long)x.isEmpty()); for (int k = 0; k < n + 1; k++) T((long)(k & 1 ? x.add(String(word(k & 7))) : x.offer(String(word(k & 7))))); T((long)x.size()); T(x.poll()); V(x.peek()); V(x.element()); V(x.remove()); T((long)x.contains(String(w))); while (!x.isEmpty()) T(x.poll()); T(x.poll()); x.add(String(u)); x.clear(); T((long)x.size()); T(x.poll()); for (int k = 0; k < 70; k++) x.add(String(u)); T((long)x.size()); break; }
    case SEMA: { Semaphore x(n); T((long)x.availablePermits()); for (int k = 0; k < n; k++) x.acquire(); T((long)x.tryAcquire()); T((long)x.tryAcquire(2)); x.release(3); T((long)x.tryAcquire(4)); x.acquire(2); T((long)x.availablePermits()); V(x.acquire(-1)); V(x.release(-1)); T((long)x.tryAcquire(1, 1)); Semaphore y; T((long)y.availablePermits()); y.release(); T((long)y.tryAcquire()); T(x.toString()); break; }
    case UTCS: { T(Date::UTC((int)(b & 127) + 50, (int)(o.a % 12), (int)(o.c & 15) + 1, n, n * 3, n * 2)); T(Date::UTC(70, 0, 1, 0, 0, 0)); T(Date::UTC((int)(b & 127), (int)(o.a % 40) - 10, (int)(o.c * 9) - 20, n * 5, 70, -3)); T(Date::UTC(100, 1, 30, 24, 60, 60)); break; }
    case CLEARS: { HashMap<String, Integer> h; ConcurrentHashMap<String, Integer> m; ArrayList<Integer> l; BitSet s; for (int k = 0; k < n; k++) { h.put(String(word(k & 7)), Integer(k)); m.put(String(word(k & 7)), Integer(k)); l.add(Integer(k)); s.set(k * 11); } T((long)s.isEmpty()); h.clear(); m.clear(); T((long)h.size()); T((long)m.size()); T((long)h.isEmpty()); T((long)m.isEmpty()); T((long)h.containsKey(String(w))); T((long)m.containsKey(String(w))); m.put(String(w), Integer(n)); h.put(String(w), Integer(n)); T(m.get(String(w)).toString()); T(h.get(String(w)).toString()); s.clear(); T((long)s.isEmpty()); T((long)s.length()); m.clear(); m.clear(); T((long)m.size()); ArrayList<String> t; t.add(String(w)); l.clear(); T((long)l.size()); break; }
    case DIGEST1: { byte in[70], h[24]; for (int k = 0; k < 70; k++) in[k] = (byte)(b + k * 7); memset(h, 0, sizeof h); MessageDigest x = MessageDigest::getInstance(b & 1 ? "MD5" : "SHA1"); T((long)x.getDigestLength()); T(x.getAlgorithm()); x.update(in, 64 + (n & 3)); x.reset(); x.update(in, n * 4); T((long)x.digest(h, 20)); for (byte k : h) out.add((long)k); x.reset(); T((long)x.digest(h, 20)); for (byte k : h) out.add((long)k); x.reset(); V(x.digest(h, n)); V(MessageDigest::getInstance(String(w))); break; }
    case STACKC: { Stack<char> x; for (const char *p = w; *p; p++) x.push(*p); while (!x.isEmpty()) T((long)x.pop()); V(x.pop()); V(x.peek()); Stack<Double> y; for (int k = 0; k < n; k++) y.push(Double(k / 2.0)); while (!y.empty()) T(y.pop().toString()); V(y.pop()); break; }
    case ENUMS: { Made x("FIRST", n), y(w, 3), z(y); T(x.name()); T((long)x.ordinal()); T(y.toString()); T((long)x.compareTo(y)); T((long)x.equals(y)); z = x; T(z.name()); T((long)Boolean::compare(b & 1, b & 2)); T(Boolean::toString((boolean)(b & 1))); T(Boolean::valueOf(String(w)).toString()); T((long)Boolean(b & 1).compareTo(Boolean(b & 2))); T((long)Boolean(b & 1).hashCode()); break; }
    case STRINGS: { String s(w), t(u); const Java::Lang::CharSequence &q = t; T(s.clone()); T((long)s.contains(q)); T((long)s.contains(t)); T((long)s.contentEquals(q)); T((long)s.compareToIgnoreCase(t)); T((long)s.equalsIgnoreCase(t)); T((long)s.endsWith(t)); T((long)s.startsWith(t)); T((long)s.startsWith(t, n)); T((long)s.indexOf('a', n)); T((long)s.lastIndexOf('a', n)); T((long)s.indexOf(t, n)); T((long)s.lastIndexOf(t, n)); T((long)s.regionMatches(n, t, 0, 2)); T(s.replaceAll("[a-c]+", "_")); T(s.toUpperCase()); T(s.toLowerCase()); T((long)s.isEmpty()); break; }
    case PARSED: { char m[40]; snprintf(m, sizeof m, "%ld", b >> (o.c * 4)); String s(m); T((long)Integer::parseInt(s)); T(Long::parseLong(s)); T((long)Integer::parseInt(s, 16)); T(Long::parseLong(s, 16)); T((long)Integer::parseUnsignedInt(s)); T((long)Integer::parseUnsignedInt(s, 9 + n)); T(Short::parseShort(s).toString()); T((long)Bytes::parseBytes(s)); T((long)Bytes::parseBytes(s, 16)); T(Bytes::decode(s).toString()); T(Integer::decode(s).toString()); T(Long::decode(s).toString()); T(Integer::valueOf(s, 16).toString()); T(Integer::valueOf(s).toString()); T(Long::valueOf(s).toString()); T(Long::valueOf(s, 16).toString()); T(Double::parseDouble(s).toString()); T(Float::parseFloat(s).toString()); break; }
    }
}
}
#undef T
#undef V
#undef D
