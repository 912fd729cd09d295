#pragma once
// More operations on objects of one thread: newly made objects of most classes, arguments in and out of range, empty objects.
#include "ops_iso.h"
#include "library/Java/Lang/System/System.hpp"
#include "library/Java/Util/Random/Random.hpp"
#include "library/Java/Text/SimpleDateFormat/SimpleDateFormat.hpp"
#include "library/Java/Net/URLConnection/URLConnection.hpp"
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
#include "library/Java/Util/Concurrent/Semaphore/Semaphore.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include "library/Java/Lang/ClassCastException/ClassCastException.hpp"
#include "library/Java/Lang/CloneNotSupportedException/CloneNotSupportedException.hpp"
#include "library/Java/Lang/IndexOutOfBoundsException/IndexOutOfBoundsException.hpp"
#include "library/Java/Lang/NegativeArraySizeException/NegativeArraySizeException.hpp"
#include "library/Java/Lang/NoSuchElementException/NoSuchElementException.hpp"
#include "library/Java/Lang/NumberFormatException/NumberFormatException.hpp"
#include "library/Java/Lang/RuntimeException/RuntimeException.hpp"
#include "library/Java/Lang/UnsupportedOperationException/UnsupportedOperationException.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
#include "library/Java/Lang/AssertionError/AssertionError.hpp"
#include <errno.h>
namespace fresh_ops {
using iso_ops::Out; using iso_ops::word; using iso_ops::bytes_of;
using Java::Util::ArrayList; using Java::Util::HashMap; using Java::Util::LinkedList; using Java::Util::Vector; using Java::Util::Stack; using Java::Util::PriorityQueue; using Java::Util::BitSet; using Java::Util::Base64; using Java::Util::UUID; using Java::Util::Date; using Java::Net::URL;
struct Conn : Java::Net::URLConnection { Conn(URL u) : Java::Net::URLConnection(u) {} void connect() {} };
enum { NUMBERS, COPYNUM, TEXTS, BUILDERS, BUFFERS, LISTS, LISTS2, MAPS, QUEUES, BITSETS, DATES, DATECALC, FORMATS, UUIDS, RANDOMS, URLS, CONNECTIONS, CODECS, PARSE, LETTERS, RANGES, SHARED, ARRAYS, MEDIAS, EXC, ABSENT, ABSENT2, TRUTH, BYTEOPS, LETTERS2, FLOATOPS, ERRORS2, HASHES, ENVIRON, NOPS };
static const char *names[] = {"new numbers", "copied numbers", "new strings", "new builders", "new buffers", "new lists", "copied lists", "new maps", "new queues", "new bit sets", "new dates", "date fields", "date formats", "identifiers", "random sequences", "URL", "connection", "codecs", "parsing", "characters", "ranges", "shared structures", "arrays", "media types", "exceptions", "absent keys", "empty structures", "Boolean", "Bytes", "Character", "Double and Float", "more exceptions", "hash codes", "System getenv"};
template<class T> static void num(Out &out, const T &x) { out.add(x.toString()); out.add((long)x.intValue()); out.add((long)x.longValue()); out.add((long)x.doubleValue()); out.add((long)x.floatValue()); out.add((long)x.shortValue()); }
static void step(const Op &o, Out &out) {
    long a = o.a, b = o.b, c = o.c; const char *w = word(a), *u = word(b); int n = (int)(b & 1023) - 512;
    switch (o.op) {
    case NUMBERS: num(out, Integer()); num(out, Long()); num(out, Short()); num(out, Double()); num(out, Float()); out.add(Bytes().toString()); out.add((long)Bytes().intValue()); out.add((long)Character().charValue()); out.add(Boolean(c & 1).booleanValue()); out.add(Boolean("true").toString()); out.add(Boolean(w).booleanValue()); break;
    case COPYNUM: { Integer i(n), j(i), k; k = j; num(out, k); Long l(b), m(l), q; q = m; num(out, q); Short s((short)n), t(s); num(out, t); Double d(n / 4.0), e(d), f; f = e; num(out, f); Float x(n / 2.0f), y(x), z; z = y; num(out, z); Bytes p((byte)b), r(p); out.add(r.toString()); out.add((long)r.longValue()); out.add(i.compareTo(k)); out.add(i == j); out.add(d.compareTo(e)); break; }
    case TEXTS: { String e; out.add(e); out.add(e.length()); out.add(e.hashCode()); out.add(e.trim()); String f(w, 2); out.add(f); Array<byte> d = bytes_of(a, b); String g(d), h(d, 1, d.length - 1); out.add(g.getSize()); out.add(h.getSize()); Array<char> t; t.push('x'); t.push('y'); t.push('z'); String i(t), j(t, 1, 2); out.add(i); out.add(j); out.add(e.compareTo(w)); String q(u), r(std::move(q)); out.add(r); out.add(String::copyValueOf(t)); break; }
    case BUILDERS: { Java::Lang::StringBuilder x, y(20), z{String(w)}, q(z); out.add(x.toString()); out.add(x.length()); out.add(x.capacity()); out.add(y.capacity()); out.add(y.toString()); out.add(z.length()); out.add(q.toString()); z.ensureCapacity(100); out.add(z.toString()); out.add(z.capacity()); z.setLength(12); out.add(z.length()); out.add(z.toString()); for (int k = 0; k < z.length(); k++) out.add((long)z.charAt(k)); z.trimToSize(); out.add(z.capacity()); q = x; out.add(q.length()); q.append(n); out.add(q.toString()); break; }
    case BUFFERS: { Java::Lang::StringBuffer x, y(20), z{String(w)}, q(z); out.add(x.toString()); out.add(x.length()); out.add(x.capacity()); out.add(y.capacity()); out.add(y.toString()); out.add(z.length()); out.add(q.toString()); z.ensureCapacity(100); out.add(z.toString()); out.add(z.capacity()); z.setLength(12); out.add(z.length()); for (int k = 0; k < z.length(); k++) out.add((long)z.charAt(k)); z.trimToSize(); out.add(z.capacity()); q.append(n).append(u); q.setCharAt(0, 'Q'); out.add(q.toString()); break; }
    case LISTS: { ArrayList<Integer> x, y(5), z{Integer(1), Integer(n)}; out.add(x.toString()); out.add(y.size()); out.add(z.toString()); y.add(Integer(n)); out.add(y.toString()); Vector<int> v, v2(3), v3(2, 4), v4{1, 2, n}; out.add(v.size()); out.add(v.capacity()); out.add(v2.capacity()); for (int k = 0; k < 5; k++) { v3.add(k); v4.add(k); v2.add(k); } out.add(v3.capacity()); out.add(v4.toString()); v.setSize(3); for (int k = 0; k < 3; k++) out.add(v.get(k)); LinkedList<int> l; out.add(l.size()); l.addFirst(n); out.add(l.getLast()); break; }
    case LISTS2: { ArrayList<Integer> z{Integer(1), Integer(n)}, y(z), x; x = y; y.add(Integer(3)); out.add(x.toString()); out.add(y.toString()); Vector<int> v{1, 2, n}, v2(v), v3; v3 = v; v2.add(4); v3.add(5); v3.ensureCapacity(30); v3.trimToSize(); out.add(v2.toString()); out.add(v3.toString()); out.add(v3.capacity()); v = {7, 8}; v.add(9); out.add(v.toString()); LinkedList<int> l{1, n, 3}, l2(l); l2.addLast(4); l = l2; out.add(l.size()); out.add(l2.getLast()); break; }
    case MAPS: { HashMap<String, Integer> m, k{{String("a"), Integer(1)}, {String(w), Integer(n)}}, q(k); out.add(m.toString()); out.add(m.size()); out.add(m.getOrDefault(String("a"), Integer(n)).toString()); out.add(k.toString()); out.add(q.size()); m = q; m.put(String(u), Integer(2)); out.add(m.toString()); out.add(m.get(String(u)).toString()); HashMap<Integer, String> r; r.put(Integer(n), String(w)); out.add(r.toString()); out.add(r.get(Integer(n))); break; }
    case QUEUES: { PriorityQueue<int> x, y(7); out.add(x.size()); out.add(y.size()); y.add(n); y.offer(3); out.add(y.peek()); PriorityQueue<int> z(y); out.add(z.poll()); out.add(y.size()); z.clear(); out.add(z.size()); Stack<int> s; out.add(s.empty()); out.add(s.push(n)); out.add(s.search(n)); out.add(s.peek()); out.add(s.pop()); break; }
    case BITSETS: { BitSet x, y(70), z; out.add(x.size()); out.add(x.length()); out.add(y.size()); out.add(x.toString()); Array<long> l; l.push(b); l.push(a); l.push(0); BitSet q = BitSet::valueOf(l); out.add(q.toString()); out.add(q.size()); BitSet k = q.clone(); out.add(k.size()); out.add(k.equals(q)); q.set(300); out.add(q.cardinality()); out.add(q.hashCode()); z = q; z.clear(); out.add(BitSet::valueOf(bytes_of(a, b)).toString()); out.add(y.get(500)); y.set(65, 69); out.add(y.nextSetBit(0)); out.add(y.previousClearBit(69)); break; }
    case DATES: { Date d((long)(b & 0x3fffffff)), e(d), f(100 + (int)(a & 15), (int)(c & 7), 5), g(101, 3, 4, 5, 6), h(102, 3, 4, 5, 6, 7), i; i = d; out.add(d.getTime()); out.add(e.toString()); out.add(f.toString()); out.add(g.getTime()); out.add(h.toGMTString()); out.add(i.toLocaleString()); out.add(f.getTime()); out.add(h.getSeconds()); out.add(d.getTimezoneOffset()); out.add(e.equals(d)); out.add(f.compareTo(g)); out.add(d.before(g)); break; }
    case DATECALC: { Date d(1000000000l); d.setMonth((int)(a % 14)); out.add(d.getTime()); d.setDate((int)(b & 31)); out.add(d.getTime()); d.setHours(25); d.setMinutes(n & 63); d.setSeconds(59); out.add(d.getTime()); d.setYear(90); out.add(d.getYear()); out.add(d.getDay()); d.setTime(b & 0xfffffff); out.add(d.toString()); Date e = d.clone(); out.add(e.getHours()); break; }
    case FORMATS: { Java::Text::SimpleDateFormat f("yyyy-MM-dd HH:mm:ss"), g("yyyyMMdd'T'HHmmss"); Date d((long)(b & 0x3fffffff)); out.add(f.format(d)); f.setTimeZone(Java::Util::TimeZone::getTimeZone("Asia/Ho_Chi_Minh")); out.add(f.format(d)); out.add(g.format(d)); break; }
    case UUIDS: { UUID x(a, b), y(x), z; z = x; out.add(x.toString()); out.add(y.toString()); out.add(z.equals(x)); out.add(x.version()); out.add(x.variant()); out.add(x.clockSequence()); out.add(x.hashCode()); out.add(x.getLeastSignificantBits()); Array<byte> d = bytes_of(31, b); out.add(UUID::fromString("123e4567-e89b-12d3-a456-426655440000").toString()); break; }
    case RANDOMS: { Java::Util::Random r(b), q(r); for (int k = 0; k < 3; k++) { out.add(r.nextInt()); out.add(r.nextInt(100)); out.add(r.nextLong()); out.add((long)(r.nextDouble() * 1e9)); out.add((long)(r.nextGaussian() * 1e9)); out.add(r.nextBoolean()); out.add((long)(r.nextFloat() * 1e6)); } out.add((long)(q.nextGaussian() * 1e9)); out.add(q.nextInt()); Array<byte> d; for (int k = 0; k < 9; k++) d.push(0); q.nextBytes(&d); for (int k = 0; k < d.length; k++) out.add((long)d[k]); r.setSeed(a); out.add((long)(r.nextGaussian() * 1e9)); out.add(r.nextInt(1 + (int)(a & 63))); break; }
    case URLS: { URL x, y{String("http://a.example/p?q=1")}, z(y); out.add(x.getPort()); out.add(x.getHost()); out.add(x.toString()); out.add(y.getPort()); out.add(y.getHost()); out.add(z.getPort()); out.add(z.getPath()); out.add(z.toString()); break; }
    case CONNECTIONS: { Conn k{URL(String("http://a.example/"))}; out.add(k.getDoInput()); out.add(k.getDoOutput()); out.add(k.getUseCaches()); out.add(k.getIfModifiedSince()); out.add(k.getReadTimeout()); out.add(k.getConnectTimeout()); out.add(k.getAllowUserInteraction()); k.setReadTimeout(5); out.add(k.getReadTimeout()); out.add(k.getURL().getPort()); break; }
    case CODECS: { Base64::Encoder x = Base64::getEncoder().withoutPadding(), y(x), z = Base64::getMimeEncoder(); Array<byte> d = bytes_of(a, b); out.add(x.encodeToString(d)); out.add(y.encodeToString(d)); out.add(z.encodeToString(d)); out.add(Base64::getUrlEncoder().withoutPadding().encodeToString(d)); Base64::Decoder e = Base64::getMimeDecoder(), f(e); Array<byte> r = f.decode(z.encodeToString(d)); for (int k = 0; k < r.length; k++) out.add((long)r[k]); Array<byte> enc = x.encode(d); out.add(enc.length); out.add(Base64::getDecoder().decode(x.encodeToString(d)).length); break; }
    case PARSE: { static const char *t[] = {"12", "-7", "99999999999", "x1", "", "1e400", "-1e-400", "0x1f", "+5", "2147483647", "-2147483648", "9223372036854775807", "1e5", "nan", "12abc", "127"}; String s(t[a & 15]);
        try { out.add(Integer::parseInt(s)); } catch (Exception &) { out.add("no int"); } try { out.add(Long::parseLong(s)); } catch (Exception &) { out.add("no long"); } try { out.add(Short::parseShort(s).toString()); } catch (Exception &) { out.add("no short"); }
        try { out.add(Double::parseDouble(s).toString()); } catch (Exception &) { out.add("no double"); } try { out.add(Float::parseFloat(s).toString()); } catch (Exception &) { out.add("no float"); } try { out.add((long)Bytes::parseBytes(s)); } catch (Exception &) { out.add("no byte"); } try { out.add(Integer::decode(s).toString()); } catch (Exception &) { out.add("no decode"); } try { out.add(Integer::parseUnsignedInt(s)); } catch (Exception &) { out.add("no unsigned"); } break; }
    case LETTERS: { int x = (int)(b & 0x1ffff); out.add(Character().charCount(x)); Character k((char)b), l; l = k; out.add(l.compareTo(k)); break; }
    case RANGES: out.add(String(w).subString(0)); try { out.add(String(w).subString(2, 9)); } catch (std::exception &e) { out.add("range"); } try { out.add((long)String(w).charAt((int)(b & 15))); } catch (std::exception &) { out.add("range"); } try { ArrayList<Integer> x{Integer(1)}; out.add(x.get((int)(b & 3)).intValue()); } catch (std::exception &) { out.add("range"); } try { Vector<int> v; out.add(v.firstElement()); } catch (std::exception &) { out.add("empty"); } try { PriorityQueue<int> q; out.add(q.peek()); } catch (std::exception &) { out.add("empty"); } try { Stack<int> s; out.add(s.pop()); } catch (std::exception &) { out.add("empty"); } try { LinkedList<int> l; out.add(l.getFirst()); } catch (std::exception &) { out.add("empty"); } break;
    case SHARED: { Java::Util::Concurrent::ConcurrentHashMap<String, Integer> m; m.put(String(w), Integer(n)); out.add(m.get(String(w)).intValue()); out.add(m.size()); out.add(m.containsKey(String(u))); Java::Util::Concurrent::ConcurrentLinkedQueue<int> q; q.add(n); q.add(2); out.add(q.size()); out.add(q.poll()); Java::Util::Concurrent::Semaphore s(3); s.acquire(); out.add(s.availablePermits()); break; }
    case ARRAYS: { Array<int> x, y{3, 1, 2}, z(y); out.add(x.length); out.add(z.length); z.push(n); out.add(z[3]); x = z; out.add(x.length); Array<int> f = Java::Util::Arrays::copyOf(y, 6); for (int k = 0; k < f.length; k++) out.add(f[k]); Array<String> s{String(w), String(u)}; Array<String> t(s); t.push(String("z")); for (int k = 0; k < t.length; k++) out.add(t[k]); break; }
    case MEDIAS: { using Javax::Ws::Rs::Core::MediaType; MediaType x, y(String("text"), String("html")), z(y); out.add(String(x.toString())); out.add(x.isWildcardSubtype()); out.add(String(z.toString())); out.add(z.isCompatible(x)); out.add(z.getParameters().size()); x = y; out.add(x.getType()); break; }
    case EXC: { IllegalArgumentException x, y{String(w)}; Exception z(String("m"), &y), q(z); out.add(x.getMessage()); out.add(y.getMessage()); out.add(q.getMessage()); try { throw y; } catch (Exception &e) { out.add(e.getMessage()); } InterruptedException i; out.add(i.getMessage()); break; }
    case ABSENT: { HashMap<int, int> x; x.put(1, n); out.add(x.get((int)(b & 3))); out.add(x.putIfAbsent((int)(b & 3), 7)); out.add(x.replace((int)(c & 3), 8)); out.add(x.remove((int)(c >> 1 & 3))); out.add(x.getOrDefault((int)(c & 7), n)); HashMap<String, long> y; y.put(String(w), b); out.add(y.get(String(u))); out.add(y.remove(String(u))); out.add(y.replace(String(u), 3)); HashMap<int, double> z; out.add((long)(z.get(n) * 8)); out.add((long)(z.putIfAbsent(n, 2.5) * 8)); out.add((long)(z.get(n) * 8)); HashMap<String, bool> t; out.add(t.get(String(w))); out.add(t.putIfAbsent(String(w), true)); break; }
    case ABSENT2: { Java::Util::Concurrent::ConcurrentHashMap<int, int> m; out.add(m.getOrDefault(n, 4)); out.add(m.putIfAbsent(n, 5)); out.add(m.replace(n + 1, 6)); out.add(m.remove(n + 2)); try { out.add(m.get(n + 3)); } catch (std::exception &) { out.add("none"); } Java::Util::Concurrent::ConcurrentLinkedQueue<int> q; out.add(q.poll()); out.add(q.size()); Java::Util::Concurrent::ConcurrentLinkedQueue<double> qd; out.add((long)(qd.poll() * 8)); LinkedList<long> l; try { out.add(l.pollFirst()); } catch (std::exception &) { out.add("none"); } try { out.add(l.peekLast()); } catch (std::exception &) { out.add("none"); } try { out.add(l.peekFirst()); } catch (std::exception &) { out.add("none"); } try { out.add(l.pollLast()); } catch (std::exception &) { out.add("none"); } try { out.add(l.pop()); } catch (std::exception &) { out.add("none"); } PriorityQueue<long> h; try { out.add(h.poll()); } catch (std::exception &) { out.add("none"); } Vector<double> v; v.setSize(2); out.add((long)(v.get((int)(c & 1)) * 8)); Stack<char> s; try { out.add((long)s.peek()); } catch (std::exception &) { out.add("none"); } try { out.add((long)s.pop()); } catch (std::exception &) { out.add("none"); } break; }
    case TRUTH: { Boolean x(c & 1), y(w), z(false); z = x; out.add(x.hashCode()); out.add(z.hashCode()); out.add(y.hashCode()); out.add(Boolean::compare(c & 1, b & 1)); out.add(x.compareTo(y)); out.add(Boolean::getBoolean("true")); out.add(Boolean::parseBoolean(w)); out.add(x == z); out.add(z.equals(y)); out.add(Boolean::toString(b & 1)); out.add(Boolean::valueOf((boolean)(b & 1)).toString()); out.add(Boolean::valueOf("TRUE").booleanValue()); out.add(Boolean::valueOf(String(w)).booleanValue()); out.add(z.toString()); break; }
    case BYTEOPS: { Bytes x((byte)a), y((byte)b), z((byte)((b & 7) + 1)); out.add((x + y).toString()); out.add((x - y).toString()); out.add((x * y).toString()); out.add((x / z).toString()); out.add((x % z).toString()); out.add(x == y); out.add(x != y); out.add(x < y); out.add(x > y); out.add(x <= y); out.add(x >= y); out.add(Bytes::compare((byte)a, (byte)b)); out.add(x.compareTo(y)); out.add(x.hashCode()); out.add(Bytes::hashCode((byte)b)); out.add(x.equals(y)); try { out.add(Bytes::decode(String("0x1f")).toString()); out.add(Bytes::decode(String(w)).toString()); } catch (Exception &e) { out.add("threw"); } x += y; out.add(x.toString()); x -= z; x *= z; x /= z; x %= z; out.add(x.toString()); out.add((long)y.doubleValue()); out.add((long)y.floatValue()); out.add((long)y.shortValue()); out.add(Bytes::toUnsignedInt((byte)b)); out.add(Bytes::toUnsignedLong((byte)b)); break; }
    case LETTERS2: { int x = (int)(b & 0x1fffff); out.add(Character::compare((char)a, (char)b)); out.add(Character().charCount(x)); out.add(Character::isSurrogate((unicode)b)); { Character k1('a'), k2((char)('a' + (c & 3))); out.add(k1.compareTo(k2)); } out.add(Character::digit((char)(32 + (b & 95)), (int)(a & 63))); break; }
    case FLOATOPS: { Double x(n / 8.0), y((double)(a & 31) - 7), q; Float f(n / 4.0f), g((float)(b & 15) - 3), k; out.add(x.isNaN()); out.add(x.isInfinite()); out.add(Double::isNaN((double)n)); out.add(Double::isInfinite(1e308 * 10)); out.add(Double::doubleToLongBits(n / 8.0)); out.add((long)(Double::longBitsToDouble(0x4009000000000000l) * 8)); out.add((x + y).toString()); out.add((x - y).toString()); out.add((x * y).toString()); out.add(x == y); out.add(x < y); out.add(x >= y); out.add(x.compareTo(y)); out.add(x.equals(y)); out.add(x.hashCode() == x.hashCode()); out.add(Double::compare(n / 8.0, 2.5)); out.add((f + g).toString()); out.add((f - g).toString()); out.add((f * g).toString()); out.add(f == g); out.add(f > g); out.add(f.compareTo(g)); out.add(f.isNaN()); out.add(f.isInfinite()); out.add((long)Float::floatToIntBits(n / 4.0f)); q = x; k = f; out.add(q.toString()); out.add(k.toString()); break; }
    case ERRORS2: { static const char *m = "text"; String t(w);
#define X(T) try { if (c & 1) throw T(t); else throw T(); } catch (Exception &e) { out.add(e.getMessage()); }
        switch (a % 11) { case 0: X(Java::Lang::ArithmeticException) break; case 1: X(Java::Util::ClassCastException) break; case 2: X(Java::Lang::CloneNotSupportedException) break; case 3: X(Java::Lang::IndexOutOfBoundsException) break; case 4: X(Java::Lang::NegativeArraySizeException) break; case 5: X(NoSuchElementException) break; case 6: X(Java::Lang::NumberFormatException) break; case 7: X(Java::Lang::RuntimeException) break; case 8: X(Java::Lang::UnsupportedOperationException) break; case 9: X(Java::Lang::IllegalArgumentException) break; default: try { throw Java::Lang::AssertionError(n); } catch (Throwable &e) { out.add(e.getMessage()); } } (void)m; break; }
    case HASHES: { Date d((long)(b & 0x3fffffff) * 1000), e(d), f(5l); out.add(d.hashCode()); out.add(d == e); out.add(d == f); out.add(d.equals((const Object &)e)); out.add((d.hashCode() == e.hashCode())); out.add(String(w).hashCode()); out.add(Integer(n).hashCode()); out.add(Long(b).hashCode()); out.add(Bytes((byte)b).hashCode()); out.add(UUID(a, b).hashCode()); out.add(Boolean(c & 1).hashCode()); out.add(Float(n / 2.0f).hashCode()); out.add(Double(n / 2.0).hashCode()); break; }
    case ENVIRON: { static const char *k[] = {"TZ", "LC_ALL", "SIM_ABSENT", "LANGUAGE"}; out.add(Java::Lang::System::getenv(k[a & 3])); break; }
    }
}
}
namespace edge_ops {                                                               // arguments in and out of range, empty objects
using iso_ops::Out; using iso_ops::word;
using Java::Util::ArrayList; using Java::Util::HashMap; using Java::Util::LinkedList; using Java::Util::Vector; using Java::Util::Stack; using Java::Util::PriorityQueue; using Java::Util::BitSet;
enum { STR, STR2, STR3, STRNEW, SB1, SB2, SB3, SB4, BUF1, BUF2, BUF3, ALIST, ALIST2, VEC, VEC2, VEC3, LLIST, LLIST2, HEAP, STACK, MAP, BITS, BITS2, BITS3, CHARS, ARR, NOPS };
static const char *names[] = {"String at", "String search", "String parts", "String from arrays", "StringBuilder at", "StringBuilder change", "StringBuilder insert", "StringBuilder code points", "StringBuffer at", "StringBuffer change", "StringBuffer insert", "ArrayList at", "ArrayList change", "Vector at", "Vector change", "Vector ranges", "LinkedList at", "LinkedList ends", "PriorityQueue", "Stack", "HashMap", "BitSet at", "BitSet ranges", "BitSet search", "code points", "Arrays"};
#define T(x) do { try { out.add(x); } catch (Exception &e) { out.add(e.getMessage()); } catch (std::exception &e) { out.add("std"); } } while (0)
#define V(x) do { try { x; out.add("done"); } catch (Exception &e) { out.add(e.getMessage()); } catch (std::exception &e) { out.add("std"); } } while (0)
static void step(const Op &o, Out &out) {
    int z = (int)(o.a & 3), i = (int)(o.b & 7) - 2, j = (int)(o.b >> 3 & 7) - 2; static const char *texts[] = {"", "x", "xyz", "xyxz"}; String w(texts[z]), u(texts[o.c & 3]); char q = "xyzq"[o.c >> 2 & 3];
    switch (o.op) {
    case STR: T((long)w.charAt(i)); T(w.getStringFromIndex(i)); T(w.indexOf(q, i)); T(w.lastIndexOf(q, i)); T(w.indexOf(q)); T(w.lastIndexOf(q)); break;
    case STR2: T(w.indexOf(u)); T(w.lastIndexOf(u)); T(w.indexOf(u, i)); T(w.lastIndexOf(u, i)); T(w.contains(u)); T(w.startsWith(u)); T(w.startsWith(u, i)); T(w.endsWith(u)); T(w.regionMatches(i, u, j, (int)(o.c & 3))); break;
    case STR3: T(w.subString(i)); T(w.subString(i, j)); T(w.trim()); T(w.replace(String("x"), u)); T(w.replaceFirst("x", u)); T(w.replaceAll("x", u)); T(w.split("x").length); T(w.split("y", i).length); T(w.concat(u)); break;
    case STRNEW: { Array<char> c; Array<byte> b; for (int k = 0; k < z; k++) { c.push('a' + k); b.push('k'); } T(String(c, i, j)); T(String(b, i, j)); T(String(c)); T(String(b)); T(String::copyValueOf(c, i, j)); T(String::fromCharArray(c)); break; }
    case SB1: { Java::Lang::StringBuilder s(w); T((long)s.charAt(i)); T(s.substring(i)); T(s.substring(i, j)); T(s.indexOf(u, i)); T(s.lastIndexOf(u, i)); T(s.indexOf(u)); T(s.lastIndexOf(u)); V(s.setCharAt(i, q)); T(s.toString()); break; }
    case SB2: { Java::Lang::StringBuilder s(w), t(w), r(w), x(w); V(s.deleteCharAt(i)); T(s.toString()); V(t.deleteRange(i, j)); T(t.toString()); V(r.replace(i, j, u)); T(r.toString()); V(x.setLength(i)); T(x.toString()); T(x.length()); x.append(q); T(x.toString()); T(x.reverse().toString()); break; }
    case SB3: { Java::Lang::StringBuilder s(w), t(w), r(w); Array<char> c; for (int k = 0; k < z; k++) c.push('a' + k); V(s.insert(i, u)); V(s.insert(i, q)); V(s.insert(i, 5)); T(s.toString()); V(t.insert(i, c)); V(t.insert(i, c, j, (int)(o.c & 3))); T(t.toString()); V(r.append(c, i, j)); V(r.append(c)); T(r.toString()); s.trimToSize(); s.append(u); T(s.toString()); break; }
    case SB4: { Java::Lang::StringBuilder s(w); T(s.codePointAt(i)); T(s.codePointBefore(i)); T(s.codePointCount(i, j)); V(s.ensureCapacity(i)); T(s.toString()); s.trimToSize(); T(s.length()); T(s.toString()); T(Java::Lang::StringBuilder(i).toString()); break; }
    case BUF1: { Java::Lang::StringBuffer s(w); T((long)s.charAt(i)); T(s.subString(i)); T(s.subString(i, j)); T(s.indexOf(u, i)); T(s.lastIndexOf(u, i)); T(s.indexOf(u)); T(s.lastIndexOf(u)); V(s.setCharAt(i, q)); T(s.toString()); break; }
    case BUF2: { Java::Lang::StringBuffer s(w), t(w), r(w), x(w); V(s.deleteCharAt(i)); T(s.toString()); V(t.deletes(i, j)); T(t.toString()); V(r.replace(i, j, u)); T(r.toString()); V(x.setLength(i)); T(x.length()); x.append(q); T(x.length()); T(s.reverse().toString()); break; }
    case BUF3: { Java::Lang::StringBuffer s(w), t(w), r(w); Array<char> c; for (int k = 0; k < z; k++) c.push('a' + k); V(s.insert(i, u)); V(s.insert(i, q)); V(s.insert(i, 5)); T(s.toString()); V(t.insert(i, c)); V(t.insert(i, c, j, (int)(o.c & 3))); T(t.toString()); V(r.append(c)); T(r.toString()); s.trimToSize(); s.append(u); T(s.toString()); break; }
    case ALIST: { ArrayList<Integer> x; for (int k = 0; k < z; k++) x.add(Integer(k)); T(x.get(i).intValue()); T(x.indexOf(Integer(i))); T(x.lastIndexOf(Integer(i))); T(x.contains(Integer(i))); T(x.isEmpty()); T(x.toString()); V(x.clear()); T(x.size()); break; }
    case ALIST2: { ArrayList<Integer> x, y, v; for (int k = 0; k < z; k++) { x.add(Integer(k)); y.add(Integer(k)); v.add(Integer(k)); } T(x.set(i, Integer(9)).intValue()); T(x.toString()); V(y.add(i, Integer(8))); T(y.toString()); T(v.remove(i).intValue()); T(v.toString()); T(v.remove(Integer(1))); T(v.toString()); break; }
    case VEC: { Vector<int> x; for (int k = 0; k < z; k++) x.add(k); T(x.get(i)); T(x.elementAt(i)); T(x.firstElement()); T(x.lastElement()); T(x.indexOf(j, i)); T(x.lastIndexOf(j, i)); T(x.indexOf(i)); T(x.toString()); break; }
    case VEC2: { Vector<int> x, y, v, t; for (int k = 0; k < z; k++) { x.add(k); y.add(k); v.add(k); t.add(k); } T(x.set(i, 9)); V(x.setElementAt(7, i)); T(x.toString()); V(y.add(i, 8)); V(y.insertElementAt(6, j)); T(y.toString()); T(v.remove(i)); V(v.removeElementAt(j)); T(v.toString()); V(t.addAll(i, {4, 5})); T(t.toString()); break; }
    case VEC3: { Vector<int> x; for (int k = 0; k < z; k++) x.add(k); Array<int> a; for (int k = 0; k < (o.c & 3); k++) a.push(0); V(x.copyInto(a)); V(x.setSize(i)); T(x.size()); for (int v : x) T(v); V(x.trimToSize()); T(x.capacity()); V(x.removeAllElements()); T(Vector<int>(i, j).size()); break; }
    case LLIST: { LinkedList<int> x; for (int k = 0; k < z; k++) x.add(k); T(x.get(i)); T(x.remove(i)); T(x.size()); for (auto n : x) T(n->element); break; }
    case LLIST2: { LinkedList<int> x; for (int k = 0; k < z; k++) x.add(k); switch (o.c) { case 0: T(x.getFirst()); break; case 1: T(x.getLast()); break; case 2: T(x.peekFirst()); break; case 3: T(x.peekLast()); break; case 4: T(x.pollFirst()); break; case 5: T(x.pollLast()); break; case 6: T(x.pop()); break; case 7: T(x.remove()); break; case 8: T(x.removeLast()); break; case 9: T(x.poll()); break; case 10: T(x.peek()); break; case 11: T(x.element()); break; } T(x.size()); break; }
    case HEAP: { PriorityQueue<int> x; for (int k = 0; k < z; k++) x.add(5 - k); T(x.peek()); T(x.poll()); T(x.poll()); T(x.remove(i)); T(x.contains(j)); T(x.size()); T(x.poll()); T(x.peek()); T(x.size()); break; }
    case STACK: { Stack<int> x; for (int k = 0; k < z; k++) x.push(k); T(x.search(i)); T(x.pop()); T(x.peek()); T(x.pop()); T(x.search(i)); T(x.empty()); break; }
    case MAP: { HashMap<String, Integer> x; for (int k = 0; k < z; k++) x.put(String(texts[k]), Integer(k)); T(x.get(u).toString()); T(x.remove(u).toString()); T(x.get(u).toString()); T(x.replace(u, Integer(3)).toString()); T(x.remove(String("no"), Integer(1))); T(x.replace(w, Integer(0), Integer(4))); T(x.toString()); break; }
    case BITS: { BitSet x; for (int k = 0; k < z; k++) x.set(63 + k); int p = i + (o.c & 1 ? 62 : 0) + (o.c & 2 ? 128 : 0); T(x.get(p)); V(x.flip(p)); T(x.toString()); V(x.clear(p)); V(x.set(p, (boolean)(o.c & 4))); T(x.toString()); T(x.length()); T(x.cardinality()); break; }
    case BITS2: { BitSet x; for (int k = 0; k < z; k++) x.set(63 + k); int p = i + (o.c & 1 ? 62 : 0), e = j + (o.c & 2 ? 62 : 0) + (o.c & 4 ? 128 : 0); T(x.get(p, e).toString()); V(x.flip(p, e)); T(x.toString()); V(x.clear(p, e)); T(x.toString()); V(x.set(p, e)); T(x.toString()); V(x.set(p, e, false)); T(x.toString()); T(x.toByteArray().length); T(x.toLongArray().length); T(BitSet(i).size()); break; }
    case BITS3: { BitSet x, y; for (int k = 0; k < z; k++) { x.set(63 + k); y.set(127 * k); } int p = i + (o.c & 1 ? 62 : 0) + (o.c & 2 ? 64 : 0); T(x.nextSetBit(p)); T(x.nextClearBit(p)); T(x.previousSetBit(p)); T(x.previousClearBit(p)); T(x.intersects(y)); switch (o.c >> 2) { case 0: V(x.bitAnd(y)); break; case 1: V(x.bitOr(y)); break; case 2: V(x.bitXor(y)); break; case 3: V(x.andNot(y)); break; } T(x.toString()); T(x.equals(y)); T(x.hashCode()); break; }
    case CHARS: { Array<char> t; for (int k = 0; k < z; k++) t.push(k == 1 ? '\xd8' : 'a' + k); T(Character::codePointAt(t, i)); T(Character::codePointBefore(t, i)); T(Character::codePointCount(t, i, j)); T(Character::codePointAt(t, i, j)); T(Character::digit(q, i)); break; }
    case ARR: { Array<int> x; for (int k = 0; k < z; k++) x.push(k); T(x.get(i)); T(x[j]); T(Java::Util::Arrays::copyOf(x, i).length); T(Java::Util::Arrays::copyOfRange(x, i, j).length); V(Java::Util::Arrays::fill(&x, 4)); V(Java::Util::Arrays::fillByIndex(&x, i, j, 4)); for (int v : x) T(v); T(Array<int>((long)(i + 2)).length); break; }
    }
}
}
#undef T
#undef V
#undef X
