#pragma once
// Operations on objects of one thread, over most classes.
#include "simrt.h"
#include <string.h>
#include <stdio.h>
#include "library/Java/Lang.hpp"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
#include "library/Java/Util/HashMap/HashMap.hpp"
#include "library/Java/Util/LinkedList/LinkedList.hpp"
#include "library/Java/Util/Vector/Vector.hpp"
#include "library/Java/Util/Stack/Stack.hpp"
#include "library/Java/Util/PriorityQueue/PriorityQueue.hpp"
#include "library/Java/Util/BitSet/BitSet.hpp"
#include "library/Java/Util/Base64/Base64.hpp"
#include "library/Java/Util/UUID/UUID.hpp"
#include "library/Java/Security/MessageDigest/MessageDigest.hpp"
#include "library/Java/Net/URL/URL.hpp"
#include "library/Java/Net/URLEncoder/URLEncoder.hpp"
#include "library/Java/Net/URLDecoder/URLDecoder.hpp"
#include "library/Java/Lang/StringBuilder/StringBuilder.hpp"
#include "library/Java/Lang/StringBuffer/StringBuffer.hpp"
#include "library/Java/Util/Arrays/Arrays.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
using namespace sim; using namespace Java::Lang;
namespace iso_ops {
using Java::Util::ArrayList; using Java::Util::HashMap; using Java::Util::LinkedList; using Java::Util::Vector; using Java::Util::Stack; using Java::Util::PriorityQueue; using Java::Util::BitSet; using Java::Util::Base64; using Java::Util::UUID; using Java::Security::MessageDigest; using Java::Net::URL; using Java::Net::URLEncoder; using Java::Net::URLDecoder;
static const char *words[] = {"alpha", "Beta gamma", "ca\xc3\xa9 \xc3\x9cber", "a,b;c,d", "12345", "x=1&y=%20z", "", "The quick brown fox jumps over the lazy dog"};
static const char *word(long k) { return words[k & 7]; }
struct Out {                                                                       // what a thread gets to see
    std::string s;
    void add(long v) { char b[32]; snprintf(b, sizeof b, "%ld ", v); s += b; }
    void add(const String &v) { s += '\''; s.append(v.toCharPointer(), v.getSize()); s += "' "; }
    void add(const char *v) { s += v; s += ' '; }
};
static Array<byte> bytes_of(long a, long b) { Array<byte> r; int n = (int)(a & 31) + 1; uint64_t x = b * 2654435761u + a; for (int i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; r.push((byte)(x >> 56)); } return r; }
struct Mine {
    ArrayList<Integer> al; ArrayList<String> sl; HashMap<String, Integer> hm; LinkedList<int> ll; Vector<int> v; Stack<int> st; PriorityQueue<int> pq; BitSet bs; StringBuilder sb; MessageDigest md5, sha; int fed5, feds;
    Mine() : md5(MessageDigest::getInstance("MD5")), sha(MessageDigest::getInstance("SHA1")), fed5(0), feds(0) {}
};
enum { INTEGER, LONGS, DOUBLES, FLOATS, SMALLS, LETTERS, SPLIT, FORMAT, REPLACE, BASE64, MIME, URLCODE, DIGEST5, DIGEST1, UUIDS, ALIST, SLIST, MAP, LLIST, VECTOR, STACK, HEAP, BITS, BUILDER, URLS, MEDIA, ERRORS, MATH, VALUEOF, CHARS, SEARCH, PRINTS, NARROW, LONGDIG, BUILDER2, MAP2, ALIST2, VECTOR2, BITS2, LLIST2, STRING2, CHARS2, ARRAYS, BUFFER, COPIES, NOPS };
static const char *opname(int o) { static const char *n[] = {"Integer", "Long", "Double", "Float", "Short and Bytes", "String case", "String.split", "String.format", "String.replaceAll", "Base64", "Base64 MIME", "URLEncoder", "MD5", "SHA1", "UUID", "ArrayList", "ArrayList of strings", "HashMap", "LinkedList", "Vector", "Stack", "PriorityQueue", "BitSet", "StringBuilder", "URL", "MediaType", "exceptions", "Math", "String.valueOf", "Character", "String search", "String.format of wrappers", "narrowing conversions", "long digests", "StringBuilder editing", "HashMap replacing", "ArrayList editing", "Vector editing", "BitSet algebra", "LinkedList editing", "String editing", "Character code points", "Arrays", "StringBuffer", "copies"}; return n[o]; }
static void step(Mine &m, const Op &o, Out &out) {
    long a = o.a, b = o.b, c = o.c; const char *w = word(a), *u = word(b); int n = (int)(b & 1023) - 512;
    switch (o.op) {
    case INTEGER: { static const int radix[] = {10, 2, 8, 16, 36, 7}; int r = radix[(a & 0xff) % 6]; out.add(Integer::toString((int)b, r)); out.add(Integer::toString((int)b)); out.add(Integer::toHexString((int)b)); out.add(Integer::toOctalString((int)b)); out.add(Integer::toBinaryString((int)b)); out.add(Integer::parseInt(Integer::toString(n, r), r)); out.add(Integer::toUnsignedString((int)b)); out.add(Integer::bitCount((int)b)); out.add(Integer::valueOf(n).toString()); out.add(Integer::reverse((int)b)); break; }
    case LONGS: out.add(Long::toString(b)); out.add(Long::toHexString(b)); out.add(Long::toOctalString(b)); out.add(Long::toBinaryString(b)); out.add(Long::parseLong(Long::valueOf(b).toString())); out.add(Long::bitCount(b)); out.add(Long::reverse(b)); out.add(Long::valueOf(b).toString()); out.add(Long::decode("0x7fff").longValue()); break;
    case DOUBLES: { double d = (double)n / (double)((a & 255) + 1); out.add(Double::parseDouble("3.25e2").toString()); out.add(Double(d).toString()); out.add(Double::doubleToLongBits(d)); out.add(Double::valueOf(String("12.5")).toString()); break; }
    case FLOATS: { float f = (float)n / (float)((a & 63) + 1); out.add(Float::toString(f)); out.add(Float::parseFloat("0.5").toString()); out.add(Float::floatToIntBits(f)); out.add(Float(f).toString()); break; }
    case SMALLS: out.add(Short::parseShort(String("123")).toString()); out.add(Bytes::toString((byte)b)); out.add(Bytes::parseBytes("17")); out.add(Bytes::valueOf((byte)b).toString()); out.add(Bytes::valueOf(String("42")).toString()); out.add(Bytes::valueOf(String("1a"), 16).intValue()); out.add(Boolean::toString(b & 1)); out.add(Boolean::parseBoolean("true")); break;
    case LETTERS: out.add(String(w).toUpperCase()); out.add(String(u).toLowerCase()); out.add(String(w).equalsIgnoreCase(u)); out.add(String(w).compareTo(String(u))); out.add(String(w).hashCode()); break;
    case SPLIT: { Array<String> p = String(w).split(c & 1 ? "," : " "); for (int i = 0; i < p.length; i++) out.add(p[i]); out.add(p.length); out.add(String(w).concat(u).trim()); break; }
    case FORMAT: out.add(String::format("%d-%s|%5.2f", (int)b, String(w), (double)n / 8)); out.add(String::format("%s %s %x", w, u, n & 255)); break;
    case REPLACE: out.add(String(w).replaceAll("[a-d]+", "<x>")); out.add(String(w).replaceFirst("[eo]", "_")); out.add(String(w).replace('a', 'A')); break;
    case BASE64: { Array<byte> d = bytes_of(a, b); String e = c & 1 ? Base64::getUrlEncoder().encodeToString(d) : Base64::getEncoder().encodeToString(d); out.add(e); Array<byte> r = c & 1 ? Base64::getUrlDecoder().decode(e) : Base64::getDecoder().decode(e); for (int i = 0; i < r.length; i++) out.add((long)(unsigned char)r[i]); break; }
    case MIME: { Array<byte> d; for (int i = 0; i < 3; i++) { Array<byte> q = bytes_of(a | 31, b + i); for (int j = 0; j < q.length; j++) d.push(q[j]); } String e = Base64::getMimeEncoder().encodeToString(d); out.add(e); out.add(Base64::getMimeDecoder().decode(e).length); break; }
    case URLCODE: { String e = URLEncoder::encode(String(w)); out.add(e); out.add(URLDecoder::decode(e)); break; }
    case DIGEST5: case DIGEST1: {
        MessageDigest &d = o.op == DIGEST5 ? m.md5 : m.sha; int &fed = o.op == DIGEST5 ? m.fed5 : m.feds; Array<byte> in = bytes_of(a, b); byte buf[64]; for (int i = 0; i < in.length; i++) buf[i] = in[i];
        d.update(buf, in.length); fed++; if (c & 1) { byte h[20]; memset(h, 0, sizeof h); MessageDigest once = MessageDigest::getInstance(o.op == DIGEST5 ? "MD5" : "SHA1"); once.update(buf, in.length); once.digest(h, 20); for (int i = 0; i < 20; i++) out.add((long)(unsigned char)h[i]); } out.add(d.getDigestLength()); break; }
    case UUIDS: { UUID x(a * 7919 + b, b * 104729 + c); out.add(x.toString()); UUID y = UUID::fromString(x.toString()); out.add(y.equals(x)); out.add(x.hashCode()); out.add(y.compareTo(x)); out.add(x.variant()); break; }
    case ALIST: m.al.add(Integer(n)); out.add(m.al.indexOf(Integer(n))); if (c & 1) { m.al.set(0, Integer(n + 1)); } if (m.al.size() > 4) out.add(m.al.remove(0).intValue()); for (int i = 0; i < m.al.size(); i++) out.add(m.al.get(i).intValue()); break;
    case SLIST: m.sl.add(String(w)); out.add(m.sl.toString()); out.add(m.sl.contains(String(u))); if (m.sl.size() > 4) m.sl.clear(); break;
    case MAP: m.hm.put(String(w), Integer(n)); out.add(m.hm.containsKey(String(u))); out.add(m.hm.getOrDefault(String(u), Integer(-1)).intValue()); if (c & 1) out.add(m.hm.remove(String(u)).intValue()); out.add(m.hm.size()); out.add(m.hm.toString()); break;
    case LLIST: if (a & 1) m.ll.addFirst(n); else m.ll.addLast(n); if (c & 1) out.add(m.ll.pollLast()); out.add(m.ll.size()); if (m.ll.size()) out.add(m.ll.peekFirst()); break;
    case VECTOR: m.v.add(n); if (m.v.size() > 6) out.add(m.v.remove(1)); if (c & 1) m.v.insertElementAt(n, 0); out.add(m.v.indexOf(n)); for (int i = 0; i < m.v.size(); i++) out.add(m.v.get(i)); break;
    case STACK: m.st.push(n); out.add(m.st.search(n)); if (c & 1) out.add(m.st.pop()); if (!m.st.empty()) out.add(m.st.peek()); break;
    case HEAP: m.pq.add(n); if (c & 1) out.add(m.pq.poll()); out.add(m.pq.size()); if (m.pq.size()) out.add(m.pq.peek()); break;
    case BITS: m.bs.set((int)(b & 255)); if (c & 1) m.bs.flip((int)(a & 15), (int)(a & 15) + 20); if (c & 2) m.bs.clear((int)(a & 255)); out.add(m.bs.cardinality()); out.add(m.bs.nextClearBit(0)); out.add(m.bs.toString()); break;
    case BUILDER: m.sb.append((int)b).append(String(w)).append('c').append((double)n); if (c & 1) m.sb.insert(1, String(u)); if (c & 2) m.sb.reverse(); out.add(m.sb.toString()); if (m.sb.length() > 100) m.sb.setLength(3); break;
    case URLS: { char t[100]; snprintf(t, sizeof t, "http://host%ld.example.com:%d/p/%s?q=%ld", a & 15, 80 + (int)(b & 63), words[0], b & 255); URL x{String(t)}; out.add(x.getHost()); out.add(x.getPort()); out.add(x.getPath()); out.add(x.getQuery()); out.add(x.getProtocol()); out.add(x.toString()); break; }
    case MEDIA: { Javax::Ws::Rs::Core::MediaType t = Javax::Ws::Rs::Core::MediaType::valueOf(b & 1 ? "text/plain; charset=utf-8" : "application/*"); out.add(t.getType()); out.add(t.getSubtype()); out.add(t.isWildcardSubtype()); break; }
    case ERRORS: try { if (c & 1) throw IllegalArgumentException(String(w)); else throw InterruptedException(String(u)); } catch (IllegalArgumentException &e) { out.add(e.getMessage()); } catch (Exception &e) { out.add(e.getMessage()); } break;
    case MATH: out.add((long)(Math::sin((double)n) * 1e9)); out.add(Math::round((double)n / 7)); out.add(Math::max((int)a, (int)b)); out.add((long)(Math::pow(1.5, (double)(n & 15)) * 1000)); out.add(Math::floorMod((int)b, 7)); break;
    case VALUEOF: out.add(String::valueOf((int)b)); out.add(String::valueOf((double)n / 16)); out.add(String::valueOf((boolean)(b & 1))); out.add(String::valueOf((long)b)); out.add(String::valueOf((float)n)); out.add(String::valueOf((char)('a' + (b & 15)))); break;
    case CHARS: out.add(Character::digit('a' + (int)(b & 3), 16)); { Array<char> t = String(w).toCharArray(); out.add(t.length); if (t.length) out.add(Character::codePointAt(t, 0)); } out.add((long)Character((char)(97 + (b & 7))).charValue()); break;
    case SEARCH: out.add(String(w).indexOf(String(u))); out.add(String(w).contains(String(u))); out.add(String(w).startsWith(u)); out.add(String(w).endsWith(u)); out.add(String(w).subString(0, String(w).length() / 2)); out.add(String(w).getBytes().length); break;
    case PRINTS: out.add(String::format("%d %d %u", (short)n, (unsigned short)(b & 0xffff), (unsigned)b)); out.add(String::format("%ld|%lu|%lld", b, (unsigned long)b, (long long)b)); out.add(String::format("%6.3f/%g", (float)n / 4, (double)n / 8)); out.add(String::format("%d %ld %s", Integer(n), Long(b), "k")); out.add(String::format("%d %f %f", Short((short)n), Float((float)n / 2), Double((double)n / 4))); out.add(String::format("%s %d%%", String(u), (bool)(b & 1))); break;
    case NARROW: out.add((long)Integer(n).charValue()); out.add((long)Short((short)n).charValue()); out.add((long)Double((double)n / 2).charValue()); out.add((long)Bytes((byte)b).charValue()); out.add(Integer(n).stringValue()); out.add(Integer(n).longValue()); out.add((long)Long(b).intValue()); out.add((long)Float((float)n / 2).intValue()); out.add(Integer(n).hashCode()); out.add(Long(b).hashCode()); out.add(Double((double)n).hashCode()); break;
    case LONGDIG: {
        unsigned char raw[300]; memset(raw, 0, sizeof raw); Array<byte> in = bytes_of(a, b); int len = 60 + (int)(b & 127), from = (int)(a & 3); for (int i = 0; i < len; i++) raw[from + i] = (unsigned char)(in[i % in.length] + i); byte h[20]; memset(h, 0, sizeof h);
        MessageDigest d = MessageDigest::getInstance(c & 1 ? "MD5" : "SHA1"); if (c & 2) { d.update((byte *)raw + from, 3); d.update((byte *)raw + from + 3, len - 3); } else d.update((byte *)raw + from, len); d.digest(h, 20); for (int i = 0; i < 20; i++) out.add((long)(unsigned char)h[i]); break; }
    case BUILDER2: { StringBuilder x{String("abcabdabcabcabd")}; x.append(String(w)).append((long)b).append((float)n / 2).append((boolean)(b & 1)); out.add(x.indexOf("abcabd")); out.add(x.lastIndexOf("abd")); out.add(x.indexOf(String(u), 2)); x.insert(3, (int)n); x.insert(0, (double)n / 4); x.deleteCharAt(2); x.deleteRange(1, 4); x.replace(2, 5, String(u)); x.reverse(); out.add(x.toString()); out.add(x.substring(2, 6)); out.add(x.codePointAt(1)); x.setCharAt(0, 'Z'); out.add(x.toString()); break; }
    case MAP2: { m.hm.putIfAbsent(String(w), Integer((int)a)); if (m.hm.containsKey(String(u))) out.add(m.hm.replace(String(u), Integer(n)).intValue()); out.add(m.hm.containsValue(Integer(n))); HashMap<String, Integer> o2; o2.put(String(u), Integer(3)); o2.putAll(m.hm); out.add(o2.equals(m.hm)); out.add(o2.toString()); long sum = 0; for (auto const &e : o2) sum += e.second.intValue(); out.add(sum); out.add(m.hm.remove(String(w), Integer((int)a))); if (m.hm.size() > 6) m.hm.clear(); break; }
    case ALIST2: { ArrayList<Integer> x{Integer(1), Integer(n), Integer(3)}; x.add(1, Integer((int)a)); x.trimToSize(); ArrayList<Integer> y = x.clone(); y.remove(0); out.add(x.contains(Integer(n))); out.add(y.size()); for (auto const &e : y) out.add(e.intValue()); x.clear(); out.add(x.isEmpty()); break; }
    case VECTOR2: { Vector<int> x{1, n, 3}; x.add(0, (int)a & 7); x.addAll({4, 5, n}); out.add(x.lastIndexOf(n)); out.add(x.contains(n)); x.setElementAt(9, 1); x.removeElementAt(0); out.add(x.containsAll({4, 5})); x.retainAll({4, 5, 9}); out.add(x.toString()); x.setSize(2); x.ensureCapacity(30); x.trimToSize(); out.add(x.firstElement()); out.add(x.lastElement()); Vector<int> y(x); out.add(y.equals(x)); for (int e : y) out.add(e); break; }
    case BITS2: { BitSet x, y; x.set((int)(a & 63), (int)(a & 63) + 20); y.set((int)(b & 127)); y.set(3); if (c & 1) x.bitAnd(y); else x.bitXor(y); if (c & 2) x.andNot(m.bs); else x.bitOr(m.bs); out.add(x.toString()); out.add(x.hashCode()); out.add(x.length()); out.add(x.intersects(y)); out.add(x.previousSetBit(100)); out.add(x.nextSetBit(1)); out.add(x.previousClearBit(64)); BitSet z = x.get(2, 60); out.add(z.toString()); out.add(x.clone().equals(x)); break; }
    case LLIST2: { m.ll.add(n); if (m.ll.size() > 1) { out.add(m.ll.get(1)); } m.ll.push(7); out.add(m.ll.pop()); m.ll.offerFirst(n); out.add(m.ll.getFirst()); out.add(m.ll.getLast()); if (m.ll.size() > 5) { m.ll.remove(2); m.ll.removeLast(); } long sum = 0; for (int i = 0; i < m.ll.size(); i++) sum = sum * 3 + m.ll.get(i); out.add(sum); if (c == 3) m.ll.clear(); break; }
    case STRING2: { String x(w); out.add(x.lastIndexOf(String("a"))); out.add(x.indexOf('e')); out.add(x.indexOf('a', 2)); out.add(x.lastIndexOf('a')); out.add(x.compareToIgnoreCase(String(u))); out.add(x.replace(String("a"), String("<b>"))); x += String(u); x += '.'; out.add(x); out.add(x.getStringFromIndex(1)); Array<String> p = x.split("[ ,]", 2); for (int i = 0; i < p.length; i++) out.add(p[i]); out.add(x.toSTLString().c_str()); out.add(x.subString(1)); out.add(x.charAt(0)); out.add(String::copyValueOf(x.toCharArray())); break; }
    case CHARS2: { Array<char> t = String("ab\xed\xa0\x80zq").toCharArray(); out.add(Character::codePointBefore(t, 2)); out.add(Character::codePointCount(t, 0, 3)); out.add(Character::isSurrogate((unicode)(0xd800 + (b & 0xfff)))); out.add(Character::toCodePoint(0xd801, (unicode)(0xdc00 + (b & 0x3ff)))); out.add(Character::compare('a', (char)('a' + (b & 3)))); out.add(Character::digit('0' + (int)(b & 15), 16)); break; }
    case ARRAYS: { Array<int> x; for (int i = 0; i < 6; i++) x.push((int)((b >> i) & 31)); Array<int> y = Java::Util::Arrays::copyOf(x, 4), z = Java::Util::Arrays::copyOfRange(x, 1, 5); for (int i = 0; i < y.length; i++) out.add(y[i]); for (int i = 0; i < z.length; i++) out.add(z[i]); out.add(Java::Util::Arrays::hashCode(x)); break; }
    case BUFFER: { StringBuffer x{String(w)}; x.append((int)b).append(String(u)).append((double)n / 4).append('q'); x.insert(1, (long)b); if (x.length() > 4) { x.deleteCharAt(2); x.replace(1, 3, String(u)); } x.reverse(); out.add(x.toString()); out.add(x.indexOf(String("a"))); out.add(x.length()); break; }
    case COPIES: { String x(w), y = x, z(u); y = z; z = x; x = z; out.add(x); out.add(y); out.add(z); HashMap<String, Integer> k(m.hm); out.add(k.size()); BitSet bb = m.bs; bb.set(5); out.add(bb.cardinality()); StringBuilder sb2 = m.sb; sb2.append("copy"); out.add(sb2.toString()); Integer i1(n), i2 = i1; i1 = Integer(4); out.add(i2.toString()); Array<String> ar; ar.push(x); ar.push(y); Array<String> as = ar; out.add(as[1]); break; }
    }
}
static void safe(Mine &m, const Op &o, Out &out) {
    try { step(m, o, out); } catch (Exception &e) { out.add("threw"); out.add(e.getMessage()); } catch (std::exception &e) { out.add("threw std"); out.add(e.what()); } catch (...) { out.add("threw something"); }
}
}
