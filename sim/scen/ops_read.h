#pragma once
// Reading operations on objects that stay unchanged.
#include "simrt.h"
#include <string.h>
#include <stdio.h>
#include <memory>
#include "library/Java/Lang.hpp"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
#include "library/Java/Util/HashMap/HashMap.hpp"
#include "library/Java/Util/LinkedList/LinkedList.hpp"
#include "library/Java/Util/Vector/Vector.hpp"
#include "library/Java/Util/Stack/Stack.hpp"
#include "library/Java/Util/PriorityQueue/PriorityQueue.hpp"
#include "library/Java/Util/BitSet/BitSet.hpp"
#include "library/Java/Util/Base64/Base64.hpp"
#include "library/Java/Util/UUID/UUID.hpp"
#include "library/Java/Util/Date/Date.hpp"
#include "library/Java/Util/Arrays/Arrays.hpp"
#include "library/Java/Net/URL/URL.hpp"
#include "library/Java/Lang/StringBuilder/StringBuilder.hpp"
#include "library/Java/Lang/StringBuffer/StringBuffer.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
using namespace sim; using namespace Java::Lang;
namespace read_ops {
using Java::Util::ArrayList; using Java::Util::HashMap; using Java::Util::LinkedList; using Java::Util::Vector; using Java::Util::Stack; using Java::Util::PriorityQueue; using Java::Util::BitSet; using Java::Util::Base64; using Java::Util::UUID; using Java::Util::Date; using Java::Net::URL;
static const char *words[] = {"alpha", "Beta gamma", "ca\xc3\xa9 \xc3\x9cber", "a,b;c,d", "12345", "x=1&y=%20z", "", "The quick brown fox jumps over the lazy dog"};
static const char *word(long k) { return words[k & 7]; }
struct Out { std::string s;
    void add(long v) { char b[32]; snprintf(b, sizeof b, "%ld ", v); s += b; }
    void add(const String &v) { s += '\''; s.append(v.toCharPointer(), v.getSize()); s += "' "; } };
struct Shared {                                                                    // built by one thread, then only read
    String s1, s2, s3; ArrayList<Integer> al; ArrayList<String> sl; HashMap<String, Integer> hm; LinkedList<int> ll; Vector<int> v; Stack<int> st; PriorityQueue<int> pq; BitSet b1, b2; StringBuilder sb; StringBuffer sf; UUID id, id2; Date day; URL url;
    Javax::Ws::Rs::Core::MediaType mt; Array<byte> bytes; Array<String> strings; Integer i; Long l; Double d; Float f; Short sh; Bytes by; Boolean bo; IllegalArgumentException x; Base64::Encoder en; Base64::Decoder de;
    Shared(const Program &p) : s1(word(p.get("w1"))), s2(word(p.get("w2"))), s3(""), sb(String(word(p.get("w2")))), sf(String(word(p.get("w1")))), id(p.get("x") * 7919 + 1, p.get("y") * 31 - 5), id2(p.get("y"), p.get("x")), day(1000000000l + p.get("x")), url(String("http://host.example.com:8080/p/a?q=1")),
        mt(Javax::Ws::Rs::Core::MediaType::valueOf("text/plain; charset=utf-8")), i((int)p.get("x")), l(p.get("y") * 100003), d((double)p.get("x") / 8), f((float)p.get("y") / 4), sh((short)p.get("x")), by((byte)p.get("y")), bo(p.get("x") & 1), x(String(word(p.get("w2")))), en(Base64::getEncoder()), de(Base64::getDecoder()) {
        s3 = s1 + s2; int n = (int)p.get("n"); long z = p.get("x");
        for (int k = 0; k < n; k++) { z = (z * 1103515245 + 12345) & 0x7fffffff; int e = (int)(z >> 8) % 100; al.add(Integer(e)); sl.add(String(word(e))); hm.put(String(word(e)), Integer(k)); ll.addLast(e); v.add(e); st.push(e); pq.add(e); b1.set(e); b2.set(e * 2); sb.append(e); sf.append(e); bytes.push((byte)e); strings.push(String(word(e))); }
    } };
enum { STR, HASH, CASES, SEARCH, SPLIT, CONV, ALIST, ALTEXT, SLTEXT, MAP, MAPTEXT, LLIST, VECTOR, VTEXT, STACK, HEAP, BITS, BITTEXT, BUILDER, BUFFER, UUIDS, DATES, DATETEXT, URLS, MEDIA, ARRAY, NUMS, NUMTEXT, THROWN, CODEC, COPY, FORMAT, NOPS };
static const char *names[] = {"String comparison", "String.hashCode", "String case", "String search", "String.split", "String conversion", "ArrayList lookup", "ArrayList.toString", "ArrayList.toString", "HashMap lookup", "HashMap.toString", "LinkedList lookup", "Vector lookup", "Vector.toString", "Stack lookup", "PriorityQueue lookup", "BitSet lookup", "BitSet.toString", "StringBuilder lookup", "StringBuffer lookup", "UUID", "Date fields", "Date text", "URL", "MediaType", "Array lookup", "number values", "number texts", "exception message", "Base64", "copies", "String.format"};
static void step(Shared &m, const Op &o, Out &out) {
    int k = (int)o.a; const Shared &c = m; int n = (int)c.al.size();
    switch (o.op) {
    case STR: out.add(c.s1.compareTo(c.s2)); out.add(c.s1.equals(c.s3)); out.add(c.s1 == c.s2); out.add(c.s3.length()); out.add(c.s3.isEmpty()); if (c.s3.length()) out.add((long)c.s3.charAt(0)); out.add(c.s3); break;
    case HASH: out.add(c.s1.hashCode()); out.add(c.s2.hashCode()); out.add(c.s3.hashCode()); break;
    case CASES: out.add(c.s2.toUpperCase()); out.add(c.s2.toLowerCase()); out.add(c.s1.equalsIgnoreCase(c.s2)); out.add(c.s3.trim()); break;
    case SEARCH: out.add(c.s3.indexOf(c.s2)); out.add(c.s3.lastIndexOf(c.s2)); out.add(c.s3.indexOf('a')); out.add(c.s3.contains(c.s1)); out.add(c.s3.startsWith(c.s1)); out.add(c.s3.endsWith(c.s2)); out.add(c.s3.subString(0, c.s3.length() / 2)); break;
    case SPLIT: { Array<String> p = c.s3.split(k & 1 ? "," : " "); for (int i = 0; i < p.length; i++) out.add(p[i]); out.add(c.s3.replaceAll("[a-d]+", "<x>")); out.add(c.s3.replace('a', 'A')); break; }
    case CONV: out.add(c.s3.getBytes().length); out.add(c.s3.toCharArray().length); out.add(c.s3.concat(c.s1)); out.add(c.s3 + c.s2); out.add(c.s1.toString()); break;
    case ALIST: out.add(c.al.contains(Integer(k))); out.add(c.al.indexOf(Integer(k))); out.add(c.al.lastIndexOf(Integer(k))); if (n) out.add(c.al.get(k % n).intValue()); for (auto const &e : c.al) out.add(e.intValue()); out.add(m.al.toArray().length); { long t = 0; m.al.forEach([&t](Integer e) -> boolean { t = t * 7 + e.intValue(); return true; }); out.add(t); } break;
    case ALTEXT: out.add(m.al.toString()); break;
    case SLTEXT: out.add(m.sl.toString()); break;
    case MAP: out.add(c.hm.containsKey(String(word(k)))); out.add(c.hm.getOrDefault(String(word(k)), Integer(-1)).intValue()); out.add(c.hm.containsValue(Integer(k & 7))); out.add(c.hm.size()); for (auto const &e : c.hm) { out.add(e.first); out.add(e.second.intValue()); } { long t = 0; c.hm.forEach([&t](String e, Integer f) -> boolean { t = t * 7 + f.intValue() + e.length(); return true; }); out.add(t); } out.add(m.hm.equals(c.hm)); break;
    case MAPTEXT: out.add(m.hm.toString()); break;
    case LLIST: out.add(m.ll.size()); if (n) { out.add(m.ll.get(k % n)); out.add(m.ll.getFirst()); out.add(m.ll.getLast()); out.add(m.ll.peekFirst()); out.add(m.ll.peekLast()); } { long t = 0; for (auto e = m.ll.begin(); e != m.ll.end(); ++e) t++; out.add(t); } break;
    case VECTOR: out.add(c.v.contains(k)); out.add(c.v.indexOf(k)); out.add(c.v.lastIndexOf(k)); if (n) { out.add(c.v.get(k % n)); out.add(c.v.elementAt(k % n)); out.add(c.v.lastElement()); out.add(m.v.firstElement()); } for (int e : c.v) out.add(e); out.add(c.v.equals(m.v)); out.add(c.v.toArray().length); break;
    case VTEXT: out.add(c.v.toString()); break;
    case STACK: out.add(m.st.search(k)); out.add(m.st.empty()); if (n) out.add(m.st.peek()); break;
    case HEAP: out.add(c.pq.contains(k)); out.add(c.pq.size()); if (n) out.add(c.pq.peek()); { Array<int> t = c.pq.toArray(); for (int i = 0; i < t.length; i++) out.add(t[i]); } break;
    case BITS: out.add(c.b1.get(k)); out.add(c.b1.cardinality()); out.add(c.b1.nextSetBit(k)); out.add(c.b1.nextClearBit(k)); out.add(c.b1.previousSetBit(k)); out.add(c.b1.hashCode()); out.add(c.b1.length()); out.add(m.b1.intersects(c.b2)); out.add(c.b1.equals(c.b2)); out.add(c.b1.toByteArray().length); out.add(c.b1.get(0, k).cardinality()); { BitSet z(c.b1); z.bitOr(c.b2); out.add(z.cardinality()); } break;
    case BITTEXT: out.add(c.b1.toString()); out.add(c.b2.toString()); break;
    case BUILDER: out.add(c.sb.toString()); out.add(c.sb.length()); out.add(m.sb.indexOf(String("1"))); if (c.sb.length()) out.add((long)c.sb.charAt(k % c.sb.length())); break;
    case BUFFER: out.add(c.sf.toString()); out.add(c.sf.length()); out.add(m.sf.indexOf(String("1"))); break;
    case UUIDS: out.add(c.id.toString()); out.add(c.id.hashCode()); out.add(c.id.compareTo(c.id2)); out.add(c.id.equals(c.id2)); out.add(c.id.variant()); out.add(c.id.getMostSignificantBits()); break;
    case DATES: out.add(c.day.getTime()); out.add(c.day.getYear()); out.add(c.day.getMonth()); out.add(c.day.getDate()); out.add(c.day.getDay()); out.add(c.day.getHours()); out.add(c.day.getMinutes()); out.add(c.day.getSeconds()); out.add(c.day.after(Date(5l))); out.add(m.day.clone().equals(c.day)); break;
    case DATETEXT: out.add(c.day.toString()); out.add(c.day.toLocaleString()); out.add(c.day.toGMTString()); out.add(c.day.getTimezoneOffset()); break;
    case URLS: out.add(m.url.getHost()); out.add(m.url.getPort()); out.add(m.url.getPath()); out.add(m.url.getQuery()); out.add(m.url.getProtocol()); out.add(c.url.toString()); break;
    case MEDIA: { Javax::Ws::Rs::Core::MediaType &t = m.mt; out.add(t.getType()); out.add(t.getSubtype()); out.add(t.isWildcardSubtype()); out.add(String(t.toString())); out.add(t.isCompatible(t)); break; }
    case ARRAY: out.add(c.bytes.length); for (int i = 0; i < m.strings.length; i++) out.add(m.strings.get(i)); { Array<byte> y = Java::Util::Arrays::copyOf(c.bytes, 3); out.add(y.length); } break;
    case NUMS: out.add(c.i.intValue()); out.add(c.l.longValue()); out.add((long)(c.d.doubleValue() * 8)); out.add((long)(c.f.floatValue() * 8)); out.add(c.sh.intValue()); out.add(c.by.intValue()); out.add(c.bo.booleanValue()); out.add(m.i.hashCode()); out.add(m.l.hashCode()); out.add(c.i < Integer(k)); break;
    case NUMTEXT: out.add(c.i.toString()); out.add(c.l.toString()); out.add(c.d.toString()); out.add(c.f.toString()); out.add(c.sh.toString()); out.add(c.by.toString()); out.add(c.bo.toString()); break;
    case THROWN: out.add(m.x.getMessage()); out.add(m.x.getMessage().length()); break;
    case CODEC: { String e = m.en.encodeToString(c.bytes); out.add(e); out.add(m.de.decode(e).length); break; }
    case COPY: { String a(c.s3); a += "."; out.add(a); StringBuilder b(c.sb); b.append('x'); out.add(b.toString()); ArrayList<Integer> l(c.al); l.add(Integer(1)); out.add(l.size()); HashMap<String, Integer> h(c.hm); h.put(String("new"), Integer(1)); out.add(h.size()); BitSet s(c.b1); s.set(7); out.add(s.cardinality()); Date t(c.day); t.setSeconds(3); out.add(t.getSeconds()); Vector<int> v(c.v); v.add(1); out.add(v.size()); LinkedList<int> q(c.ll); q.addLast(1); out.add(q.size()); Integer i(c.i); out.add(i.toString()); StringBuffer f(c.sf); f.append('y'); out.add(f.toString()); break; }
    case FORMAT: out.add(String::format("%s|%s|%d", c.s1, c.s2, c.i)); break;
    }
}
static void safe(Shared &m, const Op &o, Out &out) { try { step(m, o, out); } catch (Exception &e) { out.add(String("threw ") + e.getMessage()); } catch (std::exception &e) { out.add(String(e.what())); } }
}
