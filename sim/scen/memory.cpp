// C17: running out of memory. Every operation is applied to an object whose allocations may fail and to a twin whose allocations
// do not; afterwards the object must look like the twin before or after the operation, and go on behaving like it.
#include "simrt.h"
#include <string.h>
#include <stdio.h>
#include <new>
#include <memory>
#include "library/Java/Lang.hpp"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
#include "library/Java/Util/HashMap/HashMap.hpp"
#include "library/Java/Util/LinkedList/LinkedList.hpp"
#include "library/Java/Util/Vector/Vector.hpp"
#include "library/Java/Util/Stack/Stack.hpp"
#include "library/Java/Util/PriorityQueue/PriorityQueue.hpp"
#include "library/Java/Util/BitSet/BitSet.hpp"
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
#include "library/Java/Lang/StringBuilder/StringBuilder.hpp"
#include "library/Java/Lang/StringBuffer/StringBuffer.hpp"
#include "library/Java/Security/MessageDigest/MessageDigest.hpp"
#include "library/Java/Util/UUID/UUID.hpp"
#include "library/Java/Util/Date/Date.hpp"
#include "library/Java/Lang/Bytes/Bytes.hpp"
using namespace sim; using namespace Java::Lang; using namespace Java::Util; using Java::Util::Concurrent::ConcurrentHashMap; using Java::Util::Concurrent::ConcurrentLinkedQueue;
static const char *words[] = {"", "a", "short", "exactly fifteen", "sixteen letters!", "a text that is too long to be kept inside of the string object itself", "caf\xc3\xa9 \xc3\x9c" "berma\xc3\x9f und noch etwas mehr text dahinter", "x,y,,z"};
static String W(long k) { return String(words[k & 7]); }
struct Out { std::string s; bool soft = false; void add(long v) { char b[32]; snprintf(b, sizeof b, "%ld ", v); s += b; } void add(const String &v) { s += '\''; s.append(v.toCharPointer(), v.getSize()); s += "' "; } void add(const char *v) { s += v; s += ' '; } };
// Things a subject makes along the way are put here, so that reporting them does not allocate while allocations fail.
struct Result { String text[3]; long num[6]; int nt = 0, nn = 0; bool soft = false, anyorder = false; void add(long v) { if (nn < 6) num[nn++] = v; } void add(String v) { if (nt < 3) text[nt++] = v; } };
struct Subject { virtual ~Subject() {} virtual void apply(const Op &o, Result &r) = 0; virtual void content(Out &o) = 0; virtual bool bulk(const Op &) { return false; } };
template <class E> struct Elem { static E of(long k) { return E((int)(k & 7) * 1234567); } };
template <> struct Elem<String> { static String of(long k) { return W(k); } };
static inline void give(Result &r, const String &v) { r.add(v); } static inline void give(Result &r, const Integer &v) { r.add((long)v.intValue()); } static inline void give(Result &r, long v) { r.add(v); } static inline void give(Result &r, int v) { r.add((long)v); } static inline void give(Result &r, bool v) { r.add((long)v); }
static inline void give(Out &r, const String &v) { r.add(v); } static inline void give(Out &r, const Integer &v) { r.add((long)v.intValue()); }
template <class T> struct SArrayList : Subject { ArrayList<T> x;
    void apply(const Op &o, Result &r) override { int n = x.size(); switch (o.op % 9) { case 0: case 1: give(r, x.add(Elem<T>::of(o.b))); break; case 2: x.add((int)(o.a % (n + 1)), Elem<T>::of(o.b)); break; case 3: if (n) give(r, x.set((int)(o.a % n), Elem<T>::of(o.b))); break; case 4: if (n) give(r, x.remove((int)(o.a % n))); break; case 5: give(r, x.toString()); break; case 6: { ArrayList<T> y = x.clone(); give(r, (long)y.size()); break; } case 7: give(r, x.indexOf(Elem<T>::of(o.b))); break; case 8: { ArrayList<T> y; y = x; if (o.a & 1) y.add(0, Elem<T>::of(o.b)); if (o.a & 2) y.add(Elem<T>::of(o.b + 1)); x = y; break; } } }
    void content(Out &o) override { o.add(x.size()); for (int i = 0; i < x.size(); i++) give(o, x.get(i)); } };
template <class T> struct SVector : Subject { Vector<T> x;
    void apply(const Op &o, Result &r) override { int n = x.size(); switch (o.op % 9) { case 0: case 1: give(r, x.add(Elem<T>::of(o.b))); break; case 2: x.insertElementAt(Elem<T>::of(o.b), (int)(o.a % (n + 1))); break; case 3: if (n) x.setElementAt(Elem<T>::of(o.b), (int)(o.a % n)); break; case 4: if (n) give(r, x.remove((int)(o.a % n))); break; case 5: give(r, x.toString()); break; case 6: { Vector<T> y(x); give(r, (long)y.size()); if (o.a & 1) y.insertElementAt(Elem<T>::of(o.b), 0); if (o.a & 2) y.add(Elem<T>::of(o.b + 1)); if (o.a & 4) x = y; else if (o.a & 8) x = {Elem<T>::of(o.b), Elem<T>::of(o.b + 2)}; break; } case 7: x.ensureCapacity((int)(o.a & 63)); break; case 8: x.addAll({Elem<T>::of(o.b), Elem<T>::of(o.b + 1)}); break; } }
    bool bulk(const Op &o) override { return o.op % 9 == 8; }
    void content(Out &o) override { o.add(x.size()); for (int i = 0; i < x.size(); i++) give(o, x.get(i)); } };
template <class T> struct SLinkedList : Subject { LinkedList<T> x;
    void apply(const Op &o, Result &r) override { int n = (int)x.size(); switch (o.op % 12) { case 0: give(r, x.add(Elem<T>::of(o.b))); break; case 1: x.addFirst(Elem<T>::of(o.b)); break; case 2: x.addLast(Elem<T>::of(o.b)); break; case 3: if (n) give(r, x.pollFirst()); break; case 4: if (n) give(r, x.pollLast()); break; case 5: x.push(Elem<T>::of(o.b)); break; case 6: if (n) give(r, x.pop()); break; case 7: if (n) give(r, x.get((int)(o.a % n))); break; case 8: if (n) give(r, x.remove((int)(o.a % n))); break; case 9: if (n) { give(r, x.removeLast()); } else { LinkedList<T> y(x); LinkedList<T> z; z = y; give(r, (long)z.size()); } break; case 11:  { LinkedList<T> y(x); y.addFirst(Elem<T>::of(o.b)); x = y; } break; case 10: if (o.a % 4 == 0) x.clear(); else give(r, x.offerFirst(Elem<T>::of(o.b))); break; } }
    void content(Out &o) override { long n = x.size(); o.add(n); for (int i = 0; i < n; i++) give(o, x.get(i)); } };
template <class T> struct SStack : Subject { Stack<T> x;
    void apply(const Op &o, Result &r) override { switch (o.op % 6) { case 5: { Stack<T> y(x); y.push(Elem<T>::of(o.b)); x = y; break; } case 0: case 1: give(r, x.push(Elem<T>::of(o.b))); break; case 2: if (!x.empty()) give(r, x.pop()); break; case 3: if (!x.empty()) give(r, x.peek()); break; case 4: if (!x.empty()) give(r, x.search(Elem<T>::of(o.b))); break; } }
    void content(Out &o) override { o.add(x.size()); for (int i = 0; i < x.size(); i++) give(o, x.get(i)); } };
template <class T> struct SHeap : Subject { PriorityQueue<T> x;
    void apply(const Op &o, Result &r) override { switch (o.op % 6) { case 0: case 1: give(r, x.add(Elem<T>::of(o.a))); break; case 2: if (x.size()) give(r, x.poll()); break; case 3: give(r, x.contains(Elem<T>::of(o.a))); break; case 4: { PriorityQueue<T> y(x); y.offer(Elem<T>::of(o.b)); give(r, y.peek()); x = y; break; } case 5: { Array<T> y = x.toArray(); give(r, (long)y.length); break; } } }
    void content(Out &o) override { PriorityQueue<T> y(x); o.add(y.size()); while (y.size()) give(o, y.poll()); } };
struct SMap : Subject { HashMap<String, String> x;
    void apply(const Op &o, Result &r) override { String k = W(o.a); switch (o.op % 10) { case 0: case 1: x.put(k, W(o.b)); break; case 2: r.add(x.remove(k)); break; case 3: r.add(x.putIfAbsent(k, W(o.b))); break; case 4: r.add(x.replace(k, W(o.b))); break; case 5: r.add(x.toString()); r.anyorder = true; break; case 6: { HashMap<String, String> y(x); r.add(y.size()); if (o.b & 1) y.put(W(o.b + 1), k); if (o.b & 2) x = y; break; } case 7: r.add(x.getOrDefault(k, W(o.b))); break; case 8: { HashMap<String, String> y; y.put(W(o.b), k); y.put(W(o.b + 1), k); x.putAll(y); break; } case 9: if (o.b % 4 == 0) x.clear(); else r.add(x.remove(k, W(o.b))); break; } }
    bool bulk(const Op &o) override { return o.op % 10 == 8; }
    void content(Out &o) override { o.add(x.size()); for (int i = 0; i < 8; i++) { o.add(x.containsKey(W(i))); o.add(x.getOrDefault(W(i), String("none"))); } } };
struct SString : Subject { String x;
    void apply(const Op &o, Result &r) override { switch (o.op % 16) { case 0: x += W(o.b); break; case 1: x = W(o.b); break; case 2: x = x.concat(W(o.b)); break; case 3: r.add(x.replace(String("e"), W(o.b))); break; case 4: r.add(x.toUpperCase()); break; case 5: r.add(x.toLowerCase()); break; case 6: { Array<String> p = x.split(","); r.add((long)p.length); for (int i = 0; i < p.length && i < 3; i++) r.add(p[i]); break; } case 7: r.add(String::format("%s=%d %5.1f", x, (int)o.a, 2.5)); break; case 8: r.add(x.replaceAll("[a-d]", "<>")); break; case 9: r.add(x.replaceFirst("t+", "#")); break; case 10: if (x.length() > 2) r.add(x.subString(1, x.length() - 1)); break; case 11: r.add(x.trim()); break; case 12: r.add(String::valueOf((double)(o.a % 1000) / 8)); r.add(String::valueOf((int)o.a)); r.add(String::valueOf(o.b)); break; case 13: { Array<char> c = x.toCharArray(); r.add((long)c.length); r.add(String::fromCharArray(c)); break; } case 14: r.add(x + W(o.b) + String("end")); r.add(x.indexOf(W(o.b))); break; case 15: r.add((long)x.getBytes().length); r.add((long)x.compareTo(W(o.b))); r.add((long)x.equalsIgnoreCase(W(o.b))); break; } if (x.length() > 300) x = String("cut"); }
    bool bulk(const Op &) override { return x.length() > 200; }
    void content(Out &o) override { o.add(x); } };
struct SBuffer : Subject { StringBuffer x;
    void apply(const Op &o, Result &r) override { int n = x.length(); switch (o.op % 14) { case 0: case 1: x.append(W(o.b)); break; case 2: x.append((int)o.a); break; case 3: x.append((char)('a' + (o.a & 15))); break; case 4: x.insert(n ? (int)(o.a % n) : 0, W(o.b)); break; case 5: if (n > 1) x.deletes(0, (int)(o.a % n)); break; case 6: if (n > 2) x.replace(1, 2, W(o.b)); break; case 7: x.reverse(); break; case 8: r.add(x.toString()); break; case 9: if (n > 1) r.add(x.subString(1)); break; case 10: x.ensureCapacity((int)(o.a % 200)); break; case 11: { StringBuffer y(x); r.add((long)y.length()); break; } case 12: { StringBuffer y{W(o.b)}; x = y; break; } case 13: x.append((double)(o.a % 1000) / 8); if (o.b & 1) x.trimToSize(); break; } }
    bool bulk(const Op &o) override { return o.op % 14 == 13; }
    void content(Out &o) override { o.add(x.length()); o.add(x.toString()); } };
struct SBuilder : Subject { StringBuilder x;
    void apply(const Op &o, Result &r) override { int n = x.length(); switch (o.op % 15) { case 0: case 1: x.append(W(o.b)); break; case 2: x.append((int)o.a); break; case 3: x.append((char)('a' + (o.a & 15))); break; case 4: x.insert(n ? (int)(o.a % n) : 0, W(o.b)); break; case 5: if (n > 1) x.deleteRange(0, (int)(o.a % n)); break; case 6: if (n > 2) x.replace(1, 2, W(o.b)); break; case 7: x.reverse(); break; case 8: r.add(x.toString()); break; case 9: if (n > 1) r.add(x.substring(1)); break; case 10: x.ensureCapacity((int)(o.a % 200)); break; case 11: { StringBuilder y(x); r.add((long)y.length()); break; } case 13: { StringBuilder y{W(o.b)}; if (o.a & 1) y.append(W(o.b >> 3)); x = y; break; } case 14: if (n) x.setLength((int)(o.a % 100)); x.trimToSize(); break; case 12: r.add(x.indexOf(W(o.b | 1))); r.add(x.lastIndexOf(W(o.b | 1))); break; } }
    void content(Out &o) override { o.add(x.length()); o.add(x.toString()); } };
struct SBits : Subject { BitSet x;
    void apply(const Op &o, Result &r) override { switch (o.op % 11) { case 0: case 1: x.set((int)(o.a % 700)); break; case 2: x.flip((int)(o.a % 700)); break; case 3: x.clear((int)(o.a % 700)); break; case 4: { BitSet y; y.set((int)(o.a % 700)); x.bitOr(y); break; } case 5: r.add(x.toString()); break; case 6: { BitSet y = x.clone(); r.add((long)y.cardinality()); break; } case 8: { BitSet y; y.set((int)(o.a % 700)); y.set((int)(o.b % 700)); x = y; break; } case 9: { BitSet y; y.set(1, (int)(o.a % 700) + 2); if (o.b & 1) x.bitXor(y); else x.bitAnd(y); break; } case 10: x.set((int)(o.a % 100), (int)(o.a % 100) + (int)(o.b & 511)); break; case 7: { BitSet y = x.get(3, 200); r.add((long)y.cardinality()); break; } } }
    void content(Out &o) override { o.add(x.cardinality()); for (int i = x.nextSetBit(0); i >= 0; i = x.nextSetBit(i + 1)) o.add(i); } };
struct SCMap : Subject { ConcurrentHashMap<String, String> x;
    void apply(const Op &o, Result &r) override { char b[40]; snprintf(b, sizeof b, "key number %ld of the map", o.a % 12); String k(b); switch (o.op % 6) { case 0: case 1: case 2: x.put(k, W(o.b)); break; case 3: r.add(x.remove(k)); break; case 4: r.add(x.getOrDefault(k, W(o.b))); break; case 5: r.add((long)x.containsKey(k)); break; } }
    void content(Out &o) override { o.add(x.size()); for (int i = 0; i < 12; i++) { char b[40]; snprintf(b, sizeof b, "key number %d of the map", i); o.add(x.getOrDefault(String(b), String("none"))); } } };
struct SCQueue : Subject { ConcurrentLinkedQueue<String> x;
    void apply(const Op &o, Result &r) override { switch (o.op % 4) { case 0: case 1: case 2: { bool ok = x.add(W(o.b | 1)); if (!ok) r.soft = true; r.add((long)ok); break; } case 3: r.add(x.poll()); break; } }
    void content(Out &o) override { std::vector<String> all; for (;;) { String s = x.poll(); if (s.getSize() == 0) break; all.push_back(s); } for (auto &s : all) { o.add(s); x.add(s); } } };
struct SDigest : Subject { Java::Security::MessageDigest d; int n = 0; SDigest() : d(Java::Security::MessageDigest::getInstance("SHA1")) {}
    void apply(const Op &o, Result &r) override { byte b[8] = {1, 2, 3, 4, 5, 6, 7, (byte)o.a}; switch (o.op % 3) { case 0: d.update(b, 8); n++; break; case 1: { Java::Security::MessageDigest e = Java::Security::MessageDigest::getInstance("MD5"); e.update(b, 8); byte h[16]; e.digest(h, 16); for (int i = 0; i < 6; i++) r.add((long)h[i]); break; } case 2: { UUID u(o.a, o.b); r.add(u.toString()); r.add((long)UUID::fromString(u.toString()).equals(u)); break; } } }
    void content(Out &o) override { o.add(n); } };
template <class N, class V> struct SNumber : Subject { N x; SNumber() : x((V)5) {}
    void apply(const Op &o, Result &r) override { switch (o.op % 7) { case 0: x = N((V)o.a); break; case 1: { N y((V)o.b); x = y; break; } case 2: { N y(x); r.add(y.toString()); break; } case 3: r.add(x.toString()); break; case 4: { N y = x + N((V)o.b); r.add(y.toString()); break; } case 5: { N y = x - N((V)o.b); x = y; break; } case 6: { N y; y = x; r.add((long)y.intValue()); r.add(y.toString()); break; } } }
    void content(Out &o) override { o.add((long)x.intValue()); o.add(x.toString()); } };
struct SInteger : SNumber<Integer, int> { void apply(const Op &o, Result &r) override { switch (o.op % 13) { case 0: x += Integer((int)o.b); break; case 1: x -= Integer((int)o.a); break; case 2: if (x.intValue() < 4000 && x.intValue() > -4000) x *= Integer((int)o.b); break; case 3: x /= Integer(3); break; case 4: x %= Integer(7); break; case 5: r.add(Integer(String::valueOf((int)o.a)).toString()); break; default: SNumber::apply(o, r); } } };
struct SBytes : SNumber<Bytes, byte> { void apply(const Op &o, Result &r) override { switch (o.op % 12) { case 0: x += Bytes((byte)o.b); break; case 1: x -= Bytes((byte)o.a); break; case 2: x *= Bytes((byte)o.b); break; case 3: x /= Bytes((byte)3); break; case 4: x %= Bytes((byte)7); break; default: SNumber::apply(o, r); } } };
struct SDate : Subject { Date x; SDate() : x(98, 3, 4, 5, 6, 7) {}
    void apply(const Op &o, Result &r) override { switch (o.op % 9) { case 0: x.setYear((int)(o.a % 200)); break; case 1: x.setMonth((int)(o.a % 12)); break; case 2: x.setDate((int)(o.a % 28)); break; case 3: x.setHours((int)(o.a % 24)); break; case 4: r.add(x.toLocaleString()); r.add(x.toGMTString()); break; case 5: { Date y(x); r.add(y.toString()); break; } case 6: { Date y(99, 1, 2); y = x; x = y.clone(); break; } case 7: { Date y((long)o.a * 1000000); r.add(y.toString()); break; } case 8: r.add(Date::parse("12 Aug 1995 13:30:00")); break; } }
    void content(Out &o) override { o.add(x.getTime()); o.add(x.toString()); } };
struct SMapI : Subject { HashMap<int, Integer> x;
    void apply(const Op &o, Result &r) override { int k = (int)(o.a & 7); switch (o.op % 8) { case 0: case 1: x.put(k, Integer((int)o.b)); break; case 2: give(r, x.remove(k)); break; case 3: give(r, x.putIfAbsent(k, Integer((int)o.b))); break; case 4: give(r, x.replace(k, Integer((int)o.b))); break; case 5: give(r, x.getOrDefault(k, Integer((int)o.b))); break; case 6: { HashMap<int, Integer> y(x), z; z = y; x = z; break; } case 7: give(r, x.replace(k, Integer((int)o.b), Integer((int)o.a))); break; } }
    void content(Out &o) override { o.add(x.size()); for (int i = 0; i < 8; i++) { o.add(x.containsKey(i)); give(o, x.getOrDefault(i, Integer(-1))); } } };
struct SCMapI : Subject { ConcurrentHashMap<int, Integer> x;
    void apply(const Op &o, Result &r) override { int k = (int)(o.a % 12); switch (o.op % 6) { case 0: case 1: case 2: x.put(k, Integer((int)o.b)); break; case 3: give(r, x.remove(k)); break; case 4: give(r, x.getOrDefault(k, Integer((int)o.b))); break; case 5: give(r, x.replace(k, Integer((int)o.b))); break; } }
    void content(Out &o) override { o.add(x.size()); for (int i = 0; i < 12; i++) give(o, x.getOrDefault(i, Integer(-1))); } };
template <class T> struct SArray : Subject { Array<T> x;
    void apply(const Op &o, Result &r) override { switch (o.op % 6) { case 0: case 1: x.push(Elem<T>::of(o.b)); break; case 2: { Array<T> y(x); y.push(Elem<T>::of(o.a)); x = y; break; } case 3: x += {Elem<T>::of(o.b), Elem<T>::of(o.a)}; break; case 4: if (x.length) x[(int)(o.a % x.length)] = Elem<T>::of(o.b); break; case 5: { Array<T> y{Elem<T>::of(o.b), Elem<T>::of(o.a)}; if (o.b & 1) x = y; for (T e : x) { give(r, e); } break; } } }
    bool bulk(const Op &o) override { return o.op % 6 == 3; }
    void content(Out &o) override { o.add(x.length); for (int i = 0; i < x.length; i++) give(o, x.get(i)); if (x.length) give(o, x.get(x.length - 1)); bool more = true; try { x.get(x.length); } catch (std::exception &) { more = false; } if (more) o.add("elements behind the end"); } };
static const int KINDS = 30;
static Subject *make(int k) { switch (k) { case 0: return new SArrayList<String>; case 1: return new SVector<String>; case 2: return new SLinkedList<String>; case 3: return new SStack<String>; case 4: return new SHeap<int>; case 5: return new SMap; case 6: return new SString; case 7: return new SBuffer; case 8: return new SBuilder; case 9: return new SBits; case 10: return new SCMap; case 11: return new SCQueue; case 13: return new SInteger; case 14: return new SNumber<Short, short>; case 15: return new SNumber<Long, long>; case 16: return new SNumber<Float, float>; case 17: return new SNumber<Double, double>; case 18: return new SBytes; case 19: return new SDate; case 20: return new SArrayList<Integer>; case 21: return new SVector<Integer>; case 22: return new SLinkedList<Integer>; case 23: return new SStack<Integer>; case 24: return new SHeap<Integer>; case 25: return new SHeap<String>; case 26: return new SMapI; case 27: return new SCMapI; case 28: return new SArray<String>; case 29: return new SArray<Integer>; default: return new SDigest; } }
static const char *kname(int k) { static const char *n[] = {"ArrayList", "Vector", "LinkedList", "Stack", "PriorityQueue", "HashMap", "String", "StringBuffer", "StringBuilder", "BitSet", "ConcurrentHashMap", "ConcurrentLinkedQueue", "MessageDigest and UUID", "Integer", "Short", "Long", "Float", "Double", "Bytes", "Date", "ArrayList of Integer", "Vector of Integer", "LinkedList of Integer", "Stack of Integer", "PriorityQueue of Integer", "PriorityQueue of String", "HashMap of Integer", "ConcurrentHashMap of Integer", "Array", "Array of Integer"}; return n[k]; }
static void show(const Result &r, Out &o) { for (int i = 0; i < r.nn; i++) o.add(r.num[i]); for (int i = 0; i < r.nt; i++) if (r.anyorder) { std::string c(r.text[i].toCharPointer(), r.text[i].getSize()); std::sort(c.begin(), c.end()); o.add(c.c_str()); } else o.add(r.text[i]); }
static int attempt(Subject &s, const Op &o, Out &out, bool failing) {                // 0 done, 1 out of memory, 2 another exception
    int how = 0; Result r; std::string what; 
    alloc_faults(failing);
    try { s.apply(o, r); } catch (std::bad_alloc &) { how = 1; } catch (Exception &) { how = 2; } catch (std::exception &) { how = 2; }
    alloc_faults(false);
    if (!how) { show(r, out); if (r.soft) how = 1; } else if (how == 2) out.add("threw");
    return how;
}
static void sequence(const Program &p, int t) {
    int kind = (int)p.get(t == 1 ? "kind1" : "kind2"); std::unique_ptr<Subject> s(make(kind)), twin(make(kind)); std::vector<Op> done; Out before; twin->content(before);
    for (const Op &o : p.ops) {
        if (o.t != t) continue;
        Out after, now, ro, so; bool bulk = s->bulk(o);
        long f = thread_faults(); int how = attempt(*s, o, so, true); bool hit = thread_faults() != f;
        int ref = attempt(*twin, o, ro, false); twin->content(after); s->content(now);
        int k = o.op; const char *kn = kname(kind);
        if (ref == 1) fail("harness", "the twin of %s ran out of memory", kn);
        if (how == 1 && !hit) fail("spurious", "%s: operation %d (%ld, %ld) reported that memory ran out when it had not", kn, k, o.a, o.b);
        if (how != 1) {
            if (how != ref || so.s != ro.s) fail("wrong-result", "%s: operation %d (%ld, %ld) %s gave %s; with enough memory it gives %s", kn, k, o.a, o.b, hit ? "met a failing allocation and" : "", so.s.c_str(), ro.s.c_str());
            if (now.s != after.s) fail("wrong-content", "%s: operation %d (%ld, %ld) %s left %s; with enough memory it leaves %s", kn, k, o.a, o.b, hit ? "met a failing allocation, reported success and" : "", now.s.c_str(), after.s.c_str());
            if (hit) probe("an allocation failed and the operation still succeeded");
            done.push_back(o); before.s.swap(after.s); continue;
        }
        probe("an operation reported that memory ran out");
        if (now.s == after.s) { done.push_back(o); before.s.swap(after.s); continue; }
        if (now.s != before.s) {
            if (!bulk) fail("torn-content", "%s: operation %d (%ld, %ld) ran out of memory and left %s; before it was %s, the operation makes it %s", kn, k, o.a, o.b, now.s.c_str(), before.s.c_str(), after.s.c_str());
            s.reset(make(kind)); twin.reset(make(kind)); done.clear(); before.s.clear(); twin->content(before); continue;
        }
        twin.reset(make(kind)); for (const Op &d : done) { Out x; attempt(*twin, d, x, false); }
    }
}
static void run_memory(const Program &p) {
    bool warm = p.get("warm"); int n = (int)p.get("threads");
    if (warm) { for (int k : {(int)p.get("kind1"), (int)p.get("kind2")}) { std::unique_ptr<Subject> s(make(k)); for (int o = 0; o < 64; o++) { Out x; attempt(*s, Op{1, o, o * 7, o * 3, 0}, x, false); } } }
    faults_on(true); std::vector<int> ids; ids.reserve(4); HeapMark m = heap_mark();
    if (n == 1) sequence(p, 1); else { for (int t = 1; t <= n; t++) ids.push_back(spawn([&p, t] { sequence(p, t); })); for (int i : ids) join(i); }
    if (warm && n == 1) { std::string d; long l = heap_leaked(m, &d); if (l) fail("leak", "%ld blocks are left after every object is gone: %s", l, d.c_str()); }
}
static void gen_memory(Rng &r, Program &p, Config &c) {
    c.leaks = false; c.liveness = true; c.step_cap = 20000000; c.malloc_fill = (int)r.range(0, 255); c.heap_reuse = r.chance(0.5); c.clock_tick_ns = 100;
    static const double rates[] = {0.01, 0.03, 0.1, 0.3, 0.6}; c.rate[F_MALLOC] = rates[r.below(5)];
    int n = r.chance(0.85) ? 1 : 2; p.params["threads"] = n; p.params["kind1"] = r.below(KINDS); p.params["kind2"] = r.below(KINDS); p.params["warm"] = r.chance(0.8);if (getenv("SIM_KIND")) p.params["kind1"] = p.params["kind2"] = atoi(getenv("SIM_KIND"));  int few = r.chance(0.5) ? (int)r.range(1, 4) : 64, pick[4]; for (int &k : pick) k = (int)r.below(5040);
    for (int t = 1; t <= n; t++) { int m = (int)r.range(3, 24); for (int j = 0; j < m; j++) p.ops.push_back(Op{t, few < 64 ? pick[r.below(few)] : (int)r.below(5040), (long)r.below(2000), (long)r.below(8), 0}); }
}
SCENARIO("C17", memory, gen_memory, run_memory);
