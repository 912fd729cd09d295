#pragma once
// Objects given to their own operations: an element of a list added to that list, a text inserted into itself, assignment to itself,
// copies of an object of which one is gone before the other is used.
#include "ops_edge.h"
namespace alias_ops {
using iso_ops::Out; using iso_ops::word;
using Java::Util::ArrayList; using Java::Util::HashMap; using Java::Util::LinkedList; using Java::Util::Vector; using Java::Util::Stack; using Java::Util::PriorityQueue; using Java::Util::BitSet; using Java::Util::Date; using Java::Util::UUID; using Java::Util::Base64;
using Java::Security::MessageDigest; using Java::Net::URL; using Java::Lang::StringBuilder; using Java::Lang::StringBuffer; using Java::Text::SimpleDateFormat;
enum { VECADD, VECINS, VECSELF, LISTADD, LISTSELF, LINKED, LINKED2, STACKS, HEAPS, MAPS, MAPS2, BITS, TEXTS, TEXTS2, BUILDER, BUILDER2, BUFFER, BUFFER2, NUMS, NUMS2, DATES, DIGESTS, DIGESTS2, ARRAYS, CODES, THROWN, FORMATS, URLS, UUIDS, RANDOMS, MOVED, BULK, NOPS };
static const char *names[] = {"Vector adds its own element", "Vector inserts its own element", "Vector assigned to itself", "ArrayList adds its own element", "ArrayList assigned to itself", "LinkedList adds its own element", "LinkedList copies", "Stack pushes its own element", "PriorityQueue copies", "HashMap with its own entries", "HashMap copies", "BitSet with itself", "String with itself", "String copies", "StringBuilder with itself", "StringBuilder copies", "StringBuffer with itself", "StringBuffer copies", "numbers with themselves", "number copies", "Date with itself", "MessageDigest copies", "MessageDigest assignment", "Array with its own elements", "encoder copies", "exception copies", "SimpleDateFormat copies", "URL copies", "UUID copies", "Random copies", "moved objects", "collections of collections"};
template <class L> static void texts(Out &out, L &l) { out.add((long)l.size()); for (int k = 0; k < l.size(); k++) out.add(l.get(k)); }
#define T(x) do { try { out.add(x); } catch (Exception &e) { out.add(e.getMessage()); } catch (std::exception &e) { out.add("std"); } } while (0)
#define V(x) do { try { x; out.add("done"); } catch (Exception &e) { out.add(e.getMessage()); } catch (std::exception &e) { out.add("std"); } } while (0)
template <class N> static void number(Out &out, N x, N two) { N y(x); y = *&y; out.add(y.toString()); out.add((x + x).toString()); out.add((x - x).toString()); out.add((x * two).toString()); out.add((long)(x == x)); out.add((long)(x != x)); out.add((long)(x < x)); out.add((long)(x <= x)); N z = x; z = x = z; out.add(z.toString()); out.add(x.toString()); }
static void step(const Op &o, Out &out) {
    int n = (int)(o.a & 15) + 1, i = (int)(o.b & 7) % n, j = (int)(o.b >> 3 & 15) % n; String w(word((int)(o.b & 7))), u(word((int)(o.c & 7)));
    switch (o.op) {
    case VECADD: { Vector<String> x((int)(o.c & 7)); for (int k = 0; k < n; k++) x.add(String(word(k & 7))); V(x.add(x[i])); V(x.addElement(x[j])); V(x.add(x[n])); texts(out, x); break; }
    case VECINS: { Vector<String> x(n); for (int k = 0; k < n; k++) x.add(String(word(k & 7))); V(x.insertElementAt(x[i], j)); V(x.add(0, x[j])); V(x.setElementAt(x[i], j)); T(x.set(i, x[j])); texts(out, x); T(x.indexOf(x[i])); T(x.lastIndexOf(x[j])); T(x.contains(x[i])); texts(out, x); Vector<Integer> y; for (int k = 0; k < n; k++) y.add(Integer(k % 5)); T(y.remove(y[j])); if (y.size()) T(y.removeElement(y[0])); T(y.remove(Date(5l))); T(y.removeElement(Long(1l))); for (int k = 0; k < y.size(); k++) out.add((long)y.get(k).intValue()); break; }
    case VECSELF: { Vector<String> x, y(3); for (int k = 0; k < n; k++) x.add(String(word(k & 7))); y.add(w); Vector<String> &self = x; x = self; texts(out, x); out.add(x.equals(x)); y = x; x = y; texts(out, y); { Vector<String> z(x); y = z; z.clear(); } texts(out, y); y = {u, w}; texts(out, y); break; }
    case LISTADD: { ArrayList<String> x; for (int k = 0; k < n; k++) x.add(String(word(k & 7))); V(x.add(x[i])); V(x.add(j, x[i])); V(x.set(j, x[i])); T(x.indexOf(x[i])); T(x.contains(x[j])); V(x.remove(x[i])); T(x.toString()); break; }
    case LISTSELF: { ArrayList<String> x, y; for (int k = 0; k < n; k++) x.add(String(word(k & 7))); ArrayList<String> &self = x; x = self; T(x.toString()); y.add(w); y = x; { ArrayList<String> z(x), v = z.clone(); y = v; z.clear(); v.add(u); x = v; } T(x.toString()); T(y.toString()); break; }
    case LINKED: { LinkedList<String> x; for (int k = 0; k < n; k++) x.add(String(word(k & 7))); V(x.add((*x.begin())->element)); V(x.addFirst((*std::next(x.begin(), i))->element)); V(x.push((*x.begin())->element)); V(x.remove(**std::next(x.begin(), i))); V(x.offerLast((*x.begin())->element)); texts(out, x); break; }
    case LINKED2: { LinkedList<String> x, y; for (int k = 0; k < n; k++) x.add(String(word(k & 7))); LinkedList<String> &self = x; x = self; texts(out, x); y.add(w); y = x; { LinkedList<String> z(x); z.add(u); x = z; } texts(out, x); texts(out, y); break; }
    case STACKS: { Stack<String> x; for (int k = 0; k < n + 5; k++) x.push(String(word(k & 7))); T(x.push(x[i])); T(x.push(x[j])); T(x.peek()); Stack<String> y(x), z; z = y; { Stack<String> v(z); v.push(u); z = v; } T(z.pop()); T(y.pop()); T(x.search(x[i])); texts(out, z); break; }
    case HEAPS: { PriorityQueue<String> x; for (int k = 0; k < n; k++) x.add(String(word(k & 7))); PriorityQueue<String> y(x), z, &self = x; z.add(w); x = self; z = x; { PriorityQueue<String> v(z); v.offer(v.peek()); y = v; } out.add(x.size()); while (y.size()) out.add(y.poll()); while (z.size()) out.add(z.poll()); break; }
    case MAPS: { HashMap<String, String> x; for (int k = 0; k < n; k++) x.put(String(word(k & 7)), String(word(k + 1 & 7))); V(x.putAll(x)); out.add(x.equals(x)); auto it = x.begin(); T(x.replace(it->first, it->second)); T(x.get(it->second)); T(x.containsValue(it->second)); V(x.put(it->first, it->second)); T(x.putIfAbsent(it->second, it->second)); it = x.begin(); std::advance(it, i % x.size()); String k(it->first); T(x.remove(it->first, it->second)); out.add(x.containsKey(k)); if (x.size()) { it = x.begin(); V(x.remove(it->first)); } out.add(x.size()); break; }
    case MAPS2: { HashMap<String, Integer> x, y, &self = x; for (int k = 0; k < n; k++) x.put(String(word(k & 7)), Integer(k)); x = self; out.add(x.size()); T(x.get(w).toString()); y.put(u, Integer(5)); y = x; { HashMap<String, Integer> z(x), v = z.clone(); v.put(String("more"), Integer(9)); x = v; z.clear(); } out.add(x.size()); out.add(y.size()); T(y.get(w).toString()); T(x.get(String("more")).toString()); break; }
    case BITS: { BitSet x; for (int k = 0; k < n; k++) x.set(k * 37); BitSet y(x), &self = x; switch (o.c & 7) { case 0: x.bitAnd(self); break; case 1: x.bitOr(self); break; case 2: x.bitXor(self); break; case 3: x.andNot(self); break; case 4: x = self; break; case 5: out.add(x.intersects(self)); break; case 6: y = x.clone(); break; default: { BitSet z; z.set(700); y = z; } } T(x.toString()); T(y.toString()); out.add(x.equals(x)); out.add(x.equals(y)); break; }
    case TEXTS: { String x(w); x += x; T(x); x += x + x; T(x); T(x.concat(x)); T(x.replace(x, x)); T(x.indexOf(x)); T(x.compareTo(x)); T(x.endsWith(x)); String &self = x; x = self; T(x); x = x + u + x; T(x); x = x.subString(1); T(x); x = x.trim(); T(x); T(x.equals(x)); break; }
    case TEXTS2: { String y, v; { String x(w), z(x); y = x; v = std::move(z); x += u; } T(y); T(v); { Array<String> parts = y.split(" "); v = parts.length ? parts[0] : u; } T(v); { StringBuilder s(y); v = s.toString(); s.append(u); } T(v); v = String(v.toCharPointer()); T(v); v = v.toCharPointer(); T(v); v += v.toCharPointer(); T(v); break; }
    case BUILDER: { StringBuilder x(w); for (int k = 0; k < (n & 3); k++) { V(x.append(x.toString())); V(x.insert(x.length() / 2, x.toString())); } V(x.replace(0, x.length() / 2, x.toString())); T(x.toString()); T(x.indexOf(x.toString())); StringBuilder &self = x; x = self; T(x.toString()); x.reverse(); T(x.toString()); break; }
    case BUILDER2: { StringBuilder y, v(u); { StringBuilder x(w), z(x); x.append(n); y = x; v = z; z.append(x.toString()); } T(y.toString()); T(v.toString()); y.append(v.toString()); y = v; v.setLength(0); T(y.toString()); T(v.toString()); break; }
    case BUFFER: { StringBuffer x(w); for (int k = 0; k < (n & 1) + (n >> 1 & 1); k++) { V(x.append(x)); V(x.append(x.toString())); V(x.append(x.getValue())); V(x.insert(x.length() / 2, x.toString())); } V(x.replace(0, x.length() / 2, x.toString())); T(x.toString()); T(x.indexOf(x.toString())); StringBuffer &self = x; x = self; T(x.toString()); x.reverse(); T(x.toString()); break; }
    case BUFFER2: { StringBuffer y, v(u); { StringBuffer x(w), z(x); x.append(n); y = x; v = z; z.append(x); } T(y.toString()); T(v.toString()); y.append(v); y = v; v.setLength(0); T(y.toString()); T(v.toString()); break; }
    case NUMS: switch (o.c & 7) { case 0: number(out, Integer((int)(o.b & 0xffff)), Integer(2)); break; case 1: number(out, Long((long)(o.b & 0xffffff)), Long(2l)); break; case 2: number(out, Short((short)(o.b & 0xff)), Short((short)2)); break; case 3: number(out, Float((o.b & 0xff) / 4.0f), Float(2.0f)); break; case 4: number(out, Double((o.b & 0xffff) / 8.0), Double(2.0)); break; case 5: { Bytes x((byte)o.b), y(x); y = *&y; T(y.toString()); x += x; T(x.toString()); x -= x; T(x.toString()); y *= y; T(y.toString()); break; } default: { Integer x((int)(o.b & 0xff) + 1); x += x; T(x.toString()); x *= x; T(x.toString()); x -= Integer(3); x %= Integer(1000); T(x.toString()); x /= x; T(x.toString()); x -= x; T(x.toString()); } } break;
    case NUMS2: { Integer a(1); Long b(2l); Short s((short)3); Float f(4.5f); Double d(5.25); Bytes y((byte)6); { Integer a2((int)(o.b & 0xffff)), a3(a2); Long b2((long)o.b), b3(b2); Short s2((short)o.b), s3(s2); Float f2((o.b & 0xff) / 2.0f), f3(f2); Double d2((o.b & 0xff) / 4.0), d3(d2); Bytes y2((byte)o.b), y3(y2); a = a3; b = b3; s = s3; f = f3; d = d3; y = y3; a3 = a2; a2 = Integer(0); } T(a.toString()); T(b.toString()); T(s.toString()); T(f.toString()); T(d.toString()); T(y.toString()); { Array<Integer> x; x.push(a); x.push(x[0]); a = x[1]; } T(a.toString()); break; }
    case DATES: { Date x(99, (int)(o.b & 7), 3, 4, 5, 6), y, &self = x; x = self; T(x.toString()); T(x.compareTo(x)); T(x.after(x)); T(x.equals(x)); { Date z(x), v = z.clone(); y = z; z.setYear(70); v.setMonth(1); x = v; } T(y.toString()); T(x.toString()); T(y.getTime()); break; }
    case DIGESTS: { byte in[40], h[20]; for (int k = 0; k < 40; k++) in[k] = (byte)(o.b + k); memset(h, 0, sizeof h); MessageDigest x = MessageDigest::getInstance(o.c & 1 ? "MD5" : "SHA1"); x.update(in, n); { MessageDigest y(x); y.update(in, 7); if (o.c & 2) { y.digest(h, 20); for (byte k : h) out.add((long)k); } } x.update(in, 40); x.digest(h, 20); for (byte k : h) out.add((long)k); T(x.getAlgorithm()); break; }
    case DIGESTS2: { byte in[40], h[20]; for (int k = 0; k < 40; k++) in[k] = (byte)(o.b + k); memset(h, 0, sizeof h); MessageDigest x = MessageDigest::getInstance("MD5"), &self = x; x.update(in, n); x = self; if (o.c & 1) { MessageDigest y = MessageDigest::getInstance("SHA1"); y.update(in, n); x = y; y.reset(); } else if (o.c & 2) x = MessageDigest::getInstance("SHA1"); x.update(in, 40); T(x.digest(h, 20)); for (byte k : h) out.add((long)k); T(x.getAlgorithm()); std::vector<MessageDigest> many; for (int k = 0; k < (n & 3) + 1; k++) many.push_back(MessageDigest::getInstance(k & 1 ? "MD5" : "SHA1")); for (MessageDigest &m : many) { m.update(in, 5); T(m.digest(h, 20)); for (byte k : h) out.add((long)k); } break; }
    case ARRAYS: { Array<String> x, y, &self = x; for (int k = 0; k < n; k++) x.push(String(word(k & 7))); x.push(x[i]); x += {x[j], x[i]}; x = self; y.push(w); y = x; { Array<String> z(x); z[0] = u; y = z; } for (const String &s : x) T(s); T(y[0]); T(y.length); Array<int> c{1, n, 2}; c = Java::Util::Arrays::copyOf(c, c.length + 2); T(c.length); c[0] = c[1]; c += {c[0], c[1]}; T(c[c.length - 1]); break; }
    case CODES: { Array<byte> in; for (int k = 0; k < n + 6; k++) in.push((byte)(o.b + k)); Base64::Encoder x = o.c & 1 ? Base64::getEncoder() : o.c & 2 ? Base64::getMimeEncoder() : Base64::getUrlEncoder(), y(x), z = x.withoutPadding(); x = z; T(x.encodeToString(in)); y = x; T(y.encodeToString(in)); z = Base64::getEncoder(); T(z.encodeToString(in)); Base64::Decoder d = Base64::getDecoder(), e(d); d = e; Array<byte> back = d.decode(z.encodeToString(in)); T(back.length); T((long)back[back.length - 1]); in = z.encode(in); T(in.length); in = d.decode(in); T(in.length); break; }
    case THROWN: { Exception *cause = new Exception(String("inner ") + w); { Exception x(String("outer"), cause), y(x), z; z = y; T(z.getMessage()); y = Exception(u); T(y.getMessage()); try { throw z; } catch (Exception e) { T(e.getMessage()); x = e; } T(x.getMessage()); } T(cause->getMessage()); delete cause; IllegalArgumentException a(w), b(a), c; c = b; T(c.getMessage()); try { try { throw a; } catch (IllegalArgumentException &e) { b = IllegalArgumentException(u); throw; } } catch (Exception &e) { T(e.getMessage()); } T(b.getMessage()); break; }
    case FORMATS: { SimpleDateFormat x("%Y-%m-%d"), y(x); Java::Util::TimeZone zone = Java::Util::TimeZone::getTimeZone("UTC"), zone2(zone); zone2.setID("UTC"); x.setTimeZone(zone2); { SimpleDateFormat z(String("%H:%M ") + w); z.setTimeZone(zone); y = z; } Date d((long)(o.b & 0xffffff) * 1000); T(x.format(d)); y.setTimeZone(zone); T(y.format(d)); x = y; T(x.format(d)); break; }
    case URLS: { URL x("http://user@host.example:81/path/file?q=1#ref"), y(x), z("https://other:8080/x"), &self = x; x = self; T(x.toString()); { URL v(z); z = x; x = v; } T(x.toString()); T(y.toString()); T(z.toString()); T(x.getHost()); T(y.getPath()); break; }
    case UUIDS: { UUID x(o.a, o.b), y(x), z(1, 2), &self = x; x = self; z = x; T(z.toString()); { UUID v(o.b, o.a); y = v; } T(y.toString()); T(x.equals(x)); T(x.compareTo(x)); T(y.compareTo(x)); T(x.hashCode()); break; }
    case RANDOMS: { Java::Util::Random x((long)o.b); x.nextInt(); Java::Util::Random y(x); out.add(x.nextInt()); out.add(y.nextInt()); out.add(y.nextLong()); break; }
    case MOVED: { Vector<Integer> x(2); for (int k = 0; k < n; k++) x.add(Integer(k)); Integer a(x.get(i)), b(std::move(a)); a = b; T(a.toString()); String s(w), t(std::move(s)); s = t; T(s); s = std::move(t); T(s); t = u; T(t); Long l(7l), m(std::move(l)); l = m; T(l.toString()); Double d(0.5), e(std::move(d)); d = e; T(d.toString()); std::vector<String> v; for (int k = 0; k < n; k++) v.insert(v.begin(), v.empty() ? w : v.back() + u); T(v[0].length()); std::swap(a, b); std::swap(s, t); T(s); T(t); break; }
    case BULK: { Vector<Vector<String>> x; Vector<String> row; for (int k = 0; k < n; k++) { row.add(String(word(k & 7))); x.add(row); } x.add(x[i]); x[j] = x[i]; out.add((long)x.size()); out.add((long)x[j].size()); ArrayList<ArrayList<Integer>> a; ArrayList<Integer> r; for (int k = 0; k < n; k++) { r.add(Integer(k)); a.add(r); } a[j] = a[i]; a.add(0, a[i]); out.add((long)a[0].size()); HashMap<int, Vector<String>> m; m.put(1, row); m.put(2, m.get(1)); m.replace(1, x[0]); out.add((long)m.get(1).size()); Array<Array<int>> g; Array<int> l; for (int k = 0; k < n; k++) { l.push(k); g.push(l); } g[j] = g[i]; g.push(g[j]); out.add((long)g[n].length); break; }
    }
}
}
#undef T
#undef V
