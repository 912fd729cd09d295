// C21: a copy and its original are two values: equal when the copy is made, and nothing done to one of them shows in the other.
// One object gets a history, is copied, and both go on with histories of their own: mixed in one thread, or each in a thread of its own.
// The reference: two objects made separately, each with the whole history of its own.
#include "ops_more.h"
using namespace iso_ops;
namespace copies {
using Java::Util::ArrayList; using Java::Util::HashMap; using Java::Util::LinkedList; using Java::Util::Vector; using Java::Util::Stack; using Java::Util::PriorityQueue; using Java::Util::BitSet; using Java::Util::Date; using Java::Util::UUID; using Java::Util::Base64; using Java::Util::Random; using Java::Util::TimeZone;
using Java::Util::Concurrent::ConcurrentHashMap; using Java::Security::MessageDigest; using Java::Lang::StringBuilder; using Java::Lang::StringBuffer; using Java::Text::SimpleDateFormat; using Java::Net::URL;
static String w(long k) { return String(word((int)(k & 15))); }
template <class X> struct Base { using T = X; static T *make() { return new T(); } static T *copied(T &x) { return new T(x); } static void assign(T &y, T &x) { y = x; } static void end(T &, Out &) {} };
#define MUT static void mut(T &x, const Op &o, Out &out)
#define LOOK static void look(T &x, Out &out)
template <class E> struct Elem; template <> struct Elem<String> { static String of(long k) { return w(k); } static String text(const String &s) { return s; } }; template <> struct Elem<Integer> { static Integer of(long k) { return Integer((int)(k & 15)); } static String text(const Integer &s) { return s.toString(); } };
struct KString : Base<String> { static T *copied(T &x) { return new String(x.clone()); } MUT { switch (o.op % 6) { case 0: x += w(o.a); break; case 1: x = x + w(o.a); break; case 2: x = w(o.a); break; case 3: x = x.subString(x.length() / 2); break; case 4: x += 'q'; break; default: x = x.replace('a', 'b'); } out.add(x.length()); if (x.length() > 4000) x = w(o.b); } LOOK { out.add(x); out.add(x.length()); out.add(x.hashCode()); } };
template <class B> struct Builds : Base<B> { using T = B; MUT { switch (o.op % 7) { case 0: x.append(w(o.a)); break; case 1: x.append((int)o.a); break; case 2: x.insert((int)(x.length() / 2), w(o.b)); break; case 3: x.reverse(); break; case 4: if (x.length()) x.deleteCharAt((int)(o.a % x.length())); break; case 5: if (x.length()) x.setCharAt((int)(o.a % x.length()), 'z'); break; default: x.setLength((int)(x.length() / 2)); } out.add(x.length()); } LOOK { out.add(x.toString()); out.add(x.length()); } };
template <class E> struct KList : Base<ArrayList<E>> { using T = ArrayList<E>; static T *copied(T &x) { return new T(x.clone()); } MUT { int n = x.size(), i = n ? (int)(o.b & 0xff) % n : 0; E e = Elem<E>::of(o.a); switch (o.op % 7) { case 0: case 1: x.add(e); break; case 2: x.add(i, e); break; case 3: if (n) x.set(i, e); break; case 4: if (n) x.remove(i); break; case 5: if ((o.b & 7) == 0) x.clear(); else if (n) out.add(Elem<E>::text(x.get(i))); break; default: out.add(x.indexOf(e)); } out.add(x.size()); } LOOK { out.add(x.size()); for (int k = 0; k < x.size(); k++) out.add(Elem<E>::text(x.get(k))); } };
struct KVector : Base<Vector<String>> { static T *copied(T &x) { return new T(x.clone()); } MUT { int n = x.size(), i = n ? (int)(o.b & 0xff) % n : 0; switch (o.op % 7) { case 0: case 1: x.add(w(o.a)); break; case 2: x.insertElementAt(w(o.a), i); break; case 3: if (n) x.set(i, w(o.a)); break; case 4: if (n) x.remove(i); break; case 5: if ((o.b & 7) == 0) x.clear(); else x.trimToSize(); break; default: out.add(x.indexOf(w(o.a))); } out.add(x.size()); } LOOK { out.add(x.size()); for (int k = 0; k < x.size(); k++) out.add(x.get(k)); } };
struct KLinked : Base<LinkedList<String>> { MUT { int n = x.size(); switch (o.op % 7) { case 0: x.add(w(o.a)); break; case 1: x.addFirst(w(o.a)); break; case 2: x.push(w(o.a)); break; case 3: if (n) out.add(x.pop()); break; case 4: if (n) out.add(x.removeLast()); break; case 5: if (n) out.add((long)x.remove((int)(o.b & 255) % n)); break; default: x.offerLast(w(o.b)); } out.add((long)x.size()); } LOOK { out.add((long)x.size()); for (int k = 0; k < x.size(); k++) out.add(x.get(k)); } };
struct KStack : Base<Stack<String>> { MUT { switch (o.op % 4) { case 0: case 1: out.add(x.push(w(o.a))); break; case 2: if (x.size()) out.add(x.pop()); break; default: out.add((long)x.search(w(o.a))); } out.add((long)x.size()); } LOOK { out.add((long)x.size()); if (x.size()) out.add(x.peek()); } static void end(T &x, Out &out) { while (x.size()) out.add(x.pop()); } };
struct KHeap : Base<PriorityQueue<String>> { MUT { switch (o.op % 4) { case 0: case 1: x.add(w(o.a)); break; case 2: if (x.size()) out.add(x.poll()); break; default: out.add((long)x.offer(w(o.a))); } out.add((long)x.size()); } LOOK { out.add((long)x.size()); if (x.size()) out.add(x.peek()); } static void end(T &x, Out &out) { while (x.size()) out.add(x.poll()); } };
template <class M> struct Maps : Base<M> { using T = M; MUT { switch (o.op % 6) { case 0: case 1: x.put(w(o.a), Integer((int)o.b)); break; case 2: if (x.containsKey(w(o.a))) x.remove(w(o.a)); break; case 3: out.add((long)x.containsKey(w(o.a))); break; case 4: if ((o.b & 7) == 0) x.clear(); else x.putIfAbsent(w(o.a), Integer((int)o.b)); break; default: if (x.containsKey(w(o.a))) out.add(x.get(w(o.a)).toString()); } out.add((long)x.size()); } LOOK { out.add((long)x.size()); for (int k = 0; k < 16; k++) if (x.containsKey(w(k))) { out.add((long)k); out.add(x.get(w(k)).toString()); } } };
struct KHash : Maps<HashMap<String, Integer>> { static T *copied(T &x) { return new T(x.clone()); } };
struct KConc : Maps<ConcurrentHashMap<String, Integer>> { static void assign(T &, T &) {} };
struct KBits : Base<BitSet> { static T *copied(T &x) { return new T(x.clone()); } MUT { int i = (int)(o.a & 255); switch (o.op % 6) { case 0: case 1: x.set(i); break; case 2: x.clear(i); break; case 3: x.flip(i); break; case 4: { BitSet y; y.set(i); y.set((int)(o.b & 255)); if (o.b & 1024) x.bitOr(y); else x.bitXor(y); break; } default: out.add((long)x.get(i)); } out.add((long)x.cardinality()); } LOOK { out.add(x.toString()); out.add((long)x.length()); } };
template <class E> struct KArray : Base<Array<E>> { using T = Array<E>; MUT { switch (o.op % 3) { case 0: x.push(Elem<E>::of(o.a)); break; case 1: if (x.length) x[(int)(o.b & 255) % x.length] = Elem<E>::of(o.a); break; default: x += {Elem<E>::of(o.a), Elem<E>::of(o.b)}; } out.add((long)x.length); } LOOK { out.add((long)x.length); for (int k = 0; k < x.length; k++) out.add(Elem<E>::text(x[k])); } };
struct KDate : Base<Date> { static T *make() { return new Date(99, 5, 6, 7, 8, 9); } static T *copied(T &x) { return new T(x.clone()); } MUT { switch (o.op % 7) { case 0: x.setYear((int)(o.a & 127)); break; case 1: x.setMonth((int)(o.a % 12)); break; case 2: x.setDate((int)(o.a % 28) + 1); break; case 3: x.setHours((int)(o.a % 24)); break; case 4: x.setMinutes((int)(o.a % 60)); break; case 5: x.setSeconds((int)(o.a % 60)); break; default: x.setTime((long)(o.b & 0xffffff) * 1000); } out.add(x.getTime()); } LOOK { out.add(x.getTime()); out.add((long)x.getYear()); out.add((long)x.getMonth()); out.add((long)x.getDate()); out.add((long)x.getHours()); out.add((long)x.getSeconds()); out.add(x.toString()); } };
struct KFormat : Base<SimpleDateFormat> { static T *make() { return new SimpleDateFormat("%Y-%m-%d %H:%M"); } MUT { TimeZone z; z.setID(o.a & 1 ? "UTC" : "America/New_York"); if (o.op & 1) x.setTimeZone(z); else x = SimpleDateFormat(o.b & 1 ? "%H:%M:%S" : "%d/%m %y"); out.add("set"); } LOOK { Date d(1000000000000l); out.add(x.format(d)); } };
struct KZone : Base<TimeZone> { MUT { x.setID(w(o.a)); out.add(x.getID()); } LOOK { out.add(x.getID()); } };
struct KUuid : Base<UUID> { MUT { x = UUID(o.a, o.b); out.add(x.toString()); } LOOK { out.add(x.toString()); out.add((long)x.hashCode()); } };
struct KDigest : Base<MessageDigest> { static T *make() { return new MessageDigest(MessageDigest::getInstance("MD5")); } MUT { byte in[80]; int n = (int)(o.a % 80) + 1; for (int k = 0; k < n; k++) in[k] = (byte)(o.b + k); switch (o.op % 8) { case 0: x.reset(); break; case 1: { byte h[20]; memset(h, 0, sizeof h); x.digest(h, 20); x.reset(); for (byte k : h) out.add((long)k); break; } case 2: x = MessageDigest::getInstance(o.b & 1 ? "SHA1" : "MD5"); break; default: x.update(in, n); } out.add(x.getAlgorithm()); } LOOK { out.add(x.getAlgorithm()); out.add((long)x.getDigestLength()); } static void end(T &x, Out &out) { byte h[20]; memset(h, 0, sizeof h); x.digest(h, 20); for (byte k : h) out.add((long)k); } };
struct KRandom : Base<Random> { static T *make() { return new Random(42l); } static void assign(T &, T &) {} MUT { switch (o.op % 5) { case 0: x.setSeed(o.a); break; case 1: out.add((long)x.nextInt()); break; case 2: out.add(x.nextLong()); break; case 3: out.add(String::valueOf(x.nextGaussian())); break; default: out.add((long)x.nextBoolean()); } } LOOK {} static void end(T &x, Out &out) { out.add(String::valueOf(x.nextGaussian())); out.add(x.nextLong()); out.add((long)x.nextInt()); } };
struct KUrl : Base<URL> { static T *make() { return new URL("http://user@host.example:81/path/file?q=1#ref"); } MUT { char b[80]; snprintf(b, sizeof b, "https://h%ld.example:%d/%s?k=%ld", o.a, (int)(o.b & 1023) + 1, "p", o.a); x = URL(String(b)); out.add(x.toString()); } LOOK { out.add(x.toString()); out.add(x.getHost()); out.add(x.getPath()); out.add(x.getQuery()); out.add((long)x.getPort()); } };
struct KMedia : Base<Javax::Ws::Rs::Core::MediaType> { static T *make() { return new T("text", "plain"); } MUT { HashMap<String, String> q; q.put(w(o.a), w(o.b)); x = T(w(o.a), w(o.b), q); out.add(x.getType()); } LOOK { out.add(x.getType()); out.add(x.getSubtype()); out.add((long)x.getParameters().size()); for (int k = 0; k < 16; k++) if (x.getParameters().containsKey(w(k))) out.add(x.getParameters().get(w(k))); } };
struct KCoder : Base<Base64::Encoder> { static T *make() { return new T(Base64::getMimeEncoder()); } MUT { x = o.a & 1 ? Base64::getEncoder() : o.a & 2 ? x.withoutPadding() : Base64::getUrlEncoder(); out.add("set"); } LOOK { Array<byte> in; for (int k = 0; k < 64; k++) in.push((byte)(k * 37)); out.add(x.encodeToString(in)); } };
struct KThrown : Base<Exception> { static T *make() { return new Exception(String("first")); } MUT { static Exception root(String("root")); x = o.a & 1 ? Exception(w(o.a)) : Exception(w(o.b), &root); out.add(x.getMessage()); } LOOK { out.add(x.getMessage()); out.add((long)(x.getCause() == nullptr)); } };
template <class N> struct Numbers : Base<N> { using T = N; static T of(long a); MUT { switch (o.op % 3) { case 0: x = of(o.a); break; case 1: { T y(of(o.b)); x = x + y; break; } default: { T y(of(o.a)), z; z = y; x = z - x; } } out.add(x.toString()); } LOOK { out.add(x.toString()); out.add((long)x.intValue()); } };
template <> Integer Numbers<Integer>::of(long a) { return Integer((int)(a & 1023)); } template <> Long Numbers<Long>::of(long a) { return Long(a & 0xfffff); } template <> Short Numbers<Short>::of(long a) { return Short((short)(a & 63)); } template <> Double Numbers<Double>::of(long a) { return Double((a & 1023) / 8.0); } template <> Float Numbers<Float>::of(long a) { return Float((a & 1023) / 8.0f); } template <> Bytes Numbers<Bytes>::of(long a) { return Bytes((byte)a); }
struct KNested : Base<HashMap<String, Vector<String>>> { static T *copied(T &x) { return new T(x.clone()); } MUT { String k = w(o.a & 3); Vector<String> v; if (x.containsKey(k)) v = x.get(k); v.add(w(o.b)); if (o.op % 4) x.put(k, v); else if (x.containsKey(k)) x.remove(k); out.add((long)x.size()); } LOOK { for (int k = 0; k < 4; k++) if (x.containsKey(w(k))) { Vector<String> v = x.get(w(k)); out.add((long)v.size()); for (int i = 0; i < v.size(); i++) out.add(v.get(i)); } } };
struct KRows : Base<Vector<ArrayList<String>>> { MUT { int n = x.size(), i = n ? (int)(o.b & 255) % n : 0; if (o.op % 3 == 0 || !n) { ArrayList<String> r; r.add(w(o.a)); x.add(r); } else if (o.op % 3 == 1) { ArrayList<String> r = x.get(i); r.add(w(o.a)); x.set(i, r); } else x.add(x.get(i)); out.add((long)x.size()); } LOOK { for (int k = 0; k < x.size(); k++) { ArrayList<String> r = x.get(k); out.add(r.size()); for (int i = 0; i < r.size(); i++) out.add(r.get(i)); } } };
struct KBuilder : Builds<StringBuilder> {}; struct KBuffer : Builds<StringBuffer> {};

enum { MODES = 7 };
template <class K> static typename K::T *copy(typename K::T &x, int mode, const Op *fill) {
    using T = typename K::T; T *y = nullptr;
    switch (mode) {
    case 1: y = K::copied(x); break;
    case 2: y = K::make(); K::assign(*y, x); break;
    case 3: { y = K::make(); Out ignored; for (int k = 0; k < 3; k++) try { K::mut(*y, fill[k], ignored); } catch (Exception &) {} K::assign(*y, x); break; }
    case 4: { T z(x); y = new T(z); break; }
    case 5: { std::vector<T> v; for (int k = 0; k < 3; k++) v.push_back(x); y = new T(v[1]); break; }
    case 6: { T *z = new T(x); y = new T(*z); Out ignored; for (int k = 0; k < 3; k++) try { K::mut(*z, fill[k], ignored); } catch (Exception &) {} delete z; break; }
    default: y = new T(x);
    }
    return y;
}
static const char SEP = '\001';
template <class K> static void one(typename K::T &x, const Op &o, std::string &all) { Out out; try { K::mut(x, o, out); } catch (Exception &e) { out.add("threw"); out.add(e.getMessage()); } catch (std::exception &e) { out.add("threw std"); } all += out.s; all += SEP; }
template <class K> static void look(typename K::T &x, std::string &all) { Out out; K::look(x, out); all += out.s; all += SEP; }
template <class K> static void finish(typename K::T &x, std::string &all) { look<K>(x, all); Out out; K::end(x, out); all += out.s; all += SEP; }
static void differ(const char *kind, const char *which, const std::string &got, const std::string &want) {
    size_t i = 0, line = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) { if (got[i] == SEP) line = i + 1; i++; }
    std::string a = got.substr(line, got.find(SEP, line) - line), b = want.substr(line, want.find(SEP, line) - line);
    fail((std::string(which) + " of " + kind).c_str(), "%s of %s: it shows %s; made and used separately it shows %s", which, kind, a.c_str(), b.c_str());
}
template <class K> static void check(const Program &p, const char *kind) {
    using T = typename K::T; int mode = (int)p.get("mode"); if ((mode == 2 || mode == 3) && (std::is_same<K, KConc>::value || std::is_same<K, KRandom>::value)) mode = 0;
    bool par = p.get("par"), die = p.get("die"); Op fill[3]; for (int k = 0; k < 3; k++) fill[k] = Op{0, (int)p.get("f1") + k, p.get("f2") + k, p.get("f3") * (k + 1), 0};
    std::string want0, want1, want2, got0, got1, got2; for (std::string *s : {&want0, &want1, &want2, &got0, &got1, &got2}) s->reserve(1 << 16);
    HeapMark mark = heap_mark();
    for (int t = 1; t <= 2; t++) { std::string &want = t == 1 ? want1 : want2; want0.clear(); T *x = K::make(); for (const Op &o : p.ops) if (o.t == 0) one<K>(*x, o, want0); look<K>(*x, want0); for (const Op &o : p.ops) if (o.t == t) one<K>(*x, o, want); finish<K>(*x, want); delete x; }
    T *x = K::make(); for (const Op &o : p.ops) if (o.t == 0) one<K>(*x, o, got0);
    T *y = copy<K>(*x, mode, fill); std::string first = got0; look<K>(*y, got0); if (got0 != want0) differ(kind, "the new copy", got0, want0); got0 = first; look<K>(*x, got0); if (got0 != want0) differ(kind, "the copied object", got0, want0);
    if (par) {
        int a = spawn([&] { for (const Op &o : p.ops) if (o.t == 1) one<K>(*x, o, got1); finish<K>(*x, got1); if (die) { delete x; x = nullptr; } }), b = spawn([&] { for (const Op &o : p.ops) if (o.t == 2) one<K>(*y, o, got2); finish<K>(*y, got2); });
        join(a); join(b);
    } else {
        for (const Op &o : p.ops) { if (o.t == 1) one<K>(*x, o, got1); if (o.t == 2 && !(die)) one<K>(*y, o, got2); }
        finish<K>(*x, got1); if (die) { delete x; x = nullptr; for (const Op &o : p.ops) if (o.t == 2) one<K>(*y, o, got2); } finish<K>(*y, got2);
    }
    if (got1 != want1) differ(kind, "the copied object", got1, want1); if (got2 != want2) differ(kind, "the copy", got2, want2);
    delete x; delete y; (void)mark;
    uint64_t h = 1469598103934665603ull; for (std::string *s : {&got0, &got1, &got2}) for (char k : *s) h = (h ^ (unsigned char)k) * 1099511628211ull; cover(h + mode * 31 + par);
}
struct Entry { const char *name; void (*run)(const Program &, const char *); };
static const Entry kinds[] = {{"a String", check<KString>}, {"a StringBuilder", check<KBuilder>}, {"a StringBuffer", check<KBuffer>}, {"an ArrayList", check<KList<String>>}, {"an ArrayList of numbers", check<KList<Integer>>}, {"a Vector", check<KVector>}, {"a LinkedList", check<KLinked>}, {"a Stack", check<KStack>}, {"a PriorityQueue", check<KHeap>}, {"a HashMap", check<KHash>}, {"a ConcurrentHashMap", check<KConc>}, {"a BitSet", check<KBits>}, {"an Array", check<KArray<String>>}, {"an Array of numbers", check<KArray<Integer>>}, {"a Date", check<KDate>}, {"a SimpleDateFormat", check<KFormat>}, {"a TimeZone", check<KZone>}, {"a UUID", check<KUuid>}, {"a MessageDigest", check<KDigest>}, {"a Random", check<KRandom>}, {"a URL", check<KUrl>}, {"a MediaType", check<KMedia>}, {"an Encoder", check<KCoder>}, {"an Exception", check<KThrown>}, {"an Integer", check<Numbers<Integer>>}, {"a Long", check<Numbers<Long>>}, {"a Short", check<Numbers<Short>>}, {"a Double", check<Numbers<Double>>}, {"a Float", check<Numbers<Float>>}, {"a Bytes", check<Numbers<Bytes>>}, {"a HashMap of vectors", check<KNested>}, {"a Vector of lists", check<KRows>}};
enum { NKINDS = sizeof kinds / sizeof *kinds };
static void run_copies(const Program &p) { const Entry &k = kinds[p.get("kind") % NKINDS]; k.run(p, k.name); }
static void gen_copies(Rng &r, Program &p, Config &c) {
    c.leaks = true; c.liveness = true; c.step_cap = 20000000; c.malloc_fill = (int)r.range(0, 255); c.heap_reuse = r.chance(0.5); c.clock_tick_ns = 100; c.p_adv = 0;
    p.params["kind"] = (long)r.below(NKINDS); p.params["mode"] = (long)r.below(MODES); p.params["par"] = r.chance(0.5); p.params["die"] = r.chance(0.3); p.params["f1"] = (long)r.below(8); p.params["f2"] = (long)r.below(16); p.params["f3"] = (long)r.below(100);
    const char *only = getenv("SIM_KIND"); if (only) p.params["kind"] = atoi(only);
    int n[3] = {(int)r.below(r.chance(0.2) ? 40 : 8), (int)r.below(6), (int)r.below(6)}; while (n[0] + n[1] + n[2]) { int t = n[0] ? 0 : n[1] && (!n[2] || r.chance(0.5)) ? 1 : 2; n[t]--; p.ops.push_back(Op{t, (int)r.below(840), (long)r.below(1000), r.chance(0.3) ? (long)(r.next() >> 1) : (long)r.below(2000), 0}); }
}
SCENARIO("C21", copies, gen_copies, run_copies);
}
