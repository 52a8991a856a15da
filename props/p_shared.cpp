// C27: objects that nobody changes can be read by any number of threads.
#include "common.h"
using namespace jm;

namespace
{
   typedef u32 Args[4];
   std::string num(i64 v) { return std::to_string(v); }
   std::string dbl(double d) { char b[40]; snprintf(b, sizeof b, "%.12g", d); return b; }
   std::string arr(const ByteArray& b) { return num(b.size()) + ":" + hex(b.constData(), (size_t)b.size(), 60); }
   struct Item: public Object { int v; explicit Item(int x): v(x) {} };
   std::u16string make(u32 a)
   {
      static const char16_t al[] = u"abcABC 0123456789.,-_=%\u00e4\u00d6\u00df\u20ac\u03b1/&<>";
      std::u16string u; u32 n = a % 30, x = a * 2654435761u + 1;
      for(u32 i = 0; i < n; i++) { x = x * 1103515245 + 12345; u += al[(x >> 16) % (sizeof al / 2 - 1)]; }
      return u;
   }

   // the shared objects
   struct Shared
   {
      String s[3]; std::u16string m[3]; StringList* l; ByteArray* b; Hashtable* h; std::vector<Item*> items; std::vector<std::u16string> keys; LinkedList* ll; Item* owner;
      Date* d; DateFormatter* df; Matrix* mx; Preferences* p; File* f; File* dir; Array<String>* a; Color* c; Charset* cs; Exception* ex; I18nBundle* bundle; Vertex3* v; Rect* rc; Property* pr; Extents* ext; Vertex2* v2; Nurbs* nb; Date* d2;
   };
   Shared* sh = nullptr;

   void build(const u32 (&seed)[8])
   {
      sh = new Shared(); Shared& x = *sh;
      for(int i = 0; i < 3; i++) { x.m[i] = make(seed[i]); x.s[i] = JU(x.m[i]); }
      x.m[2] = u"x %1 y %2"; x.s[2] = JU(x.m[2]);
      x.l = new StringList; for(u32 i = 0; i < 1 + seed[3] % 9; i++) x.l->append(JU(make(seed[3] + i)));
      std::string by = genBytes(seed[4] % 60, 1, seed[4]); x.b = new ByteArray((const uint8*)by.data(), (int64)by.size());
      x.h = new Hashtable; x.owner = new Item(0); x.ll = new LinkedList(x.owner);
      for(u32 i = 0; i < 1 + seed[5] % 14; i++) { x.keys.push_back(u"k" + make(seed[5] + i)); x.items.push_back(new Item((int)(i + seed[5] % 50))); x.h->put(JU(x.keys.back()), x.items.back()); x.ll->add(x.items.back(), nullptr); }
      x.d = new Date((int64)seed[6] * 100000007); x.df = new DateFormatter(String("yyyy-MM-dd HH:mm:ss 'at' EEE D"));
      x.mx = new Matrix(Matrix::generate3x3RotationXMatrix((double)seed[7] / 100));
      x.p = new Preferences; for(u32 i = 0; i < 4; i++) x.p->setValue(J("key" + num(i)), JU(make(seed[i])));
      x.p->setValue(String("n"), (int64)seed[6]); x.p->setValue(String("r"), (double)seed[7] / 4); x.p->setValue(String("t"), true);
      x.f = new File(String("/tmp/shared/a/text.tar.gz")); x.dir = new File(String("/tmp/shared/a"));
      x.a = new Array<String>((int64)(1 + seed[3] % 5)); for(int64 i = 0; i < x.a->size(); i++) x.a->set(i, JU(make(seed[2] + (u32)i)));
      x.c = new Color(Color::fromRgb((uint8)seed[0], (uint8)seed[1], (uint8)seed[2]));
      x.cs = Charset::forName(String("Windows-1252")); x.ex = new Exception(JU(make(seed[4])));
      x.bundle = I18nBundle::getDefault(); x.v = new Vertex3(seed[0], seed[1], 3);
      x.rc = new Rect(seed[0], seed[1], 1 + seed[2] % 50, 1 + seed[3] % 50); x.v2 = new Vertex2(seed[4] + 1, (double)seed[5] / 7);
      x.pr = new Property(JU(make(seed[0])), JU(make(seed[1])), JU(make(seed[2])), String("hint"), String("editor")); x.pr->setStringValue(JU(make(seed[3]))); x.pr->setIcon(String("icon"));
      x.ext = new Extents; x.ext->add(*x.v); x.ext->add(*x.v2);
      { Vertex3 cp[4] = {Vertex3(0, 0, 0), Vertex3(seed[0] % 9, 2, 0), Vertex3(4, seed[1] % 5, 1), Vertex3(6, 0, seed[2] % 3)}; double kn[8] = {0, 0, 0, 0, 1, 1, 1, 1}, we[4] = {1, 1, 1, 1}; x.nb = new Nurbs(3, cp, 4, kn, 8, we, 4); }
   }

   const u32 kOps = 39;
   std::string op(u32 kind, const Args& a)
   {
      Shared& x = *sh; const String& s = x.s[a[0] % 3]; const String& t = x.s[a[1] % 3];
      switch(kind)
      {
         case 0: { std::string o; for(int64 i = 0; i < s.size(); i++) o += num(s.charAt(i).unicode()) + ","; return o; }
         case 1: return S(s.toUpperCase()) + "|" + S(s.toLowerCase()) + "|" + S(s.trim());
         case 2: return num(s.compareTo(t)) + num(s.equals(t)) + num(s.equalsIgnoreCase(t)) + num(s.compareFancyTo(t)) + num(s == t) + num(s.startsWith(t)) + num(s.endsWith(t));
         case 3: { int64 b = (int64)(a[2] % 12); return S(s.substring(b)) + "|" + S(s.substring(b, b + (int64)(a[3] % 9))); }
         case 4: { String c(s); c.append(t); c.insert(0, Char('#')); c.hashCode(); return S(c) + num(c.hashCode()); }
         case 5: { String c; c = s; c << t << String("!"); return S(c) + S(s + t); }
         case 6: return num(s.constHashCode()) + num(s.count(Char('a')));
         case 7: return S(x.s[2].arg(s).arg((int64)a[2])) + S(x.s[2].arg(t));
         case 8: return arr(s.toCString()) + arr(s.toCString(x.cs));
         case 9: { uint16* w = s.toWString(); std::string o = hex(w, (size_t)s.size() * 2); delete[] w; return o; }
         case 10: { StringTokenizer st(s, t, a[2] % 2); std::string o; while(st.hasNext()) o += "[" + S(st.next()) + "]"; return o; }
         case 11: { std::string o; for(int64 i = 0; i < x.l->size(); i++) o += S(x.l->get(i)) + ";"; return o + S(x.l->join(Char('/'))) + num(x.l->contains(s)); }
         case 12: { StringList c(*x.l); c.append(s); c.sort(); c.remove(t); return S(c.join(Char(';'))); }
         case 13: { StringList c; c = *x.l; if(c.size()) c.set(0, t); return S(c.join(Char(','))); }
         case 14: { std::string o; for(int64 i = 0; i < x.b->size(); i++) o += num(x.b->get(i)) + ","; return o; }
         case 15: { ByteArray c(*x.b); c.resize(c.size() + a[2] % 5); c.fill((uint8)a[3]); return arr(c) + arr(*x.b) + num(c == *x.b); }
         case 16: { String c(*x.b, x.cs); ByteArray e; e = *x.b; return S(c) + arr(e); }
         case 17: { String k = JU(x.keys[a[2] % x.keys.size()]); Item* i = (Item*)x.h->get(k); return num(i ? i->v : -1) + num(x.h->containsKey(s)) + num(x.h->size()) + num(x.h->containsValue(x.items[a[3] % x.items.size()])); }
         case 18: { std::unique_ptr<Iterator> k(x.h->keys()); std::multiset<std::string> ks; while(k->hasNext()) ks.insert(S(*(String*)k->next())); std::string o; for(auto& q : ks) o += q + ";"; return o; }
         case 19: { std::unique_ptr<Iterator> k(x.h->values()); i64 n = 0; while(k->hasNext()) n += ((Item*)k->next())->v; return num(n); }
         case 20: { std::string o; LinkedListIterator it = x.ll->iterator(); while(it.hasNext()) o += num(((Item*)it.next())->v) + ","; return o + num(x.ll->size()) + num(((Item*)x.ll->first())->v) + num(((Item*)x.ll->last())->v); }
         case 21: { const Date& d = *x.d; return num(d.utcYear()) + "-" + num(d.utcMonth()) + "-" + num(d.utcDate()) + " " + num(d.utcHours()) + ":" + num(d.utcMinutes()) + " " + num(d.utcDay()) + num(d.dayOfYear()) + S(d.toString()); }
         case 22: return S(x.df->format(*x.d)) + S(x.df->format(Date((int64)a[2] * 100000007)));
         case 23: { Matrix n = Matrix::generate3x3RotationYMatrix((double)a[1] / 100); Matrix r = *x.mx * n; std::string o; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) o += dbl(r.get(i, j)) + " "; return o + dbl(x.mx->get(1, 1)); }
         case 24: return S(x.p->value(J("key" + num(a[2] % 5)))) + S(x.p->value(String("none"), s)) + num(x.p->valueInt(String("n"), 1)) + dbl(x.p->valueDouble(String("r"), 1)) + num(x.p->valueBool(String("t"), false)) + num(x.p->hasValue(J("key" + num(a[2] % 5))));
         case 25: return S(x.f->name()) + S(x.f->parent()) + S(x.f->path()) + S(x.f->absolutePath()) + S(x.f->extension()) + num(x.f->isAbsolute()) + num(x.f->isHidden()) + num(x.f->compareTo(*x.dir));
         case 26: return num(x.f->exists()) + num(x.f->size()) + num(x.f->isFile()) + num(x.dir->isDirectory()) + num(x.f->isLink()) + num(x.f->canRead()) + num(x.f->lastModified().time());
         case 27: { File c(*x.f); File e(*x.dir, s.isEmpty() ? String("q") : J("q")); std::string o = S(c.absolutePath()) + S(e.name()); Array<File>* fl = x.dir->listFiles(); std::multiset<std::string> n; if(fl) for(int64 i = 0; i < fl->size(); i++) n.insert(S(fl->get(i).name())); delete fl; for(auto& q : n) o += q + ";"; return o; }
         case 28: { File r(x.f->absolutePath()); r.open(FileMode::kRead); ByteArray b(r.size(), 0); int64 n = r.readFully(b, b.size()); r.close(); return num(n) + arr(b); }
         case 29: { std::string o; for(int64 i = 0; i < x.a->size(); i++) o += S(x.a->get(i)) + ";"; Array<String> c(*x.a); c.set(0, t); return o + S(c[0]) + S((*x.a)[0]); }
         case 30: { Color c(*x.c); float h, q, v; c.hsvModel(h, q, v); return num(x.c->red()) + num(x.c->green()) + num(x.c->blue()) + dbl(h) + dbl(v); }
         case 31: return S(x.ex->errorMessage()) + S(x.bundle->translate(s)) + S(Tr("File %1")) + S(x.cs->name());
         case 32: { const Vertex3& v = *x.v; Vertex3 w = v + Vertex3(1, 2, (double)a[2]); return dbl(w.x) + dbl(w.y) + dbl(w.z) + dbl(v.x); }
         case 33: { const Rect& r = *x.rc; Rect q(r); q.unionWith(Rect(0, 0, 1, a[2])); return dbl(r.x()) + dbl(r.width()) + dbl(r.center().x()) + dbl(r.bottomRight().y()) + num(r.contains(a[2], a[3])) + dbl(q.height()); }
         case 34: { const Property& p = *x.pr; Property q(p); q.setStringValue(t); return S(p.id()) + S(p.name()) + S(p.group()) + S(p.hint()) + S(p.icon()) + S(p.stringValue()) + num(p.is(s)) + num(p.isReadOnly()) + S(q.stringValue()); }
         case 35: { const Extents& e = *x.ext; Extents q(e); q.add(Vertex3(a[2], a[3], 1)); return dbl(e.minPoint().x) + dbl(e.maxPoint().y) + dbl(e.delta().z) + num(e.isValid()) + dbl(q.maxPoint().x); }
         case 36: { const Vertex2& v = *x.v2; Vertex2 r = v.rotated((double)a[2] / 100); return dbl(v.abs()) + dbl(r.x) + dbl(v.normalized().y) + dbl(v.crossProduct(r)) + num(v.isLeftTo(r)); }
         case 37: { Vertex3 p = x.nb->point((double)(a[2] % 100) / 100); return dbl(p.x) + dbl(p.y) + dbl(p.z) + dbl(x.nb->start()) + num(x.nb->controlPointCount()); }
         default: { x.owner->retain(); x.items[a[2] % x.items.size()]->retain(); std::string o = num(x.items[a[2] % x.items.size()]->v); x.items[a[2] % x.items.size()]->release(); x.owner->release(); return o; }
      }
   }

   std::string snapshot() { std::string o; Args a = {0, 1, 2, 3}; for(u32 k = 0; k < kOps; k++) for(u32 i = 0; i < 3; i++) { a[0] = i; a[1] = i + 1; o += op(k, a) + "\n"; } return o; }

   struct Step { u32 kind; Args a; };
   void run()
   {
      u32 nt = 2 + W(3);
      u32 seed[8]; for(u32& s : seed) s = W(3000);
      fsMkdirs("/tmp/shared/a/sub"); fsWrite("/tmp/shared/a/text.tar.gz", genBytes(seed[0] % 90, 1, seed[1])); fsWrite("/tmp/shared/a/.x", "");
      std::vector<std::vector<Step>> sc(nt);
      u32 common = W(3) ? W(kOps) : kOps;
      for(auto& v : sc) { u32 n = 1 + W(5); for(u32 i = 0; i < n; i++) { Step s; s.kind = (common < kOps && W(2)) ? common : W(kOps); for(u32& x : s.a) x = W(4) ? W(6) : W(100000); v.push_back(s); } }
      auto script = [&](u32 t) { std::string o; for(Step& s : sc[t]) o += op(s.kind, s.a) + "\n"; return o; };
      journalClear();
      boot([&] { initLib(); build(seed); for(u32 t = 0; t < nt; t++) journal(script(t)); });
      std::vector<std::string> want = journalRead();
      if(want.size() != nt) fail("crash", "a script of read accesses did not finish");
      initLib();
      build(seed);
      bool before = W(2); std::string s0 = before ? snapshot() : "";
      nontrivial();
      schedConfig(W(3) ? 10 : 3);
      std::vector<std::string> got(nt);
      for(u32 t = 0; t < nt; t++)
      {
         char nm[16]; snprintf(nm, sizeof nm, "reader%u", t);
         spawn(nm, [&, t] { std::string o = script(t); NoPreempt np; got[t] = o; });
      }
      joinAll();
      for(u32 t = 0; t < nt; t++)
      {
         for(Step& s : sc[t]) log("t%u op %u", t, s.kind);
         if(got[t] == want[t]) continue;
         size_t i = 0; while(i < got[t].size() && i < want[t].size() && got[t][i] == want[t][i]) i++;
         u32 line = 0; for(size_t k = 0; k < i; k++) line += want[t][k] == '\n';
         i = i > 10 ? i - 10 : 0;
         fail("reading", "operation %u (kind %u) of thread %u reads %s while others read and %s alone", line, line < sc[t].size() ? sc[t][line].kind : 99, t, show(got[t].substr(i), 60).c_str(), show(want[t].substr(i), 60).c_str());
      }
      if(before && snapshot() != s0) fail("reading", "reading changed the objects");
   }

   Registrar r27({"C27", run, 20000, 500000,
      "2-4 threads with 1-5 reading operations each (39 kinds over 27 classes: const members, copies that are changed afterwards, iterators of their own, retain and release) on one shared set of objects under a seeded preemptive schedule; every result is compared with the one the same script yields alone, and all objects afterwards with what they were before.",
      "distinct interleavings (hash over the sequence of context switches and outcomes)",
      "String, StringList, ByteArray, Hashtable, LinkedList, Date, DateFormatter, Matrix, Preferences, File, Array, Color, Charset, Exception, I18nBundle, Vertex3, Object (instrumented build)",
      "thread scheduler, file system, heap"});
}
