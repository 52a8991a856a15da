// C07: threads that use only objects of their own do not influence each other.
#include "common.h"
#include <zlib.h>
#include <cmath>
using namespace jm;

namespace
{
   typedef u32 Args[4];
   std::string num(i64 v) { return std::to_string(v); }
   std::string dbl(double d) { char b[40]; snprintf(b, sizeof b, "%.12g", d); return b; }

   String text(u32 a, u32 salt)
   {
      static const char16_t al[] = u"abcABC 0123456789.,-_=\u00e4\u00d6\u00df\u20ac\u03b1%/&<>\"'";
      std::u16string u;
      u32 n = 1 + a % 24, x = a * 2654435761u + salt;
      for(u32 i = 0; i < n; i++) { x = x * 1103515245 + 12345; u += al[(x >> 16) % (sizeof al / 2 - 1)]; }
      return JU(u);
   }
   std::string arr(const ByteArray& b) { return hex(b.constData(), (size_t)b.size(), 60); }

   struct Parser: public SAXParser
   {
      std::string t;
      void startElement(const String&, const String&, const String& q, const SAXAttributes& a) override
      { t += "<" + S(q); for(u32 i = 0; i < a.count(); i++) t += " " + S(a.qualifiedName(i)) + "=" + S(a.value(i)); t += ">"; }
      void endElement(const String&, const String&, const String& q) override { t += "</" + S(q) + ">"; }
      void characters(const String& c) override { t += "(" + S(c) + ")"; }
   };
   struct Item: public Object { int v; explicit Item(int x): v(x) {} };

   struct PDoc: public Document { bool saveDocument() override { return true; } bool loadDocument() override { return true; } Status initNewDocument(Preferences*) override { return Status::eOK; } };
   struct PObj: public EditableObject { int64 n = 0; String s; double d = 0; explicit PObj(Document* doc): EditableObject(doc) {} String displayName() const override { return "PObj"; } };
   std::string vx(const Vertex3& v) { return dbl(v.x) + "," + dbl(v.y) + "," + dbl(v.z) + " "; }
   std::string vx(const Vertex2& v) { return dbl(v.x) + "," + dbl(v.y) + " "; }

   std::string zlibData(const std::string& d, int level, bool raw, bool fixed)
   {
      std::string o(d.size() * 2 + 200, 0); z_stream z; memset(&z, 0, sizeof z);
      if(deflateInit2(&z, level, Z_DEFLATED, raw ? -15 : 15, 1, fixed ? Z_FIXED : Z_DEFAULT_STRATEGY) != Z_OK) fail("harness", "deflateInit2");
      z.next_in = (Bytef*)d.data(); z.avail_in = (uInt)d.size(); z.next_out = (Bytef*)o.data(); z.avail_out = (uInt)o.size();
      if(deflate(&z, Z_FINISH) != Z_STREAM_END) fail("harness", "deflate");
      o.resize(z.total_out); deflateEnd(&z); return o;
   }

   const u32 kOps = 46;
   std::string op(u32 kind, const Args& a, const std::string& dir)
   {
      switch(kind)
      {
         case 0: { String s = text(a[0], 1); String t = text(a[1], 2); s.append(t); s.insert(a[2] % (s.size() + 1), t.substring(0, t.size() / 2)); return S(s); }
         case 1: { String s = text(a[0], 3); return S(s.toUpperCase()) + "|" + S(s.toLowerCase()) + "|" + S(s.reverse()) + "|" + S(s.trim()); }
         case 2: { String s = text(a[0], 4); return num(s.indexOf(text(a[1] % 3, 5))) + num(s.indexOf('a')) + num(s.lastIndexOf('b')) + num(s.compareTo(text(a[1], 6))) + num(s.hashCode()); }
         case 3: { String s = String("x %1 y %2 z %3"); return S(s.arg(text(a[0], 7)).arg(int64(a[1])).arg((double)a[2] / 8)); }
         case 4: return S(Tr("Cannot open file! \"%1\" Errno: %2").arg(text(a[0], 8)).arg(int64(a[1])));
         case 5: return S(String::valueOf((int64)a[0] - 1000)) + S(String::valueOf((double)a[1] / 16)) + S(String::valueOf(a[2] % 2 == 0)) + dbl(String("12.25").toDouble()) + num(String("-77").toInt());
         case 6: { StringTokenizer st(text(a[0], 9), text(a[1] % 4, 10), a[2] % 2); std::string o; while(st.hasNext()) o += "[" + S(st.next()) + "]"; return o; }
         case 7: { StringList l; for(u32 i = 0; i < 2 + a[0] % 4; i++) l.append(text(a[1] + i, 11)); l.sort(); return S(l.join(Char(';'))) + num(l.contains(text(a[1], 11))); }
         case 8: { static const char* n[] = {"UTF-8", "Windows-1252", "MacRoman", "UTF-16LE", "UTF-16BE", "ASCII", "none"}; Charset* c = Charset::forName(String(n[a[0] % 7])); if(!c) return "null"; ByteArray b = text(a[1], 12).toCString(c); std::string o = S(c->name()) + arr(b); if(a[0] % 7 < 3) o += S(String(b, c)); return o; }
         case 9: { Date d((uint16)(1970 + a[0] % 120), (uint16)(1 + a[1] % 12), (uint16)(1 + a[2] % 28), (uint16)(a[3] % 24), 1, 2); return num(d.time()) + " " + num(d.utcYear()) + "-" + num(d.utcMonth()) + "-" + num(d.utcDate()) + " " + num(d.utcDay()) + " " + S(d.toString()); }
         case 10: { DateFormatter f(String("yyyy-MM-dd HH:mm:ss 'x' EEE")); return S(f.format(Date((int64)a[0] * 100000007))); }
         case 11: { std::string s = genBytes(3 + a[0] % 40, a[1] % 5, a[2]); int64 n = (int64)s.size(); uint8* e = Base64::encode((const uint8*)s.data(), n); std::string o((char*)e, (size_t)n); uint32 m = (uint32)n; uint8* d = Base64::decode(e, m); o += hex(d, m); delete[] e; delete[] d; return o; }
         case 12: { std::string s = genBytes(a[0] % 60, a[1] % 5, a[2]); return num(CRC::crc8((uint16)a[3], (const uint8*)s.data(), (uint32)s.size())); }
         case 13: { Hashtable h; std::vector<Item*> it; for(u32 i = 0; i < 3 + a[0] % 20; i++) { it.push_back(new Item((int)i)); h.put(text(a[1] + i, 13), it.back()); } std::string o = num(h.size()); Iterator* k = h.keys(); std::multiset<std::string> ks; while(k->hasNext()) ks.insert(S(*(String*)k->next())); delete k; for(auto& x : ks) o += x; Item* g = (Item*)h.get(text(a[1], 13)); o += num(g ? g->v : -1); h.remove(text(a[1], 13)); o += num(h.size()); for(auto i : it) i->release(); return o; }
         case 14: { std::string o; Item* owner = new Item(0); LinkedList* l = new LinkedList(owner); std::vector<Item*> it; for(u32 i = 0; i < 2 + a[0] % 5; i++) { it.push_back(new Item((int)(i * 3 + a[1]))); l->add(it.back(), nullptr); } l->remove(it[a[2] % it.size()], nullptr); l->rewind(); while(l->hasNext()) o += num(((Item*)l->next())->v) + ","; l->clear(nullptr); l->release(); for(auto i : it) i->release(); owner->release(); return o; }
         case 15: { Preferences p; p.setValue(text(a[0], 14), text(a[1], 15)); p.setValue(String("n"), (int64)a[2]); p.setValue(String("d"), (double)a[3] / 4); return S(p.value(text(a[0], 14))) + S(p.value(String("n"))) + S(p.value(String("d"))); }
         case 16: { Parser p; p.parse(String("<r a=\"1\"><b x='&lt;&amp;'>text &gt; more</b><c/></r>")); return p.t; }
         case 17: { uint8* buf = new uint8[600]; memset(buf, 0, 600); MemoryStream* m = new MemoryStream(buf, 600, true); { XMLWriter w(m); w.startDocument(); w.startElement(String("r")); w.writeAttribute(String("k"), text(a[0], 16)); w.startElement(String("s")); w.writeCData(text(a[1], 17)); w.endElement(); w.endElement(); } std::string o((char*)buf); m->release(); return o; }
         case 18: { std::string s = genBytes(200 + a[0] % 200, 1, a[2]); Deflater d; d.setInput((uint8*)s.data(), (int64)s.size()); uint8* out = nullptr; int64 n = 0; d.deflate(out, n); std::string o = num(n) + hex(out, (size_t)n); delete[] out; return o; }
         case 19: { return S(URLEncode(text(a[0], 18))) + S(URLDecode(String("a%20b%C3%A4"))); }
         case 20: return S(Integer::toHexString(a[0])) + S(Integer::toRomanString(1 + a[1] % 3000)) + S(Integer::toLatinAlphabetString(1 + a[2])) + num(Integer::digits(a[3])) + num(Integer::fromHex(String("beef")));
         case 21: { Matrix m = Matrix::generate3x3RotationXMatrix((double)a[0] / 100), n = Matrix::generate3x3RotationYMatrix((double)a[1] / 100); Matrix r = m * n; std::string o; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) o += dbl(r.get(i, j)) + " "; return o; }
         case 22:
         {
            File f(J(dir + "/f.txt"));
            std::string s = genBytes(a[0] % 3000, a[1] % 5, a[2]);
            f.open(FileMode::kWrite); f.write((const uint8*)s.data(), (int64)s.size()); f.close();
            File g(J(dir + "/f.txt")); ByteArray b(g.size(), 0); g.open(FileMode::kRead); int64 n = g.readFully(b, b.size()); g.close();
            return num(n) + num((i64)hashStr(std::string(b.constData(), (size_t)b.size())));
         }
         case 23: { File d(J(dir + "/d" + num(a[0] % 3))); std::string o = num(d.makeDirectory()); File c(J(dir + "/d" + num(a[0] % 3)), String("x")); o += num(c.createNewFile()); Array<File>* l = d.listFiles(); o += l ? num(l->size()) : "-"; delete l; o += num(c.remove()) + num(d.remove()) + num(d.exists()); return o; }
         case 24: { std::string m; threw([&] { File f(J(dir), String("")); }, &m); std::string n; threw([&] { throw Exception(text(a[0], 19)); }, &n); return m + "|" + n; }
         case 25: { Array<String> x(1 + a[0] % 5); for(int64 i = 0; i < x.size(); i++) x.set(i, text(a[1] + (u32)i, 20)); std::string o; for(int64 i = 0; i < x.size(); i++) o += S(x[i]); return o; }
         case 26: { Color c = Color::fromRgb((uint8)a[0], (uint8)a[1], (uint8)a[2]); Color d = Color::fromCmyk((uint8)a[0], (uint8)a[1], (uint8)a[2], (uint8)a[3]); d.toRgb(); float h, s, v; c.hsvModel(h, s, v); return num(d.red()) + num(d.green()) + dbl(h) + dbl(s); }
         case 27: { std::string s = S(System::language()) + S(System::bundleId()) + S(ExecName()) + S(ResourceDir(String("x")).absolutePath()) + S(PropertyDir().absolutePath()); return s; }
         case 28: { ByteArray b = text(a[0], 21).toCString(); b.resize(b.size() + a[1] % 9); b.replace((uint8)'a', (uint8)'z'); ByteArray c(b); c.sort(); return arr(c) + num(b == c); }
         case 30: { Rect r(a[0], a[1], 1 + a[2] % 50, 1 + a[3] % 50), q(a[1], a[0], 3, 4); r.unionWith(q); r.moveLeft(a[2] % 5); r.shiftTop(1); r.alignTopLeft(q); return dbl(r.x()) + " " + dbl(r.y()) + " " + dbl(r.width()) + " " + dbl(r.height()) + num(r.contains(a[1] + 1, a[0] + 1)) + dbl(r.center().x()) + dbl(r.bottomRight().y()); }
         case 31: { Extents e; for(u32 i = 0; i < 1 + a[0] % 4; i++) { Vertex3 v((double)a[1] / 7, (double)a[2] / 3, i); v.rotate((double)a[3] / 100, Vertex3(0, 0.6, 0.8)); e.add(v); } return vx(e.minPoint()) + vx(e.maxPoint()) + vx(e.delta()); }
         case 32: { Vertex2 v((double)a[0], (double)a[1] + 1), w((double)a[2] / 9, 2); return vx(v.rotated(0.5)) + vx(v.normalized()) + dbl(v.crossProduct(w)) + dbl(v.angleTo(w)) + num(v.isLeftTo(w)) + vx(angleBisector(v, w)); }
         case 33: { Property p(text(a[0], 23), text(a[1], 24), text(a[2], 25), String("hint"), String("editor"), a[3] % 2); p.setIntegerValue((int64)a[0] - 5); std::string o = num(p.integerValue()); p.setDoubleValue((double)a[1] / 3); o += dbl(p.doubleValue()); p.setStringValue(text(a[3], 26)); o += S(p.stringValue()) + S(p.id()) + S(p.name()) + S(p.group()) + num(p.isReadOnly()); p.setBoolValue(a[2] % 2); return o + num(p.boolValue()); }
         case 34: { Vertex3 n((double)a[0] + 1, (double)a[1], (double)a[2] / 2); n.normalize(); return vx(wcsToOcs(Vertex3(a[0], a[1], a[3]), n)) + vx(ocsToWcs(Vertex3(a[3], a[2], a[1]), n)); }
         case 35: { Vertex2 p, q; intersectionPointsOfCircles(Vertex2(0, 0), 5 + a[0] % 5, Vertex2(4, a[1] % 3), 4, p, q); Vertex2 c; double r = 0; circleParameterBy3Points(c, r, Vertex2(0, a[2] % 7), Vertex2(3, 1), Vertex2(1, 8)); return vx(p) + vx(q) + vx(c) + dbl(r) + vx(closestPointOnCircle(Vertex3(a[0], 2, 1), Vertex3(), 4, Vertex3(0, 0, 1))); }
         case 36: { Vertex3 cp[4] = {Vertex3(0, 0, 0), Vertex3(a[0] % 9, 2, 0), Vertex3(4, a[1] % 5, 1), Vertex3(6, 0, a[2] % 3)}; double kn[8] = {0, 0, 0, 0, 1, 1, 1, 1}, we[4] = {1, 1, 1, 1}; Nurbs* b = new Nurbs(3, cp, 4, kn, 8, we, 4); std::string o; for(int i = 0; i < 4; i++) o += vx(b->point(i / 5.0)); b->release(); return o; }
         case 37: { std::vector<String*> own; DiffDistance d; for(u32 i = 0; i < 1 + a[0] % 5; i++) { own.push_back(new String(text(a[1] % 3 + i, 27))); d.addU(own.back()); } for(u32 i = 0; i < 1 + a[2] % 5; i++) { own.push_back(new String(text(a[3] % 3 + i, 27))); d.addV(own.back()); } DiffBacktrace* b = d.solve(); std::string o = num(d.distance()); delete b; d.clear(); for(auto x : own) x->release(); return o; }
         case 38: { uint8 b[64]; memset(b, 0, sizeof b); serializeBEInt16(b, 0, (int16)a[0]); serializeBEInt32(b, 2, (int32)a[1] - 7); serializeLEInt64(b, 6, (int64)a[2] << 33); serializeLEDouble(b, 14, (double)a[3] / 3); serializeLEFloat(b, 22, 1.5f); serializeBEInt24(b, 26, (int32)a[0]); return hex(b, 30) + num(deserializeBEInt16(b, 0)) + num(deserializeLEInt64(b, 6)) + dbl(deserializeLEDouble(b, 14)); }
         case 39:
         {
            std::string d = genBytes(1 + a[0] % 300, a[1] % 5, a[2]), o;
            { File* f = new File(J(dir + "/z.zip")); ZipOutputFile* z = new ZipOutputFile(f); z->open(); ZipEntry* e = new ZipEntry(text(a[3], 28)); z->putNextEntry(e); z->write((uint8*)d.data(), 0, (int64)d.size()); z->closeEntry(); z->close(); z->release(); e->release(); f->release(); }
            File* f = new File(J(dir + "/z.zip")); ZipFile* z = new ZipFile(f); z->open(); ZipEntry* e = z->entry(text(a[3], 28)); if(e) { jm::Stream* st = z->stream(e); ByteArray b((int64)d.size() + 4, (uint8)0); int64 n = st->read((uint8*)b.data(), (int64)d.size()); o = num(n) + num((i64)hashStr(std::string(b.constData(), (size_t)n))); st->release(); } z->close(); z->release(); f->release();
            return o;
         }
         case 40: { PDoc* doc = new PDoc; UndoManager* u = doc->undoManager(); PObj* p = new PObj(doc); p->setMember(&p->n, (int64)a[0] + 1); p->setMember(&p->s, text(a[1], 29)); u->close(); p->setMember(&p->n, (int64)-5); p->setMember(&p->d, (double)a[2] / 3); u->close(); std::string o = num(p->n) + S(p->s) + dbl(p->d); u->undo(); o += num(p->n) + dbl(p->d); if(a[3] % 2) { u->undo(); o += num(p->n) + S(p->s); u->redo(); } u->redo(); o += num(p->n) + S(p->s) + num(u->undoCount()) + num(u->redoCount()); u->clearStacks(); p->release(); doc->release(); return o; }
         case 41: { std::string s = genBytes(20 + a[0] % 400, a[1] % 5, a[2]); Deflater d; d.setInput((uint8*)s.data(), (int64)s.size()); uint8* out = nullptr; int64 n = 0; d.deflate(out, n); Inflater i(a[3] % 2 != 0); i.SetInput(out, n); uint8* back = nullptr; int64 m = 0; std::string o; bool t = threw([&] { i.Inflate(back, m); }); if(!t) o = num(m) + num((i64)hashStr(std::string((char*)back, (size_t)m))); else o = "refused"; delete[] back; delete[] out; return o; }
         case 42: return num(divFloor((int64)a[0] - 300, 7)) + num(modFloor((int64)a[1] - 300, 7)) + dbl(roundFrac((double)a[2] / 7, (int64)3)) + dbl(interpolate(1.0, (double)a[3], 0.25)) + num(jm::round((double)a[0] / 3)) + num(ceilPowerOf2(a[1])) + S(Charset::guess("caf\xE9 au lait", 12));
         case 43:
         {
            // data of another program: stored, fixed and dynamic blocks
            std::string d = genBytes(1 + a[0] * 7 % 1200, a[1] % 5, a[2]), z = zlibData(d, a[3] % 3 == 0 ? 0 : a[3] % 3 == 1 ? 1 : 9, a[3] % 7 == 1, a[3] % 5 == 1), o;
            Inflater i(a[3] % 7 == 1); i.SetInput((uint8*)z.data(), (int64)z.size()); uint8* back = nullptr; int64 m = 0;
            if(threw([&] { i.Inflate(back, m); })) o = "refused"; else o = num(m) + num((i64)hashStr(std::string((char*)back, (size_t)m)));
            delete[] back; return o;
         }
         case 44:
         {
            std::string d = genBytes(20 + a[0] % 300, a[1] % 5, a[2]), o = S(Charset::guess(d.data(), (int64)d.size()));
            int64 l = (int64)d.size(); uint8* e = Base64::encode((const uint8*)d.data(), l); o += hex(e, (size_t)l); uint32 m = (uint32)l; uint8* b = Base64::decode(e, m); o += num(m) + num((i64)hashStr(std::string((char*)b, (size_t)m))); delete[] e; delete[] b;
            return o;
         }
         default: { File f(J(dir + "/p.properties")); Preferences p; p.setValue(String("key"), text(a[0], 22)); p.save(f); Preferences q; q.load(f); return S(q.value(String("key"))); }
      }
   }

   struct Step { u32 kind; Args a; };
   void run()
   {
      static CoutSink* sink = new CoutSink(); sink->buf.reserve(1 << 16);
      u32 nt = 2 + W(2);
      fsMkdirs("/tmp/t0"); fsMkdirs("/tmp/t1"); fsMkdirs("/tmp/t2");
      std::vector<std::vector<Step>> sc(nt);
      u32 common = W(3) ? W(kOps) : kOps;      // often the threads do the same things, to meet in the same function
      for(auto& v : sc) { u32 n = 1 + W(4); for(u32 i = 0; i < n; i++) { Step s; s.kind = (common < kOps && W(2)) ? common : W(kOps); for(u32& x : s.a) x = W(4) ? W(64) : W(100000); v.push_back(s); } }
      auto script = [&](u32 t) { std::string o; char d[16]; snprintf(d, sizeof d, "/tmp/t%u", t); for(Step& s : sc[t]) o += op(s.kind, s.a, d) + "\n"; return o; };
      // what each thread's script yields when it runs alone
      journalClear();
      boot([&] { initLib(); for(u32 t = 0; t < nt; t++) journal(script(t)); });
      std::vector<std::string> want = journalRead();
      if(want.size() != nt) fail("crash", "a script of thread-private operations did not finish");
      for(u32 t = 0; t < nt; t++) { char d[32]; snprintf(d, sizeof d, "/tmp/t%u", t); for(auto& n : fsList(d)) { fsRemove(std::string(d) + "/" + n); } }
      initLib();
      nontrivial();
      schedConfig(W(3) ? 20 : 4);
      std::vector<std::string> got(nt);
      for(u32 t = 0; t < nt; t++)
      {
         char nm[16]; snprintf(nm, sizeof nm, "client%u", t);
         spawn(nm, [&, t] { std::string o = script(t); NoPreempt np; got[t] = o; });
      }
      joinAll();
      for(u32 t = 0; t < nt; t++)
      {
         for(Step& s : sc[t]) log("t%u op %u", t, s.kind);
         if(got[t] != want[t])
         {
            size_t i = 0; while(i < got[t].size() && i < want[t].size() && got[t][i] == want[t][i]) i++;
            u32 line = 0; for(size_t k = 0; k < i; k++) line += want[t][k] == '\n';
            i = i > 10 ? i - 10 : 0;
            fail("interference", "operation %u (kind %u) of thread %u yields %s next to other threads and %s alone", line, line < sc[t].size() ? sc[t][line].kind : 99, t, show(got[t].substr(i), 60).c_str(), show(want[t].substr(i), 60).c_str());
         }
      }
   }

   Registrar r7({"C07", run, 20000, 400000,
      "2 or 3 threads run scripts of 1 to 4 operations out of 44 kinds (strings, charsets, translations, formatting, dates, containers, codecs, XML, matrices, files in separate directories, preferences) on objects of their own under preemption at every memory access; every result is compared with that of the same script running alone in a fresh process.",
      "distinct executions (hash over schedule, workload and outcomes)",
      "String, StringList, StringTokenizer, Charset and decoders, I18nBundle, Date, DateFormatter, Base64, CRC, Hashtable, LinkedList, Preferences, SAXParser, XMLWriter, MemoryStream, Deflater, Integer, Matrix, File, Exception, Array, Color, System, ByteArray (instrumented build)",
      "thread scheduler, file system behind stdio, clock, heap"});
}
