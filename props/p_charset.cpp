// C24: texts and the character sets they are stored in.
#include "common.h"
#include <memory>
using namespace jm;

namespace
{
   enum { UTF8, WIN, MAC, LE, BE, RAW, ASC, NCS };
   const char* name[] = {"UTF-8", "Windows-1252", "MacRoman", "UTF-16LE", "UTF-16BE", "RAW", "ASCII"};
   // the upper halves, from the tables of the Unicode consortium; 0 is undefined
   const char16_t win[32] = {0x20ac, 0, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0, 0x17d, 0, 0, 0x2018, 0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0, 0x17e, 0x178};
   const char16_t mac[129] = u"\u00c4\u00c5\u00c7\u00c9\u00d1\u00d6\u00dc\u00e1\u00e0\u00e2\u00e4\u00e3\u00e5\u00e7\u00e9\u00e8\u00ea\u00eb\u00ed\u00ec\u00ee\u00ef\u00f1\u00f3\u00f2\u00f4\u00f6\u00f5\u00fa\u00f9\u00fb\u00fc\u2020\u00b0\u00a2\u00a3\u00a7\u2022\u00b6\u00df\u00ae\u00a9\u2122\u00b4\u00a8\u2260\u00c6\u00d8\u221e\u00b1\u2264\u2265\u00a5\u00b5\u2202\u2211\u220f\u03c0\u222b\u00aa\u00ba\u03a9\u00e6\u00f8\u00bf\u00a1\u00ac\u221a\u0192\u2248\u2206\u00ab\u00bb\u2026\u00a0\u00c0\u00c3\u00d5\u0152\u0153\u2013\u2014\u201c\u201d\u2018\u2019\u00f7\u25ca\u00ff\u0178\u2044\u20ac\u2039\u203a\ufb01\ufb02\u2021\u00b7\u201a\u201e\u2030\u00c2\u00ca\u00c1\u00cb\u00c8\u00cd\u00ce\u00cf\u00cc\u00d3\u00d4\uf8ff\u00d2\u00da\u00db\u00d9\u0131\u02c6\u02dc\u00af\u02d8\u02d9\u02da\u00b8\u02dd\u02db\u02c7";

   // one character (one or two units) of a character set
   std::u16string character(u32 cs)
   {
      char32_t c = 0;
      switch(cs)
      {
         case WIN: do { c = 1 + W(255); if(c >= 0x80 && c < 0xa0) c = win[c - 0x80]; } while(!c); break;
         case MAC: c = 1 + W(255); if(c >= 0x80) c = mac[c - 0x80]; break;
         case RAW: c = 1 + W(255); break;
         case ASC: c = 1 + W(127); break;
         default:
         {
            static const char32_t edge[] = {'a', 1, 0x7f, 0x80, 0xe4, 0xff, 0x100, 0x7ff, 0x800, 0x20ac, 0x2000, 0xd7ff, 0xe000, 0xff00, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ff00, 0x10ffff, 0x100fe, 0x20000};
            switch(W(4))
            {
               case 0: c = 1 + W(0x7f); break;
               case 1: c = edge[W(sizeof edge / 4)]; break;
               case 2: c = 1 + W(0xfffe); if(c >= 0xd800 && c < 0xe000) c -= 0x800; break;
               default: c = 0x10000 + W(0x100000); break;
            }
         }
      }
      if(c < 0x10000) return std::u16string(1, (char16_t)c);
      c -= 0x10000;
      return {(char16_t)(0xd800 + (c >> 10)), (char16_t)(0xdc00 + (c & 0x3ff))};
   }

   struct Text { std::u16string u; std::string b; std::vector<size_t> end; };   // end[i]: bytes up to and including unit i
   Text encode(const std::u16string& u, u32 cs)
   {
      Text t; t.u = u;
      for(size_t i = 0; i < u.size(); i++)
      {
         char32_t c = u[i]; bool pair = false;
         switch(cs)
         {
            case LE: t.b += (char)c; t.b += (char)(c >> 8); break;
            case BE: t.b += (char)(c >> 8); t.b += (char)c; break;
            case UTF8:
               if(c >= 0xd800 && c < 0xdc00 && i + 1 < u.size() && u[i + 1] >= 0xdc00 && u[i + 1] < 0xe000) { c = 0x10000 + ((c - 0xd800) << 10) + (u[i + 1] - 0xdc00); pair = true; }
               if(c < 0x80) t.b += (char)c;
               else if(c < 0x800) { t.b += (char)(0xc0 | c >> 6); t.b += (char)(0x80 | (c & 63)); }
               else if(c < 0x10000) { t.b += (char)(0xe0 | c >> 12); t.b += (char)(0x80 | (c >> 6 & 63)); t.b += (char)(0x80 | (c & 63)); }
               else { t.b += (char)(0xf0 | c >> 18); t.b += (char)(0x80 | (c >> 12 & 63)); t.b += (char)(0x80 | (c >> 6 & 63)); t.b += (char)(0x80 | (c & 63)); }
               break;
            case WIN: { u32 b = c; for(u32 k = 0; k < 32; k++) if(win[k] == c) b = 0x80 + k; t.b += (char)b; break; }
            case MAC: { u32 b = c; if(c >= 0x80) for(u32 k = 0; k < 128; k++) if(mac[k] == c) b = 0x80 + k; t.b += (char)b; break; }
            default: t.b += (char)c;
         }
         t.end.push_back(t.b.size());
         if(pair) { t.end.push_back(t.b.size()); i++; }
      }
      return t;
   }
   bool mark(const std::string& b) { return b.substr(0, 2) == "\xFE\xFF" || b.substr(0, 2) == "\xFF\xFE" || b.substr(0, 3) == "\xEF\xBB\xBF"; }
   Text text(u32 cs)
   {
      for(;;)
      {
         std::u16string u; u32 n = Wlen(W(6) ? 12 : 300);
         for(u32 i = 0; i < n; i++) u += character(cs);
         Text t = encode(u, cs);
         if(!mark(t.b)) return t;        // the text would start with a byte order mark
      }
   }

   Charset* charset(u32 cs) { Charset* c = Charset::forName(J(name[cs])); if(!c) fail("charset", "there is no charset %s", name[cs]); return c; }

   // all ways to make a text out of bytes
   String decode(const std::string& b, u32 cs, u32 way)
   {
      Charset* c = charset(cs);
      bool dflt = cs == UTF8 && way & 1;
      size_t zeros = cs == LE || cs == BE ? 2 + b.size() % 2 : 1;
      switch(way >> 1)
      {
         case 0: { std::unique_ptr<char[]> p(new char[b.size() + zeros]); memcpy(p.get(), b.data(), b.size()); memset(p.get() + b.size(), 0, zeros); return dflt ? String(p.get()) : String(p.get(), c); }
         case 1: { std::unique_ptr<char[]> p(new char[b.size()]); memcpy(p.get(), b.data(), b.size()); return dflt ? String(p.get(), (int64)b.size()) : String(p.get(), (int64)b.size(), c); }
         default: { ByteArray a((const uint8*)b.data(), (int64)b.size()); if(b.empty() && way & 2) a = ByteArray((int64)0, (uint8)0); return dflt ? String(a) : String(a, c); }
      }
   }
   void checkText(const std::u16string& got, const Text& t, const std::string& stored, u32 cs)
   {
      size_t same = 0; while(same < stored.size() && same < t.b.size() && stored[same] == t.b[same]) same++;
      size_t whole = 0; while(whole < t.end.size() && t.end[whole] <= same) whole++;
      bool cut = same == stored.size();
      if(got.substr(0, whole) != t.u.substr(0, whole)) fail("text", "%zu of %zu bytes of %s in %s read as %s", same, t.b.size(), show(t.u).c_str(), name[cs], show(got).c_str());
      size_t rest = cut ? same - (whole ? t.end[whole - 1] : 0) : stored.size();
      if(got.size() > whole + rest) fail("text", "%zu bytes of %s in %s read as %zu characters: %s", stored.size(), show(t.u).c_str(), name[cs], got.size(), show(got).c_str());
   }

   // one encode and the ways back
   void there(const Text& t, u32 cs)
   {
      String s = JU(t.u);
      ByteArray b = s.toCString(charset(cs));
      std::string got(b.constData() ? b.constData() : "", (size_t)b.size());
      if(got != t.b) fail("encode", "%s in %s is %s instead of %s", show(t.u).c_str(), name[cs], hex(got.data(), got.size()).c_str(), hex(t.b.data(), t.b.size()).c_str());
      if(b.constData()[b.size()]) fail("encode", "%s in %s has no terminator", show(t.u).c_str(), name[cs]);
      if(cs == UTF8) { ByteArray d = s.toCString(); if(!(d == b)) fail("encode", "%s differs in the default charset", show(t.u).c_str()); }
   }
   void back(const Text& t, const std::string& stored, u32 cs)
   {
      u32 way = W(6);
      std::u16string got;
      bool th = threw([&] { got = U(decode(stored, cs, way)); });
      if(th) { if(stored == t.b) fail("text", "%s in %s cannot be read back", show(t.u).c_str(), name[cs]); if(!mark(stored)) fail("text", "damaged bytes %s in %s are refused", hex(stored.data(), stored.size()).c_str(), name[cs]); probe("mark_refused"); return; }
      if(mark(stored)) { probe("mark"); return; }
      checkText(got, t, stored, cs);
      if(stored == t.b && got != t.u) fail("text", "%s in %s is read back as %s", show(t.u).c_str(), name[cs], show(got).c_str());
   }

   void guess()
   {
      // texts whose charset can be told, now and then only far behind the beginning
      u32 cs; std::string m; std::u16string u; u32 n = 1 + Wlen(W(4) ? 10 : 3000);
      switch(W(6))
      {
         case 0: cs = ASC; break;
         case 1: cs = UTF8; if(W(8) == 7) { u.assign((W(3) ? 4090 : 65530) + W(12), u'x'); probe("guessed_long_text"); } for(u32 i = 0; i < n; i++) u += character(UTF8); break;
         case 2: cs = UTF8; m = "\xEF\xBB\xBF"; for(u32 i = 0; i < n - 1; i++) u += character(UTF8); break;
         case 3: cs = LE; m = "\xFF\xFE"; for(u32 i = 0; i < n - 1; i++) u += character(LE); break;
         case 4: cs = BE; m = "\xFE\xFF"; for(u32 i = 0; i < n - 1; i++) u += character(BE); break;
         default:
            cs = W(2) ? LE : BE; if(W(20) == 19) { u.assign(32760 + W(12), u'x'); probe("guessed_long_text"); } for(u32 i = 0; i < n; i++) u += (char16_t)(1 + W(255));
            if(n >= 100) { static const char16_t v[] = {0x100, 0x2014, 0x20AC, 0x3000, 0x4E00, 0x141}; for(u32 i = 0; i < n / 50; i++) u[W(n)] = v[W(6)]; }
      }
      if(cs == ASC) { n = W(4) ? n : 0; for(u32 i = 0; i < n; i++) u += (char16_t)(1 + W(127)); }
      Text t = encode(u, cs);
      if(mark(t.b)) return;
      std::string b = m + t.b;
      std::unique_ptr<char[]> p(new char[b.size()]); memcpy(p.get(), b.data(), b.size());
      String g = Charset::guess(p.get(), (int64)b.size());
      Charset* c = Charset::forName(g);
      if(!c) fail("guess", "the charset of %s is guessed as %s, which does not exist", hex(b.data(), b.size()).c_str(), show(U(g)).c_str());
      std::u16string got;
      if(threw([&] { got = U(String(p.get(), (int64)b.size(), c)); })) fail("guess", "the text %s in %s, guessed as %s, cannot be read", show(u).c_str(), name[cs], S(g).c_str());
      log("guess %s -> %s", hex(b.data(), b.size()).c_str(), S(g).c_str());
      if(got != u) fail("guess", "the text %s in %s%s, guessed as %s, is read as %s", show(u).c_str(), name[cs], m.empty() ? "" : " with mark", S(g).c_str(), show(got).c_str());
      probe("guessed");
   }

   std::string damage(std::string b)
   {
      if(b.empty()) return b;
      u32 n = 1 + W(3);
      for(u32 i = 0; i < n; i++)
      {
         u32 p = W((u32)b.size());
         switch(W(5))
         {
            case 4: b.insert(p, W(2) ? "\xff\xfe" : "\xff"); break;
            case 0: b[p] = (char)(b[p] ^ 1 << W(8)); break;
            case 1: b[p] = (char)W(256); break;
            case 2: { static const u8 v[] = {0, 0xff, 0xfe, 0xef, 0xf4, 0xe2, 0xc3, 0x80}; b[p] = (char)v[W(8)]; break; }
            default: b.resize(p + 1); b[p] = (char)(0xc0 + W(64)); break;
         }
      }
      return b;
   }

   // a charset of its own with further names, and copies of decoded texts
   void named()
   {
      u32 cs = W(NCS); Text t = text(cs);
      static const char* nm[] = {"latin", "cp1252", "x", "UTF8", "UTF-9"};
      u32 n = W(4);
      CharsetDecoder* d = W(2) ? (CharsetDecoder*)new UTF8Decoder() : new UTF16Decoder(true); bool utf8 = dynamic_cast<UTF8Decoder*>(d) != nullptr;
      Charset* c;
      { std::unique_ptr<String[]> alt(new String[n + 1]); for(u32 i = 0; i < n; i++) alt[i] = J(nm[i]); c = new Charset(J("main"), alt.get(), (uint8)n, d); }
      if(!(c->name() == J("main")) || !c->hasName(J("main"))) fail("charset", "a charset lost its name");
      for(u32 i = 0; i < 5; i++) if(c->hasName(J(nm[i])) != (i < n)) fail("charset", "hasName(%s) of a charset with %u further names is wrong", nm[i], n);
      if(c->hasName(String())) fail("charset", "a charset has an empty name");
      t = encode(t.u, utf8 ? UTF8 : BE);
      if(!mark(t.b))
      {
         std::string z = t.b + std::string(2, '\0');
         std::unique_ptr<char[]> p(new char[z.size()]); memcpy(p.get(), z.data(), z.size());
         CharArray a = c->decode(p.get()), b(a), e; CharArray f(3);
         if(W(2)) e = a; else { e = f; e = b; }
         e = *&e;
         { CharArray x(e); f = x; }
         for(CharArray* q : {&a, &b, &e, &f})
         {
            std::u16string g; for(int64 i = 0; i < q->length; i++) g += (char16_t)q->buffer[i].unicode();
            if(g != t.u) fail("text", "the copy %s of the decoded text %s differs", show(g).c_str(), show(t.u).c_str());
            ByteArray o = c->encode(*q);
            if(std::string(o.constData(), (size_t)o.size()) != t.b) fail("encode", "the copy of %s is encoded differently", show(t.u).c_str());
         }
      }
      c->release();
   }

   void one(u32 cs)
   {
      Text t = text(cs);
      there(t, cs);
      back(t, t.b, cs);
      if(t.b.size()) { std::string s = t.b.substr(0, W((u32)t.b.size())); if(!mark(s)) back(t, s, cs); }
      if(W(2)) { std::string d = damage(t.b); back(t, d, cs); probe("damaged"); }
   }

   // stored by one process and read by another
   void stored()
   {
      u32 cs = W(NCS);
      std::vector<Text> parts; std::u16string u;
      u32 n = 1 + W(4);
      for(u32 i = 0; i < n; i++) { parts.push_back(text(cs)); u += parts.back().u; }
      Text all = encode(u, cs);
      if(mark(all.b)) return;
      std::string path = "/tmp/text";
      fsRemove(path);
      u32 mode = W(4); u32 pm = W(2) ? 60 : 300; int crash = mode == 3 ? (int)W(12) : -1;
      journalClear();
      boot([&]
      {
         initLib();
         File f(J(path));
         if(mode == 1) { faults.mask = FK_SHORT_WRITE; faults.perMille = pm; }
         if(mode == 2) { faults.mask = FK_WRITE_ERR | FK_ENOSPC | FK_CLOSE_ERR | FK_SHORT_WRITE; faults.perMille = pm; }
         if(crash >= 0) faults.crashAt = (int)fsCalls() + crash;
         FsErr e0 = fsErrs();
         bool th = threw([&]
         {
            f.open(FileMode::kWrite);
            for(Text& t : parts)
            {
               ByteArray b = JU(t.u).toCString(charset(cs));
               if(b.size() && f.write((const uint8*)b.constData(), b.size()) != b.size()) break;
            }
            f.close();
         });
         if(th && fsErrs().count == e0.count) fail("store", "a text could not be written although nothing was wrong");
         if(!th && fsErrs().count == e0.count) journal("done");
      });
      faults = FaultCfg();
      bool ok = journalRead().size() == 1;
      std::string b = fsExists(path) ? fsRead(path) : "";
      if(ok && b != all.b) fail("encode", "%s was stored in %s as %s instead of %s", show(u).c_str(), name[cs], hex(b.data(), b.size()).c_str(), hex(all.b.data(), all.b.size()).c_str());
      if(!ok) probe("partly_stored");
      if(!fsExists(path)) return;
      if(W(4) == 0 && !b.empty()) { fsFlip(path, W((u32)b.size() * 8)); b = fsRead(path); probe("damaged"); }
      boot([&]
      {
         initLib();
         File f(J(path));
         ByteArray a(f.size(), 0);
         if(W(3) == 0) { faults.mask = FK_SHORT_READ; faults.perMille = 400; }
         f.open(FileMode::kRead);
         int64 got = f.readFully(a, a.size());
         f.close();
         faults = FaultCfg();
         if(got != (int64)b.size()) fail("read", "%lld of %zu bytes were read", (long long)got, b.size());
         back(all, b, cs);
         probe("read");
      });
   }

   void run()
   {
      setStepCap(40000000);
      fsMkdirs("/tmp");
      if(W(3) == 0) { stored(); if(W(2)) stored(); nontrivial(); return; }
      boot([]
      {
         initLib();
         if(W(3))
         {
            u32 n = 1 + W(8);
            // whatever is created on first use exists now
            threw([] { throw Exception(Tr("warm")); });
            for(u32 i = 0; i < NCS; i++) threw([&] { String x("\xfe\xff\xff\xfe", 4, charset(i)); x.toCString(charset(i)); });
            u64 live0 = liveBlocks(), mark0 = heapMark();
            for(u32 i = 0; i < n; i++) switch(W(8)) { case 0: case 1: guess(); break; case 2: named(); break; default: one(W(NCS)); }
            if(liveBlocks() > live0) fail("leak", "%llu memory blocks are left over: %s", (unsigned long long)(liveBlocks() - live0), describeLive(mark0).c_str());
            if(Charset::forName(J("no such charset"))) fail("charset", "there is a charset nobody knows");
            if(n > 2) nontrivial();
            return;
         }
         // the charset objects are shared by all threads
         u32 nt = 2 + W(2); u32 cs = W(NCS + 1);
         std::vector<std::vector<std::pair<u32, Text>>> work(nt);
         for(auto& w : work) { u32 n = 1 + W(3); for(u32 i = 0; i < n; i++) { u32 c = cs < NCS ? cs : W(NCS); w.push_back({c, text(c)}); } }
         schedConfig(W(2) ? 4 : 20);
         for(u32 t = 0; t < nt; t++)
         {
            char nm[16]; snprintf(nm, sizeof nm, "client%u", t);
            spawn(nm, [&, t]
            {
               for(auto& w : work[t])
               {
                  String s = JU(w.second.u);
                  ByteArray b = s.toCString(charset(w.first));
                  String r = decode(w.second.b, w.first, 0);
                  NoPreempt np;
                  if(std::string(b.constData(), (size_t)b.size()) != w.second.b) fail("encode", "%s in %s was encoded wrong while other threads used charsets", show(w.second.u).c_str(), name[w.first]);
                  if(U(r) != w.second.u) fail("text", "%s in %s was read back as %s while other threads used charsets", show(w.second.u).c_str(), name[w.first], show(U(r)).c_str());
               }
            });
         }
         joinAll();
         nontrivial();
         probe("threads");
      });
   }

   Registrar r24({"C24", run, 40000, 1500000,
      "1-8 texts per run in one of seven character sets (all characters of the small sets, edge and random code points including surrogate pairs for the Unicode forms), encoded, compared with independent tables, decoded from exactly sized buffers in every way the class offers, whole, cut off and damaged; or stored through the file class under write faults, full disks, short transfers, kills and flipped bits and read by another process; or handled by 2-3 threads at once; or presented for guessing. Non-trivial: more than two texts, storage, or threads.",
      "distinct histories (hash over texts, schedule, faults and outcomes)",
      "String, Charset, all decoders, ByteArray, File (instrumented build)",
      "thread scheduler, file system behind stdio, heap, process crash"});
}
