// C19: documents written with XMLWriter are read back by SAXParser, or somebody is told.
#include "common.h"
using namespace jm;

namespace
{
   struct Attr { std::u16string name, value; };
   struct Op { enum K { Start, Attrib, Text, B64, End, In, Out } k; std::u16string a, b; std::string bytes; int how = 0; i64 num = 0; };
   struct Ev { char k; std::u16string name; std::vector<Attr> at; bool cdata = false; };     // 's','e','t'

   const char* cls = "round-trip";

   std::u16string genName()
   {
      static const char16_t* pool[] = {u"a", u"b", u"node", u"ns:item", u"x1", u"\u00e4\u00f6", u"long-name.with_parts", u"p:q:r", u"A", u"\u4e2d\u6587"};
      if(W(3)) return pool[W(10)];
      std::u16string s; u32 n = 1 + W(6);
      for(u32 i = 0; i < n; i++) s += i == 0 ? (char16_t)('a' + W(26)) : u"abcXYZ019-_."[W(12)];
      return s;
   }
   bool longTexts;
   std::u16string genText(bool attr)
   {
      std::u16string s; u32 n = Wlen(attr ? 12 : 30);
      if(!attr && longTexts && W(40) == 39) { s.append(65530 + W(20), u'x'); longTexts = false; probe("long_text"); }
      for(u32 i = 0; i < n; i++)
      {
         switch(W(10))
         {
            case 0: s += u' '; break;
            case 1: s += u"&<>\"'"[W(5)]; break;
            case 2: s += u"&;#=/?!-]["[W(10)]; break;
            case 3: s += u"\n\t\r "[W(4)]; break;
            case 4: s += (char16_t)(0x80 + W(0x780)); break;
            case 5: s += (char16_t)(0x800 + W(0xC000)); break;
            case 6: { static const char16_t* w[] = {u"&lt;", u"&amp;", u"amp;", u"<a>", u"</a>", u"<!--", u"]]>", u"\"", u"&apos;", u"'"}; s += w[W(10)]; break; }
            default: s += (char16_t)('a' + W(26)); break;
         }
      }
      return s;
   }

   // a stream that accepts at most `cap` bytes in total and at most `step` per call
   struct Pipe: public jm::Stream
   {
      std::string data; i64 cap = -1, step = -1; bool opened = false, failOpen = false, failClose = false; bool shorted = false;
      int64 size() const override { return (int64)data.size(); }
      Status open(FileMode) override { if(failOpen) return Status::eError; opened = true; return Status::eOK; }
      bool isOpen() override { return opened; }
      void close() override { opened = false; if(failClose) throw Exception("close failed"); }
      int64 read(uint8*, int64) override { return 0; }
      int64 readFully(ByteArray&, int64) override { return 0; }
      void seek(int64) override {}
      void move(int64) override {}
      int64 position() override { return (int64)data.size(); }
      int64 write(const uint8* b, int64 n) override
      {
         if(!opened) fail("write-to-closed", "XMLWriter writes to a stream that is not open");
         i64 k = n;
         if(step >= 0 && k > step) k = step;
         if(cap >= 0 && (i64)data.size() + k > cap) k = cap - (i64)data.size();
         if(k < n) { shorted = true; sim::fault("pipe_short_write"); }
         data.append((const char*)b, (size_t)k);
         return k;
      }
   };

   struct Reader: public SAXParser
   {
      std::vector<Ev> ev; int starts = 0, ends = 0; std::vector<SAXAttributes*> copies; bool copying = false;
      ~Reader() override { for(auto* c : copies) delete c; }
      void text(const String& s)
      {
         if(starts != 1 || ends) fail("event-order", "characters before startDocument() or after endDocument()");
         if(ev.empty() || ev.back().k != 't') ev.push_back({'t', u"", {}});
         ev.back().name += U(s);
      }
      void characters(const String& s) override { text(s); }
      void ignorableWhiteSpaces(const String& s) override
      {
         for(char16_t c : U(s)) if(!(c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\b' || c == '\f')) fail("event-order", "ignorableWhiteSpaces() got something else than white space");
         text(s);
      }
      void startDocument() override { starts++; }
      void endDocument() override { ends++; }
      void names(const String& l, const String& q)
      {
         if(starts != 1 || ends) fail("event-order", "an element before startDocument() or after endDocument()");
         std::u16string qs = U(q), ls = U(l);
         size_t p = qs.rfind(u':');
         if(ls != (p == std::u16string::npos ? qs : qs.substr(p + 1))) fail(cls, "local name %s for the qualified name %s", show(ls).c_str(), show(qs).c_str());
      }
      void startElement(const String&, const String& l, const String& q, const SAXAttributes& at) override
      {
         names(l, q);
         Ev e{'s', U(q), {}};
         for(uint32 i = 0; i < at.count(); i++)
         {
            e.at.push_back({U(at.qualifiedName(i)), U(at.value(i))});
            if(U(at.localName(i)).empty() != e.at.back().name.empty()) fail(cls, "an attribute has no local name");
         }
         for(auto& a : e.at)
         {
            String n = JU(a.name);
            int32 ix = at.indexOf(n);
            if(!at.hasValue(n) || ix < 0 || e.at[(size_t)ix].name != a.name || U(at.value(n)) != e.at[(size_t)ix].value) fail(cls, "looking up attribute %s does not find it", show(a.name).c_str());
            const Attr& f = e.at[(size_t)ix];
            std::string v; for(auto c : f.value) v += c < 128 ? (char)c : '?';
            if(at.indexOf("", n) != ix || U(at.value("", n)) != f.value || !(at.type((uint32)ix) == String("CDATA")) || !(at.type(n) == String("CDATA")) || !(at.type("", n) == String("CDATA")) || at.uri((uint32)ix).size()) fail(cls, "looking up attribute %s by its local name gives something else", show(a.name).c_str());
            std::string lv; for(char c : v) lv += (char)tolower(c);
            if(at.valueAsBool(n) != (lv == "true" && v.size() == f.value.size())) fail(cls, "the truth value of %s is wrong", show(f.value).c_str());
            size_t dg = v.find_first_not_of("0123456789", v[0] == '-');
            if(dg == std::string::npos && v.size() > (size_t)(v[0] == '-') && (v.size() < 19))
            {
               if(at.valueAsInt(n) != strtoll(v.c_str(), nullptr, 10)) fail(cls, "the number of %s is %lld", v.c_str(), (long long)at.valueAsInt(n));
               probe("attribute_number");
            }
            if(v.find_first_not_of("0123456789.-e+") == std::string::npos && !v.empty())
            {
               char* end = nullptr; double d = strtod(v.c_str(), &end);
               if(end && !*end && (at.valueAsDouble(n) != d || at.valueAsFloat(n) != (float)d)) fail(cls, "the number of %s is %.17g", v.c_str(), at.valueAsDouble(n));
            }
         }
         if(at.hasValue("no such attribute") || at.indexOf("no such attribute") != -1) fail(cls, "an attribute that does not exist was found");
         if(copying) { copies.push_back(new SAXAttributes(at)); if(W(2)) { SAXAttributes other; other.addAttribute("", "z", "z", "z"); other = at; *copies.back() = other; } }
         ev.push_back(e);
      }
      void endElement(const String&, const String& l, const String& q) override { names(l, q); ev.push_back({'e', U(q), {}}); }
   };

   std::string showEv(const Ev& e)
   {
      std::string s = e.k == 's' ? "<" : e.k == 'e' ? "</" : "text ";
      s += show(e.name);
      for(auto& a : e.at) s += " " + show(a.name) + "=" + show(a.value);
      return s;
   }

   std::vector<Op> genDoc(bool indents)
   {
      std::vector<Op> ops; u32 depth = 0, in = 0;
      u32 n = 1 + Wlen(40);
      std::vector<u32> indAt;
      for(u32 i = 0; i < n || depth; i++)
      {
         u32 c = i >= n ? 5 : W(8);
         bool fresh = !ops.empty() && (ops.back().k == Op::Start || ops.back().k == Op::Attrib);
         if(depth == 0) c = 0;
         switch(c)
         {
            case 0: case 1: { Op o{Op::Start, genName(), u"", ""}; ops.push_back(o); depth++; break; }
            case 2: case 3:
            {
               if(!fresh && W(4)) { ops.push_back({Op::Text, genText(false), u"", ""}); break; }
               Op o{Op::Attrib, genName(), genText(true), ""};
               o.how = W(3) ? 0 : 1 + (int)W(6); o.num = (i64)W64(); if(W(2)) o.num = (i64)W(2000) - 1000; if(!o.how && W(4) == 0) o.b = W(3) == 0 ? u"True" : W(2) ? u"false" : u"-12.5";
               // names of attributes are distinct within an element
               if(fresh) for(size_t k = ops.size(); k-- > 0 && ops[k].k != Op::Start; ) while(ops[k].a == o.a) o.a += u"_";
               if(fresh) for(size_t k = ops.size(); k-- > 0 && ops[k].k != Op::Start; ) if(ops[k].a == o.a) { o.a += (char16_t)('0' + (ops.size() - k) % 10); k = ops.size(); }
               ops.push_back(o); break;
            }
            case 4: { Op o{Op::B64, u"", u"", genBytes(Wlen(50), W(5), W(1000))}; if(W(3)) { o.k = Op::Text; o.a = genText(false); } ops.push_back(o); break; }
            case 6: if(indents) { ops.push_back({Op::In, u"", u"", ""}); in++; break; } [[fallthrough]];
            case 7: if(indents && in) { ops.push_back({Op::Out, u"", u"", ""}); in--; break; } [[fallthrough]];
            default: ops.push_back({Op::End, u"", u"", ""}); depth--; break;
         }
         if(i >= n && depth == 0) break;
         if(i + 1 >= n && depth == 0) break;
      }
      return ops;
   }

   std::string b64(const std::string& d)
   {
      static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
      std::string o;
      for(size_t i = 0; i < d.size(); i += 3)
      {
         u32 v = (u32)(u8)d[i] << 16 | (i + 1 < d.size() ? (u32)(u8)d[i + 1] << 8 : 0) | (i + 2 < d.size() ? (u8)d[i + 2] : 0);
         o += t[v >> 18]; o += t[v >> 12 & 63]; o += i + 1 < d.size() ? t[v >> 6 & 63] : '='; o += i + 2 < d.size() ? t[v & 63] : '=';
      }
      return o;
   }

   std::u16string numText(const Op& o)
   {
      std::string s;
      switch(o.how) { case 1: s = std::to_string((int32_t)o.num); break; case 2: s = std::to_string((uint32_t)o.num); break; case 3: s = std::to_string((int64_t)o.num); break; case 5: case 6: { char b[40]; snprintf(b, sizeof b, "%.10g", (double)(o.num % 65536) / 8); s = b; break; } default: s = std::to_string((uint64_t)o.num); }
      return std::u16string(s.begin(), s.end());
   }

   // what the reader has to see
   std::vector<Ev> expected(const std::vector<Op>& ops)
   {
      std::vector<Ev> ev; std::vector<std::u16string> open; bool fresh = false;
      auto text = [&](const std::u16string& t) { fresh = false; if(t.empty()) return; if(ev.empty() || ev.back().k != 't') ev.push_back({'t', u"", {}}); ev.back().name += t; ev.back().cdata = false; };
      for(auto& o : ops) switch(o.k)
      {
         case Op::Start: ev.push_back({'s', o.a, {}}); open.push_back(o.a); fresh = true; break;
         case Op::Attrib: if(fresh) ev.back().at.push_back({o.a, o.how ? numText(o) : o.b}); break;
         case Op::Text: text(o.a); if(!o.a.empty()) ev.back().cdata = true; break;
         case Op::B64: { std::string s = b64(o.bytes); text(std::u16string(s.begin(), s.end())); break; }
         case Op::End: ev.push_back({'e', open.back(), {}}); open.pop_back(); fresh = false; break;
         case Op::In: case Op::Out: fresh = false; break;
      }
      return ev;
   }

   void emit(XMLWriter& w, const Op& o)
   {
      switch(o.k)
      {
         case Op::Start: w.startElement(JU(o.a)); break;
         case Op::Attrib:
            switch(o.how)
            {
               case 1: w.writeAttribute(JU(o.a), (int32)o.num); break;
               case 2: w.writeAttribute(JU(o.a), (uint32)o.num); break;
               case 3: w.writeAttribute(JU(o.a), (int64)o.num); break;
               case 4: w.writeAttribute(JU(o.a), (uint64)o.num); break;
            case 5: w.writeAttribute(JU(o.a), (float)(o.num % 65536) / 8); break;
            case 6: w.writeAttribute(JU(o.a), (double)(o.num % 65536) / 8); break;
               default: w.writeAttribute(JU(o.a), JU(o.b));
            }
            break;
         case Op::Text: w.writeCData(JU(o.a)); break;
         case Op::B64: { u8* p = new u8[o.bytes.size()]; memcpy(p, o.bytes.data(), o.bytes.size()); w.WriteBase64(p, (int64)o.bytes.size()); delete[] p; break; }
         case Op::End: w.endElement(); break;
         case Op::In: w.startIndent(); break;
         case Op::Out: w.endIndent(); break;
      }
   }

   // writes the document; true if nothing was reported
   bool writeDoc(jm::Stream* out, const std::vector<Op>& ops, const std::function<void()>& again = nullptr)
   {
      XMLWriter w(out);
      bool ok = true;
      std::string msg;
      if(again)
      {
         // the writer was used for another document before, which may have been lost
         threw([&] { w.startDocument(); for(auto& o : ops) emit(w, o); w.endDocument(); });
         again(); probe("writer_used_again");
      }
      if(threw([&]
      {
         if(!w.startDocument()) { ok = false; if(W(2)) return; }
         for(auto& o : ops) emit(w, o);
         if(!w.endDocument()) ok = false;
         if(!dynamic_cast<MemoryStream*>(out) && out->isOpen()) fail("left-open", "endDocument() returned and the stream is still open");
      }, &msg)) ok = false;
      return ok;
   }

   bool isIndent(const std::u16string& s) { if(s.empty()) return true; if(s[0] != '\n') return false; for(char16_t c : s) if(c != ' ' && c != '\n') return false; return true; }

   // the declaration is delivered as an element without an end
   void dropDeclaration(std::vector<Ev>& ev)
   {
      if(!ev.empty() && ev[0].k == 's' && !ev[0].name.empty() && ev[0].name[0] == '?') ev.erase(ev.begin());
      if(!ev.empty() && ev[0].k == 't' && ev[0].name == u"\n") ev.erase(ev.begin());
   }

   void compare(std::vector<Ev> got, const std::vector<Ev>& want, bool indents, bool prefix)
   {
      dropDeclaration(got);
      size_t i = 0, j = 0;
      std::vector<bool> chars;      // of the open elements: text was written into it
      while(true)
      {
         if(prefix && i >= got.size()) return;
         if(i >= got.size() && j >= want.size()) return;
         bool gt = i < got.size() && got[i].k == 't', wt = j < want.size() && want[j].k == 't';
         if(gt || wt)
         {
            std::u16string g = gt ? got[i].name : u"", t = wt ? want[j].name : u"";
            bool same = g == t;
            if(wt && want[j].cdata && !chars.empty()) chars.back() = true;
            // a line break and spaces may stand in front of a tag where the writer was told to indent, but not
            // at the end of an element that contains text
            bool end = j + wt < want.size() && want[j + wt].k == 'e' && !chars.empty() && chars.back();
            if(!same && indents && !end && g.size() > t.size() && g.compare(0, t.size(), t) == 0 && isIndent(g.substr(t.size()))) same = true;
            if(!same) fail(cls, "text %s was read as %s", show(t).c_str(), show(g).c_str());
            i += gt; j += wt;
            continue;
         }
         if(j >= want.size()) fail(cls, "%s was read behind the end of the document", showEv(got[i]).c_str());
         if(i >= got.size()) fail(cls, "%s was lost", showEv(want[j]).c_str());
         const Ev& g = got[i], &t = want[j];
         if(g.k != t.k || g.name != t.name) fail(cls, "%s was read as %s", showEv(t).c_str(), showEv(g).c_str());
         if(g.at.size() != t.at.size()) fail(cls, "%s was read as %s", showEv(t).c_str(), showEv(g).c_str());
         for(size_t k = 0; k < g.at.size(); k++) if(g.at[k].name != t.at[k].name || g.at[k].value != t.at[k].value) fail(cls, "attribute %s of %s was read as %s", show(t.at[k].value).c_str(), showEv(t).c_str(), showEv(g).c_str());
         if(t.k == 's') chars.push_back(false); else if(!chars.empty()) chars.pop_back();
         i++; j++;
      }
   }

   void memory()
   {
      std::vector<Op> ops = genDoc(W(3) == 0);
      bool indents = false; for(auto& o : ops) if(o.k == Op::In || o.k == Op::Out) indents = true;
      std::vector<Ev> want = expected(ops);
      std::string xml; bool ok;
      if(W(3))
      {
         Pipe p; p.opened = W(2);
         u32 f = W(4);
         if(f == 1) p.cap = Wlen(3000); else if(f == 2) p.step = 1 + Wlen(200); else if(f == 3) { p.failClose = W(2); p.failOpen = !p.failClose; if(p.failOpen) sim::fault("pipe_open_error"); else sim::fault("pipe_close_error"); }
         bool bad0 = p.failOpen && !p.opened;
         i64 cap = p.cap;
         if(f < 3 && W(3) == 0)
         {
            bool o0 = p.opened; p.cap = W(2) ? (i64)W(200) : -1;
            ok = writeDoc(&p, ops, [&] { p.data.clear(); p.cap = cap; p.shorted = false; p.opened = o0; });
         }
         else ok = writeDoc(&p, ops);
         bool bad = bad0 || p.failClose || p.shorted;
         log("pipe: %zu bytes, ok %d bad %d", p.data.size(), ok, bad);
         if(ok && bad) fail("silent-loss", "endDocument() reports success although the stream %s", bad0 ? "could not be opened" : p.failClose ? "could not be closed" : "did not take everything");
         if(!ok && !bad) fail("false-failure", "XMLWriter reports a failure although the stream took everything");
         xml = p.data;
         if(ok) probe("pipe_complete"); else probe("pipe_reported");
      }
      else
      {
         size_t len = Wlen(6000); u8* b = new u8[len];
         MemoryStream m(b, (int64)len, true);
         ok = writeDoc(&m, ops);
         // a memory stream has a fixed length: how much of it was used is told by the text
         xml.assign((const char*)b, len);
         Pipe p; p.opened = true; bool pok = writeDoc(&p, ops);
         if(!pok) fail("false-failure", "XMLWriter reports a failure although the stream took everything");
         bool fits = p.data.size() <= len;
         log("memory: %zu of %zu", p.data.size(), len);
         if(ok && !fits) fail("silent-loss", "endDocument() reports success although %zu bytes do not fit into %zu", p.data.size(), len);
         if(!ok && fits) fail("false-failure", "XMLWriter reports a failure although the stream took everything");
         xml.resize(std::min(xml.size(), p.data.size()));
         if(xml != p.data.substr(0, xml.size())) fail(cls, "the same document was written differently to another stream");
         probe(ok ? "memory_complete" : "memory_reported");
      }
      nontrivial();
      Reader r; r.copying = true;
      ByteArray ba((int64)xml.size(), 0); if(!xml.empty()) memcpy(ba.data(), xml.data(), xml.size());
      String text(ba);
      bool t = threw([&] { r.parse(text); });
      if(ok)
      {
         if(t || r.starts != 1 || r.ends != 1) fail(cls, "a complete document was not read to its end");
         compare(r.ev, want, indents, false);
         for(size_t i = 0, k = 0; i < r.ev.size(); i++) if(r.ev[i].k == 's')
         {
            SAXAttributes* c = r.copies[k++];
            if(c->count() != r.ev[i].at.size()) fail("copy", "a copy of the attributes has %u instead of %zu", c->count(), r.ev[i].at.size());
            for(size_t a = 0; a < r.ev[i].at.size(); a++) if(U(c->value((uint32)a)) != r.ev[i].at[a].value || U(c->qualifiedName((uint32)a)) != r.ev[i].at[a].name) fail("copy", "a copy of the attributes differs");
         }
      }
   }

   // the writer is a process of its own and may be killed; what is on disk is a prefix of the document
   void file()
   {
      std::vector<Op> ops = genDoc(W(3) == 0);
      // now and then a document of many blocks
      if(W(4) == 0) { u32 rep = 1 + W(60); std::vector<Op> body = ops; ops.insert(ops.begin(), Op{Op::Start, u"root", u"", ""}); for(u32 i = 0; i < rep; i++) ops.insert(ops.end(), body.begin(), body.end()); ops.push_back({Op::End, u"", u"", ""}); }
      bool indents = false; for(auto& o : ops) if(o.k == Op::In || o.k == Op::Out) indents = true;
      std::vector<Ev> want = expected(ops);
      fsMkdirs("/data");
      bool old = W(2);
      if(old) fsWrite("/data/doc.xml", "<old><x y=\"z\"/></old>");
      u32 mode = W(4);
      if(mode == 1) { faults.mask = FK_OPEN_ERR | FK_WRITE_ERR | FK_SHORT_WRITE | FK_CLOSE_ERR | FK_ENOSPC | FK_STALL; faults.perMille = 50 + W(400); }
      if(mode == 2) fsSetCapacity((i64)Wlen(9000));
      if(mode == 3) faults.crashAt = (int)fsCalls() + (int)W(12);
      journalClear();
      bool done = boot([&]
      {
         initLib();
         FsErr e0 = fsErrs();
         File f("/data/doc.xml");
         bool ok = writeDoc(&f, ops);
         bool failed = fsErrs().count != e0.count;
         if(f.isOpen()) threw([&] { f.close(); });
         log("written: ok %d failed calls %d", ok, failed);
         if(!ok && !failed) fail("false-failure", "XMLWriter reports a failure although no call failed");
         journal(ok ? "ok" : "reported");
      });
      faults = FaultCfg(); fsSetCapacity(-1);
      std::vector<std::string> j = journalRead();
      bool ok = done && !j.empty() && j.back() == "ok";
      log("written: done %d ok %d, %zu bytes", done, ok, fsIsFile("/data/doc.xml") ? fsRead("/data/doc.xml").size() : 0);
      nontrivial();
      if(!done) probe("crashed_writer"); else probe(ok ? "file_complete" : "file_reported");

      u32 rounds = 1 + W(2);
      for(u32 round = 0; round < rounds; round++) boot([&]
      {
         initLib();
         bool damage = round == 1 && fsIsFile("/data/doc.xml");
         if(damage)
         {
            std::string d = fsRead("/data/doc.xml");
            u32 n = 1 + W(5);
            for(u32 i = 0; i < n && !d.empty(); i++) switch(W(4))
            {
               case 0: d.resize(W((u32)d.size())); break;
               case 1: d[W((u32)d.size())] = "<>&;\"'/= \0\xff\xc3"[W(12)]; break;
               case 2: d.insert(W((u32)d.size()), 1 + W(3), "<>&;\"'/= \0\xff\xc3"[W(12)]); break;
               default: d.erase(W((u32)d.size()), 1 + W(4)); break;
            }
            fsWrite("/data/doc.xml", d);
            probe("damaged_document");
         }
         bool rf = W(2);
         if(rf) { faults.mask = FK_OPEN_ERR | FK_READ_ERR | FK_SHORT_READ | FK_STAT_ERR | FK_STALL; faults.perMille = 20 + W(300); faults.maxFaults = W(4) == 3 ? -1 : 1 + (int)W(2); }
         FsErr r0 = fsErrs();
         File f("/data/doc.xml");
         Reader r; std::string msg;
         bool t = threw([&] { r.parse(f); }, &msg);
         FsErr r1 = fsErrs();
         faults = FaultCfg();
         log("read: threw %d starts %d ends %d events %zu", t, r.starts, r.ends, r.ev.size());
         if(fsOpenFds()) fail("handle-leak", "parse() left the file open");
         if(damage) return;
         bool noErr = r1.count == r0.count;
         if(r1.statErr != r0.statErr && r1.readErr != r0.readErr) probe("unknown_size");
         if(ok && noErr && (t || r.starts != 1 || r.ends != 1)) fail(cls, "a complete document was not read to its end");
         if(ok && r.ends) compare(r.ev, want, indents, false);
         else if(!ok && !done && r.starts && fsRead("/data/doc.xml").substr(0, 5) != "<old>") { compare(r.ev, want, indents, true); if(r.ev.size() > 3) probe("prefix_read"); }
         if(t && !r.starts) probe("read_error_reported");
      });
   }

   // the parser comes to an end for any text, and delivers events in a sensible order
   void anyText()
   {
      std::u16string s; u32 n = Wlen(120);
      for(u32 i = 0; i < n; i++) switch(W(5))
      {
         case 0: s += u"<>&;\"'/= \n!?-[]"[W(15)]; break;
         case 1: { static const char16_t* w[] = {u"<a>", u"</a>", u"<a b=\"c\"/>", u"&lt;", u"<!-- ", u" -->", u"< >", u"<>", u"</>", u"<a b=", u"&"}; s += w[W(11)]; break; }
         case 2: s += (char16_t)W(0x10000); break;
         default: s += (char16_t)('a' + W(26)); break;
      }
      Reader r; r.copying = true;
      nontrivial();
      bool t = threw([&] { r.parse(JU(s)); });
      log("any text %s: threw %d, %zu events", show(s).c_str(), t, r.ev.size());
      if(!t && (r.starts != 1 || r.ends != 1)) fail("event-order", "parse() returned after %d startDocument() and %d endDocument()", r.starts, r.ends);
      probe(t ? "text_rejected" : "text_accepted");
   }

   // a document that XMLWriter did not write: both kinds of quotes, raw markup where it is allowed, free white space inside of tags
   void foreign()
   {
      std::u16string x; std::vector<Ev> want; std::vector<std::u16string> open;
      auto ws = [&](u32 least) { std::u16string s; u32 n = least + W(3); for(u32 i = 0; i < n; i++) s += W(3) ? u' ' : u"\n\t\r"[W(3)]; return s; };
      auto entity = [&](char16_t c) { return std::u16string(c == '<' ? u"&lt;" : c == '>' ? u"&gt;" : c == '&' ? u"&amp;" : c == '"' ? u"&quot;" : u"&apos;"); };
      if(W(2)) x += W(2) ? u"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : u"<?xml version='1.0'?>\n";
      u32 n = 1 + Wlen(30);
      for(u32 i = 0; i < n || !open.empty(); i++)
      {
         u32 c = i >= n ? 4 : open.empty() ? 0 : W(6);
         if(c <= 1)
         {
            Ev e{'s', genName(), {}};
            x += u"<" + e.name;
            for(u32 k = Wlen(5); k > 0; k--)
            {
               Attr a{genName(), u""};
               bool dup = false; for(auto& o : e.at) if(o.name == a.name) dup = true;
               if(dup) continue;
               char16_t q = W(2) ? '"' : '\'';
               x += ws(1) + a.name + (W(4) ? u"" : ws(0)) + u"=" + (W(4) ? u"" : ws(0)) + q;
               for(char16_t v : genText(true))
               {
                  if(v == '\n' || v == '\t' || v == '\r') v = ' ';
                  a.value += v;
                  if(v == '<' || v == '&' || v == q) x += entity(v);
                  else if(v == '>' || v == '"' || v == '\'') { if(W(2)) x += entity(v); else { x += v; probe("raw_in_value"); } }
                  else x += v;
               }
               x += q;
               e.at.push_back(a);
            }
            x += W(4) ? u"" : ws(0);
            want.push_back(e);
            if(W(4) == 0) { x += u"/>"; want.push_back({'e', e.name, {}}); probe("empty_element"); }
            else { x += u">"; open.push_back(e.name); }
         }
         else if(c <= 3)
         {
            std::u16string t = genText(false);
            u32 special = W(6) == 5 ? 1 + W(4) : 0;      // names of two characters XML itself does not know
            if(special)
            {
               static const char16_t* e[] = {u"&le;", u"&ge;", u"&leq;", u"&geq;"};
               x += e[special - 1];
               if(want.back().k != 't') want.push_back({'t', u"", {}});
               want.back().name += special % 2 ? u'\x2264' : u'\x2265';
               probe("less_or_equal");
            }
            for(char16_t v : t)
            {
               // "]]>" must not be written in text
               bool raw = v == '"' || v == '\'' || (v == '>' && (x.empty() || x.back() != ']'));
               if(v == '<' || v == '&' || (v == '>' && !raw)) x += entity(v);
               else if(raw) { if(W(2)) x += entity(v); else x += v; }
               else x += v;
            }
            if(!t.empty()) { if(want.back().k != 't') want.push_back({'t', u"", {}}); want.back().name += t; }
         }
         else if(!open.empty())
         {
            x += u"</" + open.back() + (W(4) ? u"" : ws(0)) + u">";
            want.push_back({'e', open.back(), {}}); open.pop_back();
         }
      }
      nontrivial();
      probe("foreign_document");
      bool disk = W(3) == 0;
      log("foreign document of %zu characters, %zu events", x.size(), want.size());
      if(getenv("SIM_SHOW")) log("%s", show(x).c_str());
      Reader r; bool t;
      if(disk) { fsMkdirs("/data"); String j = JU(x); fsWrite("/data/doc.xml", j.toCString().constData()); File f("/data/doc.xml"); t = threw([&] { r.parse(f); }); }
      else t = threw([&] { r.parse(JU(x)); });
      if(t || r.starts != 1 || r.ends != 1) fail(cls, "a complete document was not read to its end");
      compare(r.ev, want, false, false);
   }

   void run()
   {
      setStepCap(300000000);
      // nothing may be left over (the first run sets up what the library keeps)
      auto kept = [](void (*f)())
      {
         initLib();
         threw([] { throw Exception(String("warm up")); });
         { XMLWriter w(nullptr); SAXAttributes a; a.addAttribute("", "z", "z", "1"); a.valueAsBool("z"); a.valueAsInt("z"); a.valueAsDouble("z"); }
         u64 mark = heapMark(), live = liveBlocks();
         f();
         if(liveBlocks() > live) fail("leak", "%llu memory blocks were lost: %s", (unsigned long long)(liveBlocks() - live), describeLive(mark).c_str());
      };
      u32 what = W(6);
      longTexts = (what == 1 || what == 5) && W(6) == 5;
      switch(what)
      {
         case 0: kept(anyText); break;
         case 5: kept(foreign); break;
         case 1: case 2: kept(memory); break;
         default: file(); break;
      }
   }

   Registrar r19({"C19", run, 20000, 800000,
      "documents of 1 to 40 operations (60 copies of that in a quarter of the file runs): nested elements, attributes of every type, text with markup, white space and non-ASCII characters, base64, indentation. Written to a stream that takes too little, to a memory stream, or to a file by a process that meets open, write, close and disk-full errors or is killed; read back by another process with read, open and stat errors, undamaged or damaged at 1 to 5 places.",
      "distinct executions (hash over workload, injected faults, file system calls and outcomes)",
      "XMLWriter, SAXParser, SAXAttributes, StringTokenizer, Base64, String, UTF8Decoder, File, MemoryStream (instrumented build)",
      "file system behind fopen/fwrite/.../stat, processes, clock, heap; a stream with limited room"});
}
