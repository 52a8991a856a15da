// C20: translation catalogues.
#include <memory>
#include "common.h"
#include <algorithm>
using namespace jm;

namespace
{
   typedef std::vector<std::pair<std::string, std::string>> Cat;

   void utf8(std::string& o, u32 c)
   {
      if(c < 0x80) o += (char)c;
      else if(c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
      else { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
   }
   std::string genText(u32 max)
   {
      std::string s; u32 n = Wlen(max);
      for(u32 i = 0; i < n; i++) switch(W(8))
      {
         case 0: utf8(s, 0x80 + W(0x780)); break;
         case 1: utf8(s, 0x800 + W(0xC000)); break;
         case 2: s += "\n\t %1\\="[W(7)]; break;
         default: s += (char)('a' + W(26)); break;
      }
      return s;
   }
   String L(const std::string& s) { std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(), s.data(), s.size()); return String(p.get(), (int64)s.size()); }
   void put32(std::string& s, size_t at, u32 v) { if(s.size() < at + 4) s.resize(at + 4); for(int i = 0; i < 4; i++) s[at + (size_t)i] = (char)(v >> 8 * i); }
   u32 get32(const std::string& s, size_t at) { return (u32)(u8)s[at] | (u32)(u8)s[at + 1] << 8 | (u32)(u8)s[at + 2] << 16 | (u32)(u8)s[at + 3] << 24; }

   Cat genCat(const std::vector<std::string>& keys)
   {
      Cat c; std::set<std::string> seen;
      u32 n = Wlen(12);
      if(W(2)) { c.push_back({"", "Content-Type: text/plain; charset=UTF-8\nLanguage: de\n"}); seen.insert(""); }
      for(u32 i = 0; i < n; i++)
      {
         std::string k = W(2) ? keys[W((u32)keys.size())] : genText(14);
         if(k.empty() || !seen.insert(k).second) continue;
         c.push_back({k, W(8) ? genText(W(6) ? 20 : 400) : ""});
      }
      return c;
   }

   // tables and strings may lie anywhere behind the header, in any order, with gaps
   std::string makeMo(const Cat& c)
   {
      std::string s(28, '\0');
      put32(s, 0, 0x950412de); put32(s, 4, 0); put32(s, 8, (u32)c.size());
      u32 layout = W(3);
      auto gap = [&] { if(layout) s += genBytes(W(9), W(5), W(1000)); };
      size_t to = 0, tt = 0, n = c.size();
      auto tables = [&]
      {
         gap();
         if(layout == 2) { tt = s.size(); s.resize(s.size() + 8 * n); gap(); to = s.size(); s.resize(s.size() + 8 * n); }
         else { to = s.size(); s.resize(s.size() + 8 * n); gap(); tt = s.size(); s.resize(s.size() + 8 * n); }
      };
      if(layout != 2) tables();
      std::vector<std::pair<u32, u32>> o, t;
      auto str = [&](const std::string& x) { gap(); std::pair<u32, u32> r((u32)x.size(), (u32)s.size()); s += x; s += '\0'; return r; };
      for(auto& e : c) o.push_back(str(e.first));
      for(auto& e : c) t.push_back(str(e.second));
      if(layout == 2) tables();
      put32(s, 12, (u32)to); put32(s, 16, (u32)tt);
      for(size_t i = 0; i < n; i++) { put32(s, to + 8 * i, o[i].first); put32(s, to + 8 * i + 4, o[i].second); put32(s, tt + 8 * i, t[i].first); put32(s, tt + 8 * i + 4, t[i].second); }
      if(W(4) == 0 && s.size() && s.back() == '\0' && layout != 2) s.pop_back();        // the last NUL is not needed
      return s;
   }

   // what a stored catalogue contains; false if not all of it lies inside of the bytes
   bool readMo(const std::string& s, Cat& c)
   {
      if(s.size() < 20 || get32(s, 0) != 0x950412de || get32(s, 4) != 0) return false;
      u64 n = get32(s, 8), to = get32(s, 12), tt = get32(s, 16);
      bool all = true;
      for(u64 i = 0; i < n; i++)
      {
         u64 a = to + 8 * i, b = tt + 8 * i;
         if(a + 8 > s.size() || b + 8 > s.size()) { all = false; if(to + 8 * i > s.size() || tt + 8 * i > s.size()) break; continue; }
         u64 ol = get32(s, a), oo = get32(s, a + 4), tl = get32(s, b), tO = get32(s, b + 4);
         if(oo + ol > s.size() || tO + tl > s.size()) { all = false; continue; }
         c.push_back({s.substr(oo, ol), s.substr(tO, tl)});
      }
      return all;
   }

   typedef std::map<std::u16string, std::u16string> Map;

   std::u16string tr(const I18nBundle* b, const std::u16string& k) { return U(b->translate(JU(k))); }
   std::u16string want(const Map& m, const std::u16string& k) { auto i = m.find(k); return i == m.end() || i->second.empty() ? k : i->second; }
   void checkAll(const I18nBundle* b, const Map& m, const std::set<std::u16string>& universe, const char* cls, const char* what)
   {
      for(auto& k : universe) if(tr(b, k) != want(m, k)) fail(cls, "%s: %s is translated as %s instead of %s", what, show(k).c_str(), show(tr(b, k)).c_str(), show(want(m, k)).c_str());
   }
   bool decodable(const std::string& s) { bool ok = true; if(threw([&] { L(s); })) ok = false; return ok; }

   void catalogues(bool viaFile)
   {
      I18nBundle* b = new I18nBundle(String("de-DE"));
      Map model; std::set<std::u16string> universe = {u"", u"not in any catalogue"};
      std::vector<std::string> keys = {"Hello", "World", "File %1 not found", "\xc3\xa4", "x", "a longer text that is translated"};
      for(auto& k : keys) universe.insert(U(L(k)));
      fsMkdirs("/data");
      u32 n = 1 + W(4);
      for(u32 i = 0; i < n; i++)
      {
         Cat c = genCat(keys);
         // as large as those of big applications
         bool large = W(800) == 799;
         if(large) { u32 m = 5000 + W(8000); std::set<std::string> seen; for(auto& e : c) seen.insert(e.first); for(u32 k = 0; k < m; k++) { std::string key = "text " + std::to_string(k); if(!seen.count(key)) c.push_back({key, k == m / 2 ? std::string(70000, 'v') : "t" + std::to_string(k)}); } probe("large_catalogue"); }
         std::string mo = makeMo(c), orig = mo;
         u32 damage = W(2) && !large ? 1 + W(4) : 0;
         for(u32 d = 0; d < damage; d++) switch(W(5))
         {
            case 0: mo.resize(mo.empty() ? 0 : W((u32)mo.size())); break;
            case 1: if(!mo.empty()) { u32 at = W(8 * (u32)mo.size()); mo[at / 8] = (char)(mo[at / 8] ^ 1 << at % 8); } break;
            case 2: if(mo.size() >= 28) put32(mo, 8 + 4 * W(3), W(2) ? (u32)W64() : get32(mo, 8 + 4 * W(3)) + W(200)); break;
            case 3: { u64 to = mo.size() >= 28 ? get32(mo, W(2) ? 12 : 16) : 0; u64 at = to + 4 * W(2 * (u32)c.size() + 1); if(mo.size() >= 28 && at + 4 <= mo.size()) put32(mo, at, W(2) ? (u32)W64() : (u32)mo.size() - 4 + W(8)); break; }
            default: if(!mo.empty()) { size_t at = W((u32)mo.size()); for(size_t k = at; k < at + 16 && k < mo.size(); k++) mo[k] = 0; } break;
         }
         if(mo != orig) probe("damaged_catalogue");
         Cat eff; bool valid = readMo(mo, eff);
         // without memory for it a catalogue of 4 billion entries cannot be tried
         std::vector<std::pair<std::u16string, std::u16string>> cand; bool text = true;
         for(auto& e : eff)
         {
            if(!decodable(e.first) || !decodable(e.second)) { text = false; continue; }
            cand.push_back({U(L(e.first)), U(L(e.second))}); universe.insert(cand.back().first);
         }
         for(auto& e : c) universe.insert(U(L(e.first)));
         bool ioErr = false, t;
         if(viaFile)
         {
            fsWrite("/data/cat.mo", mo);
            if(W(2)) { faults.mask = FK_OPEN_ERR | FK_READ_ERR | FK_SHORT_READ | FK_STAT_ERR | FK_STALL; faults.perMille = 30 + W(300); }
            FsErr e0 = fsErrs();
            File f("/data/cat.mo");
            t = threw([&] { b->appendMo(&f); });
            ioErr = fsErrs().count != e0.count;
            faults = FaultCfg();
            if(fsOpenFds()) { fail("handle-leak", "appendMo() left the file open"); }
         }
         else
         {
            u8* raw = new u8[mo.size()]; memcpy(raw, mo.data(), mo.size());
            MemoryStream ms(raw, (int64)mo.size(), true);
            t = threw([&] { b->appendMo(&ms); });
         }
         log("catalogue %u: %zu bytes, %zu entries, valid %d, io error %d, threw %d", i, mo.size(), c.size(), valid, ioErr, t);
         if(t && valid && text && !ioErr) fail("refused", "a valid catalogue was refused");
         Map before = model;
         if(valid && text && !ioErr && !mo.empty())
         {
            for(auto& e : cand) model[e.first] = e.second;
            std::set<std::u16string> dup; bool twice = false; for(auto& e : cand) if(!dup.insert(e.first).second) twice = true;
            if(!twice) { checkAll(b, model, universe, "translation", "after a catalogue was added"); if(mo == orig && c.size() > 2) probe("catalogue_used"); }
            else for(auto& k : universe) { std::u16string g = tr(b, k); bool ok = g == want(before, k) && !dup.count(k); for(auto& e : cand) if(e.first == k && (g == e.second || (e.second.empty() && g == k))) ok = true; if(!ok) fail("translation", "%s is translated as %s", show(k).c_str(), show(g).c_str()); model[k] = g; }
         }
         else
         {
            // refused as a whole, or only what is really stored
            for(auto& k : universe)
            {
               std::u16string g = tr(b, k);
               bool ok = g == want(before, k);
               for(auto& e : cand) if(e.first == k && (g == e.second || (e.second.empty() && g == k))) ok = true;
               if(!ok) fail("invented", "after a damaged catalogue %s is translated as %s", show(k).c_str(), show(g).c_str());
               if(g == k) model.erase(k); else model[k] = g;
            }
            if(ioErr) probe("unreadable_catalogue"); else probe("refused_catalogue");
         }
      }
      nontrivial();
      delete b;
   }

   // the most specific catalogue is used, also for the messages of the library itself
   void selection()
   {
      std::string dir;
      boot([&] { initLib(); journal(S(ResourceDir(System::bundleId()).absolutePath())); journal(S(System::language())); });
      std::vector<std::string> j = journalRead();
      dir = j[0] + "/translations/";
      std::string sys = j[1];
      fsMkdirs(dir);
      std::replace(sys.begin(), sys.end(), '-', '_');
      static const char* langs[] = {"de-DE", "de_DE", "en", "pt-BR", "", "fr_CA", "de", "gsw_CH", "zh_Hant-TW"};
      static const char* apps[] = {"", "org.example.app", "app"};
      u32 n = 1 + W(3);
      std::vector<std::pair<std::string, std::string>> q;
      for(u32 i = 0; i < n; i++) q.push_back({apps[W(3)], langs[W(9)]});
      auto cands = [&](const std::string& app, std::string lang)
      {
         if(lang.empty()) lang = sys;
         std::replace(lang.begin(), lang.end(), '-', '_');
         std::vector<std::string> v = {app + "." + lang + ".mo", lang + ".mo"};
         size_t p = lang.find('_');
         if(p != std::string::npos && p > 0) lang = lang.substr(0, p);
         v.push_back(app + "." + lang + ".mo"); v.push_back(lang + ".mo");
         return v;
      };
      q.push_back({"", ""});      // the one of the library
      for(auto& x : q) for(auto& c : cands(x.first, x.second)) if(W(3) == 0) fsWrite(dir + c, makeMo({{"which", c}, {"Hello", "H " + c}}));
      bool flt = W(3) == 0; u32 pm = 30 + W(300);
      boot([&]
      {
         if(flt) { faults.mask = FK_OPEN_ERR | FK_READ_ERR | FK_STAT_ERR | FK_SHORT_READ | FK_STALL; faults.perMille = pm; faults.maxFaults = W(4) == 3 ? -1 : 3; }
         FsErr e0 = fsErrs();
         bool bundle = W(2);
         initLib(bundle ? "org.example.app" : "");
         nontrivial();
         bool err = fsErrs().count != e0.count;
         // what the library itself uses
         std::string exp = "which", got = S(I18nBundle::getDefault()->translate("which"));
         std::vector<std::string> cs = cands("", "");
         if(bundle) for(auto& c : cs) if(fsIsFile(dir + c)) { exp = c; break; }
         if(!err && got != exp) fail("selection", "the library uses catalogue %s instead of %s", got.c_str(), exp.c_str());
         if(err && got != "which" && std::find(cs.begin(), cs.end(), got) == cs.end()) fail("selection", "the library uses catalogue %s", got.c_str());
         if(exp != "which" && !err) probe("default_catalogue");
         for(u32 i = 0; i < n; i++)
         {
            FsErr e1 = fsErrs();
            auto v = cands(q[i].first, q[i].second);
            std::string best; for(auto& c : v) if(fsIsFile(dir + c)) { best = c; break; }
            Resource r = I18nBundle::transFileByBundleId(J(q[i].first), J(q[i].second));
            I18nBundle b(J(q[i].second));
            bool t = threw([&] { b.appendMo(&r); });
            std::string w = S(b.translate("which"));
            bool er = fsErrs().count != e1.count;
            if(t && !er) fail("refused", "a valid catalogue was refused with an exception");
            log("%s %s -> %s (errors %d)", q[i].first.c_str(), q[i].second.c_str(), w.c_str(), er);
            if(!er && w != (best.empty() ? "which" : best)) fail("selection", "language \"%s\" of \"%s\" uses catalogue %s instead of %s", q[i].second.c_str(), q[i].first.c_str(), w.c_str(), best.c_str());
            if(er && w != "which" && std::find(v.begin(), v.end(), w) == v.end()) fail("selection", "language \"%s\" of \"%s\" uses catalogue %s", q[i].second.c_str(), q[i].first.c_str(), w.c_str());
            if(S(b.translate("Hello")) != (w == "which" ? "Hello" : "H " + w)) fail("translation", "only a part of the catalogue %s is used", w.c_str());
            if(!best.empty() && !er) probe("catalogue_selected");
         }
         faults = FaultCfg();
         if(fsOpenFds()) fail("handle-leak", "a catalogue was left open");
      });
   }

   // a damaged catalogue of the library itself must not keep it from starting
   void startup()
   {
      journalClear();
      boot([&] { initLib(); journal(S(ResourceDir(System::bundleId()).absolutePath())); journal(S(System::language())); });
      std::vector<std::string> j = journalRead();
      std::string sys = j[1]; std::replace(sys.begin(), sys.end(), '-', '_');
      std::string dir = j[0] + "/translations/";
      fsMkdirs(dir);
      std::string mo = makeMo(genCat({"ERROR: ", "Cannot open file! \"%1\" Errno: %2", "Translation file not fully read", "Index out of Bounds: %1 of %2"}));
      u32 d = 1 + W(3);
      for(u32 i = 0; i < d; i++) switch(W(4))
      {
         case 0: mo.resize(W((u32)mo.size())); break;
         case 1: mo[W((u32)mo.size())] = (char)W(256); break;
         case 2: if(mo.size() >= 28) put32(mo, 8 + 4 * W(3), (u32)W64()); break;
         default: { size_t at = W((u32)mo.size()); for(size_t k = at; k < at + 2 && k < mo.size(); k++) mo[k] = k == at ? '\xfe' : '\xff'; break; }
      }
      if(mo.empty()) mo = "x";
      fsWrite(dir + sys + ".mo", mo);
      boot([&]
      {
         std::string msg;
         nontrivial();
         if(threw([&] { initLib("org.example.app"); }, &msg)) fail("startup", "the library cannot start with a damaged catalogue: %s", msg.c_str());
         journal("up");
         std::string a = S(I18nBundle::getDefault()->translate("this is never translated"));
         if(a != "this is never translated") fail("invented", "an untranslated message became %s", a.c_str());
         probe("started_with_damaged_catalogue");
      });
      if(journalRead().back() != "up") fail("startup", "the library did not start with a damaged catalogue");
   }

   void run()
   {
      setStepCap(300000000);
      switch(W(4))
      {
         case 0: selection(); break;
         case 1: noLeak([] { catalogues(true); }); break;
         case 2: startup(); break;
         default: noLeak([] { catalogues(false); }); break;
      }
   }

   Registrar r20({"C20", run, 20000, 800000,
      "one to four catalogues of 0 to 13 texts with all layouts the format allows, half of them damaged at 1 to 4 places (truncation, flipped bits, wrong counts, offsets and lengths, zeroed blocks), added from memory or from a file under open, read and stat errors; choice of the catalogue among those present for language and application; start of the library with a damaged catalogue.",
      "distinct executions (hash over workload, injected faults, file system calls and outcomes)",
      "I18nBundle, Preferences, Hashtable, Serializer, Resource, File, MemoryStream, String, UTF8Decoder, System::init (instrumented build)",
      "file system behind fopen/fread/.../stat, processes, clock, heap"});
}
