// C14: preferences across processes.
#include "common.h"
using namespace jm;

namespace
{
   typedef std::map<std::u16string, std::u16string> Map;

   bool big;      // this run stores values longer than the stdio buffer
   std::u16string text(bool key)
   {
      static const char16_t ka[] = u"aZ.-_#\u00e4\u20ac 7\\:";
      static const char16_t va[] = u" \t\n\r\\nts=#a\u00e4\u20ac%1b\"\b\f;s\uffee";
      std::u16string u;
      u32 n = key ? 1 + Wlen(8) : big && W(4) == 3 ? 4000 + W(1000) : Wlen(W(8) == 7 ? 300 : 12);      // sometimes more than the stdio buffer
      if(n > 4096) probe("long_value");
      for(u32 i = 0; i < n; i++)
      {
         if(!key && W(24) == 23) { u32 c = 1 + W(0xfffd); if(c >= 0xd800 && c < 0xe000) c -= 0x800; u += (char16_t)c; }
         else u += key ? ka[W(12)] : va[W(sizeof va / 2 - 1)];
      }
      if(key)
      {
         while(!u.empty() && u.back() == ' ') u.pop_back();
         while(!u.empty() && u[0] == ' ') u.erase(0, 1);
         if(u.empty()) u = u"k";
      }
      return u;
   }
   std::string enc(const Map& m)
   {
      std::string s;
      auto p = [&](const std::u16string& u) { u32 n = (u32)u.size(); s.append((char*)&n, 4); s.append((const char*)u.data(), n * 2); };
      for(auto& e : m) { p(e.first); p(e.second); }
      return s;
   }
   Map dec(const std::string& s, size_t p)
   {
      Map m;
      auto g = [&] { u32 n; memcpy(&n, s.data() + p, 4); p += 4; std::u16string u(n, 0); memcpy(&u[0], s.data() + p, n * 2); p += n * 2; return u; };
      while(p < s.size()) { std::u16string k = g(); m[k] = g(); }
      return m;
   }
   Map all(Preferences* p)
   {
      Map m;
      Iterator* it = p->keys();
      while(it->hasNext()) { String k = *(String*)it->next(); m[U(k)] = U(p->value(k)); }
      delete it;
      return m;
   }
   std::string diff(const Map& got, const Map& want)
   {
      for(auto& e : want) { auto it = got.find(e.first); if(it == got.end()) return "no value for " + show(e.first); if(it->second != e.second) return show(e.first) + " is " + show(it->second) + ", expected " + show(e.second); }
      for(auto& e : got) if(!want.count(e.first)) return "an unknown key " + show(e.first);
      return "";
   }
   std::string d16(double d) { return S(String::valueOf(d)); }

   // one process: cur is what must be stored when it starts
   void process(const Map& start, bool known, bool direct, u32 ops, bool faulty, u32 mask, u32 pm, int crashAt)
   {
      if(faulty) { faults.mask = mask; faults.perMille = pm; }
      if(crashAt >= 0) faults.crashAt = (int)fsCalls() + crashAt;
      Preferences* p = nullptr;
      u32 where = direct ? W(3) : 0;          // an absolute name or one that starts at the current directory
      const char* name = "/home/u/conf/x.properties";
      if(where == 1 && fsIsDir("/home/u/conf")) { if(::chdir("/home/u/conf")) fail("harness", "chdir"); name += 13; probe("relative_names"); }
      else if(where == 2) { if(::chdir("/home/u")) fail("harness", "chdir"); name += 8; probe("relative_names"); }
      File file = File(String(name));
      bool t = false;
      FsErr e0 = fsErrs();
      if(direct)
      {
         e0 = fsErrs();
         p = new Preferences;
         t = threw([&] { p->load(file); });
      }
      else { t = threw([&] { initLib("app.test"); }); p = System::preferences(); }
      FsErr e1 = fsErrs();
      auto hard = [](const FsErr& a, const FsErr& b) { return a.readErr != b.readErr || a.closeErr != b.closeErr; };
      if(fsOpenFds()) fail("handle-leak", "loading the preferences left %d files open", fsOpenFds());
      if(t)
      {
         if(e1.count == e0.count) fail("load", "loading the preferences failed although nothing was wrong");
         journal("X"); probe("load_failed");
         if(direct) delete p;
         return;
      }
      (void)hard;
      Map cur = known ? start : all(p);
      // a failed open, or an unknown size, of an existing file must not look like an empty file
      if(e1.statErr != e0.statErr && e1.readErr != e0.readErr) probe("unknown_size");
      std::string d = diff(all(p), cur);
      if(!d.empty()) fail("load", "after loading the preferences there is %s (%zu keys stored)", d.c_str(), cur.size());
      probe("loaded");
      String kv;      // one object is used for all keys
      for(u32 o = 0; o < ops; o++)
      {
         std::u16string k = !cur.empty() && W(2) ? [&] { auto it = cur.begin(); std::advance(it, W((u32)cur.size())); return it->first; }() : text(true);
         if(W(2)) kv = JU(k); else { kv.zero(); kv.append(JU(k)); }
         if(W(3) == 2) kv.hashCode();
         switch(W(9))
         {
            case 0:
            {
               // literals, as programs use them
               static const char* lit[] = {"text", "0", "false", "a=b", " x ", "-1.5", "/home/user/My Files"};
               const char* c = lit[W(7)]; p->setValue(kv, c); cur[k] = std::u16string(c, c + strlen(c)); log("set %s to the literal \"%s\"", show(k).c_str(), c);
               if(!p->value(kv).equals(String(c))) fail("get", "value() is %s after setting the literal \"%s\"", show(S(p->value(kv))).c_str(), c);
               break;
            }
            case 1: case 2: { std::u16string v = text(false); p->setValue(kv, JU(v)); cur[k] = v; log("set %s = %s", show(k).c_str(), show(v).c_str()); break; }
            case 3: { i64 v = (i64)W64(); p->setValue(kv, (int64)v); std::string s = std::to_string(v); cur[k] = std::u16string(s.begin(), s.end()); if(p->valueInt(kv, 7) != v) fail("get", "valueInt() is %lld after setting %lld", (long long)p->valueInt(kv, 7), (long long)v); break; }
            case 4: { bool v = W(2); p->setValue(kv, v); cur[k] = v ? u"true" : u"false"; if(p->valueBool(kv, !v) != v) fail("get", "valueBool() is not what was set"); break; }
            case 5: { double v = ((double)W(200001) - 100000) / 8; p->setValue(kv, v); std::string s = d16(v); cur[k] = std::u16string(s.begin(), s.end()); if(p->valueDouble(kv, 1e9) != v) fail("get", "valueDouble() is %g after setting %g", p->valueDouble(kv, 1e9), v); break; }
            case 6:
            {
               bool has = cur.count(k);
               if(p->hasValue(kv) != has) fail("get", "hasValue(%s) is %d", show(k).c_str(), !has);
               std::u16string got = U(p->value(kv, String("dflt"))), want = has && !cur[k].empty() ? cur[k] : u"dflt";
               if(got != want) fail("get", "value(%s) is %s, expected %s", show(k).c_str(), show(got).c_str(), show(want).c_str());
               got = U(p->value(kv)), want = has ? cur[k] : u"";
               if(got != want) fail("get", "value(%s) is %s, expected %s", show(k).c_str(), show(got).c_str(), show(want).c_str());
               if(!has || cur[k].empty())
               {
                  i64 di = (i64)W64(); double dd = W(1000) / 8.0; bool db = W(2);
                  if(p->valueInt(kv, di) != di) fail("get", "valueInt() is %lld for a key without a value, the default is %lld", (long long)p->valueInt(kv, di), (long long)di);
                  if(p->valueDouble(kv, dd) != dd) fail("get", "valueDouble() is %g for a key without a value, the default is %g", p->valueDouble(kv, dd), dd);
                  if(p->valueBool(kv, db) != db) fail("get", "valueBool() is %d for a key without a value, the default is %d", p->valueBool(kv, db), db);
                  probe("defaults");
               }
               break;
            }
            default:
            {
               // store, maybe several times in one process
               journal("B" + enc(cur));
               e0 = fsErrs();
               bool failed;
               if(direct) failed = threw([&] { p->save(file); });
               else { System::log(String("marker"), LogLevel::kError); System::savePreferences(); failed = S(String(System::lastErrorMessage())) != "marker"; }
               e1 = fsErrs();
               bool bad = e1.openErr + e1.writeErr + e1.closeErr + e1.metaErr != e0.openErr + e0.writeErr + e0.closeErr + e0.metaErr;
               log("save -> %s", failed ? "failed" : "done");
               if(fsOpenFds()) fail("handle-leak", "saving the preferences left %d files open", fsOpenFds());
               if(failed && e1.count == e0.count) fail("save", "saving the preferences failed although nothing was wrong");
               if(!failed && bad && (e1.writeErr != e0.writeErr || e1.closeErr != e0.closeErr || e1.openErr != e0.openErr)) fail("error-hidden", "saving the preferences reported no error although the file could not be written");
               journal(failed ? "X" : "C");
               if(failed) probe("save_failed");
               break;
            }
         }
         d = diff(all(p), cur);
         if(!d.empty()) fail("get", "in memory there is %s", d.c_str());
      }
      if(direct) { delete p; return; }
      if(W(4) == 3) return;          // the process just ends
      journal("B" + enc(cur));
      e0 = fsErrs();
      System::log(String("marker"), LogLevel::kError);
      System::quit();
      bool failed = S(String(System::lastErrorMessage())) != "marker";
      e1 = fsErrs();
      if(fsOpenFds()) fail("handle-leak", "saving the preferences left %d files open", fsOpenFds());
      if(failed && e1.count == e0.count) fail("save", "saving the preferences failed although nothing was wrong");
      if(!failed && (e1.writeErr != e0.writeErr || e1.closeErr != e0.closeErr || e1.openErr != e0.openErr)) fail("error-hidden", "saving the preferences reported no error although the file could not be written");
      journal(failed ? "X" : "C");
   }

   std::string u8(const std::u16string& t)
   {
      std::string o;
      for(char16_t c : t) { if(c < 0x80) o += (char)c; else if(c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
      return o;
   }
   // a file somebody wrote with an editor, and what it says
   std::string edited(Map& m)
   {
      std::string f; u32 n = Wlen(8);
      auto pad = [] { std::string s; for(u32 i = W(3); i; i--) s += W(2) ? " " : "\t"; return s; };
      for(u32 i = 0; i < n; i++)
      {
         std::string eol = W(3) ? "\n" : W(2) ? "\r\n" : "\n\n \n";
         if(W(5) == 0) { f += (W(2) ? "# a remark" : W(2) ? "nothing" : "=no key") + eol; continue; }
         std::u16string k = text(true), v;
         f += pad() + u8(k) + pad() + "=" + pad();
         u32 l = Wlen(8);
         for(u32 q = 0; q < l; q++) switch(W(5))
         {
            case 0: { static const char* e[] = {"\\\\", "\\t", "\\n", "\\r", "\\s", "\\b", "\\f", "\\x", "\\ \\."}; static const char16_t* w[] = {u"\\", u"\t", u"\n", u"\r", u" ", u"\b", u"\f", u"\\x", u"\\ \\."}; u32 c = W(9); f += e[c]; v += w[c]; break; }
            default: { static const char16_t c[] = u"ab=#\u00e4\u20ac1:\""; char16_t x = c[W(9)]; f += u8(std::u16string(1, x)); v += x; }
         }
         if(l && W(8) == 0) { f += "\\"; v += u"\\"; f += W(2) ? "" : "q"; if(f.back() == 'q') v += u'q'; f += eol; }
         else f += pad() + (i + 1 == n && W(2) ? "" : eol);
         m[k] = v;
      }
      return f;
   }

   void run()
   {
      nontrivial();
      bool direct = W(2);
      big = W(16) == 15;
      fsMkdirs("/home/u");
      if(direct && W(2)) fsMkdirs("/home/u/conf");
      u32 boots = 2 + W(3);
      Map cur, old; bool known = true, torn = false, tornBad = false;
      if(direct && W(3) == 0) { std::string f = edited(cur); fsMkdirs("/home/u/conf"); fsWrite("/home/u/conf/x.properties", f); log("the file says %zu bytes: %s", f.size(), show(f, 300).c_str()); probe("edited_by_hand"); }
      bool allowCrash = W(3) == 2;
      u32 faultBoots = W(3) == 2 || (big && W(2)) ? W(15) : 0;
      for(u32 b = 0; b < boots; b++)
      {
         bool faulty = faultBoots >> b & 1 && !torn;
         u32 mask = 0; static const u32 kinds[] = {FK_OPEN_ERR, FK_READ_ERR, FK_WRITE_ERR, FK_SHORT_READ, FK_SHORT_WRITE, FK_ENOSPC, FK_CLOSE_ERR, FK_STAT_ERR, FK_META_ERR, FK_ACCESS_ERR};
         if(faulty) for(u32 k : kinds) if(W(2)) mask |= k;
         static const u32 pms[] = {20, 60, 150, 400};
         u32 pm = pms[W(4)];
         int crashAt = allowCrash && !torn && W(2) ? (int)W(30) : -1;
         u32 ops = Wlen(14);
         journalClear();
         Map s = cur; bool kn = known;
         if(torn)
         {
            // old or new, nothing else
            Map* got = nullptr; (void)got;
            boot([&] {
               Preferences* p;
               if(direct) { initLib(); p = new Preferences; p->load(File(String("/home/u/conf/x.properties"))); }
               else { initLib("app.test"); p = System::preferences(); }
               Map m = all(p);
               if(m != old && m != cur)
               {
                  // A file that ends too early holds the first lines of the new one, the last of them cut off
                  // (unless a part in front of it could not be written either).
                  u32 strange = 0; for(auto& e : m) { auto c = cur.find(e.first); strange += c == cur.end() ? 2 : c->second != e.second; }
                  if(strange > 1 && !tornBad) fail("mixed-by-crash", "a process that was killed while it saved %zu preferences left a file that is not even a part of the new one: %s", cur.size(), diff(m, cur).c_str());
                  fail("torn-by-crash", "a process that was killed while it saved %zu preferences left a file with %zu of %zu old ones: %s", cur.size(), m.size(), old.size(), diff(m, old).c_str());
               }
               journal(m == cur ? "N" : "O");
            });
            auto j = journalRead();
            if(!j.empty() && j[0] == "O") cur = old;
            torn = false; known = true;
            continue;
         }
         bool ended = boot([&] { auto f = [&] { process(s, kn, direct, ops, faulty, mask, pm, crashAt); }; if(direct) noLeak(f); else f(); });
         faults = FaultCfg();
         if(!ended) probe("crashed");
         bool pending = false; Map pend;
         for(auto& r : journalRead())
         {
            if(r[0] == 'B') { pend = dec(r, 1); pending = true; }
            else if(r[0] == 'C') { cur = pend; known = true; pending = false; }
            else { if(pending) known = false; pending = false; }
         }
         if(pending && !ended)
         {
            if(known) { torn = true; old = cur; cur = pend; tornBad = faulty && (mask & (FK_WRITE_ERR | FK_ENOSPC)); }
            probe("crashed_in_save");
         }
      }
   }

   Registrar r14({"C14", run, 30000, 400000,
      "2-4 simulated processes set, read and save preferences (arbitrary text with backslashes, line breaks, blanks; numbers; flags) through System or directly, with open/read/write/close errors, full disk, short transfers and kills at arbitrary file system calls; each process must find what the last completed save stored.",
      "distinct executions (hash over operations, injected faults, file system calls and outcomes)",
      "Preferences, System::init/quit/savePreferences, Hashtable, StringTokenizer, StringList, File, String, charsets (instrumented build), glibc stdio",
      "file system behind fopen/stat/mkdir, clock, heap, process crash"});
}
