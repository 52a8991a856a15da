// C23: what the library reports about the process' environment.
#include "common.h"
#include <stdlib.h>
using namespace jm;

namespace
{
   void setVar(const char* n, bool on, const std::string& v) { if(on) setenv(n, v.c_str(), 1); else unsetenv(n); }
   std::string norm(std::string p)   // as File shows it
   {
      std::string o; for(char c : p) if(c != '/' || o.empty() || o.back() != '/') o += c;
      if(o.size() > 1 && o.back() == '/') o.pop_back();
      return o;
   }
   std::string u8name() { static const char* n[] = {"prog", "my prog", "a.b", "\xC3\xA4pp", "x", ".hidden"}; return n[W(6)]; }
   std::string dirName() { static const char* n[] = {"/opt/app", "/usr/bin", "", "/home/m\xC3\xBCller/bin", "/a/./b", "/a/."}; std::string d = n[W(6)]; if(W(12) == 0) while(d.size() < 900 + W(900)) d += "/directory-with-a-long-name"; return d; }

   struct Ans { bool home, user, exe; std::string vHome, vUser, exeDir, exeName, cwd; };
   Ans a;

   void newEnv()
   {
      static const char* locs[] = {"C", "de_DE.UTF-8", "en_US.UTF-8", "C.UTF-8", "POSIX", "fr_CA.ISO-8859-1", "pt_BR", "de"};
      env.on = true;
      env.messages = locs[W(8)];
      env.localeOk = W(5) != 0;
      std::string other = W(3) ? env.messages : locs[W(8)];
      env.locale = other == env.messages ? env.messages : "LC_CTYPE=" + other + ";LC_NUMERIC=" + other + ";LC_TIME=" + other + ";LC_COLLATE=" + other + ";LC_MONETARY=" + other + ";LC_MESSAGES=" + env.messages + ";LC_PAPER=" + other;
      env.ifErr = W(6) == 0;
      env.ifs.clear();
      // an interface of another kind than ethernet: tunnel, point to point, infiniband, sit, none, wireguard
      static const unsigned hats[] = {768, 512, 32, 776, 65534, 778};
      u32 n = Wlen(5);
      for(u32 i = 0; i < n; i++)
      {
         Iface f; f.name = "if" + std::to_string(i); f.kind = (int)W(3); f.hatype = W(3) ? 1 : W(2) ? 772 : (int)hats[W(6)];
         for(auto& b : f.mac) b = f.hatype == 772 ? 0 : (u8)W(256);
         env.ifs.push_back(f);
      }
      env.pwOk = W(4) != 0; env.gecosNull = W(6) == 0;
      static const char* g[] = {"", "Uwe Runtemund", "J\xC3\xB6rg,,,"}; env.gecos = g[W(3)];
      env.uid = (int)W(3) * 1000; env.euid = W(3) ? env.uid : 1001;
      a.home = W(4) != 0; a.vHome = W(3) ? "/home/u" : W(2) ? "/" : "/home/m\xC3\xBCller"; setVar("HOME", a.home, a.vHome);
      a.user = W(4) != 0; a.vUser = W(3) ? "u" : "m\xC3\xBCller"; setVar("USER", a.user, a.vUser);
      a.exe = W(5) != 0; a.exeDir = dirName(); a.exeName = u8name();
      if(fsExists("/proc/self/exe") || !fsList("/proc/self").empty()) fsRemove("/proc/self/exe");
      fsMkdirs("/proc/self");
      if(a.exe) fsSymlink(a.exeDir + "/" + a.exeName, "/proc/self/exe");
      env.cwdErr = W(4) ? 0 : W(2) ? ENOENT : EACCES;
      a.cwd = W(2) ? "/work" : "/w\xC3\xB6rk/sub"; fsMkdirs(a.cwd); if(chdir(a.cwd.c_str())) fail("harness", "chdir");
      log("environment: home %d user %d exe %d locale %d interfaces %zu", a.home, a.user, a.exe, env.localeOk, env.ifs.size());
   }

   void eq(const char* what, const std::string& got, const std::string& want)
   {
      log("%s -> %s", what, show(got).c_str());
      if(got != want) fail("answer", "%s is %s instead of %s", what, show(got, 200).c_str(), show(want, 200).c_str());
   }

   std::string started;    // locale of the messages in effect
   void ask()
   {
      std::string exe = a.exe ? a.exeDir + "/" + a.exeName : "";
      switch(W(11))
      {
         case 0:
         {
            std::string l = S(System::language()), want = env.localeOk ? env.messages : started;
            started = want;
            size_t p = want.find('.'); if(p != std::string::npos) want = want.substr(0, p);
            for(char& c : l) if(c == '-') c = '_';
            if(want == "POSIX" && l == "C") l = want;
            eq("language()", l, want);
            break;
         }
         case 1: eq("userId()", S(System::userId()), a.user ? a.vUser : ""); break;
         case 2: { std::string n = S(System::userFullName()); if(env.pwOk) eq("userFullName()", n, env.gecosNull ? "" : env.gecos); else if(n == env.gecos && !n.empty()) fail("answer", "userFullName() is that of a user that does not exist"); break; }
         case 3:
         {
            std::string want;
            if(!env.ifErr) for(auto& i : env.ifs) if(i.kind == 2 && i.hatype == 1) { char b[32]; snprintf(b, sizeof b, "%02x:%02x:%02x:%02x:%02x:%02x", i.mac[0], i.mac[1], i.mac[2], i.mac[3], i.mac[4], i.mac[5]); want = b; break; }
            std::string got = S(System::macAddress1()); for(char& c : got) c = (char)tolower(c);
            if(!want.empty()) probe("mac");
            eq("macAddress1()", got, want);
            break;
         }
         case 4: { File f = currentDir(); if(env.cwdErr) { if(f.absolutePath().size()) fail("answer", "currentDir() is %s although it cannot be determined", show(S(f.absolutePath())).c_str()); } else eq("currentDir()", S(f.absolutePath()), a.cwd); break; }
         case 5: { std::string t = S(TempDir().absolutePath()); log("TempDir() -> %s", show(t).c_str()); if(!t.empty() && !fsIsDir(t)) fail("answer", "TempDir() is %s, which does not exist", show(t).c_str()); break; }
         case 6: eq("UserDir()", S(UserDir().absolutePath()), a.home ? norm(a.vHome) : ""); break;
         case 7: { std::string p = S(PropertyDir().absolutePath()); if(a.home && a.exe) eq("PropertyDir()", p, norm(a.vHome + "/." + a.exeName)); else log("PropertyDir() -> %s", show(p).c_str()); break; }
         case 8: eq("ExecPath()", S(ExecPath()), exe); break;
         case 9: if(a.exe) eq("ExecName()", S(ExecName()), a.exeName); else eq("ExecName()", S(ExecName()), ""); break;
         default:
         {
            std::string d = S(ExecDir());
            std::string want = a.exeDir;
            if(want.size() > 1 && want.substr(want.size() - 2) == "/.") want.resize(want.size() - 2);
            if(want.empty()) want = "/";
            if(a.exe) eq("ExecDir()", d, want); else eq("ExecDir()", d, "");
            std::string r = S(ResourceDir(J("x")).absolutePath()); if(a.exe) eq("ResourceDir()", r, "/usr/share/" + a.exeName);
            break;
         }
      }
   }

   struct Lib { void* h; const char* path; };
   std::vector<Lib> open;
   static const char* libPath[] = {"/usr/lib/liba.so", "/opt/my lib/libb.so.1", "/opt/m\xC3\xBCller/libc.so", "/none.so"};
   static const char* syms[] = {"init", "initPlugin", "_ZN1a1bEv", "", "quit", "init2"};
   void newLibs()
   {
      for(int i = 0; i < 3; i++) if(W(4)) { auto& l = env.libs[libPath[i]]; for(auto s : syms) if(W(2)) l.push_back(s); env.libRefs[libPath[i]]; }
   }
   void libs()
   {
      switch(open.empty() ? 0 : W(4))
      {
         case 0:
         {
            const char* p = libPath[W(4)]; bool there = env.libs.count(p) != 0;
            void* h;
            { File f(String((const char*)p)); h = System::loadDynamicLibrary(&f); }
            log("load %s -> %s", show(p).c_str(), h ? "ok" : "not found");
            if(there != (h != nullptr)) fail("library", "loading %s, which %s, %s", show(p).c_str(), there ? "exists" : "does not exist", h ? "gives a library" : "fails");
            if(h) { open.push_back({h, p}); probe("library"); }
            break;
         }
         case 1: case 2:
         {
            Lib& l = open[W((u32)open.size())]; const char* n = syms[W(6)];
            auto& have = env.libs[l.path]; const char* want = nullptr;
            for(auto& s : have) if(s == n) want = s.c_str();
            void* got = System::findSymbol(l.h, J(n));
            log("symbol %s of %s -> %s", n, l.path, got ? "found" : "not found");
            if(got != (const void*)want) fail("library", "symbol %s of %s: %s", n, l.path, got ? want ? "another one was found" : "found although it does not exist" : "not found");
            break;
         }
         default:
         {
            u32 i = W((u32)open.size()); std::string l = open[i].path; int r = env.libRefs[l]; env.closeErr = W(4) == 0;
            System::unloadDynamicLibrary(open[i].h);
            log("unload %s", open[i].path);
            if(env.libRefs[l] != r - 1) fail("library", "%s was not unloaded", open[i].path);
            open.erase(open.begin() + i);
         }
      }
      for(auto& r : env.libRefs) { int n = 0; for(auto& l : open) n += r.first == l.path; if(n != r.second) fail("library", "%s is open %d times instead of %d", r.first.c_str(), r.second, n); }
   }

   void run()
   {
      setStepCap(20000000);
      boot([]
      {
         initLib();
         static CoutSink* sink = new CoutSink();
         std::cerr.rdbuf(sink);
         newEnv(); newLibs(); open.reserve(64);
         started.reserve(200); started = "C";
         { System::language(); started = env.localeOk ? env.messages : started; System::userId(); UserDir(); log("start"); }
         u32 n = 2 + W(12);
         for(u32 i = 0; i < n; i++) { if(W(4) == 0) newEnv(); int h0 = fsOpenHandles(); sink->buf = std::string(); sink->buf.reserve(20000); u64 mark = heapMark(), b0 = liveBlocks(); if(W(5) == 0) { libs(); } else ask(); if(env.ifLists) fail("leak", "a list of interfaces was not given back"); if(!std::cout.good()) fail("answer", "standard output has failed"); if(fsOpenHandles() != h0) fail("leak", "a handle was left open"); if(liveBlocks() > b0) fail("leak", "%llu memory blocks were lost: %s", (unsigned long long)(liveBlocks() - b0), describeLive(mark).c_str()); }
         if(n > 3) nontrivial();
         // the library starts and stops in any environment
         env.closeErr = false;
         while(open.size()) { System::unloadDynamicLibrary(open.back().h); open.pop_back(); }
         if(W(2) == 0)
         {
            static const char* ids[] = {"app.test", "", "b"};
            const char* id = ids[W(3)];
            int h0 = fsOpenHandles();
            initLib(id);
            if(S(System::bundleId()) != id) fail("start", "bundleId() is %s instead of %s", show(S(System::bundleId())).c_str(), id);
            Preferences* pr = System::preferences();
            if((pr != nullptr) != (*id != 0)) fail("start", "preferences exist: %d with bundle id %s", pr != nullptr, id);
            AutoreleasePool* pool = System::autoreleasePool();
            if(!pool) fail("start", "there is no autorelease pool");
            static int gone; gone = 0;
            struct Obj: jm::Object { ~Obj() override { gone++; } };
            u32 objs = W(4), now = W(3) ? 0 : objs;
            for(u32 i = 0; i < objs; i++) { Obj* o = new Obj; o->autorelease(); }
            if(now) { pool->drain(); if(gone != (int)objs) fail("start", "the pool has deleted %d of %u objects", gone, objs); }
            if(pr && W(2)) pr->setValue(J("k"), J("v"));
            System::quit();      // nothing of the library may be used afterwards
            if(System::preferences() || (pr && memAlive(pr))) fail("start", "there are preferences after the end");
            if(System::autoreleasePool() || memAlive(pool)) fail("start", "there is an autorelease pool after the end");
            if(gone != (int)objs) fail("start", "the library has ended, but %u of %u objects are alive", objs - gone, objs);
            if(fsOpenHandles() != h0) fail("leak", "a handle was left open by start and end");
            probe("started");
         }
         env.on = false;
         unsetenv("LANG");
      });
   }

   Registrar r23({"C23", run, 40000, 1500000,
      "2 to 13 questions about language, user, directories, program and network address in environments that change between them: variables missing, unknown or mixed locales, missing users, interfaces without an address, failing system calls, unknown, deep or long program paths; dynamic libraries are loaded, searched and unloaded; half of the runs start and end the library there. Non-trivial: more than three questions.",
      "distinct histories (hash over environments and answers)",
      "System, File (directories, program path), String, Preferences and I18nBundle start (instrumented build)",
      "environment, locale, user database, network interfaces, file system, heap"});
}
