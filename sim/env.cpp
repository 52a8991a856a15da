// Locale, user database and network interfaces of the simulated machine.
#include "sim.h"
#include "internal.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <ifaddrs.h>
#include <locale.h>
#include <net/if_arp.h>
#include <netpacket/packet.h>
#include <pwd.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim
{
   EnvCfg env;
   std::function<int()> randSource;
   std::function<void(const char*)> fsOther;
   BtCfg bt[64];
   static char curLocale[256] = "C", curMessages[64] = "C";
   static char localeBuf[256];      // overwritten by every call, as the standard permits
}
using namespace sim;

// Process and thread ids: the ids of the machine are given out in a circle, so threads of a process may have higher
// or lower ids than the process itself.
static const int PID = 32766;
static int simTid() { int t = curThread(); return t <= 0 ? PID : t == 1 ? PID + 1 : 299 + t; }

extern "C"
{
   long syscall(long n, ...) noexcept
   {
      if(g_on && n == SYS_getpid) return PID;
      if(g_on && n == SYS_gettid) return simTid();
      va_list ap; va_start(ap, n);
      long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
      va_end(ap);
      long r;
      register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
      asm volatile("syscall" : "=a"(r) : "0"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
      if(r < 0 && r > -4096) { errno = (int)-r; return -1; }
      return r;
   }
   pid_t getpid() noexcept { return g_on ? PID : (pid_t)syscall(SYS_getpid); }
   pid_t gettid() noexcept { return g_on ? simTid() : (pid_t)syscall(SYS_gettid); }
   int rand() { if(!g_on || !randSource) return REAL(rand)(); schedPoint(2); return randSource(); }
   long random() { if(!g_on || !randSource) return REAL(random)(); schedPoint(2); return randSource(); }
   int rand_r(unsigned* s) { if(!g_on || !randSource) return REAL(rand_r)(s); schedPoint(2); return randSource(); }

   char* setlocale(int cat, const char* name)
   {
      if(!g_on || !env.on) return REAL(setlocale)(cat, name);
      schedPoint(2);
      bool all = cat == LC_ALL;
      if(name)
      {
         if(!*name)
         {
            if(!env.localeOk) { fault("locale_missing"); return nullptr; }
            if(all) snprintf(curLocale, sizeof curLocale, "%s", env.locale.c_str());
            if(all || cat == LC_MESSAGES) snprintf(curMessages, sizeof curMessages, "%s", env.messages.c_str());
         }
         else if(!strcmp(name, "C") || !strcmp(name, "POSIX")) { if(all) strcpy(curLocale, "C"); if(all || cat == LC_MESSAGES) strcpy(curMessages, "C"); }
         else return nullptr;
      }
      const char* r = all ? curLocale : curMessages;
      memset(localeBuf, '#', sizeof localeBuf - 1);
      snprintf(localeBuf, sizeof localeBuf, "%s", r);
      return localeBuf;
   }

   // what glibc fills in: the packet address has family, index, hardware type, length and address
   int getifaddrs(struct ifaddrs** out)
   {
      if(!g_on || !env.on) return REAL(getifaddrs)(out);
      schedPoint(2);
      if(env.ifErr) { fault("getifaddrs_error"); errno = ENOBUFS; return -1; }
      struct ifaddrs* head = nullptr; struct ifaddrs** tail = &head;
      for(auto& i : env.ifs)
      {
         size_t sz = sizeof(struct ifaddrs) + sizeof(struct sockaddr_ll) + 32;
         struct ifaddrs* a = (struct ifaddrs*)malloc(sz); memset(a, 0, sz);
         char* nm = (char*)(a + 1); strncpy(nm, i.name.c_str(), 15); a->ifa_name = nm;
         if(i.kind == 1)
         {
            struct sockaddr_in* s = (struct sockaddr_in*)(nm + 32); s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(0x0a000001); s->sin_port = htons(0x0800);
            a->ifa_addr = (struct sockaddr*)s;
         }
         else if(i.kind == 2)
         {
            struct sockaddr_ll* s = (struct sockaddr_ll*)(nm + 32); s->sll_family = AF_PACKET; s->sll_hatype = (unsigned short)i.hatype; s->sll_halen = 6; memcpy(s->sll_addr, i.mac, 6);
            a->ifa_addr = (struct sockaddr*)s;
         }
         else fault("interface_without_address");
         *tail = a; tail = &a->ifa_next;
      }
      *out = head;
      if(head) env.ifLists++;
      return 0;
   }
   void freeifaddrs(struct ifaddrs* a)
   {
      if(!g_on || !env.on) return REAL(freeifaddrs)(a);
      if(a) env.ifLists--;
      while(a) { struct ifaddrs* n = a->ifa_next; free(a); a = n; }
   }

   // The users: the process runs as env.euid, which need not be who started it.
   uid_t geteuid() { return g_on && env.on ? (uid_t)env.euid : REAL(geteuid)(); }
   uid_t getuid() { return g_on && env.on ? (uid_t)env.uid : REAL(getuid)(); }
   static int user(uid_t u, struct passwd* pw, char* buf, size_t n)
   {
      std::string g = u == (uid_t)env.euid ? env.gecos : "Somebody Else";
      if(n < g.size() + 1) return ERANGE;
      memcpy(buf, g.c_str(), g.size() + 1);
      memset(pw, 0, sizeof *pw);
      pw->pw_name = (char*)"u"; pw->pw_dir = (char*)"/home/u"; pw->pw_uid = u; pw->pw_passwd = (char*)"x"; pw->pw_shell = (char*)"/bin/sh";
      pw->pw_gecos = env.gecosNull ? nullptr : buf;
      return 0;
   }
   struct passwd* getpwuid(uid_t u)
   {
      if(!g_on || !env.on) return REAL(getpwuid)(u);
      schedPoint(2);
      if(!env.pwOk) { fault("no_such_user"); return nullptr; }
      static struct passwd pw; static char gecos[4096];
      return user(u, &pw, gecos, sizeof gecos) ? nullptr : &pw;
   }
   int getpwuid_r(uid_t u, struct passwd* pw, char* buf, size_t n, struct passwd** out)
   {
      if(!g_on || !env.on) return REAL(getpwuid_r)(u, pw, buf, n, out);
      schedPoint(2);
      *out = nullptr;
      if(!env.pwOk) { fault("no_such_user"); return 0; }
      int e = user(u, pw, buf, n);
      if(!e) *out = pw;
      return e;
   }

   // The dynamic linker.  The library is compiled with these names in place of the real ones.
   static char dlMsg[128]; static bool dlSet;
   static void dlFail(const char* f, const char* n) { snprintf(dlMsg, sizeof dlMsg, "%s: %.80s", f, n); dlSet = true; }
   void* sim_dlopen(const char* path, int flags)
   {
      if(!g_on || !env.on) return dlopen(path, flags);
      schedPoint(2);
      auto i = env.libs.find(path ? path : "");
      if(i == env.libs.end()) { fault("dlopen_error"); dlFail("cannot open shared object", path ? path : ""); return nullptr; }
      env.libRefs[i->first]++;
      return (void*)&i->second;
   }
   static std::map<std::string, std::vector<std::string>>::iterator libOf(void* h)
   {
      auto i = env.libs.begin();
      while(i != env.libs.end() && (void*)&i->second != h) ++i;
      if(i == env.libs.end() || env.libRefs[i->first] < 1) fail("invalid-handle", "the dynamic linker was given a handle that is not open");
      return i;
   }
   void* sim_dlsym(void* h, const char* name)
   {
      if(!g_on || !env.on) return dlsym(h, name);
      schedPoint(2);
      auto i = libOf(h);
      for(auto& s : i->second) if(s == name) return (void*)s.c_str();
      dlFail("undefined symbol", name);
      return nullptr;
   }
   int sim_dlclose(void* h)
   {
      if(!g_on || !env.on) return dlclose(h);
      schedPoint(2);
      auto i = libOf(h);
      env.libRefs[i->first]--;
      if(env.closeErr) { fault("dlclose_error"); dlFail("cannot close", i->first.c_str()); return 1; }
      return 0;
   }
   char* sim_dlerror()
   {
      if(!g_on || !env.on) return dlerror();
      if(!dlSet) return nullptr;
      dlSet = false;
      return dlMsg;
   }
}
