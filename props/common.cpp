#include "common.h"
#include <stdlib.h>

namespace sim { extern void (*invoke)(const std::function<void()>&); }

static void invokeImpl(const std::function<void()>& fn)
{
   try { fn(); }
   catch(const jm::Exception& e) { sim::fail("unexpected-exception", "%s", S(e.errorMessage()).c_str()); }
   catch(jm::Exception* e) { sim::fail("exception-pointer-thrown", "%s", S(e->errorMessage()).c_str()); }
   catch(const std::exception& e) { sim::fail("unexpected-std-exception", "%s", e.what()); }
}
static int installed = (sim::invoke = invokeImpl, 0);

std::string show(const std::u16string& u)
{
   std::string o = "\"";
   for(char16_t c : u)
   {
      if(c >= 32 && c < 127 && c != '"' && c != '\\') o += (char)c;
      else { char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned)c); o += b; }
      if(o.size() > 300) { o += "..."; break; }
   }
   return o + "\"";
}
std::string show(const std::string& s, size_t max)
{
   std::string o = "\"";
   for(size_t i = 0; i < s.size(); i++)
   {
      unsigned char c = (unsigned char)s[i];
      if(c >= 32 && c < 127 && c != '"' && c != '\\') o += (char)c;
      else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
      if(o.size() > max) { o += "..."; break; }
   }
   return o + "\"";
}
std::string hex(const void* p, size_t n, size_t max)
{
   std::string o;
   for(size_t i = 0; i < n && i < max; i++) { char b[4]; snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]); o += b; }
   if(n > max) o += "...";
   return o;
}
u64 hashStr(const std::string& s) { u64 h = 1469598103934665603ULL; for(char c : s) h = (h ^ (u8)c) * 1099511628211ULL; return h; }

bool threw(const std::function<void()>& f, std::string* msg)
{
   try { f(); return false; }
   catch(const jm::Exception& e) { if(msg) *msg = S(e.errorMessage()); return true; }
}

static CoutSink* sink;
void initLib(const char* bundle)
{
   (void)installed;
   setenv("HOME", "/home/u", 1);
   setenv("USER", "u", 1);
   fsMkdirs("/home/u");
   fsMkdirs("/tmp");
   if(!fsExists("/proc/self/exe")) { fsMkdirs("/proc/self"); fsMkdirs("/usr/bin"); fsWrite("/usr/bin/app", "x"); fsSymlink("/usr/bin/app", "/proc/self/exe"); }
   sink = new CoutSink();
   jm::System::init(J(bundle));
}

void noLeak(const std::function<void()>& f, const char* bundle)
{
   initLib(bundle);
   // what the library keeps is set up by the first error
   sink->buf.reserve(4000);
   threw([] { throw jm::Exception(J(std::string(200, 'w'))); });
   u64 mark = heapMark(), live = liveBlocks();
   f();
   FaultCfg none; faults = none;
   if(liveBlocks() > live) fail("leak", "%llu memory blocks were lost: %s", (unsigned long long)(liveBlocks() - live), describeLive(mark).c_str());
}

std::string genBytes(size_t n, u32 kind, u32 salt)
{
   std::string s(n, 0);
   u64 x = salt * 0x9e3779b97f4a7c15ULL + 12345;
   for(size_t i = 0; i < n; i++)
   {
      x ^= x << 13; x ^= x >> 7; x ^= x << 17;
      switch(kind)
      {
         case 0: s[i] = (char)('a' + (i + salt) % 26); break;             // ordered text
         case 1: s[i] = (char)salt; break;                                // constant
         case 2: s[i] = (char)(x >> 32); break;                           // random
         case 3: s[i] = "the quick brown fox "[(x >> 40) % 20]; break;    // low entropy
         default: s[i] = (char)((i / (1 + salt % 97)) & 0xff); break;     // runs
      }
   }
   return s;
}
