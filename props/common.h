#ifndef PROPS_COMMON_H
#define PROPS_COMMON_H
#include "PrecompiledCore.hpp"
#include "../sim/sim.h"
#include <cstring>
#include <deque>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace sim;
using jm::String;

// conversions that do not go through the code under test more than needed
inline std::string S(const String& s)
{
   std::string o;
   for(int64 i = 0; i < (int64)s.size(); i++)
   {
      unsigned c = s.charAt(i).unicode();
      if(c < 0x80) o += (char)c;
      else if(c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
      else { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
   }
   return o;
}
inline std::u16string U(const String& s)
{
   std::u16string o;
   for(int64 i = 0; i < (int64)s.size(); i++) o += (char16_t)s.charAt(i).unicode();
   return o;
}
inline String J(const std::string& s) { return String(s.c_str()); }   // ASCII only
inline String JU(const std::u16string& u)
{
   String s;
   for(char16_t c : u) s.append(jm::Char((uint16)c));
   return s;
}
std::string show(const std::u16string& u);
std::string show(const std::string& s, size_t max = 60);
std::string hex(const void* p, size_t n, size_t max = 40);
u64 hashStr(const std::string& s);

// runs f; returns true if it threw a jm::Exception (message in *msg)
bool threw(const std::function<void()>& f, std::string* msg = nullptr);

// library start in the simulated process; no bundle id means no preferences
void initLib(const char* bundle = "");

// runs f in the initialised library; nothing f allocates may be left over
void noLeak(const std::function<void()>& f, const char* bundle = "");

// deterministic pseudo-random bytes from a single recorded choice
std::string genBytes(size_t n, u32 kind, u32 salt);

// opens a console sink so that System::log output stays inside the simulation
struct CoutSink : std::streambuf
{
   std::string buf; std::streambuf* old; size_t flushed = 0;
   CoutSink() { old = std::cout.rdbuf(this); }
   ~CoutSink() override { std::cout.rdbuf(old); }
   int sync() override { flushed = buf.size(); return 0; }
   int overflow(int c) override { if(c != EOF) buf += (char)c; return c; }
   std::streamsize xsputn(const char* s, std::streamsize n) override { buf.append(s, (size_t)n); return n; }
};
#endif
