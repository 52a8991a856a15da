#ifndef SIM_INTERNAL_H
#define SIM_INTERNAL_H
#include "sim.h"
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

namespace sim
{
   enum { CAPS = 1 << 18, NPROBE = 160, LOGCAP = 1 << 20, FSCAP = 24 << 20, JCAP = 1 << 20 };
   enum { ST_RUNNING = 0, ST_OK = 1, ST_FAIL = 2, ST_SKIP = 3 };

   struct Counter { char name[56]; u64 n; };

   // One per worker, MAP_SHARED: survives the death of the run's process.
   struct Shared
   {
      int verbose, replay, thorough;
      u64 seed, runIndex;
      u64 rng[NSTREAM];
      u32 recLen[NSTREAM], repLen[NSTREAM], pos[NSTREAM];
      int status, bootStatus;
      char cls[160];
      char msg[6000];
      u64 hash, schedHash, stateHash, steps, switches, preempts, simNs, fsCalls, injected, seq, heapTop;
      i64 realOff; u64 mono;
      int nontriv, overflow, boots;
      u32 fill;
      Counter probes[NPROBE], faultc[NPROBE];
      u32 logPos, journalLen, fsLen;
      u32 rec[NSTREAM][CAPS];
      u32 rep[NSTREAM][CAPS];
      char logBuf[LOGCAP];
      char journalBuf[JCAP];
      char fsBuf[FSCAP];
   };

   extern Shared* sh;
   extern bool g_on;                 // simulation active in this process
   extern int g_nth;                 // sim threads alive (not done)
   void initProcess();               // once per process tree
   void beginRun();                  // in the forked child
   void runBody(void (*fn)());       // runs the workload, never returns
   void childSetup();
   [[noreturn]] void endRun(int status, const char* cls, const char* msg);
   void mixHash(u64 v);
   extern void (*invoke)(const std::function<void()>&);
   std::string symbolizeStack();

   // fs.cpp
   void fsReset();
   std::string fsSerialize();
   void fsDeserialize(const std::string& s);

   // scheduler
   void schedPoint(u32 weight);
   void* realSym(const char* name);
   template<class T> T real(const char* name, T)
   {
      return (T)realSym(name);
   }
   bool firedTimers();
}

#define REAL(name) ([]{ static decltype(&::name) p = nullptr; if(!p) p = (decltype(&::name))sim::realSym(#name); return p; }())
#endif
