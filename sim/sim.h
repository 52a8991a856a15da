// Deterministic simulator for libcore: public interface used by the workloads in /verif/props.
//
// One run == one forked process == one seed.  Every choice is drawn from one of three recorded
// streams (workload, schedule, fault); replay reads the streams back.  See DESIGN.md.
#ifndef SIM_H
#define SIM_H

#include <cstdint>
#include <cstdarg>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim
{
   typedef uint8_t u8;
   typedef uint32_t u32;
   typedef uint64_t u64;
   typedef int64_t i64;

   enum Stream { SW = 0, SS = 1, SF = 2, NSTREAM = 3 };

   //------------------------------------------------------------------ choices
   u32 draw(Stream s, u32 n);                    // uniform 0..n-1, 0 is "simplest"
   u32 drawRaw(Stream s, u32 generated);         // records `generated`; on replay returns the recorded value
   inline u32 W(u32 n) { return draw(SW, n); }   // workload choice
   inline u32 F(u32 n) { return draw(SF, n); }   // fault choice
   bool Wp(u32 num, u32 den);                    // true with num/den; 0 encodes false
   bool Fp(u32 num, u32 den);
   u32 Wlen(u32 max);                            // small-biased length 0..max
   u64 W64();                                    // 64 bit value, edge biased
   bool replaying();

   //------------------------------------------------------------------ verdicts / logging
   [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
   void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
   void probe(const char* name, u64 add = 1);    // "this rare condition was hit" counter
   void fault(const char* name);                 // count an injected fault
   void nontrivial();                            // mark the run as having reached interesting behaviour
   void mixState(u64 h);                         // mix into the state/interleaving measure
   [[noreturn]] void done();                     // end the run successfully, right here
   [[noreturn]] void skip(const char* why);      // end the run: inconclusive (counted)

   //------------------------------------------------------------------ threads and time
   struct NoPreempt { NoPreempt(); ~NoPreempt(); };
   void spawn(const char* name, std::function<void()> fn);   // a client thread under the scheduler
   void joinAll();                                           // waits for every spawned thread
   void yield();                                             // explicit schedule point
   void schedConfig(u32 scale = 1);                          // draw the scheduling mode (once, before spawning); scale ~ concurrent steps / 100
   void setStepCap(u64 steps);
   u64 steps();
   u64 seq();                                                // global event sequence number (increments on each call)
   void setClockGrain(u64 ns);                               // the clocks advance in steps of that many ns
   u64 nowMono();                                            // ns
   void setClockGrain(u64 ns);   // the clocks advance in steps of that many nanoseconds
   i64 nowReal();                                            // ns since the epoch
   void setReal(i64 ns);
   void jumpReal(i64 deltaNs);                               // clock jump (fault)
   void advance(u64 ns);                                     // let simulated time pass
   void enableTimeFaults(u32 perMille);                      // stalls and clock jumps at schedule points
   int threadCount();
   int curThread();
   const char* threadName(int id);
   const char* threadSysName(int id);                        // as set with pthread_setname_np()
   bool threadBlocked(int id);                               // blocked in lock/cond/join
   bool threadSleeping(int id);                              // blocked in a condition wait
   bool threadDone(int id);
   int createFailures();                                     // pthread_create failures injected so far
   void failThreadCreate(u32 perMille);
   void waitUntil(const std::function<bool()>& cond);        // block the caller until cond() (evaluated at schedule points)
   int threadByHandle(unsigned long h);
   extern std::function<void()> onDeadlock;                  // called (on the last thread) before "deadlock" is reported

   //------------------------------------------------------------------ memory
   bool memAlive(const void* p);                             // address inside a live block of the checked heap
   u64 liveBlocks();
   u64 heapMark();                                          // to be given to describeLive()
   std::string describeLive(u64 mark);                      // the blocks allocated since then that are alive
   u64 liveBytes();
   void memCheck(bool on);                                   // checked heap on/off for this run (default on)
   void setAllocCap(u64 bytes);                              // a single allocation above this ends the run as "alloc-cap"

   //------------------------------------------------------------------ simulated file system
   struct FaultCfg
   {
      u32 perMille = 0;          // probability that an eligible call is faulted
      u32 mask = 0;              // FK_* kinds enabled
      int maxFaults = -1;        // stop after that many
      int crashAt = -1;          // crash before file system call number n
   };
   enum FK
   {
      FK_OPEN_ERR = 1, FK_READ_ERR = 2, FK_WRITE_ERR = 4, FK_SHORT_READ = 8, FK_SHORT_WRITE = 16,
      FK_ENOSPC = 32, FK_CLOSE_ERR = 64, FK_META_ERR = 128, FK_DIR_ORDER = 256, FK_DIR_RACE = 512,
      FK_XATTR_ERR = 1024, FK_SEEK_ERR = 2048, FK_STAT_ERR = 4096, FK_STALL = 8192, FK_READDIR_ERR = 16384,
      FK_DIR_OPEN_ERR = 32768, FK_ACCESS_ERR = 65536
   };
   extern FaultCfg faults;
   void resetFs();
   // direct (faultless) access for the harness
   bool fsExists(const std::string& path);
   bool fsIsDir(const std::string& path);
   bool fsIsFile(const std::string& path);
   std::string fsRead(const std::string& path);
   void fsWrite(const std::string& path, const std::string& data);
   void fsMkdirs(const std::string& path);
   void fsSymlink(const std::string& target, const std::string& path);
   void fsFifo(const std::string& path);
   void fsRemove(const std::string& path);
   void fsChmod(const std::string& path, u32 mode);
   u32 fsMode(const std::string& path);
   std::vector<std::string> fsList(const std::string& path);
   std::string fsGetXattr(const std::string& path, const std::string& name, bool& ok);
   void fsSetXattr(const std::string& path, const std::string& name, const std::string& v);
   void fsRemoveXattr(const std::string& p, const std::string& name);
   i64 fsMtimeNs(const std::string& path);
   void fsSetMtimeNs(const std::string& path, i64 ns);
   void fsFlip(const std::string& path, u64 bit);
   extern bool fsNoTypes;                       // readdir() does not tell the kind of the entries
   void fsSetCapacity(i64 bytes);                // -1: unlimited; otherwise ENOSPC beyond
   std::string fsDump();                         // deterministic text listing
   // everything below dir, links not followed: path -> type, mode, ':', contents or link target, attributes
   std::map<std::string, std::string> fsSnapshot(const std::string& dir);
   std::string fsReal(const std::string& path, bool follow);
   int fsOpenHandles();                          // open descriptors + directory streams
   int fsOpenFds();
   int fsOpenDirs();
   u64 fsCalls();
   struct FsErr { u64 count; int lastErrno; const char* lastOp; u64 opErr, readErr, writeErr, closeErr, metaErr, openErr, xattrErr, statErr, dirErr; };
   FsErr fsErrs();                               // errors returned to the code so far (injected or natural)
   u64 injected();                               // faults injected so far

   //------------------------------------------------------------------ the process' environment
   struct Iface { std::string name; int kind; u8 mac[6]; int hatype; };   // kind 0: no address, 1: IPv4, 2: packet
   struct EnvCfg
   {
      bool on = false;                                   // otherwise the system answers
      bool localeOk = true; std::string locale = "C";    // what setlocale(LC_ALL, "") finds (LC_ALL=... form if mixed)
      std::string messages = "C";                        // the locale of messages
      bool ifErr = false; std::vector<Iface> ifs;
      bool pwOk = true, gecosNull = false; std::string gecos;
      int uid = 0, euid = 0;                             // who started the process and who it runs as
      int cwdErr = 0;                                    // errno of getcwd()
      int ifLists = 0;                                   // lists of interfaces that were not given back
      // shared libraries: path -> symbols; the address of a symbol is that of its name in here
      std::map<std::string, std::vector<std::string>> libs;
      std::map<std::string, int> libRefs;                // open handles by path
      bool closeErr = false;                             // dlclose() fails
   };
   extern EnvCfg env;

   // Another process: called at the start of every file system call of the code under test.
   extern std::function<void(const char* call)> fsOther;

   // What the C library's random number generator yields (0..RAND_MAX); otherwise the real one answers.
   extern std::function<int()> randSource;

   // What backtrace() finds on the stack of a thread (by curThread()).
   struct BtCfg { bool on; u32 tag; int depth; bool noNames; };
   extern BtCfg bt[64];

   // Runs fn in a fresh simulated process; only the file system (and the journal) survive.
   // Returns true if fn ran to its end, false if the process was crashed by the simulator.
   bool boot(const std::function<void()>& fn);
   void journal(const std::string& s);           // append a record that survives crashes (harness bookkeeping)
   std::vector<std::string> journalRead();
   void journalClear();
   [[noreturn]] void crashNow();

   //------------------------------------------------------------------ properties
   struct Prop
   {
      const char* id;
      void (*run)();
      u64 quickRuns;
      u64 thoroughRuns;
      const char* rule;          // evidence: how cases are made, what is non-trivial
      const char* measure;       // evidence: what the distinct count counts
      const char* real;          // components that ran real code
      const char* stub;          // components that were simulated
   };
   void registerProp(const Prop& p);
   struct Registrar { Registrar(const Prop& p) { registerProp(p); } };
   u64 runIndex();
   bool thorough();
}

#endif
