// Batch runner: workers, gating, minimisation, replay, evidence.
#include "internal.h"
#include <algorithm>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <set>
#include <unordered_set>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unordered_set>

using namespace sim;

namespace sim
{
   static std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
   void registerProp(const Prop& p) { props().push_back(p); }
}

static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ULL; x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x; }
static double now() { timespec t; ::clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Shared* newShared()
{
   void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if(p == MAP_FAILED) { perror("simcheck: mmap"); exit(3); }
   return (Shared*)p;
}

struct Streams
{
   std::vector<u32> s[NSTREAM];
   size_t total() const { return s[0].size() + s[1].size() + s[2].size(); }
};

static u64 propSeed(const Prop& p, u64 seed, u64 idx)
{
   u64 h = 0;
   for(const char* c = p.id; *c; c++) h = mix(h ^ (u8)*c);
   return mix(mix(h ^ mix(seed)) ^ idx);
}

static void resetShared(Shared* s)
{
   s->verbose = 0; s->replay = 0; s->thorough = 0; s->seed = 0; s->runIndex = 0;
   for(int i = 0; i < NSTREAM; i++) { s->rng[i] = 0; s->recLen[i] = s->repLen[i] = s->pos[i] = 0; }
   s->status = 0; s->bootStatus = 0; s->cls[0] = s->msg[0] = 0;
   s->hash = s->schedHash = s->stateHash = s->steps = s->switches = s->preempts = s->simNs = s->fsCalls = s->injected = s->seq = s->heapTop = 0;
   s->mono = 1000000000ull; s->realOff = 1700000000000000000ll;
   s->nontriv = s->overflow = s->boots = 0; s->fill = 0;
   memset(s->probes, 0, sizeof s->probes); memset(s->faultc, 0, sizeof s->faultc);
   s->logPos = s->journalLen = s->fsLen = 0;
}

// Runs one case in a forked process and fills *s.
static void execRun(Shared* s, const Prop& p, u64 seed, u64 idx, bool thorough, const Streams* rep, bool verbose)
{
   resetShared(s);
   s->verbose = verbose; s->thorough = thorough; s->seed = seed; s->runIndex = idx;
   u64 ps = propSeed(p, seed, idx);
   for(int i = 0; i < NSTREAM; i++) s->rng[i] = mix(ps + i * 7919);
   if(rep)
   {
      s->replay = 1;
      for(int i = 0; i < NSTREAM; i++)
      {
         s->repLen[i] = (u32)std::min<size_t>(rep->s[i].size(), CAPS);
         memcpy(s->rep[i], rep->s[i].data(), s->repLen[i] * 4);
      }
   }
   fflush(stdout); fflush(stderr);
   pid_t pid = fork();
   if(pid < 0) { perror("simcheck: fork"); exit(3); }
   if(pid == 0)
   {
      int n = (int)syscall(257 /*openat*/, AT_FDCWD, "/dev/null", O_RDWR);
      if(n >= 0) { dup2(n, 1); if(!getenv("SIM_STDERR")) dup2(n, 2); }
      sim::sh = s;
      runBody(p.run);
   }
   int st;
   while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
   if(s->status == ST_RUNNING)
   {
      s->status = ST_FAIL;
      if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF)) { strcpy(s->cls, "hang"); strcpy(s->msg, "the run did not finish"); s->hash = 0; }
      else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { s->status = ST_SKIP; strcpy(s->cls, "killed"); strcpy(s->msg, "killed from outside (memory)"); }
      else { strcpy(s->cls, "process-exit"); snprintf(s->msg, sizeof s->msg, "the process ended by itself (status %x)", st); }
   }
   if(!strcmp(s->cls, "hang")) s->hash = 0;            // where the watchdog caught it is not part of the run
   s->simNs = s->mono + s->steps * 5 - 1000000000ull;
}

static Streams recorded(const Shared* s)
{
   Streams r;
   for(int i = 0; i < NSTREAM; i++) r.s[i].assign(s->rec[i], s->rec[i] + s->recLen[i]);
   return r;
}

//---------------------------------------------------------------------- known findings
struct Known { std::string prop, cls, match, text; };
static std::vector<Known> loadKnown(const char* path)
{
   // finding: property=<id> class=<class> match=<substring> :: <description>
   std::vector<Known> v;
   FILE* f = fopen(path, "r");
   if(!f) return v;
   char line[4096];
   while(fgets(line, sizeof line, f))
   {
      std::string s = line;
      while(!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
      if(s.compare(0, 8, "finding:") != 0) continue;
      Known k;
      size_t d = s.find(" :: ");
      if(d == std::string::npos) continue;
      k.text = s.substr(d + 4);
      std::string h = s.substr(0, d);
      size_t a = h.find("property="), b = h.find(" class="), c = h.find(" match=");
      if(a == std::string::npos || b == std::string::npos || c == std::string::npos) continue;
      k.prop = h.substr(a + 9, b - a - 9);
      k.cls = h.substr(b + 7, c - b - 7);
      k.match = h.substr(c + 7);
      v.push_back(k);
   }
   fclose(f);
   return v;
}
static bool isKnown(const std::vector<Known>& ks, const Prop& p, const Shared* s)
{
   for(auto& k : ks) if(k.prop == p.id && k.cls == s->cls && strstr(s->msg, k.match.c_str())) return true;
   return false;
}

//---------------------------------------------------------------------- minimisation
struct Shrinker
{
   Shared* s; const Prop& p; u64 seed, idx; bool thorough; std::string cls; const std::vector<Known>& known;
   Streams best; int runs = 0; double until;
   bool same(const Streams& c)
   {
      if(runs > 4000 || now() > until) return false;
      runs++;
      execRun(s, p, seed, idx, thorough, &c, false);
      if(s->status != ST_FAIL || cls != s->cls || isKnown(known, p, s)) return false;
      Streams r = recorded(s);
      // only what was really consumed
      for(int i = 0; i < NSTREAM; i++) if(r.s[i].size() > c.s[i].size()) { r.s[i].resize(c.s[i].size()); }
      for(int i = 0; i < NSTREAM; i++) while(!r.s[i].empty() && r.s[i].back() == 0) r.s[i].pop_back();
      best = r;
      return true;
   }
   void run()
   {
      bool progress = true;
      { Streams c = best; same(c); }
      for(int round = 0; progress && round < 6; round++)
      {
         size_t before = best.total(); u64 bsum = sum();
         for(int st : {SF, SS, SW})
         {
            // drop everything at once, then halves, then smaller chunks
            for(size_t chunk = std::max<size_t>(best.s[st].size(), 1); chunk >= 1; chunk /= 2)
            {
               for(size_t i = 0; i < best.s[st].size();)
               {
                  if(now() > until || runs > 4000) return;
                  Streams c = best;
                  size_t e = std::min(i + chunk, c.s[st].size());
                  c.s[st].erase(c.s[st].begin() + i, c.s[st].begin() + e);
                  if(same(c)) continue;
                  bool nz = false;
                  c = best;
                  for(size_t k = i; k < e && k < c.s[st].size(); k++) if(c.s[st][k]) { nz = true; c.s[st][k] = 0; }
                  if(nz && same(c)) { i += chunk; continue; }
                  i += chunk;
               }
               if(chunk == 1) break;
            }
            for(size_t i = 0; i < best.s[st].size(); i++)
            {
               for(int tries = 0; tries < 12 && i < best.s[st].size(); tries++)
               {
                  if(now() > until || runs > 4000) return;
                  u32 v = best.s[st][i];
                  if(v == 0) break;
                  Streams c = best; c.s[st][i] = v / 2;
                  if(same(c)) continue;
                  c = best; c.s[st][i] = v - 1;
                  if(!same(c)) break;
               }
            }
         }
         progress = best.total() < before || sum() < bsum;
      }
   }
   u64 sum() { u64 t = 0; for(auto& v : best.s) for(u32 x : v) t += x; return t; }
};

//---------------------------------------------------------------------- replay files
static void writeReplay(const std::string& path, const Prop& p, u64 seed, u64 idx, bool thorough, const Streams& st, const Shared* s)
{
   FILE* f = fopen(path.c_str(), "w");
   if(!f) { perror("simcheck: replay file"); exit(3); }
   fprintf(f, "simcheck-replay 1\nproperty %s\nseed %llu\nrun %llu\nthorough %d\nclass %s\nhash %016llx\n", p.id, (unsigned long long)seed, (unsigned long long)idx, thorough ? 1 : 0, s->cls, (unsigned long long)s->hash);
   static const char* nm[] = {"workload", "schedule", "fault"};
   for(int i = 0; i < NSTREAM; i++)
   {
      fprintf(f, "%s %zu", nm[i], st.s[i].size());
      for(u32 v : st.s[i]) fprintf(f, " %u", v);
      fprintf(f, "\n");
   }
   fprintf(f, "# violation: %s\n# events of the minimised run:\n", s->msg);
   std::string l(s->logBuf, s->logPos);
   size_t a = 0;
   while(a < l.size()) { size_t e = l.find('\n', a); if(e == std::string::npos) e = l.size(); fprintf(f, "#   %s\n", l.substr(a, e - a).c_str()); a = e + 1; }
   fclose(f);
}
struct Replay { std::string prop, cls; u64 seed = 0, idx = 0, hash = 0; bool thorough = false; Streams st; };
static bool readReplay(const char* path, Replay& r)
{
   FILE* f = fopen(path, "r");
   if(!f) return false;
   char w[128], v[256];
   if(fscanf(f, "%127s %127s", w, v) != 2 || strcmp(w, "simcheck-replay")) { fclose(f); return false; }
   while(fscanf(f, "%127s", w) == 1)
   {
      std::string k = w;
      if(k == "#") break;
      int si = k == "workload" ? 0 : k == "schedule" ? 1 : k == "fault" ? 2 : -1;
      if(si >= 0) { size_t n; if(fscanf(f, "%zu", &n) != 1) break; r.st.s[si].resize(n); for(size_t i = 0; i < n; i++) if(fscanf(f, "%u", &r.st.s[si][i]) != 1) { fclose(f); return false; } }
      else
      {
         if(fscanf(f, "%255s", v) != 1) break;
         if(k == "property") r.prop = v; else if(k == "class") r.cls = v; else if(k == "seed") r.seed = strtoull(v, 0, 10);
         else if(k == "run") r.idx = strtoull(v, 0, 10); else if(k == "thorough") r.thorough = atoi(v); else if(k == "hash") r.hash = strtoull(v, 0, 16);
      }
   }
   fclose(f);
   return true;
}

//---------------------------------------------------------------------- aggregation
struct Agg
{
   u64 runs, steps, switches, preempts, simNs, fsCalls, boots, skips, overflow, knownHits, heapTop, stepTop;
   Counter probes[NPROBE], faultc[NPROBE], skipc[NPROBE];
};
static void addCounter(Counter* c, const char* name, u64 n)
{
   for(int i = 0; i < NPROBE; i++)
   {
      if(c[i].name[0] == 0) { strncpy(c[i].name, name, sizeof c[i].name - 1); c[i].n = n; return; }
      if(!strncmp(c[i].name, name, sizeof c[i].name - 1)) { c[i].n += n; return; }
   }
}
struct Global
{
   std::atomic<u64> minFail;          // smallest failing run index so far
   std::atomic<u32> nFails;           // failing run indices, in order of discovery
   u64 fails[256];
   u64 knownSeen[64];
};

static std::string jesc(const std::string& s)
{
   std::string o;
   for(unsigned char c : s)
   {
      if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
      else if(c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += (char)c;
   }
   return o;
}

static const Prop* findProp(const std::string& id) { for(auto& p : props()) if(id == p.id) return &p; return nullptr; }

static std::string g_self;
static int freshReplay(const std::string& file, std::string& out)
{
   std::string cmd = "'" + g_self + "' --replay '" + file + "' --quiet 2>/dev/null";
   FILE* f = popen(cmd.c_str(), "r");
   if(!f) return -1;
   char b[4096]; size_t n;
   while((n = REAL(fread)(b, 1, sizeof b, f)) > 0) out.append(b, n);
   int st = pclose(f);
   return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}

static std::string sampleOf(const Shared* s, u64 idx)
{
   std::string l(s->logBuf, std::min<u32>(s->logPos, 1400));
   char b[200];
   snprintf(b, sizeof b, "run %llu: %llu steps, %llu switches, %llu preemptions, %llu faults; events: ", (unsigned long long)idx, (unsigned long long)s->steps, (unsigned long long)s->switches, (unsigned long long)s->preempts, (unsigned long long)s->injected);
   for(char& c : l) if(c == '\n') c = '|';
   return b + l;
}

int main(int argc, char** argv)
{
   // The environment is part of the simulated machine
   {
      const char* e = getenv("SIM_STDERR"); std::string keep = e ? e : "";
      clearenv();
      setenv("PATH", "/usr/bin:/bin", 1); setenv("LANG", "C.UTF-8", 1); setenv("HOME", "/home/u", 1); setenv("USER", "u", 1);
      if(e) setenv("SIM_STDERR", keep.c_str(), 1);
   }
   std::string prop, tier = "quick", evidence, replayDir = ".", known, replay;
   u64 seed = 1; i64 single = -1, nruns = -1; int jobs = 0; double cap = 0; bool quiet = false, verbose = false; int determinism = 0;
   for(int i = 1; i < argc; i++)
   {
      std::string a = argv[i];
      auto nx = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
      if(a == "--property") prop = nx(); else if(a == "--tier") tier = nx(); else if(a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
      else if(a == "--evidence") evidence = nx(); else if(a == "--replay-dir") replayDir = nx(); else if(a == "--known") known = nx();
      else if(a == "--replay") replay = nx(); else if(a == "--run") single = atoll(nx().c_str()); else if(a == "--runs") nruns = atoll(nx().c_str());
      else if(a == "--jobs") jobs = atoi(nx().c_str()); else if(a == "--cap") cap = atof(nx().c_str()); else if(a == "--quiet") quiet = true; else if(a == "-v") verbose = true;
      else if(a == "--determinism") determinism = atoi(nx().c_str());
      else if(a == "--list") { for(auto& p : props()) printf("%s\n", p.id); return 0; }
      else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
   }
   char selfb[4096]; ssize_t sl = ::readlink("/proc/self/exe", selfb, sizeof selfb - 1);
   g_self = sl > 0 ? std::string(selfb, sl) : argv[0];
   initProcess();
   Shared* s = newShared();

   if(!replay.empty())
   {
      Replay r;
      if(!readReplay(replay.c_str(), r)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; }
      const Prop* p = findProp(r.prop);
      if(!p) { fprintf(stderr, "unknown property %s\n", r.prop.c_str()); return 3; }
      execRun(s, *p, r.seed, r.idx, r.thorough, &r.st, true);
      if(!quiet) { fwrite(s->logBuf, 1, s->logPos, stdout); }
      if(s->status != ST_FAIL) { printf("replay: property %s held (%s)\n", r.prop.c_str(), s->status == ST_OK ? "ok" : s->cls); return 0; }
      printf("class %s\nhash %016llx\nmessage %s\n", s->cls, (unsigned long long)s->hash, s->msg);
      if(!quiet) printf("%s\nVIOLATION property=%s replay=%s\n", r.cls == s->cls && r.hash == s->hash ? "reproduced exactly" : "fails, but differently from the recorded run", r.prop.c_str(), replay.c_str());
      return 1;
   }

   const Prop* p = findProp(prop);
   if(!p) { fprintf(stderr, "unknown property '%s'\n", prop.c_str()); return 3; }
   bool thorough = tier == "thorough";
   if(single >= 0)
   {
      execRun(s, *p, seed, single, thorough, nullptr, true);
      fwrite(s->logBuf, 1, s->logPos, stdout);
      printf("status %d class %s msg %s\nhash %016llx steps %llu switches %llu preempts %llu simms %llu choices %u/%u/%u\n", s->status, s->cls, s->msg, (unsigned long long)s->hash, (unsigned long long)s->steps, (unsigned long long)s->switches, (unsigned long long)s->preempts, (unsigned long long)s->simNs / 1000000, s->recLen[0], s->recLen[1], s->recLen[2]);
      for(auto& c : s->probes) if(c.name[0]) printf("probe %s %llu\n", c.name, (unsigned long long)c.n);
      for(auto& c : s->faultc) if(c.name[0]) printf("fault %s %llu\n", c.name, (unsigned long long)c.n);
      return s->status == ST_FAIL ? 1 : 0;
   }

   u64 total = nruns >= 0 ? (u64)nruns : thorough ? p->thoroughRuns : p->quickRuns;
   if(cap == 0) cap = thorough ? 600 : 200;
   if(jobs == 0) { jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); if(jobs < 1) jobs = 1; if(jobs > 16) jobs = 16; }

   if(determinism)
   {
      // Prints one hash per run: the driver diffs the output of several invocations.
      for(u64 i = 0; i < (u64)determinism; i++)
      {
         execRun(s, *p, seed, i, thorough, nullptr, false);
         u64 h = s->hash; int st = s->status;
         std::string cls = s->cls;
         Streams r = recorded(s);
         execRun(s, *p, seed, i, thorough, &r, false);
         printf("%llu %016llx %d %s %s\n", (unsigned long long)i, (unsigned long long)h, st, cls.c_str(), s->hash == h ? "replay-same" : "REPLAY-DIFFERS");
      }
      return 0;
   }

   std::vector<Known> kn = known.empty() ? std::vector<Known>() : loadKnown(known.c_str());
   double t0 = now();
   Agg* agg = (Agg*)mmap(nullptr, sizeof(Agg) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   Global* gl = (Global*)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   u64* sig = (u64*)mmap(nullptr, total * 16 + 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   gl->minFail = ~0ull;
   std::vector<pid_t> kids;
   for(int w = 0; w < jobs; w++)
   {
      fflush(stdout);
      pid_t pid = fork();
      if(pid < 0) { perror("fork"); return 3; }
      if(pid == 0)
      {
         Shared* ws = newShared();
         Agg& a = agg[w];
         for(u64 i = w; i < total; i += jobs)
         {
            if(i > gl->minFail.load() || now() - t0 > cap) break;
            execRun(ws, *p, seed, i, thorough, nullptr, false);
            a.runs++; a.steps += ws->steps; a.switches += ws->switches; a.preempts += ws->preempts; a.simNs += ws->simNs; a.fsCalls += ws->fsCalls; a.boots += ws->boots; a.overflow += ws->overflow; a.heapTop = std::max(a.heapTop, ws->heapTop); a.stepTop = std::max(a.stepTop, ws->steps);
            for(auto& c : ws->probes) if(c.name[0]) addCounter(a.probes, c.name, c.n);
            for(auto& c : ws->faultc) if(c.name[0]) addCounter(a.faultc, c.name, c.n);
            if(ws->status == ST_SKIP) { a.skips++; addCounter(a.skipc, ws->cls, 1); }
            if(ws->nontriv && ws->status != ST_SKIP) sig[i * 2] = mix(ws->schedHash ^ mix(ws->stateHash)) | 1;
            if(ws->status == ST_FAIL)
            {
               if(isKnown(kn, *p, ws)) { a.knownHits++; for(size_t k = 0; k < kn.size() && k < 64; k++) if(kn[k].prop == p->id && kn[k].cls == ws->cls && strstr(ws->msg, kn[k].match.c_str())) __atomic_fetch_add(&gl->knownSeen[k], 1, __ATOMIC_SEQ_CST); continue; }
               u32 slot = gl->nFails.fetch_add(1);
               if(slot < 256) gl->fails[slot] = i;
               u64 m = gl->minFail.load();
               while(i < m && !gl->minFail.compare_exchange_weak(m, i)) {}
               break;
            }
         }
         _exit(0);
      }
      kids.push_back(pid);
   }
   bool workerBroken = false;
   for(pid_t k : kids) { int st; while(waitpid(k, &st, 0) < 0 && errno == EINTR) {} if(!WIFEXITED(st) || WEXITSTATUS(st)) workerBroken = true; }
   double wall = now() - t0;

   Agg t; memset(&t, 0, sizeof t);
   for(int w = 0; w < jobs; w++)
   {
      Agg& a = agg[w];
      t.runs += a.runs; t.steps += a.steps; t.switches += a.switches; t.preempts += a.preempts; t.simNs += a.simNs; t.fsCalls += a.fsCalls; t.boots += a.boots; t.skips += a.skips; t.overflow += a.overflow; t.knownHits += a.knownHits; t.heapTop = std::max(t.heapTop, a.heapTop); t.stepTop = std::max(t.stepTop, a.stepTop);
      for(auto& c : a.probes) if(c.name[0]) addCounter(t.probes, c.name, c.n);
      for(auto& c : a.faultc) if(c.name[0]) addCounter(t.faultc, c.name, c.n);
      for(auto& c : a.skipc) if(c.name[0]) addCounter(t.skipc, c.name, c.n);
   }
   std::unordered_set<u64> distinct;
   u64 nontriv = 0;
   for(u64 i = 0; i < total; i++) if(sig[i * 2]) { nontriv++; distinct.insert(sig[i * 2]); }

   int rc = 0; u64 viol = 0; std::string violLine, violMsg;
   std::vector<u64> cand(gl->fails, gl->fails + std::min<u32>(gl->nFails.load(), 256));
   std::sort(cand.begin(), cand.end());
   for(size_t ci = 0; ci < cand.size() && viol == 0 && now() - t0 < cap + 300; ci++)
   {
      u64 idx = cand[ci];
      // gate 1: the same seed gives the same run
      execRun(s, *p, seed, idx, thorough, nullptr, false);
      u64 h1 = s->hash; std::string c1 = s->cls; int st1 = s->status;
      Streams st = recorded(s);
      execRun(s, *p, seed, idx, thorough, nullptr, false);
      if(st1 != ST_FAIL || s->status != ST_FAIL || s->hash != h1 || c1 != s->cls) { fprintf(stderr, "simcheck: run %llu failed once but does not repeat: %s / %s\n", (unsigned long long)idx, c1.c_str(), s->cls); rc = 3; continue; }
      // gate 2: replaying the recorded choices gives the same failure
      execRun(s, *p, seed, idx, thorough, &st, false);
      if(s->status != ST_FAIL || c1 != s->cls) { fprintf(stderr, "simcheck: run %llu (%s) is not reproduced by its recorded choices (%s)\n", (unsigned long long)idx, c1.c_str(), s->cls); rc = 3; continue; }
      Shrinker sk{s, *p, seed, idx, thorough, c1, kn, st, 0, now() + 40};
      sk.run();
      char nm[200]; snprintf(nm, sizeof nm, "%s/%s-seed%llu-run%llu.replay", replayDir.c_str(), p->id, (unsigned long long)seed, (unsigned long long)idx);
      // gate 3: a fresh process reproduces it (the minimised run or, failing that, the run as found)
      for(int attempt = 0; attempt < 2 && viol == 0; attempt++)
      {
         Streams& use = attempt ? st : sk.best;
         execRun(s, *p, seed, idx, thorough, &use, true);
         if(s->status != ST_FAIL || c1 != s->cls) continue;
         u64 h = s->hash; std::string c = s->cls; violMsg = s->msg;
         writeReplay(nm, *p, seed, idx, thorough, use, s);
         std::string out; int r = freshReplay(nm, out);
         char want[64]; snprintf(want, sizeof want, "hash %016llx", (unsigned long long)h);
         if(r != 1 || out.find("class " + c + "\n") == std::string::npos || out.find(want) == std::string::npos)
         { fprintf(stderr, "simcheck: fresh-process replay of %s differs (exit %d): %s\n", nm, r, out.c_str()); rc = 3; continue; }
         rc = 1; viol = 1;
         violLine = std::string("VIOLATION property=") + p->id + " replay=" + nm;
         printf("violation of %s (%s): %s\n", p->id, c.c_str(), violMsg.c_str());
         printf("minimised to %zu workload, %zu schedule, %zu fault choices in %d runs\n", use.s[0].size(), use.s[1].size(), use.s[2].size(), sk.runs);
      }
   }
   if(rc == 0 && workerBroken) { fprintf(stderr, "simcheck: a worker died\n"); rc = 3; }
   if(rc == 0 && t.runs == 0) { fprintf(stderr, "simcheck: nothing was run\n"); rc = 3; }
   if(rc == 0 && t.skips * 2 > t.runs) { fprintf(stderr, "simcheck: %llu of %llu runs were inconclusive\n", (unsigned long long)t.skips, (unsigned long long)t.runs); rc = 3; }

   for(size_t k = 0; k < kn.size() && k < 64; k++) if(kn[k].prop == p->id) printf("KNOWN-FINDING: property=%s %s (seen in %llu runs)\n", p->id, kn[k].text.c_str(), (unsigned long long)gl->knownSeen[k]);

   if(!evidence.empty())
   {
      std::vector<std::string> samples;
      for(u64 i = 0; i < 400 && samples.size() < 3 && i < total; i++)
         if(sig[i * 2] || total < 5) { execRun(s, *p, seed, i, thorough, nullptr, true); samples.push_back(sampleOf(s, i)); i += 37; }
      if(samples.empty()) { execRun(s, *p, seed, 0, thorough, nullptr, true); samples.push_back(sampleOf(s, 0)); }
      FILE* f = fopen(evidence.c_str(), "w");
      if(!f) { perror("simcheck: evidence"); return 3; }
      fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", p->id, tier.c_str(), (unsigned long long)seed);
      fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": \"%s\",\n", (unsigned long long)t.runs, (unsigned long long)distinct.size(), jesc(p->rule).c_str());
      fprintf(f, "  \"samples\": [");
      for(size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\n   \"%s\"", i ? "," : "", jesc(samples[i]).c_str());
      fprintf(f, "],\n  \"simulated_runs\": %llu,\n  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.3f,\n", (unsigned long long)t.runs, t.runs / (wall > 0 ? wall : 1) * 3600, t.runs / (wall > 0 ? wall : 1) * 3600, t.simNs * 1e-9);
      fprintf(f, "  \"simulated_seconds_per_wall_second\": %.3f,\n  \"nontrivial_runs\": %llu,\n  \"distinct_measure\": \"%s\",\n", t.simNs * 1e-9 / (wall > 0 ? wall : 1), (unsigned long long)nontriv, jesc(p->measure).c_str());
      fprintf(f, "  \"instrumented_steps\": %llu,\n  \"context_switches\": %llu,\n  \"forced_preemptions\": %llu,\n  \"file_system_calls\": %llu,\n  \"simulated_process_starts\": %llu,\n  \"heap_peak_bytes\": %llu,\n  \"longest_run_steps\": %llu,\n  \"inconclusive_runs\": %llu,\n  \"known_finding_runs\": %llu,\n", (unsigned long long)t.steps, (unsigned long long)t.switches, (unsigned long long)t.preempts, (unsigned long long)t.fsCalls, (unsigned long long)t.boots, (unsigned long long)t.heapTop, (unsigned long long)t.stepTop, (unsigned long long)t.skips, (unsigned long long)t.knownHits);
      auto table = [&](const char* nm, Counter* c) { fprintf(f, "  \"%s\": {", nm); bool first = true; for(int i = 0; i < NPROBE; i++) if(c[i].name[0]) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(c[i].name).c_str(), (unsigned long long)c[i].n); first = false; } fprintf(f, "},\n"); };
      table("faults_injected", t.faultc); table("probes", t.probes); table("inconclusive_reasons", t.skipc);
      fprintf(f, "  \"components_real\": \"%s\",\n  \"components_simulated\": \"%s\"\n },\n", jesc(p->real).c_str(), jesc(p->stub).c_str());
      fprintf(f, " \"assumptions\": [\"sequentially consistent memory: one simulated thread runs at a time\", \"allocation never fails\", \"the kernel behaves as the simulated file system, clock and pthread model describe\"],\n");
      fprintf(f, " \"wall_s\": %.3f,\n \"violations\": %llu\n}\n", now() - t0, (unsigned long long)viol);
      fclose(f);
   }
   if(!quiet)
   {
      printf("%s %s: %llu runs in %.1f s, %llu distinct non-trivial, %.0f simulated s, %llu preemptions, %llu fs calls, %llu inconclusive\n", p->id, tier.c_str(), (unsigned long long)t.runs, wall, (unsigned long long)distinct.size(), t.simNs * 1e-9, (unsigned long long)t.preempts, (unsigned long long)t.fsCalls, (unsigned long long)t.skips);
      if(verbose) { for(auto& c : t.probes) if(c.name[0]) printf("  probe %s %llu\n", c.name, (unsigned long long)c.n); for(auto& c : t.faultc) if(c.name[0]) printf("  fault %s %llu\n", c.name, (unsigned long long)c.n); for(auto& c : t.skipc) if(c.name[0]) printf("  skip %s %llu\n", c.name, (unsigned long long)c.n); }
   }
   if(rc == 1) printf("%s\n", violLine.c_str());
   return rc;
}
