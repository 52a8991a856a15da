// C29: random numbers keep to the range that was asked for, whatever the generator yields.
#include "common.h"
#include <climits>
#include <cmath>
#include <cstdlib>
using namespace jm;

namespace
{
   u64 state; u32 burst;      // the generator of the simulated machine
   int next()
   {
      // now and then a value from the edge, or the same one again and again
      if(burst && F(burst) == 1)
      {
         fault("extreme_random");
         static const int e[] = {0, RAND_MAX, 1, RAND_MAX - 1, 1 << 16, 0xFFFF, 1 << 30, 9999, 10000, 10001};
         return e[F(10)];
      }
      state = state * 6364136223846793005ull + 1442695040888963407ull;
      u64 x = state ^ state >> 29; x *= 0xbf58476d1ce4e5b9ull;
      return (int)(x >> 33);
   }
   void source(u32 edge) { state = W64() ^ W(1 << 30); burst = edge; randSource = next; }

   int32 edge32()
   {
      static const int32 e[] = {0, 1, -1, 2, 100, -100, 10000, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, -(1 << 30), 65535, 65536, -32768};
      return W(2) ? e[W(16)] : (int32)(W(2001)) - 1000;
   }
   void range(int32& lo, int32& hi) { lo = edge32(); hi = W(3) ? edge32() : (int32)std::min<i64>(INT_MAX, (i64)lo + W(9)); if(lo > hi) std::swap(lo, hi); }

   void calls(u32 n)
   {
      for(u32 i = 0; i < n; i++)
      {
         switch(W(3))
         {
            case 0:
            {
               int32 lo, hi; range(lo, hi);
               int32 v = jm::random(lo, hi);
               NoPreempt np;
               log("random(%d, %d) -> %d", lo, hi, v);
               if(v < lo || v > hi) fail("range", "random(%d, %d) is %d", lo, hi, v);
               if((i64)hi - lo > INT_MAX) probe("wide_range");
               break;
            }
            case 1:
            {
               double d = jm::random();
               NoPreempt np;
               if(!(d >= 0 && d <= 1)) fail("range", "random() is %.17g", d);
               break;
            }
            default:
            {
               static const double p[] = {0, 1, 0, 1, 0.5, 0.25, 0.9999, 0.0001};
               double q = p[W(8)];
               bool b = probability(q);
               NoPreempt np;
               log("probability(%g) -> %d", q, b);
               if(q == 0 && b) fail("probability", "what never happens has happened: probability(0)");
               if(q == 1 && !b) fail("probability", "what always happens has not happened: probability(1)");
            }
         }
      }
   }

   // a generator that treats all numbers alike: every value of the range has its share
   void shares()
   {
      source(0);
      const u32 n = 400;
      auto share = [&](const char* what, u32 hits, double p)
      {
         double want = n * p, dev = 8 * sqrt(n * p * (1 - p)) + n * 0.0003 + 1;
         if(fabs(hits - want) > dev) fail("share", "%s: %u of %u, expected %.1f", what, hits, n, want);
      };
      switch(W(3))
      {
         case 0:
         {
            u32 k = 1 + W(8); int32 lo = edge32(); if((i64)lo + k - 1 > INT_MAX) lo = INT_MAX - (int32)k + 1;
            std::vector<u32> c(k);
            for(u32 i = 0; i < n; i++) { int32 v = jm::random(lo, lo + (int32)k - 1); if(v < lo || (i64)v > (i64)lo + k - 1) fail("range", "random(%d, %d) is %d", lo, lo + (int32)k - 1, v); c[(u32)(v - lo)]++; }
            for(u32 i = 0; i < k; i++) { log("%d: %u", lo + (int32)i, c[i]); char b[60]; snprintf(b, sizeof b, "%d out of %d..%d", lo + (int32)i, lo, lo + (int32)k - 1); share(b, c[i], 1.0 / k); }
            probe("shares_of_a_small_range");
            break;
         }
         case 1:
         {
            int32 lo = edge32(), hi = edge32(); if(lo > hi) std::swap(lo, hi);
            if((i64)hi - lo < 1000) { lo = INT_MIN; hi = INT_MAX; }
            u32 c[4] = {0, 0, 0, 0};
            bool whole = W(3) == 2;
            double a = lo, w = (double)hi - lo + 1;
            for(u32 i = 0; i < n; i++) { double x = whole ? jm::random() : (jm::random(lo, hi) - a) / w; if(!(x >= 0 && x <= 1)) fail("range", "random(%d, %d) is out of range", lo, hi); c[std::min(3, (int)(x * 4))]++; }
            for(u32 i = 0; i < 4; i++) { log("quarter %u: %u", i, c[i]); char b[80]; snprintf(b, sizeof b, whole ? "quarter %u of random()" : "quarter %u of %d..%d", i, lo, hi); share(b, c[i], 0.25 + (whole ? 0 : 0.003 * (w < 2000))); }
            probe("quarters_of_a_large_range");
            break;
         }
         default:
         {
            double p = W(1001) / 1000.0; u32 h = 0;
            for(u32 i = 0; i < n; i++) h += probability(p);
            log("probability(%g): %u", p, h);
            char b[60]; snprintf(b, sizeof b, "probability(%g)", p); share(b, h, p);
            probe("shares_of_a_probability");
         }
      }
   }

   void run()
   {
      setStepCap(20000000);
      initLib();
      nontrivial();
      u32 k = W(3);
      if(k == 0) { shares(); return; }
      static const u32 how[] = {3, 8, 40, 2};
      source(how[W(4)]);
      if(k == 1) { calls(1 + W(30)); return; }
      u32 nt = 2 + W(3);
      schedConfig(2);
      for(u32 i = 0; i < nt; i++) { char nm[16]; snprintf(nm, sizeof nm, "gambler%u", i); u32 n = 1 + W(6); spawn(nm, [n] { calls(n); }); }
      joinAll();
   }

   Registrar r29({"C29", run, 60000, 1000000,
      "1-4 threads that ask for random numbers of ranges between one value and all of them, of unit size and for decisions with given probabilities, from a generator that is even or yields 0, RAND_MAX and other edges; ranges and impossible and certain decisions are judged call by call, shares over 400 calls with an even generator.",
      "distinct executions (hash over schedule, workload, generator values and outcomes)",
      "Math (random numbers; instrumented build)", "random number generator of the C library, thread scheduler"});
}
