// C16: archives written and read back; C17: damaged archives; C18: compressed data in storage.
#include "common.h"
#include <zlib.h>
#include <algorithm>
#include "../sim/internal.h"
using namespace jm;

// zlib, which Deflater uses: the streams it holds open, and a zlib that has no memory or fails.
static int zStreams = 0, zFail = 0;
extern "C"
{
   int deflateInit_(z_streamp s, int level, const char* v, int n)
   {
      if(zFail == 1) { sim::fault("zlib_no_memory"); return Z_MEM_ERROR; }
      int r = REAL(deflateInit_)(s, level, v, n); zStreams += r == Z_OK; return r;
   }
   int deflateInit2_(z_streamp s, int level, int m, int w, int mem, int st, const char* v, int n)
   {
      if(zFail == 1) { sim::fault("zlib_no_memory"); return Z_MEM_ERROR; }
      int r = REAL(deflateInit2_)(s, level, m, w, mem, st, v, n); zStreams += r == Z_OK; return r;
   }
   int deflate(z_streamp s, int f)
   {
      if(zFail == 2) { sim::fault("zlib_error"); return Z_STREAM_ERROR; }
      return REAL(deflate)(s, f);
   }
   int deflateEnd(z_streamp s) { int r = REAL(deflateEnd)(s); if(r != Z_STREAM_ERROR) zStreams--; return r; }
}

namespace
{
   struct Rng { u64 x; explicit Rng(u32 s): x(s * 0x9e3779b97f4a7c15ULL + 77) {} u32 operator()(u32 n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (u32)((x >> 24) % n); } };

   //------------------------------------------------------------------ an independent writer of DEFLATE data
   const uint16_t LBASE[29] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
   const u8 LEXT[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
   const uint16_t DBASE[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
   const u8 DEXT[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};

   struct Bits
   {
      std::string o; u32 n = 0;
      void put(u32 v, u32 c) { for(u32 i = 0; i < c; i++) { if(n == 0) o += '\0'; if(v >> i & 1) o.back() = (char)(o.back() | 1 << n); n = (n + 1) & 7; } }
      void huff(u32 code, u32 c) { for(u32 i = c; i-- > 0;) put(code >> i & 1, 1); }
      void align() { n = 0; }
   };
   // canonical codes for the given lengths
   std::vector<u32> canon(const std::vector<u8>& l)
   {
      u32 cnt[17] = {0}, next[17] = {0}, code = 0;
      for(u8 x : l) if(x) cnt[x]++;
      for(int b = 1; b <= 15; b++) { code = (code + cnt[b - 1]) << 1; next[b] = code; }
      std::vector<u32> c(l.size());
      for(size_t i = 0; i < l.size(); i++) if(l[i]) c[i] = next[l[i]]++;
      return c;
   }
   // random complete code for the symbols in `used`
   std::vector<u8> randomLengths(Rng& r, const std::vector<u32>& used, size_t n, u32 maxBits)
   {
      std::vector<u8> l(n, 0);
      if(used.empty()) return l;
      if(used.size() == 1) { l[used[0]] = 1; return l; }
      std::vector<u8> d(1, 0);
      bool skew = r(3) == 0;
      while(d.size() < used.size())
      {
         size_t i = skew ? d.size() - 1 : r((u32)d.size());
         for(u32 k = 0; d[i] >= maxBits && k < d.size(); k++) i = (i + 1) % d.size();
         // a leaf at maximum depth cannot be split; there is always another one
         d[i]++; d.insert(d.begin() + (long)i + 1, d[i]);
      }
      for(size_t i = d.size(); i > 1; i--) std::swap(d[i - 1], d[r((u32)i)]);
      for(size_t i = 0; i < used.size(); i++) l[used[i]] = d[i];
      return l;
   }
   struct Tok { int lit; u32 len, dist; };
   u32 lenSym(u32 len) { for(u32 i = 28;; i--) if(LBASE[i] <= len && (i != 27 || len < 258)) return i; }
   u32 distSym(u32 d) { for(u32 i = 29;; i--) if(DBASE[i] <= d) return i; }

   // random valid DEFLATE stream; its contents go to plain
   std::string craft(std::string& plain)
   {
      Bits b;
      u32 blocks = 1 + Wlen(4);
      for(u32 k = 0; k < blocks; k++)
      {
         Rng r(W(1 << 16));
         u32 type = W(3), n = Wlen(W(16) == 15 ? 400 : 60), mode = W(4);
         bool last = k + 1 == blocks;
         b.put(last, 1); b.put(type, 2);
         if(type == 0)
         {
            std::string s = genBytes(n, r(5), r(1000));
            b.align();
            u32 l = (u32)s.size();
            b.o += (char)(l & 255); b.o += (char)(l >> 8); b.o += (char)(~l & 255); b.o += (char)(~l >> 8 & 255);
            b.o += s; plain += s;
            probe("block_stored");
            continue;
         }
         std::vector<Tok> t;
         for(u32 i = 0; i < n; i++)
         {
            if(plain.empty() || r(4) < (mode == 3 ? 0 : mode)) { Tok x{(int)(r(2) ? r(256) : 'a' + r(4)), 0, 0}; t.push_back(x); plain += (char)x.lit; continue; }
            u32 mx = (u32)std::min<size_t>(plain.size(), 32768);
            Tok x{-1, 0, 0};
            switch(r(4)) { case 0: x.len = 258; break; case 1: x.len = 3 + r(8); break; default: x.len = 3 + r(256); }
            switch(r(6)) { case 0: x.dist = 1; break; case 1: x.dist = mx; break; case 2: x.dist = mx > 1 ? mx - 1 : 1; break; case 3: x.dist = 1 + r(std::min(mx, 8u)); break; default: x.dist = 1 + r(mx); }
            t.push_back(x);
            size_t p = plain.size() - x.dist;
            for(u32 j = 0; j < x.len; j++) plain += plain[p + j];
            if(p >= 32768) probe("match_behind_32k");
         }
         std::vector<u8> ll, dl;
         if(type == 1)
         {
            ll.assign(288, 8); for(int i = 144; i < 256; i++) ll[(size_t)i] = 9; for(int i = 256; i < 280; i++) ll[(size_t)i] = 7;
            dl.assign(32, 5);
            probe("block_fixed");
         }
         else
         {
            std::set<u32> lu, du; lu.insert(256);
            for(auto& x : t) { if(x.lit >= 0) lu.insert((u32)x.lit); else { lu.insert(257 + lenSym(x.len)); du.insert(distSym(x.dist)); } }
            u32 more = r(8); for(u32 i = 0; i < more; i++) lu.insert(r(286));
            more = r(4); if(more > 1) for(u32 i = 0; i < more; i++) du.insert(r(30));
            if(du.empty()) probe("no_distances");
            if(du.size() == 1) probe("one_distance");
            u32 hl = std::max(257u, *lu.rbegin() + 1), hd = du.empty() ? 1 : *du.rbegin() + 1;
            if(r(3) == 0) hl += r(286 - hl + 1);
            if(r(3) == 0) hd += r(30 - hd + 1);
            ll = randomLengths(r, {lu.begin(), lu.end()}, hl, 15);
            dl = randomLengths(r, {du.begin(), du.end()}, hd, 15);
            std::vector<u8> seq = ll; seq.insert(seq.end(), dl.begin(), dl.end());
            struct C { u32 sym, val; }; std::vector<C> cl;
            u32 style = r(3);
            for(size_t i = 0; i < seq.size();)
            {
               size_t run = 1; while(i + run < seq.size() && seq[i + run] == seq[i]) run++;
               size_t take = 1;
               if(style && i && seq[i] == seq[i - 1] && run >= 3 && r(2)) { take = std::min<size_t>(run, 3 + r(4)); cl.push_back({16, (u32)take - 3}); }
               else if(style && seq[i] == 0 && run >= 11 && r(4)) { take = std::min<size_t>(run, r(2) ? 138 : 11 + r(128)); cl.push_back({18, (u32)take - 11}); }
               else if(style && seq[i] == 0 && run >= 3 && r(4)) { take = std::min<size_t>(run, 3 + r(8)); cl.push_back({17, (u32)take - 3}); }
               else cl.push_back({seq[i], 0});
               if(i < hl && i + take > hl) probe("repeat_across_alphabets");
               i += take;
            }
            std::set<u32> cu; for(auto& c : cl) cu.insert(c.sym);
            while(cu.size() < 2) cu.insert(r(19));
            std::vector<u8> cll = randomLengths(r, {cu.begin(), cu.end()}, 19, 7);
            static const u8 order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
            u32 hc = 19; while(hc > 4 && !cll[order[hc - 1]]) hc--;
            if(r(4) == 0) hc += r(19 - hc + 1);
            b.put(hl - 257, 5); b.put(hd - 1, 5); b.put(hc - 4, 4);
            for(u32 i = 0; i < hc; i++) b.put(cll[order[i]], 3);
            std::vector<u32> cc = canon(cll);
            for(auto& c : cl)
            {
               b.huff(cc[c.sym], cll[c.sym]);
               if(c.sym == 16) b.put(c.val, 2); else if(c.sym == 17) b.put(c.val, 3); else if(c.sym == 18) b.put(c.val, 7);
            }
            probe("block_dynamic");
         }
         std::vector<u32> lc = canon(ll), dc = canon(dl);
         for(auto& x : t)
         {
            if(x.lit >= 0) { b.huff(lc[(size_t)x.lit], ll[(size_t)x.lit]); continue; }
            u32 s = lenSym(x.len);
            b.huff(lc[257 + s], ll[257 + s]); b.put(x.len - LBASE[s], LEXT[s]);
            u32 d = distSym(x.dist);
            b.huff(dc[d], dl[d]); b.put(x.dist - DBASE[d], DEXT[d]);
         }
         b.huff(lc[256], ll[256]);
      }
      return b.o;
   }
   // zlib as another program
   std::string zdeflate(const std::string& d, bool raw)
   {
      z_stream z; memset(&z, 0, sizeof z);
      static const int strat[] = {Z_DEFAULT_STRATEGY, Z_FIXED, Z_HUFFMAN_ONLY, Z_RLE, Z_FILTERED};
      int level = (int)W(10), mem = 1 + (int)W(9), st = strat[W(5)];
      if(deflateInit2(&z, level, Z_DEFLATED, raw ? -15 : 15, mem, st) != Z_OK) fail("harness", "deflateInit2");
      std::string o(deflateBound(&z, d.size()) + 4096, 0);
      z.next_in = (Bytef*)d.data(); z.next_out = (Bytef*)&o[0]; z.avail_out = (uInt)o.size();
      u32 flushes = W(3) == 2 ? W(4) : 0;
      for(u32 i = 0; i < flushes; i++)
      {
         static const int fl[] = {Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH, Z_BLOCK};
         size_t left = d.size() - (size_t)((char*)z.next_in - d.data());
         z.avail_in = (uInt)W((u32)left + 1);
         ::deflate(&z, fl[W(4)]);
      }
      z.avail_in = (uInt)(d.size() - (size_t)((char*)z.next_in - d.data()));
      if(::deflate(&z, Z_FINISH) != Z_STREAM_END) { deflateEnd(&z); skip("zlib buffer"); }
      o.resize(z.total_out); deflateEnd(&z);
      return o;
   }
   // 1 complete, 0 incomplete, -1 damaged (why: zlib's words)
   int zinflate(const std::string& c, bool raw, std::string& out, std::string& why)
   {
      z_stream z; memset(&z, 0, sizeof z);
      inflateInit2(&z, raw ? -15 : 15);
      z.next_in = (Bytef*)c.data(); z.avail_in = (uInt)c.size();
      out.clear();
      static char buf[65536];
      int r;
      do
      {
         z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
         r = ::inflate(&z, Z_NO_FLUSH);
         out.append(buf, sizeof buf - z.avail_out);
      } while(r == Z_OK && (z.avail_in || !z.avail_out));
      why = z.msg ? z.msg : "";
      inflateEnd(&z);
      if(r == Z_STREAM_END) return 1;
      if(r == Z_NEED_DICT) { why = "dictionary"; return -1; }
      return r == Z_DATA_ERROR ? -1 : 0;
   }
   // damage as storage does it; returns what was done
   const char* damage(const std::string& path, size_t size)
   {
      if(size == 0) return nullptr;
      switch(W(5))
      {
         case 0: case 1: { u32 n = 1 + (W(2) ? 0 : W(4)); for(u32 i = 0; i < n; i++) fsFlip(path, (u64)W((u32)size) * 8 + W(8)); fault("bit_flip"); return "flipped"; }
         case 2: { std::string d = fsRead(path); d.resize(W((u32)size)); fsWrite(path, d); fault("truncated"); return "truncated"; }
         case 3: { std::string d = fsRead(path); u32 a = W((u32)size), l = 1 + Wlen(600); for(u32 i = a; i < a + l && i < size; i++) d[i] = '\0'; fsWrite(path, d); fault("lost_block"); return "zeroed"; }
         default:
         {
            std::string d = fsRead(path); u32 a = W((u32)size), l = 1 + Wlen(600), f = W((u32)size);
            std::string blk = d.substr(f, l);
            if(W(2)) d.insert(a, blk); else d.replace(a, std::min<size_t>(blk.size(), size - a), blk, 0, std::min<size_t>(blk.size(), size - a));
            fsWrite(path, d); fault("misplaced_block"); return "misplaced";
         }
      }
   }
   std::string someData()
   {
      static const u32 sz[] = {0, 1, 2, 3, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 5120, 5121};
      size_t n = W(3) == 0 ? sz[W(15)] : Wlen(2000);
      u32 kind = W(6), salt = W(1000);
      if(W(40) == 39) { n = 32000 + W(40000); if(kind == 2 || kind == 3) kind = 4; }
      if(kind < 5) return genBytes(n, kind, salt);
      std::string s = genBytes(n / 2, 2, salt); return s + s;
   }

   //------------------------------------------------------------------ C18
   std::string readAll(const std::string& path, bool& ok)
   {
      std::string d; ok = false;
      File f(J(path));
      bool t = threw([&] { if(f.open(FileMode::kRead) == Status::eOK) { i64 n = f.size(); ByteArray b(n, 0); i64 r = f.readFully(b, n); d.assign(b.constData(), (size_t)r); ok = r == n; } });
      if(t) ok = false;
      threw([&] { f.close(); });
      return d;
   }
   void checkInflate(const std::string& c, bool raw, const std::string& plain, bool intact, const char* what)
   {
      std::string ref, why;
      int z = zinflate(c, raw, ref, why);
      if(intact && (z != 1 || ref != plain)) fail("harness", "zlib does not accept the crafted data: %s", why.c_str());
      u8* in = new u8[c.size()]; memcpy(in, c.data(), c.size());
      u64 live = liveBlocks();
      u8* out = nullptr; int64 n = 0; bool t; std::string msg;
      {
         Inflater plainInf; Inflater wrapInf(raw);
         bool dflt = !raw && W(2);
         Inflater& inf = dflt ? plainInf : wrapInf;
         if(W(4) == 3) inf.Reset();
         if(W(4) == 3)
         {
            // used for something else before
            static u8 hello[] = {0x4b, 0xcb, 0x07, 0x00, 0x01, 0x46, 0x00, 0xd6};
            std::string o; u8* b2; int64 n2;
            inf.SetInput(hello, raw ? 4 : 3);
            if(!threw([&] { inf.Inflate(b2, n2); })) delete[] b2;
            bool wr = raw; inf.Reset(); (void)wr;
            probe("reused");
         }
         inf.SetInput(in, (int64)c.size());
         t = threw([&] { inf.Inflate(out, n); }, &msg);
         if(!t)
         {
            if(!inf.Finished() || inf.NeedsInput()) fail("state", "Finished() is false after a complete stream");
            if(inf.GetTotalOut() != n) fail("state", "GetTotalOut() is %lld after %lld bytes", (long long)inf.GetTotalOut(), (long long)n);
            i64 rest = inf.GetRemaining();
            if(rest < 0 || rest > (i64)c.size()) fail("state", "GetRemaining() is %lld of %zu", (long long)rest, c.size());
         }
      }
      std::string got; if(!t) { got.assign((char*)out, (size_t)n); delete[] out; }
      log("inflate %zu -> %s", c.size(), t ? msg.c_str() : "ok");
      if(memcmp(in, c.data(), c.size())) fail("input-changed", "the compressed data were changed");
      delete[] in;
      if(liveBlocks() > live) fail("leak", "%llu blocks are left over after decompressing %s data%s", (unsigned long long)(liveBlocks() - live), what, t ? " failed" : "");
      if(z == 1)
      {
         if(t) fail("rejected", "valid compressed data (%zu bytes, %s) were rejected: %s", c.size(), what, msg.c_str());
         if(got != ref)
         {
            size_t p = 0; while(p < got.size() && p < ref.size() && got[p] == ref[p]) p++;
            fail("contents", "decompressing %zu bytes (%s) gives %zu bytes that differ at %zu from the %zu original ones", c.size(), what, got.size(), p, ref.size());
         }
         probe(intact ? "round_trips" : "harmless_damage");
         return;
      }
      if(t) { probe("damage_reported"); return; }
      if(got == plain) return;
      if(!raw) fail("wrong-data", "damaged zlib data (%s, %s) were accepted and give %zu wrong bytes", what, why.c_str(), got.size());
      if(z == 0) fail("wrong-data", "incomplete data (%s) were accepted", what);
      static const char* must[] = {"invalid block type", "invalid stored block lengths", "invalid distance code", "invalid distance too far back", "invalid bit length repeat"};
      for(auto m : must) if(why == m) fail("wrong-data", "damaged data (%s: %s) were accepted", what, m);
      probe("lax");
   }
   void storage()
   {
      bool raw = W(2), intactWrite = false;
      std::string plain, c; u32 who = W(3);
      if(who == 0)
      {
         plain.clear();
         c = craft(plain);
         if(!raw)
         {
            u32 a = (u32)adler32(adler32(0, nullptr, 0), (const Bytef*)plain.data(), (uInt)plain.size());
            c = std::string("\x78\x9c") + c + (char)(a >> 24) + (char)(a >> 16) + (char)(a >> 8) + (char)a;
         }
      }
      else if(who == 1) { plain = someData(); c = zdeflate(plain, raw); }
      else
      {
         raw = false;
         u32 rounds = 1 + W(2);
         Deflater d; i64 in = 0, outn = 0;
         for(u32 k = 0; k < rounds; k++)
         {
            plain = someData();
            if(W(100) == 99) { plain = genBytes(100000 + W(60000), 2, W(1000)); probe("long_incompressible_data"); }
            u8* p = new u8[plain.size()]; memcpy(p, plain.data(), plain.size());
            u8* o = nullptr; int64 n = 0;
            if(W(4) == 3) { d.reset(); in = outn = 0; }
            d.setInput(p, (int64)plain.size());
            int zs = zStreams;
            if(W(6) == 5)
            {
               u32 how = 1 + W(2);
               boot([&] {
                  initLib();
                  threw([] { throw Exception(String("warm up")); });
                  zFail = (int)how;
                  auto one = [&] { threw([&] { d.deflate(o, n); }); };
                  if(!threw([&] { d.deflate(o, n); })) fail("unreported", "zlib failed and deflate() reported no error");
                  u64 mark = heapMark(), b0 = liveBlocks();
                  one();
                  if(liveBlocks() > b0) fail("leak", "%llu memory blocks were lost: %s", (unsigned long long)(liveBlocks() - b0), describeLive(mark).c_str());
                  zFail = 0; o = nullptr;
                  if(zStreams != zs) fail("leak", "%d compression streams were left open after an error", zStreams - zs);
                  d.reset(); d.setInput(p, (int64)plain.size()); d.deflate(o, n);
                  std::string back, why;
                  if(zinflate(std::string((char*)o, (size_t)n), false, back, why) != 1 || back != plain) fail("deflate", "after an error, %zu bytes were compressed to bytes that are not valid: %s", plain.size(), why.c_str());
                  delete[] o;
               });
               probe("compression_failed");
            }
            d.deflate(o, n);
            if(zStreams != zs) fail("leak", "%d compression streams were left open", zStreams - zs);
            in += (i64)plain.size(); outn += n;
            if(memcmp(p, plain.data(), plain.size())) fail("input-changed", "Deflater changed its input");
            if(d.totalInSize() != in || d.totalOutSize() != outn) fail("state", "totals are %lld and %lld, expected %lld and %lld", (long long)d.totalInSize(), (long long)d.totalOutSize(), (long long)in, (long long)outn);
            c.assign((char*)o, (size_t)n);
            delete[] o; delete[] p;
            std::string back, why;
            if(zinflate(c, false, back, why) != 1 || back != plain) fail("deflate", "%zu bytes were compressed to %zu bytes that are not valid: %s", plain.size(), c.size(), why.c_str());
         }
         probe("deflater");
      }
      if(c.size() > 200000) skip("large");
      mixState(hashStr(c));
      // one process stores the data, maybe it is killed; the next one reads them
      std::string path = "/home/u/data.z";
      fsMkdirs("/home/u");
      bool disturb = W(3) == 2;
      u32 chunk = W(3) ? 0 : 1 + W(400);
      if(disturb && W(2)) { faults.mask = FK_SHORT_WRITE | FK_WRITE_ERR | FK_ENOSPC | FK_CLOSE_ERR; faults.perMille = 30 + W(300); }
      int crash = disturb && W(2) ? (int)W(6) : -1;
      journalClear();
      boot([&] {
         initLib();
         if(crash >= 0) faults.crashAt = (int)fsCalls() + crash;
         File f(J(path)); bool bad = false;
         bool t = threw([&] {
            if(f.open(FileMode::kWrite) != Status::eOK) { bad = true; return; }
            for(size_t i = 0; i < c.size();)
            {
               size_t l = chunk ? std::min<size_t>(chunk, c.size() - i) : c.size() - i;
               if(f.write((const uint8*)c.data() + i, (int64)l) != (int64)l) { bad = true; break; }
               i += l;
            }
            f.close();
         });
         threw([&] { f.close(); });
         journal(t || bad ? "failed" : "stored");
      });
      faults = FaultCfg();
      auto j = journalRead();
      intactWrite = !j.empty() && j[0] == "stored";
      if(!fsExists(path)) return;
      const char* what = intactWrite ? "intact" : "torn";
      bool dam = intactWrite && W(3) == 2;
      if(dam) { const char* k = damage(path, fsRead(path).size()); if(k) what = k; else dam = false; }
      boot([&] {
         initLib();
         bool ok;
         std::string back = readAll(path, ok);
         if(!ok) fail("read", "the stored data cannot be read");
         if(intactWrite && !dam && back != c) fail("stored", "other data were stored than written");
         { Inflater warm(true); u8* o; int64 n; static u8 none[1] = {0}; warm.SetInput(none, 0); threw([&] { warm.Inflate(o, n); }); }
         checkInflate(back, raw, plain, intactWrite && !dam, what);
      });
   }
   void run18() { nontrivial(); storage(); }

   Registrar r18({"C18", run18, 40000, 600000,
      "byte strings of 0 to 70000 bytes, compressed by Deflater, by zlib (all levels, strategies and flush modes) or by an independent random writer of stored, fixed and dynamic blocks; stored by one simulated process under short and failing writes, full disk and kills, damaged by bit flips, truncation, lost and misplaced blocks, and decompressed by the next one; compared with the original and with zlib.",
      "distinct executions (hash over data, injected faults, file system calls and outcomes)",
      "Deflater, Inflater, Array, File (instrumented build), zlib (not instrumented) below Deflater",
      "file system behind fopen/fread/fwrite, clock, heap, process crash"});
}

namespace
{
   //------------------------------------------------------------------ C16, C17
   struct Ent { std::u16string name; std::string data, com; };
   std::string utf8(const std::u16string& u) { return S(JU(u)); }
   std::u16string entryName()
   {
      static const char16_t a[] = u"abz.-_/ \u00e4\u20ac7\\%";
      std::u16string u; u32 n = 1 + Wlen(W(20) == 19 ? 300 : 10);
      for(u32 i = 0; i < n; i++) u += a[W(13)];
      if(W(5) == 4) u += u'/';
      return u;
   }
   // Now and then a name that differs from an earlier one only in case.
   std::u16string entryName(const std::vector<Ent>& es)
   {
      if(!es.empty() && W(6) == 5)
      {
         std::u16string u = es[W((u32)es.size())].name;
         for(char16_t& c : u) if(c >= 'a' && c <= 'z') { c -= 32; probe("names_differ_in_case"); return u; }
      }
      return entryName();
   }
   std::string entryData()
   {
      static const u32 sz[] = {0, 1, 255, 4095, 4096, 4097, 8192, 12288};
      size_t n = W(3) == 0 ? sz[W(8)] : Wlen(600);
      if(W(60) == 59) n = 60000 + W(12000);
      return genBytes(n, W(5), W(1000));
   }
   u32 le(const std::string& s, size_t p, int n) { u32 v = 0; for(int i = 0; i < n; i++) v |= (u32)(u8)s.at(p + (size_t)i) << 8 * i; return v; }
   u32 crcOf(const std::string& s) { return (u32)crc32(crc32(0, nullptr, 0), (const Bytef*)s.data(), (uInt)s.size()); }

   // the archive as another program sees it; returns an error text
   std::string foreignRead(const std::string& z, std::vector<Ent>& out)
   {
      try
      {
         if(z.size() < 22) return "no end of directory";
         size_t e = z.size() - 22;
         if(le(z, e, 4) != 0x06054b50) return "no end of directory at the end";
         if(le(z, e + 4, 4) != 0) return "disk numbers are not 0";
         u32 n = le(z, e + 10, 2), off = le(z, e + 16, 4), len = le(z, e + 12, 4);
         if(le(z, e + 8, 2) != n) return "two entry counts";
         if((size_t)off + len != e) return "directory does not end at its end record";
         size_t p = off, expect = 0;
         for(u32 i = 0; i < n; i++)
         {
            if(le(z, p, 4) != 0x02014b50) return "directory signature";
            u32 m = le(z, p + 10, 2), crc = le(z, p + 16, 4), cs = le(z, p + 20, 4), us = le(z, p + 24, 4), nl = le(z, p + 28, 2), xl = le(z, p + 30, 2), cl = le(z, p + 32, 2), h = le(z, p + 42, 4);
            std::string name = z.substr(p + 46, nl);
            size_t p0 = p;
            p += 46 + nl + xl + cl;
            if(h != expect) return "local header is not where the previous entry ends";
            if(le(z, h, 4) != 0x04034b50) return "local signature";
            if(le(z, h + 8, 2) != m || le(z, h + 14, 4) != crc || le(z, h + 18, 4) != cs || le(z, h + 22, 4) != us || le(z, h + 26, 2) != nl || z.substr(h + 30, nl) != name) return "local header and directory differ";
            if(m != 0 || cs != us) return "not a stored entry";
            // other programs refuse entries that are encrypted, on other disks or made for later versions
            if(((le(z, p0 + 8, 2) | le(z, h + 6, 2)) & ~0x800u) != 0) return "flags of an entry";
            if(le(z, p0 + 6, 2) > 63 || le(z, h + 4, 2) > 63) return "version needed to extract";
            if(le(z, p0 + 34, 2) != 0) return "disk number of an entry";
            if((le(z, p0 + 38, 4) & 0xF) != 0) return "attributes of an entry";
            std::string d = z.substr(h + 30 + nl + le(z, h + 28, 2), cs);
            if(d.size() != cs || crcOf(d) != crc) return "checksum";
            expect = h + 30 + nl + le(z, h + 28, 2) + cs;
            Ent x; x.name = U(String(name.c_str())); x.data = d; x.com = z.substr(p - cl, cl); out.push_back(x);
         }
         if(expect != off) return "gap before the directory";
         if(p != e) return "directory length";
      }
      catch(const std::exception&) { return "fields point outside of the archive"; }
      return "";
   }
   void w(std::string& s, u32 v, int n) { for(int i = 0; i < n; i++) s += (char)(v >> 8 * i); }
   // an archive of another program
   std::string foreignWrite(std::vector<Ent>& es, std::string& comment)
   {
      static const char* coms[] = {"entry comment", "\xC3\x9C""bersicht \xE2\x82\xAC 5", "\xF0\x9F\x97\x9C", "\xE4\xB8\xAD\xE6\x96\x87"};
      std::string z, dir; u32 k = 0;
      for(auto& e : es)
      {
         u32 off = (u32)z.size(), method = W(3) ? 8 : 0;
         std::string c = method ? zdeflate(e.data, true) : e.data, name = utf8(e.name);
         bool desc = method && W(4) == 3;
         std::string extra = W(3) == 2 ? genBytes(1 + Wlen(40), 2, k) : "", cextra = W(3) == 2 ? genBytes(1 + Wlen(40), 2, k + 1) : "", com = e.com = W(4) == 3 ? coms[W(4)] : "";
         w(z, 0x04034b50, 4); w(z, 20, 2); w(z, desc ? 8 : 0, 2); w(z, method, 2); w(z, 0x5555, 2); w(z, 0x5555, 2);
         w(z, desc ? 0 : crcOf(e.data), 4); w(z, desc ? 0 : (u32)c.size(), 4); w(z, desc ? 0 : (u32)e.data.size(), 4);
         w(z, (u32)name.size(), 2); w(z, (u32)extra.size(), 2); z += name; z += extra; z += c;
         if(desc) { w(z, 0x08074b50, 4); w(z, crcOf(e.data), 4); w(z, (u32)c.size(), 4); w(z, (u32)e.data.size(), 4); }
         w(dir, 0x02014b50, 4); w(dir, 0x314, 2); w(dir, 20, 2); w(dir, desc ? 8 : 0, 2); w(dir, method, 2); w(dir, 0x5555, 2); w(dir, 0x5555, 2);
         w(dir, crcOf(e.data), 4); w(dir, (u32)c.size(), 4); w(dir, (u32)e.data.size(), 4);
         w(dir, (u32)name.size(), 2); w(dir, (u32)cextra.size(), 2); w(dir, (u32)com.size(), 2); w(dir, 0, 2); w(dir, 0, 2); w(dir, 0, 4); w(dir, off, 4);
         dir += name; dir += cextra; dir += com; k += 2;
         probe(method ? "deflated_entries" : "stored_entries");
      }
      if(W(3) == 2) { comment = W(3) ? genBytes(1 + Wlen(60), 0, k) : coms[W(2) ? 1 : 3]; }
      u32 off = (u32)z.size();
      z += dir;
      w(z, 0x06054b50, 4); w(z, 0, 2); w(z, 0, 2); w(z, (u32)es.size(), 2); w(z, (u32)es.size(), 2); w(z, (u32)dir.size(), 4); w(z, off, 4); w(z, (u32)comment.size(), 2); z += comment;
      return z;
   }
   enum Trust { EXACT, SAFE };
   // reads an archive through the library; contents must be right, with read errors or damage they may be refused
   void readArchive(const std::string& path, const std::vector<Ent>& es, const std::string& comment, Trust trust, bool zeroed)
   {
      u32 readers = W(3);
      std::string raw = fsRead(path);
      u8* mem = nullptr;
      jm::Stream* st;
      if(readers == 2) { mem = new u8[raw.size()]; memcpy(mem, raw.data(), raw.size()); st = new MemoryStream(mem, (int64)raw.size(), false); }
      else st = new File(J(path));
      FsErr e0 = fsErrs();
      auto clean = [&] { return fsErrs().count == e0.count && trust == EXACT; };
      u64 live = liveBlocks();
      {
         ZipFile zip(st);
         u32 rounds = 1 + (W(4) == 3);
         for(u32 k = 0; k < rounds; k++)
         {
            std::string msg;
            bool t = threw([&] { zip.open(); }, &msg);
            log("open -> %s", t ? msg.c_str() : "ok");
            if(t)
            {
               if(clean()) fail("open", "a complete archive with %zu entries cannot be opened: %s", es.size(), msg.c_str());
               probe("open_refused");
               threw([&] { zip.close(); });
               continue;
            }
            // size() has no way to report that it failed, the archive may look empty if it cannot be read either
            if(zip.entryCount() == 0 && fsErrs().statErr != e0.statErr && fsErrs().readErr != e0.readErr) { probe("size_unknown"); threw([&] { zip.close(); }); continue; }
            if(trust == EXACT && zip.entryCount() != es.size()) fail("entries", "the archive has %u entries, %zu were written", zip.entryCount(), es.size());
            if(trust == EXACT && S(zip.comment()) != comment) fail("comment", "comment() is %s, expected %s", show(S(zip.comment())).c_str(), show(comment).c_str());
            if(zip.entry(String("no such entry")) != nullptr) fail("entries", "entry() found an entry that does not exist");
            LinkedListIterator it = zip.entryIterator();
            u32 i = 0;
            for(; it.hasNext(); i++)
            {
               ZipEntry* e = static_cast<ZipEntry*>(it.next());
               std::u16string name = U(e->name());
               if(trust == EXACT)
               {
                  const Ent& x = es[i];
                  if(name != x.name) fail("name", "entry %u is called %s, expected %s", i, show(name).c_str(), show(x.name).c_str());
                  if(e->uncompressedSize() != x.data.size()) fail("size", "entry %u has %u bytes, expected %zu", i, e->uncompressedSize(), x.data.size());
                  if(e->isDirectory() != (x.name.back() == u'/')) fail("directory", "isDirectory() of %s is %d", show(x.name).c_str(), e->isDirectory());
                  ZipEntry* f = zip.entry(JU(x.name));
                  size_t first = 0; while(es[first].name != x.name) first++;
                  if(!f || (f != e) != (first != i)) fail("entries", "entry(%s) returns %s", show(x.name).c_str(), f ? "another entry" : "nothing");
               }
               if(W(4) == 3) continue;
               jm::Stream* s = nullptr;
               t = threw([&] { s = zip.stream(e); }, &msg);
               log("stream %u -> %s", i, t ? msg.c_str() : "ok");
               if(t)
               {
                  if(clean()) fail("stream", "entry %u of a complete archive cannot be read: %s", i, msg.c_str());
                  probe("entry_refused");
                  continue;
               }
               if(!s) fail("stream", "stream() returned nothing for an entry of the archive");
               std::string got; u32 chunk = W(3) ? 0 : 1 + W(700);
               for(;;)
               {
                  ByteArray b(chunk ? (i64)chunk : std::max<i64>(1, s->size()), 0);
                  i64 r = s->readFully(b, b.size());
                  got.append(b.constData(), (size_t)r);
                  if(r < b.size()) break;
               }
               s->release();
               if(trust == EXACT ? got != es[i].data : false) fail("contents", "entry %u gives %zu bytes that differ from the %zu written ones", i, got.size(), es[i].data.size());
               if(trust == SAFE)
               {
                  // damage may also turn the name of one entry into that of another
                  bool known = false, right = false;
                  for(auto& x : es) { known = known || x.name == name; right = right || x.data == got; }
                  if(!right && !(got.empty() && (zeroed || !known))) fail("wrong-data", "a damaged archive gives %zu wrong bytes for entry %s", got.size(), show(name).c_str());
                  probe("entry_survived");
               }
               else probe("entries_read");
            }
            if(trust == EXACT && i != es.size()) fail("entries", "the iterator returned %u entries of %zu", i, es.size());
            if(zip.stream(nullptr) != nullptr) fail("stream", "stream(nullptr) returned a stream");
            threw([&] { zip.close(); });
         }
      }
      if(liveBlocks() > live) fail("leak", "%llu blocks are left over after reading an archive", (unsigned long long)(liveBlocks() - live));
      st->release();
      if(mem) { if(memcmp(mem, raw.data(), raw.size())) fail("archive-changed", "reading changed the archive"); delete[] mem; }
      if(fsOpenFds()) fail("handle-leak", "%d handles are open after reading an archive", fsOpenFds());
   }
   void warmUp()
   {
      System::log(String("warm up"), LogLevel::kError);
      MemoryStream m(nullptr, 0, false);
      ZipFile z(&m);
      threw([&] { z.open(); });
      static u8 bad[30] = {0}; MemoryStream m2(bad, 30, false); ZipFile z2(&m2); threw([&] { z2.open(); });
      String::valueOf((int64)7);
   }
   std::string encode(const std::vector<Ent>& es)
   {
      std::string s; auto p = [&](const void* d, size_t n) { u32 l = (u32)n; s.append((char*)&l, 4); s.append((const char*)d, n); };
      for(auto& e : es) { p(e.name.data(), e.name.size() * 2); p(e.data.data(), e.data.size()); p(e.com.data(), e.com.size()); }
      return s;
   }
   std::vector<Ent> decode(const std::string& s, size_t p)
   {
      std::vector<Ent> v; auto g = [&] { u32 l; memcpy(&l, s.data() + p, 4); p += 4; std::string r = s.substr(p, l); p += l; return r; };
      while(p < s.size()) { Ent e; std::string n = g(); e.name.assign((const char16_t*)n.data(), n.size() / 2); e.data = g(); e.com = g(); v.push_back(e); }
      return v;
   }

   void run16()
   {
      nontrivial();
      fsMkdirs("/home/u/z");
      bool faulty = W(3) == 2, crash = W(4) == 3, keepTmp = W(6) == 5;
      static const char* paths[] = {"/home/u/z/a.zip", "/home/u/z/b.zip"};
      std::string doc = entryData(); bool metaErrs = false;
      if(keepTmp) { fsWrite("/home/u/z/jmzipdata0.tmp", "of somebody else"); fsWrite("/home/u/z/jmzipdata.tmp", "of somebody else"); }
      fsWrite("/home/u/z/doc.bin", doc);
      u32 sessions = 1 + W(2);
      std::vector<Ent> want[2]; std::string st[2] = {"none", "none"};
      for(u32 k = 0; k < sessions; k++)
      {
         u32 mask = FK_OPEN_ERR | FK_READ_ERR | FK_WRITE_ERR | FK_SHORT_READ | FK_SHORT_WRITE | FK_ENOSPC | FK_CLOSE_ERR | FK_SEEK_ERR | (W(2) ? FK_META_ERR | FK_STAT_ERR : 0);
         static const u32 pms[] = {10, 40, 120};
         u32 pm = faulty ? pms[W(3)] : 0;
         if(pm && mask & FK_META_ERR) metaErrs = true;
         if(!faulty) W(1);
         // entries of an archive of another program that are copied
         std::vector<Ent> src;
         bool copies = W(3) == 2;
         if(copies)
         {
            std::string c; u32 m = 1 + W(4);
            for(u32 i = 0; i < m; i++) { Ent e; e.name = entryName(src); e.data = genBytes(Wlen(600), W(5), W(1000)); src.push_back(e); }
            fsWrite("/home/u/src.zip", foreignWrite(src, c));
         }
         int crashAt = crash && k + 1 == sessions ? (int)W(60) : -1;
         journalClear();
         bool ended = boot([&] { noLeak([&] {
            std::vector<ZipEntry*> srcZe; size_t srcUsed = 0;
            if(copies)
            {
               File f(J("/home/u/src.zip")); ZipFile z(&f); z.open();
               LinkedListIterator it = z.entryIterator();
               while(it.hasNext()) { ZipEntry* e = static_cast<ZipEntry*>(it.next()); e->retain(); srcZe.push_back(e); }
               z.close();
               if(srcZe.size() != src.size()) fail("copy", "an archive with %zu entries shows %zu of them", src.size(), srcZe.size());
            }
            faults.mask = mask; faults.perMille = pm;
            u32 where = W(4);                     // absolute names, or names that start at the current directory
            if(where > 1) { if(::chdir(where == 2 ? "/home/u/z" : "/home/u")) fail("harness", "chdir"); probe("relative_names"); }
            auto called = [&](const char* q) { return J(q + (where < 2 ? 0 : where == 2 ? 10 : 8)); };
            if(crashAt >= 0) faults.crashAt = (int)fsCalls() + crashAt;
            struct Z { File* f; ZipOutputFile* z; std::vector<Ent> es; std::vector<ZipEntry*> ze; bool open = false, bad = false, cur = false; };
            u32 n = 1 + W(2); std::vector<Z> zs(n);
            for(u32 i = 0; i < n; i++) { zs[i].f = new File(called(paths[i])); zs[i].z = new ZipOutputFile(zs[i].f); }
            auto op = [&](u32 i, const std::function<void()>& f) {
               Z& z = zs[i]; FsErr e0 = fsErrs(); std::string msg;
               bool t = threw(f, &msg);
               if(t) log("archive %u: %s", i, msg.c_str());
               if(t && fsErrs().count == e0.count && !z.bad) fail("failed", "writing an archive failed although nothing was wrong: %s", msg.c_str());
               if(t) { z.bad = true; probe("write_failed"); }
               return !t;
            };
            u32 ops = 2 + Wlen(30);
            for(u32 o = 0; o < ops; o++)
            {
               u32 i = W(n); Z& z = zs[i];
               if(z.bad) continue;
               if(!z.open)
               {
                  if(z.ze.size() || !z.es.empty()) continue;
                  journal(std::string(1, (char)('0' + i)) + "O");
                  log("open %u", i);
                  if(op(i, [&] { z.z->open(); })) z.open = true;
                  continue;
               }
               switch(W(6))
               {
                  case 0: case 1:
                  {
                     Ent e; e.name = entryName(z.es);
                     if(W(8) == 7 && !z.es.empty()) e.name = z.es[0].name;
                     ZipEntry* x; bool copy = srcUsed < srcZe.size() && W(2);
                     if(copy) { x = srcZe[srcUsed]; e.name = src[srcUsed].name; e.com = src[srcUsed].com; probe(e.com.empty() ? "entries_copied" : "entries_copied_with_comment"); }
                     else x = new ZipEntry(JU(e.name));
                     z.ze.push_back(x);
                     log("put %u %s", i, show(e.name).c_str());
                     if(op(i, [&] { z.z->putNextEntry(x); })) { z.es.push_back(e); z.cur = true; }
                     if(copy)
                     {
                        std::string& d = src[srcUsed++].data;
                        if(!z.bad && op(i, [&] { z.z->write((uint8*)&d[0], 0, (int64)d.size()); })) z.es.back().data = d;
                     }
                     for(auto& f : fsList("/")) if(f.compare(0, 2, "jm") == 0) fail("temporary-file", "the file /%s was created for an archive elsewhere", f.c_str());
                     break;
                  }
                  case 2: case 3:
                  {
                     if(!z.cur)
                     {
                        // there is no entry that could be written or closed
                        uint8 junk[3] = {1, 2, 3}; std::string msg;
                        FsErr e0 = fsErrs();
                        bool t = threw([&] { if(W(2)) z.z->closeEntry(); else z.z->write(junk, 0, 3); }, &msg);
                        log("misuse %u -> %d", i, t);
                        if(fsErrs().count != e0.count) z.bad = true;
                        probe("no_entry_open");
                        break;
                     }
                     std::string d = entryData(); u32 skipN = W(3) == 2 ? W(10) : 0;
                     std::string buf = std::string(skipN, '!') + d;
                     u8* p = new u8[buf.size()]; memcpy(p, buf.data(), buf.size());
                     log("write %u %zu", i, d.size());
                     if(op(i, [&] { z.z->write(p, skipN, (int64)d.size()); })) z.es.back().data += d;
                     delete[] p;
                     break;
                  }
                  case 4:
                     if(!z.cur) break;
                     log("close entry %u", i);
                     if(W(4) == 3 && z.es.back().data.empty())
                     {
                        File f(called("/home/u/z/doc.bin"));
                        if(op(i, [&] { z.z->writeAndClose(&f); })) { z.es.back().data = doc; probe("files_added"); }
                        threw([&] { f.close(); });
                     }
                     else op(i, [&] { z.z->closeEntry(); });
                     z.cur = false;
                     break;
                  default:
                     if(W(3)) break;
                     log("close %u", i);
                     if(op(i, [&] { z.z->close(); })) { journal(std::string(1, (char)('0' + i)) + "C" + encode(z.es)); z.open = false; probe("archives"); }
                     break;
               }
            }
            for(u32 i = 0; i < n; i++)
            {
               Z& z = zs[i];
               if(z.open && !z.bad && W(8) != 7) { log("close %u", i); if(op(i, [&] { z.z->close(); })) { journal(std::string(1, (char)('0' + i)) + "C" + encode(z.es)); probe("archives"); } }
               z.z->release();
               threw([&] { z.f->close(); });
               z.f->release();
               for(auto e : z.ze) e->release();
            }
            while(srcUsed < srcZe.size()) srcZe[srcUsed++]->release();
            if(fsOpenFds()) fail("handle-leak", "%d handles are open after the archives were written", fsOpenFds());
            if(!metaErrs)
               for(auto& f : fsList("/home/u/z"))
                  if(f != "a.zip" && f != "b.zip" && f != "doc.bin" && !(keepTmp && (f == "jmzipdata0.tmp" || f == "jmzipdata.tmp"))) fail("temporary-file", "the file %s was left behind", f.c_str());
         }); });
         faults = FaultCfg();
         for(auto& r : journalRead()) { u32 i = (u32)(r[0] - '0'); st[i] = r[1] == 'C' ? "complete" : "partial"; want[i].clear(); if(r[1] == 'C') want[i] = decode(r, 2); }
         if(!ended) probe("crashed");
         if(fsRead("/home/u/z/doc.bin") != doc) fail("foreign-file", "a file that was only read was changed");
         if(keepTmp && (fsRead("/home/u/z/jmzipdata0.tmp") != "of somebody else" || fsRead("/home/u/z/jmzipdata.tmp") != "of somebody else")) fail("foreign-file", "a file of somebody else was changed");
         for(u32 i = 0; i < 2; i++)
         {
            if(st[i] != "complete") continue;
            std::vector<Ent> got;
            std::string err = foreignRead(fsRead(paths[i]), got);
            if(!err.empty()) fail("format", "a completed archive with %zu entries is invalid: %s", want[i].size(), err.c_str());
            if(got.size() != want[i].size()) fail("entries", "the archive has %zu entries, %zu were written", got.size(), want[i].size());
            for(size_t e = 0; e < got.size(); e++)
            {
               if(got[e].name != want[i][e].name) fail("name", "entry %zu is called %s, expected %s", e, show(got[e].name).c_str(), show(want[i][e].name).c_str());
               if(got[e].com != want[i][e].com) fail("comment", "entry %zu has the comment %s, expected %s", e, show(got[e].com).c_str(), show(want[i][e].com).c_str());
               if(got[e].data != want[i][e].data) fail("contents", "entry %zu has %zu bytes that differ from the %zu written ones", e, got[e].data.size(), want[i][e].data.size());
            }
         }
         bool rf = W(3) == 2;
         boot([&] {
            initLib(); warmUp();
            if(rf) { faults.mask = FK_OPEN_ERR | FK_READ_ERR | FK_SHORT_READ | FK_SEEK_ERR | FK_STAT_ERR; faults.perMille = 20 + W(100); }
            for(u32 i = 0; i < 2; i++)
               if(st[i] != "none" && fsExists(paths[i]))
               {
                  if(st[i] == "complete") readArchive(paths[i], want[i], "", EXACT, false);
                  else
                  {
                     // unfinished: whatever can be read must have been written; only safety is checked
                     File f(J(paths[i])); ZipFile z(&f);
                     threw([&] { z.open(); LinkedListIterator it = z.entryIterator(); while(it.hasNext()) { jm::Stream* s = z.stream(static_cast<ZipEntry*>(it.next())); s->release(); } });
                     threw([&] { f.close(); });
                     probe("unfinished_archives");
                  }
               }
         });
         faults = FaultCfg();
      }
   }
   Registrar r16({"C16", run16, 12000, 300000,
      "1-2 sessions that write 1-2 archives at the same time (names with blanks, slashes and non-ASCII characters, duplicates, 0 to 72000 bytes, entries left open, files added, archives replaced) under open, read, write, seek, close, remove errors, full disk, short transfers and kills; completed archives are read back by an independent parser and through ZipFile on files and memory, with read errors.",
      "distinct executions (hash over operations, injected faults, file system calls and outcomes)",
      "ZipOutputFile, ZipFile, ZipEntry, Inflater, MemoryStream, File, LinkedList, Serializer (instrumented build), glibc stdio",
      "file system behind fopen/stat/remove, clock, heap, process crash"});

   void run17()
   {
      nontrivial();
      fsMkdirs("/home/u/z");
      std::vector<Ent> es; u32 n = Wlen(6);
      for(u32 i = 0; i < n; i++) { Ent e; e.name = entryName(es); e.data = entryData(); es.push_back(e); }
      std::string comment, z = foreignWrite(es, comment);
      if(z.size() > 100000) skip("large");
      const char* path = "/home/u/z/a.zip";
      fsWrite(path, z);
      mixState(hashStr(z));
      const char* what = "intact"; bool zeroed = false;
      if(W(5)) { const char* k = damage(path, z.size()); if(k) { what = k; zeroed = !strcmp(k, "zeroed"); } }
      bool same = fsRead(path) == z;
      bool rf = W(4) == 3;
      boot([&] {
         initLib(); warmUp();
         if(rf) { faults.mask = FK_OPEN_ERR | FK_READ_ERR | FK_SHORT_READ | FK_SEEK_ERR | FK_STAT_ERR; faults.perMille = 20 + W(100); }
         log("archive %s, %zu bytes", what, z.size());
         readArchive(path, es, comment, same ? EXACT : SAFE, zeroed);
         if(same) probe("intact_archives");
      });
   }
   Registrar r17({"C17", run17, 30000, 500000,
      "archives of another program (0-6 entries, stored or deflated by zlib with all levels and strategies, extra fields, data descriptors, comments), intact or damaged by bit flips, truncation, lost and misplaced blocks, read through ZipFile on files and memory, with read, seek and stat errors: intact archives give exactly their entries, damaged ones are refused or give the original bytes.",
      "distinct executions (hash over archive, injected faults, file system calls and outcomes)",
      "ZipFile, ZipEntry, Inflater, MemoryStream, File, LinkedList, Serializer (instrumented build), glibc stdio",
      "file system behind fopen/stat, clock, heap, process crash"});
}
