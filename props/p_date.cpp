// C22: dates, the clock and the calendar.
#include "common.h"
using namespace jm;

namespace
{
   struct Civil { i64 y; int mo, d, h, mi, s, ms, wd, yd; };   // mo 0..11, d 1..31, wd 0=Sunday, yd 0..365
   i64 fdiv(i64 a, i64 b) { i64 q = a / b; return a % b < 0 ? q - 1 : q; }
   // days since 1970-01-01 of a date of the proleptic Gregorian calendar
   i64 dayNo(i64 y, i64 mo, i64 d)
   {
      y += fdiv(mo, 12); mo -= fdiv(mo, 12) * 12; mo++;
      y -= mo <= 2;
      i64 era = fdiv(y, 400), yoe = y - era * 400, doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5 + 1 - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
      return era * 146097 + doe - 719468 + d - 1;
   }
   Civil civil(i64 ms)
   {
      Civil c;
      i64 days = fdiv(ms, 86400000), t = ms - days * 86400000;
      c.ms = (int)(t % 1000); c.s = (int)(t / 1000 % 60); c.mi = (int)(t / 60000 % 60); c.h = (int)(t / 3600000);
      c.wd = (int)(((days + 4) % 7 + 7) % 7);
      i64 z = days + 719468, era = fdiv(z, 146097), doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
      i64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
      c.d = (int)(doy - (153 * mp + 2) / 5 + 1); c.mo = (int)(mp < 10 ? mp + 2 : mp - 10);
      c.y = yoe + era * 400 + (c.mo <= 1);
      c.yd = (int)(days - dayNo(c.y, 0, 1));
      return c;
   }
   std::string pad(i64 v, int w) { char b[32]; snprintf(b, sizeof b, "%0*lld", w, (long long)v); return b; }
   std::string iso(i64 ms)
   {
      Civil c = civil(ms);
      return pad(c.y, 4) + "-" + pad(c.mo + 1, 2) + "-" + pad(c.d, 2) + "T" + pad(c.h, 2) + ":" + pad(c.mi, 2) + ":" + pad(c.s, 2) + "." + pad(c.ms, 3) + "Z";
   }

   // a time between the years 1 and 9999, often near a boundary of the calendar
   i64 genMs()
   {
      i64 y = W(4) ? 1900 + W(250) : W(2) ? 1 + W(9999) : (i64)(W(25) + 1) * 400 - (W(2) ? 0 : W(4) * 100);
      if(y > 9999) y = 9999;
      i64 t;
      switch(W(6))
      {
         case 0: t = dayNo(y, 0, 1) * 86400000; break;
         case 1: t = dayNo(y, 1, 29) * 86400000; break;
         case 2: t = dayNo(y, W(12), 1) * 86400000; break;
         case 3: t = (i64)W(3) * 1000 - 1000; break;
         default: t = dayNo(y, W(12), 1 + W(28)) * 86400000 + W(86400000); break;
      }
      switch(W(4)) { case 0: t -= 1; break; case 1: t += W(86400) * 1000; break; case 2: t += W(86400000); break; default: break; }
      i64 lo = dayNo(1, 0, 1) * 86400000, hi = dayNo(10000, 0, 1) * 86400000 - 1;
      return t < lo ? lo : t > hi ? hi : t;
   }

   // a time between the years -9999 and 0
   i64 genEarly() { i64 cycles = 1 + W(25); i64 t = genMs(); while(civil(t).y > 0 || W(2)) t -= cycles * 146097 * 86400000; i64 lo = dayNo(-9999, 0, 1) * 86400000; while(t < lo) t += 146097ll * 86400000; while(civil(t).y > 0) t -= 146097ll * 86400000; return t; }

   void checkDate(const Date& d, i64 ms, const char* what)
   {
      if(d.time() != ms) fail("time", "%s: time() is %lld instead of %lld", what, (long long)d.time(), (long long)ms);
      Civil c = civil(ms);
      struct { const char* n; i64 got, want; } f[] = {
         {"year", d.year(), c.y}, {"utcYear", d.utcYear(), c.y}, {"month", d.month(), c.mo}, {"utcMonth", d.utcMonth(), c.mo},
         {"date", d.date(), c.d}, {"utcDate", d.utcDate(), c.d}, {"day", d.day(), c.wd}, {"utcDay", d.utcDay(), c.wd}, {"dayOfYear", d.dayOfYear(), c.yd},
         {"hours", d.hours(), c.h}, {"utcHours", d.utcHours(), c.h}, {"minutes", d.minutes(), c.mi}, {"utcMinutes", d.utcMinutes(), c.mi},
         {"seconds", d.seconds(), c.s}, {"utcSeconds", d.utcSeconds(), c.s}, {"milliseconds", d.milliseconds(), c.ms}, {"utcMilliseconds", d.utcMilliseconds(), c.ms}};
      for(auto& x : f) if(x.got != x.want) fail("fields", "%s() of %s is %lld instead of %lld", x.n, iso(ms).c_str(), (long long)x.got, (long long)x.want);
      if(c.y < 1) { probe("early_years"); return; }      // their text form is not defined
      std::string s = S(d.toString());
      if(s != iso(ms)) fail("text", "toString() is %s instead of %s", show(s).c_str(), iso(ms).c_str());
   }

   // patterns of the documented letters that are implemented, quoted texts and separators
   std::string genPattern()
   {
      static const char letters[] = "yMdDHEmsS";
      static const char* seps[] = {".", " ", ":", "-", "/", ", ", "T", "\xC3\xBC", ""};
      std::string p;
      u32 n = 1 + Wlen(8);
      for(u32 i = 0; i < n; i++)
      {
         switch(W(6))
         {
            case 0: p += seps[W(9)]; break;
            case 1: { static const char* q[] = {"'um'", "' at '", "'d'", "'clock'", "'\xE5\xB9\xB4'", "'y M'"}; std::string x = q[W(6)]; if(!p.empty() && p.back() == '\'') p += " "; p += x; break; }
            default: p += std::string(1 + W(4), letters[W(9)]); break;
         }
      }
      return p;
   }
   std::string expectFormat(const std::string& p, i64 ms)
   {
      Civil c = civil(ms);
      static const char* dn[] = {"Sonntag", "Montag", "Dienstag", "Mittwoch", "Donnerstag", "Freitag", "Samstag"};
      static const char* mn[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
      static const char* ms3[] = {"Jan", "Feb", "Mrz", "Apr", "Mai", "Jun", "Jul", "Aug", "Sep", "Okt", "Nov", "Dez"};
      std::string o;
      for(size_t i = 0; i < p.size(); )
      {
         if(p[i] == '\'') { size_t e = p.find('\'', i + 1); o += p.substr(i + 1, e - i - 1); i = e + 1; continue; }
         size_t j = i; while(j < p.size() && p[j] == p[i]) j++;
         size_t n = j - i;
         auto num = [&](i64 v, size_t two) { o += n == two ? pad(v, 2) : std::to_string(v); };
         switch(p[i])
         {
            case 'y': if(n == 2) o += pad(c.y % 100, 2); else o += std::to_string(c.y); break;
            case 'M': if(n <= 2) num(c.mo + 1, 2); else o += n == 3 ? ms3[c.mo] : mn[c.mo]; break;
            case 'd': num(c.d, 2); break;
            case 'D': o += std::to_string(c.yd + 1); break;
            case 'H': num(c.h, 2); break;
            case 'm': num(c.mi, 2); break;
            case 's': num(c.s, 2); break;
            case 'S': o += n > 1 ? pad(c.ms, 3) : std::to_string(c.ms); break;
            case 'E': o += n <= 2 ? std::string(dn[c.wd]).substr(0, n) : dn[c.wd]; break;
            default: o += p.substr(i, n); break;
         }
         i = j;
      }
      return o;
   }
   String J8(const std::string& s)
   {
      std::u16string u;
      for(size_t i = 0; i < s.size(); )
      {
         unsigned char c = (unsigned char)s[i];
         if(c < 0x80) { u += (char16_t)c; i++; }
         else if(c < 0xE0) { u += (char16_t)((c & 31) << 6 | (s[i + 1] & 63)); i += 2; }
         else { u += (char16_t)((c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63)); i += 3; }
      }
      return JU(u);
   }

   // reads the clock; what it shows lies between the two readings, on either side of a jump
   void clockDate()
   {
      i64 off0 = nowReal() - (i64)nowMono(), r0 = nowReal();
      Date d;
      i64 r1 = nowReal(), off1 = r1 - (i64)nowMono();
      i64 t = d.time();
      bool ok = off0 == off1 ? t >= fdiv(r0, 1000000) && t <= fdiv(r1, 1000000)
              : (t >= fdiv(r0, 1000000) && t <= fdiv(r1 - off1 + off0, 1000000)) || (t >= fdiv(r0 - off0 + off1, 1000000) && t <= fdiv(r1, 1000000));
      if(!ok && threadCount() > 1 && off0 != off1) { probe("two_jumps"); return; }   // the clock may have jumped more than once
      if(!ok) fail("clock", "Date() is %s while the clock shows %s to %s", iso(t).c_str(), iso(fdiv(r0, 1000000)).c_str(), iso(fdiv(r1, 1000000)).c_str());
      checkDate(d, t, "Date()");
   }

   void jump()
   {
      static const i64 d[] = {1000000ll, 999999ll, 3600000000000ll, 86400000000000ll, 31536000000000000ll};
      if(W(2)) setReal(dayNo(1900 + W(250), W(12), 1 + W(28)) * 86400000000000ll + (i64)W(86400) * 1000000000ll + W(1000000000));
      else { i64 x = d[W(5)]; jumpReal(W(2) ? x : -x); }
      fault("clock_jump");
   }

   CoutSink* out;
   void logLine(const std::string& text)
   {
      size_t at = out->buf.size();
      i64 off0 = nowReal() - (i64)nowMono(), r0 = fdiv(nowReal(), 1000000);
      jm::System::log(J(text), LogLevel::kInformation);
      i64 r1 = fdiv(nowReal(), 1000000), off1 = nowReal() - (i64)nowMono();
      std::string l = out->buf.substr(at);
      if(off0 != off1) return;
      if(l.size() < 27 || l[0] != '[' || l.compare(25, 2, "] ")) fail("log-date", "the line %s does not start with its date", show(l).c_str());
      std::string d = l.substr(1, 24);
      for(i64 t = r0; t <= r1 && t < r0 + 2000; t++) if(iso(t) == d) return;
      if(r1 - r0 >= 2000) return;
      fail("log-date", "the line %s was written between %s and %s", show(l).c_str(), iso(r0).c_str(), iso(r1).c_str());
   }

   void files()
   {
      static int n; std::string p = "/t/f" + std::to_string(n++ % 3);
      if(!fsIsDir("/t")) fsMkdirs("/t");
      u32 errRate = W(3) ? 0 : 400;
      i64 off0 = nowReal() - (i64)nowMono(), r0 = fdiv(nowReal(), 1000000);
      if(W(2)) fsWrite(p, "x");
      else { File f(J(p)); if(f.open(FileMode::kWrite) != Status::eOK) return; ByteArray b(3, 'a'); f.write((const uint8*)b.constData(), 3); f.close(); }
      i64 r1 = fdiv(nowReal(), 1000000), off1 = nowReal() - (i64)nowMono();
      if(W(2)) jump();
      if(W(3) == 0) { i64 t = genMs(); if(t > 9000000000000ll || t < -9000000000000ll) t = 0; fsSetMtimeNs(p, t * 1000000 + W(1000000)); r0 = r1 = t; off1 = off0; }
      File g(J(W(8) ? p : p + "x"));
      faults = FaultCfg(); faults.perMille = errRate; faults.mask = FK_STAT_ERR;
      u64 e0 = fsErrs().statErr;
      i64 t = g.lastModified().time();
      bool err = fsErrs().statErr != e0;
      faults = FaultCfg();
      log("modified %lld%s", (long long)t, err ? " (error)" : "");
      if(err || !g.exists()) { if(t != 0) fail("modified", "lastModified() of a file that does not exist or cannot be read is %s", iso(t).c_str()); return; }
      if(off0 == off1 && (t < r0 || t > r1)) fail("modified", "lastModified() is %s, the file was changed at %s", iso(t).c_str(), iso(r0).c_str());
   }

   void op()
   {
      switch(W(10))
      {
         case 0: jump(); clockDate(); break;
         case 1: clockDate(); break;
         case 2: case 3:
         {
            i64 t = W(6) ? genMs() : genEarly(); Date d(t), e(d), f(genMs()); log("date %lld", (long long)t);
            checkDate(e, t, "copy");
            f.setTime(t); checkDate(f, t, "setTime()");
            i64 u = W(3) ? W(6) ? genMs() : genEarly() : t; Date g(u);
            int c = t < u ? -1 : t > u;
            if(d.compareTo(g) != c || (d < g) != (c < 0) || (d > g) != (c > 0) || (d <= g) != (c <= 0) || (d >= g) != (c >= 0) || (d == g) != (c == 0) || (d != g) != (c != 0))
               fail("order", "%s and %s are ordered wrongly", iso(t).c_str(), iso(u).c_str());
            if(d.isEmpty() || !Date((int64)Date::EMPTY).isEmpty()) fail("fields", "isEmpty() is wrong");
            break;
         }
         case 4: case 5:
         {
            i64 y = civil(genMs()).y; u32 mo = W(12), d = 1 + W(31), h = W(24), mi = W(60), s = W(60), ms = W(1000);
            // too many days, hours and so on count into the next field
            if(W(8) == 7) { switch(W(6)) { case 0: mo = W(100); break; case 1: d = W(2000); break; case 2: h = W(500); break; case 3: mi = W(65536); break; case 4: s = W(65536); break; default: ms = W(65536); break; } probe("overflowing_fields"); }
            i64 t = dayNo(y, mo, d) * 86400000;
            log("make %lld-%u-%u", (long long)y, mo + 1, d);
            Date a((uint16_t)y, (uint16_t)mo, (uint16_t)d);
            if(a.time() != t) fail("make", "Date(%lld, %u, %u) is %lld instead of %s", (long long)y, mo, d, (long long)a.time(), iso(t).c_str());
            t += h * 3600000ll + mi * 60000 + s * 1000 + ms;
            Date b((uint16_t)y, (uint16_t)mo, (uint16_t)d, (uint16_t)h, (uint16_t)mi, (uint16_t)s, (uint16_t)ms);
            if(b.time() != t) fail("make", "Date(%lld, %u, %u, %u, %u, %u, %u) is %lld instead of %s", (long long)y, mo, d, h, mi, s, ms, (long long)b.time(), iso(t).c_str());
            break;
         }
         case 6: case 7:
         {
            std::string p = genPattern();
            DateFormatter f(J8(p));
            for(u32 i = 0; i < 2; i++)
            {
               i64 t = genMs(); Date d(t);
               std::string got = S(i ? DateFormatter::format(J8(p), d) : f.format(d)), want = expectFormat(p, t);
               log("format %s -> %s", p.c_str(), got.c_str());
               if(got != want) fail("format", "%s in the format %s is %s instead of %s", iso(t).c_str(), p.c_str(), show(got).c_str(), show(want).c_str());
            }
            probe("formatted");
            break;
         }
         case 8: logLine("line"); break;
         default:
            if(W(2)) { files(); break; }
            { i64 s = (i64)W(2000000000) - 1000000000; double x = (double)s + W(8) / 8.0; i64 t = 978307200000ll + (i64)(x * 1000); Date d = Date::fromNSDate(x); if(d.time() != t) fail("make", "fromNSDate(%f) is %lld instead of %lld", x, (long long)d.time(), (long long)t); }
            break;
      }
   }

   void run()
   {
      setStepCap(400000000);
      setReal(genMs() % 7000000000000ll * 1000000 + W(1000000));
      initLib();
      jm::System::logEnableDate(true); jm::System::logEnableLabel(LogLevel::kError);
      out = new CoutSink();
      { DateFormatter::format(J("dd.MM.yyyy EEEE MMMM"), Date((int64)0)); logLine("start"); }
      if(W(3))
      {
         u64 live0 = liveBlocks();
         u32 n = 2 + Wlen(12);
         for(u32 i = 0; i < n; i++) op();
         out->buf = std::string(); out->buf.shrink_to_fit();
         if(liveBlocks() > live0) fail("leak", "%llu memory blocks are left over", (unsigned long long)(liveBlocks() - live0));
         if(n > 3) nontrivial();
         return;
      }
      // several threads share a formatter while the clock stalls and jumps
      u32 n = 2 + W(3);
      std::string p = genPattern(); DateFormatter f(J8(p));
      std::vector<i64> ts; for(u32 i = 0; i < n; i++) ts.push_back(genMs());
      schedConfig(60);
      enableTimeFaults(W(2) ? 0 : 30);
      for(u32 i = 0; i < n; i++) spawn("user", [&, i]
      {
         for(u32 k = 0; k < 3; k++)
         {
            Date d(ts[i]);
            String s = f.format(d);
            { NoPreempt np; std::string got = S(s), want = expectFormat(p, ts[i]); if(got != want) fail("format", "%s in the shared format %s is %s instead of %s", iso(ts[i]).c_str(), p.c_str(), show(got).c_str(), show(want).c_str()); }
            clockDate();
         }
      });
      joinAll();
      enableTimeFaults(0);
      nontrivial();
   }

   Registrar r22({"C22", run, 50000, 1500000,
      "1 to 14 readings of a clock that jumps, dates from times and fields of the years 1 to 9999 (often at the edges of days, months, leap years and centuries), formats, log lines and file times with failing stat calls, or 2-4 threads that share a formatter while the clock stalls and jumps. Non-trivial: more than three operations, or threads.",
      "distinct histories and interleavings (hash over operations, outcomes and context switches)",
      "Date, DateFormatter, String, I18nBundle, System::log, File::lastModified (instrumented build)",
      "clock, scheduler, file system, heap"});
}
