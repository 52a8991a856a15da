// Simulated file system and the libc entry points that reach it.
#include "internal.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <memory>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/xattr.h>
#include <utime.h>


namespace sim
{
   FaultCfg faults;
   enum NType { NFILE, NDIR, NLINK, NFIFO };
   struct Node
   {
      NType type = NFILE;
      u32 mode = 0644;
      std::string data;              // contents or link target
      std::map<std::string, int> ent;
      std::map<std::string, std::string> xa;
      i64 mtime = 0;
      int refs = 0;                  // open descriptors
      bool linked = true;
      u64 ino = 0;
   };
   struct Fd { bool used = false; int node = 0; i64 pos = 0; int flags = 0; FILE* fp = nullptr; std::string path; };
   enum { FD0 = 1000, NFD = 512 };
   struct Dir { u32 magic = 0xD1D1D1D1; int node; std::vector<std::pair<std::string, int>> list; size_t i = 0; struct dirent de; bool open = true; std::string path; };

   struct Fs
   {
      std::vector<Node> n;
      Fd fd[NFD];
      std::vector<Dir*> dirs;
      i64 cap = -1;
      std::string cwd = "/";
   };
   static Fs* fs;
   static u64 calls = 0;
   static FsErr errs;
   static int nFaults = 0;
   static bool lost = false;
   static int inCookie = 0;
   static int raceNo = 0;

   // File system metadata lives outside the checked heap.
   struct Off { bool was; Off(): was(g_on) { g_on = false; } ~Off() { g_on = was; } };

   FsErr fsErrs() { return errs; }
   u64 fsCalls() { return calls; }

   static int newNode(NType t, u32 mode)
   {
      Node x; x.type = t; x.mode = mode; x.mtime = nowReal(); x.ino = fs->n.size() + 2;
      fs->n.push_back(x);
      return (int)fs->n.size() - 1;
   }
   void fsReset()
   {
      Off o;
      fs = new Fs();
      newNode(NDIR, 0755);
      memset(&errs, 0, sizeof errs);
      calls = 0; nFaults = 0; lost = false;
      faults = FaultCfg();
   }
   void resetFs() { fsReset(); }

   //------------------------------------------------------------------ path resolution
   // Returns node or -errno.  parent/leaf are filled when the parent exists.
   struct Res { int node; int parent; std::string leaf; bool trail; };
   static int walk(const std::string& path, bool follow, Res& r, int depth = 0, int base = 0)
   {
      r.node = -ENOENT; r.parent = -1; r.leaf.clear(); r.trail = false;
      if(path.empty()) return -ENOENT;
      if(path.size() > 4095) return r.node = -ENAMETOOLONG;
      std::string p = path;
      int curN = 0;
      std::vector<int> stack;
      stack.push_back(0);
      if(p[0] != '/')
      {
         if(base == 0 && fs->cwd != "/") p = fs->cwd + "/" + p;
      }
      std::vector<std::string> parts;
      std::string c;
      for(size_t i = 0; i <= p.size(); i++)
      {
         if(i == p.size() || p[i] == '/') { if(!c.empty()) parts.push_back(c); c.clear(); }
         else c += p[i];
      }
      bool trail = !p.empty() && p.back() == '/';
      r.trail = trail;
      if(parts.empty()) { r.node = 0; r.parent = 0; return 0; }
      for(size_t i = 0; i < parts.size(); i++)
      {
         bool last = i + 1 == parts.size();
         Node& d = fs->n[curN];
         if(d.type != NDIR) { return r.node = -ENOTDIR; }
         if(!(d.mode & 0100)) { return r.node = -EACCES; }
         if(parts[i].size() > 255) { return r.node = -ENAMETOOLONG; }
         if(parts[i] == ".") { if(last) { r.node = curN; r.parent = curN; r.leaf = "."; } continue; }
         if(parts[i] == "..")
         {
            if(stack.size() > 1) stack.pop_back();
            curN = stack.back();
            if(last) { r.node = curN; r.parent = curN; r.leaf = ".."; }
            continue;
         }
         if(last) { r.parent = curN; r.leaf = parts[i]; }
         auto it = d.ent.find(parts[i]);
         if(it == d.ent.end()) { return r.node = -ENOENT; }
         int nx = it->second;
         if(fs->n[nx].type == NLINK && (!last || follow || trail))
         {
            if(depth > 20) return r.node = -ELOOP;
            // rebuild the remaining path
            std::string t = fs->n[nx].data, rest;
            for(size_t k = i + 1; k < parts.size(); k++) rest += "/" + parts[k];
            if(trail) rest += "/";
            std::string full;
            if(!t.empty() && t[0] == '/') full = t + rest;
            else
            {
               std::string pre;
               for(size_t k = 0; k < i; k++) pre += "/" + parts[k];
               full = pre + "/" + t + rest;
            }
            int rc = walk(full, follow, r, depth + 1);
            return rc;
         }
         curN = nx;
         stack.push_back(nx);
         if(last) r.node = nx;
      }
      if(r.node >= 0 && trail && fs->n[r.node].type != NDIR) return r.node = -ENOTDIR;
      return r.node;
   }
   static int find(const std::string& path, bool follow = true) { Res r; return walk(path, follow, r); }

   //------------------------------------------------------------------ faults
   static bool injErr;          // the error that follows was injected
   static void enter(const char* op)
   {
      calls++; sh->fsCalls++; injErr = false;
      if(faults.crashAt >= 0 && (i64)calls > faults.crashAt)
      {
         fault("crash");
         log("CRASH before %s (fs call %llu)", op, (unsigned long long)calls);
         crashNow();
      }
      if((faults.mask & FK_STALL) && faults.perMille && Fp(faults.perMille, 1000)) { fault("io_stall"); advance(50000000ull * (1 + F(4))); }
      if(!inCookie) { bool w = g_on; g_on = true; yield(); g_on = w; }
      if(fsOther && !inCookie) { auto f = fsOther; fsOther = nullptr; f(op); fsOther = f; }
   }
   static bool inj(u32 kind, const char* name)
   {
      // a device that is gone (pulled out, server unreachable) fails every call until the faults end
      const u32 gone = FK_OPEN_ERR | FK_READ_ERR | FK_WRITE_ERR | FK_CLOSE_ERR | FK_META_ERR | FK_XATTR_ERR | FK_SEEK_ERR | FK_STAT_ERR | FK_READDIR_ERR | FK_DIR_OPEN_ERR | FK_ACCESS_ERR;
      if(!faults.mask) lost = false;
      if(!(faults.mask & kind) || !faults.perMille) return false;
      if(faults.maxFaults >= 0 && nFaults >= faults.maxFaults) return false;
      bool all = lost && (kind & gone);
      if(!all && !Fp(faults.perMille, 1000)) return false;
      nFaults++;
      fault(name);
      if(!all && (kind & gone) && faults.maxFaults < 0 && F(8) == 7) { lost = true; fault("device_lost"); log("fs: the device is gone"); }
      injErr = true;
      return true;
   }
   static int pickErr(std::initializer_list<int> l) { return l.begin()[F((u32)l.size())]; }
   static int err(int e, const char* op, u64 FsErr::* m)
   {
      // what follows from the state of the files is an answer as well: it does not excuse a failure
      if(!injErr && (e == ENOENT || e == ENOTDIR || e == EBADF || e == EISDIR || e == EINVAL || e == EEXIST || e == ENOTEMPTY || e == EFAULT)) { errs.lastErrno = errno = e; log("fs: %s -> errno %d (state)", op, e); return -1; }
      injErr = false;
      errs.count++; errs.lastErrno = e; errs.lastOp = op; errs.*m += 1; errs.opErr++;
      errno = e;
      log("fs: %s -> errno %d", op, e);
      return -1;
   }

   // "there is no such file" is the right answer to a question, not a failure
   static int answer(int e, const char* op)
   {
      if(e != ENOENT && e != ENOTDIR && e != EEXIST) return err(e, op, &FsErr::statErr);
      errno = e;
      log("fs: %s -> errno %d", op, e);
      return -1;
   }

   static i64 used()
   {
      i64 s = 0;
      for(Node& x : fs->n) if(x.type == NFILE && (x.linked || x.refs)) s += (i64)x.data.size();
      return s;
   }
   static void touch(int n) { fs->n[n].mtime = nowReal(); }

   //------------------------------------------------------------------ operations
   static int doOpen(const char* path, int flags, u32 mode)
   {
      Off o;
      enter("open");
      if(!path) return err(EFAULT, "open", &FsErr::openErr);
      if(inj(FK_OPEN_ERR, "open_error")) { int e = pickErr({EIO, EACCES, EMFILE, ENFILE, ENOSPC, EROFS, ETIMEDOUT}); if((e == ENOSPC || e == EROFS) && (flags & O_ACCMODE) == O_RDONLY) e = EIO; return err(e, "open", &FsErr::openErr); }
      Res r;
      bool excl = (flags & O_CREAT) && (flags & O_EXCL);
      int n = walk(path, !excl, r);
      bool wr = (flags & O_ACCMODE) != O_RDONLY;
      bool created = false;
      if(n < 0)
      {
         if(n != -ENOENT || !(flags & O_CREAT) || r.parent < 0 || r.leaf.empty() || r.trail) return err(n == -ENOENT && (flags & O_CREAT) && r.trail && r.parent >= 0 ? EISDIR : -n, "open", &FsErr::openErr);
         if(!(fs->n[r.parent].mode & 0200)) return err(EACCES, "open", &FsErr::openErr);
         n = newNode(NFILE, mode & 0777 & ~022);
         fs->n[r.parent].ent[r.leaf] = n;
         created = true;
      }
      Node& x = fs->n[n];
      if(excl && !created) return answer(EEXIST, "open");
      if(x.type == NDIR && (wr || (flags & O_CREAT))) return err(EISDIR, "open", &FsErr::openErr);
      if((flags & O_DIRECTORY) && x.type != NDIR) return err(ENOTDIR, "open", &FsErr::openErr);
      if(!created)
      {
         int acc = flags & O_ACCMODE;
         if((acc == O_RDONLY || acc == O_RDWR) && !(x.mode & 0400)) return err(EACCES, "open", &FsErr::openErr);
         if(wr && !(x.mode & 0200)) return err(EACCES, "open", &FsErr::openErr);
      }
      if((flags & O_TRUNC) && wr && x.type == NFILE) { x.data.clear(); touch(n); }
      for(int i = 0; i < NFD; i++) if(!fs->fd[i].used)
      {
         Fd& f = fs->fd[i];
         f.used = true; f.node = n; f.pos = 0; f.flags = flags; f.fp = nullptr; f.path = path;
         x.refs++;
         log("fs: open %s flags %d", path, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND | O_EXCL));
         return FD0 + i;
      }
      return err(EMFILE, "open", &FsErr::openErr);
   }
   static Fd* getFd(int fd) { if(fd < FD0 || fd >= FD0 + NFD || !fs || !fs->fd[fd - FD0].used) return nullptr; return &fs->fd[fd - FD0]; }

   static ssize_t doRead(int fd, void* buf, size_t n, i64 at)
   {
      Off o;
      Fd* f = getFd(fd);
      if(!f) return err(EBADF, "read", &FsErr::readErr);
      enter("read");
      if((f->flags & O_ACCMODE) == O_WRONLY) return err(EBADF, "read", &FsErr::readErr);
      if(fs->n[f->node].type == NDIR) return err(EISDIR, "read", &FsErr::readErr);
      if(inj(FK_READ_ERR, "read_error")) return err(EIO, "read", &FsErr::readErr);
      std::string& d = fs->n[f->node].data;
      i64 p = at >= 0 ? at : f->pos;
      size_t av = p >= (i64)d.size() ? 0 : d.size() - p;
      if(n > av) n = av;
      if(n > 1 && inj(FK_SHORT_READ, "short_read")) n = 1 + F((u32)std::min<size_t>(n - 1, 4096));
      memcpy(buf, d.data() + p, n);
      if(at < 0) f->pos += n;
      return (ssize_t)n;
   }
   static ssize_t doWrite(int fd, const void* buf, size_t n, i64 at)
   {
      Off o;
      Fd* f = getFd(fd);
      if(!f) return err(EBADF, "write", &FsErr::writeErr);
      // a crash can tear the write
      if(faults.crashAt >= 0 && (i64)calls + 1 > faults.crashAt && n > 0 && (f->flags & O_ACCMODE) != O_RDONLY)
      {
         size_t keep = F((u32)std::min<size_t>(n, 1 << 20) + 1);
         std::string& d = fs->n[f->node].data;
         i64 p = (f->flags & O_APPEND) ? (i64)d.size() : f->pos;
         if(keep) { if((i64)d.size() < p + (i64)keep) d.resize(p + keep); memcpy(&d[p], buf, keep); fault("torn_write"); }
         fault("crash");
         log("CRASH in write, %zu of %zu bytes stored", keep, n);
         calls++; sh->fsCalls++;
         crashNow();
      }
      enter("write");
      if((f->flags & O_ACCMODE) == O_RDONLY) return err(EBADF, "write", &FsErr::writeErr);
      if(inj(FK_WRITE_ERR, "write_error")) return err(EIO, "write", &FsErr::writeErr);
      if(inj(FK_ENOSPC, "disk_full"))
      {
         // part of the data fits, the rest does not
         size_t k = n > 1 ? F((u32)std::min<size_t>(n, 1 << 20)) : 0;
         if(k == 0) return err(ENOSPC, "write", &FsErr::writeErr);
         n = k;
         fs->cap = used() + (i64)k > fs->cap && fs->cap >= 0 ? fs->cap : used() + (i64)k;   // full from now on
      }
      std::string& d = fs->n[f->node].data;
      i64 p = at >= 0 ? at : ((f->flags & O_APPEND) ? (i64)d.size() : f->pos);
      if(fs->cap >= 0)
      {
         i64 grow = p + (i64)n - (i64)d.size();
         i64 room = fs->cap - used();
         if(grow > 0 && grow > room)
         {
            i64 fit = (i64)n - (grow - (room > 0 ? room : 0));
            if(fit <= 0) { fault("disk_full_hit"); return err(ENOSPC, "write", &FsErr::writeErr); }
            n = (size_t)fit;
         }
      }
      if(n > 1 && inj(FK_SHORT_WRITE, "short_write")) n = 1 + F((u32)std::min<size_t>(n - 1, 4096));
      if((i64)d.size() < p + (i64)n) d.resize(p + n);
      memcpy(&d[p], buf, n);
      if(at < 0) f->pos = p + n;
      touch(f->node);
      return (ssize_t)n;
   }
   static i64 doSeek(int fd, i64 off, int wh)
   {
      Off o;
      Fd* f = getFd(fd);
      if(!f) return err(EBADF, "lseek", &FsErr::metaErr);
      if(inj(FK_SEEK_ERR, "seek_error")) return err(EIO, "lseek", &FsErr::metaErr);
      i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : (i64)fs->n[f->node].data.size();
      i64 r = b + off;
      if(r < 0) { errno = EINVAL; return -1; }
      f->pos = r;
      return r;
   }
   static int doClose(int fd)
   {
      Off o;
      Fd* f = getFd(fd);
      if(!f) return err(EBADF, "close", &FsErr::closeErr);
      enter("close");
      f->used = false; f->fp = nullptr;
      fs->n[f->node].refs--;
      log("fs: close %s", f->path.c_str());
      if(inj(FK_CLOSE_ERR, "close_error")) return err(pickErr({EIO, ENOSPC, EDQUOT}), "close", &FsErr::closeErr);
      return 0;
   }
   static int doStat(const char* path, struct stat* st, bool follow, int fd = -1)
   {
      Off o;
      enter("stat");
      int n;
      // what a failed call leaves in the caller's buffer is unspecified
      auto bad = [&](int e) { memset(st, 0xFF, sizeof *st); return err(e, "stat", &FsErr::statErr); };
      if(fd >= 0) { Fd* f = getFd(fd); if(!f) return bad(EBADF); n = f->node; }
      else if(!path) return bad(EFAULT);
      else n = find(path, follow);
      if(n < 0) { memset(st, 0xFF, sizeof *st); return answer(-n, "stat"); }
      if(inj(FK_STAT_ERR, "stat_error")) return bad(pickErr({EIO, EACCES}));
      Node& x = fs->n[n];
      memset(st, 0, sizeof *st);
      st->st_ino = x.ino;
      st->st_mode = (x.type == NDIR ? S_IFDIR : x.type == NLINK ? S_IFLNK : x.type == NFIFO ? S_IFIFO : S_IFREG) | x.mode;
      st->st_nlink = 1;
      st->st_uid = st->st_gid = 1000;
      st->st_size = x.type == NDIR ? 4096 : (off_t)x.data.size();
      st->st_blksize = 4096;
      st->st_blocks = (x.data.size() + 511) / 512;
      i64 s = x.mtime / 1000000000, r = x.mtime % 1000000000;
      if(r < 0) { r += 1000000000; s--; }
      st->st_mtim.tv_sec = s; st->st_mtim.tv_nsec = r;
      st->st_atim = st->st_ctim = st->st_mtim;
      return 0;
   }
   static bool dirEmpty(int n) { return fs->n[n].ent.empty(); }
   static int metaFault(const char* op)
   {
      if(inj(FK_META_ERR, "metadata_error")) { int e = !strcmp(op, "rename") ? pickErr({EIO, EACCES, ENOSPC, EROFS, EBUSY, EXDEV, EXDEV}) : pickErr({EIO, EACCES, ENOSPC, EROFS, EBUSY}); err(e, op, &FsErr::metaErr); return e; }
      return 0;
   }
   static int doMkdir(const char* path, u32 mode)
   {
      Off o;
      enter("mkdir");
      if(!path) return err(EFAULT, "mkdir", &FsErr::metaErr);
      if(metaFault("mkdir")) return -1;
      Res r; int n = walk(path, false, r);
      if(n >= 0) return answer(EEXIST, "mkdir");
      if(n != -ENOENT || r.parent < 0 || r.leaf.empty()) return err(-n, "mkdir", &FsErr::metaErr);
      if(!(fs->n[r.parent].mode & 0200)) return err(EACCES, "mkdir", &FsErr::metaErr);
      int d = newNode(NDIR, mode & 0777 & ~022);
      fs->n[r.parent].ent[r.leaf] = d;
      log("fs: mkdir %s", path);
      return 0;
   }
   static int doUnlink(const char* path, bool dir, bool any)
   {
      Off o;
      const char* op = dir ? "rmdir" : "unlink";
      enter(op);
      if(!path) return err(EFAULT, op, &FsErr::metaErr);
      if(metaFault(op)) return -1;
      Res r; int n = walk(path, false, r);
      if(n < 0) return err(-n, op, &FsErr::metaErr);
      if(n == 0) return err(EBUSY, op, &FsErr::metaErr);
      if(any) dir = fs->n[n].type == NDIR;
      if(dir)
      {
         if(r.leaf == "." ) return err(EINVAL, op, &FsErr::metaErr);
         if(r.leaf == "..") return err(ENOTEMPTY, op, &FsErr::metaErr);
         if(fs->n[n].type != NDIR) return err(ENOTDIR, op, &FsErr::metaErr);
         if(!dirEmpty(n)) return err(ENOTEMPTY, op, &FsErr::metaErr);
      }
      else if(fs->n[n].type == NDIR) return err(EISDIR, op, &FsErr::metaErr);
      if(!(fs->n[r.parent].mode & 0200)) return err(EACCES, op, &FsErr::metaErr);
      fs->n[r.parent].ent.erase(r.leaf);
      fs->n[n].linked = false;
      log("fs: %s %s", op, path);
      return 0;
   }
   static bool inside(int dir, int what)
   {
      if(dir == what) return true;
      for(auto& e : fs->n[dir].ent) if(fs->n[e.second].type == NDIR && inside(e.second, what)) return true;
      return false;
   }
   static int doRename(const char* a, const char* b)
   {
      Off o;
      enter("rename");
      if(!a || !b) return err(EFAULT, "rename", &FsErr::metaErr);
      if(metaFault("rename")) return -1;
      Res ra, rb;
      int na = walk(a, false, ra);
      if(na < 0) return err(-na, "rename", &FsErr::metaErr);
      int nb = walk(b, false, rb);
      if(nb < 0 && (nb != -ENOENT || rb.parent < 0 || rb.leaf.empty())) return err(-nb, "rename", &FsErr::metaErr);
      if(na == 0 || nb == 0 || ra.leaf == "." || ra.leaf == ".." || rb.leaf == "." || rb.leaf == "..") return err(EBUSY, "rename", &FsErr::metaErr);
      if(na == nb) return 0;
      Node& x = fs->n[na];
      if(!(fs->n[ra.parent].mode & 0200) || !(fs->n[rb.parent].mode & 0200)) return err(EACCES, "rename", &FsErr::metaErr);
      if(x.type == NDIR && inside(na, rb.parent)) return err(EINVAL, "rename", &FsErr::metaErr);
      if(nb >= 0)
      {
         if(fs->n[nb].type == NDIR && x.type != NDIR) return err(EISDIR, "rename", &FsErr::metaErr);
         if(fs->n[nb].type != NDIR && x.type == NDIR) return err(ENOTDIR, "rename", &FsErr::metaErr);
         if(fs->n[nb].type == NDIR && !dirEmpty(nb)) return err(ENOTEMPTY, "rename", &FsErr::metaErr);
         fs->n[nb].linked = false;
      }
      else if(rb.trail && x.type != NDIR) return err(ENOTDIR, "rename", &FsErr::metaErr);
      fs->n[ra.parent].ent.erase(ra.leaf);
      fs->n[rb.parent].ent[rb.leaf] = na;
      log("fs: rename %s %s", a, b);
      return 0;
   }

   //------------------------------------------------------------------ directory streams
   static void fillDir(Dir* d)
   {
      d->list.clear(); d->i = 0;
      d->list.push_back({".", DT_DIR}); d->list.push_back({"..", DT_DIR});
      for(auto& e : fs->n[d->node].ent)
      {
         NType t = fs->n[e.second].type;
         d->list.push_back({e.first, t == NDIR ? DT_DIR : t == NLINK ? DT_LNK : t == NFIFO ? DT_FIFO : DT_REG});
      }
      if(faults.mask & FK_DIR_ORDER)
      {
         bool changed = false;
         for(size_t i = d->list.size(); i > 1; i--) { u32 k = F((u32)i); size_t j = i - 1 - k; if(j != i - 1) { std::swap(d->list[i - 1], d->list[j]); changed = true; } }
         if(changed) fault("dir_order");
      }
   }
   static void race(Dir* d)
   {
      if(!inj(FK_DIR_RACE, "dir_race")) return;
      Node& x = fs->n[d->node];
      if(F(2) == 0 || x.ent.empty())
      {
         u32 k = 1 + F(3);
         for(u32 i = 0; i < k; i++)
         {
            char nm[32]; snprintf(nm, sizeof nm, "raced%d", raceNo++);
            int f = newNode(NFILE, 0644);
            fs->n[d->node].ent[nm] = f;
            log("fs: another process creates %s/%s", d->path.c_str(), nm);
         }
      }
      else
      {
         auto it = x.ent.begin();
         std::advance(it, F((u32)x.ent.size()));
         if(fs->n[it->second].type == NDIR && !dirEmpty(it->second)) return;
         log("fs: another process removes %s/%s", d->path.c_str(), it->first.c_str());
         fs->n[it->second].linked = false;
         x.ent.erase(it);
      }
   }
   static Dir* doOpendir(const char* path)
   {
      Off o;
      enter("opendir");
      if(inj(FK_DIR_OPEN_ERR, "opendir_error")) { err(pickErr({EMFILE, EIO, EACCES}), "opendir", &FsErr::dirErr); return nullptr; }
      int n = path ? find(path, true) : -EFAULT;
      if(n < 0) { err(-n, "opendir", &FsErr::dirErr); return nullptr; }
      if(fs->n[n].type != NDIR) { err(ENOTDIR, "opendir", &FsErr::dirErr); return nullptr; }
      if(!(fs->n[n].mode & 0400)) { err(EACCES, "opendir", &FsErr::dirErr); return nullptr; }
      Dir* d = new Dir();
      d->node = n; d->path = path;
      fillDir(d);
      fs->dirs.push_back(d);
      return d;
   }
   static struct dirent* doReaddir(Dir* d)
   {
      Off o;
      if(!d || d->magic != 0xD1D1D1D1 || !d->open) fail("bad-dir-handle", "readdir on a directory stream that is not open; %s", symbolizeStack().c_str());
      enter("readdir");
      race(d);
      if(inj(FK_READDIR_ERR, "readdir_error")) { err(EIO, "readdir", &FsErr::dirErr); return nullptr; }
      // an entry removed since the scan began need not be returned
      while(d->i < d->list.size())
      {
         auto& e = d->list[d->i++];
         if(e.first != "." && e.first != ".." && !fs->n[d->node].ent.count(e.first)) continue;
         memset(&d->de, 0, sizeof d->de);
         strncpy(d->de.d_name, e.first.c_str(), sizeof d->de.d_name - 1);
         d->de.d_type = fsNoTypes ? DT_UNKNOWN : (unsigned char)e.second;
         d->de.d_reclen = sizeof d->de;
         return &d->de;
      }
      return nullptr;
   }
   static void doRewind(Dir* d)
   {
      Off o;
      if(!d || d->magic != 0xD1D1D1D1 || !d->open) fail("bad-dir-handle", "rewinddir on a directory stream that is not open; %s", symbolizeStack().c_str());
      enter("rewinddir");
      race(d);
      fillDir(d);
   }
   static int doClosedir(Dir* d)
   {
      Off o;
      if(!d || d->magic != 0xD1D1D1D1 || !d->open) fail("bad-dir-handle", "closedir on a directory stream that is not open; %s", symbolizeStack().c_str());
      enter("closedir");
      d->open = false;
      fs->dirs.erase(std::remove(fs->dirs.begin(), fs->dirs.end(), d), fs->dirs.end());
      return 0;
   }

   //------------------------------------------------------------------ harness access
   static std::string str(const std::string& s) { return std::string(s.data(), s.size()); }
   bool fsExists(const std::string& p) { Off o; return find(p, false) >= 0; }
   bool fsIsDir(const std::string& p) { Off o; int n = find(p, false); return n >= 0 && fs->n[n].type == NDIR; }
   bool fsIsFile(const std::string& p) { Off o; int n = find(p, false); return n >= 0 && fs->n[n].type == NFILE; }
   std::string fsRead(const std::string& p) { int n; { Off o; n = find(p, true); } return n < 0 ? std::string() : str(fs->n[n].data); }
   void fsMkdirs(const std::string& p)
   {
      Off o;
      std::string c;
      for(size_t i = 1; i <= p.size(); i++) if(i == p.size() || p[i] == '/')
      {
         c = p.substr(0, i);
         Res r; int n = walk(c, true, r);
         if(n < 0 && r.parent >= 0) { int d = newNode(NDIR, 0755); fs->n[r.parent].ent[r.leaf] = d; }
      }
   }
   static int put(const std::string& p, NType t)
   {
      Res r; int n = walk(p, t == NLINK ? false : true, r);
      if(n < 0) { if(r.parent < 0) return -1; n = newNode(t, t == NLINK ? 0777 : 0644); fs->n[r.parent].ent[r.leaf] = n; }
      return n;
   }
   void fsWrite(const std::string& p, const std::string& d) { Off o; int n = put(p, NFILE); if(n >= 0) { fs->n[n].data.assign(d.data(), d.size()); touch(n); } }
   void fsSymlink(const std::string& t, const std::string& p) { Off o; int n = put(p, NLINK); if(n >= 0) fs->n[n].data.assign(t.data(), t.size()); }
   void fsFifo(const std::string& p) { Off o; put(p, NFIFO); }
   void fsRemove(const std::string& p) { Off o; Res r; int n = walk(p, false, r); if(n > 0) { fs->n[r.parent].ent.erase(r.leaf); fs->n[n].linked = false; } }
   void fsChmod(const std::string& p, u32 m) { Off o; int n = find(p); if(n >= 0) fs->n[n].mode = m; }
   u32 fsMode(const std::string& p) { Off o; int n = find(p); return n >= 0 ? fs->n[n].mode : 0; }
   std::vector<std::string> fsList(const std::string& p)
   {
      std::vector<std::string> v;
      int n; { Off o; n = find(p); }
      if(n >= 0) for(auto& e : fs->n[n].ent) v.push_back(str(e.first));
      return v;
   }
   std::string fsGetXattr(const std::string& p, const std::string& k, bool& ok)
   {
      int n; { Off o; n = find(p); }
      ok = false;
      if(n < 0) return "";
      auto it = fs->n[n].xa.find(k);
      if(it == fs->n[n].xa.end()) return "";
      ok = true; return str(it->second);
   }
   void fsRemoveXattr(const std::string& p, const std::string& k) { Off o; int n = find(p); if(n >= 0) fs->n[n].xa.erase(k); }
   void fsSetXattr(const std::string& p, const std::string& k, const std::string& v) { Off o; int n = find(p); if(n >= 0) fs->n[n].xa[k].assign(v.data(), v.size()); }
   i64 fsMtimeNs(const std::string& p) { Off o; int n = find(p, false); return n < 0 ? 0 : fs->n[n].mtime; }
   void fsSetMtimeNs(const std::string& p, i64 t) { Off o; int n = find(p, false); if(n >= 0) fs->n[n].mtime = t; }
   void fsFlip(const std::string& p, u64 bit) { Off o; int n = find(p); if(n >= 0 && bit / 8 < fs->n[n].data.size()) { fs->n[n].data[bit / 8] ^= (char)(1 << (bit & 7)); } }
   bool fsNoTypes = false;
   void fsSetCapacity(i64 b) { fs->cap = b; }
   int fsOpenFds() { int c = 0; for(Fd& f : fs->fd) c += f.used; return c; }
   int fsOpenDirs() { return (int)fs->dirs.size(); }
   int fsOpenHandles() { return fsOpenFds() + fsOpenDirs(); }
   static void dump(int n, const std::string& path, std::string& out)
   {
      Node& x = fs->n[n];
      char b[64];
      static const char* tn = "fdlp";
      snprintf(b, sizeof b, "%c %o %zu ", tn[x.type], x.mode, x.data.size());
      out += b; out += path;
      if(x.type == NLINK) out += " -> " + x.data;
      u64 h = 1469598103934665603ULL; for(char c : x.data) h = (h ^ (u8)c) * 1099511628211ULL;
      snprintf(b, sizeof b, " %016llx", (unsigned long long)h); out += b;
      for(auto& a : x.xa) out += " {" + a.first + "=" + a.second + "}";
      out += "\n";
      for(auto& e : x.ent) dump(e.second, path + (path == "/" ? "" : "/") + e.first, out);
   }
   std::string fsDump() { std::string s; { Off o; std::string t; dump(0, "/", t); s.swap(t); } return s; }

   static void snapNode(int n, const std::string& path, std::map<std::string, std::string>& out)
   {
      Node& x = fs->n[n];
      char b[32]; snprintf(b, sizeof b, "%c%o:", "fdlp"[x.type], x.mode);
      std::string v = b + x.data;
      for(auto& a : x.xa) v += "\n{" + a.first + "=" + a.second + "}";
      out[path] = v;
      for(auto& e : x.ent) snapNode(e.second, path + "/" + e.first, out);
   }
   std::map<std::string, std::string> fsSnapshot(const std::string& dir)
   {
      Off o;
      std::map<std::string, std::string> r;
      int n = find(dir);
      if(n >= 0) for(auto& e : fs->n[n].ent) snapNode(e.second, dir + "/" + e.first, r);
      return r;
   }

   static bool pathOf(int dir, int want, const std::string& at, std::string& out)
   {
      if(dir == want) { out = at; return true; }
      for(auto& e : fs->n[dir].ent) if(fs->n[e.second].type == NDIR && pathOf(e.second, want, at + "/" + e.first, out)) return true;
      return false;
   }
   // the place an entry really is at: links in the parent (and, with follow, the entry itself) resolved; empty if there is no such place
   std::string fsReal(const std::string& p, bool follow)
   {
      std::string s;
      { Off o; std::string t; Res r; walk(p, follow, r); std::string d; if(r.parent >= 0 && pathOf(0, r.parent, "", d)) { if(r.parent == r.node) t = d; else t = d + "/" + r.leaf; } else t.clear(); s.swap(t); }
      return s;
   }

   // serialisation across simulated process boundaries
   static void ps(std::string& o, const std::string& s) { u32 n = (u32)s.size(); o.append((char*)&n, 4); o += s; }
   static void pi(std::string& o, i64 v) { o.append((char*)&v, 8); }
   std::string fsSerialize()
   {
      std::string o;
      pi(o, fs->cap); pi(o, raceNo); pi(o, (i64)fs->n.size());
      for(Node& x : fs->n)
      {
         pi(o, x.type); pi(o, x.mode); pi(o, x.mtime); pi(o, x.linked); pi(o, (i64)x.ino);
         ps(o, x.linked ? x.data : std::string());
         pi(o, (i64)x.ent.size()); for(auto& e : x.ent) { ps(o, e.first); pi(o, e.second); }
         pi(o, (i64)x.xa.size()); for(auto& e : x.xa) { ps(o, e.first); ps(o, e.second); }
      }
      return o;
   }
   void fsDeserialize(const std::string& s)
   {
      size_t p = 0;
      auto gi = [&] { i64 v; memcpy(&v, s.data() + p, 8); p += 8; return v; };
      auto gs = [&] { u32 n; memcpy(&n, s.data() + p, 4); p += 4; std::string r(s.data() + p, n); p += n; return r; };
      fs = new Fs();
      fs->cap = gi(); raceNo = (int)gi();
      i64 cnt = gi();
      for(i64 i = 0; i < cnt; i++)
      {
         Node x;
         x.type = (NType)gi(); x.mode = (u32)gi(); x.mtime = gi(); x.linked = gi(); x.ino = (u64)gi();
         x.data = gs();
         i64 e = gi(); while(e-- > 0) { std::string k = gs(); x.ent[k] = (int)gi(); }
         e = gi(); while(e-- > 0) { std::string k = gs(); x.xa[k] = gs(); }
         fs->n.push_back(x);
      }
   }

   //------------------------------------------------------------------ stdio on top of it
   static ssize_t ckRead(void* c, char* b, size_t n) { inCookie++; ssize_t r = doRead((int)(long)c, b, n, -1); inCookie--; return r; }
   static ssize_t ckWrite(void* c, const char* b, size_t n)
   {
      // stdio on a real descriptor retries short writes until an error
      inCookie++;
      size_t k = 0;
      while(k < n)
      {
         ssize_t r = doWrite((int)(long)c, b + k, n - k, -1);
         if(r < 0) break;
         k += (size_t)r;
      }
      inCookie--;
      // a cookie stream forgets to advance the cached offset that a stream on a descriptor keeps
      FILE* fp = fs->fd[(int)(long)c - FD0].fp;
      if(fp && fp->_offset >= 0) fp->_offset += (off64_t)k;
      return (ssize_t)k;
   }
   static int ckSeek(void* c, off64_t* o, int w) { inCookie++; i64 r = doSeek((int)(long)c, *o, w); inCookie--; if(r < 0) return -1; *o = r; return 0; }
   static int ckClose(void* c) { inCookie++; int r = doClose((int)(long)c); inCookie--; return r; }

   static FILE* wrapFd(int fd, const char* mode)
   {
      cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
      char m[4]; int k = 0;
      m[k++] = mode[0];
      if(strchr(mode, '+')) m[k++] = '+';
      m[k] = 0;
      FILE* f = fopencookie((void*)(long)fd, m, io);
      if(f) fs->fd[fd - FD0].fp = f;
      return f;
   }
   static FILE* simFopen(const char* path, const char* mode)
   {
      int fl;
      bool plus = strchr(mode, '+') != nullptr;
      switch(mode[0])
      {
         case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
         case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
         case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
         default: errno = EINVAL; return nullptr;
      }
      if(strchr(mode, 'x')) fl |= O_EXCL;
      int fd = doOpen(path, fl, 0666);
      if(fd < 0) return nullptr;
      return wrapFd(fd, mode);
   }
}

using namespace sim;
static int efault(int e) { errno = e; return -1; }

extern "C"
{
   FILE* fopen(const char* p, const char* m) { return g_on ? simFopen(p, m) : REAL(fopen)(p, m); }
   FILE* fopen64(const char* p, const char* m) { return g_on ? simFopen(p, m) : REAL(fopen64)(p, m); }
   FILE* fdopen(int fd, const char* m) { return fd >= FD0 ? (getFd(fd) ? wrapFd(fd, m) : (errno = EBADF, nullptr)) : REAL(fdopen)(fd, m); }
   int fileno(FILE* f)
   {
      if(fs && g_on) for(int i = 0; i < NFD; i++) if(fs->fd[i].used && fs->fd[i].fp == f) return FD0 + i;
      return REAL(fileno)(f);
   }
   // Using a FILE after it was closed is reported instead of corrupting the C library's heap.
   static void liveFile(FILE* f, const char* op)
   {
      if(f == stdin || f == stdout || f == stderr) return;
      for(int i = 0; i < NFD; i++) if(fs->fd[i].used && fs->fd[i].fp == f) return;
      fail("bad-file-handle", "%s on a FILE that is not open; %s", op, symbolizeStack().c_str());
   }
   int fclose(FILE* f) { if(g_on) liveFile(f, "fclose"); return REAL(fclose)(f); }
   size_t fread(void* b, size_t s, size_t n, FILE* f) { if(g_on) liveFile(f, "fread"); return REAL(fread)(b, s, n, f); }
   size_t fwrite(const void* b, size_t s, size_t n, FILE* f) { if(g_on) liveFile(f, "fwrite"); return REAL(fwrite)(b, s, n, f); }
   int fseek(FILE* f, long o, int w) { if(g_on) liveFile(f, "fseek"); return REAL(fseek)(f, o, w); }
   int fseeko(FILE* f, off_t o, int w) { if(g_on) liveFile(f, "fseeko"); return REAL(fseeko)(f, o, w); }
   long ftell(FILE* f) { if(g_on) liveFile(f, "ftell"); return REAL(ftell)(f); }
   off_t ftello(FILE* f) { if(g_on) liveFile(f, "ftello"); return REAL(ftello)(f); }
   int fflush(FILE* f) { if(g_on && f) liveFile(f, "fflush"); return REAL(fflush)(f); }

   int open(const char* p, int fl, ...)
   {
      va_list ap; va_start(ap, fl); u32 mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, u32) : 0; va_end(ap);
      if(g_on) return doOpen(p, fl, mode);
      return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
   }
   int open64(const char* p, int fl, ...)
   {
      va_list ap; va_start(ap, fl); u32 mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, u32) : 0; va_end(ap);
      if(g_on) return doOpen(p, fl, mode);
      return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
   }
   int openat(int d, const char* p, int fl, ...)
   {
      va_list ap; va_start(ap, fl); u32 mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, u32) : 0; va_end(ap);
      if(g_on) return doOpen(p, fl, mode);
      return (int)syscall(SYS_openat, d, p, fl, mode);
   }
   int creat(const char* p, mode_t m) { return g_on ? doOpen(p, O_CREAT | O_WRONLY | O_TRUNC, m) : REAL(creat)(p, m); }
   ssize_t read(int fd, void* b, size_t n) { return fd >= FD0 && g_on ? doRead(fd, b, n, -1) : (ssize_t)syscall(SYS_read, fd, b, n); }
   ssize_t write(int fd, const void* b, size_t n) { return fd >= FD0 && g_on ? doWrite(fd, b, n, -1) : (ssize_t)syscall(SYS_write, fd, b, n); }
   ssize_t pread(int fd, void* b, size_t n, off_t o) { return fd >= FD0 && g_on ? doRead(fd, b, n, o) : (ssize_t)syscall(SYS_pread64, fd, b, n, o); }
   ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
   ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return fd >= FD0 && g_on ? doWrite(fd, b, n, o) : (ssize_t)syscall(SYS_pwrite64, fd, b, n, o); }
   ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
   ssize_t writev(int fd, const struct iovec* v, int c)
   {
      if(!(fd >= FD0 && g_on)) return (ssize_t)syscall(SYS_writev, fd, v, c);
      ssize_t t = 0;
      for(int i = 0; i < c; i++) { ssize_t r = doWrite(fd, v[i].iov_base, v[i].iov_len, -1); if(r < 0) return t ? t : -1; t += r; if((size_t)r < v[i].iov_len) break; }
      return t;
   }
   off_t lseek(int fd, off_t o, int w) { return fd >= FD0 && g_on ? doSeek(fd, o, w) : (off_t)syscall(SYS_lseek, fd, o, w); }
   off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
   int close(int fd) { return fd >= FD0 && g_on ? doClose(fd) : (int)syscall(SYS_close, fd); }
   int fsync(int fd) { return fd >= FD0 && g_on ? (getFd(fd) ? 0 : efault(EBADF)) : (int)syscall(SYS_fsync, fd); }
   int fdatasync(int fd) { return fsync(fd); }
   int ftruncate(int fd, off_t n)
   {
      if(!(fd >= FD0 && g_on)) return (int)syscall(SYS_ftruncate, fd, n);
      Off o; Fd* f = getFd(fd);
      if(!f) return efault(EBADF);
      enter("ftruncate");
      if((f->flags & O_ACCMODE) == O_RDONLY) return efault(EINVAL);
      fs->n[f->node].data.resize(n); touch(f->node);
      return 0;
   }
   int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
   int truncate(const char* p, off_t n)
   {
      if(!g_on) return (int)syscall(SYS_truncate, p, n);
      Off o; enter("truncate"); int k = find(p);
      if(k < 0) return err(-k, "truncate", &FsErr::metaErr);
      fs->n[k].data.resize(n); touch(k); return 0;
   }
   int stat(const char* p, struct stat* s) { return g_on ? doStat(p, s, true) : (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
   int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
   int lstat(const char* p, struct stat* s) { return g_on ? doStat(p, s, false) : (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
   int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
   int fstat(int fd, struct stat* s) { return fd >= FD0 && g_on ? doStat("", s, true, fd) : (int)syscall(SYS_newfstatat, fd, "", s, AT_EMPTY_PATH); }
   int fstat64(int fd, struct stat64* s) { return fstat(fd, (struct stat*)s); }
   int fstatat(int d, const char* p, struct stat* s, int fl) { return g_on ? doStat(p, s, !(fl & AT_SYMLINK_NOFOLLOW)) : (int)syscall(SYS_newfstatat, d, p, s, fl); }
   int fstatat64(int d, const char* p, struct stat64* s, int fl) { return fstatat(d, p, (struct stat*)s, fl); }
   int access(const char* p, int m)
   {
      if(!g_on) return (int)syscall(SYS_faccessat, AT_FDCWD, p, m);
      Off o; enter("access"); if(!p) return err(EFAULT, "access", &FsErr::statErr);
      int n = find(p, true);
      if(n < 0) return answer(-n, "access");
      u32 md = fs->n[n].mode;
      if(((m & R_OK) && !(md & 0400)) || ((m & W_OK) && !(md & 0200)) || ((m & X_OK) && !(md & 0100))) return err(EACCES, "access", &FsErr::statErr);
      if(inj(FK_ACCESS_ERR, "access_error")) return err(pickErr({EIO, EACCES}), "access", &FsErr::statErr);
      return 0;
   }
   int faccessat(int d, const char* p, int m, int fl) { return g_on ? access(p, m) : REAL(faccessat)(d, p, m, fl); }
   int mkdir(const char* p, mode_t m) { return g_on ? doMkdir(p, m) : (int)syscall(SYS_mkdirat, AT_FDCWD, p, m); }
   int mkdirat(int d, const char* p, mode_t m) { return g_on ? doMkdir(p, m) : (int)syscall(SYS_mkdirat, d, p, m); }
   int rmdir(const char* p) { return g_on ? doUnlink(p, true, false) : (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
   int unlink(const char* p) { return g_on ? doUnlink(p, false, false) : (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
   int unlinkat(int d, const char* p, int fl) { return g_on ? doUnlink(p, fl & AT_REMOVEDIR, false) : (int)syscall(SYS_unlinkat, d, p, fl); }
   int remove(const char* p) { return g_on ? doUnlink(p, false, true) : REAL(remove)(p); }
   int rename(const char* a, const char* b) { return g_on ? doRename(a, b) : (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
   int renameat(int d, const char* a, int e, const char* b) { return g_on ? doRename(a, b) : (int)syscall(SYS_renameat, d, a, e, b); }
   int symlink(const char* t, const char* p)
   {
      if(!g_on) return REAL(symlink)(t, p);
      Off o; enter("symlink"); Res r; int n = walk(p, false, r);
      if(n >= 0) return err(EEXIST, "symlink", &FsErr::metaErr);
      if(r.parent < 0) return err(-n, "symlink", &FsErr::metaErr);
      int k = newNode(NLINK, 0777); fs->n[k].data = t; fs->n[r.parent].ent[r.leaf] = k; return 0;
   }
   ssize_t readlink(const char* p, char* b, size_t n)
   {
      if(!g_on) return REAL(readlink)(p, b, n);
      Off o; enter("readlink");
      int k = find(p, false);
      if(k < 0) return answer(-k, "readlink");
      if(fs->n[k].type != NLINK) return err(EINVAL, "readlink", &FsErr::statErr);
      size_t m = std::min(n, fs->n[k].data.size());
      memcpy(b, fs->n[k].data.data(), m);
      return (ssize_t)m;
   }
   int chmod(const char* p, mode_t m)
   {
      if(!g_on) return REAL(chmod)(p, m);
      Off o; enter("chmod"); int n = find(p); if(n < 0) return err(-n, "chmod", &FsErr::metaErr);
      fs->n[n].mode = m & 07777; return 0;
   }
   int utimensat(int d, const char* p, const struct timespec t[2], int fl)
   {
      if(!g_on) return REAL(utimensat)(d, p, t, fl);
      Off o; enter("utimens"); int n = find(p); if(n < 0) return err(-n, "utimens", &FsErr::metaErr);
      fs->n[n].mtime = t ? t[1].tv_sec * 1000000000ll + t[1].tv_nsec : nowReal(); return 0;
   }
   int utime(const char* p, const struct utimbuf* t)
   {
      if(!g_on) return REAL(utime)(p, t);
      Off o; enter("utime"); int n = find(p); if(n < 0) return err(-n, "utime", &FsErr::metaErr);
      fs->n[n].mtime = t ? t->modtime * 1000000000ll : nowReal(); return 0;
   }
   char* getcwd(char* b, size_t n)
   {
      if(!g_on) return REAL(getcwd)(b, n);
      if(env.on && env.cwdErr) { fault("getcwd_error"); errno = env.cwdErr; return nullptr; }
      if(b == nullptr) { b = (char*)malloc(n ? n : 256); n = n ? n : 256; }
      if(fs->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; }
      strcpy(b, fs->cwd.c_str());
      return b;
   }
   int chdir(const char* p)
   {
      if(!g_on) return REAL(chdir)(p);
      Off o; int n = find(p); if(n < 0) return err(-n, "chdir", &FsErr::metaErr);
      fs->cwd = p; return 0;
   }
   DIR* opendir(const char* p) { return g_on ? (DIR*)doOpendir(p) : REAL(opendir)(p); }
   struct dirent* readdir(DIR* d) { return g_on ? doReaddir((Dir*)d) : REAL(readdir)(d); }
   struct dirent64* readdir64(DIR* d) { return g_on ? (struct dirent64*)doReaddir((Dir*)d) : REAL(readdir64)(d); }
   void rewinddir(DIR* d) { if(g_on) doRewind((Dir*)d); else REAL(rewinddir)(d); }
   int closedir(DIR* d) { return g_on ? doClosedir((Dir*)d) : REAL(closedir)(d); }
   static ssize_t xget(int n, const char* k, void* v, size_t sz)
   {
      if(n < 0) return err(-n, "getxattr", &FsErr::xattrErr);
      if(inj(FK_XATTR_ERR, "xattr_error")) return err(pickErr({EIO, ENOTSUP, EACCES}), "getxattr", &FsErr::xattrErr);
      auto it = fs->n[n].xa.find(k);
      if(it == fs->n[n].xa.end()) { errno = ENODATA; return -1; }
      if(sz == 0) return (ssize_t)it->second.size();
      if(sz < it->second.size()) { errno = ERANGE; return -1; }
      memcpy(v, it->second.data(), it->second.size());
      return (ssize_t)it->second.size();
   }
   static int xset(int n, const char* k, const void* v, size_t sz, int fl)
   {
      if(n < 0) return err(-n, "setxattr", &FsErr::xattrErr);
      if(inj(FK_XATTR_ERR, "xattr_error")) return err(pickErr({EIO, ENOTSUP, ENOSPC, EACCES}), "setxattr", &FsErr::xattrErr);
      bool have = fs->n[n].xa.count(k);
      if((fl & XATTR_CREATE) && have) { errno = EEXIST; return -1; }
      if((fl & XATTR_REPLACE) && !have) { errno = ENODATA; return -1; }
      if(sz > 65536) { errno = ERANGE; return -1; }
      fs->n[n].xa[k].assign((const char*)v, sz);
      return 0;
   }
   ssize_t getxattr(const char* p, const char* k, void* v, size_t n) { if(!g_on) return REAL(getxattr)(p, k, v, n); Off o; enter("getxattr"); return xget(p ? find(p) : -EFAULT, k, v, n); }
   ssize_t lgetxattr(const char* p, const char* k, void* v, size_t n) { if(!g_on) return REAL(lgetxattr)(p, k, v, n); Off o; enter("getxattr"); return xget(find(p, false), k, v, n); }
   ssize_t fgetxattr(int fd, const char* k, void* v, size_t n) { if(!g_on) return REAL(fgetxattr)(fd, k, v, n); Off o; enter("getxattr"); Fd* f = getFd(fd); return xget(f ? f->node : -EBADF, k, v, n); }
   int setxattr(const char* p, const char* k, const void* v, size_t n, int fl) { if(!g_on) return REAL(setxattr)(p, k, v, n, fl); Off o; enter("setxattr"); return xset(p ? find(p) : -EFAULT, k, v, n, fl); }
   int lsetxattr(const char* p, const char* k, const void* v, size_t n, int fl) { if(!g_on) return REAL(lsetxattr)(p, k, v, n, fl); Off o; enter("setxattr"); return xset(find(p, false), k, v, n, fl); }
   int removexattr(const char* p, const char* k)
   {
      if(!g_on) return REAL(removexattr)(p, k);
      Off o; enter("removexattr"); int n = find(p); if(n < 0) return err(-n, "removexattr", &FsErr::xattrErr);
      if(!fs->n[n].xa.erase(k)) { errno = ENODATA; return -1; }
      return 0;
   }
}
