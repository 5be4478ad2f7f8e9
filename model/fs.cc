// The file system and stdio, for both the engine and the native replay. See fs.h.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <system_error>
#include "fs.h"
#include "vf.h"

#ifndef FS_CAP
#define FS_CAP 256
#endif

namespace {
constexpr uint64_t kFiles = 8, kName = 160;
struct Inode { uint64_t size, links, opens; unsigned char data[FS_CAP]; };
struct Entry { Inode* inode; char name[kName]; };
struct Stream {
  Inode* inode;
  uint64_t pos, pend;            // pend: bytes written but not yet in the file
  int readable, writable, append, eof, err, fd;
  unsigned char buf[FS_CAP];
};
Entry g_dir[kFiles];
uint64_t g_open;

// The C library's streams lock themselves; their inside is not part of any data race.
struct Quiet { Quiet() { if (fs_yield) { vf_yield(); vf_config("race", 0); } } ~Quiet() { if (fs_yield) vf_config("race", 1); } };
void seen() { if (fs_observer) fs_observer(); }
int* myErrno() { return &errno; }
bool fails(uint64_t what) {
  if (!fs_faults || !vf_flip("fault")) return false;
  fs_faults--;
  fs_failed |= what;
  if (fs_on_fail) fs_on_fail(what);
  *myErrno() = EIO;
  return true;
}
bool same(const char* a, const char* b) {
  uint64_t n = 0;
  while (a[n]) n++;
  unsigned diff = 0;
  for (uint64_t i = 0; i < n; i++) {
    if (!b[i]) return false;
    diff |= (unsigned char)a[i] ^ (unsigned char)b[i];
  }
  if (b[n]) return false;
  return diff == 0;
}
Entry* find(const char* name) {
  for (auto& e : g_dir)
    if (e.inode && same(e.name, name)) return &e;
  return nullptr;
}
void drop(Inode* i) {
  if (!i->links && !i->opens) free(i);
}
Entry* create(const char* name) {
  for (auto& e : g_dir)
    if (!e.inode) {
      uint64_t n = 0;
      while (name[n]) n++;
      if (n >= kName) vf_fail("model: name too long");
      memcpy(e.name, name, n + 1);
      e.inode = (Inode*)malloc(sizeof(Inode));
      e.inode->size = 0; e.inode->links = 1; e.inode->opens = 0;
      memset(e.inode->data, 0, FS_CAP);
      return &e;
    }
  vf_fail("model: too many files");
}
Stream* S(FILE* f) { return (Stream*)f; }
// moves the first k buffered bytes to the file
void flushSome(Stream* s, uint64_t k) {
  if (!k) return;
  if (s->append) s->pos = s->inode->size;
  if (s->pos + k > FS_CAP) vf_fail("model: file too large");
  memcpy(s->inode->data + s->pos, s->buf, k);
  memmove(s->buf, s->buf + k, s->pend - k);
  s->pos += k;
  s->pend -= k;
  if (s->pos > s->inode->size) s->inode->size = s->pos;
  seen();
}
// 0 on success
int flushAll(Stream* s, uint64_t what) {
  if (!s->pend) {
    if (fails(what)) { s->err = 1; return EOF; }
    return 0;
  }
  if (fails(what)) {
    flushSome(s, vf_choose(s->pend + 1, "flushed"));
    s->err = 1;
    return EOF;
  }
  flushSome(s, s->pend);
  return 0;
}
uint64_t put(Stream* s, const void* p, uint64_t n) {
  if (!s->writable) { s->err = 1; *myErrno() = EBADF; return 0; }
  uint64_t take = n;
  const bool bad = n && fails(FS_WRITE);
  if (bad) take = vf_choose(n, "written");
  if (s->pend + take > FS_CAP) vf_fail("model: file too large");
  memcpy(s->buf + s->pend, p, take);
  s->pend += take;
  if (bad) s->err = 1;
  if (fs_lazy == 0) flushSome(s, s->pend);
  else if (fs_lazy == 2 && s->pend) flushSome(s, vf_choose(s->pend + 1, "flushed"));
  return take;
}
int openFile(const char* name, int flags, Stream** out) {
  if (fails(FS_OPEN)) return -1;
  Entry* e = find(name);
  if (e && (flags & O_CREAT) && (flags & O_EXCL)) { fs_failed |= FS_EXISTS; *myErrno() = EEXIST; return -1; }
  if (!e && !(flags & O_CREAT)) { fs_failed |= FS_EXISTS; *myErrno() = ENOENT; return -1; }
  const bool isNew = !e;
  if (!e) e = create(name);
  else if (flags & O_TRUNC) e->inode->size = 0;
  Stream* s = (Stream*)malloc(sizeof(Stream));
  s->inode = e->inode;
  e->inode->opens++;
  s->pos = s->pend = 0;
  s->readable = (flags & O_ACCMODE) != O_WRONLY;
  s->writable = (flags & O_ACCMODE) != O_RDONLY;
  s->append = (flags & O_APPEND) != 0;
  s->eof = s->err = s->fd = 0;
  g_open++;
  if (isNew || (flags & O_TRUNC)) seen();
  *out = s;
  return 0;
}
void closeStream(Stream* s) {
  s->inode->opens--;
  drop(s->inode);
  free(s);
  g_open--;
}
int doRename(const char* a, const char* b) {
  if (fails(FS_RENAME)) return -1;
  Entry* from = find(a);
  if (!from) { *myErrno() = ENOENT; fs_failed |= FS_RENAME; return -1; }
  Entry* to = find(b);
  if (to == from) return 0;
  if (to) {
    to->inode->links--;
    drop(to->inode);
    to->inode = from->inode;
    from->inode = nullptr;
  } else {
    uint64_t n = 0;
    while (b[n]) n++;
    memcpy(from->name, b, n + 1);
  }
  seen();
  return 0;
}
int doRemove(const char* a) {
  if (fails(FS_REMOVE)) return -1;
  Entry* e = find(a);
  if (!e) { *myErrno() = ENOENT; return -1; }
  e->inode->links--;
  drop(e->inode);
  e->inode = nullptr;
  seen();
  return 0;
}
Stream* g_fd[8];
}  // namespace

extern "C" {
uint64_t fs_faults = 0, fs_failed = 0, fs_lazy = 1, fs_sizes = 0, fs_yield = 0, fs_splits = 0;
void (*fs_observer)() = nullptr;
void (*fs_on_fail)(uint64_t) = nullptr;
void fs_put(const char* name, const void* data, uint64_t n) {
  Entry* e = find(name);
  if (!e) e = create(name);
  memcpy(e->inode->data, data, n);
  e->inode->size = n;
}
int fs_exists(const char* name) { return find(name) != nullptr; }
uint64_t fs_size(const char* name) { Entry* e = find(name); return e ? e->inode->size : ~0ull; }
const unsigned char* fs_data(const char* name) { Entry* e = find(name); return e ? e->inode->data : nullptr; }
uint64_t fs_files() { uint64_t n = 0; for (auto& e : g_dir) n += e.inode != nullptr; return n; }
uint64_t fs_streams() { return g_open; }
const char* fs_name(uint64_t k) { for (auto& e : g_dir) if (e.inode && k-- == 0) return e.name; return nullptr; }

// ---------------------------------------------------------------- stdio
FILE* vm_fopen(const char* name, const char* mode) {
  Quiet q;
  int flags = 0;
  const bool plus = strchr(mode, '+') != nullptr;
  if (mode[0] == 'r') flags = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else if (mode[0] == 'a') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  else { *myErrno() = EINVAL; return nullptr; }
  if (strchr(mode, 'x')) flags |= O_EXCL;
  Stream* s = nullptr;
  return openFile(name, flags, &s) == 0 ? (FILE*)s : nullptr;
}
FILE* vm_fopen64(const char* name, const char* mode) { return vm_fopen(name, mode); }
int vm_fclose(FILE* f) {
  Quiet q;
  Stream* s = S(f);
  int r = 0;
  if (s->writable) r = flushAll(s, FS_CLOSE);
  else if (fails(FS_CLOSE)) r = EOF;
  closeStream(s);
  return r;
}
int vm_fflush(FILE* f) { Quiet q; return f ? flushAll(S(f), FS_FLUSH) : 0; }
size_t vm_fwrite(const void* p, size_t size, size_t n, FILE* f) { Quiet q; if (!size || !n) return 0; return put(S(f), p, size * n) / size; }
int vm_fputs(const char* p, FILE* f) { Quiet q; const uint64_t n = strlen(p); return put(S(f), p, n) == n ? 1 : EOF; }
int vm_fputc(int c, FILE* f) { Quiet q; unsigned char b = (unsigned char)c; return put(S(f), &b, 1) == 1 ? b : EOF; }
int vm_putc(int c, FILE* f) { return vm_fputc(c, f); }
int vm_fprintf_bytes(FILE* f, const char* p, size_t n) { Quiet q; return put(S(f), p, n) == n ? (int)n : -1; }
size_t vm_fread(void* p, size_t size, size_t n, FILE* f) {
  Quiet q;
  Stream* s = S(f);
  if (!size || !n) return 0;
  if (!s->readable) { s->err = 1; return 0; }
  if (s->eof) return 0;
  uint64_t want = size * n, have = s->pos < s->inode->size ? s->inode->size - s->pos : 0;
  uint64_t k = want < have ? want : have;
  if (fails(FS_READ)) { k = vf_choose((k < 4 ? k : 4) + 1, "read"); s->err = 1; }
  else if (k < want) s->eof = 1;
  memcpy(p, s->inode->data + s->pos, k);
  s->pos += k;
  return k / size;
}
int vm_fgetc(FILE* f) { unsigned char c; return vm_fread(&c, 1, 1, f) == 1 ? c : EOF; }
int vm_getc(FILE* f) { return vm_fgetc(f); }
int vm_feof(FILE* f) { return S(f)->eof; }
int vm_ferror(FILE* f) { return S(f)->err; }
void vm_clearerr(FILE* f) { S(f)->eof = S(f)->err = 0; }
int vm_setvbuf(FILE*, char*, int, size_t) { return 0; }
void vm_setbuf(FILE*, char*) {}
int vm_fseek(FILE* f, long off, int whence) {
  Quiet q;
  Stream* s = S(f);
  if (s->writable && flushAll(s, FS_FLUSH)) return -1;
  const long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)s->pos : (long)s->inode->size;
  if (base + off < 0) { *myErrno() = EINVAL; return -1; }
  s->pos = (uint64_t)(base + off);
  s->eof = 0;
  return 0;
}
int vm_fseeko(FILE* f, off_t off, int whence) { return vm_fseek(f, off, whence); }
long vm_ftell(FILE* f) { return (long)(S(f)->pos + S(f)->pend); }
off_t vm_ftello(FILE* f) { return vm_ftell(f); }
void vm_rewind(FILE* f) { vm_fseek(f, 0, SEEK_SET); S(f)->err = 0; }
void vm_flockfile(FILE*) {}
void vm_funlockfile(FILE*) {}
int vm_fileno(FILE* f) {
  Stream* s = S(f);
  if (!s->fd)
    for (int i = 0; i < 8 && !s->fd; i++)
      if (!g_fd[i]) { g_fd[i] = s; s->fd = i + 3; }
  return s->fd;
}
FILE* vm_fdopen(int fd, const char*) { return (FILE*)g_fd[fd - 3]; }
int vm_rename(const char* a, const char* b) { Quiet q; return doRename(a, b); }
int vm_remove(const char* a) { Quiet q; return doRemove(a); }
int vm_unlink(const char* a) { Quiet q; return doRemove(a); }
int vm_access(const char* a, int) { return find(a) ? 0 : -1; }
// ---------------------------------------------------------------- descriptors
int vm_open(const char* name, int flags, ...) {
  Quiet q;
  Stream* s = nullptr;
  if (openFile(name, flags, &s)) return -1;
  return vm_fileno((FILE*)s);
}
int vm_open64(const char* name, int flags, ...) { return vm_open(name, flags); }
ssize_t vm_write(int fd, const void* p, size_t n) {
  Quiet q;
  Stream* s = g_fd[fd - 3];
  if (n && fails(FS_WRITE)) return -1;
  uint64_t k = n;
  if (fs_splits && n > 1) k = 1 + vf_choose(n, "written");
  memcpy(s->buf, p, k);
  s->pend = k;
  flushSome(s, k);
  return (ssize_t)k;
}
ssize_t vm_read(int fd, void* p, size_t n) {
  Quiet q;
  Stream* s = g_fd[fd - 3];
  if (fails(FS_READ)) return -1;
  uint64_t have = s->pos < s->inode->size ? s->inode->size - s->pos : 0, k = n < have ? n : have;
  if (fs_splits && k > 1) k = 1 + vf_choose(k, "read");
  memcpy(p, s->inode->data + s->pos, k);
  s->pos += k;
  return (ssize_t)k;
}
int vm_close(int fd) {
  Quiet q;
  Stream* s = g_fd[fd - 3];
  g_fd[fd - 3] = nullptr;
  const bool bad = fails(FS_CLOSE);
  closeStream(s);
  return bad ? -1 : 0;
}
int vm_fsync(int) { return fails(FS_FLUSH) ? -1 : 0; }
int vm_fdatasync(int) { return fails(FS_FLUSH) ? -1 : 0; }
int vm_ftruncate(int fd, off_t n) { Quiet q; Stream* s = g_fd[fd - 3]; s->inode->size = (uint64_t)n; seen(); return 0; }
// ---------------------------------------------------------------- std::filesystem
using std::filesystem::path;
static void set(std::error_code* ec, int r) { if (r) ec->assign(*myErrno(), std::generic_category()); else ec->clear(); }
void vm__ZNSt10filesystem6renameERKNS_7__cxx114pathES3_RSt10error_code(const path* a, const path* b, std::error_code* ec) { Quiet q; set(ec, doRename(a->c_str(), b->c_str())); }
bool vm__ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code(const path* a, std::error_code* ec) {
  Quiet q;
  *myErrno() = 0;
  const int r = doRemove(a->c_str());
  set(ec, r && *myErrno() != ENOENT);
  return r == 0;
}
static uintmax_t sizeOf(const path* a, std::error_code* ec) {
  Quiet q;
  Entry* e = find(a->c_str());
  if (!e) { *myErrno() = ENOENT; set(ec, 1); return ~0ull; }
  uint64_t n = e->inode->size;
  if (fs_sizes == 2) { *myErrno() = EIO; set(ec, 1); return ~0ull; }
  if (fs_sizes == 3) n = 0;
  if (fs_sizes == 1) {
    const uint64_t how = vf_choose(3, "size");
    if (how == 0) { *myErrno() = EIO; set(ec, 1); return ~0ull; }
    if (how == 1) n = vf_choose(n + 4, "reported");
  }
  set(ec, 0);
  return n;
}
uintmax_t vm__ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code(const path* a, std::error_code* ec) { return sizeOf(a, ec); }
static std::filesystem::file_status statusOf(const path* a, std::error_code* ec) {
  Quiet q;
  Entry* e = find(a->c_str());
  if (ec) ec->clear();
  return std::filesystem::file_status(e ? std::filesystem::file_type::regular : std::filesystem::file_type::not_found, std::filesystem::perms(0644));
}
std::filesystem::file_status vm__ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code(const path* a, std::error_code* ec) { return statusOf(a, ec); }
std::filesystem::file_status vm__ZNSt10filesystem14symlink_statusERKNS_7__cxx114pathERSt10error_code(const path* a, std::error_code* ec) { return statusOf(a, ec); }
}
