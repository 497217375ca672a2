// Linked into each generator program: a disk in shared memory behind the system calls, and faulty crypto.
// Every file system call of the process traps (seccomp) and is answered here; absolute paths reach the kernel.
#include "shared.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <new>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
extern "C" {
#include "api.h"
}
#include <openssl/evp.h>

static kat_shared* S;
static uint8_t* DISK;  // KAT_FILES * KAT_FILE_MAX
enum { FD0 = 700, NFD = 64 };
struct Fd { int used, file, flags, wrote; int64_t pos; };
static Fd fds[NFD];

extern "C" long kat_raw(long n, long a, long b, long c, long d, long e, long f);
extern "C" char kat_raw_end[];
asm(".text\n.globl kat_raw\nkat_raw:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl kat_raw_end\nkat_raw_end:\n ret\n");

static void note(uint32_t cls, uint32_t kind, int64_t obj, int64_t arg, int64_t res) {
  uint64_t v[5] = {cls, kind, (uint64_t)obj, (uint64_t)arg, (uint64_t)res};
  for (uint64_t x : v) { S->hash ^= x + 0x9e3779b97f4a7c15ull + (S->hash << 6) + (S->hash >> 2); S->hash *= 0xff51afd7ed558ccdull; S->hash ^= S->hash >> 29; }
  ++S->steps;
  if (S->nevents < KAT_EVENTS) S->event[S->nevents++] = {cls, kind, obj, arg, res};
}
static const kat_fault* fault(uint32_t cls) {
  uint64_t n = S->calls[cls]++;
  if (!S->armed) return nullptr;
  for (uint32_t i = 0; i < S->nfaults; ++i) {
    const kat_fault& f = S->fault[i];
    if (f.cls == cls && n >= f.nth && (f.burst == 0 || n < (uint64_t)f.nth + f.burst)) { ++S->fired[cls][f.kind]; return &f; }
  }
  return nullptr;
}
static uint64_t stored() { uint64_t t = 0; for (auto& f : S->file) if (f.used && f.live) t += f.size; return t; }
static const char* base(const char* p) { while (p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') ++p; } return p; }
static int find(const char* name) { for (int i = 0; i < KAT_FILES; ++i) if (S->file[i].used && S->file[i].live && !strcmp(S->file[i].name, name)) return i; return -1; }
static int create(const char* name) {
  if (strlen(name) >= 64) return -ENAMETOOLONG;
  for (int i = 0; i < KAT_FILES; ++i) if (!S->file[i].used) { kat_file& f = S->file[i]; memset(&f, 0, sizeof f); strcpy(f.name, name); f.used = f.live = 1; return i; }
  return -ENOSPC;
}
static long do_open(int dir, const char* path, int flags, int mode) {
  if (path[0] == '/' || (dir != AT_FDCWD && dir >= 0)) return kat_raw(SYS_openat, dir, (long)path, flags, mode, 0, 0);
  path = base(path);
  const kat_fault* f = fault(K_OPEN);
  if (f && f->kind == F_ERR) { note(K_OPEN, 1, 0, flags, -f->a); return -f->a; }
  int i = find(path);
  if (i < 0 && !(flags & O_CREAT)) { note(K_OPEN, 0, 0, flags, -ENOENT); return -ENOENT; }
  if (i >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
  if (i < 0) i = create(path);
  if (i < 0) return i;
  if (flags & O_TRUNC) { S->file[i].size = 0; S->file[i].lost = 0; }
  for (int k = 0; k < NFD; ++k) if (!fds[k].used) { fds[k] = {1, i, flags, 0, 0}; note(K_OPEN, 0, i, flags & (O_ACCMODE | O_APPEND | O_TRUNC), k); return FD0 + k; }
  return -EMFILE;
}
// how much of n arrives: b >= 0 in percent, b < 0: all but the last -b bytes (read: exactly -b bytes)
static uint64_t part(uint64_t n, int64_t b) { return b >= 0 ? n * (uint64_t)b / 100 : n > (uint64_t)-b ? n - (uint64_t)-b : 0; }
// one write; from is contiguous
static long put(Fd& d, const uint8_t* p, uint64_t n) {
  kat_file& f = S->file[d.file];
  if (d.flags & O_APPEND) d.pos = (int64_t)f.size;
  if (d.pos + n > KAT_FILE_MAX) { S->overflow = 1; return -EFBIG; }
  uint64_t old = f.size, nsize = d.pos + n > old ? d.pos + n : old, total = stored() - old;
  if (total + nsize > S->capacity) { uint64_t room = S->capacity > total ? S->capacity - total : 0; if (room <= (uint64_t)d.pos) { ++S->full; return -ENOSPC; } n = room - d.pos < n ? room - d.pos : n; nsize = d.pos + n > old ? d.pos + n : old; if (!n) { ++S->full; return -ENOSPC; } }
  uint8_t* base = DISK + (size_t)d.file * KAT_FILE_MAX;
  if ((uint64_t)d.pos > old) memset(base + old, 0, d.pos - old);
  memcpy(base + d.pos, p, n); f.size = nsize; d.pos += n; d.wrote = 1;
  return (long)n;
}
static uint8_t gather[1 << 20];
static long do_write(int k, const struct iovec* v, int cnt, int64_t at) {
  Fd& d = fds[k];
  if ((d.flags & O_ACCMODE) == O_RDONLY) return -EBADF;
  uint64_t n = 0; for (int i = 0; i < cnt; ++i) { uint64_t l = v[i].iov_len; if (n + l > sizeof gather) l = sizeof gather - n; memcpy(gather + n, v[i].iov_base, l); n += l; }
  int64_t keep = d.pos; if (at >= 0) d.pos = at;
  const kat_fault* f = n ? fault(K_WRITE) : nullptr; long r; uint32_t kind = 0;
  if (f && f->kind == F_ERR) { r = -f->a; kind = 1; }
  else if (f && f->kind == F_TORN) { int64_t p = d.pos; put(d, gather, part(n, f->b)); if (at < 0) d.pos = p; r = -f->a; kind = 2; }  // part arrives, the call fails
  else if (f && f->kind == F_SHORT) { uint64_t m = 1 + part(n - 1, f->b); r = put(d, gather, m < n ? m : n); kind = 3; }
  else r = put(d, gather, n);
  if (at >= 0) d.pos = keep;
  note(K_WRITE, kind, d.file, (int64_t)n, r);
  return r;
}
static long do_read(int k, const struct iovec* v, int cnt, int64_t at) {
  Fd& d = fds[k]; kat_file& F = S->file[d.file];
  if ((d.flags & O_ACCMODE) == O_WRONLY) return -EBADF;
  int64_t pos = at >= 0 ? at : d.pos; uint64_t want = 0; for (int i = 0; i < cnt; ++i) want += v[i].iov_len;
  uint64_t have = (uint64_t)pos < F.size ? F.size - pos : 0, n = want < have ? want : have;
  const kat_fault* f = fault(K_READ); uint32_t kind = 0;
  if (f && f->kind == F_ERR) { note(K_READ, 1, d.file, (int64_t)want, -f->a); return -f->a; }
  if (f && f->kind == F_EOF) { n = 0; kind = 2; }
  if (f && f->kind == F_SHORT && n) { uint64_t m = f->b < 0 ? (uint64_t)-f->b : 1 + part(n - 1, f->b); if (m < n) n = m; kind = 3; }
  uint64_t left = n; const uint8_t* src = DISK + (size_t)d.file * KAT_FILE_MAX + pos;
  for (int i = 0; i < cnt && left; ++i) { uint64_t l = v[i].iov_len < left ? v[i].iov_len : left; memcpy(v[i].iov_base, src, l); src += l; left -= l; }
  if (at < 0) d.pos += n;
  note(K_READ, kind, d.file, (int64_t)want, (int64_t)n);
  return (long)n;
}
static long do_close(int k) {
  Fd& d = fds[k]; const kat_fault* f = fault(K_CLOSE); d.used = 0;
  if (f && d.wrote && f->kind == F_LOSE) { kat_file& F = S->file[d.file]; uint64_t cut = part(F.size, f->b); F.lost = 1; if (cut < F.size) F.size = cut; }  // late write-back failure
  note(K_CLOSE, f ? 1 : 0, d.file, 0, f ? -f->a : 0);
  return f ? -f->a : 0;
}
static void fill(struct stat* st, int i) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_size = (off_t)S->file[i].size; st->st_blksize = 4096; st->st_ino = 1000 + i; st->st_blocks = (st->st_size + 511) / 512; }
static bool mine(long fd) { return fd >= FD0 && fd < FD0 + NFD && fds[fd - FD0].used; }
static long call(long n, long a, long b, long c, long d, long e, long f) {
  int k = (int)a - FD0;
  switch (n) {
    case SYS_open: return do_open(AT_FDCWD, (const char*)a, (int)b, (int)c);
    case SYS_creat: return do_open(AT_FDCWD, (const char*)a, O_CREAT | O_WRONLY | O_TRUNC, (int)b);
    case SYS_openat: return do_open((int)a, (const char*)b, (int)c, (int)d);
    case SYS_stat: case SYS_lstat: { const char* p = (const char*)a; if (p[0] == '/') return kat_raw(n, a, b, c, d, e, f); int i = find(base(p)); if (i < 0) return -ENOENT; fill((struct stat*)b, i); return 0; }
    case SYS_access: { const char* p = (const char*)a; if (p[0] == '/') return kat_raw(n, a, b, c, d, e, f); return find(base(p)) < 0 ? -ENOENT : 0; }
    case SYS_faccessat: case SYS_faccessat2: { const char* p = (const char*)b; if (p[0] == '/') return kat_raw(n, a, b, c, d, e, f); return find(base(p)) < 0 ? -ENOENT : 0; }
    case SYS_newfstatat: {
      const char* p = (const char*)b;
      if (mine(a) && !p[0]) { fill((struct stat*)c, fds[k].file); return 0; }
      if (p[0] == '/' || !p[0]) return kat_raw(n, a, b, c, d, e, f);
      int i = find(base(p)); if (i < 0) return -ENOENT; fill((struct stat*)c, i); return 0;
    }
    case SYS_statx: return -ENOSYS;  // the C library falls back
    case SYS_unlink: case SYS_unlinkat: case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat: {
      const char* p = (const char*)(n == SYS_unlink || n == SYS_rename || n == SYS_link ? a : b); const char* q = (const char*)(n == SYS_rename || n == SYS_link ? b : d);
      const kat_fault* g = fault(K_NAME); if (g) { note(K_NAME, 1, 0, n, -g->a); return -g->a; }
      int i = find(base(p)); if (i < 0) return -ENOENT; note(K_NAME, 0, i, n, 0);
      if (n == SYS_unlink || n == SYS_unlinkat) { S->file[i].live = 0; return 0; }
      if (n == SYS_link || n == SYS_linkat) return -EPERM;
      int j = find(base(q)); if (j >= 0) S->file[j].live = 0; if (strlen(base(q)) >= 64) return -ENAMETOOLONG; strcpy(S->file[i].name, base(q)); return 0;
    }
    case SYS_truncate: { int i = find(base((const char*)a)); if (i < 0) return -ENOENT; if ((uint64_t)b > KAT_FILE_MAX) return -EFBIG; if ((uint64_t)b > S->file[i].size) memset(DISK + (size_t)i * KAT_FILE_MAX + S->file[i].size, 0, b - S->file[i].size); S->file[i].size = (uint64_t)b; return 0; }
    case SYS_sync: return 0;
  }
  if (!mine(a)) return -EBADF;
  switch (n) {
    case SYS_write: { struct iovec v = {(void*)b, (size_t)c}; return do_write(k, &v, 1, -1); }
    case SYS_pwrite64: { struct iovec v = {(void*)b, (size_t)c}; return do_write(k, &v, 1, d); }
    case SYS_writev: return do_write(k, (const struct iovec*)b, (int)c, -1);
    case SYS_read: { struct iovec v = {(void*)b, (size_t)c}; return do_read(k, &v, 1, -1); }
    case SYS_pread64: { struct iovec v = {(void*)b, (size_t)c}; return do_read(k, &v, 1, d); }
    case SYS_readv: return do_read(k, (const struct iovec*)b, (int)c, -1);
    case SYS_close: return do_close(k);
    case SYS_lseek: {
      const kat_fault* g = fault(K_SEEK); if (g) { note(K_SEEK, 1, fds[k].file, b, -g->a); return -g->a; }
      int64_t p = c == SEEK_SET ? b : c == SEEK_CUR ? fds[k].pos + b : (int64_t)S->file[fds[k].file].size + b; if (p < 0) return -EINVAL; note(K_SEEK, 0, fds[k].file, b, p); return fds[k].pos = p;
    }
    case SYS_fstat: { const kat_fault* g = fault(K_STAT); if (g) { note(K_STAT, 1, fds[k].file, 0, -g->a); return -g->a; } fill((struct stat*)b, fds[k].file); return 0; }
    case SYS_fsync: case SYS_fdatasync: { const kat_fault* g = fault(K_SYNC); if (g) { kat_file& F = S->file[fds[k].file]; if (g->kind == F_LOSE) { F.size = part(F.size, g->b); F.lost = 1; } note(K_SYNC, 1, fds[k].file, 0, -g->a); return -g->a; } note(K_SYNC, 0, fds[k].file, 0, 0); return 0; }
    case SYS_ftruncate: { kat_file& F = S->file[fds[k].file]; if ((uint64_t)b > KAT_FILE_MAX) return -EFBIG; if ((uint64_t)b > F.size) memset(DISK + (size_t)fds[k].file * KAT_FILE_MAX + F.size, 0, b - F.size); F.size = (uint64_t)b; return 0; }
    case SYS_fallocate: return -EOPNOTSUPP;
    case SYS_ioctl: return -ENOTTY;
    case SYS_fcntl: if (b == F_GETFL) return fds[k].flags; if (b == F_GETFD || b == F_SETFD || b == F_SETFL || b == F_SETLK || b == F_SETLKW) return 0; return -EINVAL;
    case SYS_fadvise64: return 0;
    case SYS_flock: return 0;
    case SYS_fchmod: return 0;
  }
  return -ENOSYS;
}
static void trapped(int, siginfo_t*, void* uc) {
  int e = errno;
  greg_t* g = ((ucontext_t*)uc)->uc_mcontext.gregs;
  g[REG_RAX] = call(g[REG_RAX], g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
  errno = e;
}
static void install() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trapped; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, nullptr);
  static sock_filter code[200]; unsigned n = 0;
  auto add = [&](uint16_t c, uint8_t jt, uint8_t jf, uint32_t k) { code[n++] = sock_filter{c, jt, jf, k}; };
  uint64_t ip = (uint64_t)(uintptr_t)kat_raw_end;  // instruction after the system call
  add(BPF_LD | BPF_W | BPF_ABS, 0, 0, offsetof(seccomp_data, instruction_pointer));
  add(BPF_JMP | BPF_JEQ | BPF_K, 0, 3, (uint32_t)ip);
  add(BPF_LD | BPF_W | BPF_ABS, 0, 0, offsetof(seccomp_data, instruction_pointer) + 4);
  add(BPF_JMP | BPF_JEQ | BPF_K, 0, 1, (uint32_t)(ip >> 32));
  add(BPF_RET | BPF_K, 0, 0, SECCOMP_RET_ALLOW);
  add(BPF_LD | BPF_W | BPF_ABS, 0, 0, offsetof(seccomp_data, nr));
  static const int always[] = {SYS_open, SYS_creat, SYS_openat, SYS_stat, SYS_lstat, SYS_access, SYS_faccessat, SYS_faccessat2, SYS_newfstatat, SYS_statx, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_truncate, SYS_sync};
  static const int onfd[] = {SYS_write, SYS_pwrite64, SYS_writev, SYS_read, SYS_pread64, SYS_readv, SYS_close, SYS_lseek, SYS_fstat, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_fallocate, SYS_ioctl, SYS_fcntl, SYS_fadvise64, SYS_flock, SYS_fchmod, SYS_sendfile, SYS_copy_file_range, SYS_mmap, SYS_dup, SYS_dup2, SYS_dup3, SYS_pwritev, SYS_pwritev2, SYS_preadv, SYS_preadv2, SYS_splice, SYS_sync_file_range, SYS_syncfs};
  for (int s : always) { add(BPF_JMP | BPF_JEQ | BPF_K, 0, 1, (uint32_t)s); add(BPF_RET | BPF_K, 0, 0, SECCOMP_RET_TRAP); }
  for (int s : onfd) {
    add(BPF_JMP | BPF_JEQ | BPF_K, 0, 5, (uint32_t)s);
    add(BPF_LD | BPF_W | BPF_ABS, 0, 0, offsetof(seccomp_data, args) + (s == SYS_mmap ? 4 * 8 : 0));
    add(BPF_JMP | BPF_JGE | BPF_K, 0, 2, FD0);
    add(BPF_JMP | BPF_JGE | BPF_K, 1, 0, FD0 + NFD);
    add(BPF_RET | BPF_K, 0, 0, SECCOMP_RET_TRAP);
    add(BPF_RET | BPF_K, 0, 0, SECCOMP_RET_ALLOW);
  }
  add(BPF_RET | BPF_K, 0, 0, SECCOMP_RET_ALLOW);
  sock_fprog prog = {(unsigned short)n, code};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) { perror("seccomp"); _exit(121); }
}
__attribute__((constructor)) static void begin() {
  const char* p = getenv("KATSIM"); if (!p) return;
  int fd = open(p, O_RDWR | O_CLOEXEC); if (fd < 0) _exit(120);
  S = (kat_shared*)mmap(nullptr, sizeof(kat_shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  DISK = (uint8_t*)mmap(nullptr, (size_t)KAT_FILES * KAT_FILE_MAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 1 << 20);
  if (S == MAP_FAILED || DISK == MAP_FAILED) _exit(120);
  close(fd); install(); S->started = 1;
}
// ---------------------------------------------------------------- crypto
static void dirty(unsigned char* p, size_t n, unsigned v) { for (size_t i = 0; i < n; ++i) p[i] = (unsigned char)(v += 77); }
extern "C" {
int sim_cs_keypair(unsigned char* pk, unsigned char* sk) {
  const kat_fault* f = fault(K_KEYPAIR);
  if (f && f->b == 0) { note(K_KEYPAIR, 1, 0, 0, f->a); return (int)f->a; }
  int r = crypto_sign_keypair(pk, sk);
  if (f) { if (f->b == 2) { dirty(pk, CRYPTO_PUBLICKEYBYTES, 3); dirty(sk, CRYPTO_SECRETKEYBYTES, 5); } note(K_KEYPAIR, 1, 0, 1, f->a); return (int)f->a; }
  note(K_KEYPAIR, 0, 0, 0, r); return r;
}
int sim_cs_sign(unsigned char* sm, unsigned long long* smlen, const unsigned char* m, unsigned long long mlen, const unsigned char* sk) {
  const kat_fault* f = fault(K_SIGN);
  if (f && f->b == 0) { note(K_SIGN, 1, 0, (int64_t)mlen, f->a); return (int)f->a; }
  int r = crypto_sign(sm, smlen, m, mlen, sk);
  if (f) { if (f->b == 2) { dirty(sm, mlen, 9); *smlen = 0; } note(K_SIGN, 1, 1, (int64_t)mlen, f->a); return (int)f->a; }
  note(K_SIGN, 0, 0, (int64_t)mlen, r); return r;
}
int sim_cs_open(unsigned char* m, unsigned long long* mlen, const unsigned char* sm, unsigned long long smlen, const unsigned char* pk) {
  const kat_fault* f = fault(K_VERIFY);
  if (f && f->kind == F_RET && f->b == 0) { note(K_VERIFY, 1, 0, (int64_t)smlen, f->a); return (int)f->a; }
  int r = crypto_sign_open(m, mlen, sm, smlen, pk);
  if (f && f->kind == F_RET) { note(K_VERIFY, 1, 1, (int64_t)smlen, f->a); return (int)f->a; }
  if (f && f->kind == F_LEN) { *mlen += (unsigned long long)f->a; note(K_VERIFY, 2, (int64_t)*mlen, (int64_t)smlen, r); return r; }
  if (f && f->kind == F_MSG && *mlen) { m[*mlen * (uint64_t)f->b / 100 < *mlen ? *mlen * (uint64_t)f->b / 100 : *mlen - 1] ^= (unsigned char)f->a; note(K_VERIFY, 3, f->b, (int64_t)smlen, r); return r; }
  note(K_VERIFY, 0, (int64_t)*mlen, (int64_t)smlen, r); return r;
}
// the generator's own use of OpenSSL (rng.c)
EVP_CIPHER_CTX* sim_EVP_CIPHER_CTX_new(void) { if (const kat_fault* f = fault(K_EVP)) { note(K_EVP, 1, 0, 0, 0); (void)f; return nullptr; } return EVP_CIPHER_CTX_new(); }
int sim_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv) { if (fault(K_EVP)) { note(K_EVP, 1, 1, 0, 0); return 0; } return EVP_EncryptInit_ex(c, t, e, k, iv); }
int sim_EVP_EncryptUpdate(EVP_CIPHER_CTX* c, unsigned char* o, int* ol, const unsigned char* i, int l) { if (const kat_fault* f = fault(K_EVP)) { note(K_EVP, 1, 2, 0, 0); if (f->b) *ol = 0; return 0; } return EVP_EncryptUpdate(c, o, ol, i, l); }
int sim_EVP_EncryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char* o, int* ol) { if (fault(K_EVP)) { note(K_EVP, 1, 3, 0, 0); return 0; } return EVP_EncryptFinal_ex(c, o, ol); }
void* sim_malloc(size_t n) { if (fault(K_ALLOC)) { note(K_ALLOC, 1, 0, (int64_t)n, 0); errno = ENOMEM; return nullptr; } return malloc(n); }
void* sim_calloc(size_t a, size_t b) { if (fault(K_ALLOC)) { note(K_ALLOC, 1, 0, (int64_t)(a * b), 0); errno = ENOMEM; return nullptr; } return calloc(a, b); }
void* sim_realloc(void* p, size_t n) { if (fault(K_ALLOC)) { note(K_ALLOC, 1, 0, (int64_t)n, 0); errno = ENOMEM; return nullptr; } return realloc(p, n); }
}
void* operator new(size_t n) { if (S && S->armed && fault(K_ALLOC)) { note(K_ALLOC, 1, 1, (int64_t)n, 0); throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
