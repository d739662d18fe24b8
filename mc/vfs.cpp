// In-memory file system behind stdio (fopencookie) and the few POSIX calls used.
#include "internal.h"
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <cstdarg>
#include <memory>
#include <map>
#include <set>
#include <unordered_map>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
using namespace mc;

namespace {
// contents: data holds the bytes below LOW, pages (sparse, absent = zeros) hold what lies above
static const uint64_t LOW = 64 << 20, PG = 64 << 10;
struct Inode {
	std::string data; int dev = 0; int opens = 0; char obj = 0;
	std::map<uint64_t, std::string> pages; uint64_t far = 0;
	uint64_t size() const { return far ? far : data.size(); }
	void truncate(uint64_t n) { data.resize(std::min<uint64_t>(n, LOW)); far = n > LOW ? n : 0; pages.erase(pages.lower_bound((n + PG - 1) / PG), pages.end()); auto it = pages.find(n / PG); if(it != pages.end()) memset(&it->second[n % PG], 0, PG - n % PG); }
	void get(uint64_t pos, char* b, uint64_t n) const {
		while(n) {
			if(pos < LOW) { uint64_t k = std::min(n, LOW - pos), a = pos < data.size() ? std::min<uint64_t>(k, data.size() - pos) : 0; memcpy(b, data.data() + pos, a); memset(b + a, 0, k - a); b += k; pos += k; n -= k; }
			else { uint64_t k = std::min(n, PG - pos % PG); auto it = pages.lower_bound(pos / PG); if(it == pages.end()) k = n; else if(it->first != pos / PG) k = std::min(n, it->first * PG - pos);
				if(it != pages.end() && it->first == pos / PG) memcpy(b, it->second.data() + pos % PG, k); else memset(b, 0, k);
				b += k; pos += k; n -= k; }
		}
	}
	void put(uint64_t pos, const char* b, uint64_t n) {
		if(pos + n > size()) { if(pos + n > LOW) { data.resize(LOW); far = pos + n; } else data.resize(pos + n); }
		while(n) {
			if(pos < LOW) { uint64_t k = std::min(n, LOW - pos); memcpy(&data[pos], b, k); b += k; pos += k; n -= k; continue; }
			uint64_t k = std::min(n, PG - pos % PG); auto it = pages.find(pos / PG);
			if(it == pages.end()) { bool z = true; for(uint64_t i = 0; i < k && z; ++i) z = !b[i]; if(!z) it = pages.emplace(pos / PG, std::string(PG, 0)).first; }
			if(it != pages.end()) memcpy(&it->second[pos % PG], b, k);
			b += k; pos += k; n -= k;
		}
	}
};
typedef std::shared_ptr<Inode> IP;
struct Ofd { IP ino; size_t pos = 0; bool rd = false, wr = false, app = false; std::string path; FILE* file = nullptr; int fd = -1; uintptr_t tok = 0; };
struct Fs {
	std::map<std::string, IP> names;
	std::map<std::string, int> dirs;
	std::unordered_map<FILE*, Ofd*> files;
	std::map<int, Ofd*> fds; int next_fd = 1000000;
	std::vector<Ofd*> ofds;
	uint64_t nops = 0;
	mc::vfs::FaultFn fault; mc::vfs::ObserveFn obs;
};
Fs* F;
template<class T> T real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
#define REAL(name) (void)0
decltype(&::fopen) r_fopen; decltype(&::fopen64) r_fopen64; decltype(&::fclose) r_fclose; decltype(&::fwrite) r_fwrite; decltype(&::fread) r_fread;
decltype(&::fseek) r_fseek; decltype(&::fseeko) r_fseeko; decltype(&::fseeko64) r_fseeko64; decltype(&::fflush) r_fflush; decltype(&::fileno) r_fileno; decltype(&::remove) r_remove;
__attribute__((constructor(101))) void resolve() {
#define RS(name) r_##name = real<decltype(&::name)>(#name)
	RS(fopen); RS(fopen64); RS(fclose); RS(fwrite); RS(fread); RS(fseek); RS(fseeko); RS(fseeko64); RS(fflush); RS(fileno); RS(remove);
}

std::string normp(const char* p) {
	std::string s; 
	for(const char* c = p; *c; ++c) { if(*c == '/' && !s.empty() && s.back() == '/') continue; s += *c; }
	while(s.compare(0, 2, "./") == 0) s = s.substr(2);
	size_t k; while((k = s.find("/./")) != std::string::npos) s.erase(k, 2);
	return s;
}
std::string parent(const std::string& p) { auto k = p.rfind('/'); return k == std::string::npos ? "" : p.substr(0, k); }
int dev_of(const std::string& p) { auto it = F->dirs.find(parent(p)); return it == F->dirs.end() ? -1 : it->second; }
bool mine(const char* p) { return !(strncmp(p, "/proc/", 6) == 0 || strncmp(p, "/sys/", 5) == 0 || strncmp(p, "/dev/", 5) == 0 || strncmp(p, "/etc/", 5) == 0 || strncmp(p, "/usr/", 5) == 0 || strncmp(p, "/lib", 4) == 0); }

int do_fault(mc::vfs::OpKind k, const std::string& p, const std::string& p2 = "", size_t n = 0) {
	mc::vfs::Op o; o.kind = k; o.path = p; o.path2 = p2; o.size = n; o.index = F->nops++;
	if(R->verbose) dprintf(2, "  [T%d] vfs #%llu %s %s %s %zu\n", R->cur, (unsigned long long)o.index, mc::vfs::op_names[k], p.c_str(), p2.c_str(), n);
	if(!F->fault) return 0;
	int h = R->host; R->host = 0; bool arm = R->armed; R->armed = false;   // the fault function may call choose(), but must not use the arenas
	int r = F->fault(o);
	R->host = h; R->armed = arm;
	if(r && R->verbose) dprintf(2, "  [T%d]   -> FAULT %d\n", R->cur, r);
	return r;
}
void did(mc::vfs::OpKind k, const std::string& p, const std::string& p2 = "", size_t n = 0, int res = 0) {
	if(!F->obs) return;
	mc::vfs::Op o; o.kind = k; o.path = p; o.path2 = p2; o.size = n; o.index = F->nops - 1;
	int h = R->host; R->host = 1; F->obs(o, res); R->host = h;
}
ssize_t ofd_read(Ofd* o, char* b, size_t n) {
	int e = do_fault(mc::vfs::READ, o->path, "", n);
	if(e > 0) { errno = e; did(mc::vfs::READ, o->path, "", n, e); return -1; }
	if(e == -2) return 0;
	const uint64_t sz = o->ino->size();
	if(o->pos >= sz) return 0;
	size_t k = std::min<uint64_t>(n, sz - o->pos); if(e == -1) k = (k + 1) / 2;
	o->ino->get(o->pos, b, k); o->pos += k;
	did(mc::vfs::READ, o->path, "", k);
	return k;
}
ssize_t ofd_write(Ofd* o, const char* b, size_t n) {
	int e = do_fault(mc::vfs::WRITE, o->path, "", n);
	if(e > 0) { errno = e; did(mc::vfs::WRITE, o->path, "", n, e); return -1; }
	size_t k = n; if(e == -1) { k = n / 2; }
	if(o->app) o->pos = o->ino->size();
	o->ino->put(o->pos, b, k); o->pos += k;
	did(mc::vfs::WRITE, o->path, "", k, e);
	if(e == -1) { errno = ENOSPC; if(k == 0) return -1; }
	return k;
}
off64_t ofd_seek(Ofd* o, off64_t off, int wh) {
	off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)o->pos : (off64_t)o->ino->size();
	if(!(wh == SEEK_CUR && off == 0)) { int e = do_fault(mc::vfs::SEEK, o->path); if(e > 0) { errno = e; return -1; } }
	if(b + off < 0) { errno = EINVAL; return -1; }
	o->pos = b + off; return o->pos;
}
int ofd_close(Ofd* o) {
	int e = do_fault(mc::vfs::CLOSE, o->path);
	o->ino->opens--;
	if(o->fd >= 0) F->fds.erase(o->fd);
	did(mc::vfs::CLOSE, o->path, "", 0, e);
	std::string().swap(o->path); o->ino.reset();
	if(e > 0) { errno = e; return -1; }
	return 0;
}
ssize_t c_read(void* c, char* b, size_t n) { Host h; return ofd_read((Ofd*)c, b, n); }
ssize_t c_write(void* c, const char* b, size_t n) { Host h; ssize_t r = ofd_write((Ofd*)c, b, n); return r < 0 ? 0 : r; }
int c_seek(void* c, off64_t* off, int wh) { Host h; off64_t r = ofd_seek((Ofd*)c, *off, wh); if(r < 0) return -1; *off = r; return 0; }
int c_close(void* c) { Host h; return ofd_close((Ofd*)c); }

Ofd* do_open(const char* path, bool rd, bool wr, bool create, bool trunc, bool app, bool excl) {
	std::string p = normp(path);
	int e = do_fault(trunc || app || create ? (app ? mc::vfs::OPEN_A : mc::vfs::OPEN_W) : mc::vfs::OPEN_R, p);
	auto kind = trunc || app || create ? (app ? mc::vfs::OPEN_A : mc::vfs::OPEN_W) : mc::vfs::OPEN_R;
	if(e > 0) { errno = e; did(kind, p, "", 0, e); return nullptr; }
	auto it = F->names.find(p);
	if(F->dirs.count(p)) { errno = EISDIR; return nullptr; }
	if(it == F->names.end()) {
		if(!create) { errno = ENOENT; return nullptr; }
		int d = dev_of(p); if(d < 0) { errno = ENOENT; return nullptr; }
		auto ino = std::make_shared<Inode>(); ino->dev = d;
		it = F->names.emplace(p, ino).first;
	} else if(excl) { errno = EEXIST; return nullptr; }
	else if(trunc) it->second->truncate(0);
	Ofd* o = new Ofd(); F->ofds.push_back(o); o->tok = STACK_BASE - 8 * F->ofds.size();   // stands for the stream in the race detector (glibc allocates the FILE itself)

	o->ino = it->second; o->rd = rd; o->wr = wr; o->app = app; o->path = p; o->ino->opens++;
	did(kind, p);
	return o;
}
// file event: ordering of operations on one file between threads
void fev(Ofd* o, uintptr_t pc, const char* what) {
	if(!active() || !o->ino) return;
	race_access(o->tok, 8, true, pc, true);
	void* obj = (void*)(uintptr_t)(hash_bytes(o->path.data(), o->path.size()) | 1);
	if(R->cfg.file_points || (R->nesc && escalated(pc))) point(O_FILE, obj, what);
	else { RT::AEnt* e = aent(obj); mc::tag(e->h); e->h = cur()->h; }
}
void nev(const char* path, const char* what) {   // name-space event
	if(!active()) return;
	std::string p; { Host h; p = normp(path); }
	void* obj = (void*)(uintptr_t)(hash_bytes(p.data(), p.size()) | 1);
	{ Host h; std::string().swap(p); }
	if(R->cfg.file_points) point(O_FILE, obj, what);
	else { RT::AEnt* e = aent(obj); mc::tag(e->h); e->h = cur()->h; }
}
Ofd* find(FILE* f) { if(!F || !R || !R->in_exec) return nullptr; auto it = F->files.find(f); return it == F->files.end() ? nullptr : it->second; }
}
#define PC ((uintptr_t)__builtin_return_address(0))

namespace mc {
void vfs_init() { F = new Fs(); }
namespace vfs {
const char* const op_names[] = {"open(r)", "open(w)", "open(a)", "read", "write", "seek", "close", "remove", "rename", "stat", "flush"};
void reset() { for(auto o : F->ofds) delete o; F->ofds.clear(); F->names.clear(); F->dirs.clear(); F->dirs[""] = 0; F->files.clear(); F->fds.clear(); F->next_fd = 1000000; F->nops = 0; F->fault = nullptr; F->obs = nullptr; }
void set_fault(FaultFn f) { Host h; F->fault = f; }
void set_observe(ObserveFn f) { Host h; F->obs = f; }
void add_dir(const std::string& p, int dev) { Host h; std::string s = normp(p.c_str()); while(s.size() > 1 && s.back() == '/') s.pop_back(); F->dirs[s] = dev; }
bool exists(const std::string& p) { Host h; return F->names.count(normp(p.c_str())) != 0; }
std::string read(const std::string& p) { Host h; auto it = F->names.find(normp(p.c_str())); return it == F->names.end() ? std::string() : it->second->data; }
void write(const std::string& p, const std::string& d) { Host h; auto s = normp(p.c_str()); auto& i = F->names[s]; i = std::make_shared<Inode>(); i->dev = std::max(0, dev_of(s)); i->data = d; }
uint64_t size(const std::string& p) { Host h; auto it = F->names.find(normp(p.c_str())); return it == F->names.end() ? 0 : it->second->size(); }
std::string read_at(const std::string& p, uint64_t pos, uint64_t n) { Host h; auto it = F->names.find(normp(p.c_str())); std::string s; if(it == F->names.end() || pos >= it->second->size()) return s; s.resize(std::min<uint64_t>(n, it->second->size() - pos)); it->second->get(pos, &s[0], s.size()); return s; }
void write_at(const std::string& p, uint64_t pos, const std::string& d) { Host h; auto s = normp(p.c_str()); auto& i = F->names[s]; if(!i) { i = std::make_shared<Inode>(); i->dev = std::max(0, dev_of(s)); } i->put(pos, d.data(), d.size()); }
void erase(const std::string& p) { Host h; F->names.erase(normp(p.c_str())); }
std::vector<std::string> list() { Host h; std::vector<std::string> v; for(auto& e : F->names) v.push_back(e.first); return v; }
uint64_t num_ops() { return F->nops; }
int open_count(const std::string& p) { Host h; auto it = F->names.find(normp(p.c_str())); return it == F->names.end() ? 0 : it->second->opens; }
}
}

extern "C" {
void _IO_un_link(void*);
static FILE* my_fopen(const char* path, const char* mode) {
	nev(path, "fopen");
	Host h;
	bool plus = strchr(mode, '+') != nullptr;
	bool rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
	Ofd* o = do_open(path, rd, wr, mode[0] != 'r', mode[0] == 'w', mode[0] == 'a', strchr(mode, 'x') != nullptr);
	if(!o) return nullptr;
	cookie_io_functions_t io; io.read = rd ? c_read : nullptr; io.write = wr ? c_write : nullptr; io.seek = c_seek; io.close = c_close;
	// the FILE itself lives in the execution's memory
	int hs = R->host; R->host = 0; FILE* f = fopencookie(o, mode, io); R->host = hs;
	o->file = f; F->files[f] = o;
	if(F->files.size() > 1000) _IO_un_link((void*)f);   // glibc's list of open streams makes closing n of them quadratic
	return f;
}
FILE* fopen(const char* p, const char* m) { if(active() && mine(p)) return my_fopen(p, m); REAL(fopen); return r_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { if(active() && mine(p)) return my_fopen(p, m); REAL(fopen64); return r_fopen64(p, m); }
int fclose(FILE* f) { REAL(fclose); if(active()) { if(Ofd* o = find(f)) { fev(o, PC, "fclose"); int r = r_fclose(f); Host h; F->files.erase(f); return r; } else if((uintptr_t)f >= REG_BASE && (uintptr_t)f < REG_END) mc::fail("fclose on a closed file"); } return r_fclose(f); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) { REAL(fwrite); if(active()) if(Ofd* o = find(f)) { race_range(b, s * n, false, PC); fev(o, PC, "fwrite"); } return r_fwrite(b, s, n, f); }
size_t fread(void* b, size_t s, size_t n, FILE* f) { REAL(fread); if(active()) if(Ofd* o = find(f)) { race_range(b, s * n, true, PC); fev(o, PC, "fread"); } return r_fread(b, s, n, f); }
int fseek(FILE* f, long o_, int w) { REAL(fseek); if(active()) if(Ofd* o = find(f)) fev(o, PC, "fseek"); return r_fseek(f, o_, w); }
int fseeko(FILE* f, off_t o_, int w) { REAL(fseeko); if(active()) if(Ofd* o = find(f)) fev(o, PC, "fseek"); return r_fseeko(f, o_, w); }
int fseeko64(FILE* f, off64_t o_, int w) { REAL(fseeko64); if(active()) if(Ofd* o = find(f)) fev(o, PC, "fseek"); return r_fseeko64(f, o_, w); }
int fflush(FILE* f) { REAL(fflush); if(active() && f) if(Ofd* o = find(f)) fev(o, PC, "fflush"); return r_fflush(f); }
int fileno(FILE* f) { REAL(fileno); if(active()) if(Ofd* o = find(f)) { Host h; if(o->fd < 0) { o->fd = F->next_fd++; F->fds[o->fd] = o; } return o->fd; } return r_fileno(f); }
static Ofd* ffd(int fd) { if(fd < 1000000 || !R || !R->in_exec) return nullptr; auto it = F->fds.find(fd); return it == F->fds.end() ? nullptr : it->second; }
ssize_t read(int fd, void* b, size_t n) { if(fd >= 1000000) { Host h; Ofd* o = ffd(fd); if(!o) { errno = EBADF; return -1; } return ofd_read(o, (char*)b, n); } return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if(fd >= 1000000) { Host h; Ofd* o = ffd(fd); if(!o) { errno = EBADF; return -1; } return ofd_write(o, (const char*)b, n); } return syscall(SYS_write, fd, b, n); }
off64_t lseek64(int fd, off64_t off, int w) { if(fd >= 1000000) { Host h; Ofd* o = ffd(fd); if(!o) { errno = EBADF; return -1; } return ofd_seek(o, off, w); } return syscall(SYS_lseek, fd, off, w); }
off_t lseek(int fd, off_t off, int w) { return lseek64(fd, off, w); }
int fsync(int fd) { if(fd >= 1000000) return 0; return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if(fd >= 1000000) return 0; return syscall(SYS_fdatasync, fd); }
int ftruncate(int fd, off_t l) { if(fd >= 1000000) { Host h; Ofd* o = ffd(fd); if(!o) { errno = EBADF; return -1; } o->ino->truncate(l); return 0; } return syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off_t l) { return ftruncate(fd, l); }
static int vopen(const char* p, int fl) { nev(p, "open"); Host h; int a = fl & O_ACCMODE; Ofd* o = do_open(p, a != O_WRONLY, a != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, (fl & O_EXCL) && (fl & O_CREAT)); if(!o) return -1; o->fd = F->next_fd++; F->fds[o->fd] = o; return o->fd; }
int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if(active() && mine(p)) return vopen(p, fl); return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if(active() && mine(p)) return vopen(p, fl); return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int close(int fd) { if(fd >= 1000000) { Host h; Ofd* o = ffd(fd); if(!o) { errno = EBADF; return -1; } return ofd_close(o); } return syscall(SYS_close, fd); }
static int vremove(const char* path) {
	nev(path, "remove"); Host h; std::string p = normp(path);
	int e = do_fault(vfs::REMOVE, p); if(e > 0) { errno = e; did(vfs::REMOVE, p, "", 0, e); return -1; }
	if(!F->names.erase(p)) { errno = ENOENT; did(vfs::REMOVE, p, "", 0, ENOENT); return -1; }
	did(vfs::REMOVE, p);
	return 0;
}
int remove(const char* p) { if(active() && mine(p)) return vremove(p); REAL(remove); return r_remove(p); }
int unlink(const char* p) { if(active() && mine(p)) return vremove(p); return syscall(SYS_unlink, p); }
int rename(const char* a, const char* b) {
	if(!(active() && mine(a))) return syscall(SYS_rename, a, b);
	nev(a, "rename"); nev(b, "rename"); Host h; std::string p = normp(a), q = normp(b);
	int e = do_fault(vfs::RENAME, p, q); if(e > 0) { errno = e; did(vfs::RENAME, p, q, 0, e); return -1; }
	auto it = F->names.find(p); int d = dev_of(q);
	if(it == F->names.end() || d < 0) { errno = ENOENT; did(vfs::RENAME, p, q, 0, ENOENT); return -1; }
	if(d != it->second->dev) { errno = EXDEV; did(vfs::RENAME, p, q, 0, EXDEV); return -1; }
	IP i = it->second; F->names.erase(it); F->names[q] = i;
	did(vfs::RENAME, p, q);
	return 0;
}
static int fill_stat(struct stat* st, const std::string& p) { memset(st, 0, sizeof *st); auto it = F->names.find(p); if(it != F->names.end()) { st->st_mode = S_IFREG | 0644; st->st_size = it->second->size(); st->st_blksize = 4096; st->st_dev = it->second->dev + 1; st->st_nlink = 1; return 0; } std::string q = p; while(q.size() > 1 && q.back() == '/') q.pop_back(); auto d = F->dirs.find(q); if(d != F->dirs.end()) { st->st_mode = S_IFDIR | 0755; st->st_dev = d->second + 1; return 0; } errno = ENOENT; return -1; }
int stat(const char* p, struct stat* st) { if(active() && mine(p)) { Host h; return fill_stat(st, normp(p)); } return syscall(SYS_stat, p, st); }
int lstat(const char* p, struct stat* st) { if(active() && mine(p)) { Host h; return fill_stat(st, normp(p)); } return syscall(SYS_lstat, p, st); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstat(int fd, struct stat* st) { if(fd >= 1000000) { Host h; Ofd* o = ffd(fd); if(!o) { errno = EBADF; return -1; } memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = o->ino->size(); st->st_blksize = 4096; return 0; } return syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int access(const char* p, int m) { if(active() && mine(p)) { Host h; std::string s = normp(p); if(F->names.count(s) || F->dirs.count(s)) return 0; errno = ENOENT; return -1; } return syscall(SYS_access, p, m); }
int mkdir(const char* p, mode_t m) { if(active() && mine(p)) { Host h; std::string s = normp(p); while(s.size() > 1 && s.back() == '/') s.pop_back(); if(F->dirs.count(s)) { errno = EEXIST; return -1; } int d = dev_of(s); F->dirs[s] = d < 0 ? 0 : d; return 0; } return syscall(SYS_mkdir, p, m); }
}
