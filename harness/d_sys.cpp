// The helpers on files, on trees in a scratch directory, as a user who owns nothing else.
#include "drv.h"
#include <map>
#include <memory>
#include <algorithm>
#include <cstdarg>
#include <filesystem>
#include <grp.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <msat/utils/sys.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
namespace fs = std::filesystem;
using namespace msat;

// --- calls of the system that can be made to fail, to stop the process or to do a part of what they are asked
static bool on = false;         // while the code under test runs
static int calls = 0, fail_at = 0, fail_errno = 0;
static bool fail_stop = false, no_types = false;
static size_t most = 0;         // bytes in one transfer, 0: any
static bool failing()
{
    if (!on || !fail_at || ++calls != fail_at) return false;
    if (fail_stop) _exit(99);
    errno = fail_errno;
    return true;
}
static size_t part(size_t n) { return on && most && n > most ? most : n; }
#define WRAP(ret, name, args, ...) extern "C" { ret __real_##name args; ret __wrap_##name args { if (failing()) return (ret)-1; return __real_##name(__VA_ARGS__); } }
WRAP(ssize_t, write, (int fd, const void* b, size_t n), fd, b, part(n))
WRAP(ssize_t, read, (int fd, void* b, size_t n), fd, b, part(n))
WRAP(ssize_t, pwrite64, (int fd, const void* b, size_t n, off_t o), fd, b, part(n), o)
WRAP(ssize_t, pread64, (int fd, void* b, size_t n, off_t o), fd, b, part(n), o)
WRAP(ssize_t, pwrite, (int fd, const void* b, size_t n, off_t o), fd, b, part(n), o)
WRAP(ssize_t, pread, (int fd, void* b, size_t n, off_t o), fd, b, part(n), o)
WRAP(int, rename, (const char* a, const char* b), a, b)
WRAP(int, renameat, (int d, const char* a, int e, const char* b), d, a, e, b)
WRAP(int, fchmod, (int fd, mode_t m), fd, m)
WRAP(int, chmod, (const char* p, mode_t m), p, m)
WRAP(int, fsync, (int fd), fd)
WRAP(int, fdatasync, (int fd), fd)
WRAP(int, unlink, (const char* p), p)
WRAP(int, unlinkat, (int d, const char* p, int f), d, p, f)
WRAP(int, rmdir, (const char* p), p)
WRAP(int, mkstemp, (char* t), t)
WRAP(int, mkstemp64, (char* t), t)
WRAP(int, ftruncate64, (int fd, off_t n), fd, n)
WRAP(int, ftruncate, (int fd, off_t n), fd, n)
extern "C" {
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...);
int __wrap_open(const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); if (failing()) return -1; return __real_open(p, f, m); }
int __wrap_open64(const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); if (failing()) return -1; return __real_open64(p, f, m); }
int __real_openat(int, const char*, int, ...); int __real_openat64(int, const char*, int, ...);
int __wrap_openat(int d, const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); if (failing()) return -1; return __real_openat(d, p, f, m); }
int __wrap_openat64(int d, const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); if (failing()) return -1; return __real_openat64(d, p, f, m); }
// a close that fails has closed
int __real_close(int);
int __wrap_close(int fd) { bool f = failing(); int e = errno; int r = __real_close(fd); if (f) { errno = e; return -1; } return r; }
// file systems that do not tell the type of entries
dirent* __real_readdir(DIR*); dirent64* __real_readdir64(DIR*);
dirent* __wrap_readdir(DIR* d) { dirent* e = __real_readdir(d); if (e && on && no_types) e->d_type = DT_UNKNOWN; return e; }
dirent64* __wrap_readdir64(DIR* d) { dirent64* e = __real_readdir64(d); if (e && on && no_types) e->d_type = DT_UNKNOWN; return e; }
}

// waiting for a lock, interrupted by signals so many times
static int signals = 0;
extern "C" {
int __real_fcntl(int, int, ...); int __real_fcntl64(int, int, ...);
int __wrap_fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); void* x = va_arg(a, void*); va_end(a); if (on && (c == F_OFD_SETLKW || c == F_SETLKW) && signals) { --signals; errno = EINTR; return -1; } return __real_fcntl64(fd, c, x); }
int __wrap_fcntl(int fd, int c, ...) { va_list a; va_start(a, c); void* x = va_arg(a, void*); va_end(a); return __wrap_fcntl64(fd, c, x); }
int __real_futimens(int, const timespec*);
int __wrap_futimens(int fd, const timespec* t) { if (failing()) return -1; return __real_futimens(fd, t); }
}

static std::string root;        // of the tree
static std::map<std::string, std::unique_ptr<sys::Tempfile>> files;
static std::map<std::string, std::unique_ptr<sys::Tempdir>> dirs;
static int base_fds = 0;
static int open_fds()
{
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (__real_readdir64(d)) ++n;
    closedir(d);
    return n;
}
void reset_case()
{
    on = false;
    files.clear(); dirs.clear();
    if (root.empty())
    {
        fs::create_directory("tree");
        if (getuid() == 0)
        {
            if (chown(".", 65534, 65534) || chown("tree", 65534, 65534) || setgroups(0, nullptr) || setgid(65534) || setuid(65534)) { perror("cannot give up privileges"); _exit(3); }
        }
        umask(022);
        root = (fs::current_path() / "tree").native();
    }
    for (auto& e : fs::directory_iterator(root)) fs::remove_all(e.path());
    base_fds = open_fds();
}

static std::string path(const json& p)
{
    std::string r = root;
    for (auto& n : p) r += "/" + n.get<std::string>();
    return r;
}
static json names(const std::string& p)     // of a path below the root
{
    json r = json::array();
    if (p.compare(0, root.size(), root)) { r.push_back("/"); r.push_back(p); return r; }
    std::string n;
    for (size_t i = root.size() + 1; i <= p.size(); ++i)
        if (i == p.size() || p[i] == '/') { if (!n.empty()) r.push_back(n); n.clear(); }
        else n += p[i];
    return r;
}
static void snap(const std::string& d, const json& at, json& out)
{
    std::vector<std::string> ns;
    for (auto& e : fs::directory_iterator(d)) ns.push_back(e.path().filename().native());
    std::sort(ns.begin(), ns.end());
    for (auto& n : ns)
    {
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        json q = at; q.push_back(n);
        json e = {{"p", q}, {"t", "other"}, {"c", json::array()}, {"m", (int)(st.st_mode & 07777)}, {"to", json::array()}, {"ts", (int)st.st_mtime}};
        if (S_ISDIR(st.st_mode)) { e["t"] = "dir"; out.push_back(e); snap(p, q, out); continue; }
        if (S_ISLNK(st.st_mode)) { e["t"] = "link"; e["to"] = names(fs::read_symlink(p).native()); }
        if (S_ISREG(st.st_mode))
        {
            e["t"] = "file";
            mode_t m = st.st_mode & 07777;
            if (!(m & 0400)) chmod(p.c_str(), m | 0400);
            std::ifstream i(p, std::ios::binary);
            e["c"] = codes(std::string(std::istreambuf_iterator<char>(i), {}));
            i.close();
            if (!(m & 0400)) chmod(p.c_str(), m);
        }
        out.push_back(e);
    }
}
static void make(const std::string& at, const json& nodes)
{
    for (auto& n : nodes)
    {
        std::string p = at;
        for (auto& x : n["p"]) p += "/" + x.get<std::string>();
        std::string t = n["t"];
        if (t == "dir") mkdir(p.c_str(), 0755);
        else if (t == "link") { if (symlink(path(n["to"]).c_str(), p.c_str())) throw "symlink"; }
        else { std::ofstream o(p, std::ios::binary); o << text(n["c"]); o.close(); chmod(p.c_str(), n["m"].get<int>()); }
    }
}

enum { FAILED = -1, DID = -2, GONE = -3, ALREADY = -4, END = -5, STOPPED = -7, NUM = -9 };
static json word(int w) { return json::array({w}); }
static json num(long n) { return json::array({(int)NUM, n}); }
template<typename F> static json result(F f)
{
    on = true; calls = 0;
    json r;
    try { r = f(); }
    catch (std::system_error&) { r = word(FAILED); }
    catch (std::runtime_error&) { r = word(FAILED); }
    on = false;
    return r;
}
template<typename F> static json done(F f) { return result([&] { f(); return word(DID); }); }
template<typename F> static json there(F f, int no = GONE) { return result([&] { return word(f() ? (int)DID : no); }); }
template<typename F> static json yes(F f) { json r = result([&] { return word(f() ? 1 : 0); }); return r[0] == FAILED ? "error" : r[0] == 1 ? "yes" : "no"; }
static std::string type(mode_t m) { return S_ISDIR(m) ? "dir" : S_ISREG(m) ? "file" : S_ISLNK(m) ? "link" : "other"; }

static json io(const std::string& p, const json& in)
{
    json vs = json::array();
    json v = result([&] {
        sys::File f(p, O_RDWR | O_CREAT, 0666);
        // a file is the same by any object it is moved to
        sys::File g(std::move(f));
        sys::File h("nothing");
        h = std::move(g);
        if (f.is_open() || g.is_open() || !h.is_open()) return word(-98);
        for (auto& st : in["steps"])
        {
            std::string s = st["s"];
            size_t n = st.value("n", 0);
            std::string d = st.count("d") ? text(st["d"]) : "";
            std::vector<char> b(n + 1);
            auto got = [&](size_t k) { return codes(std::string(b.data(), k)); };
            vs.push_back([&]() -> json {
                try {
                    if (s == "read") return got(h.read(b.data(), n));
                    if (s == "readall") return h.read_all_or_retry(b.data(), n) ? got(n) : word(END);
                    if (s == "readthrow") { h.read_all_or_throw(b.data(), n); return got(n); }
                    if (s == "write") return num(h.write(d.data(), d.size()));
                    if (s == "writeall") { if (n % 2) h.write_all_or_retry(d); else h.write_all_or_retry(d.data(), d.size()); return word(DID); }
                    if (s == "writethrow") { if (n % 2) h.write_all_or_throw(d); else h.write_all_or_throw(d.data(), d.size()); return word(DID); }
                    if (s == "seek") return num(h.lseek(n));
                    if (s == "end") return num(h.lseek(n, SEEK_END));
                    if (s == "pread") return got(h.pread(b.data(), n, st["at"].get<int>()));
                    if (s == "pwrite") return num(n % 2 ? h.pwrite(d, st["at"].get<int>()) : h.pwrite(d.data(), d.size(), st["at"].get<int>()));
                    if (s == "trunc") { h.ftruncate(n); return word(DID); }
                    if (s == "size") { struct stat x; h.fstat(x); return num(x.st_size); }
                } catch (std::system_error&) { return word(FAILED); }
                catch (std::runtime_error&) { return word(FAILED); }
                return word(-99);
            }());
        }
        return word(DID);
    });
    return {{"v", v}, {"vs", vs}};
}
static json mapped(const std::string& p)
{
    bool good = true;
    json v = result([&] {
        sys::File f(p, O_RDONLY);
        struct stat st; f.fstat(st);
        size_t n = st.st_size;
        auto same = [&](sys::MMap& m) { const char* c = m; return m.size() == n ? std::string(c, n) : std::string("size"); };
        sys::MMap a = f.mmap(n, PROT_READ, MAP_SHARED);
        std::string t = same(a);
        sys::MMap b(std::move(a));
        good = good && same(b) == t;
        a = f.mmap(n, PROT_READ, MAP_SHARED);       // where there is none any more
        good = good && same(a) == t && same(b) == t;
        b = std::move(a);                           // where there is another
        good = good && same(b) == t;
        b.munmap();
        b = f.mmap(n, PROT_READ, MAP_PRIVATE);
        good = good && same(b) == t;
        return codes(t);
    });
    return {{"v", v}, {"good", good}};
}

static json locks(const std::string& p, const json& in)
{
    json vs = json::array();
    std::map<int, std::unique_ptr<sys::File>> hs;
    json v = result([&] {
        for (auto& st : in["steps"])
        {
            int h = st["h"];
            std::string s = st["s"], t = st["t"];
            if (s == "drop") { hs.erase(h); vs.push_back({{"a", "yes"}, {"t", "u"}, {"at", 0}, {"n", 0}}); continue; }
            if (!hs.count(h)) hs[h].reset(new sys::File(p, O_RDWR));
            auto& f = *hs[h];
            struct flock lk, was;
            memset(&lk, 0, sizeof lk);
            lk.l_type = t == "r" ? F_RDLCK : t == "w" ? F_WRLCK : F_UNLCK;
            lk.l_whence = SEEK_SET; lk.l_start = st["a"].get<int>(); lk.l_len = st["n"].get<int>();
            was = lk;
            std::string a;
            try {
                if (s == "set") a = f.ofd_setlk(lk) ? "yes" : "no";
                else if (s == "get") a = f.ofd_getlk(lk) ? "yes" : "no";
                else
                {
                    bool blocks = false;
                    if (t != "u") { if (__real_fcntl64(f, F_OFD_GETLK, &was)) throw std::runtime_error(""); blocks = was.l_type != F_UNLCK; }
                    signals = st["signals"].get<int>();
                    bool retry = st["retry"];
                    if (blocks && retry) a = "skip";
                    else { if (blocks && !signals) signals = 1; a = (retry ? f.ofd_setlkw(lk) : f.ofd_setlkw(lk, false)) ? "yes" : "no"; }
                    signals = 0;
                }
            } catch (std::system_error&) { a = "error"; }
            vs.push_back({{"a", a}, {"t", lk.l_type == F_RDLCK ? "r" : lk.l_type == F_WRLCK ? "w" : "u"}, {"at", (int)lk.l_start}, {"n", (int)lk.l_len}});
        }
        return word(DID);
    });
    return {{"v", v}, {"vs", vs}};
}
static json opened(const json& in)
{
    std::string p = path(in["p"]), acc = in["acc"], d = text(in["d"]), up = p.substr(0, p.rfind('/')), n = p.substr(p.rfind('/') + 1);
    int how = in["how"], m = in["m"], fl = acc == "r" ? O_RDONLY : acc == "w" ? O_WRONLY : O_RDWR;
    if (in["creat"]) fl |= O_CREAT;
    if (in["excl"]) fl |= O_EXCL;
    if (in["trunc"]) fl |= O_TRUNC;
    if (in["nofollow"]) fl |= O_NOFOLLOW;
    std::string mode;
    json v = result([&] {
        std::unique_ptr<sys::File> f;
        if (how == 0) f.reset(new sys::File(p, fl, m));
        else if (how == 1) { f.reset(new sys::File(fs::path(p))); f->open(fl, m); }
        else if (how == 2) { f.reset(new sys::File(p.c_str())); if (!f->open_ifexists(fl, m)) return word(f->is_open() ? -98 : (int)GONE); }
        else
        {
            sys::Path dir(up);
            int fd = how == 3 ? dir.openat(n.c_str(), fl, m) : dir.openat_ifexists(n.c_str(), fl, m);
            if (fd == -1) return word(GONE);
            f.reset(new sys::File(fd, p));
        }
        if (!f->is_open() || f->path() != p) return word(-98);
        int g = f->getfl() & O_ACCMODE;
        mode = g == O_RDONLY ? "r" : g == O_WRONLY ? "w" : "rw";
        if (g != O_RDONLY)
        {
            if (in["append"]) f->setfl(f->getfl() | O_APPEND);
            // the copy of a descriptor is at the same place
            sys::FileDescriptor c(f->dup());
            c.write_all_or_throw(d);
            c.close();
            if (c.is_open() || f->lseek(0, SEEK_CUR) < (off_t)d.size()) return word(-98);
        }
        return word(DID);
    });
    return {{"v", v}, {"mode", mode}};
}

static json doit(const std::string& op, const json& in)
{
    json o;
    std::string p = in.count("p") ? path(in["p"]) : "", q = in.count("q") ? path(in["q"]) : "";
    int how = in.value("how", 0);   // which of the equivalent functions
    std::string c = in.count("c") ? text(in["c"]) : "";
    int m = in.value("m", 0777);
    if (op == "write")
        o["v"] = done([&] {
            if (how == 0) sys::write_file(fs::path(p), c, m);
            else if (how == 1) sys::write_file(p, c, m);
            else if (how == 2) sys::write_file(p.c_str(), c, m);
            else if (how == 3) sys::write_file(fs::path(p), c.data(), c.size(), m);
            else if (how == 4) sys::write_file(p, c.data(), c.size(), m);
            else sys::write_file(p.c_str(), c.data(), c.size(), m);
        });
    else if (op == "awrite")
        o["v"] = done([&] {
            if (how == 0) sys::write_file_atomically(fs::path(p), c, m);
            else if (how == 1) sys::write_file_atomically(p, c, m);
            else if (how == 2) sys::write_file_atomically(p.c_str(), c, m);
            else if (how == 3) sys::write_file_atomically(fs::path(p), c.data(), c.size(), m);
            else sys::write_file_atomically(p, c.data(), c.size(), m);
        });
    else if (op == "read") o["v"] = result([&] { return codes(how == 0 ? sys::read_file(fs::path(p)) : how == 1 ? sys::read_file(p) : sys::read_file(p.c_str())); });
    else if (op == "unlink") o["v"] = done([&] { sys::unlink(p); });
    else if (op == "unlink_ifexists") o["v"] = there([&] { return how == 0 ? sys::unlink_ifexists(fs::path(p)) : how == 1 ? sys::unlink_ifexists(p) : sys::unlink_ifexists(p.c_str()); });
    else if (op == "rename") o["v"] = done([&] { sys::rename(p, q); });
    else if (op == "rename_ifexists") o["v"] = there([&] { return sys::rename_ifexists(p, q); });
    else if (op == "mkdir_ifmissing") o["v"] = there([&] { return sys::mkdir_ifmissing(p); }, ALREADY);
    else if (op == "makedirs") o["v"] = there([&] { return sys::makedirs(p); }, ALREADY);
    else if (op == "rmdir") o["v"] = done([&] { sys::rmdir(p); });
    else if (op == "rmtree") o["v"] = done([&] { if (how == 0) sys::rmtree(p); else { sys::Path d(p); d.rmtree(); } });
    else if (op == "rmtree_ifexists") o["v"] = there([&] { return how == 0 ? sys::rmtree_ifexists(fs::path(p)) : how == 1 ? sys::rmtree_ifexists(p) : sys::rmtree_ifexists(p.c_str()); });
    else if (op == "touch") o["v"] = done([&] { sys::touch(p, in["ts"].get<int>()); });
    else if (op == "ask")
    {
        json s = result([&] {
            auto st = how == 0 ? sys::stat(fs::path(p)) : how == 1 ? sys::stat(p) : sys::stat(p.c_str());
            o["stat"] = st ? type(st->st_mode) : "no";
            return word(DID);
        });
        if (s[0] == FAILED) o["stat"] = "error";
        o["isdir"] = yes([&] { return sys::isdir(p); }); o["isreg"] = yes([&] { return sys::isreg(p); });
        o["isblk"] = yes([&] { return sys::isblk(p); }); o["ischr"] = yes([&] { return sys::ischr(p); });
        o["isfifo"] = yes([&] { return sys::isfifo(p); }); o["issock"] = yes([&] { return sys::issock(p); });
        o["islnk"] = yes([&] { return sys::islnk(p); }); o["exists"] = yes([&] { return sys::exists(p); });
        o["f"] = yes([&] { return sys::access(p, F_OK); }); o["r"] = yes([&] { return sys::access(p, R_OK); });
        o["w"] = yes([&] { return sys::access(p, W_OK); }); o["x"] = yes([&] { return sys::access(p, X_OK); });
        struct stat st;
        bool ok = ::stat(p.c_str(), &st) == 0;
        o["size"] = result([&] { return num(sys::size(p)); });
        o["time"] = result([&] { return num(sys::timestamp(p)); });
        o["inode"] = result([&] { ino_t n = sys::inode(p); return num(ok && n == st.st_ino); });
        o["size0"] = result([&] { return num(sys::size(p, 77)); });
        o["time0"] = result([&] { return num(sys::timestamp(p, 77)); });
        o["inode0"] = result([&] { ino_t i = sys::inode(p, 77); return num(ok ? i == st.st_ino : (long)i); });
        json t = result([&] { struct stat x; if (how == 0) sys::stat(fs::path(p), x); else if (how == 1) sys::stat(p, x); else sys::stat(p.c_str(), x); return word(x.st_ino == st.st_ino && type(x.st_mode) == o["stat"] ? DID : -98); });
        if (t[0] != (ok ? DID : FAILED)) o["stat"] = "differs";
    }
    else if (op == "list")
    {
        json es = json::array();
        o["v"] = done([&] {
            sys::Path d(p);
            for (auto i = d.begin(); i != d.end(); ++i)
            {
                std::string n = i->d_name;
                if (n == "." || n == "..") continue;
                int k = i.isdir() + 2 * i.isreg() + 4 * i.islnk() + 8 * i.isblk() + 16 * i.ischr() + 32 * i.isfifo() + 64 * i.issock();
                std::string opens;
                try
                {
                    sys::Path s = i.open_path();
                    struct stat st; s.fstat(st);
                    opens = type(st.st_mode);
                    if (s.path() != fs::path(p) / n) opens = s.path().native();
                } catch (std::system_error&) { opens = "error"; }
                es.push_back({{"n", n}, {"t", k == 1 ? "dir" : k == 2 ? "file" : k == 4 ? "link" : "other"}, {"opens", opens}});
            }
            // the same entry by an iterator it is moved to
            auto i = d.begin();
            if (i != d.end())
            {
                sys::Path::iterator j(std::move(i));
                bool dir = j.isdir();
                if (j->d_name == std::string(".")) { sys::Path s = j.open_path(); struct stat st; s.fstat(st); if (!dir || !S_ISDIR(st.st_mode)) es.push_back("moved"); }
            }
        });
        o["es"] = es;
    }
    else if (op == "which")
    {
        std::string old = getenv("PATH") ? getenv("PATH") : "", v;
        int k = 0;
        for (auto& d : in["dirs"]) { v += (k++ ? ":" : "") + path(d); if (how == k) v += ":"; }
        setenv("PATH", v.c_str(), 1);
        on = true;
        auto r = sys::which(in["n"]);
        on = false;
        setenv("PATH", old.c_str(), 1);
        o["path"] = r == fs::path(in["n"].get<std::string>()) ? json::array() : names(r.native());
    }
    else if (op == "at")
    {
        std::string w = in["what"], n = in["n"];
        o["t"] = "error"; o["path"] = json::array();
        o["v"] = result([&] {
            sys::Path d(p);
            struct stat st;
            bool yes = true;
            if (w == "mkdirat") d.mkdirat(n.c_str());
            else if (w == "unlinkat") d.unlinkat(n.c_str());
            else if (w == "rmdirat") d.rmdirat(n.c_str());
            else if (w == "symlinkat") d.symlinkat(path(in["to"]).c_str(), n.c_str());
            else if (w == "readlinkat") o["path"] = names(d.readlinkat(n.c_str()));
            else if (w == "fstatat") { d.fstatat(n.c_str(), st); o["t"] = type(st.st_mode); }
            else if (w == "lstatat") { d.lstatat(n.c_str(), st); o["t"] = type(st.st_mode); }
            else if (w == "fstatat_ifexists") { yes = d.fstatat_ifexists(n.c_str(), st); o["t"] = yes ? type(st.st_mode) : "no"; }
            else if (w == "lstatat_ifexists") { yes = d.lstatat_ifexists(n.c_str(), st); o["t"] = yes ? type(st.st_mode) : "no"; }
            else if (w == "faccessat") { struct stat x; d.fstat(x); if (!S_ISDIR(x.st_mode)) throw std::runtime_error(""); yes = d.faccessat(n.c_str(), F_OK); }
            else if (w == "openat_ifexists") { int fd = d.openat_ifexists(n.c_str(), O_RDONLY); yes = fd != -1; if (yes) __real_close(fd); }
            return word(yes ? (int)DID : GONE);
        });
    }
    else if (op == "mktemp")
    {
        std::string id = in["id"];
        o["path"] = json::array();
        o["v"] = done([&] {
            if (in["kind"] == "file")
            {
                std::unique_ptr<sys::Tempfile> t(how == 0 ? new sys::Tempfile(fs::path(p)) : how == 1 ? new sys::Tempfile(p) : new sys::Tempfile(p.c_str()));
                o["path"] = names(t->path().native());
                t->write_all_or_retry(c);
                files[id] = std::move(t);
            }
            else
            {
                std::unique_ptr<sys::Tempdir> t(how == 0 ? new sys::Tempdir(fs::path(p)) : how == 1 ? new sys::Tempdir(p) : new sys::Tempdir(p.c_str()));
                o["path"] = names(t->path().native());
                make(t->path().native(), in["nodes"]);
                dirs[id] = std::move(t);
            }
        });
    }
    else if (op == "temp")
    {
        std::string id = in["id"], w = in["what"];
        on = true;
        if (files.count(id))
        {
            if (w == "keep") files[id]->unlink_on_exit(false);
            else if (w == "unlink") files[id]->unlink();
            else files.erase(id);
        }
        else if (dirs.count(id))
        {
            if (w == "keep") dirs[id]->rmtree_on_exit(false);
            else if (w == "drop") dirs.erase(id);
        }
        on = false;
    }
    else if (op == "io") { most = in["most"].get<int>(); o = io(p, in); }
    else if (op == "mmap") o = mapped(p);
    else if (op == "locks") o = locks(p, in);
    else if (op == "open") o = opened(in);
    else if (op == "names")
    {
        std::string cwd, abs, here = fs::current_path().native(), rel;
        for (auto& n : in["p"]) rel += (rel.empty() ? "" : "/") + n.get<std::string>();
        o["suffix"] = json::array();
        o["v"] = result([&] { o["suffix"] = names(sys::with_suffix(p, in["suf"].get<std::string>()).native()); return word(DID); });
        json v = done([&] { sys::chdir(root); cwd = sys::getcwd(); abs = sys::abspath(rel); });
        if (chdir(here.c_str())) abort();
        o["cwd"] = names(cwd); o["abs"] = names(abs); o["went"] = v;
    }
    else if (op == "times")
    {
        struct stat a, b;
        std::string d = text(in["d"]);
        ::stat(p.c_str(), &a);
        o["v"] = done([&] {
            sys::File f(p, O_WRONLY);
            sys::PreserveFileTimes t(f);
            f.write_all_or_retry(d);
        });
        ::stat(p.c_str(), &b);
        o["kept"] = a.st_mtim.tv_sec == b.st_mtim.tv_sec && a.st_mtim.tv_nsec == b.st_mtim.tv_nsec && a.st_atim.tv_sec == b.st_atim.tv_sec && a.st_atim.tv_nsec == b.st_atim.tv_nsec;
    }
    else if (op == "elapsed")
    {
        timespec a{in["b"][0].get<long>(), in["b"][1].get<long>()}, b{in["u"][0].get<long>(), in["u"][1].get<long>()};
        unsigned long long e = sys::timesec_elapsed(a, b);
        o["e"] = json::array({e / 1000000000ull, e % 1000000000ull});
    }
    else if (op == "limit")
    {
        rlimit a, b, c;
        ::getrlimit(RLIMIT_CORE, &a);
        {
            sys::OverrideRlimit l(RLIMIT_CORE, in["n"].get<int>());
            ::getrlimit(RLIMIT_CORE, &b);
            o["inside"] = (int)b.rlim_cur;
            l.set(in["then"].get<int>());
            ::getrlimit(RLIMIT_CORE, &c);
            o["again"] = (int)c.rlim_cur;
        }
        ::getrlimit(RLIMIT_CORE, &b);
        o["same"] = a.rlim_cur == b.rlim_cur && a.rlim_max == b.rlim_max && c.rlim_max == a.rlim_max;
    }
    else if (op != "tree") throw "unknown operation";
    return o;
}

json run_op(const std::string& op, const json& in)
{
    if (op == "tree")
    {
        files.clear(); dirs.clear();
        for (auto& e : fs::directory_iterator(root)) fs::remove_all(e.path());
        make(root, in["nodes"]);
    }
    json o;
    most = in.value("most", 0);
    no_types = in.value("untyped", false);
    fail_at = 0;
    if (in.count("fault"))
    {
        // in another process: it may be stopped
        std::string how = in["fault"]["how"];
        int fd[2];
        if (pipe(fd)) throw "pipe";
        pid_t pid = fork();
        if (!pid)
        {
            fail_at = in["fault"]["n"]; fail_stop = how == "stop";
            fail_errno = how == "EIO" ? EIO : how == "ENOSPC" ? ENOSPC : how == "EINTR" ? EINTR : how == "EACCES" ? EACCES : EINVAL;
            json r = doit(op, in);
            r["fds"] = open_fds() - base_fds - 2;
            std::string s = r.dump();
            if (__real_write(fd[1], s.data(), s.size()) < 0) _exit(98);
            _exit(0);
        }
        __real_close(fd[1]);
        std::string s;
        char b[4096];
        for (ssize_t n; (n = __real_read(fd[0], b, sizeof b)) > 0;) s.append(b, n);
        __real_close(fd[0]);
        int st;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99) o = {{"v", word(STOPPED)}, {"fds", open_fds() - base_fds}};
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o = json::parse(s);
        else abort();
    }
    else
    {
        o = doit(op, in);
        o["fds"] = open_fds() - base_fds;
    }
    json t = json::array();
    snap(root, json::array(), t);
    o["tree"] = t;
    return o;
}
