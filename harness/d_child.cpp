// Drives child processes.  The children take commands through fifos, so that
// what they do is in step with the parent.  Signals go to nobody but them.
#include <msat/utils/subprocess.h>
#include "drv.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
#include <cstring>
#include <chrono>

using namespace msat::subprocess;

static json env_now(char** e)
{
    json r = json::array();
    for (; *e; ++e)
    {
        std::string s(*e);
        size_t p = s.find('=');
        r.push_back({codes(s.substr(0, p)), codes(p == std::string::npos ? "" : s.substr(p + 1))});
    }
    return r;
}
static std::string ident(int fd)
{
    struct stat st;
    if (fstat(fd, &st)) return "";
    char b[100];
    snprintf(b, sizeof b, "%llu:%llu:%llu", (unsigned long long)st.st_dev, (unsigned long long)st.st_ino, (unsigned long long)st.st_rdev);
    return b;
}

// ---- in the child
static int serve(const char* dir, const char* c, json args)
{
    int in = open((std::string(dir) + "/cmd" + c).c_str(), O_RDONLY), out = open((std::string(dir) + "/rep" + c).c_str(), O_WRONLY);
    if (in < 0 || out < 0) return 99;
    // not where standard descriptors could be
    int i2 = fcntl(in, F_DUPFD, 50), o2 = fcntl(out, F_DUPFD, 50);
    close(in); close(out);
    in = i2; out = o2;
    auto reply = [&](const json& j) { std::string s = j.dump() + "\n"; if (write(out, s.data(), s.size()) < 0) _exit(98); };
    reply("ready");
    std::string buf;
    while (true)
    {
        char ch;
        if (read(in, &ch, 1) != 1) return 97;
        if (ch != '\n') { buf += ch; continue; }
        json q = json::parse(buf);
        buf.clear();
        std::string op = q["do"];
        if (op == "exit") return q["n"];
        if (op == "later") { reply(0); usleep(40000); return q["n"]; }
        if (op == "die") { signal(q["n"].get<int>(), SIG_DFL); raise(q["n"].get<int>()); }
        if (op == "ignore") { signal(SIGTERM, SIG_IGN); reply(0); }
        if (op == "read")
        {
            int n = q["n"];
            std::string s;
            bool end = false;
            while ((int)s.size() < n)
            {
                char x;
                int k = read(0, &x, 1);
                if (k != 1) { end = true; break; }
                s += x;
            }
            reply({{"bytes", codes(s)}, {"end", end ? 1 : 0}});
        }
        if (op == "write")
        {
            std::string s = text(q["bytes"]);
            int k = write(q["fd"].get<int>(), s.data(), s.size());
            reply({{"n", k}});
        }
        if (op == "report")
        {
            json r = {{"std", {ident(0), ident(1), ident(2)}}, {"open", json::array()}};
            for (int fd : {20, 21, 30, 31, 1050}) if (fcntl(fd, F_GETFD) >= 0) r["open"].push_back(fd);
            // other descriptors of the pipes (or files) the streams are on
            r["held"] = {0, 0, 0};
            for (int k = 0; k < 3; ++k)
                for (int fd = 3; fd < 1100; ++fd)
                    if (ident(k) != "" && ident(fd) == ident(k)) r["held"][k] = 1;
            char b[4096];
            r["cwd"] = getcwd(b, sizeof b) ? b : "";
            r["leader"] = getsid(0) == getpid() ? 1 : 0;
            r["args"] = args;
            r["env"] = env_now(environ);
            reply(r);
        }
    }
}
__attribute__((constructor)) static void helper(int argc, char** argv, char**)
{
    if (argc < 4 || strcmp(argv[1], "--helper")) return;
    json args = json::array();
    for (int i = 0; i < argc; ++i) args.push_back(codes(i == 2 ? "dir" : argv[i]));
    _exit(serve(argv[2], argv[3], args));
}

// ---- the parent
struct Mine : Child
{
    std::string dir, c;
    int main() noexcept override { return serve(dir.c_str(), c.c_str(), json::array()); }
};
struct One
{
    Child* child = nullptr;
    Popen* popen = nullptr;
    int cmd = -1, rep = -1, keep[3] = {-1, -1, -1};
    pid_t pid = 0;
    std::string pipes[3], had[3];   // what the pipes and the standard descriptors of the parent were
    std::string left;
};
static One kids[3];
static std::string scratch, here, null_id, file_id[2];
static std::vector<std::pair<int, int>> sent;
extern "C" int __real_kill(pid_t, int);
extern "C" int __wrap_kill(pid_t pid, int sig)
{
    int mine = 0;
    for (int k = 1; k < 3; ++k) if (kids[k].pid && kids[k].pid == pid) mine = k;
    sent.push_back({mine, sig});
    return mine ? __real_kill(pid, sig) : 0;
}
static int fds()
{
    int n = 0;
    for (int f = 0; f < 1100; ++f) if (fcntl(f, F_GETFD) >= 0) ++n;
    return n;
}
static std::string path(const std::string& n) { return scratch + "/" + n; }
static void set_up()
{
    if (!scratch.empty()) return;
    struct rlimit l = {1100, 1100};
    getrlimit(RLIMIT_NOFILE, &l);
    l.rlim_cur = 1100;
    setrlimit(RLIMIT_NOFILE, &l);
    char b[4096];
    here = getcwd(b, sizeof b) ? b : "";
    const char* t = getenv("TMPDIR");
    scratch = std::string(t ? t : "/tmp") + "/childXXXXXX";
    if (!mkdtemp(&scratch[0])) abort();
    clearenv();
    setenv("A", "1", 1); setenv("AB", "x=y", 1); setenv("PATH", "/bin", 1);
    if (mkdir(path("d").c_str(), 0755)) abort();
    for (int k = 0; k < 2; ++k)
    {
        int fd = open(path(k ? "b" : "a").c_str(), O_RDWR | O_CREAT | O_APPEND, 0644);
        dup2(fd, 30 + k);
        dup2(fd, 20 + k);
        if (k) dup2(fd, 1050);
        close(fd);
        file_id[k] = ident(30 + k);
    }
    int fd = open("/dev/null", O_RDWR);
    null_id = ident(fd);
    close(fd);
}
// the standard descriptors that were away for a while
static void restore(One& o)
{
    for (int k = 0; k < 3; ++k)
        if (o.keep[k] >= 0 && fcntl(k, F_GETFD) < 0)
        {
            dup2(o.keep[k], k);
            close(o.keep[k]);
            o.keep[k] = -1;
        }
}
static void forget(int c)
{
    One& o = kids[c];
    delete o.child;
    restore(o);
    if (o.pid)
    {
        siginfo_t i;
        memset(&i, 0, sizeof i);
        if (waitid(P_PID, o.pid, &i, WEXITED | WNOHANG | WNOWAIT) == 0) { __real_kill(o.pid, SIGKILL); waitpid(o.pid, 0, 0); }
    }
    if (o.cmd >= 0) close(o.cmd);
    if (o.rep >= 0) close(o.rep);
    o = One();
    unlink(path("cmd" + std::to_string(c)).c_str());
    unlink(path("rep" + std::to_string(c)).c_str());
}
void reset_case()
{
    if (scratch.empty()) return;
    for (int c = 1; c < 3; ++c) forget(c);
    for (int f : {20, 21, 30, 31, 1050}) close(f);
    unlink(path("a").c_str());
    unlink(path("b").c_str());
    rmdir(path("d").c_str());
    rmdir(scratch.c_str());
    scratch.clear();
}
// is the child dead (still to be waited for) or no more there
static bool dead(pid_t pid)
{
    siginfo_t i;
    memset(&i, 0, sizeof i);
    return waitid(P_PID, pid, &i, WEXITED | WNOHANG | WNOWAIT) != 0 || i.si_pid == pid;
}
static bool dies(pid_t pid, int ms)
{
    for (int t = 0; ; t += 2)
    {
        if (dead(pid)) return true;
        if (t >= ms) return false;
        usleep(2000);
    }
}
static json hear(One& o, int ms = 10000)
{
    while (o.left.find('\n') == std::string::npos)
    {
        struct pollfd p = {o.rep, POLLIN, 0};
        bool gone = dead(o.pid);
        int r = poll(&p, 1, gone ? 0 : 5);
        if (r > 0)
        {
            char b[4096];
            int n = read(o.rep, b, sizeof b);
            if (n > 0) o.left.append(b, n);
        }
        else if (gone || (ms -= 5) < 0) throw std::runtime_error("no answer");
    }
    size_t p = o.left.find('\n');
    json j = json::parse(o.left.substr(0, p));
    o.left.erase(0, p + 1);
    return j;
}
static void tell(One& o, const json& q)
{
    std::string s = q.dump() + "\n";
    if (write(o.cmd, s.data(), s.size()) < 0) abort();
}
static json state(One& o)
{
    return {{"raw", o.child->raw_returncode()}, {"term", o.child->terminated() ? 1 : 0}, {"started", o.child->started() ? 1 : 0}, {"rc", o.child->returncode()}};
}
static int given(const std::string& x) { return x == "a" ? 30 : x == "b" ? 31 : std::stoi(x); }
static Redirect action(const std::string& x) { return x == "pipe" ? Redirect::PIPE : x == "null" ? Redirect::DEVNULL : x == "out" ? Redirect::STDOUT : Redirect::UNCHANGED; }
static json list_env(const std::vector<std::string>& v)
{
    std::vector<char*> p;
    for (auto& s : v) p.push_back(const_cast<char*>(s.c_str()));
    p.push_back(nullptr);
    return env_now(p.data());
}

json run_op(const std::string& op, const json& in)
{
    set_up();
    if (op == "fmt") return {{"text", Child::format_raw_returncode(in["raw"])}};
    if (op == "cat")
    {
        std::ifstream f(path(in["f"]), std::ios::binary);
        std::stringstream s;
        s << f.rdbuf();
        return {{"bytes", codes(s.str())}};
    }
    int c = in["c"];
    One& o = kids[c];
    std::string name = std::to_string(c);
    if (op == "new")
    {
        forget(c);
        mkfifo(path("cmd" + name).c_str(), 0600);
        mkfifo(path("rep" + name).c_str(), 0600);
        o.cmd = open(path("cmd" + name).c_str(), O_RDWR | O_CLOEXEC);
        o.rep = open(path("rep" + name).c_str(), O_RDWR | O_CLOEXEC);
        if (in["kind"] == "child")
        {
            Mine* m = new Mine;
            m->dir = scratch;
            m->c = name;
            o.child = m;
        }
        else
        {
            o.child = o.popen = new Popen;
            for (auto& a : in["args"]) o.popen->args.push_back(text(a) == "dir" ? scratch : text(a));
            o.popen->executable = in["exe"];
        }
        o.child->close_fds = in["close"].get<int>();
        for (auto& f : in["pass"]) o.child->pass_fds.push_back(f);
        std::string cwd = in["cwd"];
        if (!cwd.empty()) o.child->cwd = path(cwd);
        o.child->start_new_session = in["session"].get<int>();
        return {{"started", o.child->started() ? 1 : 0}, {"term", o.child->terminated() ? 1 : 0}};
    }
    if (op == "std")
    {
        std::string w = in["which"], x = in["x"];
        bool fd = x == "a" || x == "b" || x == "0" || x == "1" || x == "2";
        if (w == "in") { if (fd) o.child->set_stdin(given(x)); else o.child->set_stdin(action(x)); }
        if (w == "out") { if (fd) o.child->set_stdout(given(x)); else o.child->set_stdout(action(x)); }
        if (w == "err") { if (fd) o.child->set_stderr(given(x)); else o.child->set_stderr(action(x)); }
        return {{"r", 0}};
    }
    if (op == "env") { o.popen->setenv(text(in["key"]), text(in["val"])); return {{"env", list_env(o.popen->env)}}; }
    if (op == "copyenv") { o.popen->copy_env_from_parent(); return {{"env", list_env(o.popen->env)}}; }
    if (op == "fork")
    {
        int* keep = o.keep;
        for (int k = 0; k < 3; ++k) o.had[k] = ident(k);
        for (auto& f : in["missing"]) { int k = f; keep[k] = fcntl(k, F_DUPFD_CLOEXEC, 100); close(k); o.had[k] = "none"; }
        std::string what;
        int before = fds();
        try { o.child->fork(); } catch (std::exception& e) { what = e.what(); }
        int more = fds() - before;
        restore(o);
        if (!what.empty()) throw std::runtime_error(what);
        o.pid = o.child->pid();
        if (o.child->get_stdin() >= 0) o.pipes[0] = ident(o.child->get_stdin());
        if (o.child->get_stdout() >= 0) o.pipes[1] = ident(o.child->get_stdout());
        if (o.child->get_stderr() >= 0) o.pipes[2] = ident(o.child->get_stderr());
        json up = 0;
        try { up = hear(o); } catch (std::exception&) {}
        json r = state(o);
        r["more"] = more;
        r["up"] = up == "ready" ? 1 : 0;
        r["ends"] = {o.child->get_stdin() >= 0 ? 1 : 0, o.child->get_stdout() >= 0 ? 1 : 0, o.child->get_stderr() >= 0 ? 1 : 0};
        return r;
    }
    if (op == "report")
    {
        tell(o, {{"do", "report"}});
        json q = hear(o);
        json r = {{"open", q["open"]}, {"held", q["held"]}, {"leader", q["leader"]}, {"args", q["args"]}, {"env", q["env"]}};
        r["cwd"] = q["cwd"] == path("d") ? "d" : q["cwd"] == here ? "same" : "?";
        r["std"] = json::array();
        for (int k = 0; k < 3; ++k)
        {
            std::string id = q["std"][k];
            json l = json::array();
            if (id == "") l.push_back("none");
            for (int j = 0; j < 3; ++j) if (id == o.had[j]) l.push_back("p" + std::to_string(j));
            for (int j = 0; j < 3; ++j) if (id != "" && id == o.pipes[j]) l.push_back(std::string(1, "ioe"[j]));
            if (id == null_id) l.push_back("null");
            if (id == file_id[0]) l.push_back("a");
            if (id == file_id[1]) l.push_back("b");
            r["std"].push_back(l);
        }
        return r;
    }
    if (op == "exit" || op == "die") { tell(o, {{"do", op}, {"n", in["n"]}}); return {{"dead", dies(o.pid, 10000) ? 1 : 0}}; }
    if (op == "later" || op == "ignore") { tell(o, {{"do", op}, {"n", in["n"]}}); hear(o); return {{"heard", 1}}; }
    if (op == "settle") return {{"dead", dies(o.pid, in["ms"]) ? 1 : 0}};
    if (op == "read") { tell(o, {{"do", "read"}, {"n", in["n"]}}); return hear(o); }
    if (op == "write") { tell(o, {{"do", "write"}, {"fd", in["fd"]}, {"bytes", in["bytes"]}}); return hear(o); }
    if (op == "feed")
    {
        std::string s = text(in["bytes"]);
        return {{"n", (int)write(o.child->get_stdin(), s.data(), s.size())}};
    }
    if (op == "close")
    {
        if (in["which"] == "in") o.child->close_stdin();
        if (in["which"] == "out") o.child->close_stdout();
        if (in["which"] == "err") o.child->close_stderr();
        return {{"ends", {o.child->get_stdin() >= 0 ? 1 : 0, o.child->get_stdout() >= 0 ? 1 : 0, o.child->get_stderr() >= 0 ? 1 : 0}}};
    }
    if (op == "drain")
    {
        int fd = in["which"] == "out" ? o.child->get_stdout() : o.child->get_stderr();
        int n = in["n"];
        std::string s;
        bool end = false;
        while ((int)s.size() < n)
        {
            struct pollfd p = {fd, POLLIN, 0};
            if (poll(&p, 1, 3000) <= 0) break;
            char b[256];
            int k = read(fd, b, std::min<int>(sizeof b, n - s.size()));
            if (k <= 0) { end = k == 0; break; }
            s.append(b, k);
        }
        return {{"bytes", codes(s)}, {"end", end ? 1 : 0}};
    }
    if (op == "drop")
    {
        int before = fds(), ends = (o.child->get_stdin() >= 0) + (o.child->get_stdout() >= 0) + (o.child->get_stderr() >= 0);
        delete o.child;
        o.child = nullptr;
        int now = fds();
        forget(c);
        return {{"left", now - before + ends}};
    }
    if (op == "poll" || op == "wait" || op == "wait0" || op == "waitlong")
    {
        struct sigaction a, b;
        sigaction(SIGCHLD, 0, &a);
        json x;
        int ms = in.contains("ms") ? in["ms"].get<int>() : 0;
        auto start = std::chrono::steady_clock::now();
        try {
            x = op == "poll" ? (o.child->poll() ? 1 : 0) : op == "wait" ? o.child->wait() : op == "wait0" ? (o.child->wait(ms) ? 1 : 0) : (o.child->wait(ms) ? 1 : 0);
        } catch (std::exception& e) { x = -1; }
        sigaction(SIGCHLD, 0, &b);
        json r = state(o);
        r["ret"] = x;
        r["whole"] = std::chrono::steady_clock::now() - start >= std::chrono::milliseconds(ms) ? 1 : 0;
        r["same"] = a.sa_handler == b.sa_handler ? 1 : 0;
        return r;
    }
    if (op == "signal")
    {
        sent.clear();
        int exc = 0, sig = in["n"];
        try {
            if (in["how"] == "terminate") o.child->terminate();
            else if (in["how"] == "kill") o.child->kill();
            else o.child->send_signal(sig);
        } catch (std::exception& e) { exc = 1; }
        json q = json::array();
        for (auto& s : sent) q.push_back({s.first, s.second});
        json r = state(o);
        r["err"] = exc;
        r["sent"] = q;
        return r;
    }
    throw std::runtime_error("op");
}
