// Drives terminals and reports of progress.
#include <msat/utils/term.h>
#include <msat/Progress.h>
#include "drv.h"
#include <fcntl.h>
#include <termios.h>
#include <unistd.h>
#include <stdlib.h>
#include <memory>
#include <sstream>

static std::ostringstream* streams[2];
static std::vector<std::unique_ptr<msat::ProgressTask>> tasks;

void reset_case()
{
    while (!tasks.empty()) tasks.pop_back();
    msat::Progress::get().setHandler(new msat::ProgressHandler);
    for (auto& s : streams) { delete s; s = new std::ostringstream; }
}
static json shown() { return {{"text", {codes(streams[0]->str()), codes(streams[1]->str())}}}; }

json run_op(const std::string& op, const json& in)
{
    if (op == "colour")
    {
        int tty = in["tty"], master = -1;
        FILE* f = nullptr;
        if (tty == 2)
        {
            master = posix_openpt(O_RDWR | O_NOCTTY);
            int slave = master < 0 || grantpt(master) || unlockpt(master) ? -1 : open(ptsname(master), O_RDWR | O_NOCTTY);
            if (slave < 0) return {{"none", 1}};   // no terminals here
            f = fdopen(slave, "r+");
            struct termios raw;
            tcgetattr(fileno(f), &raw);
            cfmakeraw(&raw);
            tcsetattr(fileno(f), TCSANOW, &raw);
        }
        else
            f = tmpfile();
        msat::term::Terminal t(f);
        int was = t.isatty ? 1 : 0;
        if (tty == 1) t.isatty = true;
        std::string s = text(in["s"]);
        int fg = in["fg"], bg = in["bg"];
        std::string how = in["how"];
        json r = {{"was", was}};
        r["s"] = codes(how == "fg" ? t.color_fg(fg, s) : how == "bg" ? t.color_bg(bg, s) : t.color(fg, bg, s));
        {
            auto x = how == "fg" ? t.set_color_fg(fg) : how == "bg" ? t.set_color_bg(bg) : t.set_color(fg, bg);
            fputs(s.c_str(), t);
        }
        std::string got;
        if (tty == 2)
        {
            fputs("@", f);
            fflush(f);
            for (char c; read(master, &c, 1) == 1 && c != '@'; ) got += c;
            close(master);
        }
        else
        {
            rewind(f);
            for (int c; (c = fgetc(f)) != EOF; ) got += (char)c;
        }
        fclose(f);
        r["out"] = codes(got);
        return r;
    }
    msat::Progress& p = msat::Progress::get();
    if (op == "handler")
    {
        int h = in["h"];
        p.setHandler(h ? new msat::StreamProgressHandler(*streams[h - 1]) : new msat::ProgressHandler);
        return shown();
    }
    std::string s = in.contains("s") ? text(in["s"]) : "";
    int perc = in.contains("perc") ? in["perc"].get<int>() : -1, tot = in.contains("tot") ? in["tot"].get<int>() : -1;
    if (op == "activity") { p.activity(s, perc, tot); return shown(); }
    if (op == "push") { p.pushTask(s); return shown(); }
    if (op == "pop") { p.popTask(); return shown(); }
    if (op == "task") { tasks.emplace_back(new msat::ProgressTask(s)); return shown(); }
    if (op == "end") { if (!tasks.empty()) tasks.pop_back(); return shown(); }
    if (op == "report") { if (!tasks.empty()) tasks.back()->activity(s, perc, tot); return shown(); }
    throw std::runtime_error("op");
}
