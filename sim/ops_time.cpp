// Timers (C16) and log records (C17) under the simulated clock, streams and scheduler.
#include "harness.h"
#include "ska-sdp-func/utility/sdp_logging.h"
#include "ska-sdp-func/utility/sdp_timer.h"
#include <algorithm>
#include <set>
#include <cstdarg>
using namespace sim;
extern "C" void sim_set_env_level(const char* s);
namespace sim { extern Config cfg; }
void sim_set_fail_p(double p);

struct Span { double lo = 0, hi = 0; };   // seconds
static double now_s() { return (double) mono_ns() * 1e-9; }

// Interval-valued model of one timer: every start and stop is known to lie
// between two readings of the simulated clock.
struct MTimer
{
    Span acc; bool running = false; double s0 = 0, s1 = 0;
    void resume(double a, double b) { if (!running) { running = true; s0 = a; s1 = b; } }
    void pause(double a, double b)
    {
        if (!running) return;
        acc.lo += std::max(0.0, a - s1); acc.hi += b - s0;
        running = false;
    }
    Span at(double a, double b) const
    {
        Span r = acc;
        if (running) { r.lo += std::max(0.0, a - s1); r.hi += b - s0; }
        return r;
    }
};
static void pass_time(Rng& r)
{
    double x = r.u01();
    if (x < 0.25) return;
    if (x < 0.5) advance_clock((int64_t) r.below(2000));
    else if (x < 0.9) advance_clock((int64_t) r.below(20000000000ull));
    else if (x < 0.95) advance_clock((int64_t) r.below(4000000000000ull));
    else wall_jump((int64_t) r.below(200000000000000ull) - 100000000000000ll);
}

struct OpTimer : Op
{
    int ncall; long steps;
    std::vector<std::string> bad;
    void gen() override { ncall = (int) P.i("callers", 1, 4); steps = P.size("steps", 1, 60); bad.assign(ncall, ""); sim_set_env_level(nullptr); }
    int callers() override { return ncall; }
    void reset() override { bad.assign(ncall, ""); }
    void run(int id) override
    {
        Rng r = P.rng(("hist" + std::to_string(id)).c_str());
        int n = (int) r.range(1, 3);
        std::vector<sdp_Timer*> t(n, nullptr);
        std::vector<MTimer> m(n);
        std::string tr;
        for (auto& p : t) L("sdp_timer_create", [&] { p = sdp_timer_create(SDP_TIMER_NATIVE); });
        for (auto* p : t)
            if (!p) { for (auto*& q : t) if (q) L("sdp_timer_free", [&] { sdp_timer_free(q); }); return; }
        for (long k = 0; k < steps && bad[id].empty(); ++k)
        {
            int i = (int) r.below(n), op = (int) r.below(13);
            double v = 0, a, b;
            pass_time(r);
            a = now_s();
            tr += " " + std::to_string(op) + "@" + std::to_string(i);
            switch (op)
            {
            case 0: case 1: case 2: L("sdp_timer_resume", [&] { sdp_timer_resume(t[i]); }); b = now_s(); m[i].resume(a, b); break;
            case 3: case 4: L("sdp_timer_pause", [&] { sdp_timer_pause(t[i]); }); b = now_s(); m[i].pause(a, b); break;
            case 7: // (of a timer which runs, the time since it was last read may be dropped: read it)
                if (m[i].running) break;
                L("sdp_timer_restart", [&] { sdp_timer_restart(t[i]); }); b = now_s(); m[i].resume(a, b); break;
            case 5: L("sdp_timer_reset", [&] { sdp_timer_reset(t[i]); }); m[i] = MTimer(); break;
            case 6: L("sdp_timer_start", [&] { sdp_timer_start(t[i]); }); b = now_s(); m[i] = MTimer(); m[i].resume(a, b); break;
            default:
            {
                L("sdp_timer_elapsed", [&] { v = sdp_timer_elapsed(t[i]); });
                b = now_s();
                Span s = m[i].at(a, b);
                double tol = (1e-9 + 8e-16 * now_s()) * (double) (k + 10);
                if (!(v >= s.lo - tol && v <= s.hi + tol))
                {
                    char buf[400];
                    snprintf(buf, sizeof buf, "a timer that ran for %.9g to %.9g seconds reports %.9g (%s; steps:%s)", s.lo, s.hi, v,
                            m[i].running ? "running" : "paused", tr.size() > 120 ? tr.c_str() + tr.size() - 120 : tr.c_str());
                    bad[id] = buf;
                }
            }
            }
        }
        for (auto* p : t) L("sdp_timer_free", [&] { sdp_timer_free(p); });
    }
    bool model() override { for (auto& b : bad) if (!b.empty()) return fail("%s", b.c_str()); return true; }
};
REGISTER_OP(OpTimer, "timer", "C16 nosticky");

// ---------------------------------------------------------------- hierarchy
struct TNode
{
    std::string name; TNode* parent = nullptr;
    std::map<std::string, std::unique_ptr<TNode>> child;
    std::vector<MTimer> tm;
    sdp_TimerNode* node = nullptr;
    std::set<std::string> unsure;   // sections below whose creation failed: may be listed
    bool loose = false;             // sections below are not known
    bool ok = false;                // was entered, so exists
    TNode* get(const std::string& n, int num)
    {
        auto& c = child[n];
        if (!c) { c.reset(new TNode); c->name = n; c->parent = this; c->tm.resize(num); }
        return c.get();
    }
};
struct RLine { int indent; char symbol; std::string name; double v, pct; bool has_pct; };
struct OpTimers : Op
{
    int nthr, names; long steps; bool multi, faulty; int reports = 0;
    double fail_p = 0; int ghost = 0; // sections open which could not be created, innermost
    explicit OpTimers(bool f = false) : faulty(f) {}
    // A call during which allocations may fail; whether any did.
    bool F(const char* fn, const std::function<void()>& f)
    {
        if (!faulty) { L(fn, f); return false; }
        int64_t n = R->st.alloc_faults;
        sim_set_fail_p(fail_p); alloc_arm(true);
        L(fn, f);
        sim_set_fail_p(0); alloc_arm(false);
        return R->st.alloc_faults != n;
    }
    sdp_Timers* t = nullptr;
    TNode root;
    std::string bad, title;
    size_t pos = 0; Span span_total;
    void gen() override
    {
        multi = !faulty && P.b("multi", 0.6);
        if (faulty) { static const double ps[] = {0.02, 0.1, 0.4}; fail_p = ps[P.i("fail_p", 0, 2)]; }
        nthr = multi ? (int) P.i("threads", 2, 7) : 1;
        steps = P.size("steps", 1, multi ? 25 : 50);
        names = P.b("many_names", 0.2) ? (int) P.i("names", 6, 24) : 3; // sections at one level
        if (names > 3 && !multi) steps += 2 * names;
        sim_set_env_level(nullptr);
    }
    int callers() override { return nthr; }
    void reset() override {}
    void make_sets(TNode* n, Rng& r, int depth)
    {
        int k = (int) r.range(depth == 0 ? 1 : 0, names > 3 && depth == 0 ? 12 : 3);
        for (int i = 0; i < k; ++i)
        {
            std::string nm = "section " + std::to_string(r.below(names + 2)) + std::string(r.below(3), 'x');
            int num = nthr;
            double a = now_s(); (void) a;
            TNode* c = n->get(nm, num);
            L("sdp_timers_create_set", [&] { c->node = sdp_timers_create_set(t, nm.c_str(), num, n->node); });
            if (depth < 2) make_sets(c, r, depth + 1);
        }
    }
    void prepare() override
    {
        root = TNode();
        bad.clear();
        reports = 0;
        ghost = 0;
        title = "Timers " + std::to_string(instance);
        double a = now_s();
        F("sdp_timers_create", [&] { t = sdp_timers_create(title.c_str(), SDP_TIMER_NATIVE, nthr); });
        if (!t) return;
        root.tm.resize(1);
        root.tm[0].resume(a, now_s());
        title += ", " + std::to_string(nthr) + (nthr > 1 ? " threads" : " thread");
        L("sdp_timers_root", [&] { root.node = sdp_timers_root(t); });
        Rng r = P.rng("sets");
        if (multi) make_sets(&root, r, 0);
    }
    void run(int id) override
    {
 if (!t && faulty) // there is nothing to measure with: every call does nothing
        {
            sdp_TimerNode* n = nullptr;
            L("sdp_timers_push", [&] { n = sdp_timers_push(t, "section", 0, nullptr); });
            L("sdp_timers_pop_push", [&] { n = sdp_timers_pop_push(t, "section", 0, n); });
            L("sdp_timers_report", [&] { sdp_timers_report(t, "func", "file.cpp", 12); });
            L("sdp_timers_pop", [&] { sdp_timers_pop(t, 0, n); });
        }
        if (!t) return;
        Rng r = P.rng(("hist" + std::to_string(id)).c_str());
        TNode* cur = &root;
        sdp_TimerNode* node = multi ? root.node : nullptr;
        for (long k = 0; k < steps; ++k)
        {
            pass_time(r);
            double x = r.u01();
            if (faulty && ghost)
            {
                // Below a section that was not created: only the depth is known.
                std::string nm = "s" + std::to_string(r.below(3));
                if (x < 0.4) { F("sdp_timers_push", [&] { sdp_timers_push(t, nm.c_str(), id, nullptr); }); ++ghost; }
                else if (x < 0.75 || ghost > 1)
                {
                    if (x < 0.75) { L("sdp_timers_pop", [&] { sdp_timers_pop(t, id, nullptr); }); --ghost; }
                    else F("sdp_timers_pop_push", [&] { sdp_timers_pop_push(t, nm.c_str(), id, nullptr); });
                }
                else report();
                continue;
            }
            if (x < 0.5 || cur == &root) // enter a section
            {
                TNode* c = pick(cur, r);
                if (!c) { if (cur == &root) return; }
                else { if (push(c, id, node)) cur = c; continue; }
            }
            if (x < 0.75 && cur != &root) // leave
            {
                double a = now_s();
                L("sdp_timers_pop", [&] { node = sdp_timers_pop(t, id, node); });
                cur->tm[id].pause(a, now_s());
                cur = cur->parent;
            }
            else if (cur != &root) // leave and enter another
            {
                TNode* c = pick(cur->parent, r);
                if (!c) continue;
                double a = now_s();
                TNode* was = cur;
                bool lost = F("sdp_timers_pop_push", [&] { node = sdp_timers_pop_push(t, c->name.c_str(), id, node); });
                double b = now_s();
                // (same section: paused and resumed at times within the bracket)
                was->tm[id].pause(a, b);
                cur = was->parent;
                if (lost) { vanish(c); continue; }
                entered(c);
                c->tm[id].resume(a, b);
                cur = c;
            }
            if (!multi && r.chance(0.12)) report();
        }
        bool close_all = multi || r.chance(0.8);
        for (; close_all && ghost; --ghost) L("sdp_timers_pop", [&] { sdp_timers_pop(t, id, nullptr); });
        while (close_all && cur != &root)
        {
            pass_time(r);
            double a = now_s();
            L("sdp_timers_pop", [&] { node = sdp_timers_pop(t, id, node); });
            cur->tm[id].pause(a, now_s());
            cur = cur->parent;
        }
        if (!multi && close_all && r.chance(0.3)) L("sdp_timers_pop", [&] { sdp_timers_pop(t, 0, nullptr); });
    }
    TNode* pick(TNode* n, Rng& r)
    {
        if (!multi) return n->get("s" + std::to_string(r.below(names)), 1);
        if (n->child.empty()) return nullptr;
        auto it = n->child.begin();
        std::advance(it, (long) r.below(n->child.size()));
        return it->second.get();
    }
    // The section could not be created: it may be listed or not, without a time.
    void vanish(TNode* c)
    {
        ++ghost;
        std::string nm = c->name;
        TNode* p = c->parent;
        if (c->ok) { err("entering section '%s' again allocated memory", nm.c_str()); return; }
        p->unsure.insert(nm);
        p->child.erase(nm);
    }
    void entered(TNode* c) { c->ok = true; if (c->parent->unsure.count(c->name)) c->loose = true; }
    bool push(TNode* c, int id, sdp_TimerNode*& node)
    {
        double a = now_s();
        bool lost = F("sdp_timers_push", [&] { node = sdp_timers_push(t, c->name.c_str(), id, node); });
        if (lost) { vanish(c); return false; }
        entered(c);
        c->tm[id].resume(a, now_s());
        if (multi && node != c->node && bad.empty()) bad = "sdp_timers_push returned another section than the one created for that name";
        return true;
    }
    void report()
    {
        size_t p0 = captured(1).size();
        int64_t f0 = R->st.stream_faults;
        double a = now_s();
        L("sdp_timers_report", [&] { sdp_timers_report(t, "func", "file.cpp", 12); });
        double b = now_s();
        ++reports;
        if (R->st.stream_faults != f0 || (cfg.stream_mode && cfg.stream_mode != 3)) return;
        parse(captured(1).substr(p0), a, b);
    }
    void err(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[400];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (bad.empty()) bad = b;
    }
    void parse(const std::string& txt, double a, double b)
    {
        std::vector<RLine> ln;
        size_t p = 0;
        while (p < txt.size())
        {
            size_t e = txt.find('\n', p);
            if (e == std::string::npos) { err("report ends in the middle of a line"); return; }
            std::string s = txt.substr(p, e - p);
            p = e + 1;
            size_t q = s.find("|INFO||func|file.cpp#12|| | ");
            if (q == std::string::npos) continue; // another caller's record
            s = s.substr(q + strlen("|INFO||func|file.cpp#12|| | "));
            RLine l;
            size_t i = 0;
            while (i < s.size() && s[i] == ' ') ++i;
            l.indent = (int) i;
            l.symbol = s[i];
            size_t c = s.rfind(": ");
            if (c == std::string::npos || c < i + 2) { err("report line not understood: %s", s.c_str()); return; }
            l.name = s.substr(i + 2, c - i - 2);
            while (!l.name.empty() && l.name.back() == ' ') l.name.pop_back();
            l.pct = 0;
            int k = sscanf(s.c_str() + c, ": %lf sec (%lf%%)", &l.v, &l.pct);
            l.has_pct = k == 2;
            if (k < 1) { err("report line not understood: %s", s.c_str()); return; }
            ln.push_back(l);
        }
        if (ln.empty()) { err("the report is empty"); return; }
        size_t i = 0;
        if (ln[0].name != title) { err("the report's title is '%s'", ln[0].name.c_str()); return; }
        Span s = root.tm[0].at(a, b);
        if (!in(ln[0].v, s)) { err("the report gives a total of %.3f s; %.6f to %.6f s have passed", ln[0].v, s.lo, s.hi); return; }
        i = 1;
        check_children(&root, ln, i, 0, a, b);
        if (bad.empty() && i != ln.size()) err("the report has an unexpected line '%s'", ln[i].name.c_str());
    }
    static bool in(double v, Span s) { return v >= s.lo - 0.000501 && v <= s.hi + 0.000501; }
    static Span max_of(const TNode* n, double a, double b)
    {
        Span r;
        for (auto& m : n->tm) { Span s = m.at(a, b); r.lo = std::max(r.lo, s.lo); r.hi = std::max(r.hi, s.hi); }
        return r;
    }
    void check_children(TNode* n, std::vector<RLine>& ln, size_t& i, int depth, double a, double b)
    {
        Span tot = max_of(n, a, b), sum;
        std::map<std::string, int> seen;
        double prev = 1e300;
        int ind = (depth + 1) * 2;
        static const char sym[] = "+-*";
        size_t count = 0;
        bool some = false;
        while (i < ln.size() && ln[i].indent == ind && ln[i].name != "(unaccounted time)")
        {
            RLine l = ln[i];
            auto it = n->child.find(l.name);
            if (it == n->child.end() && n->unsure.count(l.name))
            {
                if (seen[l.name]++) return err("the report lists section '%s' twice", l.name.c_str());
                if (l.v != 0) return err("section '%s' is reported with %.3f s, but could not be created", l.name.c_str(), l.v);
                for (++i; i < ln.size() && ln[i].indent > ind; ++i) {}
                some = true;
                continue;
            }
            if (it == n->child.end()) return err("the report lists a section '%s' that was never entered there", l.name.c_str());
            if (seen[l.name]++) return err("the report lists section '%s' twice", l.name.c_str());
            ++count;
            TNode* c = it->second.get();
            Span s = max_of(c, a, b);
            sum.lo += s.lo; sum.hi += s.hi;
            if (!in(l.v, s)) return err("section '%s' is reported with %.3f s; it took %.6f to %.6f s", l.name.c_str(), l.v, s.lo, s.hi);
            if (l.v > prev + 0.0011 + (s.hi - s.lo)) return err("section '%s' (%.3f s) is listed after one of %.3f s", l.name.c_str(), l.v, prev);
            prev = l.v;
            if (l.symbol != sym[depth % 3]) return err("section '%s' has symbol %c", l.name.c_str(), l.symbol);
            pct(l, tot);
            ++i;
            if (c->tm.size() > 1)
            {
                std::vector<Span> t;
                for (auto& m : c->tm) t.push_back(m.at(a, b));
                std::vector<double> lo, hi;
                for (auto& x : t) { lo.push_back(x.lo); hi.push_back(x.hi); }
                std::sort(lo.begin(), lo.end()); std::sort(hi.begin(), hi.end());
                int num = (int) t.size(), qt = num / 4;
                static const char* nm[] = {"Minimum", "Maximum", "Median", "Interquartile range"};
                for (int k = 0; k < 4; ++k, ++i)
                {
                    if (i >= ln.size() || ln[i].name != nm[k]) return err("section '%s': the report has no line '%s'", l.name.c_str(), nm[k]);
                    Span w;
                    int x = k == 0 ? 0 : k == 1 ? num - 1 : num / 2;
                    w.lo = lo[x]; w.hi = hi[x];
                    if (k == 3) { w.lo = lo[3 * qt] - hi[qt]; w.hi = hi[3 * qt] - lo[qt]; }
                    if (!in(ln[i].v, w)) return err("section '%s': %s is reported as %.3f s; it is %.6f to %.6f s", l.name.c_str(), nm[k], ln[i].v, w.lo, w.hi);
                    if (k < 3) pct(ln[i], tot);
                }
            }
            if (c->loose) for (; i < ln.size() && ln[i].indent > ind; ++i) {}
            else check_children(c, ln, i, depth + 1, a, b);
            if (!bad.empty()) return;
        }
        if (count != n->child.size()) return err("the report lists %zu of %zu sections under '%s'", count, n->child.size(), n->parent ? n->name.c_str() : "the title");
        if (n->child.empty() && n->parent && !some) return; // no nested report
        bool un = i < ln.size() && ln[i].indent == ind && ln[i].name == "(unaccounted time)";
        if (un)
        {
            if (sum.lo > 0.99 * tot.hi + 1e-9) return err("unaccounted time is reported although all of it is accounted for");
            Span w; w.lo = tot.lo - sum.hi; w.hi = tot.hi - sum.lo;
            if (!in(ln[i].v, w)) return err("unaccounted time is reported as %.3f s; it is %.6f to %.6f s", ln[i].v, w.lo, w.hi);
            ++i;
        }
        else if (sum.hi < 0.99 * tot.lo - 1e-9) return err("%.6f s are not accounted for, and the report does not say so", tot.lo - sum.hi);
    }
    void pct(const RLine& l, Span tot)
    {
        if (!l.has_pct) { if (tot.lo > 0) err("'%s' has no percentage", l.name.c_str()); return; }
        if (tot.lo < 0.1 || tot.hi - tot.lo > 0.001 * tot.lo) return;
        double w = 100 * l.v / tot.lo, tol = 0.06 + 100 * 0.0006 / tot.lo + 0.002 * w;
        if (std::fabs(w - l.pct) > tol) err("'%s' is reported as %.1f%% of the time; it is %.2f%%", l.name.c_str(), l.pct, w);
    }
    void finish() override
    {
        if (!t) return;
        report();
        if (P.b("report.twice")) report();
        L("sdp_timers_free", [&] { sdp_timers_free(t); });
        t = nullptr;
    }
    bool model() override { return bad.empty() ? true : fail("%s", bad.c_str()); }
};
struct OpTimersFaults : OpTimers { OpTimersFaults() : OpTimers(true) {} };
REGISTER_OP(OpTimers, "timers", "C16 nosticky norepeat_ noconc nofail noprogress");
REGISTER_OPW(OpTimersFaults, "timers_faults", "C16 nosticky noconc nofail norepeat noprogress", 0.5);

// ---------------------------------------------------------------- log records
struct Rec { int level, fd; std::string body; int64_t w0, w1; int64_t j0, j1; int caller; bool hidden; };
struct OpLog : Op
{
    int ncall; long steps; int active;
    std::vector<std::vector<Rec>> recs;
    size_t p0[2];
    std::string after[2];
    void gen() override
    {
        ncall = (int) P.i("callers", 1, 4);
        steps = P.size("steps", 1, 14);
        static const char* env[] = {nullptr, "debug", "DEBUG", "info", "INFO", "warn", "WARNING", "err", "ERROR", "crit", "CRITICAL"};
        static const int lv[] = {2, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5};
        int e = (int) P.i("level", 0, 10);
        if (P.b("default", 0.4)) e = 0;
        sim_set_env_level(env[e]);
        active = lv[e];
        recs.assign(ncall, {});
    }
    int callers() override { return ncall; }
    void prepare() override { for (int k = 0; k < 2; ++k) p0[k] = captured(k + 1).size(); }
    void run(int id) override
    {
        Rng r = P.rng(("recs" + std::to_string(id)).c_str());
        static const char* fn[] = {"sdp_fft_exec", "f", "sdp_gridder_wtower_uvw_degrid_subgrid"};
        static const char* fl[] = {"a.c", "src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp", "x.cpp"};
        for (long k = 0; k < steps; ++k)
        {
            Rec c;
            c.caller = id;
            c.level = (int) r.range(1, 5);
            c.fd = r.chance(0.5) ? 1 : 2;
            int line = (int) r.range(1, 4000), f = (int) r.below(3), g = (int) r.below(3), fmt = (int) r.below(4);
            std::string pad(r.chance(0.1) ? r.below(700) : r.below(12), (char) ('a' + id));
            double v = r.uni(-5, 5);
            char id_s[40], msg[1200], full[1400];
            snprintf(id_s, sizeof id_s, "<%d.%d.%ld>", instance, id, k);
            FILE* s = c.fd == 1 ? stdout : stderr;
            if (r.chance(0.3)) pass_time(r);
            c.w0 = wall_ns(); c.j0 = R->st.clock_jumps;
            switch (fmt)
            {
            case 0: L("sdp_log_message", [&] { sdp_log_message((sdp_LogLevel) c.level, s, fn[f], fl[g], line, "%s", id_s); }); snprintf(msg, sizeof msg, "%s", id_s); break;
            case 1: L("sdp_log_message", [&] { sdp_log_message((sdp_LogLevel) c.level, s, fn[f], fl[g], line, "%s: %d of %zu %.3f", id_s, line * 7, (size_t) 12345678901ull, v); });
                snprintf(msg, sizeof msg, "%s: %d of %zu %.3f", id_s, line * 7, (size_t) 12345678901ull, v); break;
            case 2: L("sdp_log_message", [&] { sdp_log_message((sdp_LogLevel) c.level, s, fn[f], fl[g], line, "%s %s|%-8s| 100%%", id_s, pad.c_str(), "ab"); });
                snprintf(msg, sizeof msg, "%s %s|%-8s| 100%%", id_s, pad.c_str(), "ab"); break;
            default: L("sdp_log_message", [&] { sdp_log_message((sdp_LogLevel) c.level, s, fn[f], fl[g], line, "%c%s %ld", 'z', id_s, (long) -line); });
                snprintf(msg, sizeof msg, "z%s %ld", id_s, (long) -line); break;
            }
            c.w1 = wall_ns(); c.j1 = R->st.clock_jumps;
            static const char* ln[] = {"UNDEF", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"};
            snprintf(full, sizeof full, "|%s||%s|%s#%i|| %s", ln[c.level], fn[f], fl[g], line, msg);
            c.body = full;
            c.hidden = c.level < active;
            recs[id].push_back(c);
        }
        if (ncall == 1 && cfg.stream_mode)
        {
            // Faults stop: the next record must come out whole.
            int keep = cfg.stream_mode;
            cfg.stream_mode = 0;
            for (int k = 0; k < 2; ++k)
            {
                L("sdp_log_message", [&] { sdp_log_message(SDP_LOG_LEVEL_CRITICAL, k ? stderr : stdout, "last", "file", 1, "after the faults"); });
                after[k] = "|CRITICAL||last|file#1|| after the faults\n";
                const std::string& t = captured(k + 1);
                if (t.size() < after[k].size() || t.compare(t.size() - after[k].size(), after[k].size(), after[k])) after[k] = "?";
            }
            cfg.stream_mode = keep;
        }
    }
    static int64_t days(int y, int m, int d)
    {
        y -= m <= 2;
        int era = (y >= 0 ? y : y - 399) / 400;
        unsigned yoe = (unsigned) (y - era * 400), doy = (unsigned) ((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1), doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        return (int64_t) era * 146097 + (int64_t) doe - 719468;
    }
    bool model() override
    {
        for (int k = 0; k < 2; ++k) if (after[k] == "?") return fail("a record logged after the stream's faults stopped did not come out whole");
        if (cfg.stream_mode && cfg.stream_mode != 3) return true;
        std::map<std::string, const Rec*> want[2];
        for (auto& c : recs) for (auto& x : c) if (!x.hidden) want[x.fd - 1][x.body] = &x;
        for (int k = 0; k < 2; ++k)
        {
            std::string t = captured(k + 1).substr(p0[k]);
            size_t p = 0;
            std::vector<int> last(ncall, -1);
            std::map<std::string, int> got;
            while (p < t.size())
            {
                size_t e = t.find('\n', p);
                if (e == std::string::npos) return fail("text after the last complete line: '%s'", t.substr(p, 150).c_str());
                std::string s = t.substr(p, e - p);
                p = e + 1;
                if (s.find("after the faults") != std::string::npos) continue;
                int Y, M, D, h, m, sec, ms, n = 0;
                if (sscanf(s.c_str(), "1|%4d-%2d-%2dT%2d:%2d:%2d.%3dZ%n", &Y, &M, &D, &h, &m, &sec, &ms, &n) != 7 || n != 26)
                    return fail("line is not one record: '%s'", s.substr(0, 200).c_str());
                std::string body = s.substr((size_t) n);
                auto it = want[k].find(body);
                if (it == want[k].end()) return fail("line is not a record that was due: '%s'", s.substr(0, 200).c_str());
                if (got[body]++) return fail("record appears twice: '%s'", s.substr(0, 200).c_str());
                const Rec* c = it->second;
                if (M < 1 || M > 12 || D < 1 || D > 31 || h > 23 || m > 59 || sec > 59) return fail("time stamp is not a valid time: '%s'", s.substr(0, 60).c_str());
                int64_t ts = ((((days(Y, M, D) * 24 + h) * 60 + m) * 60) + sec) * 1000 + ms;
                if (c->j0 == c->j1 && (ts < c->w0 / 1000000 || ts > c->w1 / 1000000))
                    return fail("record logged between %ld and %ld ms has time stamp %ld ms (%s)", (long) (c->w0 / 1000000), (long) (c->w1 / 1000000), (long) ts, s.substr(0, 26).c_str());
                int ix = (int) (c - recs[c->caller].data());
                if (ix < last[c->caller]) return fail("records of one thread appear in another order than logged");
                last[c->caller] = ix;
            }
            for (auto& w : want[k]) if (!got[w.first]) return fail("record at the active level is missing: '%s'", w.first.substr(0, 150).c_str());
        }
        return true;
    }
};
REGISTER_OPW(OpLog, "log_records", "C17 noconc norepeat nosticky nofail noprogress", 3);
