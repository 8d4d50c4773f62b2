// Driver: draws a scenario and a configuration from one seed, runs it in a
// forked child, and reports the outcome. One seed is one repeatable execution.
#include "harness.h"
#include "misfits.h"
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>
#include <algorithm>
using namespace sim;
extern "C" void sim_set_env_level(const char* s);

enum Mode { M_NORMAL, M_CONC, M_ALLOC, M_STICKY, M_REPEAT, M_PROGRESS, M_MIX };
struct Prop { const char* id; Mode mode; const char* kinds; const char* tags; bool small; };
// Which kinds of violation bear on which property.
#define BASIC "harness setup result status crash terminate process-exit deadlock no-progress exception"
static const Prop props[] = {
    {"C01", M_NORMAL, BASIC " race xrace touch", "C01", false},
    {"C02", M_NORMAL, BASIC " race xrace touch input", "C02", false},
    {"C03", M_NORMAL, BASIC " race xrace touch", "C03", false},
    {"C04", M_NORMAL, BASIC " race xrace touch", "C04", false},
    {"C05", M_NORMAL, BASIC " race xrace touch", "C05", false},
    {"C06", M_NORMAL, BASIC " touch input", "C06", false},
    {"C07", M_NORMAL, BASIC " touch", "C07", false},
    {"C08", M_NORMAL, BASIC " race xrace touch", "C08", false},
    {"C09", M_NORMAL, BASIC " race xrace touch", "C09", false},
    {"C10", M_NORMAL, BASIC " touch input", "C10", false},
    {"C11", M_CONC, "harness setup alone xrace crash terminate process-exit deadlock no-progress exception", "", true},
    {"C12", M_MIX, "harness setup race xrace", "", true},
    {"C13", M_NORMAL, "harness setup handles leak uaf double-free bad-free crash terminate", "C13", false},
    {"C14", M_ALLOC, "harness setup alloc input bounds uaf leak double-free bad-free crash terminate process-exit deadlock no-progress exception", "", true},
    {"C15", M_STICKY, "harness setup sticky crash terminate process-exit leak bounds uaf exception deadlock no-progress", "", true},
    {"C16", M_NORMAL, "harness setup result status crash deadlock no-progress xrace", "C16", false},
    {"C17", M_NORMAL, "harness setup result status crash deadlock no-progress process-exit lock xrace", "C17", false},
    {"C18", M_REPEAT, "harness setup repeat", "", true},
    {"C19", M_MIX, "harness setup bounds uaf touch input memcpy-overlap crash", "", true},
    {"C20", M_PROGRESS, "harness setup deadlock no-progress process-exit terminate lock icv usable", "", true},
};
static const Prop* find_prop(const std::string& id)
{
    for (auto& p : props) if (id == p.id) return &p;
    return nullptr;
}

struct RunSpec
{
    const Prop* prop = nullptr;
    uint64_t seed = 1;
    std::map<std::string, double> over;
    bool explicit_sched = false;
    std::vector<Switch> sched;
    std::vector<int> teams;
    int variant = 0;
    std::string only_op;
};

// ---------------------------------------------------------------- child
static Params P0;
static const RunSpec* spec_;

static Config draw_config(const Prop& pr)
{
    Params& P = P0;
    P.prefix = "cfg.";
    Config c;
    c.seed = P.seed;
    Rng r = P.rng("strategy");
    double x = r.u01();
    int s = x < 0.07 ? ST_SERIAL : x < 0.22 ? ST_RANDORDER : x < 0.6 ? ST_RANDWALK : x < 0.8 ? ST_PCT : x < 0.9 ? ST_RR : ST_STALL;
    c.strategy = (int) P.raw("strategy", 0, s);
    c.quantum = (int64_t) std::pow(10.0, P.rng("quantum").uni(0.3, 4));
    static const double cp[] = {0, 0.02, 0.2, 0.7}, sp[] = {0, 0.2, 0.7};
    c.conflict_p = cp[P.rng("conflict").below(4)];
    c.sync_p = sp[P.rng("sync").below(3)];
    c.pct_depth = (int) P.rng("pct_depth").range(1, 6);
    c.pct_len = (int64_t) std::pow(10.0, P.rng("pct_len").uni(2.5, 6));
    static const int nt[] = {1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 7, 8, 8, 12};
    c.nthreads = (int) P.raw("nthreads", 1, nt[P.rng("nthreads").below(14)]);
    c.max_active = (int) P.raw("max_active", 1, P.rng("max_active").chance(0.3) ? (double) P.rng("max_active2").range(2, 3) : 1);
    double tp = pr.mode == M_PROGRESS ? 0.5 : 0.25;
    c.team_mode = (int) P.raw("team_mode", 0, P.rng("team_mode").chance(tp) ? (double) P.rng("team_mode2").range(1, 2) : 0);
    c.garbage = (int) P.raw("garbage", 0, (double) P.rng("garbage").range(0, 4));
    c.garbage_seed = hash64(P.seed, 99);
    c.clock_mode = (int) P.raw("clock_mode", 0, P.rng("clock_mode").chance(0.3) ? (double) P.rng("cm2").range(1, 2) : 0);
    c.stream_mode = (int) P.raw("stream_mode", 0, P.rng("stream_mode").chance(0.1) ? (double) P.rng("sm2").range(1, 4) : 0);
    c.max_steps = 120000000;
    if (spec_->explicit_sched)
    {
        c.strategy = ST_REPLAY;
        c.sched = spec_->sched;
        c.teams = spec_->teams;
        c.team_mode = 0;
    }
    P.prefix = "";
    return c;
}

static Op* make_op(const OpInfo& info, int k, uint64_t seed, Op* twin, bool small, const std::string& kin = std::string())
{
    Op* o = info.make();
    o->name = info.name;
    o->instance = k;
    o->P = P0;
    o->P.seed = seed;
    o->P.prefix = "op" + std::to_string(k) + ".";
    // Most parameters those of another instance: differs from it in a few only.
    if (!kin.empty())
    {
        o->P.kin = kin;
        o->P.kin_p = P0.b(("kin_few" + std::to_string(k)).c_str()) ? 0.95 : 0.75;
    }
    // The same operation with the very same parameters, or with its own.
    if (twin && P0.b(("same" + std::to_string(k)).c_str())) o->P.prefix = twin->P.prefix;
    // Operations whose inputs are any numbers share them whatever their other parameters.
    static const char* const any[] = {"accumulate_scaled", "dft_point", "element_dipole", "element_harp", "fft", "fft_convolution", "fft_shift", "flagger",
        "grid_correct", "make_kernel", "phase_rotate", "residual_rms", "scale_inv", "station_beam", "subgrid_add_cut", "sum_diff"};
    o->share = hash_str(o->P.prefix.c_str());
    for (auto* a : any) if (o->name == a) o->share = 1;
    o->P.small = small;
    o->twin = twin;
    o->st = (sdp_Error*) arena_alloc(4, "status");
    *o->st = SDP_SUCCESS;
    race_exempt(o->st, 4);
    o->gen();
    return o;
}

static const OpInfo* choose_op(const char* tag, const char* not_tag, const char* pname)
{
    auto& reg = op_registry();
    std::vector<const OpInfo*> c;
    double total = 0;
    for (auto& i : reg)
    {
        if (tag && *tag && !strstr(i.props, tag) && !(!strcmp(tag, "misfit") && misfits_of(i.name))) continue;
        if (not_tag && *not_tag && strstr(i.props, not_tag)) continue;
        c.push_back(&i);
        total += i.weight;
    }
    if (c.empty()) return nullptr;
    std::sort(c.begin(), c.end(), [](const OpInfo* a, const OpInfo* b) { return strcmp(a->name, b->name) < 0; });
    double x = P0.rng(pname).uni(0, total);
    size_t k = 0;
    while (k + 1 < c.size() && x >= c[k]->weight) x -= c[k++]->weight;
    long sel = (long) P0.raw(pname, 0, (double) k);
    if (sel < 0 || sel >= (long) c.size()) sel = (long) k;
    return c[sel];
}

static void stage(const std::vector<std::function<void()>>& f) { run_threads(f); }
static void setup(Op* o) { stage({[o] { o->make_handles(); o->prepare(); }}); }
static void teardown(Op* o) { stage({[o] { o->finish(); o->free_handles(); }}); }
static void call(Op* o)
{
    std::vector<std::function<void()>> f;
    for (int k = 0; k < o->callers(); ++k) f.push_back([o, k] { o->run(k); });
    stage(f);
}
static void append_note(const char* s)
{
    size_t k = strlen(R->note);
    snprintf(R->note + k, sizeof R->note - k, "%s%s", k ? "+" : "", s);
}
static bool check_result(Op* o, const char* kind)
{
    char sg[256];
    o->why_class.clear();
    if (o->model()) return true;
    snprintf(sg, sizeof sg, "%s|%s%s%s", kind, o->name.c_str(), o->why_class.empty() ? "" : "|", o->why_class.c_str());
    violation(kind, sg, "%s: %s", o->name.c_str(), o->why.c_str());
    return false;
}
static void check_touch(Op* o)
{
    o->why.clear();
    if (o->check_untouched()) return;
    bool in = !strncmp(o->why.c_str(), "input", 5);
    char sg[256];
    snprintf(sg, sizeof sg, "%s|%s", in ? "input" : "touch", o->name.c_str());
    violation(in ? "input" : "touch", sg, "%s: %s", o->name.c_str(), o->why.c_str());
}
// Operations whose calls the library has to refuse.
static bool may_fail(Op* o)
{
    for (auto& i : op_registry()) if (o->name == i.name) return strstr(i.props, "mayfail");
    return false;
}

static void check_status(Op* o, const char* kind)
{
    if (*o->st == SDP_SUCCESS || may_fail(o)) return;
    char sg[256];
    snprintf(sg, sizeof sg, "%s|%s", kind, o->name.c_str());
    violation(kind, sg, "%s: returned error status %d for valid inputs", o->name.c_str(), (int) *o->st);
}

// Outputs against an earlier copy of them.
static bool same_outputs(Op* o, const std::vector<std::vector<char>>& ref, std::string& why, double rel)
{
    size_t k = 0;
    for (auto* a : o->arrs)
    {
        if (a->input) continue;
        const std::vector<char>& r = ref[k++];
        int64_t n = a->n();
        double mx = 0;
        bool fp = (a->type & 15) == SDP_MEM_FLOAT || (a->type & 15) == SDP_MEM_DOUBLE;
        if (fp) for (int64_t e = 0; e < n; ++e) if (o->compare_elem(a, e)) { double m = std::abs(a->get_at(r.data(), e)); if (std::isfinite(m) && m > mx) mx = m; }
        double tol = fp ? mx * (rel > 0 ? rel : a->is_float() ? 2e-5 : 1e-9) : 0;
        for (int64_t e = 0; e < n; ++e)
        {
            if (!o->compare_elem(a, e)) continue;
            size_t of = a->off(e);
            if (!memcmp(a->data + of, r.data() + of, a->esize)) continue;
            cd x = a->get(e), y = a->get_at(r.data(), e);
            if (fp && std::abs(x - y) <= tol) continue;
            char b[300];
            snprintf(b, sizeof b, "element %ld of %s is (%.9g, %.9g), expected (%.9g, %.9g)", (long) e, a->name.c_str(), x.real(), x.imag(), y.real(), y.imag());
            why = b;
            return false;
        }
    }
    return true;
}
static std::vector<std::vector<char>> copy_outputs(Op* o)
{
    std::vector<std::vector<char>> v;
    for (auto* a : o->arrs) if (!a->input) v.push_back(std::vector<char>(a->data, a->data + a->bytes));
    return v;
}
static void scenario_normal(const OpInfo* info, bool small)
{
    append_note(info->name);
    Op* o = make_op(*info, 0, P0.seed, nullptr, small);
    int64_t mark = live_mark();
    setup(o);
    o->snapshot();
    std::vector<std::vector<char>> ref;
    bool diff = o->has_serial() && P0.b("serial.first", 0.7);
    if (diff)
    {
        o->serial = true;
        call(o);
        if (*o->st != SDP_SUCCESS) diff = false;
        ref = copy_outputs(o);
        o->restore_outputs();
        *o->st = SDP_SUCCESS;
        o->reset();
        o->serial = false;
    }
    call(o);
    R->out_hash = o->hash_outputs();
    check_status(o, "status");
    std::string why;
    if (diff && *o->st == SDP_SUCCESS && !same_outputs(o, ref, why, o->alone_tol()))
    {
        char sg[256];
        snprintf(sg, sizeof sg, "result|%s|serial", o->name.c_str());
        violation("result", sg, "%s: result depends on the number of threads: %s (with one thread)", o->name.c_str(), why.c_str());
    }
    bool ok = *o->st == SDP_SUCCESS;
    teardown(o);
    if (ok) check_result(o, "result");
    check_touch(o);
    report_leaks(mark, o->name.c_str());
    check_locks_released();
    R->nontrivial = R->st.max_team > 1 || o->callers() > 1 || R->st.regions == 0;
}

static void scenario_conc(bool small, const char* kind)
{
    int n = (int) P0.i("callers", 2, 4);
    std::vector<Op*> ops;
    std::vector<std::vector<std::vector<char>>> ref;
    std::vector<sdp_Error> rst;
    int64_t mark = live_mark();
    const OpInfo* first = nullptr;
    bool twins = P0.b("twins", 0.45);
    for (int k = 0; k < n; ++k)
    {
        std::string nm = "op" + std::to_string(k);
        const OpInfo* i = first && twins && P0.b(("twin" + std::to_string(k)).c_str(), 0.7) ? first : choose_op("", "noconc", nm.c_str());
        bool tw = i == first && twins;
        if (!first) first = i;
        append_note(i->name);
        bool kin = tw && P0.b(("kin" + std::to_string(k)).c_str(), 0.3);
        ops.push_back(make_op(*i, k, tw ? ops[0]->P.seed : hash64(P0.seed, 1000 + k), tw && !kin ? ops[0] : nullptr, small, kin ? ops[0]->P.prefix : ""));
        if (tw) append_note(kin ? "(kin)" : "(twin)");
    }
    for (auto* o : ops) { setup(o); }
    for (auto* o : ops) o->snapshot();
    for (auto* o : ops)
    {
        call(o);
        ref.push_back(copy_outputs(o));
        rst.push_back(*o->st);
        o->restore_outputs();
        *o->st = SDP_SUCCESS;
        o->reset();
    }
    std::vector<std::function<void()>> f;
    for (auto* o : ops) for (int k = 0; k < o->callers(); ++k) f.push_back([o, k] { o->run(k); });
    stage(f);
    for (size_t k = 0; k < ops.size(); ++k)
    {
        Op* o = ops[k];
        std::string why;
        char sg[256];
        snprintf(sg, sizeof sg, "%s|%s", kind, o->name.c_str());
        if (*o->st != rst[k]) violation(kind, sg, "%s: status %d when called at the same time as others, %d alone", o->name.c_str(), (int) *o->st, (int) rst[k]);
        else if (!same_outputs(o, ref[k], why, o->alone_tol())) violation(kind, sg, "%s (with %s): %s", o->name.c_str(), R->note, why.c_str());
        R->out_hash = hash64(R->out_hash, o->hash_outputs());
    }
    for (auto it = ops.rbegin(); it != ops.rend(); ++it) teardown(*it);
    for (auto* o : ops) check_touch(o);
    report_leaks(mark, "concurrent");
    check_locks_released();
    R->nontrivial = 1;
}

// Allocation failures: probe, fail, repeat.
static void scenario_alloc(bool small, bool progress)
{
    const OpInfo* i = choose_op(progress ? "" : "", "nofail", "op");
    append_note(i->name);
    Op* o = make_op(*i, 0, P0.seed, nullptr, small);
    int64_t mark0 = live_mark();
    stage({[o] { o->make_handles(); }});
    // 1. Without faults: the normal result and the number of allocations.
    o->snapshot();
    alloc_arm(true);
    stage({[o] { o->prepare(); }});
    int64_t n_prep = alloc_count();
    call(o);
    alloc_arm(false);
    int64_t n = alloc_count();
    if (*o->st != SDP_SUCCESS && !strstr(i->props, "mayfail")) { check_status(o, "harness"); child_finish(); }
    auto ref = copy_outputs(o);
    sdp_Error ref_st = *o->st;
    stage({[o] { o->finish(); }});
    o->restore_outputs();
    *o->st = SDP_SUCCESS;
    o->reset();
    (void) n_prep;
    if (n == 0) { R->nontrivial = 0; R->probes[0] = 0; teardown(o); return; }
    // 2. With faults.
    R->probes[0] = n;
    extern void sim_set_faults(int64_t at, int64_t at2, int64_t from, int64_t size);
    int mode = (int) P0.i("fault.mode", 0, 3);
    long k = P0.i("fault.k", 1, n);
    long k2 = mode == 1 ? P0.i("fault.k2", k, n + 2) : 0;
    long sz = mode == 3 ? (long) std::pow(2.0, P0.rng("fault.size").uni(3, 14)) : 0;
    sim_set_faults(mode == 0 || mode == 1 ? k : 0, k2, mode == 2 ? k : 0, sz);
    o->snapshot();
    int64_t mark = live_mark();
    alloc_arm(true);
    stage({[o] { o->prepare(); }});
    call(o);
    alloc_arm(false);
    sim_set_faults(0, 0, 0, 0);
    bool fired = R->st.alloc_faults > 0;
    sdp_Error got = *o->st;
    stage({[o] { o->finish(); }});
    char sg[256];
    snprintf(sg, sizeof sg, "alloc|%s", o->name.c_str());
    std::string why;
    if (fired && got == SDP_SUCCESS && !same_outputs(o, ref, why, o->alone_tol()))
        violation("alloc", sg, "%s: an allocation failed, yet the call reported success with a wrong result: %s", o->name.c_str(), why.c_str());
    check_touch(o);
    report_leaks(mark, o->name.c_str());
    check_locks_released();
    // 3. Memory is back: the same call succeeds with the normal result.
    o->restore_outputs();
    *o->st = SDP_SUCCESS;
    o->reset();
    stage({[o] { o->prepare(); }});
    call(o);
    if (*o->st != ref_st) violation("alloc", sg, "%s: repeated after a failed allocation, returned status %d instead of %d", o->name.c_str(), (int) *o->st, (int) ref_st);
    else if (!same_outputs(o, ref, why, o->alone_tol())) violation("alloc", sg, "%s: repeated after a failed allocation: %s", o->name.c_str(), why.c_str());
    R->out_hash = o->hash_outputs();
    teardown(o);
    report_leaks(mark0, o->name.c_str());
    R->nontrivial = fired;
}

// Sticky error status.
static void scenario_sticky(bool small)
{
    const OpInfo* i = choose_op("", "nosticky", "op");
    append_note(i->name);
    Op* o = make_op(*i, 0, P0.seed, nullptr, small);
    int64_t mark = live_mark();
    static const int errs[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, -1, 12345};
    sdp_Error err = (sdp_Error) errs[P0.i("error", 0, 14)];
    bool prep_too = P0.b("prepare_too", 0.4);
    stage({[o] { o->make_handles(); }});
    if (!prep_too) stage({[o] { o->prepare(); }});
    o->snapshot();
    *o->st = err;
    char sg[256];
    snprintf(sg, sizeof sg, "sticky|%s", o->name.c_str());
    if (prep_too) stage({[o] { o->prepare(); }});
    call(o);
    if (*o->st != err) violation("sticky", sg, "%s: called with error status %d set, changed it to %d", o->name.c_str(), (int) err, (int) *o->st);
    o->why.clear();
    if (!o->outputs_unchanged()) violation("sticky", sg, "%s: called with error status %d set: %s", o->name.c_str(), (int) err, o->why.c_str());
    if (prep_too)
    {
        stage({[o] { o->finish(); }});
    }
    o->reset();
    // Clearing the status makes the same steps work.
    *o->st = SDP_SUCCESS;
    o->restore_outputs();
    if (prep_too) stage({[o] { o->prepare(); }});
    call(o);
    o->why.clear();
    bool ok = *o->st == SDP_SUCCESS || strstr(i->props, "mayfail");
    if (!ok) violation("sticky", sg, "%s: after clearing the status, the call returned %d", o->name.c_str(), (int) *o->st);
    R->out_hash = o->hash_outputs();
    teardown(o);
    o->why_class.clear();
    if (ok && !o->model() && o->why_class.empty()) violation("sticky", sg, "%s: after clearing the status, wrong result: %s", o->name.c_str(), o->why.c_str());
    report_leaks(mark, o->name.c_str());
    R->nontrivial = 1;
}

// Same call, same schedule: outputs must not depend on heap contents or history.
static void scenario_repeat(bool small)
{
    int mode = (int) P0.i("repeat.mode", 0, 1); // 0 heap contents, 1 history
    const OpInfo* i = choose_op("", "norepeat", "op");
    const OpInfo* pre = choose_op("", "norepeat", "prior");
    append_note(i->name);
    if (mode == 1 && spec_->variant == 1)
    {
        append_note("after");
        bool same = P0.b("prior.same", 0.7);
        bool kin = same && P0.b("prior.kin", 0.8);
        append_note(kin ? "kin" : same ? i->name : pre->name);
        int n = kin ? (int) P0.i("prior.kins", 1, 5) : 1;
        for (int k = 1; k <= n; ++k)
        {
            Op* q = make_op(same ? *i : *pre, k, kin ? P0.seed : hash64(P0.seed, 4242), nullptr, small, kin ? "op0." : "");
            setup(q); q->snapshot(); call(q); teardown(q);
        }
    }
    Op* o = make_op(*i, 0, P0.seed, nullptr, small);
    setup(o);
    o->snapshot();
    call(o);
    if (mode == 1 && spec_->variant == 1 && P0.b("again", 0.5))
    {
        // Re-used objects: the second execution must equal a first one.
        append_note("again");
        // ... as must one with new objects, after releasing the first.
        bool anew = strstr(i->props, "noagain") || P0.b("again.new", 0.3);
        if (anew) stage({[o] { o->finish(); }});
        o->restore_outputs();
        *o->st = SDP_SUCCESS;
        o->reset();
        if (anew) stage({[o] { o->prepare(); }});
        call(o);
    }
    R->out_hash = hash64(o->hash_outputs(), (uint64_t) *o->st);
    teardown(o);
    R->nontrivial = 1;
}

// One array handed over is not what the call expects: other strides, or a shape
// or type that does not fit the rest. The call may refuse it or cope, but not
// touch anything that it was not given.
static void scenario_misfit(bool small)
{
    const OpInfo* i = choose_op("misfit", "", "op");
    append_note(i->name);
    Op* o = make_op(*i, 0, P0.seed, nullptr, small);
    if (o->own.empty()) { R->nontrivial = 0; return; }
    Arr* a = o->own[(size_t) P0.i("misfit.array", 0, (long) o->own.size() - 1)].get();
    int kind = (int) P0.i("misfit.kind", 0, 7);
    if (const char* list = misfits_of(i->name))
    {
        std::vector<std::pair<Arr*, int>> can;
        for (auto& m : misfit_list(list)) for (auto& x : o->own) if (x->name == m.first) can.push_back({x.get(), m.second});
        if (can.empty()) { R->nontrivial = 0; return; }
        auto& m = can[(size_t) P0.i("misfit.which", 0, (long) can.size() - 1)];
        a = m.first;
        kind = m.second;
    }
    Rng r = P0.rng("misfit");
    bool strides = kind < 3;
    if (strides) o->relayout(a, 1 + kind);
    else o->misfit(a, kind > 6 ? 0 : kind - 3, r);
    append_note("misfit:");
    append_note(a->name.c_str());
    int64_t mark = live_mark();
    setup(o);
    o->snapshot();
    std::vector<char> before;
    if (a->alt) before.assign(a->alt->data, a->alt->data + a->alt->bytes);
    call(o);
    bool ok = *o->st == SDP_SUCCESS;
    teardown(o);
    char sg[256];
    snprintf(sg, sizeof sg, "touch|%s|misfit %s", o->name.c_str(), a->name.c_str());
    o->why.clear(); o->why_class.clear();
    if (!strides)
    {
        for (auto* x : o->arrs) x->mask.clear();
        if (a->input && !before.empty() && memcmp(before.data(), a->alt->data, before.size())) violation("input", sg, "%s: input array %s modified", o->name.c_str(), a->name.c_str());
    }
    else if (ok && !may_fail(o) && !o->model() && o->why_class.empty())
        violation("touch", sg, "%s: accepted array %s which is not contiguous, but did not read or write its elements: %s", o->name.c_str(), a->name.c_str(), o->why.c_str());
    check_touch(o);
    report_leaks(mark, o->name.c_str());
    check_locks_released();
    R->nontrivial = 1;
}

static void scenario_progress(bool small)
{
    double x = P0.d("progress.kind", 0, 1);
    if (x < 0.3) { append_note("alloc-faults:"); scenario_alloc(small, true); return; }
    if (x < 0.55) { append_note("callers:"); scenario_conc(small, "usable-alone"); return; }
    const OpInfo* i = choose_op("", "noprogress", "op");
    append_note(i->name);
    Op* o = make_op(*i, 0, P0.seed, nullptr, small);
    Op* o2 = make_op(*i, 1, hash64(P0.seed, 77), nullptr, small);
    int max_active = (int) P0.i("user.max_active", 1, 3), nthr = (int) P0.raw("user.nthreads", 1, (double) P0.rng("user.nthreads").range(1, 8));
    bool user = P0.b("user.sets", 0.6);
    setup(o); setup(o2);
    o->snapshot(); o2->snapshot();
    extern void omp_set_num_threads_(int), omp_set_max_active_levels_(int);
    stage({[&] {
        if (user) { omp_set_num_threads_(nthr); omp_set_max_active_levels_(max_active); }
        if (o->callers() == 1) o->run(0);
        if (o->callers() == 1 && o2->callers() == 1) o2->run(0);
    }});
    if (o->callers() > 1) call(o);
    if (o->callers() > 1 || o2->callers() > 1) call(o2);
    check_locks_released();
    bool ok = *o->st == SDP_SUCCESS && *o2->st == SDP_SUCCESS && o->callers() == 1 && o2->callers() == 1;
    R->out_hash = o->hash_outputs();
    teardown(o2); teardown(o);
    char sg[256];
    snprintf(sg, sizeof sg, "usable|%s", o->name.c_str());
    if (ok && !o2->model() && o2->why_class.empty()) violation("usable", sg, "%s: a second call gave a wrong result: %s", o->name.c_str(), o2->why.c_str());
    R->nontrivial = R->st.max_team > 1;
}

static void child_main(const RunSpec& s)
{
    spec_ = &s;
    const Prop& pr = *s.prop;
    kind_filter = pr.kinds;
    P0 = Params();
    P0.seed = s.seed;
    P0.over = const_cast<std::map<std::string, double>*>(&s.over);
    Config c = draw_config(pr);
    if (pr.mode == M_REPEAT)
    {
        int mode = (int) P0.i("repeat.mode", 0, 1);
        c.clock_mode = 0;
        if (s.variant == 1 && mode == 0)
        {
            c.garbage = (c.garbage + 1 + (int) P0.i("garbage.other", 0, 3)) % 5;
            c.garbage_seed = hash64(c.garbage_seed, 5);
        }
        if (mode == 1) { c.strategy = ST_SERIAL; c.team_mode = 0; }
    }
    run_begin(c);
    bool small = pr.small || P0.b("small", 0.3);
    switch (pr.mode)
    {
    case M_NORMAL:
    {
        bool any = !strcmp(pr.id, "C13") && P0.b("any_op", 0.5); // leaks: every kind of object
        const OpInfo* i = choose_op(any ? "" : pr.tags, "", "op");
        if (!i) { violation("harness", "harness|noop", "no operation for %s", pr.id); break; }
        scenario_normal(i, small);
        break;
    }
    case M_CONC: scenario_conc(small, "alone"); break;
    case M_MIX:
        if (!strcmp(pr.id, "C19") && P0.b("mix.misfit", 0.3)) scenario_misfit(small);
        else if (P0.b("mix.concurrent", 0.4)) scenario_conc(small, "alone");
        else scenario_normal(choose_op("", "C16", "op"), small);
        break;
    case M_ALLOC: scenario_alloc(small, false); break;
    case M_STICKY: scenario_sticky(small); break;
    case M_REPEAT: scenario_repeat(small); break;
    case M_PROGRESS: scenario_progress(small); break;
    }
    child_finish();
}

// ---------------------------------------------------------------- parent
struct Outcome { std::string state; Result r; std::vector<Switch> log; };
static Result saved_;

static std::string fork_run(const RunSpec& s)
{
    memset((void*) R, 0, sizeof(Result));
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        struct itimerval tv; memset(&tv, 0, sizeof tv);
        tv.it_value.tv_sec = 40;
        setitimer(ITIMER_VIRTUAL, &tv, 0);
        alarm(200);
        child_main(s);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (R->done) return "done";
    char b[64];
    snprintf(b, sizeof b, WIFSIGNALED(st) ? "killed %d" : "exit %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    return b;
}
static std::string run_once(RunSpec s)
{
    s.variant = 0;
    std::string a = fork_run(s);
    if (s.prop->mode != M_REPEAT || a != "done" || R->n_viol) return a;
    saved_ = *R;
    s.variant = 1;
    std::string b = fork_run(s);
    if (b != "done") return b;
    uint64_t h = R->out_hash, t = R->trace_hash;
    int nv = R->n_viol;
    if (nv == 0 && h != saved_.out_hash)
    {
        Violation& v = R->viol[R->n_viol++];
        bool hist = strstr(R->note, "after") != nullptr || strstr(R->note, "again") != nullptr;
        std::string op = saved_.note;
        snprintf(v.kind, sizeof v.kind, "repeat");
        snprintf(v.sig, sizeof v.sig, "repeat|%s|%s", hist ? "history" : "heap", op.c_str());
        snprintf(v.msg, sizeof v.msg, "%s: same inputs and schedule, different outputs, when %s (%s)", op.c_str(),
                hist ? "other calls came before" : "uninitialised memory held something else", R->note);
    }
    R->trace_hash = hash64(t, saved_.trace_hash);
    return "done";
}

static std::string jstr(const char* s)
{
    std::string o = "\"";
    for (; *s; ++s)
    {
        unsigned char c = (unsigned char) *s;
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}
static std::string outcome_json(const RunSpec& s, const std::string& state, bool full)
{
    std::ostringstream o;
    o << "{\"prop\":\"" << s.prop->id << "\",\"seed\":" << s.seed << ",\"state\":" << jstr(state.c_str()) << ",\"viol\":[";
    for (int i = 0; i < R->n_viol; ++i)
        o << (i ? "," : "") << "{\"kind\":" << jstr(R->viol[i].kind) << ",\"sig\":" << jstr(R->viol[i].sig) << ",\"msg\":" << jstr(R->viol[i].msg) << "}";
    o << "],\"trace\":\"" << std::hex << R->trace_hash << "\",\"sched\":\"" << R->st.sched_hash << "\",\"out\":\"" << R->out_hash << std::dec
      << "\",\"steps\":" << R->st.steps << ",\"switches\":" << R->n_switch_log << ",\"note\":" << jstr(R->note) << ",\"filtered\":" << R->n_filtered
      << ",\"filtered_msg\":" << jstr(R->filtered) << ",\"conflicts\":" << R->st.conflicts << ",\"allocs\":" << R->st.allocs << ",\"faults\":" << R->st.alloc_faults
      << ",\"max_team\":" << R->st.max_team << ",\"probes0\":" << R->probes[0];
    if (full)
    {
        o << ",\"params\":" << jstr(R->params) << ",\"teams\":[";
        for (int i = 0; i < R->n_team_log && i < 4096; ++i) o << (i ? "," : "") << R->team_log[i];
        o << "],\"log\":[";
        for (int64_t i = 0; i < R->n_switch_log && i < switch_log_cap; ++i) o << (i ? "," : "") << "[" << switch_log[i].step << "," << switch_log[i].to << "]";
        o << "],\"fault_log\":[";
        for (int i = 0; i < R->n_fault_log && i < 1024; ++i) o << (i ? "," : "") << R->fault_log[i];
        o << "]";
    }
    o << "}";
    return o.str();
}

static bool load_spec(const char* path, RunSpec& s)
{
    std::ifstream f(path);
    if (!f) return false;
    std::string line;
    while (std::getline(f, line))
    {
        std::istringstream is(line);
        std::string k;
        if (!(is >> k) || k[0] == '#') continue;
        if (k == "prop") { std::string v; is >> v; s.prop = find_prop(v); }
        else if (k == "seed") is >> s.seed;
        else if (k == "over") { std::string n, v; is >> n >> v; s.over[n] = atof(v.c_str()); }
        else if (k == "explicit") { int v; is >> v; s.explicit_sched = v != 0; }
        else if (k == "sched") { Switch w; w.pad = 0; is >> w.step >> w.to; s.sched.push_back(w); }
        else if (k == "team") { int v; is >> v; s.teams.push_back(v); }
    }
    return s.prop != nullptr;
}

static int worker(int argc, char** argv)
{
    RunSpec s;
    uint64_t start = 1, stride = 1;
    int64_t count = INT64_MAX;
    double tmax = 1e9;
    std::string hashes, known_file;
    bool keep_going = false;
    for (int i = 2; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") s.prop = find_prop(v);
        else if (k == "--start") start = strtoull(v.c_str(), 0, 10);
        else if (k == "--stride") stride = strtoull(v.c_str(), 0, 10);
        else if (k == "--count") count = atoll(v.c_str());
        else if (k == "--tmax") tmax = atof(v.c_str());
        else if (k == "--hashes") hashes = v;
        else if (k == "--known") known_file = v;
        else if (k == "--keep") keep_going = v == "1";
        else if (k == "--over") { size_t e = v.find('='); s.over[v.substr(0, e)] = atof(v.c_str() + e + 1); }
    }
    if (!s.prop) { fprintf(stderr, "unknown property\n"); return 2; }
    std::vector<std::string> known;
    {
        std::ifstream f(known_file);
        std::string l;
        while (std::getline(f, l)) if (!l.empty()) known.push_back(l);
    }
    std::map<std::string, int64_t> tot, notes, strat, lost, known_hits, cost_us;
    std::set<uint64_t> seen, seen_sched;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    int64_t runs = 0;
    std::string sample;
    for (int64_t k = 0; k < count; ++k)
    {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double el = (double) (t1.tv_sec - t0.tv_sec) + 1e-9 * (double) (t1.tv_nsec - t0.tv_nsec);
        if (el > tmax) break;
        s.seed = start + (uint64_t) k * stride;
        std::string st = run_once(s);
        {
            struct timespec t2;
            clock_gettime(CLOCK_MONOTONIC, &t2);
            std::string nt = R->note;
            cost_us[nt.substr(0, nt.find('+'))] += (t2.tv_sec - t1.tv_sec) * 1000000 + (t2.tv_nsec - t1.tv_nsec) / 1000;
        }
        ++runs;
        if (st != "done") { lost[st]++; printf("LOST {\"seed\":%lu,\"state\":%s,\"note\":%s}\n", (unsigned long) s.seed, jstr(st.c_str()).c_str(), jstr(R->note).c_str()); continue; }
        int mx = s.prop->mode == M_REPEAT ? 2 : 1; (void) mx;
        tot["steps"] += R->st.steps; tot["switches"] += R->st.switches; tot["conflicts"] += R->st.conflicts;
        tot["conflict_switches"] += R->st.conflict_switches; tot["accesses"] += R->st.accesses;
        tot["allocs"] += R->st.allocs; tot["alloc_faults"] += R->st.alloc_faults; tot["stream_faults"] += R->st.stream_faults;
        tot["clock_jumps"] += R->st.clock_jumps; tot["team_shrunk"] += R->st.team_shrunk; tot["regions"] += R->st.regions;
        tot["fibers"] += R->st.fibers; tot["stalls"] += R->st.stalls; tot["locks"] += R->st.locks; tot["atomics"] += R->st.atomics;
        tot["sim_ns"] += R->st.sim_ns; tot["nontrivial"] += R->nontrivial; tot["filtered"] += R->n_filtered;
        tot["net_sent"] += R->st.net.sent; tot["net_lost"] += R->st.net.lost; tot["net_duplicated"] += R->st.net.duplicated;
        tot["net_reordered"] += R->st.net.reordered; tot["net_restarts"] += R->st.net.restarts; tot["net_partitioned"] += R->st.net.partitioned;
        tot["faulty_runs"] += R->st.alloc_faults || R->st.stream_faults || R->st.clock_jumps || R->st.team_shrunk || R->st.stalls || R->st.net.lost || R->st.net.duplicated || R->st.net.restarts || R->st.net.partitioned || R->st.net.reordered;
        if (R->n_filtered) notes[std::string("filtered: ") + R->filtered]++;
        std::string nt = R->note;
        notes[nt.substr(0, nt.find('+'))]++;
        {
            const char* p = strstr(R->params, "cfg.strategy=");
            if (p) strat[strategy_name[atoi(p + 13)]]++;
        }
        if (R->nontrivial) { seen.insert(hash64(R->st.sched_hash, hash_str(R->note))); }
        seen_sched.insert(R->st.sched_hash);
        if (runs == 3) sample = outcome_json(s, st, false);
        if (R->n_viol)
        {
            bool unlisted = false;
            for (int i = 0; i < R->n_viol; ++i)
            {
                bool kn = false;
                for (auto& q : known) if (q == R->viol[i].sig) { kn = true; known_hits[q]++; }
                if (!kn) unlisted = true;
            }
            if (unlisted)
            {
                printf("VIOL %s\n", outcome_json(s, st, false).c_str());
                fflush(stdout);
                if (!keep_going) break;
            }
        }
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    double el = (double) (t1.tv_sec - t0.tv_sec) + 1e-9 * (double) (t1.tv_nsec - t0.tv_nsec);
    std::ostringstream o;
    o << "{\"runs\":" << runs << ",\"wall\":" << el << ",\"distinct\":" << seen.size() << ",\"distinct_sched\":" << seen_sched.size();
    for (auto& t : tot) o << ",\"" << t.first << "\":" << t.second;
    auto mp = [&](const char* n, std::map<std::string, int64_t>& m) {
        o << ",\"" << n << "\":{";
        bool f = true;
        for (auto& t : m) { o << (f ? "" : ",") << jstr(t.first.c_str()) << ":" << t.second; f = false; }
        o << "}";
    };
    mp("ops", notes); mp("strategies", strat); mp("lost", lost); mp("cost_us", cost_us); mp("known", known_hits);
    std::set<std::string> fn;
    for (size_t i = 0; i < text_size; ++i) if (func_bitmap[i]) fn.insert(symbol_of((void*) (text_base + i)));
    o << ",\"functions\":[";
    bool first = true;
    for (auto& f : fn)
    {
        if (f.compare(0, 5, "std::") == 0 || f.compare(0, 3, "sim") == 0 || f[0] == '?') continue;
        o << (first ? "" : ",") << jstr(f.c_str());
        first = false;
    }
    o << "]";
    if (!sample.empty()) o << ",\"sample\":" << sample;
    o << "}";
    printf("STATS %s\n", o.str().c_str());
    if (!hashes.empty())
    {
        FILE* f = fopen(hashes.c_str(), "wb");
        if (f) { for (uint64_t h : seen) fwrite(&h, 8, 1, f); fclose(f); }
    }
    return 0;
}

int main(int argc, char** argv)
{
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIMRUN_REEXEC"))
    {
        setenv("SIMRUN_REEXEC", "1", 1);
        if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    process_init();
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "worker") return worker(argc, argv);
    if (cmd == "list")
    {
        for (auto& i : op_registry()) printf("%s: %s\n", i.name, i.props);
        return 0;
    }
    if (cmd == "one" && argc > 2)
    {
        RunSpec s;
        if (!load_spec(argv[2], s)) { fprintf(stderr, "bad spec\n"); return 2; }
        bool full = argc > 3 && !strcmp(argv[3], "full");
        std::string st = run_once(s);
        printf("%s\n", outcome_json(s, st, full).c_str());
        return 0;
    }
    fprintf(stderr, "usage: simrun worker|one|list ...\n");
    return 2;
}
