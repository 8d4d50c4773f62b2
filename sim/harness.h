// Workloads ("operations") on the library, their inputs and reference models.
#ifndef SIM_HARNESS_H
#define SIM_HARNESS_H
#include "rt.h"
#include <cmath>
#include <complex>
#include <map>
#include <memory>
#include "ska-sdp-func/utility/sdp_mem.h"
#include "ska-sdp-func/utility/sdp_errors.h"

namespace sim {
typedef std::complex<double> cd;
static const double PI = 3.14159265358979323846;
static const double C0 = 299792458.0;

// Named, independently drawn parameters: replay and shrinking override them.
struct Params {
    uint64_t seed = 1;
    std::string prefix;
    std::string kin;                                 // draws shared with the operation of this prefix ...
    double kin_p = 0;                                // ... each with this probability
    std::map<std::string, double>* over = nullptr; // overrides
    bool small = false;                            // boundary-biased sizes
    double raw(const char* name, double lo, double v);
    long i(const char* name, long lo, long hi);    // uniform integer
    long size(const char* name, long lo, long hi); // biased to small values when `small`
    double d(const char* name, double lo, double hi);
    bool b(const char* name, double p = 0.5);
    long pick(const char* name, std::initializer_list<long> v);
    Rng rng(const char* name) const;
};

struct Arr {
    std::string name;
    sdp_MemType type = SDP_MEM_DOUBLE;
    std::vector<int64_t> shape, stride;   // strides in bytes
    size_t esize = 0, bytes = 0;
    char* data = nullptr;
    sdp_Mem* mem = nullptr;
    bool input = false, owner_lib = false, shared = false;
    std::vector<char> snap;
    std::vector<unsigned char> mask;      // per element in C order; empty: every element may be written
    int64_t n() const { int64_t k = 1; for (auto s : shape) k *= s; return k; }
    size_t off(int64_t e) const {
        size_t o = 0;
        for (int d = (int) shape.size() - 1; d >= 0; --d) { o += (size_t) (e % shape[d]) * stride[d]; e /= shape[d]; }
        return o;
    }
    cd get(int64_t e) const { return get_at(data, e); }
    cd get_snap(int64_t e) const { return get_at(snap.data(), e); }
    cd get_at(const char* base, int64_t e) const;
    void set(int64_t e, cd v);
    long geti(int64_t e) const { return (long) std::real(get(e)); }
    double re(int64_t e) const { return std::real(get(e)); }
    int64_t idx(int64_t a, int64_t b) const { return a * shape[1] + b; }
    int64_t idx(int64_t a, int64_t b, int64_t c) const { return (a * shape[1] + b) * shape[2] + c; }
    int64_t idx(int64_t a, int64_t b, int64_t c, int64_t d) const { return ((a * shape[1] + b) * shape[2] + c) * shape[3] + d; }
    void take_snap() { snap.assign(data, data + bytes); }
    void restore() { memcpy(data, snap.data(), bytes); }
    bool is_float() const { return (type & 15) == SDP_MEM_FLOAT; }
    std::unique_ptr<Arr> alt;             // what the library is given instead (an array that does not fit)
};

enum { LAYOUT_ANY = 1, LAYOUT_C = 0 };

struct Op {
    std::string name;
    int instance = 0;
    Params P;
    Op* twin = nullptr;                  // share this operation's input arrays
    uint64_t share = 0;                  // ... provided that its inputs make sense here (equal keys)
    std::vector<std::unique_ptr<Arr>> own;
    std::vector<Arr*> arrs;
    sdp_Error* st = nullptr;             // in the arena, shared with the library
    std::string why;                     // model's explanation
    std::string why_class;               // model's classification of a failure (part of the signature)
    double scalar = 0; int64_t iscalar = 0;
    int max_threads_hint = 0;
    bool skip_model = false;
    virtual ~Op() {}
    virtual void gen() = 0;              // draw parameters, create arrays
    virtual int callers() { return 1; }
    virtual void prepare() {}            // library objects needed before run (fiber context)
    virtual void run(int k) = 0;         // library calls of caller k (fiber context)
    virtual void finish() {}             // free library objects
    virtual bool model() { return true; }// compare results with the reference (status was success)
    virtual uint64_t extra_hash() { return 0; }
    virtual void reset() {}              // before a repeated run
    virtual bool can_fail_alloc() { return true; }
    virtual double alone_tol() { return 0; } // tolerance against a run alone (0: default by type)
    virtual sdp_Error* status_of(int) { return st; }
    bool serial = false;                 // run with one thread (has_serial operations)
    virtual bool has_serial() { return false; }
    virtual bool compare_elem(Arr*, int64_t) { return true; }

    // helpers
    Arr* arr(const char* name, sdp_MemType t, std::vector<int64_t> shape, bool input, int layout = LAYOUT_C);
    Arr* in(const char* n, sdp_MemType t, std::vector<int64_t> s, int layout = LAYOUT_C) { return arr(n, t, s, true, layout); }
    Arr* out(const char* n, sdp_MemType t, std::vector<int64_t> s, int layout = LAYOUT_C) { return arr(n, t, s, false, layout); }
    void fill(Arr* a, double lo, double hi);
    void fill_int(Arr* a, long lo, long hi);
    void zero(Arr* a);
    bool close(Arr* a, int64_t e, cd want, double tol, const char* what);
    bool fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    bool L(const char* fn, const std::function<void()>& f) { return lib_call(f, fn); }
    void make_handles();                 // fiber context
    void free_handles();
    void relayout(Arr* a, int kind);     // same elements, other strides: 1 padded rows, 2 permuted axes, 3 gaps
    void misfit(Arr* a, int kind, Rng& r); // hand over another shape or type: 0 shorter, 1 longer, 2 type, 3 number of dimensions
    void snapshot() { for (auto* a : arrs) a->take_snap(); }
    void restore_outputs() { for (auto* a : arrs) if (!a->input) a->restore(); }
    bool check_untouched();              // inputs and masked-out output elements unchanged
    bool outputs_unchanged();            // nothing changed at all
    uint64_t hash_outputs();
    Arr* find(const char* n) { for (auto* a : arrs) if (a->name == n) return a; return nullptr; }
};

typedef Op* (*OpMaker)();
struct OpInfo { const char* name; const char* props; OpMaker make; double weight; };
std::vector<OpInfo>& op_registry();
struct OpReg { OpReg(const char* n, const char* props, OpMaker m, double w = 1) { op_registry().push_back(OpInfo{n, props, m, w}); } };
#define REGISTER_OP(cls, name, props) static OpReg reg_##cls(name, props, []() -> Op* { return new cls(); })
#define REGISTER_OPW(cls, name, props, w) static OpReg reg_##cls(name, props, []() -> Op* { return new cls(); }, w)

// n - 1 of direction (l, m) on an image grid sheared by (hu, hv).
inline double lm_to_n_ref(double l, double m, double hu, double hv)
{
    if (hu == 0 && hv == 0) return std::sqrt(1 - l * l - m * m) - 1;
    double a = hu * l + hv * m - 1, b = hu * hu + hv * hv + 1;
    return (std::sqrt(a * a - b * (l * l + m * m)) + a) / b;
}
// Independent evaluation of the zero-order prolate spheroidal wave function,
// normalised to 1 at the origin (Legendre expansion, inverse iteration).
struct PswfRef {
    double c; std::vector<double> d; double s0;
    explicit PswfRef(double c);
    double raw(double x) const;
    double operator()(double x) const { return raw(x) / s0; }
};
inline sdp_MemType cplx(bool dbl) { return dbl ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT; }
inline sdp_MemType real_t(bool dbl) { return dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT; }
} // namespace sim
#endif
