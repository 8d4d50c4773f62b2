// Channel clamping, bounds and element-wise grid operations (C04, C05).
#include "harness.h"
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
#include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include <algorithm>
#include <cfloat>
using namespace sim;
#define SZ(a) ((int) (sizeof(a) / sizeof((a)[0])))

// Random uvws: a mixture of ordinary, tiny, zero and negative coordinates.
static void fill_uvw(Op* o, Arr* a, double scale)
{
    if (a->shared) return;
    Rng r = o->P.rng("uvw");
    for (int64_t i = 0; i < a->shape[0]; ++i)
        for (int64_t j = 0; j < a->shape[1]; ++j)
        {
            double v = r.uni(-scale, scale);
            double k = r.u01();
            if (k < 0.05) v = 0;
            else if (k < 0.1) v *= 1e-9;
            a->set(a->idx(i, j), v);
        }
}
static void fill_chs(Op* o, Arr* s, Arr* e, long nch)
{
    if (s->shared) return;
    Rng r = o->P.rng("chs");
    for (int64_t i = 0; i < s->shape[0]; ++i)
    {
        long a = r.range(0, nch), b = r.range(0, nch);
        double k = r.u01();
        if (k < 0.4) { a = 0; b = nch; }
        else if (k > 0.85) { b = a; }
        else if (a > b) std::swap(a, b);
        s->set(i, a); e->set(i, b);
    }
}

struct OpClamp : Op
{
    bool uv, part, dbl; long n, nch, row0, row1; int dim, ax = 0;
    double f0, df, lo[2], hi[2], mid;
    int axis() const { return uv ? ax : dim; }      // of the coordinates that are split
    void interval(int k, double* l, double* h) const
    {
        for (int j = 0; j < 2; ++j) { l[j] = lo[j]; h[j] = hi[j]; }
        if (k == 2) l[ax] = mid;
        if (k == 1) h[ax] = mid;
    }
    Arr *uvw, *s_in, *e_in, *s[3], *e[3];
    void gen() override
    {
        n = P.size("rows", 0, 48); nch = P.size("nch", 1, 40);
        uv = P.b("uv"); dbl = P.b("dbl"); dim = (int) P.i("dim", 0, 2);
        part = P.b("split", 0.6);
        if (uv) ax = (int) P.i("ax", 0, 1);
        f0 = P.d("f0", 5e7, 3e8); df = P.d("df", 1e4, 1e7);
        if (P.b("df0", 0.05)) df = 0;
        double L = P.pick("scale", {30, 3000, 100000});
        uvw = in("uvws", real_t(dbl), {n, 3}, LAYOUT_ANY);
        fill_uvw(this, uvw, L);
        s_in = in("start_ch_in", SDP_MEM_INT, {n}, LAYOUT_ANY);
        e_in = in("end_ch_in", SDP_MEM_INT, {n}, LAYOUT_ANY);
        fill_chs(this, s_in, e_in, nch);
        double U = L * (f0 + df * nch) / C0;
        for (int k = 0; k < 2; ++k)
        {
            double a = P.d(k ? "a1" : "a0", -1.1, 1.1) * U, b = P.d(k ? "b1" : "b0", -1.1, 1.1) * U;
            lo[k] = std::min(a, b); hi[k] = std::max(a, b);
            if (P.b(k ? "wide1" : "wide0", 0.3)) { lo[k] = -2 * U; hi[k] = 2 * U; }
        }
        mid = lo[ax] + (hi[ax] - lo[ax]) * P.d("mid", 0, 1);
        // Boundaries exactly where coordinates of zero are.
        double z = P.d("zero", 0, 1);
        if (z < 0.1 && lo[ax] < 0 && hi[ax] > 0) mid = 0;
        else if (z < 0.15) { lo[ax] = 0; hi[ax] = fabs(hi[ax]); mid = 0.5 * hi[ax]; }
        else if (z < 0.2) { hi[ax] = 0; lo[ax] = -fabs(lo[ax]); mid = 0.5 * lo[ax]; }
        // Sometimes the boundary between adjacent intervals is exactly a coordinate.
        if (part && n > 0 && P.b("edge", 0.3))
        {
            Rng r = P.rng("edge.r");
            long i = r.range(0, n - 1), c = r.range(0, nch - 1);
            double u = uvw->re(uvw->idx(i, axis())) * (f0 / C0) + c * (uvw->re(uvw->idx(i, axis())) * (df / C0));
            if (u > lo[ax] && u < hi[ax]) mid = u;
        }
        if (P.b("all_rows", 0.4) || n == 0) { row0 = -1; row1 = -1; }
        else { row0 = P.i("row0", 0, n); row1 = P.i("row1", 0, n); if (row0 > row1) std::swap(row0, row1); }
        long r0 = row0 < 0 ? 0 : row0, r1 = row1 < 0 ? n : row1;
        for (int k = 0; k < (part ? 3 : 1); ++k)
        {
            s[k] = out(("start_ch_out" + std::to_string(k)).c_str(), SDP_MEM_INT, {n}, LAYOUT_ANY);
            e[k] = out(("end_ch_out" + std::to_string(k)).c_str(), SDP_MEM_INT, {n}, LAYOUT_ANY);
            fill_int(s[k], -1000, 1000); fill_int(e[k], -1000, 1000);
            s[k]->mask.assign(n, 0); e[k]->mask.assign(n, 0);
            for (long i = r0; i < r1; ++i) s[k]->mask[i] = e[k]->mask[i] = 1;
        }
    }
    void run(int) override
    {
        for (int k = 0; k < (part ? 3 : 1); ++k)
        {
            double a[2], b[2];
            interval(k, a, b);
            if (uv)
                L("sdp_gridder_clamp_channels_uv", [&] { sdp_gridder_clamp_channels_uv(uvw->mem, f0, df, s_in->mem, e_in->mem,
                        a[0], b[0], a[1], b[1], s[k]->mem, e[k]->mem, row0, row1, st); });
            else
                L("sdp_gridder_clamp_channels_single", [&] { sdp_gridder_clamp_channels_single(uvw->mem, dim, f0, df, s_in->mem,
                        e_in->mem, a[0], b[0], s[k]->mem, e[k]->mem, row0, row1, st); });
        }
    }
    // -1 surely outside, 1 surely inside, 0 too close to the boundary to call
    int inside(double x, int c, double a, double b)
    {
        if (x == 0) return a <= 0 && 0 < b ? 1 : -1;    // exactly known
        double u = (f0 + df * c) / C0 * x;
        double eps = 1e-9 * (fabs(x) * (f0 + df * c) / C0 + fabs(a) + fabs(b)) + 1e-12;
        // Channels closer together than the interval can resolve count as one.
        double u0 = f0 / C0 * x, du = fabs(df / C0 * x);
        if (du <= 1.01 * std::max(fabs(a - u0), fabs(b - u0)) / 2147483645.0) eps += du * nch;
        if (fabs(u - a) < eps || fabs(u - b) < eps) return 0;
        return u > a && u < b ? 1 : -1;
    }
    bool model() override
    {
        long r0 = row0 < 0 ? 0 : row0, r1 = row1 < 0 ? n : row1;
        for (long i = r0; i < r1; ++i)
        {
            long si = s_in->geti(i), ei = e_in->geti(i);
            for (int k = 0; k < (part ? 3 : 1); ++k)
            {
                double a[2], b[2];
                interval(k, a, b);
                long so = s[k]->geti(i), eo = e[k]->geti(i);
                if (eo > so && (so < si || eo > ei))
                    return fail("row %ld: clamped range [%ld,%ld) is not inside the input range [%ld,%ld)", i, so, eo, si, ei);
                if (so > eo) return fail("row %ld: clamped range [%ld,%ld) is inverted", i, so, eo);
                for (long c = si; c < ei; ++c)
                {
                    int w;
                    if (uv)
                    {
                        int w0 = inside(uvw->re(uvw->idx(i, 0)), (int) c, a[0], b[0]);
                        int w1 = inside(uvw->re(uvw->idx(i, 1)), (int) c, a[1], b[1]);
                        w = (w0 < 0 || w1 < 0) ? -1 : (w0 == 0 || w1 == 0) ? 0 : 1;
                    }
                    else w = inside(uvw->re(uvw->idx(i, dim)), (int) c, a[0], b[0]);
                    bool got = c >= so && c < eo;
                    if (w && got != (w > 0))
                        return fail("row %ld channel %ld: %s by clamping to [%.17g,%.17g) (range [%ld,%ld) of [%ld,%ld))", i, c,
                                got ? "kept outside the interval" : "lost inside the interval", a[ax], b[ax], so, eo, si, ei);
                }
            }
            if (part) // adjacent intervals share no channel and lose none
            {
                for (long c = si; c < ei; ++c)
                {
                    int in0 = c >= s[0]->geti(i) && c < e[0]->geti(i);
                    int in1 = c >= s[1]->geti(i) && c < e[1]->geti(i), in2 = c >= s[2]->geti(i) && c < e[2]->geti(i);
                    double x = uvw->re(uvw->idx(i, axis())), u0 = f0 / C0 * x, du = fabs(df / C0 * x);
                    if (du > 0 && du <= 1e-8 * (fabs(lo[ax] - u0) + fabs(hi[ax] - u0))) continue;
                    if (uv)
                    {
                        // ... along the other axis too, where channels can be too close to tell apart.
                        double y = uvw->re(uvw->idx(i, 1 - ax)), v0 = f0 / C0 * y, dv = fabs(df / C0 * y);
                        if (dv > 0 && dv <= 1e-8 * (fabs(lo[1 - ax] - v0) + fabs(hi[1 - ax] - v0))) continue;
                    }
                    if (in1 + in2 != in0)
                        return fail("row %ld channel %ld: in %d interval(s) of the two adjacent ones, but %d of the whole (boundary %.17g)",
                                i, c, in1 + in2, in0, mid);
                }
            }
        }
        return true;
    }
};
REGISTER_OPW(OpClamp, "clamp_channels", "C04", 2);

struct OpBounds : Op
{
    long n, nch; bool dbl; double f0, df; Arr *uvw, *s, *e; double* mm;
    void gen() override
    {
        n = P.size("rows", 0, 40); nch = P.size("nch", 1, 30); dbl = P.b("dbl");
        f0 = P.d("f0", 5e7, 3e8); df = P.d("df", 1e4, 1e7);
        uvw = in("uvws", real_t(dbl), {n, 3}, LAYOUT_ANY); fill_uvw(this, uvw, 3000);
        s = in("start_chs", SDP_MEM_INT, {n}, LAYOUT_ANY); e = in("end_chs", SDP_MEM_INT, {n}, LAYOUT_ANY); fill_chs(this, s, e, nch);
        Arr* o = out("minmax", SDP_MEM_DOUBLE, {6}); fill(o, 0, 1); mm = (double*) o->data;
    }
    void run(int) override
    {
        L("sdp_gridder_uvw_bounds_all", [&] { sdp_gridder_uvw_bounds_all(uvw->mem, f0, df, s->mem, e->mem, mm, mm + 3, st); });
    }
    bool model() override
    {
        for (int j = 0; j < 3; ++j)
        {
            double a = INFINITY, b = -INFINITY;
            for (long i = 0; i < n; ++i)
                for (long c = s->geti(i); c < e->geti(i); ++c)
                {
                    double u = uvw->re(uvw->idx(i, j)) * (f0 + df * c) / C0;
                    a = std::min(a, u); b = std::max(b, u);
                }
            double tol = 1e-9 * (std::isfinite(a) ? fabs(a) + fabs(b) : 0) + 1e-12;
            if (!(mm[j] == a || fabs(mm[j] - a) <= tol)) return fail("uvw_min[%d] is %.12g, the minimum over the selection is %.12g", j, mm[j], a);
            if (!(mm[3 + j] == b || fabs(mm[3 + j] - b) <= tol)) return fail("uvw_max[%d] is %.12g, the maximum over the selection is %.12g", j, mm[3 + j], b);
        }
        return true;
    }
};
REGISTER_OP(OpBounds, "uvw_bounds", "C04");

struct OpSumDiff : Op
{
    long n, row0, row1; Arr *a, *b, *o;
    void gen() override
    {
        n = P.size("rows", 0, 120);
        a = in("a", SDP_MEM_INT, {n}, LAYOUT_ANY); b = in("b", SDP_MEM_INT, {n}, LAYOUT_ANY);
        long big = P.b("big", 0.4) ? 1000000000 : 1000;
        fill_int(a, -big, big); fill_int(b, -big, big);
        o = out("result", SDP_MEM_DOUBLE, {1}); fill_int(o, 5, 5);
        if (P.b("all", 0.4) || !n) { row0 = row1 = -1; }
        else { row0 = P.i("row0", 0, n); row1 = P.i("row1", 0, n); if (row0 > row1) std::swap(row0, row1); }
    }
    void run(int) override
    {
        L("sdp_gridder_sum_diff", [&] { sdp_gridder_sum_diff(a->mem, b->mem, (int64_t*) o->data, row0, row1, st); });
    }
    bool model() override
    {
        int64_t w = 0, g; memcpy(&g, o->data, 8);
        for (long i = row0 < 0 ? 0 : row0; i < (row0 < 0 ? n : row1); ++i) w += (int64_t) a->geti(i) - b->geti(i);
        return g == w ? true : fail("sum of differences is %ld, expected %ld", (long) g, (long) w);
    }
};
REGISTER_OP(OpSumDiff, "sum_diff", "C04 misfit");

// ------------------------------------------------------------------ C05
static double eps_of(bool f) { return f ? 2e-6 : 1e-13; }

struct OpAccum : Op
{
    int combo, ex; long n0, n1; bool use2; Arr *o, *a, *b = nullptr; bool flt, realout;
    void gen() override
    {
        static const sdp_MemType T[12][2] = {
            {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_DOUBLE}, {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_FLOAT},
            {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_FLOAT}, {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE},
            {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_DOUBLE}, {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_FLOAT},
            {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_FLOAT}, {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_DOUBLE},
            {SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_DOUBLE}, {SDP_MEM_FLOAT, SDP_MEM_COMPLEX_FLOAT},
            {SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT}, {SDP_MEM_FLOAT, SDP_MEM_COMPLEX_DOUBLE}};
        combo = (int) P.i("combo", 0, 11); n0 = P.size("n0", 0, 24); n1 = P.size("n1", 0, 24);
        ex = (int) P.i("exponent", -2, 4); use2 = P.b("use2", 0.7);
        realout = combo >= 8; flt = T[combo][0] == SDP_MEM_COMPLEX_FLOAT || T[combo][0] == SDP_MEM_FLOAT;
        o = out("out", T[combo][0], {n0, n1}, LAYOUT_ANY); a = in("in1", T[combo][1], {n0, n1}, LAYOUT_ANY);
        fill(o, -2, 2); fill(a, -2, 2);
        if (use2 && !realout) { b = in("in2", SDP_MEM_COMPLEX_DOUBLE, {n0, n1}, LAYOUT_ANY); fill(b, 0.5, 1.5); }
    }
    void run(int) override
    {
        L("sdp_gridder_accumulate_scaled_arrays", [&] { sdp_gridder_accumulate_scaled_arrays(o->mem, a->mem, b ? b->mem : nullptr, ex, st); });
    }
    bool model() override
    {
        for (int64_t e = 0; e < n0 * n1; ++e)
        {
            cd w = a->get(e);
            if (realout) w = w.real();
            else if (b && ex != 0) w *= std::pow(b->get(e), ex);
            double mag = std::abs(w) + 4;
            if (!close(o, e, o->get_snap(e) + w, mag * eps_of(flt || combo == 2 || combo == 6 || combo == 10), "accumulate")) return false;
        }
        return true;
    }
};
REGISTER_OP(OpAccum, "accumulate_scaled", "C05");

struct OpScaleInv : Op
{
    int combo, ex; long n0, n1; Arr *o, *a, *b; bool flt;
    void gen() override
    {
        static const sdp_MemType T[4][2] = {{SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_DOUBLE}, {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_FLOAT},
            {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_DOUBLE}, {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_FLOAT}};
        combo = (int) P.i("combo", 0, 3); n0 = P.size("n0", 0, 24); n1 = P.size("n1", 0, 24); ex = (int) P.i("exponent", -2, 4);
        flt = combo & 1;
        o = out("out", T[combo][0], {n0, n1}, LAYOUT_ANY); a = in("in1", T[combo][1], {n0, n1}, LAYOUT_ANY);
        b = in("in2", SDP_MEM_COMPLEX_DOUBLE, {n0, n1}, LAYOUT_ANY);
        fill(o, -2, 2); fill(a, -2, 2); fill(b, 0.5, 1.5);
    }
    void run(int) override
    {
        L("sdp_gridder_scale_inv_array", [&] { sdp_gridder_scale_inv_array(o->mem, a->mem, b->mem, ex, st); });
    }
    bool model() override
    {
        for (int64_t e = 0; e < n0 * n1; ++e)
        {
            cd w = a->get(e) / std::pow(b->get(e), ex);
            if (!close(o, e, w, (std::abs(w) + 1) * eps_of(flt), "scale_inv")) return false;
        }
        return true;
    }
};
REGISTER_OP(OpScaleInv, "scale_inv", "C05");

struct OpResidual : Op
{
    bool rms; int combo; long n0, n1; Arr *a, *b, *o; bool flt; double res = 0;
    void gen() override
    {
        static const sdp_MemType T[6][2] = {{SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_DOUBLE}, {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_FLOAT},
            {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_FLOAT}, {SDP_MEM_DOUBLE, SDP_MEM_DOUBLE}, {SDP_MEM_FLOAT, SDP_MEM_FLOAT}, {SDP_MEM_DOUBLE, SDP_MEM_FLOAT}};
        rms = P.b("rms"); combo = (int) P.i("combo", 0, 5); n0 = P.size("n0", 1, 24); n1 = P.size("n1", 1, 24);
        flt = combo == 1 || combo == 4;
        a = in("a", T[combo][0], {n0, n1}, LAYOUT_ANY); b = in("b", T[combo][1], {n0, n1}, LAYOUT_ANY);
        fill(a, -3, 3); fill(b, -3, 3);
        if (rms) { o = out("rms", SDP_MEM_DOUBLE, {1}); fill(o, 0, 1); }
        else { o = out("out", T[combo][0], {n0, n1}, LAYOUT_ANY); fill(o, 0, 1); }
    }
    void run(int) override
    {
        if (rms) L("sdp_gridder_rms_diff", [&] { double r = sdp_gridder_rms_diff(a->mem, b->mem, st); if (*st == SDP_SUCCESS) memcpy(o->data, &r, 8); });
        else L("sdp_gridder_residual", [&] { sdp_gridder_residual(a->mem, b->mem, o->mem, st); });
    }
    bool model() override
    {
        double s = 0;
        for (int64_t e = 0; e < n0 * n1; ++e)
        {
            cd d = a->get(e) - b->get(e);
            s += std::norm(d);
            if (!rms && !close(o, e, d, 6 * eps_of(flt), "residual")) return false;
        }
        if (rms) return close(o, 0, sqrt(s / (double) (n0 * n1)), (1 + sqrt(s)) * (flt ? 1e-5 : 1e-11), "rms_diff");
        return true;
    }
};
REGISTER_OPW(OpResidual, "residual_rms", "C05 misfit", 1.5);

struct OpCount : Op
{
    int t; long n; Arr *im, *o;
    void gen() override
    {
        static const sdp_MemType T[4] = {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_FLOAT};
        t = (int) P.i("type", 0, 3); n = P.size("n", 0, 24);
        im = in("image", T[t], {n, n}, LAYOUT_ANY);
        Rng r = P.rng("im"); double p = P.d("p", 0, 1);
        if (!im->shared) for (int64_t e = 0; e < n * n; ++e) im->set(e, r.chance(p) ? cd(r.chance(.5) ? 0 : r.uni(-1, 1), r.uni(.1, 1)) : cd());
        o = out("count", SDP_MEM_DOUBLE, {1}); fill_int(o, 7, 7);
    }
    void run(int) override
    {
        L("sdp_gridder_count_nonzero_pixels", [&] { int64_t c = sdp_gridder_count_nonzero_pixels(im->mem, st); if (*st == SDP_SUCCESS) memcpy(o->data, &c, 8); });
    }
    bool model() override
    {
        int64_t w = 0, g; memcpy(&g, o->data, 8);
        for (int64_t e = 0; e < n * n; ++e) if (im->get(e) != cd()) ++w;
        return g == w ? true : fail("count of non-zero pixels is %ld, expected %ld", (long) g, (long) w);
    }
};
REGISTER_OPW(OpCount, "count_nonzero", "C05", 0.5);

static long wrap(long a, long n) { a %= n; return a < 0 ? a + n : a; }
struct OpSubgrid : Op
{
    bool add; int t; long gu, gv, su, sv; int ou, ov; double f; Arr *g, *s; bool flt;
    void gen() override
    {
        static const sdp_MemType T[4] = {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_FLOAT};
        add = P.b("add"); t = (int) P.i("type", 0, 3); flt = t & 1;
        gu = P.size("gu", 1, 28); gv = P.size("gv", 1, 28); su = P.size("su", 1, gu); sv = P.size("sv", 1, gv);
        ou = (int) P.i("ou", -3 * gu, 3 * gu); ov = (int) P.i("ov", -3 * gv, 3 * gv); f = P.d("factor", -2, 2);
        g = arr("grid", T[t], {gu, gv}, !add, LAYOUT_ANY); s = arr("subgrid", T[t], {su, sv}, add, LAYOUT_ANY);
        fill(g, -2, 2); fill(s, -2, 2);
        if (add)
        {
            g->mask.assign(gu * gv, 0);
            for (long i = 0; i < su; ++i) for (long j = 0; j < sv; ++j)
                g->mask[wrap(i + gu / 2 - su / 2 - ou, gu) * gv + wrap(j + gv / 2 - sv / 2 - ov, gv)] = 1;
        }
    }
    void run(int) override
    {
        if (add) L("sdp_gridder_subgrid_add", [&] { sdp_gridder_subgrid_add(g->mem, ou, ov, s->mem, f, st); });
        else L("sdp_gridder_subgrid_cut_out", [&] { sdp_gridder_subgrid_cut_out(g->mem, ou, ov, s->mem, st); });
    }
    bool model() override
    {
        std::vector<cd> w(gu * gv);
        if (add) for (int64_t e = 0; e < gu * gv; ++e) w[e] = g->get_snap(e);
        for (long i = 0; i < su; ++i) for (long j = 0; j < sv; ++j)
        {
            if (add)
            {
                long k = wrap(i + gu / 2 - su / 2 - ou, gu) * gv + wrap(j + gv / 2 - sv / 2 - ov, gv);
                w[k] += s->get(s->idx(i, j)) * f;
            }
            else
            {
                cd v = g->get(g->idx(wrap(i + gu / 2 - su / 2 + ou, gu), wrap(j + gv / 2 - sv / 2 + ov, gv)));
                if (!close(s, s->idx(i, j), v, 0, "cut_out")) return false;
            }
        }
        if (add) for (int64_t e = 0; e < gu * gv; ++e) if (!close(g, e, w[e], 16 * eps_of(flt), "subgrid_add")) return false;
        return true;
    }
};
REGISTER_OPW(OpSubgrid, "subgrid_add_cut", "C05 misfit", 1.5);

struct OpShift : Op
{
    long k, n; bool dbl; Arr* s;
    void gen() override
    {
        k = P.size("planes", 1, 6); n = P.size("n", 1, 20); dbl = P.b("dbl");
        s = out("subgrids", cplx(dbl), {k, n, n}, LAYOUT_ANY); fill(s, -1, 1);
        s->mask.assign(k * n * n, 1);
        for (int64_t e = (k - 1) * n * n; e < k * n * n; ++e) s->mask[e] = 0;
    }
    void run(int) override { L("sdp_gridder_shift_subgrids", [&] { sdp_gridder_shift_subgrids(s->mem, st); }); }
    bool model() override
    {
        for (int64_t e = 0; e < (k - 1) * n * n; ++e) if (!close(s, e, s->get_snap(e + n * n), 0, "shift")) return false;
        return true;
    }
};
REGISTER_OP(OpShift, "shift_subgrids", "C05");

struct OpFlmn : Op
{
    int t; long nl, nm; double theta, hu, hv; bool flux, tap; Arr *im, *taper = nullptr, *fl = nullptr, *lmn; long cnt;
    void gen() override
    {
        static const sdp_MemType T[5][2] = {{SDP_MEM_DOUBLE, SDP_MEM_DOUBLE}, {SDP_MEM_FLOAT, SDP_MEM_FLOAT},
            {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_DOUBLE}, {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_FLOAT}, {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_DOUBLE}};
        t = (int) P.i("type", 0, 4); nl = P.size("nl", 1, 16); nm = P.size("nm", 1, 16); theta = P.d("theta", 0.001, 0.3);
        bool sh = P.b("shear", 0.4); hu = sh ? P.d("hu", -0.2, 0.2) : 0; hv = sh ? P.d("hv", -0.2, 0.2) : 0;
        flux = P.b("flux", 0.6); tap = P.b("taper");
        im = in("image", T[t][0], {nl, nm}, LAYOUT_ANY);
        Rng r = P.rng("im"); double p = P.d("p", 0, 1);
        if (!im->shared) for (int64_t e = 0; e < nl * nm; ++e) im->set(e, r.chance(p) ? cd(r.uni(.1, 1), r.uni(-1, 1)) : cd());
        cnt = 0; for (int64_t e = 0; e < nl * nm; ++e) if (im->get(e) != cd()) ++cnt;
        if (!flux) cnt = nl * nm;
        if (tap) { taper = in("taper", SDP_MEM_DOUBLE, {std::max(nl, nm)}, LAYOUT_ANY); fill(taper, 0.5, 1); }
        long extra = P.i("extra", 0, 2);
        if (flux) { fl = out("flux", SDP_MEM_DOUBLE, {cnt + extra}, LAYOUT_ANY); fill(fl, 5, 6); fl->mask.assign(cnt + extra, 0); std::fill_n(fl->mask.begin(), cnt, 1); }
        lmn = out("lmn", T[t][1], {cnt + extra, 3}, LAYOUT_ANY); fill(lmn, 5, 6);
        lmn->mask.assign((cnt + extra) * 3, 0); std::fill_n(lmn->mask.begin(), cnt * 3, 1);
    }
    void run(int) override
    {
        L("sdp_gridder_image_to_flmn", [&] { sdp_gridder_image_to_flmn(im->mem, theta, hu, hv, tap ? taper->mem : nullptr, flux ? fl->mem : nullptr, lmn->mem, st); });
    }
    bool model() override
    {
        long k = 0;
        for (long i = 0; i < nl; ++i) for (long j = 0; j < nm; ++j)
        {
            cd p = im->get(im->idx(i, j));
            if (flux && p == cd()) continue;
            double l = (double) (i - nl / 2) * theta / nl, m = (double) (j - nm / 2) * theta / nm;
            double tol = lmn->is_float() ? 1e-7 : 1e-14;
            if (!close(lmn, lmn->idx(k, 0), l, tol, "image_to_flmn") || !close(lmn, lmn->idx(k, 1), m, tol, "image_to_flmn") ||
                    !close(lmn, lmn->idx(k, 2), lm_to_n_ref(l, m, hu, hv), tol, "image_to_flmn")) return false;
            if (flux && !close(fl, k, p.real() * (tap ? taper->re(i) * taper->re(j) : 1), 1e-12, "image_to_flmn")) return false;
            ++k;
        }
        return true;
    }
};
REGISTER_OP(OpFlmn, "image_to_flmn", "C05");

struct OpKernel : Op
{
    bool dbl; long n, ov; Arr *w, *k;
    void gen() override
    {
        dbl = P.b("dbl"); n = P.size("support", 1, 12); ov = P.size("oversampling", 1, 24);
        w = in("window", real_t(dbl), {n}, LAYOUT_ANY); fill(w, 0, 1);
        k = out("kernel", real_t(dbl), {ov + 1, n}, LAYOUT_ANY); fill(k, 5, 6);
    }
    void run(int) override { L("sdp_gridder_make_kernel", [&] { sdp_gridder_make_kernel(w->mem, k->mem, st); }); }
    bool model() override
    {
        for (long i = 0; i <= ov; ++i) for (long s = 0; s < n; ++s)
        {
            double u = (double) (s - n / 2) - (double) (i - ov) / ov, v = 0;
            for (long x = 0; x < n; ++x) v += w->re(x) * cos(2 * PI * u * (double) (x - n / 2) / n);
            if (!close(k, k->idx(i, s), v / n, dbl ? 1e-12 : 1e-6, "make_kernel")) return false;
        }
        return true;
    }
};
REGISTER_OP(OpKernel, "make_kernel", "C05 misfit");

struct OpPswfKernel : Op
{
    long vr, ov; int sup; Arr* k;
    void gen() override
    {
        vr = 2 * P.size("vr", 1, 7); ov = P.size("oversampling", 1, 16); sup = (int) P.pick("support", {4, 6, 8, 10});
        k = out("kernel", real_t(P.b("dbl", 0.7)), {ov + 1, vr}, LAYOUT_ANY); fill(k, 5, 6);
    }
    void run(int) override { L("sdp_gridder_make_pswf_kernel", [&] { sdp_gridder_make_pswf_kernel(sup, k->mem, st); }); }
    bool model() override
    {
        PswfRef ref(sup * (PI / 2));
        std::vector<double> win(vr);
        for (long x = 0; x < vr; ++x) win[x] = x ? ref(fabs(2.0 * (double) (x - vr / 2) / vr)) : 1e-15;
        for (long i = 0; i <= ov; ++i) for (long s = 0; s < vr; ++s)
        {
            double u = (double) (s - vr / 2) - (double) (i - ov) / ov, v = 0;
            for (long x = 0; x < vr; ++x) v += win[x] * cos(2 * PI * u * (double) (x - vr / 2) / vr);
            if (!close(k, k->idx(i, s), v / vr, k->is_float() ? 2e-6 : 1e-11, "make_pswf_kernel")) return false;
        }
        return true;
    }
};
REGISTER_OPW(OpPswfKernel, "make_pswf_kernel", "C05 misfit", 0.7);

struct OpWPattern : Op
{
    long n; double theta, hu, hv, ws; Arr* w;
    void gen() override
    {
        n = P.size("n", 1, 24); theta = P.d("theta", 0.001, 0.3); ws = P.d("w_step", -100, 100);
        bool sh = P.b("shear", 0.4); hu = sh ? P.d("hu", -0.2, 0.2) : 0; hv = sh ? P.d("hv", -0.2, 0.2) : 0;
        w = out("w_pattern", SDP_MEM_COMPLEX_DOUBLE, {n, n}, LAYOUT_ANY); fill(w, 5, 6);
    }
    void run(int) override { L("sdp_gridder_make_w_pattern", [&] { sdp_gridder_make_w_pattern((int) n, theta, hu, hv, ws, w->mem, st); }); }
    bool model() override
    {
        for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j)
        {
            double nn = lm_to_n_ref((double) (i - n / 2) * theta / n, (double) (j - n / 2) * theta / n, hu, hv);
            if (!close(w, w->idx(i, j), std::polar(1.0, 2 * PI * ws * nn), 1e-10, "w_pattern")) return false;
        }
        return true;
    }
};
REGISTER_OP(OpWPattern, "w_pattern", "C05");

struct OpGridCorr : Op
{
    bool pswf; int t; long N, nl, nm; int ol, om, woff, inv, sup, wsup; double theta, ws, hu, hv; Arr* f; bool flt;
    void gen() override
    {
        static const sdp_MemType T[4] = {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_FLOAT};
        pswf = P.b("pswf"); t = (int) P.i("type", 0, pswf ? 3 : 1); flt = t & 1;
        N = P.size("image_size", 1, 24) * 2; nl = P.size("nl", 1, N); nm = P.size("nm", 1, N);
        // Facet inside the image.
        ol = (int) P.i("off_l", nl / 2 - N / 2, N / 2 - (nl - nl / 2)); om = (int) P.i("off_m", nm / 2 - N / 2, N / 2 - (nm - nm / 2));
        theta = P.d("theta", 0.001, 0.2); ws = P.d("w_step", 1, 200); woff = (int) P.i("w_offset", -5, 5); inv = P.b("inverse");
        bool sh = P.b("shear", 0.4); hu = sh ? P.d("hu", -0.2, 0.2) : 0; hv = sh ? P.d("hv", -0.2, 0.2) : 0;
        sup = (int) P.pick("support", {4, 6, 8, 10}); wsup = (int) P.pick("w_support", {0, 4, 6, 8});
        f = out("facet", T[t], {nl, nm}, LAYOUT_ANY); fill(f, 0.5, 2);
    }
    void run(int) override
    {
        if (pswf) L("sdp_gridder_grid_correct_pswf", [&] { sdp_gridder_grid_correct_pswf((int) N, theta, ws, hu, hv, sup, wsup, f->mem, ol, om, st); });
        else L("sdp_gridder_grid_correct_w_stack", [&] { sdp_gridder_grid_correct_w_stack((int) N, theta, ws, hu, hv, f->mem, ol, om, woff, inv, st); });
    }
    bool model() override
    {
        PswfRef pl(sup * (PI / 2)), pn_(wsup * (PI / 2));
        for (long i = 0; i < nl; ++i) for (long j = 0; j < nm; ++j)
        {
            long p = i - nl / 2 + ol, q = j - nm / 2 + om;
            double l = (double) p * theta / N, m = (double) q * theta / N, n = lm_to_n_ref(l, m, hu, hv);
            cd w;
            if (pswf)
            {
                double x = fabs(n * 2 * ws), pn = 1;
                if (wsup > 0 && x < 1) pn = pn_(x);
                if (p == -N / 2 || q == -N / 2) continue; // the window vanishes at the image edge
                w = 1.0 / (pl(fabs(2.0 * p / N)) * pl(fabs(2.0 * q / N)) * pn);
            }
            else w = woff == 0 ? cd(1) : std::polar(1.0, (inv ? 1 : -1) * 2 * PI * ws * n * woff);
            cd s = f->get_snap(f->idx(i, j));
            if (!close(f, f->idx(i, j), s * w, (1 + std::abs(s * w)) * (flt ? 2e-6 : 1e-9), pswf ? "grid_correct_pswf" : "grid_correct_w_stack")) return false;
        }
        return true;
    }
};
REGISTER_OPW(OpGridCorr, "grid_correct", "C05", 1.5);
