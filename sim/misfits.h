// Arrays which a call refuses when they do not fit the others, of the
// operations that do not refuse every misfit of every array. One letter per
// kind: strides with padded rows (p), permuted axes (m) or gaps (g), a shorter
// (s) or longer (l) dimension, another type (t), another number of dimensions (d).
#ifndef SIM_MISFITS_H_
#define SIM_MISFITS_H_
#include <string>
#include <utility>
#include <vector>
namespace sim {
inline const char* misfits_of(const std::string& op)
{
    static const char* const T[][2] = {
        {"accumulate_scaled", "in1:d in2:t out:d"},
        {"clamp_channels", "uvws:t end_ch_in:d end_ch_out0:d end_ch_out1:d end_ch_out2:d start_ch_in:d start_ch_out0:d start_ch_out1:d start_ch_out2:d"},
        {"clean", "dirty:t psf:t scales:t sky:t"},
        {"count_nonzero", "image:d"},
        {"degrid_all", "image:d uvws:td vis:td"},
        {"degrid_custom", "grid:td uv_kernel:t uvw:pmgsltd vis:sltd w_kernel:t"},
        {"direct_degrid", "end_chs:td start_chs:td subgrid_image:td uvws:td vis:td"},
        {"direct_grid", "end_chs:td start_chs:td subgrid_image0:td uvws:td vis:td"},
        {"examples", "a:slt b:slt"},
        {"fft_convolution", "in1:sltd in2:sltd out:sltd"},
        {"grid_all", "image:d uvws:td vis:td"},
        {"grid_correct", "facet:d"},
        {"gridder_dft", "end_chs:td flux:td lmn:td start_chs:td uvws:td vis:td"},
        {"gridder_idft", "end_chs:td image:td lmn:td start_chs:td taper:td uvws:td vis:td"},
        {"image_to_flmn", "flux:td lmn:td taper:td"},
        {"phase_rotate", "uvw:sltd uvw_out:pmgsltd vis_in:pmgsltd vis_out:sltd"},
        {"plan_correct", "facet:d"},
        {"pswf", "pswf:d"},
        {"scale_inv", "in1:td in2:td out:td"},
        {"shift_subgrids", "subgrids:td"},
        {"subgrid_degrid", "end_chs:td start_chs:td subgrid_image:td uvws:td vis:td"},
        {"subgrid_grid", "end_chs:td start_chs:td subgrid_image0:d uvws:td vis:td"},
        {"tiled", "uvw:pmsltd"},
        {"uvw_bounds", "end_chs:td start_chs:td uvws:td"},
        {"w_pattern", "w_pattern:td"},
        {"weighting", "freq:t grid:td uvw:pmgsltd weights_in:d weights_out:td"},
    };
    for (auto& t : T) if (op == t[0]) return t[1];
    return nullptr;
}
// Every (array, kind) of an operation, kinds numbered as in the letters "pmgsltd".
inline std::vector<std::pair<std::string, int>> misfit_list(const char* s)
{
    std::vector<std::pair<std::string, int>> v;
    std::string name, w;
    for (;; ++s)
    {
        if (*s == ':') { name = w; w.clear(); }
        else if (*s && *s != ' ') w += *s;
        else
        {
            for (char c : w) v.push_back({name, (int) std::string("pmgsltd").find(c)});
            w.clear();
        }
        if (!*s) return v;
    }
}
} // namespace sim
#endif
