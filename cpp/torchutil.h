#pragma once
#include <torch/torch.h>
#include "vp.h"
namespace vp {
// The same values with another memory layout.
inline at::Tensor layout(at::Tensor t, Rng& r, std::string& how) {
    switch (r.i(0, 3)) {
        case 0: how += "c"; return t.contiguous().clone();
        case 1: { how += "s"; at::Tensor o = at::stack({at::full_like(t, 1), t, at::full_like(t, 2)}, -1); return o.select(-1, 1); }          // strided view
        case 2: if (t.dim() >= 2) { how += "t"; return t.transpose(0, 1).contiguous().transpose(0, 1); } how += "c"; return t.clone();   // transposed storage
        default: { how += "o"; at::Tensor o = at::cat({at::full_like(t, 1), t}, 0); return o.slice(0, t.size(0)); }                        // offset into a bigger block
    }
}
template <class T, class G> at::Tensor fill(at::IntArrayRef sh, c10::ScalarType st, G g) { at::Tensor t = at::zeros(sh, st); T* p = t.data_ptr<T>(); for (int64_t i = 0; i < t.numel(); i++) p[i] = (T)g(i); return t; }
template <class F> c10::ScalarType stype() { return sizeof(F) == 4 ? torch::kFloat32 : torch::kFloat64; }
}
