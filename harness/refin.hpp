// Bridges parameter points and the long double reference (/verif/ref).
#pragma once
#include "ref/calc.hpp"
#include "himalaya/Himalaya_interface.hpp"
#include "himalaya/HierarchyObject.hpp"
#include <cmath>

namespace refin {
using vref::R;
/// p must be a completed point
inline vref::In in(const himalaya::Parameters& p, bool ab)
{
   vref::In x{};
   x.scale = p.scale; x.mu = p.mu; x.g3 = p.g3; x.vd = p.vd; x.vu = p.vu; x.MG = p.MG;
   x.Mf = ab ? p.Mb : p.Mt; x.M1 = ab ? p.MSb(0) : p.MSt(0); x.M2 = ab ? p.MSb(1) : p.MSt(1); x.s2 = ab ? p.s2b : p.s2t;
   x.Msq = std::sqrt(std::abs((R)p.calculateMsq2()));
   x.Af = ab ? p.Ad(2,2) : p.Au(2,2); x.At = p.Au(2,2); x.Mt = p.Mt; x.MSt1 = p.MSt(0); x.MSt2 = p.MSt(1);
   return x;
}
inline vref::ExpansionFlags_t flags(int v = 1) { vref::ExpansionFlags_t f; f.fill(v); return f; }
inline const char* name(int h)
{
   static const char* n[] = {"h3", "h32q2g", "h3q22g", "h4", "h5", "h5g1", "h6", "h6b", "h6b2qg2", "h6bq22g", "h6bq2g2", "h6g2", "h9", "h9q2"};
   return h >= 0 && h < 14 ? n[h] : "none";
}
} // namespace refin
