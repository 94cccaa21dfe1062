#include "ref/calc.hpp"
#include "ref/constants.hpp"
#include <stdexcept>
#include "ref/hierarchies/H3.hpp"
#include "ref/hierarchies/H32q2g.hpp"
#include "ref/hierarchies/H3q22g.hpp"
#include "ref/hierarchies/H4.hpp"
#include "ref/hierarchies/H5.hpp"
#include "ref/hierarchies/H5g1.hpp"
#include "ref/hierarchies/H6.hpp"
#include "ref/hierarchies/H6g2.hpp"
#include "ref/hierarchies/H6b.hpp"
#include "ref/hierarchies/H6b2qg2.hpp"
#include "ref/hierarchies/H6bq22g.hpp"
#include "ref/hierarchies/H6bq2g2.hpp"
#include "ref/hierarchies/H9.hpp"
#include "ref/hierarchies/H9q2.hpp"

namespace vref {
using namespace hierarchies;
enum { h3, h32q2g, h3q22g, h4, h5, h5g1, h6, h6b, h6b2qg2, h6bq22g, h6bq2g2, h6g2, h9, h9q2 };

Masses mdrMasses2(const In& p, int h, int one, int two)
{
   const R a = oneLoop*p.g3*p.g3, q = pow2(p.Msq), g = pow2(p.MG), s2 = pow2(p.scale);
   const R m1 = pow2(p.M1), m2 = pow2(p.M2), lq = log(s2/q), l2 = log(s2/m2), lg = log(s2/g), D = p.MG - p.M2;
   // terms of two heavy squarks
   R d1 = -R(8)/3*two*a*a*(10*q*(2*lq - 1 + 2*z2) + m2*(2*l2 - 1 + 2*z2));
   R d2 = -R(80)/3*two*a*a*q*(2*lq - 1 + 2*z2);
   R c = 0;
   if (h == h6 || h == h6g2) {
      c = R(16)/3*one*a*(1 + lg)*g;
      c += two*a*a*(-5*(67 + 84*(lg - lq))*pow3(g)/(27*q*q) - R(40)/27*(43 + 30*(lg - lq))*g*g/q + R(32)/3*p.MG*D*(1 - 2*z2)
         + R(4)/9*g*(79 + 144*lg*lg - 150*lq + 90*lq*lq - 90*lg*(2*lq - 3) + 208*z2));
   } else if (h == h6b || h == h6b2qg2 || h == h6bq22g || h == h6bq2g2) {
      c = R(16)/3*one*a*(1 + lg)*g;
      c += R(8)/9*two*a*a*(-135*q + 12*D*p.MG*(1 - 22*z2) + g*(77 + 135*lg + 72*lg*lg - 75*lq - 90*lg*lq + 45*lq*lq + 104*z2));
   }
   return {m1 + d1 + c, m2 + d2 + c};
}

Masses mdrMasses(const In& p, int h, int one, int two)
{
   if (!one && !two) return {p.M1, p.M2};
   const Masses m = mdrMasses2(p, h, one, two);
   return {sqrt(m.m1), sqrt(m.m2)};
}

template <class F> static void with(const In& p, int h, int loop, int mdr, const ExpansionFlags_t& x, const Masses& m, F f)
{
   const R b = std::atan(p.vu/p.vd), a = oneLoop*p.g3*p.g3, M1 = m.m1, M2 = m.m2;
   const auto lm = [&](R y) { return 2*log(p.scale/y); };
   const R g1 = p.MG - M1, g2 = p.MG - M2, q1 = pow2(p.Msq) - pow2(M1), q2 = p.Msq - M2, d = pow2(M1) - pow2(M2);
   const int o = loop == 1, t = loop == 2, th = loop == 3;
   const R lf = lm(p.Mf), l1 = lm(M1), l2 = lm(M2), lq = lm(p.Msq), lg = lm(p.MG);
   switch (h) {
   case h3: f(H3(x, a, b, g1, d, q1, lf, l1, p.MG, p.Mf, M1, M2, p.Msq, p.mu, p.s2, mdr, o, t, th)); break;
   case h32q2g: f(H32q2g(x, a, b, g1, d, q1, lf, l1, p.Mf, M1, M2, p.mu, p.s2, mdr, o, t, th)); break;
   case h3q22g: f(H3q22g(x, a, b, g1, d, q1, lf, l1, p.Mf, M1, M2, p.Msq, p.mu, p.s2, mdr, o, t, th)); break;
   case h4: { const R S = (M1 + M2 + p.MG)/3; f(H4(x, a, p.Af, b, lf, lq, lm(S), p.Mf, S, p.Msq, mdr, o, t, th)); break; }
   case h5: f(H5(x, a, b, g1, lf, l1, l2, lq, p.Mf, M1, M2, p.Msq, p.mu, p.s2, mdr, o, t, th)); break;
   case h5g1: f(H5g1(x, a, b, g1, lf, l1, l2, lq, p.MG, p.Mf, M1, M2, p.Msq, p.mu, p.s2, mdr, o, t, th)); break;
   case h6: f(H6(x, a, b, g2, lf, l1, l2, lq, p.Mf, M1, M2, p.Msq, p.mu, p.s2, mdr, o, t, th)); break;
   case h6g2: f(H6g2(x, a, b, g2, lf, l1, l2, lq, p.MG, p.Mf, M1, M2, p.Msq, p.mu, p.s2, mdr, o, t, th)); break;
   case h6b: f(H6b(x, a, b, g2, q2, lf, l1, l2, p.Mf, M1, M2, p.mu, p.s2, mdr, o, t, th)); break;
   case h6b2qg2: f(H6b2qg2(x, a, b, g2, q2, lf, l1, l2, p.MG, p.Mf, M1, M2, p.mu, p.s2, mdr, o, t, th)); break;
   case h6bq22g: f(H6bq22g(x, a, b, g2, q2, lf, l1, l2, p.Mf, M1, M2, p.Msq, p.mu, p.s2, mdr, o, t, th)); break;
   case h6bq2g2: f(H6bq2g2(x, a, b, g2, q2, lf, l1, l2, p.MG, p.Mf, M1, M2, p.Msq, p.mu, p.s2, mdr, o, t, th)); break;
   case h9: f(H9(x, a, b, d, q1, lf, lg, l1, p.MG, p.Mf, M1, M2, p.mu, p.s2, mdr, o, t, th)); break;
   case h9q2: f(H9q2(x, a, b, d, q1, lf, lg, l1, p.MG, p.Mf, M1, M2, p.Msq, p.mu, p.s2, mdr, o, t, th)); break;
   default: throw std::runtime_error("no such hierarchy");
   }
}

Sym selfEnergy(const In& p, int h, int loop, int mdr, const ExpansionFlags_t& x, const Masses& m)
{
   Sym r{};
   with(p, h, loop, mdr, x, m, [&](const auto& k) { r = {k.getS1(), k.getS12(), k.getS2()}; });
   return r;
}

Sym calculateHierarchy(const In& p, int h, int mdr, int l1, int l2, int l3, const ExpansionFlags_t& x)
{
   Sym s{0, 0, 0};
   const int on[4] = {0, l1, l2, l3};
   const R pref = 3/(2*pow2(Pi*p.vu));
   for (int l = 1; l <= 3; ++l) {
      if (!on[l]) continue;
      const Sym c = selfEnergy(p, h, l, mdr, x, mdrMasses(p, h, l > 1 ? mdr : 0, l > 2 ? mdr : 0));
      s.a11 += pref*c.a11; s.a12 += pref*c.a12; s.a22 += pref*c.a22;
   }
   return s;
}

Logs lambdaLogs(const In& p, int h, int mdr, const ExpansionFlags_t& x)
{
   Logs r{};
   const Masses m = mdrMasses(p, h, mdr, mdr);
   with(p, h, 3, mdr, x, m, [&](const auto& k) {
      r.c[0] = k.calc_coef_at_as2_no_sm_logs_log0(); r.c[1] = k.calc_coef_at_as2_no_sm_logs_log1();
      r.c[2] = k.calc_coef_at_as2_no_sm_logs_log2(); r.c[3] = k.calc_coef_at_as2_no_sm_logs_log3(); });
   r.lm1 = 2*log(p.scale/m.m1);
   return r;
}

/// effective potential of the (s)tops: V = 3/(32 pi^2) sum (-) m^4 (log m^2/Q^2 - 3/2);
/// its second derivatives with respect to the two fields give O(at)
static R g0(R a, R b)
{
   // (a - b)-expansion of  2 - (a+b)/(a-b) log(a/b), divided by (a - b)^2
   const R e = (a - b)/(a + b);
   if (std::abs(e) < 0.05L) { R s = 0, t = 1, e2 = e*e; for (int k = 1; k < 30; ++k) { s += t/(2*k + 1); t *= e2; } return -2*s/pow2(a + b); }
   return (2 - (a + b)/(a - b)*log(a/b))/pow2(a - b);
}

Sym oneLoopAt(const In& p, R m1, R m2)
{
   // Ellis, Ridolfi, Zwirner (1991): D-terms neglected
   const R tb = p.vu/p.vd, a = m1*m1, b = m2*m2, t2 = pow2(p.Mf), d = a - b;
   const R A = p.s2*d/(2*p.Mf) + p.mu/tb;        // A_f of the mixing angle
   const R L = log(a/b), G = g0(a, b)*d*d;        // 2 - (a+b)/(a-b) log(a/b)
   // second derivatives, in units of 3/(4 pi^2 vu^2)
   const R XG = p.mu*p.Mf*p.s2/2;                 // mu m_t^2 X/d
   Sym r;
   r.a11 = pow2(XG)*G;
   const R at = A*p.Mf*p.s2/2;                    // A m_t^2 X/d
   r.a12 = -XG*(t2*L + at*G);
   r.a22 = t2*t2*(log(a*b) - 4*log(p.Mf)) + 2*t2*at*L + at*at*G;
   const R pref = 3/(4*pow2(Pi*p.vu));
   return {pref*r.a11, pref*r.a12, pref*r.a22};
}

/// change of the one-loop O(at) correction when both squared stop masses (not the mixing) are shifted
Sym shiftH3m(const In& p, int h, R m1, R m2)
{
   const bool noXt = h == h4, trunc = h == h3 || h == h32q2g || h == h3q22g || h == h9 || h == h9q2;
   const R tb = p.vu/p.vd, X = noXt ? 0 : p.At - p.mu/tb, mu = p.mu, a = m1*m1, b = m2*m2, s = pow2(p.scale);
   const auto lm = [&](R y) { return 1 + log(s/y); };
   const R q = pow2(p.Msq), g = pow2(p.MG), dm = 16*(-6*lm(g)*g + 10*lm(q)*q + lm(a)*a + lm(b)*b)/(a*b);
   // u = (a^2 - b^2 - 2 a b log(a/b))/(a - b)^3
   const R e = (a - b)/(a + b);
   R u;
   if (std::abs(e) < 0.05L) {
      // with a = S(1+e), b = S(1-e): u = (4 e - 2(1-e^2) 2 atanh e)/(8 e^3 S)
      R sum = 0, t = 1; for (int k = 1; k < 30; ++k) { sum += t*(1/R(2*k - 1) - 1/R(2*k + 1)); t *= e*e; }
      u = 4*sum/(8*(a + b)/2);
   } else u = (a*a - b*b - 2*a*b*log(a/b))/pow3(a - b);
   const R T = trunc ? 0 : 1;
   Sym r;
   r.a11 = dm*X*X*mu*mu*u;
   r.a12 = dm*(mu*X - u*(mu*mu*X*X/tb + mu*X*X*X));
   r.a22 = dm*(a + b - 2*X*X - 2*mu*X/tb + u*(mu*mu*X*X/(tb*tb) + 2*mu*X*X*X/tb + T*pow4(X)));
   const R pref = threeLoop*pow2(p.g3*p.g3*p.Mt*sqrt2*p.Mt/p.vu);
   return {pref*r.a11, pref*r.a12, pref*r.a22};
}

R shiftH3mMh2(const In& p, int h, int logs)
{
   const bool noXt = h == h4, trunc = h == h3 || h == h32q2g || h == h3q22g || h == h9 || h == h9q2;
   const R tb = p.vu/p.vd, X = noXt ? 0 : p.At - p.mu/tb, a = pow2(p.MSt1), b = pow2(p.MSt2);
   const R s = logs ? pow2(p.scale) : a;
   const auto lm = [&](R y) { return 1 + log(s/y); };
   const R q = pow2(p.Msq), g = pow2(p.MG), dm = 16*(-6*lm(g)*g + 10*lm(q)*q + lm(a)*a + lm(b)*b)/(a*b);
   const R e = (a - b)/(a + b);
   R u;
   if (std::abs(e) < 0.05L) { R sum = 0, t = 1; for (int k = 1; k < 30; ++k) { sum += t*(1/R(2*k - 1) - 1/R(2*k + 1)); t *= e*e; } u = sum/(a + b); }
   else u = (a*a - b*b - 2*a*b*log(a/b))/pow3(a - b);
   return dm*(a + b - 2*X*X + (trunc ? 0 : 1)*pow4(X)*u);
}
} // namespace vref
