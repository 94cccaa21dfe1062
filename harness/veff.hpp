// Two-loop effective potential of the MSSM without electroweak gauge
// couplings, from the general formulas (all cubic and quartic couplings are
// generated from the superpotential and the soft terms), and the two-loop
// corrections to the CP-even Higgs mass matrix as its derivatives.
// Written independently of the library; long double precision.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <vector>

namespace ve {
typedef long double R;
typedef std::complex<R> C;
inline R sq(R x) { return x*x; }
const R PI = 3.14159265358979323846264338327950288L;

inline R li2series(R x) // -1 <= x <= 1/2
{
   static const R b[] = {1/6.L, -1/30.L, 1/42.L, -1/30.L, 5/66.L, -691/2730.L, 7/6.L, -3617/510.L, 43867/798.L, -174611/330.L, 854513/138.L, -236364091/2730.L, 8553103/6.L};
   const R u = -std::log1p(-x), u2 = u*u; R s = u - u2/4, t = u;
   for (int k = 1; k <= 13; ++k) { t *= u2/((2*k)*(2*k + 1)); s += b[k-1]*t; }
   return s;
}
inline R li2(R x) // x <= 1
{
   if (x >= 1) return PI*PI/6;
   if (x < -1) { const R l = std::log(-x); return -PI*PI/6 - l*l/2 - li2(1/x); }
   if (x > 0.5L) return PI*PI/6 - std::log(x)*std::log1p(-x) - li2series(1 - x);
   return li2series(x);
}
inline R cl2(R t)
{
   t = std::remainder(t, 2*PI);
   if (t == 0) return 0;
   const R s = t < 0 ? -1 : 1; t = std::abs(t);
   static const R b[] = {1/6.L, 1/30.L, 1/42.L, 1/30.L, 5/66.L, 691/2730.L, 7/6.L, 3617/510.L, 43867/798.L, 174611/330.L, 854513/138.L, 236364091/2730.L, 8553103/6.L, 23749461029/870.L, 8615841276005/14322.L, 7709321041217/510.L};
   R r = t*(1 - std::log(t)), p = t, add;
   const R t2 = t*t;
   for (int k = 1; k <= 16; ++k) { p *= t2/((2*k)*(2*k + 1)); r += add = b[k-1]*p/(2*k); }
   // tail of the series (geometric with ratio (t/2 pi)^2)
   R q = p/(2*16)*b[15];
   for (int k = 17; k < 60; ++k) { q *= t2/(4*PI*PI)*(2.L*(k - 1))/(2.L*k)*(2.L*k - 1)/(2.L*k + 1)*(2.L*k)/(2.L*k - 1)*1; r += q; if (q < 1e-22L) break; }
   return s*r;
}

struct Loop {
   R q2;
   R ln(R x) const { return std::log(x/q2); }
   R J(R x) const { return x <= 0 ? 0 : x*(ln(x) - 1); }
   R I(R x, R y, R z) const
   {
      if (x > y) std::swap(x, y);
      if (y > z) std::swap(y, z);
      if (x > y) std::swap(x, y);
      if (z <= 0) return 0;
      const R tiny = 1e-24L*z;
      if (y <= tiny) { const R l = ln(z); return z*(-l*l/2 + 2*l - 2.5L - PI*PI/6); }
      if (x <= tiny) {
         const R lx = ln(z), ly = ln(y);
         if (z == y) return z*(-lx*lx + 4*lx - 5);
         return (z - y)*(li2(y/z) - (lx - ly)*ln(z - y) + lx*lx/2 - PI*PI/6) - 2.5L*(z + y) + 2*z*lx + 2*y*ly - z*lx*ly;
      }
      const R lx = ln(x), ly = ln(y), lz = ln(z);
      const R lam = sq(z - x - y) - 4*x*y;
      R xi = 0;
      if (lam > 0) {
         const R r = std::sqrt(lam), a = 2*x/(z + x - y + r), b = 2*y/(z + y - x + r);
         xi = r*(2*std::log(a)*std::log(b) - std::log(x/z)*std::log(y/z) - 2*li2(a) - 2*li2(b) + PI*PI/3);
      } else if (lam < 0) {
         const R r = std::sqrt(-lam);
         const auto ang = [&](R c) { return 2*std::atan2(r, c); };
         xi = -2*r*(cl2(ang(x + y - z)) + cl2(ang(z + x - y)) + cl2(ang(z + y - x)));
      }
      return ((x - y - z)*ly*lz + (y - x - z)*lx*lz + (z - x - y)*lx*ly)/2 + 2*(x*lx + y*ly + z*lz) - 2.5L*(x + y + z) - xi/2;
   }
   R fFFS(R x, R y, R z) const { return J(x)*J(y) - J(x)*J(z) - J(y)*J(z) + (x + y - z)*I(x, y, z); }
};

/// DR' parameters; yt, yb, ytau as in W = yt Q Hu tc + ..., v normalised as in the library
struct Input { R g3, MG, yt, yb, ytau, vu, vd, mu, At, Ab, Atau, mq2, mu2, md2, ml2, me2, MA, scale; };

/// 2x2 symmetric matrix (a b; b c): eigenvalues and angle, state 0 = (c, s), state 1 = (-s, c)
struct Mix { R m[2], c, s; };
inline Mix mix(R a, R b, R d)
{
   const R th = b == 0 ? 0 : 0.5L*std::atan2(2*b, a - d), c = std::cos(th), s = std::sin(th);
   const R h = (a - d)/2, r = (a >= d ? 1 : -1)*(b == 0 ? std::abs(h) : std::hypot(h, b));
   // th in (-pi/4, pi/4] for a > d, otherwise beyond
   const R up = (a + d)/2 + std::hypot(h, b), dn = (a + d)/2 - std::hypot(h, b);
   if (b == 0) return {{a, d}, 1, 0};
   (void)r; return {{up, dn}, c, s};
}

/// O(strong coupling) part for one quark flavour with squared mass t and scalar mass matrix, in units of g3^2 kappa^2
inline R strong(const Loop& L, R y, R phi, R a, R b, R d, R mg)
{
   const R m = y*phi/std::sqrt((R)2), t = m*m, g = mg*mg;
   const Mix x = mix(a, b, d);
   const R T1 = x.m[0], T2 = x.m[1], s2 = 2*x.s*x.c, c2 = x.c*x.c - x.s*x.s;
   const R Jt = L.J(t), J1 = L.J(T1), J2 = L.J(T2);
   R v = 2*Jt*Jt - 4*t*L.I(t, t, 0);                                          // quark and gluon
   for (R T : {T1, T2}) { const R J = L.J(T); v += (4*T*T + 6*T*L.I(T, T, 0) + 3*J*J - 4*T*J)/2; } // squark and gluon
   v += (c2*c2*(J1*J1 + J2*J2) + 2*s2*s2*J1*J2)/2;                            // quartic
   v += 2*(L.fFFS(t, g, T1) + L.fFFS(t, g, T2));                              // gluino
   v += -2*m*mg*s2*2*(L.I(t, g, T1) - L.I(t, g, T2));
   return 4*v;
}

/// Yukawa part of the potential, in units of kappa^2
class Yukawa {
   static constexpr int NF = 19, NS = 38;
   // fields: Qu 0-2, Qd 3-5, tc 6-8, bc 9-11, Hu+ 12, Hu0 13, Hd0 14, Hd- 15, nu 16, e 17, ec 18
   struct Term { int a, b, c; R w, A; };
   std::vector<Term> W; ///< ordered triples
   Input x; Loop L;
   R mHu2, mHd2, B;
   struct St { int i; R u; };
   std::array<std::vector<St>, NS> of; ///< mass eigenstates contained in a real field
   std::array<R, NS> m2;
   std::array<int, NS> cls;
   std::array<std::vector<St>, NF> fof; std::array<R, NF> mf; std::array<int, NF> fcls;
   std::vector<R> masses, fmasses;

   void term(int a, int b, int c, R w, R A)
   {
      const int p[6][3] = {{a,b,c},{a,c,b},{b,a,c},{b,c,a},{c,a,b},{c,b,a}};
      for (auto& q : p) W.push_back({q[0], q[1], q[2], w, A});
   }
   int id(std::vector<R>& v, R m) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == m) return (int)i; v.push_back(m); return (int)v.size() - 1; }
   /// real fields f, g with mass matrix (a b; b d)
   void pair(int f, int g, R a, R b, R d)
   {
      const Mix m = mix(a, b, d);
      of[f] = {{f, m.c}, {g, -m.s}}; of[g] = {{f, m.s}, {g, m.c}};
      m2[f] = m.m[0]; m2[g] = m.m[1];
   }
public:
   Yukawa(const Input& x, R B_, R mHu, R mHd) : x(x), L{x.scale*x.scale}, mHu2(mHu), mHd2(mHd), B(B_)
   {
      for (int c = 0; c < 3; ++c) {
         if (x.yt != 0) { term(c, 13, 6 + c, x.yt, x.At); term(3 + c, 12, 6 + c, -x.yt, x.At); }
         if (x.yb != 0) { term(c, 15, 9 + c, -x.yb, x.Ab); term(3 + c, 14, 9 + c, x.yb, x.Ab); }
      }
      if (x.ytau != 0) { term(16, 15, 18, -x.ytau, x.Atau); term(17, 14, 18, x.ytau, x.Atau); }
   }
   /// V(2) at the background values pd, pu (v convention)
   R V(R pd, R pu)
   {
      const R s2 = std::sqrt((R)2), hd = pd/s2, hu = pu/s2;
      const R t = sq(x.yt*hu), b = sq(x.yb*hd), l = sq(x.ytau*hd);
      const R xt = x.yt*(x.At*hu - x.mu*hd), xb = x.yb*(x.Ab*hd - x.mu*hu), xl = x.ytau*(x.Atau*hd - x.mu*hu);
      masses.clear(); fmasses.clear();
      for (auto& o : of) o.clear();
      for (int c = 0; c < 3; ++c) for (int k = 0; k < 2; ++k) {
         const R s = k ? -1 : 1; // imaginary parts
         pair(2*c + k, 2*(6 + c) + k, x.mq2 + t, s*xt, x.mu2 + t);
         pair(2*(3 + c) + k, 2*(9 + c) + k, x.mq2 + b, s*xb, x.md2 + b);
      }
      for (int k = 0; k < 2; ++k) {
         const R s = k ? -1 : 1;
         pair(2*17 + k, 2*18 + k, x.ml2 + l, s*xl, x.me2 + l);
         of[2*16 + k] = {{2*16 + k, 1}}; m2[2*16 + k] = x.ml2;
         pair(2*14 + k, 2*13 + k, mHd2 + sq(x.mu), -s*B, mHu2 + sq(x.mu));
         pair(2*15 + k, 2*12 + k, mHd2 + sq(x.mu), s*B, mHu2 + sq(x.mu));
      }
      // exactly massless Goldstone and light Higgs bosons
      for (int f : {12, 13, 14, 15}) for (int k = 0; k < 2; ++k) { R& m = m2[2*f + k]; m = std::abs(m) < sq(x.MA)/2 ? 0 : sq(x.MA); }
      for (int i = 0; i < NS; ++i) cls[i] = id(masses, m2[i]);
      const auto fermions = [&](int f, int g, R m) { const R h = 1/s2; fof[f] = {{f, h}, {g, h}}; fof[g] = {{f, h}, {g, -h}}; mf[f] = m; mf[g] = -m; };
      for (int c = 0; c < 3; ++c) { fermions(c, 6 + c, x.yt*hu); fermions(3 + c, 9 + c, x.yb*hd); }
      fermions(17, 18, x.ytau*hd); fermions(12, 15, x.mu); fermions(13, 14, -x.mu); fof[16] = {{16, 1}}; mf[16] = 0;
      for (int i = 0; i < NF; ++i) fcls[i] = id(fmasses, sq(mf[i]));

      // dF_k/dphi_a at the background and d2F_k; F_k = dW/dphi_k
      R bg[NF] = {}; bg[13] = hu; bg[14] = hd;
      struct F2 { int i, j; C v; };
      static thread_local std::vector<F2> f2[NF]; static thread_local std::vector<std::pair<int,C>> f1[NF];
      C d1[NF][NS]; for (auto& r : d1) for (C& z : r) z = 0;
      for (int k = 0; k < NF; ++k) { f2[k].clear(); f1[k].clear(); }
      static thread_local std::vector<C> acc(NS*NS); 
      const auto unit = [&](int k) { return k ? C(0, 1/s2) : C(1/s2, 0); };
      static thread_local std::vector<std::vector<Term>> byk(NF); for (auto& v : byk) v.clear();
      for (const Term& w : W) byk[w.a].push_back(w);
      for (int k = 0; k < NF; ++k) {
         static thread_local std::vector<int> touched; touched.clear();
         for (const Term& w : byk[k]) {
            for (int p = 0; p < 2; ++p) {
               // first derivative: sum over ordered (b,c) of w phi_b phi_c / 2 -> w * bg_b for each ordered pair
               for (const St& s : of[2*w.c + p]) d1[k][s.i] += w.w*bg[w.b]*unit(p)*s.u;
               for (int q = 0; q < 2; ++q) for (const St& s : of[2*w.b + p]) for (const St& u : of[2*w.c + q]) { C& z = acc[s.i*NS + u.i]; if (z == C(0)) touched.push_back(s.i*NS + u.i); z += w.w*unit(p)*unit(q)*s.u*u.u; }
            }
         }
         std::sort(touched.begin(), touched.end()); touched.erase(std::unique(touched.begin(), touched.end()), touched.end());
         for (int n : touched) { if (std::norm(acc[n]) > 1e-60L) f2[k].push_back({n/NS, n%NS, acc[n]}); acc[n] = 0; }
      }
      // mu terms: W = mu (Hu+ Hd- - Hu0 Hd0)
      const auto muterm = [&](int k, int a, R s) { for (int p = 0; p < 2; ++p) for (const St& u : of[2*a + p]) d1[k][u.i] += s*x.mu*unit(p)*u.u; };
      muterm(12, 15, 1); muterm(15, 12, 1); muterm(13, 14, -1); muterm(14, 13, -1);
      for (int k = 0; k < NF; ++k) for (int i = 0; i < NS; ++i) if (std::norm(d1[k][i]) > 0) f1[k].push_back({i, d1[k][i]});

      // quartic: lambda_iijj = 2 Re(F_ii F_jj^*) + 4 |F_ij|^2
      R v = 0;
      for (int k = 0; k < NF; ++k) {
         C tr = 0; for (auto& e : f2[k]) { if (e.i == e.j) tr += e.v*L.J(m2[e.i]); v += std::norm(e.v)*4*L.J(m2[e.i])*L.J(m2[e.j])/8; }
         v += 2*std::norm(tr)/8;
      }
      // cubic
      static thread_local std::vector<R> cub(NS*NS*NS); static thread_local std::vector<int> tc; tc.clear();
      const auto add3 = [&](int i, int j, int k, R z) { const int n = (i*NS + j)*NS + k; if (cub[n] == 0) tc.push_back(n); cub[n] += z; };
      for (int k = 0; k < NF; ++k) for (auto& a : f1[k]) for (auto& e : f2[k]) {
         const R z = 2*std::real(std::conj(a.second)*e.v); if (z == 0) continue;
         add3(a.first, e.i, e.j, z); add3(e.i, a.first, e.j, z); add3(e.i, e.j, a.first, z);
      }
      for (const Term& w : W) for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) for (int r = 0; r < 2; ++r) {
         const R z = 2*std::real(unit(p)*unit(q)*unit(r))*w.w*w.A; if (std::abs(z) < 1e-30L) continue;
         for (const St& a : of[2*w.a + p]) for (const St& b : of[2*w.b + q]) for (const St& c : of[2*w.c + r]) add3(a.i, b.i, c.i, z*a.u*b.u*c.u);
      }
      const int nm = (int)masses.size(), nf = (int)fmasses.size();
      std::vector<R> w3(nm*nm*nm, 0);
      for (int n : tc) { const R z = cub[n]; if (z != 0) { const int i = n/NS/NS, j = n/NS%NS, k = n%NS; int c[3] = {cls[i], cls[j], cls[k]}; std::sort(c, c + 3); w3[(c[0]*nm + c[1])*nm + c[2]] += z*z; } cub[n] = 0; }
      for (int i = 0; i < nm; ++i) for (int j = i; j < nm; ++j) for (int k = j; k < nm; ++k) { const R z = w3[(i*nm + j)*nm + k]; if (z != 0) v -= z/12*L.I(masses[i], masses[j], masses[k]); }
      // fermions: y_{ab,i} = W_abc dphi_c
      static thread_local std::vector<C> y(NF*NF*NS); static thread_local std::vector<int> ty; ty.clear();
      for (const Term& w : W) for (int p = 0; p < 2; ++p) for (const St& s : of[2*w.c + p]) for (const St& f : fof[w.a]) for (const St& g : fof[w.b]) {
         const int n = (f.i*NF + g.i)*NS + s.i; if (y[n] == C(0)) ty.push_back(n); y[n] += w.w*unit(p)*s.u*f.u*g.u; }
      std::vector<R> wa(nf*nf*nm, 0), wb(nf*nf*nm, 0);
      for (int n : ty) { const C z = y[n]; if (z != C(0)) { const int a = n/NS/NF, b = n/NS%NF, i = n%NS; int f = fcls[a], h = fcls[b]; if (f > h) std::swap(f, h);
         const int m = (f*nf + h)*nm + cls[i]; wa[m] += std::norm(z); wb[m] += std::real(z*z)*mf[a]*mf[b]; } y[n] = 0; }
      for (int f = 0; f < nf; ++f) for (int h = f; h < nf; ++h) for (int i = 0; i < nm; ++i) {
         const int m = (f*nf + h)*nm + i; const R X = fmasses[f], Y = fmasses[h], Z = masses[i];
         if (wa[m] != 0) v += wa[m]/2*L.fFFS(X, Y, Z);
         if (wb[m] != 0) v += wb[m]*L.I(X, Y, Z);
      }
      return v;
   }
};

struct Delta { R d[2][2] = {}, err[2][2] = {}; };

/// d^2V/dphi_i dphi_j - delta_ij/v_i dV/dphi_i of a function of (phi_d, phi_u); err: estimated uncertainty
template <class F> Delta derivatives(F V, R vd, R vu, R step)
{
   const auto once = [&](R h) {
      const R hd = h*vd, hu = h*vu, f0 = V(vd, vu);
      R f1[3], f2[3];
      const int dir[3][2] = {{1, 0}, {0, 1}, {1, 1}};
      for (int n = 0; n < 3; ++n) {
         R p[3], m[3];
         for (int k = 1; k <= 3; ++k) { p[k-1] = V(vd + k*hd*dir[n][0], vu + k*hu*dir[n][1]); m[k-1] = V(vd - k*hd*dir[n][0], vu - k*hu*dir[n][1]); }
         f1[n] = ((p[2] - m[2]) - 9*(p[1] - m[1]) + 45*(p[0] - m[0]))/60;
         f2[n] = (2*(p[2] + m[2]) - 27*(p[1] + m[1]) + 270*(p[0] + m[0]) - 490*f0)/180;
      }
      Delta r;
      r.d[0][0] = f2[0]/(hd*hd) - f1[0]/hd/vd; r.d[1][1] = f2[1]/(hu*hu) - f1[1]/hu/vu;
      r.d[0][1] = r.d[1][0] = (f2[2] - f2[0] - f2[1])/(2*hd*hu);
      return r; };
   const Delta a = once(step), b = once(step/2);
   Delta r = b;
   for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) r.err[i][j] = std::abs(a.d[i][j] - b.d[i][j]);
   return r;
}

inline Delta scale(Delta d, R f) { for (auto* a : {&d.d, &d.err}) for (auto& r : *a) for (R& z : r) z *= f; return d; }

const R kappa = 1/(16*PI*PI);

inline Delta atas(const Input& x, R step = 0.02L)
{
   const Loop L{x.scale*x.scale}; const R s2 = std::sqrt((R)2);
   const auto V = [&](R pd, R pu) { const R t = sq(x.yt*pu)/2; return strong(L, x.yt, pu, x.mq2 + t, x.yt*(x.At*pu - x.mu*pd)/s2, x.mu2 + t, x.MG); };
   return scale(derivatives(V, x.vd, x.vu, step), sq(x.g3*kappa));
}
inline Delta abas(const Input& x, R step = 0.02L)
{
   const Loop L{x.scale*x.scale}; const R s2 = std::sqrt((R)2);
   const auto V = [&](R pd, R pu) { const R t = sq(x.yb*pd)/2; return strong(L, x.yb, pd, x.mq2 + t, x.yb*(x.Ab*pd - x.mu*pu)/s2, x.md2 + t, x.MG); };
   return scale(derivatives(V, x.vd, x.vu, step), sq(x.g3*kappa));
}
/// O(yb^2 ytau^2)
inline Delta abatau(const Input& x, R step = 0.02L)
{
   const Loop L{x.scale*x.scale}; const R s2 = std::sqrt((R)2);
   const auto cond = [&](R y, R A, R a, R d, R pd, R pu) {
      const R t = sq(y*pd)/2; const Mix m = mix(a + t, y*(A*pd - x.mu*pu)/s2, d + t); return y*m.s*m.c*(L.J(m.m[0]) - L.J(m.m[1])); };
   const auto V = [&](R pd, R pu) { return 6*cond(x.yb, x.Ab, x.mq2, x.md2, pd, pu)*cond(x.ytau, x.Atau, x.ml2, x.me2, pd, pu); };
   return scale(derivatives(V, x.vd, x.vu, step), kappa*kappa);
}
/// all Yukawa orders together
inline Delta yukawa(const Input& x, R step = 0.02L)
{
   const R v2 = sq(x.vd) + sq(x.vu), B = sq(x.MA)*x.vd*x.vu/v2;
   Yukawa y(x, B, B*x.vd/x.vu - sq(x.mu), B*x.vu/x.vd - sq(x.mu));
   return scale(derivatives([&](R pd, R pu) { return y.V(pd, pu); }, x.vd, x.vu, step), kappa*kappa);
}
} // namespace ve
