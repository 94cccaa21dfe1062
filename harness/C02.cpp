// C02: completion of parameter points by the tree-level relations.
#include "point.hpp"
#include "qref.hpp"
#include <Eigen/Geometry>
#include <algorithm>

using namespace vf;
using pt::Parameters;
using qref::Q;

static Info info(
   "a case is one parameter point with a random subset of its optional masses, mixing angles and sines left open (including exactly degenerate, nearly degenerate, unmixed, maximally mixed and strongly split sfermion sectors and random flavour bases of the Yukawa matrices) that is completed by Parameters::validate; "
   "non-trivial: at least one sfermion sector with non-zero mixing is completed by the library",
   {"oracle: tree-level mass matrices and their exact 2x2 diagonalisation in 113-bit arithmetic, written from the documented conventions (hep-ph/0105096)",
    "a sfermion sector counts as given only if both masses and the angle or its sine are given",
    "the documented 1e-8 relative shift of degenerate masses is allowed for"});

struct Sector { const char* n; Q a, b, x; };   // matrix {{a,x},{x,b}}

static void checkSector(Gen& g, const Sector& s, const Eigen::Vector2d& M, double s2, double th)
{
   const Q tr = s.a + s.b, df = s.a - s.b, rt = sqrtq(df*df + 4*s.x*s.x);
   const Q m2 = (tr + rt)/2, m1 = m2 == 0 ? Q(0) : (s.a*s.b - s.x*s.x)/m2;
   const double sc = (double)m2, rel = 1e-12*sc;
   g.require(M(0) <= M(1), cat(s.n, " masses not in ascending order: ", M(0), " ", M(1)));
   const double sh = std::abs(M(0) - M(1)) < 3e-8*M(1) ? 6e-8*sc : 0; // documented shift
   close(g, cat(s.n, " lighter squared mass"), M(0)*M(0), (double)m1, rel + sh);
   close(g, cat(s.n, " heavier squared mass"), M(1)*M(1), (double)m2, rel + sh);
   close(g, cat(s.n, " sine of twice the angle"), s2, std::sin(2*th), 1e-10);
   // rotation reproduces the matrix; the angle is obtained from an arc cosine, i.e. to half the digits
   const double dM = (double)rt, da = 5e-8*dM;
   const double c = std::cos(th), sn = std::sin(th), M1 = (double)m1, M2 = (double)m2;
   close(g, cat(s.n, " mixing: matrix element 11"), c*c*M1 + sn*sn*M2, (double)s.a, rel + sh + 1e-8*da + std::abs(s2)*da);
   close(g, cat(s.n, " mixing: matrix element 22"), sn*sn*M1 + c*c*M2, (double)s.b, rel + sh + std::abs(s2)*da);
   close(g, cat(s.n, " mixing: matrix element 12"), c*sn*(M1 - M2), (double)s.x, rel + sh + da);
}

static Eigen::Matrix3d rotation(Gen& g)
{
   Eigen::Quaterniond q(g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1));
   if (q.norm() < 1e-3) return Eigen::Matrix3d::Identity();
   Eigen::Matrix3d r = q.normalized().toRotationMatrix();
   if (g.coin()) r.row(g.below(3)) *= -1;
   return r;
}

static bool bit(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

VF_SUB("completion", 600000, 8000000)
{
   pt::Opt o; o.msmin = 50; o.msmax = 1e6; o.xtmax = 2;
   auto pp = pt::make(g, o); Parameters p = pp.p;
   // special sectors
   switch (g.below(6)) {
   case 0: { // exactly equal diagonal elements of the stop matrix
      const double d = g.coin() ? 0. : g.logu(1e-12, 1e-2)*g.sign();
      p.g1 = p.g2 = 0; p.mu2(2,2) = p.mq2(2,2)*(1 + d); p.md2(2,2) = p.mq2(2,2)*(1 + d); p.me2(2,2) = p.ml2(2,2)*(1 + d); g.label("equal diagonal"); break; }
   case 1: p.Au(2,2) = p.mu*p.vd/p.vu; p.Ad(2,2) = p.mu*p.vu/p.vd; p.Ae(2,2) = p.Ad(2,2); g.label("no mixing"); break;
   case 2: p.Au(2,2) = 0; p.mu = 0; p.Ad(2,2) = 0; p.Ae(2,2) = 0; g.label("exactly no mixing"); break;
   default: g.label(pt::name(pp.pattern));
   }
   if (g.coin(0.3)) { p.mq2(0,1) = p.mq2(1,0) = g.uni(0, 0.1)*p.mq2(0,0); }
   // flavour rotation
   const double yu = p.Yu(2,2), yd = p.Yd(2,2), ye = p.Ye(2,2);
   const Eigen::Matrix3d Yu0 = p.Yu, Yd0 = p.Yd, Ye0 = p.Ye;
   const bool rot = g.coin(0.3);
   if (rot) { p.Yu = rotation(g)*p.Yu*rotation(g); p.Yd = rotation(g)*p.Yd*rotation(g); p.Ye = rotation(g)*p.Ye*rotation(g); g.label("flavour rotated"); }
   // given masses
   const bool gW = g.coin(0.3), gZ = g.coin(0.3), gt = g.coin(0.3), gb = g.coin(0.3), gtau = g.coin(0.3);
   const double v = std::sqrt(p.vu*p.vu + p.vd*p.vd);
   if (gW) p.MW = p.g2*v/2*g.uni(0.9, 1);
   if (gZ) p.MZ = std::sqrt(0.6*p.g1*p.g1 + p.g2*p.g2)*v/2*g.uni(1, 1.1);
   if (gt) p.Mt = g.uni(120, 180);
   if (gb) p.Mb = g.uni(1, 5);
   if (gtau) p.Mtau = g.uni(1, 2);
   // given sfermion sectors: 0 nothing, 1 masses + s2, 2 masses + theta, 3 masses only, 4 angle only, 5 one mass
   int mode[3];
   Eigen::Vector2d* M[3] = {&p.MSt, &p.MSb, &p.MStau}; double* S[3] = {&p.s2t, &p.s2b, &p.s2tau}; double* T[3] = {&p.theta_t, &p.theta_b, &p.theta_tau};
   for (int i = 0; i < 3; ++i) {
      mode[i] = g.coin(0.5) ? g.range(1, 6) : 0;
      const double m1 = pp.MS*g.uni(0.5, 1.5), m2 = g.coin(0.1) ? m1 : pp.MS*g.uni(0.5, 1.5), th = g.uni(-3.2, 3.2);
      switch (mode[i]) {
      case 1: *M[i] << m1, m2; *S[i] = std::sin(2*th); break;
      case 2: *M[i] << m1, m2; *T[i] = th; break;
      case 3: *M[i] << m1, m2; break;
      case 4: if (g.coin()) *S[i] = std::sin(2*th); else *T[i] = th; break;
      case 5: (*M[i])(g.below(2)) = m1; *T[i] = th; break;
      case 6: *M[i] << m1, m2; *T[i] = th; *S[i] = std::sin(2*th); break;
      }
   }
   pt::note(g, p);
   const Parameters in = p;
   try { p.validate(false); }
   catch (const std::exception& e) { g.discard(); } // acceptance is decided by C01
   // couplings
   const auto sv = [&](const char* n, const Eigen::Matrix3d& y, const Eigen::Matrix3d& y0) {
      double d[3] = {std::abs(y0(0,0)), std::abs(y0(1,1)), std::abs(y0(2,2))}; std::sort(d, d + 3);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) close(g, cat(n, " singular values ", i, j), y(i,j), i == j ? d[i] : 0., 1e-14*d[2]); };
   sv("Yu", p.Yu, Yu0); sv("Yd", p.Yd, Yd0); sv("Ye", p.Ye, Ye0);
   // masses
   const Q v2 = Q(in.vu)*in.vu + Q(in.vd)*in.vd;
   const auto give = [&](const char* n, bool given, double val, double was, double calc) {
      if (given) g.require(val == was, cat(n, " was given as ", was, " but is ", val)); else close(g, n, val, calc, 1e-13*std::abs(calc)); };
   give("MW", gW, p.MW, in.MW, (double)(in.g2*sqrtq(v2)/2));
   give("MZ", gZ, p.MZ, in.MZ, (double)(sqrtq((Q(6)/10*Q(in.g1)*in.g1 + Q(in.g2)*in.g2)*v2)/2));
   give("Mt", gt, p.Mt, in.Mt, (double)(Q(yu)*in.vu/sqrtq(Q(2))));
   give("Mb", gb, p.Mb, in.Mb, (double)(Q(yd)*in.vd/sqrtq(Q(2))));
   give("Mtau", gtau, p.Mtau, in.Mtau, (double)(Q(ye)*in.vd/sqrtq(Q(2))));
   // sfermions
   const Q tb = Q(in.vu)/in.vd, c2b = (Q(in.vd)*in.vd - Q(in.vu)*in.vu)/v2, mz2 = Q(p.MZ)*p.MZ;
   const Q cw2 = p.MZ == 0 ? Q(1) : Q(p.MW)*p.MW/mz2, sw2 = 1 - cw2;
   const Q mt2 = Q(p.Mt)*p.Mt, mb2 = Q(p.Mb)*p.Mb, ml2 = Q(p.Mtau)*p.Mtau;
   const Sector sec[3] = {
      {"stop", in.mq2(2,2) + mt2 + (Q(1)/2 - 2*sw2/3)*mz2*c2b, in.mu2(2,2) + mt2 + 2*sw2/3*mz2*c2b, p.Mt*(Q(in.Au(2,2)) - in.mu/tb)},
      {"sbottom", in.mq2(2,2) + mb2 - (Q(1)/2 - sw2/3)*mz2*c2b, in.md2(2,2) + mb2 - sw2/3*mz2*c2b, p.Mb*(Q(in.Ad(2,2)) - in.mu*tb)},
      {"stau", in.ml2(2,2) + ml2 - (Q(1)/2 - sw2)*mz2*c2b, in.me2(2,2) + ml2 - sw2*mz2*c2b, p.Mtau*(Q(in.Ae(2,2)) - in.mu*tb)}};
   const Eigen::Vector2d* IM[3] = {&in.MSt, &in.MSb, &in.MStau}; const double* IS[3] = {&in.s2t, &in.s2b, &in.s2tau}; const double* IT[3] = {&in.theta_t, &in.theta_b, &in.theta_tau};
   for (int i = 0; i < 3; ++i) {
      if (mode[i] == 1 || mode[i] == 2 || mode[i] == 6) {
         const double a = (*IM[i])(0), b = (*IM[i])(1), lo = std::min(a, b), hi = std::max(a, b);
         const double eq = std::abs(a - b) < 1e-8 ? 1e-7*hi : 0;
         close(g, cat(sec[i].n, " given lighter mass"), (*M[i])(0), lo, eq);
         close(g, cat(sec[i].n, " given heavier mass"), (*M[i])(1), hi, eq);
         const double s = a > b ? -1 : 1;
         const double th = mode[i] == 1 ? std::asin(*IS[i])/2 : *IT[i];
         const double s2 = mode[i] == 2 ? std::sin(2**IT[i]) : *IS[i];
         close(g, cat(sec[i].n, " given sine"), *S[i], s*s2, 1e-14);
         close(g, cat(sec[i].n, " angle against sine"), std::sin(2**T[i]), *S[i], 1e-12);
         // same physical mixing: cos(2 theta)*(m1^2 - m2^2) is kept
         close(g, cat(sec[i].n, " given angle"), std::cos(2**T[i])*s, std::cos(2*th), 1e-12);
         g.label("sector given");
      } else {
         checkSector(g, sec[i], *M[i], *S[i], *T[i]);
         if (sec[i].x != 0) g.nontrivial();
         g.label("sector completed");
      }
   }
   // everything else untouched
   g.require(bit(p.scale, in.scale) && bit(p.mu, in.mu) && bit(p.g1, in.g1) && bit(p.g2, in.g2) && bit(p.g3, in.g3) && bit(p.vu, in.vu) && bit(p.vd, in.vd)
      && bit(p.M1, in.M1) && bit(p.M2, in.M2) && bit(p.MG, in.MG) && bit(p.MA, in.MA), "a scalar input was changed");
   g.require(p.md2 == in.md2 && p.mu2 == in.mu2 && p.ml2 == in.ml2 && p.me2 == in.me2 && p.Au == in.Au && p.Ad == in.Ad && p.Ae == in.Ae, "a matrix input was changed");
   for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
      if (i == 2 && j == 2) close(g, "mq2(2,2)", p.mq2(2,2), in.mq2(2,2), std::abs(in.mq2(2,2) - in.mu2(2,2)) < 1e-8 ? 3e-8*in.mq2(2,2) : 0);
      else g.require(p.mq2(i,j) == in.mq2(i,j), "mq2 was changed");
   // average light squark mass
   const Q prod = Q(p.mq2(0,0))*p.mu2(0,0)*p.mq2(0,0)*p.md2(0,0)*p.mq2(1,1)*p.mu2(1,1)*p.mq2(1,1)*p.md2(1,1)
      *(p.mq2(2,2) + mb2 - (Q(1)/2 - sw2/3)*mz2*c2b)*(p.md2(2,2) + mb2 - sw2/3*mz2*c2b);
   if (prod > 0 && prod < 1e290Q) close(g, "average light squark mass", p.calculateMsq2(), (double)powq(prod, Q(1)/10), 1e-12*p.calculateMsq2());
}
