// Numeric building blocks and the analytic dipole Green's function against double-precision references.
#include "gfm.hh"
#include "MathUtils.hh"
#include "Quadrature.hh"
#include "AnalyticGreensFunctionCalculator.hh"

using namespace ev;

namespace {

  bool bad(float x) { std::uint32_t u; std::memcpy(&u, &x, 4); return (u & 0x7f800000u) == 0x7f800000u; }    // (the compiler is told that there are no such values)

  // upper incomplete gamma function for integer and half-integer order a2/2
  double gamma_ref(int a2, double z) {
    double a, g;
    if(a2 % 2 == 0) { a = 1; g = std::exp(-z); } else { a = 0.5; g = std::sqrt(M_PI) * std::erfc(std::sqrt(z)); }
    double zl = z > 0 ? std::log(z) : -1e30;
    while(a < a2 / 2.0 - 0.25) { g = a * g + (z > 0 ? std::exp(a * zl - z) : 0.0); a += 1; }
    return g;
  }

  void gamma_case(Ctx& c) {
    Rng& r = c.rng;
    int a2 = r.chance(0.6) ? 2 * (int)r.range(1, 12) : (int)r.range(1, 24);
    double a = a2 / 2.0;
    auto draw = [&]() -> float {
      switch(r.range(0, 7)) {
      case 0: return 0.0f;
      case 1: return (float)std::exp(r.real(-20, 0));
      case 2: return (float)(1.0 + r.real(-1e-3, 1e-3));                      // the algorithm changes around here ...
      case 3: return (float)(a * (1.0 + r.real(-1e-4, 1e-4)));                // ... and here
      case 4: return (float)std::exp(r.real(-3, 10));
      default: return (float)r.real(0, 60);
      }
    };
    auto eval = [&](float z) {
      float g = MathUtils::incomplete_gamma((float)a, z);
      c.outv(g); c.count("gamma_evaluated");
      VH_CHECK(!bad(g), "gamma_finite", "incomplete_gamma(", a, ", ", z, ") is not finite");
      double w = gamma_ref(a2, (double)z), full = std::tgamma(a);
      double cond = 1 + ((double)z > 0 ? std::fabs(a * std::log((double)z)) : 0) + (double)z + std::fabs(std::lgamma(a));
      double tol = (double)z < std::max(1.0, a) * (1 + 1e-6) ? full * 1e-6 * (8 + cond) : w * 1e-6 * (8 + cond) + 1e-36;
      VH_CHECK(std::fabs((double)g - w) <= tol, "gamma", "incomplete_gamma(", a, ", ", z, ") is ", g, ", expected ", w, " +- ", tol);
      return std::pair<double, double>((double)g, tol);
    };
    c.desc << "gamma order " << a;
    std::vector<float> zs; int n = (int)r.range(3, 12);
    for(int i = 0; i < n; i++) zs.push_back(draw());
    std::sort(zs.begin(), zs.end());
    std::pair<double, double> last{1e300, 0};
    for(float z : zs) { auto cur = eval(z); VH_CHECK(cur.first <= last.first + cur.second + last.second, "gamma_monotonic", "incomplete_gamma(", a, ", .) increases towards ", z); last = cur; }
    if(r.chance(0.3)) {
      float x = r.chance(0.5) ? (float)-std::exp(r.real(-10, 5)) : (float)a, y = x < 0 ? (r.chance(0.5) ? 1.0f : -1.0f) : (float)-std::exp(r.real(-10, 5));
      bool thrown = false;
      try { volatile float g = MathUtils::incomplete_gamma(x, y); (void)g; } catch(const std::exception&) { thrown = true; }
      c.count("gamma_negative");
      VH_CHECK(thrown, "gamma_negative", "incomplete_gamma(", x, ", ", y, ") did not raise an exception");
    }
    c.sig = mix((std::uint64_t)a2) ^ hash_bytes(zs.data(), zs.size() * 4); c.nontrivial = true;
  }

  void quad_case(Ctx& c) {
    Rng& r = c.rng;
    std::size_t n = r.chance(0.3) ? r.range(2, 5) : r.range(2, 420);
    std::vector<float> whole(n, -7.0f), parts(n + 2, -7.0f);
    Quadrature::TrapezoidalRule::fill_weights(0, n, n, whole.begin(), whole.end());
    std::size_t a = 0; int blocks = 0;
    std::size_t fixed = r.chance(0.5) ? r.range(1, 120) : 0;
    while(a < n) {
      std::size_t b = std::min(n, a + (fixed ? fixed : r.range(1, n)));
      Quadrature::TrapezoidalRule::fill_weights(a, b, n, parts.begin() + 1 + (long)a, parts.begin() + 1 + (long)b);
      a = b; blocks++;
    }
    c.desc << "quadrature " << n << " points in " << blocks << " blocks"; c.count("quadrature_weights", n);
    VH_CHECK(parts[0] == -7.0f && parts[n + 1] == -7.0f, "quadrature_outside", "weights outside of the requested range are changed");
    for(std::size_t i = 0; i < n; i++) {
      float w = i == 0 || i == n - 1 ? 0.5f : 1.0f;
      VH_CHECK(whole[i] == w, "quadrature", "weight ", i, " of ", n, " is ", whole[i]);
      VH_CHECK(parts[i + 1] == whole[i], "quadrature_blocks", "weight ", i, " of ", n, " is ", parts[i + 1], " if calculated in ", blocks, " blocks, and ", whole[i], " otherwise");
    }
    // linear functions are integrated exactly
    double s = r.real(-3, 3), o = r.real(-3, 3), sum = 0;
    for(std::size_t i = 0; i < n; i++) sum += (double)whole[i] * (o + s * (double)i);
    double L = (double)(n - 1);
    VH_CHECK(std::fabs(sum - (o * L + 0.5 * s * L * L)) <= 1e-9 * (1 + L * L), "quadrature_linear", "linear function is integrated to ", sum);
    c.sig = mix(n * 1000 + (std::uint64_t)blocks) ^ fixed; c.nontrivial = n > 2;
  }

  template <class T, std::size_t D> void vec_ops(Ctx& c) {
    Rng& r = c.rng;
    using V = Vector<T, D>;
    auto el = [&]() -> T {
      if constexpr(std::is_floating_point_v<T>) return (T)(r.chance(0.5) ? r.real(-20, 20) : (double)r.irange(-9, 9));
      else if constexpr(std::is_signed_v<T>) return (T)r.irange(-1000, 1000);
      else return (T)r.range(0, 1000);
    };
    auto draw = [&]() { V v; for(std::size_t i = 0; i < D; i++) v[i] = el(); return v; };
    V a = draw(), b = draw(); T s = el();
    for(std::size_t i = 0; i < D; i++) if(b[i] == 0) b[i] = 3;
    if(s == 0) s = 5;
    const V a0 = a, b0 = b;
    auto eq = [&](T x, T y) { if constexpr(std::is_floating_point_v<T>) return std::fabs((double)x - (double)y) <= 1e-6 * (std::fabs((double)x) + std::fabs((double)y)) + 1e-30; else return x == y; };
    auto chk = [&](const V& got, auto&& f, const char* what) {
      for(std::size_t i = 0; i < D; i++) { T w = (T)f(i); VH_CHECK(eq(got[i], w), "vector", what, " of ", a0, " and ", b0, " (scalar ", s, "): component ", i, " is ", got[i], ", expected ", w); }
      c.count("vector_operations");
      for(std::size_t i = 0; i < D; i++) VH_CHECK(b[i] == b0[i], "vector", what, " changed an operand");
    };
    chk(a + b, [&](std::size_t i) { return a0[i] + b0[i]; }, "sum"); chk(a - b, [&](std::size_t i) { return a0[i] - b0[i]; }, "difference");
    chk(a * b, [&](std::size_t i) { return a0[i] * b0[i]; }, "product"); chk(a / b, [&](std::size_t i) { return a0[i] / b0[i]; }, "quotient");
    chk(a + s, [&](std::size_t i) { return a0[i] + s; }, "scalar sum"); chk(a - s, [&](std::size_t i) { return a0[i] - s; }, "scalar difference");
    chk(a * s, [&](std::size_t i) { return a0[i] * s; }, "scalar product"); chk(a / s, [&](std::size_t i) { return a0[i] / s; }, "scalar quotient");
    { V t = a; t += b; chk(t, [&](std::size_t i) { return a0[i] + b0[i]; }, "+="); } { V t = a; t -= b; chk(t, [&](std::size_t i) { return a0[i] - b0[i]; }, "-="); }
    { V t = a; t *= b; chk(t, [&](std::size_t i) { return a0[i] * b0[i]; }, "*="); } { V t = a; t /= b; chk(t, [&](std::size_t i) { return a0[i] / b0[i]; }, "/="); }
    { V t = a; t += s; chk(t, [&](std::size_t i) { return a0[i] + s; }, "scalar +="); } { V t = a; t -= s; chk(t, [&](std::size_t i) { return a0[i] - s; }, "scalar -="); }
    { V t = a; t *= s; chk(t, [&](std::size_t i) { return a0[i] * s; }, "scalar *="); } { V t = a; t /= s; chk(t, [&](std::size_t i) { return a0[i] / s; }, "scalar /="); }
    { V t; t = s; chk(t, [&](std::size_t) { return s; }, "fill"); V u(a); t = u; chk(t, [&](std::size_t i) { return a0[i]; }, "copy"); V w(std::move(u)); chk(w, [&](std::size_t i) { return a0[i]; }, "move"); }
    { VectorView<T, D> v(a); for(std::size_t i = 0; i < D; i++) VH_CHECK(&v[i] == &a[i], "vector", "view does not refer to the vector"); V t = b; VectorView<T, D> w(t); w = a; chk(t, [&](std::size_t i) { return a0[i]; }, "assignment through a view");
      w = b; VectorView<T, D> x(t); V q = a; VectorView<T, D> y(q); x = y; chk(t, [&](std::size_t i) { return a0[i]; }, "assignment between views"); }
    V z; for(std::size_t i = 0; i < D; i++) VH_CHECK(z[i] == 0, "vector", "default-constructed vector is not zero");
    bool ge = true, same = true; for(std::size_t i = 0; i < D; i++) { ge = ge && a[i] >= b[i]; same = same && a[i] == b[i]; }
    VH_CHECK((a >= b) == ge && (a == b) == same && (a != b) == !same && a == a0, "vector", "comparison of ", a, " and ", b);
    if(D > 1) { V t = a; std::size_t k = r.range(0, D - 1); t[k] = t[k] + 1; VH_CHECK(t != a && t >= a && !(a >= t), "vector", "comparison of vectors that differ in component ", k); }
    chk(VectorUtils::min(a, b), [&](std::size_t i) { return std::min(a0[i], b0[i]); }, "min"); chk(VectorUtils::max(a, b), [&](std::size_t i) { return std::max(a0[i], b0[i]); }, "max");
    chk(VectorUtils::min(a, s), [&](std::size_t i) { return std::min(a0[i], s); }, "scalar min");
    if constexpr(std::is_floating_point_v<T>) chk(VectorUtils::max(a, s), [&](std::size_t i) { return std::max(a0[i], s); }, "scalar max");
    double in = 0; for(std::size_t i = 0; i < D; i++) in += (double)a[i] * (double)b[i];
    double got = (double)VectorUtils::inner(a, b);
    double mag = 0; for(std::size_t i = 0; i < D; i++) mag += std::fabs((double)a[i] * (double)b[i]);
    VH_CHECK(std::fabs(got - in) <= 1e-6 * mag, "vector", "inner product is ", got, ", expected ", in);
    for(std::size_t i = 0; i < D; i++) VH_CHECK(a.at(i) == a0[i], "vector", "checked access");
    bool thrown = false; try { (void)a.at(D + r.range(0, 3)); } catch(const std::out_of_range&) { thrown = true; }
    VH_CHECK(thrown, "vector", "access beyond the last component did not raise an exception");
    if constexpr(std::is_floating_point_v<T>) {
      V p; for(std::size_t i = 0; i < D; i++) p[i] = std::fabs(a[i]);
      auto up = VectorUtils::ceil_nonneg(p), dn = VectorUtils::floor_nonneg(p);
      for(std::size_t i = 0; i < D; i++) VH_CHECK((double)up[i] == std::ceil((double)p[i]) && (double)dn[i] == std::floor((double)p[i]), "vector", "rounding of ", p[i], " gives ", dn[i], " and ", up[i]);
      auto q = p.template as_type<std::size_t>(); for(std::size_t i = 0; i < D; i++) VH_CHECK(q[i] == (std::size_t)p[i], "vector", "conversion of ", p[i], " gives ", q[i]);
    }
    c.desc << "vector " << typeid(T).name() << D << " " << a << b << s; c.sig = hash_str(c.desc.str()); c.nontrivial = true;
  }

  void mixed_ops(Ctx& c) {      // signed and unsigned indices are compared by value
    Rng& r = c.rng;
    Vector<int, 3> a; Vector<std::size_t, 3> b; for(std::size_t i = 0; i < 3; i++) { a[i] = (int)r.irange(-10, 10); b[i] = r.range(0, 10); }
    Vector<std::size_t, 3> m = VectorUtils::max(b, a); Vector<int, 3> n = VectorUtils::min(a, b);
    for(std::size_t i = 0; i < 3; i++) { VH_CHECK((long)m[i] == std::max((long)b[i], (long)a[i]), "vector_mixed", "max of ", b[i], " and ", a[i], " is ", m[i]); VH_CHECK((long)n[i] == std::min((long)b[i], (long)a[i]), "vector_mixed", "min of ", a[i], " and ", b[i], " is ", n[i]); }
    Vector<std::size_t, 4> p, q;      // values that do not fit into 32 bits
    auto wide = [&]() -> std::size_t { std::size_t v = (std::size_t)(r.pick(std::vector<long>{0, 0x7fffffffl, 0xffffffffl, 3l << 32, 1l << 40, 1l << 53}) + r.irange(-3, 3)); return (long)v < 0 ? 0 : v; };
    for(std::size_t i = 0; i < 4; i++) { p[i] = wide(); q[i] = wide(); }
    Vector<int, 4> sg; for(std::size_t i = 0; i < 4; i++) sg[i] = r.chance(0.5) ? (int)r.irange(-5, 5) : (int)r.irange(-2147483647, 2147483647);
    auto pq = VectorUtils::max(p, q), qp = VectorUtils::min(p, q), su = p + q, di = su - q; auto ps = VectorUtils::max(p, sg);
    for(std::size_t i = 0; i < 4; i++) {
      VH_CHECK(pq[i] == (p[i] > q[i] ? p[i] : q[i]) && qp[i] == (p[i] < q[i] ? p[i] : q[i]), "vector_wide", "extrema of ", p[i], " and ", q[i], " are ", qp[i], " and ", pq[i]);
      VH_CHECK(su[i] == p[i] + q[i] && di[i] == p[i], "vector_wide", "sum of ", p[i], " and ", q[i], " is ", su[i]);
      VH_CHECK(ps[i] == (sg[i] < 0 || (std::size_t)sg[i] < p[i] ? p[i] : (std::size_t)sg[i]), "vector_wide", "maximum of ", p[i], " and ", sg[i], " is ", ps[i]);
    }
    std::size_t x = r.chance(0.8) ? r.range(0, 100000) : wide(), y = r.chance(0.9) ? r.range(1, 500) : wide() + 1;
    VH_CHECK(MathUtils::IntDivCeil(x, y) == x / y + (x % y ? 1 : 0), "int_div_ceil", "ceil(", x, "/", y, ")");
    c.desc << "mixed " << a << b; c.count("vector_operations", 3); c.sig = hash_str(c.desc.str()); c.nontrivial = true;
  }

  Reg r30("C30", [](Ctx& c) {
    switch(c.rng.range(0, 9)) {
    case 0: quad_case(c); break;
    case 1: case 2: vec_ops<float, 2>(c); break; case 3: vec_ops<float, 3>(c); break; case 4: vec_ops<std::size_t, 3>(c); break; case 5: vec_ops<int, 3>(c); vec_ops<int, 1>(c); break;
    case 6: vec_ops<double, 4>(c); mixed_ops(c); break;
    default: gamma_case(c);
    }
  });

  // ---- C20: the sampled dipole field
  struct Dipole {
    double n, tp; int N;
    double theta(double t) const { if(t <= 0) return 0; double x = N * t / tp, s = 0, term = 1; for(int k = 0; k <= N; k++) { s += term; term *= x / (k + 1); } return -std::expm1(std::log(s) - x); }
    double delta(double t) const { if(t <= 0) return 0; double x = t / tp * N; return std::exp(N * std::log(x) - x - std::lgamma((double)N)) / tp; }
    double deltap(double t) const { if(t <= 0) return 0; return delta(t) * (tp - t) * N / (tp * t); }
    // field components (r, z) and the sum of the absolute values of all terms
    void field(double r, double z, double tprop, double td, double* E, double* mag) const {
      double R = std::hypot(r, z), ct = z / R, st = r / R, k = 1.0 / (4 * M_PI * n * n * R * R * R);
      double a = theta(td), b = tprop * delta(td), d = tprop * tprop * deltap(td);
      double Er = -2 * k * ct * (a + b), Et = -k * st * (a + b + d);
      double mr = 2 * k * std::fabs(ct) * (a + b), mt = k * st * (a + b + std::fabs(d));
      E[0] = Er * st + Et * ct; E[1] = Er * ct - Et * st;
      mag[0] = mr * st + mt * std::fabs(ct); mag[1] = mr * std::fabs(ct) + mt * st;
    }
  };

  void c20_case(Ctx& c) {
    Rng& r = c.rng;
    Dipole d; d.n = r.chance(0.3) ? 1.0 : (double)(float)r.real(1, 2.2); d.N = (int)r.range(1, 10); d.tp = (double)(float)r.real(0.5, 8);
    double os = (double)(float)r.real(1.5, 12);
    double fmax = d.N / (2 * M_PI * d.tp) * std::sqrt(std::pow(2.0, 1.0 / (d.N + 1)) - 1), dt = 1 / (2 * fmax * os), dx = 1 / (fmax * d.n * 2 * os);
    // domain: a number of steps along each axis that is not an integer in general
    double want[3] = {r.real(0.4, 14), r.real(0.4, 20), r.real(0.4, 40)};
    if(r.chance(0.8)) for(double& w : want) w = std::max(w, 1.2);
    for(double& w : want) { double f = w - std::floor(w); if(f < 0.01) w += 0.02; if(f > 0.99) w -= 0.02; }
    float r0 = r.chance(0.7) ? 0.0f : (float)r.real(0, 5 * dx), z0 = (float)(-want[1] * dx * r.real(-0.5, 1.5));
    float r1 = (float)((double)r0 + want[0] * dx), z1 = (float)((double)z0 + want[1] * dx), t1 = (float)(want[2] * dt);
    float rmin = (float)(dx * r.real(0.1, 2.5));
    std::size_t maxpts = r.range(1, 24);
    c.desc << "n " << d.n << " peak " << d.tp << " order " << d.N << " os " << os << " steps " << want[0] << "," << want[1] << "," << want[2] << " from (" << r0 << "," << z0 << ") rmin " << rmin << " chunk " << maxpts;
    fs::path dir = c.sub("gf"), scratch = c.sub("scratch");
    if(r.chance(0.15)) {       // something else is there already: it has to give way
      c.desc << " over an existing one";
      if(r.chance(0.2)) { fs::create_directories(dir); std::ofstream(dir / "junk.bin") << "junk"; }
      else {                   // a Green's function for other parameters
	float f = r.chance(0.3) ? 1.0f : (float)r.real(0.3, 1.5);
	GreensFunctionCalculator::Analytic::ElectricDipole(dir, scratch, RZCoordVector{r0, z0}, RZCoordVector{r0 + f * (r1 - r0), z1}, f * t1, (float)d.n, (float)d.tp, (unsigned)d.N, rmin, (float)(os * r.real(0.7, 1)), r.range(2, 12));
      }
      c.count("existing_greens_functions_replaced");
    }
    GreensFunctionCalculator::Analytic::ElectricDipole(dir, scratch, RZCoordVector{r0, z0}, RZCoordVector{r1, z1}, t1, (float)d.n, (float)d.tp, (unsigned)d.N, rmin, (float)os, maxpts);
    VH_CHECK(!fs::exists(scratch), "scratch", "scratch directory is left behind");
    CylindricalGreensFunction gf(dir, r.range(0, 3));
    Probe p(dir, 2);
    I3 num; for(int k = 0; k < 3; k++) num[k] = std::max(1L, (long)std::floor(want[k]));
    I3 shape{0, 0, 0}; for(const auto& m : p.all()) { I3 e = L(m.end_ind); for(int k = 0; k < 3; k++) shape[k] = std::max(shape[k], e[k]); }
    VH_CHECK(shape == (num + I3{1, 1, 1}), "sampling", "Green's function has shape ", shape, ", expected ", num + I3{1, 1, 1}, " (integer number of steps that are as close as possible to the requested spacing)");
    RZTCoordVector sc = gf.start_coords(), ec = gf.end_coords();
    VH_CHECK(sc.r() == r0 && sc.z() == z0 && sc.t() == 0 && ec.r() == r1 && ec.z() == z1 && ec.t() == t1, "domain", "domain is ", sc, " to ", ec);
    double st[3]; double lo[3] = {(double)r0, (double)z0, 0}, hi[3] = {(double)r1, (double)z1, (double)t1};
    for(int k = 0; k < 3; k++) st[k] = (hi[k] - lo[k]) / (double)num[k];
    // everything inside of the chunks, as stored
    Dense inner(shape); long overlapped = 0;
    for(const auto& m : p.all()) { I3 b = L(m.start_ind), e = L(m.end_ind); long ov = (long)m.overlap; arr_t data = p.data(b); each(b, e, [&](I3 i) { VH_CHECK(!inner.c[inner.f(i)], "chunk_unique", "index ", i, " is in two chunks"); inner.c[inner.f(i)] = 1; inner.v[inner.f(i)] = get(data, i - b + I3{ov, ov, ov}); }); }
    for(char x : inner.c) VH_CHECK(x, "chunk_cover", "a sample is missing");
    for(const auto& m : p.all()) {          // the overlap into which the interpolation kernels reach
      I3 b = L(m.start_ind), e = L(m.end_ind); long ov = (long)m.overlap; I3 o{ov, ov, ov};
      VH_CHECK(ov >= 2, "overlap", "chunks have an overlap of ", ov, " samples");
      arr_t data = p.data(b);
      each(b - o, e + o, [&](I3 i) {
	if(b[0] <= i[0] && i[0] < e[0] && b[1] <= i[1] && i[1] < e[1] && b[2] <= i[2] && i[2] < e[2]) return;
	I3 q = i; q[0] = std::abs(q[0]);
	if(i[0] < 0 && !(b[0] - ov <= q[0] && q[0] < e[0] + ov)) return;
	F2 w = inner.in(q) ? inner.v[inner.f(q)] : F2{0, 0}, v = get(data, i - b + o);
	overlapped++;
	VH_CHECK(std::memcmp(&v, &w, sizeof v) == 0 || (v == w && !bad(v.a) && !bad(v.b)), "overlap_content", "the overlap of chunk ", b, e, " holds ", v, " at ", i, ", expected ", w);
      });
    }
    c.count("overlap_samples", overlapped);
    long excluded = 0, compared = 0;
    auto coord = [&](int k, long i) { return lo[k] + st[k] * (double)i; };
    for(const auto& m : p.all()) {
      I3 b = L(m.start_ind), e = L(m.end_ind); long ov = (long)m.overlap;
      for(int k = 0; k < 3; k++) VH_CHECK(e[k] - b[k] <= (long)maxpts, "chunk_size", "chunk ", b, e, " exceeds the requested size ", maxpts);
      arr_t data = p.data(b);
      each(b, e, [&](I3 i) {
	double x = coord(0, i[0]), z = coord(1, i[1]), t = coord(2, i[2]), R = std::hypot(x, z);
	double perr = 5e-7 * (std::fabs(lo[0]) + std::fabs(lo[1]) + std::fabs(x) + std::fabs(z) + std::fabs(hi[1]));
	if(R < (double)rmin + 2 * perr || R < 1e-6) { excluded++; return; }
	F2 v = get(data, i - b + I3{ov, ov, ov});
	double tprop = R * d.n, td = t - tprop;
	double E[2], mag[2], wig[2] = {0, 0};
	d.field(x, z, tprop, td, E, mag);
	double terr = 6e-7 * (t + tprop + hi[2]) + perr * d.n;
	for(double s : {-1.0, -0.5, 0.5, 1.0}) { double F[2], q[2]; d.field(x, z, tprop, td + s * terr, F, q); for(int k = 0; k < 2; k++) { wig[k] = std::max(wig[k], std::fabs(F[k] - E[k])); mag[k] = std::max(mag[k], q[k]); } }
	double amax = std::max(mag[0], mag[1]);
	// relative accuracy of the filter functions, of the geometric factors, and the effect of errors in the position
	double k0 = 1.0 / (4 * M_PI * d.n * d.n * R * R * R);
	double rel = 3e-5 + 6 * perr / R, absolute = 2e-5 * k0 * 2;       // (the step function is one minus something, hence the absolute part)
	compared++;
	VH_CHECK(!bad(v.a) && !bad(v.b), "field_finite", "field at ", i, " is not finite");
	VH_CHECK(std::fabs((double)v.a - E[0]) <= 2 * wig[0] + rel * amax + absolute && std::fabs((double)v.b - E[1]) <= 2 * wig[1] + rel * amax + absolute, "field",
		 "field at index ", i, " (r ", x, ", z ", z, ", t ", t, ") is ", v, ", expected ", E[0], " ", E[1], " +- ", 2 * wig[0] + rel * amax + absolute);
	c.outv(v);
      });
    }
    c.count("field_points", compared); c.count("field_points_in_excluded_radius", excluded);
    c.nontrivial = compared > 0;
  }
  Reg r20("C20", c20_case);

  // ---- C31: the whole chain from the generator of the Green's function to the signal
  void c31_case(Ctx& c) {
    Rng& r = c.rng;
    Dipole d; d.n = r.chance(0.2) ? 1.0 : (double)(float)r.real(1, 2); d.N = (int)r.range(4, 9); d.tp = (double)(float)r.real(20, 60);
    double os = (double)(float)(r.chance(0.4) ? r.real(8, 14) : r.real(14, 45));
    double fmax = d.N / (2 * M_PI * d.tp) * std::sqrt(std::pow(2.0, 1.0 / (d.N + 1)) - 1), dt = 1 / (2 * fmax * os), dx = 1 / (fmax * d.n * 2 * os);
    double Rin = r.real(10, 20) * dx;         // the track keeps this distance from the singularity
    float r1 = (float)(r.real(24, 34) * dx), z0 = (float)(-r.real(12, 30) * dx), z1 = (float)(r.real(12, 30) * dx);
    // the track: a chord of the domain, anywhere in azimuth
    double P[2][3];
    for(int tries = 0; ; tries++) {
      if(tries > 400) { c.desc << "no track found"; return; }
      bool ok = true;
      for(auto& p : P) { double rho = r.real(0, 0.9) * r1, a = r.real(0, 2 * M_PI); p[0] = (float)(rho * std::cos(a)); p[1] = (float)(rho * std::sin(a)); p[2] = (float)(z0 + r.real(0.1, 0.9) * (z1 - z0)); }
      for(int k = 0; k <= 200 && ok; k++) { double s = k / 200.0, x[3]; for(int i = 0; i < 3; i++) x[i] = P[0][i] + s * (P[1][i] - P[0][i]); if(std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) < Rin) ok = false; }
      double len = 0; for(int i = 0; i < 3; i++) len += (P[1][i] - P[0][i]) * (P[1][i] - P[0][i]);
      if(ok && std::sqrt(len) > 3 * dx) break;
    }
    double len = 0; for(int i = 0; i < 3; i++) len += (P[1][i] - P[0][i]) * (P[1][i] - P[0][i]);
    len = std::sqrt(len);
    double beta = std::min(r.chance(0.3) ? 1.0 : r.real(0.1, 1.0), 0.75 / d.n), T = std::max(3.0, len / beta), ts0 = r.real(-100, 100);
    Seg g; for(int i = 0; i < 3; i++) { g.p0[i] = (float)P[0][i]; g.p1[i] = (float)P[1][i]; }
    g.t0 = (float)ts0; g.t1 = (float)(ts0 + T); g.q = (float)((r.chance(0.5) ? 1 : -1) * r.real(0.1, 100));
    T = (double)g.t1 - (double)g.t0;
    // the window: from before the start to some time after the signal's peak
    double dmax = 0; for(auto& p : P) dmax = std::max(dmax, d.n * std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]));
    double first = (double)g.t0 + r.real(-0.5, 0.8) * dmax, last = (double)g.t0 + T + dmax + r.real(0, 4) * d.tp;
    std::size_t ns = r.range(2, 25); float samp = (float)((last - first) / (double)(ns - 1)), tsig = (float)first;
    float t1 = (float)(last - (double)g.t0 + 8 * dt);
    c.desc << "n " << d.n << " peak " << d.tp << " order " << d.N << " os " << os << " track " << g << " in r " << r1 << " z " << z0 << " " << z1 << " dx " << dx << " window " << tsig << "+" << ns << "*" << samp;
    fs::path dir = c.sub("gf"), scratch = c.sub("scratch");
    GreensFunctionCalculator::Analytic::ElectricDipole(dir, scratch, RZCoordVector{0, z0}, RZCoordVector{r1, z1}, t1, (float)d.n, (float)d.tp, (unsigned)d.N, (float)(dx * r.real(0.3, 3)), (float)os, r.range(12, 60));
    std::vector<float> v(ns, 0.0f);
    bool linear = r.chance(0.2);
    if(linear) { CylindricalGreensFunction gf(dir, r.range(0, 3)); gf.apply_accumulate<K::Linear, float>(g.seg(), tsig, samp, ns, v, Green::OutOfBoundsBehavior::RaiseError, 1); }
    else { SignalCalculator sc(dir, r.range(0, 3)); sc.AccumulateSignal(g.seg(), tsig, samp, ns, v); }
    double big = 0, cover = 0, absint = 0; std::vector<double> want(ns), quad(ns);
    double v3[3]; for(int i = 0; i < 3; i++) v3[i] = ((double)g.p1[i] - (double)g.p0[i]) / T;
    auto integrand = [&](double tp, double tt) {
      double x[3]; for(int i = 0; i < 3; i++) x[i] = (double)g.p0[i] + v3[i] * (tp - (double)g.t0);
      double rho = std::hypot(x[0], x[1]), R = std::hypot(rho, x[2]), E[2], mag[2];
      d.field(rho, x[2], R * d.n, tt - tp - R * d.n, E, mag);
      double vr = rho > 0 ? (v3[0] * x[0] + v3[1] * x[1]) / rho : 0;
      cover = (std::fabs(vr) + std::fabs(v3[2])) * std::max(mag[0], mag[1]);
      return E[0] * vr + E[1] * v3[2];
    };
    int M = (int)(T / std::min({1.0, dt / 8, d.tp / 40})) + 50; M += M % 2;
    for(std::size_t k = 0; k < ns; k++) {
      double tt = (double)tsig + (double)k * (double)samp, s = 0, sa = 0;
      for(int j = 0; j <= M; j++) { double w = j == 0 || j == M ? 1 : j % 2 ? 4 : 2; s += w * integrand((double)g.t0 + T * j / M, tt); sa += w * cover; }
      want[k] = -(double)g.q * s * T / M / 3;
      big = std::max(big, std::fabs(want[k])); absint = std::max(absint, std::fabs((double)g.q) * sa * T / M / 3);
      // (the error at the very start of the pulse is related to the samples that follow)
      sa = 0; for(int j = 0; j <= M; j++) { integrand((double)g.t0 + T * j / M, tt + 5 * dt); sa += 2 * cover; }
      absint = std::max(absint, std::fabs((double)g.q) * sa * T / M / 3);
    }
    // the signal may be much smaller than what it is the sum of: account for the accuracy of the terms
    double scale = absint;
    double tol = (linear ? 0.1 * std::pow(8 / os, 2) : 0.04 * std::pow(8 / os, 3)) * scale + 0.005 * scale;       // convergence of the interpolation, and single precision
    for(float x : v) c.outv(x);
    for(std::size_t k = 0; k < ns; k++)
      VH_CHECK(std::fabs((double)v[k] - want[k]) <= tol, "end_to_end", "sample ", k, " of the signal is ", v[k], ", the exact line integral over the field of the dipole is ", want[k], " (peak ", big, ", tolerance ", tol, ")");
    c.count("signals"); c.count("samples", ns); c.count(os > 20 ? "signals_oversampling_above_20" : "signals_oversampling_below_20"); c.nontrivial = true;
  }
  Reg r31("C31", c31_case, 60);
}

VH_MAIN
