  {"curve.derivatives", RO, OP_(const NURBSCurve &c = C(o, s); double t = in(o.a, c._interval[0] + 1e-4, c._interval[1] - 1e-4); return mk<V3s>("curve.derivatives", [&c, t](V3s &r) { c.derivatives(t, r.a, r.b, r.c); }, DG(V3s) { g.p(r.a); g.p(r.b); g.p(r.c); });)},
  {"curve.split", RO | MAYTHROW, OP_(const NURBSCurve &c = C(o, s); double t = cu(c, o.a); bool n = o.n & 1; return mk<std::pair<NURBSCurve, NURBSCurve>>("curve.split", [&c, t, n](std::pair<NURBSCurve, NURBSCurve> &r) { r = c.split(t, n); });)},
  {"curve.get_derivative", RO, OP_(const NURBSCurve &c = C(o, s); return mk<NURBSCurve>("curve.get_derivative", [&c](NURBSCurve &r) { r = c.get_derivative(); });)},
  {"curve.join", MAYTHROW, OP_(NURBSCurve &c = s.c[(o.n & 1) ? s.c.size() - 2 : o.i % s.c.size()]; const NURBSCurve &d = s.c[s.c.size() - 1]; return mk<std::pair<bool, NURBSCurve>>("curve.join", [&c, &d](std::pair<bool, NURBSCurve> &r) { r.first = c.join(d, r.second); });)},
  {"surface.decompose", RO | MAYTHROW, OP_(const NURBSSurface &f = F(o, s); return mk<std::vector<NURBSSurface>>("surface.decompose", [&f](std::vector<NURBSSurface> &r) { f.decompose(r); });)},
  {"surface.control_points", RO, OP_(const NURBSSurface &f = F(o, s); return mk<std::vector<vec3>>("surface.control_points", [&f](std::vector<vec3> &r) { r = f.control_points_flat3d(); for (auto &row : f.control_points3d()) for (auto &p : row) r.push_back(p); for (auto &row : f.control_points()) for (auto &p : row) r.push_back(p.to_vec3()); });)},
  {"csx", RO | HEAVY | MAYTHROW, OP_(const NURBSCurve &c = s.c[0]; const NURBSSurface &f = s.s[o.i % 2]; int n = o.n; return mk<CSXIntersections>("csx", [&c, &f, n](CSXIntersections &r) { if (n & 1) csx(c, f, r, 1e-2); else r = csx(c, f, 1e-2); }, DG(CSXIntersections) { g.u(r.size()); for (auto &x : r) { g.u((int)std::get<0>(x)); g.p(std::get<1>(x)); for (int k = 0; k < 3; k++) g.d(std::get<2>(x)[k]); } });)},
  {"Monomial2D", RO, OP_(const NURBSSurface &f = F(o, s); int n = o.n; return mk<NURBSSurface>("Monomial2D", [&f, n](NURBSSurface &r) { Monomial2D m(f), d, x(m); if (n & 1) m.computePartialDerivative(n & 2 ? SurfaceParameter::U : SurfaceParameter::V, d); else m.computeNormal(d); if (n & 4) { Monomial2D e(d); e.to_bezier(r); } else d.to_bezier(r); }, DG(NURBSSurface) { g.full(r); });)},
  {"convex_hull(2d)", RO, OP_(const auto &p = PO(o.i, s); return mk<Hull2>("convex_hull(2d)", [&p](Hull2 &r) { r.k = (int)convex_hull(p, r.v); }, DG(Hull2) { g.p(r.k); g.p(r.v); });)},
  {"SphericalSeparability", MAYTHROW, OP_(auto &a = const_cast<std::vector<vec3> &>(CL(o.i, s)), &b = const_cast<std::vector<vec3> &>(CL(o.j, s)); int n = o.n; return mk<bool>("SphericalSeparability", [&a, &b, n](bool &r) { switch (n % 3) { case 0: r = SphericalSeparabilityTest(a, b); break; case 1: r = SphericalAABBTest(a, b); break; default: r = SphericalCentralProjectionTest2(vec3(0, 0, 2), a, b); } });)},
  {"polygonNormals", RO, OP_(const auto &a = PO(o.i, s); bool n = o.n & 1; return mk<std::vector<vec2>>("polygonNormals", [&a, n](std::vector<vec2> &r) { polygonNormals(a, r, n); UnorderedNormal2Set q; polygonUniqueNormals(a, q, n); r.push_back(vec2((double)q.size(), 0)); });)},
  {"plane", RO | MAYTHROW, OP_(const auto &cl = CL(o.i, s); return mk<VecD>("plane", [&cl](VecD &r) { vec3 a(1, 2, 3), b(4, 1, 0), c(0, 5, 2), x; plane p = {{a, b, c}}, q = {{vec3(0, 0, 1), vec3(1, 0, 2), vec3(0, 1, 1)}}; p.signedDistance(cl, r.v); r.v.push_back(isPtsCoplanar(cl)); vec3 hit(0, 0, 0), h2(0, 0, 0); r.v.push_back(p.planeLineIntersection(cl[0], vec3(9, 9, 9), hit)); r.v.push_back(hit.x); r.v.push_back(p.planePlaneIntersection(q, hit, h2)); r.v.push_back(hit.y); r.v.push_back(h2.z); }, DG(VecD) { g.p(r.v); });)},
  {"minimize", RO, OP_(double a = o.a; return mk<Opt>("minimize_scalar_bounded", [a](Opt &r) { std::function<double(double)> f = [a](double t) { return (t - a) * (t - a) + 0.1 * t; }; minimize_scalar_bounded<double>(f, {-2.0, 3.0}, r.r, 1e-5, 60, 0); }, DG(Opt) { g.d(r.r.x); g.d(r.r.fun); g.p((int)r.r.nfev); g.p((int)r.r.status); });)},
  {"binomial", RO, OP_(int n = o.n; return mk<int>("binomial_coefficient", [n](int &r) { r = binomial_coefficient(4 + n % 20, n % 5); });)},
  {"basis functions", RO, OP_(const NURBSCurve &c = C(o, s); double t = cu(c, o.a); return mk<VecD>("basis_funs", [&c, t](VecD &r) { int n = (int)c.control_points.size() - 1; int sp = find_span(n, c._degree, t, c.knots, c._periodic); std::array<double, CMMCORE_DEG_STACK_SIZE> N{}; basis_funs(sp, t, c._degree, c.knots, N); for (int i = 0; i <= c._degree; i++) r.v.push_back(N[i]); vec3 q(0, 0, 0); curve_point(n, c._degree, c.knots, c.control_points, t, q, c._periodic); r.v.insert(r.v.end(), {q.x, q.y, q.z, (double)sp}); if (c._degree <= 3) { std::vector<vec4> k; curve_derivs_alg1(n, c._degree, c.knots, c.control_points, t, 1, k, c._periodic); for (auto &x : k) r.v.insert(r.v.end(), {x.x, x.y, x.z, x.w}); } }, DG(VecD) { g.p(r.v); });)},
  {"MemoryView codec", RO | STREAM, OP_(int n = o.n; return mk<VecD>("MemoryView codec", [n](VecD &r) { std::vector<int> st(60); for (int i = 0; i < 60; i++) st[i] = i * 7 - 5; MemoryView<int> m(st.data(), {3, 4, 5}); std::vector<Slice> sl; sl.push_back(Slice(0, 3, 1 + n % 2)); sl.push_back(Slice(3, 0, -1)); sl.push_back(Slice(1, 5, 1 + n % 3)); MemoryView<int> v = m.slice(sl); std::unique_ptr<MemoryView<int>> wp(v.copy()); MemoryView<int> w(*wp); std::vector<char> b = v.serialize(); MemoryView<int> d = MemoryView<int>::deserialize(b); r.v = {(double)b.size(), (double)v.size(), (double)w.size(), (double)d.size()}; MemoryView<int> *all[] = {&v, &w, &d}; for (MemoryView<int> *x : all) { auto sh = x->shape(); for (size_t i = 0; i < sh[0]; i++) for (size_t j = 0; j < sh[1]; j++) for (size_t k = 0; k < sh[2]; k++) r.v.push_back((*x)({i, j, k})); } std::string t = v.to_string(); for (char ch : t) r.v.push_back(ch); }, DG(VecD) { g.p(r.v); });)},
  {"improve_uv", RO | MAYTHROW, OP_(const NURBSSurface &f = s.s[o.i % 2]; double u = in(o.a, 0.1, 0.9), v = in(o.b, 0.1, 0.9), d = (o.c - 0.5) / 4; return mk<VecD>("improve_uv", [&f, u, v, d](VecD &r) { vec3 du(0, 0, 0), dv(0, 0, 0), p(0, 0, 0); double U = su(f, u), V = sv(f, v); f.evaluate(U, V, p); f.derivative_u(U, V, du); f.derivative_v(U, V, dv); vec2 y(0, 0); improve_uv_robust(f, vec2(U, V), du, du, p, p + vec3(d, d, 0), y, 1e-6, 8); r.v = {y.x, y.y}; improve_uv_robust(f, vec2(U, V), du, dv, p, p + vec3(d, d, 0), y, 1e-6, 8); r.v.push_back(y.x); r.v.push_back(y.y); }, DG(VecD) { g.p(r.v); });)},
  {"solvers (degenerate)", RO, OP_(double a = o.a; int n = o.n; return mk<VecD>("solvers (degenerate)", [a, n](VecD &r) { std::function<double(const Vector<2> &)> f = [n](const Vector<2> &x) { return n & 1 ? std::sqrt(-1 - x[0] * x[0]) : (n & 2 ? x[0] : 1.0); }; Vector<2> x = newtonsMethod<2>(f, {a, a + 1}, 1e-5, 4); r.v = {x[0], x[1]}; }, DG(VecD) { for (double x : r.v) g.u(std::isnan(x) ? 0x7ff8u : 0); for (double x : r.v) if (!std::isnan(x)) g.d(x); });)},
  {"evaluate by a knot", RO, OP_(const NURBSCurve &c = C(o, s); const NURBSSurface &f = F(o, s); double t = by_knot(c.knots, c._interval[0], c._interval[1], o), u = by_knot(f._knots_u, f._interval[0][0], f._interval[0][1], o), v = sv(f, o.b); return mk<V3s>("evaluate by a knot", [&c, &f, t, u, v](V3s &r) { c.evaluate(t, r.a); f.evaluate(u, v, r.b); c.derivative(t, r.c); }, DG(V3s) { g.p(r.a); g.p(r.b); g.p(r.c); });)},
