  {"curve.derivative", RO, OP_(const NURBSCurve &c = C3(o, s); double t = cu(c, o.a); return mk<vec3>("curve.derivative", [&c, t](vec3 &r) { c.derivative(t, r); });)},
  {"curve.derivative(n)", RO, OP_(const NURBSCurve &c = C3(o, s); double t = cu(c, o.a); size_t d = 1 + o.n % 5; return mk<std::vector<vec3>>("curve.derivative(n)", [&c, t, d](std::vector<vec3> &r) { c.derivative(t, r, d); });)},
  {"curve.toSTEP", RO | STREAM, OP_(const NURBSCurve &c = C(o, s); return mk<Str>("curve.toSTEP", [&c](Str &r) { std::ostringstream os; r.id = 100; c.toSTEP(os, r.id); r.fmt = (int)os.precision() * 65536 + (int)os.flags(); if (!os) throw std::ios_base::failure("stream failed"); r.s = os.str(); }, DG(Str) { g.p(r.s); g.p(r.id); g.p(r.fmt); });)},
  {"surface.extract_isocurve", RO, OP_(const NURBSSurface &f = F(o, s); double u = su(f, o.a), v = sv(f, o.a); int n = o.n; return mk<NURBSCurve>("surface.extract_isocurve", [&f, u, v, n](NURBSCurve &r) { SurfaceParameter d = n & 1 ? SurfaceParameter::U : SurfaceParameter::V; double t = n & 1 ? u : v; r = n & 2 ? f.extract_isocurve(t, d) : extract_isocurve(f, t, d); });)},
  {"surface.toSTEP", RO | STREAM, OP_(const NURBSSurface &f = F(o, s); return mk<Str>("surface.toSTEP", [&f](Str &r) { std::ostringstream os; r.id = 7; f.toSTEP(os, r.id); r.fmt = (int)os.precision() * 65536 + (int)os.flags(); if (!os) throw std::ios_base::failure("stream failed"); r.s = os.str(); }, DG(Str) { g.p(r.s); g.p(r.id); g.p(r.fmt); });)},
  {"gaussMapSeparability", RO | MAYTHROW, OP_(const NURBSSurface &a = s.s[0], &b = s.s[1]; return mk<bool>("gaussMapSeparability", [&a, &b](bool &r) { r = gaussMapSeparability(a, b); });)},
  {"GJK", RO, OP_(const auto &a = CL(o.i, s), &b = CL(o.j, s); return mk<GJKr>("GJK", [&a, &b](GJKr &r) { std::vector<vec3> sx; r.hit = GJK(a, b, sx, r.cpt); }, DG(GJKr) { g.p(r.hit); g.p(r.cpt); });)},
  {"SAT3D", RO, OP_(const auto &a = CL(o.i, s), &b = CL(o.j, s); return mk<bool>("SAT3D", [&a, &b](bool &r) { r = SAT3D(a, b, 1e-6); });)},
  {"assemble_polylines", 0, OP_(auto &sg = s.seg; return mk<std::vector<std::list<vec3>>>("assemble_polylines", [&sg](std::vector<std::list<vec3>> &r) { std::vector<Segment> v; for (auto &x : sg) v.push_back({x.first, x.second}); assemble_polylines(v, r); });)},
  {"curve_deriv_cpts", RO, OP_(const NURBSCurve &c = C(o, s); return mk<std::vector<std::vector<vec4>>>("curve_deriv_cpts", [&c](std::vector<std::vector<vec4>> &r) { curve_deriv_cpts(c._degree, c.knots, c.control_points, 1, 0, (int)c.control_points.size() - 1, r); });)},
  {"curve setters", MAYTHROW, OP_(const NURBSCurve &c = C(o, s); int n = o.n; return mk<NURBSCurve>("curve setters", [&c, n](NURBSCurve &r) { NURBSCurve q(c); std::vector<double> k = q.get_knots(); for (auto &x : k) x = 2 * x + 1; if (n & 1) q.set_knots(k); std::vector<vec4> p = q.get_control_points(); std::reverse(p.begin(), p.end()); if (n & 2) q.set_control_points(p); if (n & 4) q.set_degree(q.get_degree()); AABB b = q.bbox(); (void)b; r = std::move(q); }, DG(NURBSCurve) { g.p(r); });)},
  {"GJK (limits)", RO | MAYTHROW, OP_(const auto &a = CL(o.i, s), &b = CL(o.j, s); int n = o.n; return mk<GJKr>("GJK (limits)", [&a, &b, n](GJKr &r) { std::vector<vec3> sx; r.hit = GJK(a, b, sx, r.cpt, n & 1 ? 1e-9 : 0.0, 1 + n % 6); }, DG(GJKr) { g.p(r.hit); g.p(r.cpt); });)},
  {"plane (forms)", RO, OP_(const auto &cl = CL(o.i, s), &cm = CL(o.j, s); int n = o.n; return mk<VecD>("plane (forms)", [&cl, &cm, n](VecD &r) { const vec3 &a = cl[0], &b = cm[0]; const vec3 ax[3] = {vec3(3, 1, 0.5), vec3(0.5, 4, 1), vec3(1, 0.25, 5)}; plane z, p(ax[n % 3].x, ax[n % 3].y, ax[n % 3].z, a.x), q(ax[(n / 3) % 3]), w(b, vec3(1, 2, -1)); vec3 x(0, 0, 0), y(0, 0, 0), t(0, 0, 0), e(0, 0, 0), l(0, 0, 0); r.v.push_back(p.planePlaneIntersection(q, x, y)); r.v.push_back(q.planePlaneIntersection(w, x, y)); r.v.push_back(w.planePlaneIntersection(z, x, y)); r.v.push_back(z.planePlaneIntersection(z, x, y)); r.v.push_back(p.planePlanePlaneIntersection(q, w, t)); r.v.push_back(p.planePlanePlaneIntersection(p, w, t)); r.v.push_back(z.planeRayIntersection(vec3(1, 2, 0), vec3(1, 1, 0), l)); r.v.push_back(z.planeRayIntersection(vec3(1, 2, 3), vec3(1, 1, 0), l)); r.v.push_back(z.planeLineIntersection(vec3(1, 2, 0), vec3(1, 1, 0), l)); r.v.push_back(z.planeLineIntersection(vec3(1, 2, 3), vec3(1, 1, 3), l)); r.v.push_back(z.planeLineIntersection(a, vec3(1, 1, 9), l)); for (const plane *k : {&z, &p, &q, &w}) r.v.insert(r.v.end(), {k->equation.x, k->equation.y, k->equation.z, k->equation.w, k->normal.x, k->normal.y, k->normal.z, k->origin.x, k->origin.y, k->origin.z, k->signedDistance(b)}); cplane c(a, vec3(1, 0, 0), vec3(0, 1, 1)), d(std::make_tuple(vec3(1, 2, 3), vec3(2, 0, 1), vec3(0, 3, 1))), f; std::vector<vec3> uvh; for (const cplane *k : {&c, &d, &f}) { k->evaluate(a.x, b.y, e); k->evaluateInv(b, l); k->evaluateInv(cl, uvh); r.v.insert(r.v.end(), {e.x, e.y, e.z, l.x, l.y, l.z, k->signedDistance(b), k->xaxis.x, k->yaxis.z}); for (auto &u : uvh) r.v.insert(r.v.end(), {u.x, u.y, u.z}); } for (const vec3 &u : {x, y, t}) r.v.insert(r.v.end(), {u.x, u.y, u.z}); }, DG(VecD) { g.p(r.v); });)},
  {"surface (out parameters)", RO, OP_(const NURBSSurface &f = F(o, s); double u = in(o.a, f._interval[0][0] + 1e-4, f._interval[0][1] - 1e-4), v = in(o.b, f._interval[1][0] + 1e-4, f._interval[1][1] - 1e-4); return mk<VecD>("surface (out parameters)", [&f, u, v](VecD &r) { AABB b = f.aabb(); vec3 p(0, 0, 0), q(0, 0, 0); f.derivative_u(u, v, p); f.derivative_v(u, v, q); r.v = {b.min.x, b.max.y, p.x, p.y, p.z, q.x, q.y, q.z}; }, DG(VecD) { g.p(r.v); });)},
  {"MatrixD (forms)", RO | MAYTHROW, OP_(const MatrixD &a = s.m[0], &b = s.m[1]; int n = o.n; return mk<VecD>("MatrixD (forms)", [&a, &b, n](VecD &r) { MatrixD c(a), d(2, 3); d = b; r.v = {(double)c.getRows(), (double)d.getCols(), c(0, 0)}; std::array<double, 2> p{a(0, 0), 1}, q{2, b(0, 0)}; Matrix2x2 m(p, q), e, k{{1, 2}, {3, 4}}; r.v.push_back(m.det()); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { r.v.push_back(e[i][j]); r.v.push_back(k[i][j]); r.v.push_back(m[i][j]); } if (n % 4 == 3) { MatrixD w(2, 3), z(2, 2); if (n & 8) z = w.inverse(); else if (n & 4) z = z.inverse(); else z = z * MatrixD(3, 3); r.v.push_back(z(0, 0)); } }, DG(VecD) { g.p(r.v); });)},
  {"Monomial2D (forms)", RO, OP_(const NURBSSurface &f = F(o, s); int n = o.n; return mk<std::vector<std::vector<std::vector<vec3>>>>("Monomial2D (forms)", [&f, n](std::vector<std::vector<std::vector<vec3>>> &r) { Monomial2D m(f), a((int)m.coefficients.size(), (int)m.coefficients[0].size(), m.coefficients), b(2 + n % 3, 2 + n / 4), c(m.coefficients), d; d = c; d = *&d; r = {a.coefficients, b.coefficients, c.coefficients, d.coefficients}; });)},
  {"text of numbers", RO | STREAM, OP_(const auto &cl = CL(o.i, s); double a = o.a; return mk<Str>("text of numbers", [&cl, a](Str &r) { r.s = formatReal(a / 3) + formatReal(cl[0].x) + formatReal(-1e-300); std::ostringstream os; os.imbue(std::locale::classic()); os.exceptions(std::ios::badbit); os << cl[0] << vec2(a, 1) << vec4(a, 2, 3, 4); r.s += os.str(); }, DG(Str) { g.p(r.s); });)},
  {"reused results", RO, OP_(const NURBSCurve &a = C(o, s), &b = C3(o, s); const NURBSSurface &f = F(o, s), &h = s.s[(o.i + 1) % s.s.size()]; int n = o.n; double t = cu(a, o.a); return mk<Reuse1>("reused results", [&a, &b, &f, &h, n, t](Reuse1 &r) { auto pv = n & 1 ? SurfaceParameter::U : SurfaceParameter::V; auto T3 = [](const NURBSSurface &x) { return x.control_points3d(); }; Tensor2D<vec3> F3 = T3(f), H3 = T3(h); if (F3.size() > 1 && F3[0].size() > 1 && H3.size() > 1 && H3[0].size() > 1) { compute_partial_derivative(F3, pv, r.d.a); compute_partial_derivative(H3, pv, r.d.b); compute_partial_derivative(F3, pv, r.d.b); cross(F3, r.d.a, r.c.a); cross(H3, H3, r.c.b); cross(F3, r.d.b, r.c.b); } f.control_points_flat3d(r.p.a); h.control_points_flat3d(r.p.b); f.control_points_flat3d(r.p.b); a.get_control_points3d(r.q.a); b.get_control_points3d(r.q.b); a.get_control_points3d(r.q.b); inverseControlPoints(r.q.a, r.inv.a); inverseControlPoints(r.p.a, r.inv.b); inverseControlPoints(r.q.b, r.inv.b); a.derivative(t, r.der.a, 1 + n % 3); b.derivative(cu(b, 0.5), r.der.b, 2); a.derivative(t, r.der.b, 1 + n % 3); getKnotMultiplicities(a.knots, r.k.a, r.m.a); getKnotMultiplicities(b.knots, r.k.b, r.m.b); getKnotMultiplicities(a.knots, r.k.b, r.m.b); }, DG(Reuse1) { auto P = [](Dig &x, auto &v) { x.p(v); }; same(g, r.d, "compute_partial_derivative", P); same(g, r.c, "cross", P); same(g, r.p, "control_points_flat3d", P); same(g, r.q, "get_control_points3d", P); same(g, r.inv, "inverseControlPoints", P); same(g, r.der, "derivative", P); same(g, r.k, "getKnotMultiplicities", P); same(g, r.m, "getKnotMultiplicities", P); });)},
