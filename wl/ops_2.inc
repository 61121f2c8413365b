  {"curve.edit", 0, OP_(const NURBSCurve &c = C(o, s); int n = o.n; return mk<NURBSCurve>("curve.edit", [&c, n](NURBSCurve &r) { NURBSCurve q(c); if (n & 1) { q.normalize_knots(); } if (n & 2) { std::vector<vec4> p = q.control_points; p.push_back(p[0]); q.set_control_points(p); } if (n & 4) q.rebuildAABB(); r = q; }, DG(NURBSCurve) { g.p(r); g.p(r._aabb); });)},
  {"surface.split", RO | MAYTHROW, OP_(const NURBSSurface &f = F(o, s); double a = o.a, n = o.n; return mk<std::pair<NURBSSurface, NURBSSurface>>("surface.split", [&f, a, n](std::pair<NURBSSurface, NURBSSurface> &r) { if ((int)n & 1) r = f.split_surface_u(su(f, a)); else r = f.split_surface_v(sv(f, a)); });)},
  {"point_inversion_surface", RO | HEAVY | MAYTHROW, OP_(const NURBSSurface &f = s.s[o.i % 2]; vec3 q(in(o.b, -0.5, 0.5), in(o.c, -0.5, 0.5), 0.1); return mk<std::array<double, 2>>("point_inversion_surface", [&f, q](std::array<double, 2> &r) { r = point_inversion_surface(f, q, 0.5, 0.5, 1e-3, 1e-3, 3); });)},
  {"sort_boundary_intersections", RO, OP_(const auto &cl = CL(o.i, s); return mk<std::vector<std::vector<IntersectionPoint>>>("sort_boundary_intersections", [&cl](std::vector<std::vector<IntersectionPoint>> &r) { std::vector<IntersectionPoint> pts; std::array<std::array<double, 2>, 2> iv{{{0, 1}, {0, 1}}}; int k = 0; for (auto &p : cl) { pts.emplace_back(p, 0.5, std::array<double, 2>{p.x, p.y}, k & 3, k & 1, iv); k++; } sort_boundary_intersections(pts, r); });)},
  {"MatrixD", RO | MAYTHROW, OP_(const MatrixD &a = s.m[0], &b = s.m[1]; int n = o.n; return mk<MatrixD>("MatrixD", [&a, &b, n](MatrixD &r) { if (n & 1) r = a * a.inverse(); else r = a * b; r = r.transpose(); });)},
  {"convex_hull(3d)", RO, OP_(const auto &cl = CL(o.i, s); return mk<Hull3>("convex_hull(3d)", [&cl](Hull3 &r) { r.k = (int)convex_hull(cl, r.v); }, DG(Hull3) { g.p(r.k); g.p(r.v); });)},
  {"convex_hull3d", RO, OP_(const auto &cl = CL(o.i, s); return mk<std::vector<vec3>>("convex_hull3d", [&cl](std::vector<vec3> &r) { convex_hull3d(cl, r); });)},
  {"AABBTest", RO, OP_(const auto &a = CL(o.i, s), &b = CL(o.j, s); return mk<bool>("AABBTest", [&a, &b](bool &r) { r = AABBTest(a, b); });)},
  {"knot_insertion", RO | MAYTHROW, OP_(const NURBSCurve &c = C(o, s); double t = cu(c, in(o.a, 0.02, 0.98)); return mk<std::pair<std::vector<vec4>, std::vector<double>>>("knot_insertion", [&c, t](std::pair<std::vector<vec4>, std::vector<double>> &r) { int n = (int)c.control_points.size() - 1, sp = find_span(n, c._degree, t, c.knots, false), mu = find_multiplicity(t, c.knots); if (mu >= c._degree) return; r.first = knot_insertion(c._degree, c.knots, c.control_points, t, 1, mu, sp); r.second = knot_insertion_kv(c.knots, t, sp, 1); });)},
  {"integrate", RO, OP_(double a = o.a, b = o.b; return mk<std::pair<double, double>>("integrate", [a, b](std::pair<double, double> &r) { std::function<double(double)> f = [a](double t) { return 1 + a * t * t; }; integrate(f, -1, 1 + b, r.first, r.second, 1e-4, 6); });)},
  {"newton", RO, OP_(double a = o.a; return mk<std::pair<double, double>>("newtonsMethod", [a](std::pair<double, double> &r) { std::function<double(const Vector<2> &)> f = [a](const Vector<2> &v) { return (v[0] - a) * (v[0] - a) + (v[1] + a) * (v[1] + a); }; Vector<2> p; p[0] = 0.5; p[1] = 1; p = newtonsMethod<2>(f, p, 1e-5, 6); r = {p[0], p[1]}; });)},
  {"MemoryView", 0, OP_(int n = o.n; return mk<std::vector<double>>("MemoryView", [n](std::vector<double> &r) { std::vector<double> st(24); for (int i = 0; i < 24; i++) st[i] = i * 1.5; MemoryView<double> m(st.data(), {2, 3, 4}); MemoryView<double> q = m[n % 2]; MemoryView<double> e(q); e.reshape({4, 3}); for (size_t i = 0; i < 4; i++) for (size_t j = 0; j < 3; j++) r.push_back(e({i, j})); for (size_t x : q.shape()) r.push_back((double)x); });)},
  {"serialize", 0, OP_(auto &cv = s.c; return mk<std::vector<NURBSCurve>>("serializeNURBSCurves", [&cv](std::vector<NURBSCurve> &r) { std::vector<uint8_t> b = serializeNURBSCurves(cv); r = deserializeNURBSCurves(b); });)},
  {"plane (more)", RO | MAYTHROW, OP_(const auto &cl = CL(o.i, s), &cm = CL(o.j, s); return mk<VecD>("plane (more)", [&cl, &cm](VecD &r) { vec3 a = cl[0], b = cm[0]; plane p = {{a, vec3(4, 1, 0), vec3(0, 5, 2)}}, q = {{vec3(0, 0, 1), vec3(1, 0, 2), b}}, w = {{vec3(0, 3, 0), vec3(1, 0, 0), vec3(1, 1, 7)}}; vec3 x(0, 0, 0), y(0, 0, 0); r.v.push_back(p.planePlanePlaneIntersection(q, w, x)); r.v.push_back(p.planeRayIntersection(b, vec3(0.5, 1, -2), y)); r.v.insert(r.v.end(), {x.x, x.y, x.z, y.x, y.y, y.z}); vec4 e(0, 0, 0, 0); plane_eq_from_pts(a, vec3(4, 1, 0), b, e); r.v.insert(r.v.end(), {e.x, e.y, e.z, e.w, planeSignedDistance(vec3(1, 1, 1), e)}); }, DG(VecD) { g.p(r.v); });)},
  {"Monomial2D (copies)", RO, OP_(const NURBSSurface &f = F(o, s), &h = s.s[(o.i + 1) % s.s.size()]; return mk<std::vector<std::vector<vec3>>>("Monomial2D (copies)", [&f, &h](std::vector<std::vector<vec3>> &r) { Monomial2D m(f), q(h); Monomial2D d; q = m; q.computePartialDerivative(SurfaceParameter::U, d); r = d.coefficients; r.insert(r.end(), q.coefficients.begin(), q.coefficients.end()); });)},
  {"curve.join (ends)", MAYTHROW, OP_(const NURBSCurve &c = s.c[s.c.size() - 2], &d = s.c[s.c.size() - 1]; int n = o.n; return mk<std::pair<bool, NURBSCurve>>("curve.join (ends)", [&c, &d, n](std::pair<bool, NURBSCurve> &r) { NURBSCurve a(c), b(d); if (n & 1) { std::vector<vec4> p(a.control_points.rbegin(), a.control_points.rend()); a = NURBSCurve(p, a._degree); } if (n & 2) { std::vector<vec4> p(b.control_points.rbegin(), b.control_points.rend()); b = NURBSCurve(p, b._degree); } if (n & 8) { b.control_points.back() = a.control_points.front(); } r.first = n & 4 ? b.join(a, r.second) : a.join(b, r.second); });)},
  {"cross(surfaces)", RO | MAYTHROW, OP_(const NURBSSurface &f = F(o, s); return mk<std::vector<std::vector<vec4>>>("cross(surfaces)", [&f](std::vector<std::vector<vec4>> &r) { NURBSSurface x = cross(f, f); r = x._control_points; });)},
  {"numeric helpers", RO, OP_(const auto &cl = CL(o.i, s); double a = o.a; return mk<VecD>("numeric helpers", [&cl, a](VecD &r) { vec3 p = cl[0], q = cl.back(), d(1, 2, 3), x(0, 0, 0), y(0, 0, 0); double t = 0, u = 0; vec2 z(0, 0), w(0, 0); r.v.push_back(segmentsDistance(p, p + d, q, q + d, t, u, x, y)); r.v.push_back(segmentsDistance(p, p + d, q, q + d)); centerProjectionToXY(p, q, z); centerProjectionToXY(p, vec3(q.x, q.y, p.z), w); r.v.insert(r.v.end(), {t, u, x.x, x.y, x.z, y.x, y.y, y.z, z.x, z.y, w.x, w.y, calc_epsilon(p.x), calc_epsilon(0), calc_epsilon(a * 1e30), dot(p, q), dist(p, q), dist2(p, q)}); vec3 v = vectorProjection(p, d); vectorProjection(q, d, x); double a0 = 0, a1 = 0, a2 = 0; assign(q, a0, a1, a2); r.v.insert(r.v.end(), {v.x, v.y, v.z, x.x, a0, a1, a2, cross(vec2(p.x, p.y), vec2(q.x, q.y)), dot(vec2(p.x, p.y), vec2(q.x, q.y))}); vec4 c4(0, 0, 0, 0); cross(p, q, c4); r.v.insert(r.v.end(), {c4.x, c4.y, c4.z, c4.w}); }, DG(VecD) { g.p(r.v); });)},
  {"reused shapes", MAYTHROW, OP_(NURBSSurface &f = s.s[o.i % 2], &h = s.s[(o.i + 1) % 2]; const NURBSCurve &a = C(o, s), &b = C3(o, s); int o_n = o.n; return mk<Reuse2>("reused shapes", [&f, &h, &a, &b, o_n](Reuse2 &r) { Monomial2D m(f), x(h); m.to_bezier(r.bez.a); r.bez.b = h; x.to_bezier(r.bez.b); m.to_bezier(r.bez.b); m.to_bezier(r.asg.a); x = m; try { x.to_bezier(r.asg.b); } catch (std::runtime_error &) { r.asg.b = NURBSSurface(); } NURBSSurface u, v; f.subdivide(r.tl.a, u, v, r.br.a); h.subdivide(r.tl.b, u, v, r.br.b); f.subdivide(r.tl.b, u, v, r.br.b); a.get_derivative(r.hod.a); r.hod.b = b; a.get_derivative(r.hod.b); int dir = o_n & 1; f.get_derivative(dir, r.sd.a); r.sd.b = h; h.get_derivative(1 - dir, r.sd.b); f.get_derivative(dir, r.sd.b); if (f._size[0] == f._size[1]) { cross(f, f, r.cr.a); r.cr.b = h; cross(f, f, r.cr.b); } NURBSCurve c = a; r.jn.b = b; c.join(b, r.jn.a); c.join(b, r.jn.b); GaussMap p(f), q(h); q.build(f); r.gm.a.pts = p.pts; r.gm.a.inv = p.pts_inv; r.gm.a.surf = p.surf; r.gm.b.pts = q.pts; r.gm.b.inv = q.pts_inv; r.gm.b.surf = q.surf; }, DG(Reuse2) { auto P = [](Dig &x, auto &v) { x.p(v); }; auto Q = [](Dig &x, NURBSSurface &v) { x.full(v); }; same(g, r.asg, "Monomial2D::operator=", Q); same(g, r.bez, "to_bezier", Q); same(g, r.tl, "subdivide", Q); same(g, r.br, "subdivide", Q); same(g, r.hod, "get_derivative", [](Dig &x, NURBSCurve &v) { x.p(v); x.p(v._aabb); }); same(g, r.sd, "surface get_derivative", Q); same(g, r.cr, "cross(surfaces)", [](Dig &x, NURBSSurface &v) { x.p(v._control_points); x.u(v._size[0]); x.u(v._size[1]); }); same(g, r.gm, "GaussMap::build", [](Dig &x, GM &v) { x.p(v.pts); x.p(v.inv); x.full(v.surf); }); });)},
