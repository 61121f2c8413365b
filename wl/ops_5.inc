  {"curve.derivative_fdm", RO, OP_(const NURBSCurve &c = C(o, s); double t = in(o.a, c._interval[0] + 1e-4, c._interval[1] - 1e-4); return mk<V3s>("curve.derivative_fdm", [&c, t](V3s &r) { c.derivative_fdm(t, r.a); c.second_derivative_fdm(t, r.b); }, DG(V3s) { g.p(r.a); g.p(r.b); });)},
  {"curve.lengthAt", HEAVY, OP_(NURBSCurve &c = const_cast<NURBSCurve &>(C3(o, s)); double l = o.a * 2; return mk<double>("curve.lengthAt", [&c, l](double &r) { r = c.lengthAt(l, 1e-2); });)},
  {"curve.control_points3d", RO, OP_(const NURBSCurve &c = C(o, s); return mk<std::vector<vec3>>("curve.get_control_points3d", [&c](std::vector<vec3> &r) { c.get_control_points3d(r); std::vector<vec3> q = c.get_control_points3d(); r.insert(r.end(), q.begin(), q.end()); });)},
  {"curve copy", RO, OP_(const NURBSCurve &c = C(o, s); return mk<NURBSCurve>("curve copy", [&c](NURBSCurve &r) { NURBSCurve q(c); r = q; });)},
  {"surface.evaluate", RO, OP_(const NURBSSurface &f = F(o, s); double u = su(f, o.a), v = sv(f, o.b); return mk<vec3>("surface.evaluate", [&f, u, v](vec3 &r) { f.evaluate(u, v, r); });)},
  {"surface.derivatives", RO, OP_(const NURBSSurface &f = F(o, s); double u = in(o.a, f._interval[0][0] + 1e-4, f._interval[0][1] - 1e-4), v = in(o.b, f._interval[1][0] + 1e-4, f._interval[1][1] - 1e-4); return mk<V3s>("surface.derivatives", [&f, u, v](V3s &r) { f.derivative_u(u, v, r.a); f.derivative_v(u, v, r.b); f.normal(u, v, r.c); }, DG(V3s) { g.p(r.a); g.p(r.b); g.p(r.c); });)},
  {"surface.subdivide", RO | MAYTHROW, OP_(const NURBSSurface &f = F(o, s); double a = in(o.a, 0.05, 0.95), b = in(o.b, 0.05, 0.95); int n = o.n; return mk<std::array<NURBSSurface, 4>>("surface.subdivide", [&f, a, b, n](std::array<NURBSSurface, 4> &r) { switch (n & 3) { case 0: r = f.subdivide(); break; case 1: r = f.subdivide(su(f, a), sv(f, b)); break; case 2: f.subdivide(r[0], r[1], r[2], r[3]); break; default: f.subdivide(r[0], r[1], r[2], r[3], su(f, a), sv(f, b)); } });)},
  {"surface.bbox", 0, OP_(NURBSSurface &f = const_cast<NURBSSurface &>(F(o, s)); return mk<AABB>("surface.bbox", [&f](AABB &r) { r = f.bbox(); });)},
  {"point_inversion_curve", RO | HEAVY, OP_(const NURBSCurve &c = C3(o, s); double t = cu(c, in(o.a, 0.3, 0.7)); vec3 q(o.b * 4, o.c * 4, 1); return mk<double>("point_inversion_curve", [&c, t, q](double &r) { r = point_inversion_curve(c, q, t, 1e-3, 1e-3, 3); });)},
  {"ccx", HEAVY | MAYTHROW, OP_(NURBSCurve &a = s.c[1], &b = s.c[2]; double tol = o.n & 1 ? 0.25 : 0.1; return mk<std::vector<std::pair<double, double>>>("ccx", [&a, &b, tol](std::vector<std::pair<double, double>> &r) { ccx(a, b, tol, r); });)},
  {"findStartIntersectionPoints", RO | HEAVY | MAYTHROW, OP_(const NURBSSurface &a = s.s[0], &b = s.s[1]; return mk<Inter>("findStartIntersectionPoints", [&a, &b](Inter &r) { findStartIntersectionPoints(a, b, 5e-2, r.x); }, DG(Inter) { g.u(r.x.points.size()); for (auto &p : r.x.points) { g.p(p.uv1); g.p(p.uv2); g.p(p.xyz); } g.u(r.x.patches.size()); for (auto &p : r.x.patches) { g.p(p.start); g.p(p.end); } });)},
  {"GaussMap", MAYTHROW, OP_(NURBSSurface &a = s.s[0], &b = s.s[1]; return mk<GM>("GaussMap", [&a, &b](GM &r) { GaussMap x(a), y(b), q[4]; r.sep = x.separabilityTest(y); x.subdivide(q[0], q[1], q[2], q[3]); r.pts = x.pts; r.inv = y.pts_inv; for (auto &m : q) r.sub.insert(r.sub.end(), m.pts.begin(), m.pts.end()); r.surf = x.surf; }, DG(GM) { g.p(r.pts); g.p(r.inv); g.p(r.sub); g.p(r.sep); g.p(r.surf); });)},
  {"bpmat", RO, OP_(int n = o.n % 6; return mk<MatrixD>("bpmat", [n](MatrixD &r) { r = bpmat(n).inverse() * bpmat(n).transpose(); });)},
  {"segmentsDistance", RO, OP_(const auto &cl = CL(o.i, s); return mk<Segr>("segmentsDistance", [&cl](Segr &r) { vec3 a = cl[0], b = cl.back(); r.d = segmentsDistance(a, vec3(1, 2, 3), b, vec3(0, 1, -2), r.t, r.u, r.a, r.b) + segmentsDistance(a, vec3(1, 2, 3), b, vec3(0, 1, -2)); }, DG(Segr) { g.d(r.d); g.d(r.t); g.d(r.u); g.p(r.a); g.p(r.b); });)},
  {"BVH", 0, OP_(auto &bx = s.box; int n = o.n; vec3 q(o.a * 8, o.b * 8, o.c * 8); return mk<std::vector<int>>("BVH", [&bx, n, q](std::vector<int> &r) { std::vector<std::unique_ptr<Object3D>> ob; for (size_t i = 0; i < bx.size(); i++) ob.push_back(std::make_unique<Object3D>(bx[i], (int)i)); std::vector<Object3D *> p; for (auto &x : ob) p.push_back(x.get()); std::unique_ptr<BVHNode> t = build_bvh(p, (n & 2) != 0); std::vector<const Object3D *> hit; contains_point(t.get(), q, hit); for (auto *h : hit) r.push_back(h->id); hit.clear(); traverse_bvh(t.get(), AABB(vec3(-100, -100, -100), vec3(100, 100, 100)), hit); for (auto *h : hit) r.push_back(h->id); std::vector<std::pair<const BVHNode *, const BVHNode *>> pr; if (n & 1) intersect_bvh_iterative(t.get(), t.get(), pr); else intersect_bvh(t.get(), t.get(), pr); for (auto &x : pr) { r.push_back(x.first->object->id); r.push_back(x.second->object->id); } });)},
  {"formatting", RO | STREAM, OP_(auto &bx = s.box; const auto &cl = CL(o.i, s); return mk<Str>("formatting", [&bx, &cl](Str &r) { r.s = format_vec3vec(cl) + format_vec3(cl[0]); std::vector<std::unique_ptr<Object3D>> ob; for (size_t i = 0; i < bx.size(); i++) ob.push_back(std::make_unique<Object3D>(bx[i], (int)i)); std::vector<Object3D *> p; for (auto &x : ob) p.push_back(x.get()); std::unique_ptr<BVHNode> t = build_bvh(p, true); r.s += output_bvh_nodes(t.get()); r.s += output_objects3d(p); }, DG(Str) { g.p(r.s); });)},
  {"getKnotMultiplicities", RO, OP_(const NURBSCurve &c = C(o, s); int n = o.n; return mk<std::pair<std::vector<double>, std::vector<int>>>("getKnotMultiplicities", [&c, n](std::pair<std::vector<double>, std::vector<int>> &r) { getKnotMultiplicities(n & 1 ? c.knots : std::vector<double>(n / 8, 1.0), r.first, r.second); });)},
  {"small polygons and clouds", RO | MAYTHROW, OP_(const auto &a = PO(o.i, s); const auto &cl = CL(o.j, s); int n = o.n; return mk<VecD>("small polygons and clouds", [&a, &cl, n](VecD &r) { polygon2 one{a[0]}, two{a[1]}, none; std::vector<vec2> h; std::vector<vec3> k, flat; if (n & 1) { r.v.push_back(SAT2D(one, a)); r.v.push_back(SAT2D(a, one)); r.v.push_back(SAT2D(one, two)); } r.v.push_back((double)convex_hull(one, h)); r.v.push_back((double)h.size()); h.clear(); r.v.push_back((double)convex_hull(none, h)); k.clear(); r.v.push_back((double)convex_hull(std::vector<vec3>{cl[0]}, k)); for (size_t i = 0; i < std::min<size_t>(3, cl.size()); i++) flat.push_back(vec3(cl[i].x, cl[i].y, 0)); k.clear(); r.v.push_back((double)convex_hull(flat, k)); for (auto &p : k) r.v.push_back(p.x); k.clear(); r.v.push_back((double)convex_hull(std::vector<vec3>{}, k)); if (n % 8 == 7) r.v.push_back(SAT2D(none, a)); }, DG(VecD) { g.p(r.v); });)},
  {"hashing", RO, OP_(const auto &cl = CL(o.i, s); const auto &a = PO(o.j, s); return mk<std::vector<size_t>>("hashing", [&cl, &a](std::vector<size_t> &r) { std::unordered_set<vec3, Vec3Hash, Vec3Equal> u(cl.begin(), cl.end()); std::unordered_set<vec2, Vec2Hash, Vec2Equal> w(a.begin(), a.end()); std::unordered_set<std::pair<double, double>, PairDoubleHash_t, PairDoubleEqual_t> x; for (auto &p : cl) x.insert({p.x, p.y}); r = {u.size(), w.size(), x.size(), Vec3Hash()(cl[0]), Vec2Hash()(a[0]), PairDoubleHash_t()({cl[0].x, cl[0].y}), (size_t)(cl[0] < cl.back())}; });)},
