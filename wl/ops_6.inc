  {"curve()", RO, OP_(const NURBSCurve &c = C(o, s); double t = cu(c, o.a); return mk<vec3>("curve()", [&c, t](vec3 &r) { r = c(t); });)},
  {"curve.insert_knot", MAYTHROW, OP_(const NURBSCurve &c = C(o, s); double t = cu(c, o.a); int n = o.n % 3; return mk<NURBSCurve>("curve.insert_knot", [&c, t, n](NURBSCurve &r) { NURBSCurve q(c); q.insert_knot(t, n); r = q; });)},
  {"surface.boundaries", RO, OP_(const NURBSSurface &f = F(o, s); int n = o.n; return mk<std::array<NURBSCurve, 4>>("surface.boundaries", [&f, n](std::array<NURBSCurve, 4> &r) { if (n & 1) f.extract_surface_boundaries(r); else extract_surface_boundaries(f, r); });)},
  {"surface.get_derivative", RO, OP_(const NURBSSurface &f = F(o, s); int n = o.n & 1; return mk<NURBSSurface>("surface.get_derivative", [&f, n](NURBSSurface &r) { r = f.get_derivative(n); });)},
  {"surface copy", RO, OP_(const NURBSSurface &f = F(o, s); return mk<NURBSSurface>("surface copy", [&f](NURBSSurface &r) { NURBSSurface q(f); r = q; }, DG(NURBSSurface) { g.full(r); });)},
  {"gaussMap", RO, OP_(const NURBSSurface &f = s.s[o.i % 2]; return mk<NURBSSurface>("gaussMap", [&f](NURBSSurface &r) { r = gaussMap(f); }, DG(NURBSSurface) { g.full(r); });)},
  {"closestPoint", RO, OP_(const auto &cl = CL(o.i, s), &cm = CL(o.j, s); return mk<std::vector<vec3>>("closestPoint", [&cl, &cm](std::vector<vec3> &r) { vec3 a = cl[0], b = cm[0], c(1, 2, 3.5), d(-2, 0.5, 1); r.push_back(closestPointOnLine(a, c, d)); r.push_back(closestPointOnRay(a, c, d)); r.push_back(closestPointOnTriangle(a, b, c, d)); vec3 t(a), u(c), w(d); r.push_back(closestPointOnSegm(t, u, w)); });)},
  {"KDTree", 0, OP_(auto &cl = const_cast<std::vector<vec3> &>(CL(o.i, s)); int n = o.n; vec3 q(o.a * 4, o.b * 4, o.c * 4); return mk<std::vector<vec3>>("KDTree", [&cl, n, q](std::vector<vec3> &r) { KDTree<vec3, PointComparator3D> t; if (n & 1) { std::vector<vec3> v = cl; t.build(v); } else for (auto &p : cl) t.insert(p); KDTree<vec3, PointComparator3D> u(t); u.insert(q); r = u.rangeSearch(vec3(-3, -3, -3), vec3(3, 3, 3)); r.push_back(u.nearestNeighbor(vec3(q.z, q.x, q.y))); r.push_back(vec3((double)t.size(), (double)u.size(), 0)); });)},
  {"curve file", STREAM | PRIVATE, OP_(auto &cv = s.c; std::string p = "/sim/ops" + std::to_string(o.id); return mk<std::pair<bool, std::vector<NURBSCurve>>>("writeNURBSCurvesToFile", [&cv, p](std::pair<bool, std::vector<NURBSCurve>> &r) { r.first = writeNURBSCurvesToFile(p, cv); if (!r.first) throw std::ios_base::failure("write failed"); r.second = readNURBSCurvesFromFile(p); });)},
  {"Matrix2x2", RO | MAYTHROW, OP_(double a = o.a, b = o.b, c = o.c; return mk<VecD>("Matrix2x2", [a, b, c](VecD &r) { Matrix2x2 m(a, b, c, 1 - a), q = m.transpose() * Matrix2x2::fromDiag({b, c}) * Matrix2x2::eye(); std::array<double, 2> y = q * std::array<double, 2>{a, c}, z{0, 0}; r.v = {m.det(), y[0], y[1], q[0][1], q[1][0]}; r.v.push_back(solve2x2(m, y, z)); r.v.push_back(z[0]); r.v.push_back(z[1]); Matrix2x2 i = m.inverse(); r.v.push_back(i[0][0]); r.v.push_back(i[1][0]); }, DG(VecD) { g.p(r.v); });)},
  {"writeSTEPFile", RO | STREAM | PRIVATE, OP_(const NURBSSurface &f = F(o, s); std::string p = "/sim/step" + std::to_string(o.id); return mk<Str>("writeSTEPFile", [&f, p](Str &r) { f.writeSTEPFile(p); { sim::Inactive ia; r.s = sim::fs::get(p); size_t k = r.s.find("FILE_NAME"), e = k == std::string::npos ? k : r.s.find(";", k); if (e != std::string::npos) r.s.erase(k, e - k); } }, DG(Str) { g.p(r.s); });)},
  {"surface cross", RO | MAYTHROW, OP_(const NURBSSurface &f = F(o, s); return mk<std::vector<std::vector<vec4>>>("surface cross", [&f](std::vector<std::vector<vec4>> &r) { NURBSSurface q = cross(f, f); r = q._control_points; });)},
  {"SphericalAABB", 0, OP_(auto &a = s.cl[o.i % s.cl.size()], &b = s.cl[o.j % s.cl.size()]; vec3 q(o.a, o.b - 20, o.c); return mk<std::vector<vec3>>("SphericalAABB", [&a, &b, q](std::vector<vec3> &r) { SphericalAABB x(a, q), y(b, q); r = {x.start, x.end, y.start, y.end, vec3(x.intersects(y), y.separable(x), 0)}; });)},
  {"closestPointOnSimplex", RO, OP_(const auto &cl = CL(o.i, s); int n = o.n; return mk<std::vector<vec3>>("closestPointOnSimplex", [&cl, n](std::vector<vec3> &r) { std::vector<vec3> sx; for (size_t i = 0; i < std::min<size_t>(1 + n % 4, cl.size()); i++) sx.push_back(cl[i]); r.push_back(n & 4 ? closestPoint(sx) : closestPointOnSimplex(sx)); });)},
  {"curve (out parameters)", RO, OP_(const NURBSCurve &c = C3(o, s); double t = in(o.a, c._interval[0] + 1e-4, c._interval[1] - 1e-4); int n = o.n; struct X { std::vector<vec3> v; NURBSCurve d; }; return mk<X>("curve (out parameters)", [&c, t, n](X &r) { r.v.resize(1 + n % 3, vec3(0, 0, 0)); c.derivative(t, r.v); vec3 a(0, 0, 0), b(0, 0, 0); c(t, a); c.second_derivative_fdm(t, b); r.v.push_back(a); r.v.push_back(b); c.get_derivative(r.d); }, DG(X) { g.p(r.v); g.p(r.d); });)},
  {"surface constructors", RO | MAYTHROW, OP_(const NURBSSurface &f = F(o, s); int n = o.n; return mk<std::vector<NURBSSurface>>("surface constructors", [&f, n](std::vector<NURBSSurface> &r) { r.reserve(5); std::vector<std::vector<vec3>> g = f.control_points3d(); r.emplace_back(f._control_points, f._degree); r.emplace_back(f._control_points, f._degree, f._knots_u); r.emplace_back(g, f._degree); r.emplace_back(g, f._degree, f._knots_u, f._knots_v); NURBSSurface q(f); q.control_points()[0][0].x += 1; q.knots_u().back() = f._knots_u.back(); q.knots_v().back() = f._knots_v.back(); q.interval() = f.interval(); q.shape() = f.shape(); r.push_back(q); if (n % 4 == 3) { if (n & 4) r.emplace_back(std::vector<std::vector<vec4>>{}, f._degree); else if (n & 8) r.push_back(f.get_derivative(2)); else f.extract_isocurve(0.5, (SurfaceParameter)7); } }, DG(std::vector<NURBSSurface>) { for (auto &x : r) g.full(x); });)},
  {"surface_point", RO, OP_(const NURBSSurface &f = F(o, s); double u = su(f, o.a), v = sv(f, o.b); return mk<vec3>("surface_point", [&f, u, v](vec3 &r) { surface_point((int)f._size[0] - 1, f._degree[0], f._knots_u, (int)f._size[1] - 1, f._degree[1], f._knots_v, f._control_points, u, v, true, true, r); });)},
  {"BVH (crowded)", 0, OP_(auto &bx = s.box; int n = o.n; return mk<std::vector<int>>("BVH (crowded)", [&bx, n](std::vector<int> &r) { std::vector<Object3D> ob; ob.reserve(bx.size() + 1); Object3D zero; for (size_t i = 0; i < bx.size(); i++) ob.emplace_back(bx[n & 1 ? 0 : i / 3 * 3 % bx.size()]); std::vector<Object3D *> p; for (auto &x : ob) p.push_back(&x); std::unique_ptr<BVHNode> t = build_bvh(p, (n & 2) != 0); std::vector<const Object3D *> hit; contains_point(t.get(), bx[0].min, hit); for (auto *h : hit) r.push_back((int)(h - ob.data())); r.push_back(zero.id); std::vector<std::pair<const BVHNode *, const BVHNode *>> pr; if (n & 4) intersect_bvh_iterative(t.get(), t.get(), pr); else intersect_bvh(t.get(), t.get(), pr); r.push_back((int)pr.size()); std::vector<Object3D *> none; r.push_back(build_bvh(none, (n & 2) != 0) == nullptr); });)},
