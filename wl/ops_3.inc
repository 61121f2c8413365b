  {"curve.evaluate", RO, OP_(const NURBSCurve &c = C(o, s); double t = cu(c, o.a); return mk<vec3>("curve.evaluate", [&c, t](vec3 &r) { c.evaluate(t, r); });)},
  {"curve.length", RO, OP_(const NURBSCurve &c = C3(o, s); double t = cu(c, o.a); return mk<std::pair<double, double>>("curve.length", [&c, t](std::pair<double, double> &r) { r.first = c.length(c._interval[0], t, 1e-2); r.second = c.length(t); });)},
  {"curve.decompose", RO | MAYTHROW, OP_(const NURBSCurve &c = C(o, s); return mk<std::vector<NURBSCurve>>("curve.decompose", [&c](std::vector<NURBSCurve> &r) { c.decompose(r); });)},
  {"curve.info", RO, OP_(const NURBSCurve &c = C(o, s); return mk<VecD>("curve.info", [&c](VecD &r) { r.v = {c.aabb().min.x, c.aabb().max.z, c.interval()[0], c.interval()[1], (double)c.is_periodic(), (double)c.get_degree(), (double)c.get_knots().size()}; }, DG(VecD) { g.p(r.v); });)},
  {"surface.insert_knot", MAYTHROW, OP_(const NURBSSurface &f = F(o, s); double a = o.a; int n = o.n; return mk<NURBSSurface>("surface.insert_knot", [&f, a, n](NURBSSurface &r) { NURBSSurface q(f); if (n & 1) q.insert_knot_u(su(q, a), 1 + (n >> 1) % 2); else q.insert_knot_v(sv(q, a), 1 + (n >> 1) % 2); r = q; }, DG(NURBSSurface) { g.full(r); });)},
  {"find_boundary_intersections", RO | HEAVY | MAYTHROW, OP_(const NURBSSurface &a = s.s[0], &b = s.s[1]; return mk<std::vector<IntersectionPoint>>("find_boundary_intersections", [&a, &b](std::vector<IntersectionPoint> &r) { find_boundary_intersections(a, b, r, 1e-2); });)},
  {"SAT2D", RO | MAYTHROW, OP_(const auto &a = PO(o.i, s), &b = PO(o.j, s); return mk<bool>("SAT2D", [&a, &b](bool &r) { r = SAT2D(a, b); });)},
  {"polygonRelationship2D", RO, OP_(const auto &a = PO(o.i, s), &b = PO(o.j, s); return mk<std::pair<int, bool>>("polygonRelationship2D", [&a, &b](std::pair<int, bool> &r) { r.first = (int)polygonRelationship2D(a, b); r.second = pointInPolygon2D(a, b[0]); });)},
  {"surface derivatives (homogeneous)", RO, OP_(const NURBSSurface &f = F(o, s); int d = 1 + o.n % 2; return mk<std::vector<std::vector<vec4>>>("curve_deriv_cpts/rat_surface_derivs", [&f, d](std::vector<std::vector<vec4>> &r) { std::vector<std::vector<vec4>> k(d + 1, std::vector<vec4>(d + 1, vec4(0.5, 1, 2, 1))); for (int i = 0; i <= d; i++) for (int j = 0; j <= d; j++) k[i][j] = f._control_points[i % f._size[0]][j % f._size[1]]; rat_surface_derivs(k, d, r); });)},
  {"uniqueKnots", RO, OP_(const NURBSCurve &c = C(o, s); return mk<std::vector<double>>("uniqueKnots", [&c](std::vector<double> &r) { std::vector<double> k = c.knots; uniqueKnots(k, r); });)},
  {"knot_refinement", RO | MAYTHROW, OP_(const NURBSCurve &c = C(o, s); double t = cu(c, in(o.a, 0.05, 0.95)); int n = o.n; return mk<std::pair<std::vector<vec4>, std::vector<double>>>("knot_refinement", [&c, t, n](std::pair<std::vector<vec4>, std::vector<double>> &r) { if (c._periodic) return; std::vector<double> add; if (n & 1) add.push_back(t); r = knot_refinement(c._degree, c.knots, c.control_points, {}, add, 1 + (n >> 1) % 3, false); });)},
  {"knot_removal", RO | MAYTHROW, OP_(const NURBSCurve &c = C(o, s); int n = o.n; return mk<std::vector<vec4>>("knot_removal", [&c, n](std::vector<vec4> &r) { if (c._periodic) return; double t = c.knots[c._degree + n % (c.control_points.size() - c._degree + 1)]; r = knot_removal(c._degree, c.knots, c.control_points, t, n & 4 ? 1e-4 : 1e6, 1 + n % 2); });)},
  {"surface_deriv_cpts", RO, OP_(const NURBSSurface &f = F(o, s); return mk<std::vector<std::vector<std::vector<std::vector<vec4>>>>>("surface_deriv_cpts", [&f](std::vector<std::vector<std::vector<std::vector<vec4>>>> &r) { int n = (int)f._size[0], m = (int)f._size[1]; std::vector<std::vector<vec4>> t(m, std::vector<vec4>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) t[j][i] = f._control_points[i][j]; surface_deriv_cpts(4, {f._degree[0], f._degree[1]}, f._knots_u, f._knots_v, t, {n, m}, {0, n - 1}, {0, m - 1}, 1, r); });)},
  {"vectors", RO | MAYTHROW, OP_(const auto &cl = CL(o.i, s), &cm = CL(o.j, s); return mk<VecD>("vectors", [&cl, &cm](VecD &r) { const vec3 &a = cl[0], &b = cm[0]; vec3 k = a.cross(b), u = a.unit(), p = a.project(b), q = a; q += b; q -= k; q *= 0.5; vec2 t(0, 0); vec3 sp(0, 0, 0), ct(0, 0, 0), c2(0, 0, 0); cartesian_to_spherical(a, sp); spherical_to_cartesian(sp, ct); cartesian_to_spherical(b, t); spherical_to_cartesian(t, c2); std::vector<vec2> ts; cartesian_to_spherical(cl, ts); for (auto &x : ts) r.v.insert(r.v.end(), {x.x, x.y}); vec4 A(a.x, a.y, a.z, 2), B(b.x, b.y, b.z, 3), X(0, 0, 0, 0); A.cross(B, X); for (auto &v : {k, u, p, q, ct, c2, X.to_vec3(), (A - B).to_vec3(), (A + B).to_vec3()}) r.v.insert(r.v.end(), {v.x, v.y, v.z}); r.v.insert(r.v.end(), {a.dot(b), a.length(), A.dot(B), A.length(), A.distance(B), a.distance(b), (double)(a == b), (double)a.collinear(b), vec2(a.x, b.y).length(), vec2(a.x, b.y).dot(vec2(1, b.z))}); }, DG(VecD) { g.p(r.v); });)},
  {"IntersectionPoint", RO, OP_(double a = o.a, b = o.b; int n = o.n; return mk<VecD>("IntersectionPoint", [a, b, n](VecD &r) { IntersectionPoint p(vec3(a, b, 0), a, {a, b}, n & 3, n & 4, {{{0, 1}, {0, 1}}}), q(p); auto x = q.get_start_params(); r.v = {x.first[0], x.first[1], x.second[0], x.second[1]}; }, DG(VecD) { g.p(r.v); });)},
  {"curve constructors", RO, OP_(const auto &cl = CL(o.i, s); const NURBSCurve &c = C(o, s); int n = o.n; return mk<std::vector<NURBSCurve>>("curve constructors", [&cl, &c, n](std::vector<NURBSCurve> &r) { r.reserve(6); r.emplace_back(c.control_points); r.emplace_back(c.control_points, (n & 1) != 0); size_t k = cl.size(); int d = std::min<int>(1 + n % 3, (int)k - 1); if (d >= 1) { r.emplace_back(cl, d); r.emplace_back(cl, d, (n & 2) != 0); r.emplace_back(k, d, (n & 4) != 0); } r.emplace_back(c.control_points, std::min<int>(1 + n % 3, (int)c.control_points.size() - 1)); });)},
  {"vector arithmetic", RO, OP_(const auto &cl = CL(o.i, s), &cm = CL(o.j, s); return mk<VecD>("vector arithmetic", [&cl, &cm](VecD &r) { vec3 a = cl[0], b = cm.back(), c = -a; c += b; c -= a; c *= 0.75; c /= 3; c = c * b + a / vec3(1, 2, 4) + a / 8.0 + 2.0 * b; c[0] = b[2]; c[1] += 1; vec2 p(a.x, a.y), q(b.x, b.y), w = -p; w += q; w -= p; w /= 4; w = w - p * q - p * 3.0; w[0] = q[1]; vec4 A(a.x, a.y, a.z, 2), B(b.x, b.y, b.z, 1), D = -A; D += B; D -= A; D = D * B + A / 4.0 + A / vec4(1, 2, 4, 8) + B * 3.0 - A; D[0] = B[3]; D[3] += A[1]; r.v.insert(r.v.end(), {c.x, c.y, c.z, w.x, w.y, D.x, D.y, D.z, D.w, (double)(p == q), (double)(A == B), (double)(a == p), a.sqLength(), p.length()}); }, DG(VecD) { g.p(r.v); });)},
  {"AABB algebra", 0, OP_(auto &bx = s.box; const auto &cl = CL(o.i, s); return mk<VecD>("AABB algebra", [&bx, &cl](VecD &r) { AABB a = bx[0], b = bx.back(), x, y = a.merge(b), z(cl); r.v.push_back(a.intersection(b, x)); r.v.push_back(a.intersects(b)); for (const AABB &q : {a, b, y, z}) r.v.insert(r.v.end(), {q.min.x, q.min.y, q.min.z, q.max.x, q.max.y, q.max.z, q.volume()}); }, DG(VecD) { g.p(r.v); });)},
  {"intersector asked twice", RO | HEAVY | MAYTHROW, OP_(const NURBSCurve &c = s.c[0], &d = s.c[1 % s.c.size()]; const NURBSSurface &f = s.s[o.i % 2]; int n = o.n; return mk<Ask2>("intersector asked twice", [&c, &d, &f, n](Ask2 &r) { if (n & 1) { csx(c, f, r.x.a, 1e-2); csx(d, f, r.x.b, 1e-2); csx(c, f, r.x.b, 1e-2); } else { NURBSCurveSurfaceIntersector q(c, f, 1e-2, 1e-3); r.x.a = q.intersect(); r.x.b = q.intersect(); } }, DG(Ask2) { same(g, r.x, "a curve-surface intersection", [](Dig &x, CSXIntersections &v) { x.u(v.size()); for (auto &e : v) { x.u((int)std::get<0>(e)); x.p(std::get<1>(e)); for (int i = 0; i < 3; i++) x.p(std::get<2>(e)[i]); } }); });)},
