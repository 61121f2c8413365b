// The whole library under test, in one translation unit (several headers define
// non-inline functions).
#pragma once
#include "cmmcore/cmmcore.h"
#include "cmmcore/vec.h"
#include "cmmcore/utils.h"
#include "cmmcore/binom.h"
#include "cmmcore/matrix.h"
#include "cmmcore/aabb.h"
#include "cmmcore/plane.h"
#include "cmmcore/polygon.h"
#include "cmmcore/polyline.h"
#include "cmmcore/closest_point.h"
#include "cmmcore/gjk.h"
#include "cmmcore/separability.h"
#include "cmmcore/convexhull.h"
#include "cmmcore/integrate.h"
#include "cmmcore/minimize_scalar.h"
#include "cmmcore/newthon2.h"
#include "cmmcore/monomial.h"
#include "cmmcore/nurbs_utils.h"
#include "cmmcore/nurbs.h"
#include "cmmcore/serialization.h"
#include "cmmcore/memoryview.h"
#include "cmmcore/kdtree.h"
#include "cmmcore/bvh.hpp"
#include "cmmcore/point_inversion.h"
#include "cmmcore/gauss_map.h"
#include "cmmcore/ccx.h"
#include "cmmcore/csx.h"
#include "cmmcore/boundary_intersection.h"
#include "cmmcore/ssx.h"
#include "cmmcore/numeric_utils.h"
#include "cmmcore/memutils.h"
