From 864fa9fd5c8386811a10db67e0bf2e640c456cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 01/21] fix: index eigenvalues by their bracket, and keep
 refinement inside of it

The index of an eigenvalue was derived from the Prufer angle in the last
Newton iterate. For eigenfunctions that are localized away from the matching
point this angle is nearly a step function, and eigenvalues were returned
with a wrong index, multiple times or not at all. Clusters of eigenvalues
which are still not separated after 30 subdivisions were merged into a
single one, and an eigenvalue exactly on the border of a bracket was lost.
---
 matslise/matslise/matslise.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 770d1b3..86bf92e 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -78,6 +78,28 @@ newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, con
     return make_pair(index, E);
 }
 
+// Find the eigenvalue with the given index, which is known to be in [a, b]. Newton-iteration, starting from E, is used
+// as long as it stays within this bracket. Otherwise, fall back to bisection.
+template<typename Scalar>
+pair<int, Scalar>
+bracketedNewton(const Matslise<Scalar> *ms, Scalar a, Scalar b, Scalar E, int index,
+                const Y<Scalar> &left, const Y<Scalar> &right) {
+    Scalar error, derror, theta;
+    for (int i = 0; a < E && E < b; ++i) {
+        tie(error, derror, theta) = ms->matchingError(E, left, right, true);
+        Scalar newE = E - error / derror;
+        if (abs(newE - E) <= ms->tolerance)
+            return make_pair(index, min(max(newE, a), b));
+
+        if (theta > index * constants<Scalar>::PI)
+            b = E;
+        else
+            a = E;
+        E = i < 20 && a < newE && newE < b ? newE : .5 * (a + b);
+    }
+    return make_pair(index, E);
+}
+
 template<typename Scalar>
 Scalar Matslise<Scalar>::estimatePotentialMinimum() const {
     auto iterator = this->sectors.begin();
@@ -115,8 +137,12 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
-        if ((tb - ta < 0.01 && depth > 3) || depth > 30) {
-            eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
+        if (ia + 1 == ib && ((tb - ta < 0.01 && depth > 3) || depth > 30)) {
+            eigenvalues.push_back(bracketedNewton<Scalar>(ms, a, b, c, ia, left, right));
+        } else if (c <= a || b <= c) {
+            // These eigenvalues can't be separated anymore
+            for (int i = max(ia, Imin); i < min(ib, Imax); ++i)
+                eigenvalues.push_back(make_pair(i, c));
         } else {
             tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
             if (isnan(tc)) {
@@ -126,8 +152,8 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
                 toCheck.push(make_tuple(c, tc, b, tb, 1 + depth));
             } else {
                 if (abs(tc - ia) < 1e-8)
-                    eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
-                else if ((ta - ia) * (tc - ia) < 0)
+                    eigenvalues.push_back(bracketedNewton<Scalar>(ms, a, b, c, ia, left, right));
+                else if (tc > ia)
                     toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
                 else
                     toCheck.push(make_tuple(c, tc, b, tb, depth + 1));
-- 
2.43.0


From 45753d52e47ce1fa5f6182d37c991994276d58f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 02/21] fix: sign of the derivative of half range
 eigenfunctions for negative x

Evaluated in a single point, the derivative for x < 0 had the wrong sign.
The derivative of an even function is odd, and that of an odd function even.
---
 matslise/matslise/halfrange.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/halfrange.cpp b/matslise/matslise/halfrange.cpp
index 30af658..9c538e3 100644
--- a/matslise/matslise/halfrange.cpp
+++ b/matslise/matslise/halfrange.cpp
@@ -47,8 +47,8 @@ public:
     virtual Array<Scalar, 2, 1> operator()(const Scalar &x) const override {
         Array<Scalar, 2, 1> c = (*eigenfunction)(x < 0 ? -x : x);
         c *= sqrt(Scalar(.5));
-        if (x < 0 && !even)
-            c *= -1;
+        if (x < 0)
+            c[even ? 1 : 0] *= -1;
         return c;
     }
 
-- 
2.43.0


From b2e147e8362201d894b0168000d50ae79605f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 03/21] fix: derivative in LiouvilleTransformation::y2z

z = sigma*y, so z' = sigma'*y + sigma*y'*x'. The value and derivative were
swapped, which made y2z not the inverse of z2y and gave wrong derivatives
for Sturm-Liouville eigenfunctions.
---
 matslise/liouville/liouville.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index 251ba41..ef50f2f 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -225,10 +225,10 @@ Y<Scalar> LiouvilleTransformation<Scalar>::y2z(const Scalar &x, const Y<Scalar>
     z.block(None) *= sigma;
     z.block(dE) *= sigma;
 
-    z.block(dX) *= dsigma;
-    z.block(dXdE) *= dsigma;
-    z.block(dX) += sigma * xdr * y.block(None);
-    z.block(dXdE) += sigma * xdr * y.block(dE);
+    z.block(dX) *= sigma * xdr;
+    z.block(dXdE) *= sigma * xdr;
+    z.block(dX) += dsigma * y.block(None);
+    z.block(dXdE) += dsigma * y.block(dE);
 
     return z;
 }
-- 
2.43.0


From a9a1cec70f4f2f58733b45d0899a5761f4e9de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 04/21] fix: PeriodicMatslise::eigenfunction returns functions
 that satisfy the boundary conditions

The kernel of the matching error contains coefficients for the two initial
solutions. These were directly used as boundary values, on both sides, without
taking K into account. Also, debug output was written to cout.
---
 matslise/matslise/periodic.cpp | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 1cf9387..73c69a4 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -233,31 +233,23 @@ std::vector<std::tuple<int, Scalar, int>> PeriodicMatslise<Scalar>::eigenvaluesB
 template<typename Scalar>
 vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>
 PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
-    Array<Scalar, 2, 1> thetaL, thetaR;
-    Scalar &match = matslise.sectors[matslise.matchIndex]->max;
-    Y<Scalar, 1, 2> l = propagate(E, periodicInitialValue<Scalar>(), matslise.domain.min, match).first;
-    Y<Scalar, 1, 2> r = propagate(E, periodicInitialValue<Scalar>(K), matslise.domain.max, match).first;
-    Matrix<Scalar, 2, 2> err = (l.y() - r.y());
-    cout << err << endl;
+    const Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
+    const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(K);
+    const Scalar &match = matslise.sectors[matslise.matchIndex]->max;
+    const Matrix<Scalar, 2, 2> left = propagate(E, l, matslise.domain.min, match).first.y();
+    const Matrix<Scalar, 2, 2> right = propagate(E, r, matslise.domain.max, match).first.y();
 
-    EigenSolver<Matrix<Scalar, 2, 2>> solver(err, true);
-    Matrix<complex<Scalar>, 2, 1> eigenvalues = solver.eigenvalues();
-    Matrix<complex<Scalar>, 2, 2> eigenvectors = solver.eigenvectors();
+    // The coefficients of the eigenfunctions span the kernel of the matching error.
+    JacobiSVD<Matrix<Scalar, 2, 2>> svd(left - right, ComputeFullV);
+    const Scalar threshold = Scalar(1e-4) * (left.norm() + right.norm());
 
     vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>> result;
-    cout << "eigenvalues: " << eigenvalues.transpose() << endl;
-    cout << eigenvectors << endl;
-    cout << endl;
     result.reserve(2);
-    if (norm(eigenvalues[0]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(0).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
-    }
-    if (norm(eigenvalues[1]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(1).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
+    for (int i = 1; i >= 0; --i) {
+        if (svd.singularValues()[i] < threshold) {
+            const Matrix<Scalar, 2, 1> c = svd.matrixV().col(i);
+            result.emplace_back(matslise.eigenfunction(E, l * c, r * c));
+        }
     }
 
     return result;
-- 
2.43.0


From 18d2a412ef5242531e3a0ebf3b75e1d600f31606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 05/21] fix: isolate periodic eigenvalues with the eigenvalues
 in the gaps

The old bracketing assumed that the matching error of the periodic problem
has a derivative which changes sign once per gap. For K = +-I with large gaps
and for most other K this missed eigenvalues or reported two simple
eigenvalues as one double one. Each gap contains exactly one eigenvalue of the
problem with y(min) ~ (0, 1) and y(max) ~ K (0, 1), which gives rigorous brackets.
---
 matslise/matslise/periodic.cpp | 176 +++++++++++++++------------------
 1 file changed, 77 insertions(+), 99 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 73c69a4..f792884 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -49,52 +49,32 @@ pair<Scalar, Scalar> calculateMatchingError(const Y<Scalar, 1, 2> &yError) {
     return {error, dError};
 }
 
-template<typename T>
-bool same_sign(const T &a, const T &b) {
-    return (a < 0 && b < 0) || (a > 0 && b > 0);
-}
-
-template<typename Scalar, typename Func, typename FuncRet = decltype(declval<Func>()(declval<Scalar>()))>
-Scalar binarySearch(Scalar eMin, Scalar eMax, const Func &f, const Scalar &eps, FuncRet fMin) {
+// Finds the point in [eMin, eMax] where f, which is true in eMin, becomes false.
+template<typename Scalar, typename Func>
+Scalar binarySearch(Scalar eMin, Scalar eMax, const Func &f, const Scalar &eps) {
     Scalar mid = (eMin + eMax) / 2;
-    while (eMax - eMin > (abs(eMin) < 1 ? eps : eps * abs(eMin))) {
-        FuncRet fMid = f(mid);
-        if (same_sign(fMin, fMid)) {
-            fMin = fMid;
-            eMin = mid;
-        } else
-            eMax = mid;
+    while (eMax - eMin > (abs(mid) < 1 ? eps : eps * abs(mid)) && eMin < mid && mid < eMax) {
+        (f(mid) ? eMin : eMax) = mid;
         mid = (eMin + eMax) / 2;
     }
-
-    return (eMin + eMax) / 2;
+    return mid;
 }
 
-template<typename Scalar, typename Func>
-Scalar binarySearch(Scalar eMin, Scalar eMax, const Func &f, const Scalar &eps) {
-    return binarySearch<Scalar, Func>(eMin, eMax, f, eps, f(eMin));
+// Problems for which y(max) = K y(min) or y(max) = -K y(min) have eigenvalues which are separated by gaps. The g-th
+// gap (g >= 1) lies between the eigenvalues with index g - 1 and g of one of both problems. All eigenvalues of both
+// problems are above gap 0. The first gap which belongs to the problem with K, is gap 0 or (antiperiodic) gap 1.
+template<typename Scalar>
+int firstGap(const PeriodicMatslise<Scalar> *ms) {
+    return ms->K(0, 1) > 0 || (ms->K(0, 1) == 0 && ms->K(0, 0) < 0) ? 1 : 0;
 }
 
+// Each gap, except gap 0, contains exactly one eigenvalue of the problem where y(min) is a multiple of (0, 1), and
+// y(max) is a multiple of K (0, 1).
 template<typename Scalar>
-pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, Scalar Emin, Scalar Emax, Scalar eps) {
-    Scalar h = 0.01 * (Emax - Emin);
-    auto fError = [ms](Scalar E) {
-        return calculateMatchingError(ms->matchingError(E).first).first;
-    };
-    Scalar minError = fError(Emin);
-    Scalar fMin = (fError(Emin + h) - minError) / h;
-
-    Scalar mid = binarySearch(Emin, Emax, [ms](Scalar E) {
-        return calculateMatchingError(ms->matchingError(E).first).second;
-    }, eps, fMin);
-
-    Scalar midError = fError(mid);
-    if (same_sign(minError, midError)) {
-        if (abs(midError) > eps) cout << "PeriodicMatslise::eigenvaluePair wrong result" << endl;
-        return {mid, mid};
-    } else {
-        return {binarySearch(Emin, mid, fError, eps, minError), binarySearch(mid, Emax, fError, eps, midError)};
-    }
+pair<Y<Scalar>, Y<Scalar>> gapBoundary(const PeriodicMatslise<Scalar> *ms) {
+    Y<Scalar> left = Y<Scalar>::Dirichlet(), right;
+    right.y() = ms->K * left.y();
+    return {left, right};
 }
 
 template<typename Scalar, bool with_eigenfunctions>
@@ -102,14 +82,15 @@ struct EigenpairsReturn {
     using type = vector<tuple<int, Scalar, std::conditional_t<with_eigenfunctions, vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>, int>>>;
 };
 
-template<typename Scalar, bool with_eigenfunctions>
+// Calculates the eigenpairs for which the index is in [iMin, iMax) and 'accept' holds for the eigenvalue.
+template<typename Scalar, bool with_eigenfunctions, typename Accept>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
-eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, int iMin, int iMax, Scalar eps) {
+eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, int iMin, int iMax, const Accept &accept, Scalar eps) {
     const Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
     const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(ms->K);
     typename EigenpairsReturn<Scalar, with_eigenfunctions>::type result;
     auto addToResult = [&](int i, Scalar E, bool isDouble) {
-        if ((isDouble ? i + 1 < iMin : i < iMin) || i >= iMax || E < eMin || E >= eMax) return;
+        if ((isDouble ? i + 1 < iMin : i < iMin) || i >= iMax || !accept(E)) return;
         if constexpr (with_eigenfunctions) {
             auto &eigenfunctions = get<2>(
                     result.emplace_back(i, E, vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>()));
@@ -120,11 +101,9 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
                 eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l.col(0), r.col(0)));
                 eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l.col(1), r.col(1)));
             } else {
-                EigenSolver<Matrix<Scalar, 2, 2>> solver(ms->matchingError(E).first.y(), true);
-                Eigen::Index kernelIndex;
-                solver.eigenvalues().array().abs().minCoeff(&kernelIndex);
-
-                Matrix<Scalar, 2, 1> c = solver.eigenvectors().real().col(kernelIndex);
+                // The kernel of the matching error
+                JacobiSVD<Matrix<Scalar, 2, 2>> svd(ms->matchingError(E).first.y(), ComputeFullV);
+                const Matrix<Scalar, 2, 1> c = svd.matrixV().col(1);
                 eigenfunctions.reserve(1);
                 eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l * c, r * c));
             }
@@ -133,51 +112,53 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
         }
     };
 
-    auto findLow = [ms](int i) {
-        return [ms, i](Scalar E) {
-            return ms->matchingError(E).second.minCoeff() - i + 1;
-        };
-    };
-    auto findHigh = [ms](int i) {
-        return [ms, i](Scalar E) {
-            return ms->matchingError(E).second.maxCoeff() - i - 1;
-        };
-    };
+    if (iMin >= iMax)
+        return result;
 
-    Scalar highest = eMax;
-    for (Scalar step = 1; findHigh(iMax + 1)(highest) < 0; step *= 2)
-        highest += step;
-
-    int i = iMin - (iMin % 2);
-    if (ms->K(0, 1) > 0 || (ms->K(0, 1) == 0 && ms->K(0, 0) < 0)) {
-        // Antiperiodic case
-        ++i;
-    }
+    const int first = firstGap(ms);
+    int gap = max(0, iMin);
+    if (gap % 2 != first)
+        ++gap;
+    if (gap > iMax)
+        return result;
 
-    Scalar low = eMin;
-    if (i == 0) {
-        for (Scalar step = 1; findHigh(i)(low) > 0; step *= 2)
-            low -= step;
+    // inGap[i] lies in gap offset + i
+    const int offset = max(1, gap - 1);
+    const auto boundary = gapBoundary(ms);
+    const auto inGap = ms->matslise.eigenvaluesByIndex(
+            offset - 1, iMax + 1, boundary.first, boundary.second);
 
-        Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-        Scalar E = binarySearch(low, high, [ms](Scalar E) {
-            return calculateMatchingError(ms->matchingError(E).first).first;
-        }, eps);
-        addToResult(0, E, false);
-        i += 2;
-    }
+    // Positive in the gaps of this problem, negative in the other gaps
+    auto error = [ms](const Scalar &E) {
+        return calculateMatchingError(ms->matchingError(E).first).first;
+    };
+    // Below all eigenvalues, E should not be below gap 'first'
+    auto lowest = [&](Scalar E) {
+        Scalar step = 1;
+        do {
+            E -= step;
+            step *= 2;
+        } while (first == 0 ? error(E) < 0 : error(E) > 0);
+        return E;
+    };
+    auto above = [&](const Scalar &E) { return error(E) > 0; };
+    auto below = [&](const Scalar &E) { return error(E) < 0; };
 
-    for (; i <= iMax + 1; i += 2) {
-        for (Scalar step = 1; findLow(i)(low) > 0; step *= 2)
-            low -= step;
-        low = binarySearch<Scalar>(low, highest, findLow(i), eps);
-        Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-        pair<Scalar, Scalar> p = eigenvaluePair(ms, low, high, eps);
-        if (p.second - p.first < eps) {
-            addToResult(i - 1, (p.first + p.second) / 2, true);
+    for (; gap <= iMax; gap += 2) {
+        const Scalar next = inGap[gap + 1 - offset].second;
+        if (gap == 0) {
+            addToResult(0, binarySearch<Scalar>(lowest(next), next, above, eps), false);
         } else {
-            addToResult(i - 1, p.first, false);
-            addToResult(i, p.second, false);
+            const Scalar mid = inGap[gap - offset].second;
+            const Scalar previous = gap == 1 ? lowest(mid) : inGap[gap - 1 - offset].second;
+            const Scalar low = binarySearch<Scalar>(previous, mid, below, eps);
+            const Scalar high = binarySearch<Scalar>(mid, next, above, eps);
+            if (high - low < (abs(mid) < 1 ? eps : eps * abs(mid))) {
+                addToResult(gap - 1, (low + high) / 2, true);
+            } else {
+                addToResult(gap - 1, low, false);
+                addToResult(gap, high, false);
+            }
         }
     }
     return result;
@@ -186,25 +167,22 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
 template<typename Scalar, bool with_eigenfunctions>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
 eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, const Scalar &eMin, const Scalar &eMax) {
-    int iMin = (int) ms->matchingError(eMin).second.minCoeff() - 1;
-    int iMax = (int) ms->matchingError(eMax).second.maxCoeff() + 1;
+    const auto boundary = gapBoundary(ms);
+    auto gapsBelow = [&](const Scalar &E) {
+        return max(0, (int) ceil(get<2>(ms->matslise.matchingError(E, boundary.first, boundary.second)) /
+                                 constants<Scalar>::PI));
+    };
 
-    return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, eMin, eMax, iMin, iMax, 1e-8);
+    return eigenpairsHelper<Scalar, with_eigenfunctions>(
+            ms, gapsBelow(eMin) - 1, gapsBelow(eMax) + 2,
+            [&](const Scalar &E) { return eMin <= E && E < eMax; }, 1e-8);
 }
 
 template<typename Scalar, bool with_eigenfunctions>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
 eigenpairsByIndexHelper(const PeriodicMatslise<Scalar> *ms, int iMin, int iMax) {
-    Scalar eMin = -1;
-    Scalar eMax = 1;
-
-    while (ms->matchingError(eMin).second.minCoeff() > std::max(iMin - 2, 0))
-        eMin *= 2;
-
-    while (ms->matchingError(eMax).second.maxCoeff() < iMax + 2)
-        eMax *= 2;
-
-    return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, eMin, eMax, iMin, iMax, 1e-8);
+    return eigenpairsHelper<Scalar, with_eigenfunctions>(
+            ms, iMin, iMax, [](const Scalar &) { return true; }, 1e-8);
 }
 
 template<typename Scalar>
-- 
2.43.0


From dfbc32fbc375997767a671b9832ca1a80acb1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 06/21] fix: Matscs::propagatePsi against the direction of a
 sector
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The inverse Möbius transformation was never used (delta was made positive
first) and had its blocks mixed up. Points outside of the domain are rejected
as in Matscs::propagate.
---
 matslise/matscs/matscs.cpp |  2 ++
 matslise/matscs/sector.cpp | 20 ++++++++++----------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/matslise/matscs/matscs.cpp b/matslise/matscs/matscs.cpp
index 8dd09f7..b318ba7 100644
--- a/matslise/matscs/matscs.cpp
+++ b/matslise/matscs/matscs.cpp
@@ -56,6 +56,8 @@ Matscs<Scalar>::propagate(const Scalar &E, const Y<Scalar, Dynamic> &_y,
 template<typename Scalar>
 Matrix<Scalar, Dynamic, Dynamic> Matscs<Scalar>::propagatePsi(
         const Scalar &E, const Matrix<Scalar, Dynamic, Dynamic> &_psi, const Scalar &a, const Scalar &b) const {
+    if (!contains(a) || !contains(b))
+        throw runtime_error("Matscs::propagatePsi(): a and b should be in the interval");
     Matrix<Scalar, Dynamic, Dynamic> psi = _psi;
 
     int sectorIndex = find_sector<Matscs<Scalar>>(this, a);
diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index eaac019..9d13b24 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -257,21 +257,21 @@ propagatePsi_delta(const typename Matscs<Scalar>::Sector *sector, Scalar E, cons
     if (delta > sector->h)
         delta = sector->h;
 
-    // TODO: verify
-    Scalar extra = sector->direction == Direction::forward ? 1 : -1;
-    if (delta > 0) {
-        T<Scalar, Dynamic> T = sector->calculateT(E, delta);
+    if (delta == 0)
+        return psi;
+
+    // psi = Y Y'^-1 changes sign in a backward sector
+    Scalar extra = sector->direction == Direction::backward ? -1 : 1;
+    T<Scalar, Dynamic> T = sector->calculateT(E, delta);
+    if (forward) {
         return extra * (T.getT(1, 1) + extra * T.getT(1, 0) * psi).transpose()
                 .colPivHouseholderQr()
                 .solve((T.getT(0, 1) + extra * T.getT(0, 0) * psi).transpose())
                 .transpose();
-    } else if (delta < 0) {
-        T<Scalar, Dynamic> T = sector->calculateT(E, -delta);
-        return extra * (T.getT(1, 1) - extra * psi * T.getT(0, 1))
-                .colPivHouseholderQr()
-                .solve((extra * psi * T.getT(0, 0) - T.getT(1, 0)));
     } else {
-        return psi;
+        return extra * (T.getT(0, 0) - extra * psi * T.getT(1, 0))
+                .colPivHouseholderQr()
+                .solve(extra * psi * T.getT(1, 1) - T.getT(0, 1));
     }
 }
 
-- 
2.43.0


From 172fa9b3944105867df9d9273de45068cfd87e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 07/21] fix: argument of the determinant in Matscs::propagate

The rotation of the diagonal reference problem has to be compared in the basis
in which it is diagonal, and with the exact solution of that same problem, to
count crossings consistently.
---
 matslise/matscs/sector.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index 9d13b24..9130bf4 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -152,7 +152,7 @@ inline Array<Scalar, Dynamic, 1> angle(const InputMatrix &m) {
 
     const Scalar PI2 = constants<Scalar>::PI * 2;
     for (Eigen::Index i = 0; i < angles.size(); ++i) {
-        if (angles[i] <= 0)
+        if (angles[i] <= Scalar(EPS))
             angles[i] += PI2;
     }
     return angles;
@@ -181,13 +181,26 @@ pair<Y<Scalar, Dynamic>, Scalar> Matscs<Scalar>::Sector::propagateDelta(
     }
     argdet *= 2;
 
-    MatrixXcs thetaZ0 = theta(y0);
-    MatrixXcs thetaZ = theta(y1);
-    ArrayXs betas = angle<Scalar>(thetaZ);
+    // The solution of the problem with the diagonal and constant potential, for which the rotation is known exactly.
+    const MatrixXs u0 = diagonalize.transpose() * y0.block();
+    const MatrixXs du0 = diagonalize.transpose() * y0.block(dX);
+    const ArrayXs eta0 = eta.row(0), eta1 = eta.row(1);
+    const ArrayXs dEta1 = d * (vs[0].diagonal().array() - ArrayXs::Constant(n, E)) * eta1;
+    Y<Scalar, Dynamic> yDiag0(n), yDiag(n);
+    yDiag0.block() = u0;
+    yDiag0.block(dX) = du0;
+    yDiag.block() = eta0.matrix().asDiagonal() * u0 + (d * eta1).matrix().asDiagonal() * du0;
+    yDiag.block(dX) = dEta1.matrix().asDiagonal() * u0 + eta0.matrix().asDiagonal() * du0;
+
+    MatrixXcs thetaDiag = theta(yDiag);
+    ArrayXs betas = angle<Scalar>(thetaDiag);
     const complex<Scalar> i_delta(0, d);
     ArrayXs alphas = angle<Scalar>(
-            ((eta.row(0) + i_delta * eta.row(1)) / (eta.row(0) - i_delta * eta.row(1))).matrix().asDiagonal() * thetaZ0
+            ((eta.row(0) + i_delta * eta.row(1)) / (eta.row(0) - i_delta * eta.row(1))).matrix().asDiagonal() *
+            theta(yDiag0)
     );
+    // The perturbation by the remainder of the potential is small
+    argdet += arg(theta(y1).determinant() / thetaDiag.determinant());
     argdet += (betas - alphas).sum();
 
     return {y1, argdet};
-- 
2.43.0


From 2c690fa14bf65c1900d7a70f93b4039034a729ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 08/21] fix: do not leak sectors when the potential throws

---
 matslise/util/sectorbuilder.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index b4c9ffc..52b531d 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -68,7 +68,8 @@ typename Problem::Sector *automaticNextSector(
     }
     h = xmax - xmin;
     int steps = 0;
-    Sector *s = new Sector(ms, xmin, xmax, direction);
+    // V may throw: do not leak the sectors
+    unique_ptr<Sector> s(new Sector(ms, xmin, xmax, direction));
     Scalar error = s->error();
     while (error > tolerance && steps < 10 && h > 1e-3) {
         ++steps;
@@ -78,10 +79,8 @@ typename Problem::Sector *automaticNextSector(
         } else {
             xmin = xmax - h;
         }
-        Sector *prevSector = s;
-        s = refineSector<Scalar, Problem>(*prevSector, ms, xmin, xmax, direction);
+        s.reset(refineSector<Scalar, Problem>(*s, ms, xmin, xmax, direction));
         h = xmax - xmin;
-        delete prevSector;
         error = s->error();
     }
     if constexpr(Sector::expensive) {
@@ -115,23 +114,21 @@ typename Problem::Sector *automaticNextSector(
                     }
                 }
                 h = xmax - xmin;
-                auto *newSector = refineSector<Scalar, Problem>(
-                        *s, ms, xmin, xmax, direction);
+                unique_ptr<Sector> newSector(refineSector<Scalar, Problem>(
+                        *s, ms, xmin, xmax, direction));
                 error = newSector->error();
 
                 if (error > tolerance) {
                     h = s->max - s->min;
-                    delete newSector;
                     break;
                 } else {
-                    delete s;
-                    s = newSector;
+                    s = std::move(newSector);
                 }
             }
         }
     }
 
-    return s;
+    return s.release();
 }
 
 template<typename Problem, typename Scalar>
-- 
2.43.0


From 0eccb53b405279381a017d005abbcb5587afa992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 09/21] fix: do not mistake a secant step onto an end of the
 bracket for inseparable eigenvalues

In computeEigenvaluesHelper the secant step can round to an end of the bracket
when the prufer angle is nearly constant there (nearly equal eigenvalues). The
end was then returned as the eigenvalue, although the bracket could be halved.
---
 matslise/matslise/matslise.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 86bf92e..5b4b141 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -137,6 +137,8 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
+        if (c <= a || b <= c)
+            c = .5 * (a + b);
         if (ia + 1 == ib && ((tb - ta < 0.01 && depth > 3) || depth > 30)) {
             eigenvalues.push_back(bracketedNewton<Scalar>(ms, a, b, c, ia, left, right));
         } else if (c <= a || b <= c) {
-- 
2.43.0


From d08af81a671ed4ec05ae60d3e0529531af87f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 10/21] =?UTF-8?q?fix:=20Pr=C3=BCfer=20angle=20over=20a=20s?=
 =?UTF-8?q?ector=20no=20longer=20gains=20a=20spurious=20half=20turn?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 matslise/matslise/sector.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index b599874..e14e1ba 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -123,20 +123,11 @@ Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scala
         // page 56 (PhD Ledoux)
         Scalar omega = sqrt(E - sector.vs[0]);
         Scalar theta0 = atan_safe(y0[0] * omega, y0[1]);
-        Scalar phi_star = atan_safe(y1[0] * omega, y1[1]);
-        Scalar phi_bar = omega * delta + theta0;
-        phi_bar -= floor(phi_bar / constants<Scalar>::PI) * constants<Scalar>::PI;
-        Scalar theta1 = phi_star - phi_bar;
-        if (theta1 < -constants<Scalar>::PI / 2)
-            theta1 += constants<Scalar>::PI;
-        else if (theta1 > constants<Scalar>::PI / 2)
-            theta1 -= constants<Scalar>::PI;
-        theta1 += theta0 + omega * delta;
-
-        if (theta1 < theta0) {
-            // theta has to be increasing
-            theta1 += constants<Scalar>::PI;
-        }
+        Scalar phi_bar = omega * delta;
+        // The change of the angle of (y omega, y') is, up to full turns, the one closest to that of the constant potential
+        Scalar theta1 = atan2(y1[0] * omega, y1[1]) - atan2(y0[0] * omega, y0[1]) - phi_bar;
+        theta1 -= 2 * constants<Scalar>::PI * round(theta1 / (2 * constants<Scalar>::PI));
+        theta1 += theta0 + phi_bar;
 
         return rescale(theta1, scaling / omega) - rescale(theta0, scaling / omega);
     } else {
-- 
2.43.0


From 6a9da452f13addd059751e1c7b2b0e05f6125b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 11/21] fix: derivative to E of a propagation step missed its
 last term

---
 matslise/matscs/sector.cpp   |  8 +++-----
 matslise/matslise/sector.cpp | 12 ++++--------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index 9130bf4..06464a9 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -65,7 +65,7 @@ T<Scalar, Dynamic> calculateTFromVEd(const typename Matscs<Scalar>::Sector *sect
     Index n = sector->n;
     MatrixXs zero = MatrixXs::Zero(n, n);
     const Index MATSCS_ETA = use_h ? MATSCS_ETA_h : MATSCS_ETA_delta;
-    Array<Scalar, MATSCS_ETA, Dynamic> eta = calculateEta<Scalar, MATSCS_ETA>(VEd * delta);
+    Array<Scalar, MATSCS_ETA + 1, Dynamic> eta = calculateEta<Scalar, MATSCS_ETA + 1>(VEd * delta);
 
     T<Scalar, Dynamic> t(n);
     t.t << zero, zero, diagonalMatrix<Scalar>(eta.row(1).transpose() * VEd), zero;
@@ -79,10 +79,8 @@ T<Scalar, Dynamic> calculateTFromVEd(const typename Matscs<Scalar>::Sector *sect
         }
         const MatrixXs &coeff = use_h ? sector->t_coeff_h[i] : hor;
         t.t += coeff * kroneckerProduct(Matrix<Scalar, 2, 2>::Identity(), diagonalMatrix<Scalar>(eta.row(i)));
-
-        if (i + 1 < MATSCS_ETA)
-            t.dt += coeff * kroneckerProduct(
-                    Matrix<Scalar, 2, 2>::Identity(), diagonalMatrix<Scalar>(eta.row(i + 1) * (-delta * delta / 2.)));
+        t.dt += coeff * kroneckerProduct(
+                Matrix<Scalar, 2, 2>::Identity(), diagonalMatrix<Scalar>(eta.row(i + 1) * (-delta * delta / 2.)));
     }
 
     t.t = kroneckerProduct(Matrix<Scalar, 2, 2>::Identity(), sector->diagonalize) * t.t *
diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index e14e1ba..f3d28ce 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -61,7 +61,7 @@ T<Scalar> Matslise<Scalar>::Sector::calculateT(const Scalar &E, const Scalar &de
 
     const Scalar dd = delta * delta;
     const Scalar vsE = vs[0] - E;
-    Array<Scalar, MATSLISE_ETA_delta, 1> eta = calculateEta<Scalar, MATSLISE_ETA_delta>(vsE * dd);
+    Array<Scalar, MATSLISE_ETA_delta + 1, 1> eta = calculateEta<Scalar, MATSLISE_ETA_delta + 1>(vsE * dd);
     T<Scalar> t(1);
     t.t << 0, 0, vsE * delta * eta[1], 0;
     t.dt << 0, 0, -delta * eta[1] - vsE * dd * delta * eta[2] / 2, 0;
@@ -69,9 +69,7 @@ T<Scalar> Matslise<Scalar>::Sector::calculateT(const Scalar &E, const Scalar &de
     for (int i = 0; i < MATSLISE_ETA_delta; ++i) {
         Matrix<Scalar, 2, 2> hor = horner<Matrix<Scalar, 2, 2>>(t_coeff.row(i), delta, MATSLISE_HMAX_delta);
         t.t += hor * eta[i];
-
-        if (i + 1 < MATSLISE_ETA_delta)
-            t.dt += hor * (-dd * eta[i + 1] / 2);
+        t.dt += hor * (-dd * eta[i + 1] / 2);
     }
 
     return t;
@@ -81,16 +79,14 @@ template<typename Scalar>
 T<Scalar> Matslise<Scalar>::Sector::calculateT(const Scalar &E, bool use_h) const {
     if (!use_h)
         return calculateT(E, h, false);
-    Array<Scalar, MATSLISE_ETA_h, 1> eta = calculateEta<Scalar, MATSLISE_ETA_h>((vs[0] - E) * h * h);
+    Array<Scalar, MATSLISE_ETA_h + 1, 1> eta = calculateEta<Scalar, MATSLISE_ETA_h + 1>((vs[0] - E) * h * h);
     T<Scalar> t(1);
     t.t << 0, 0, (vs[0] - E) * h * eta[1], 0;
     t.dt << 0, 0, -h * eta[1] + -(vs[0] - E) * h * h * h * eta[2] / 2, 0;
 
     for (int i = 0; i < MATSLISE_ETA_h; ++i) {
         t.t += t_coeff_h[i] * eta[i];
-
-        if (i + 1 < MATSLISE_ETA_h)
-            t.dt += t_coeff_h[i] * (-h * h * eta[i + 1] / 2);
+        t.dt += t_coeff_h[i] * (-h * h * eta[i + 1] / 2);
     }
 
     return t;
-- 
2.43.0


From f35809976acfa119ff881da70d6ff45c59230e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 12/21] fix: y and y' are balanced when both sides of an
 eigenfunction are matched

---
 matslise/matslise/matslise.cpp |  7 +++++--
 matslise/matslise/periodic.cpp | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 5b4b141..8c849c5 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -235,8 +235,11 @@ vector<Y<Scalar>> propagationSteps(const Matslise<Scalar> &ms, Scalar E,
     }
     Y<Scalar> &yr = ys[ms.matchIndex + 1];
 
-    Scalar s = (abs(yr.data[0]) + abs(yl.data[0]) > abs(yr.data[1]) + abs(yl.data[1])) ? yl.data[0] / yr.data[0] :
-               yl.data[1] / yr.data[1];
+    // y' is compared to y in the scale on which y varies
+    const typename Matslise<Scalar>::Sector &match = *ms.sectors[ms.matchIndex];
+    const Scalar omega = max(Scalar(1) / match.h, Scalar(sqrt(abs(E - match.vs[0]))));
+    Scalar s = (omega * (abs(yr.data[0]) + abs(yl.data[0])) > abs(yr.data[1]) + abs(yl.data[1]))
+               ? yl.data[0] / yr.data[0] : yl.data[1] / yr.data[1];
     Scalar norm = yl.data[2] * yl.data[1] - yl.data[3] * yl.data[0];
     norm -= s * s * (yr.data[2] * yr.data[1] - yr.data[3] * yr.data[0]);
     if (norm > 0) {
diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index f792884..d9eb98a 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -49,6 +49,14 @@ pair<Scalar, Scalar> calculateMatchingError(const Y<Scalar, 1, 2> &yError) {
     return {error, dError};
 }
 
+// Scales y, in the matching point, to the size of y'.
+template<typename Scalar>
+Matrix<Scalar, 2, 2> balanced(const PeriodicMatslise<Scalar> *ms, const Scalar &E, Matrix<Scalar, 2, 2> y) {
+    const auto &match = *ms->matslise.sectors[ms->matslise.matchIndex];
+    y.row(0) *= max(Scalar(1) / match.h, Scalar(sqrt(abs(E - match.vs[0]))));
+    return y;
+}
+
 // Finds the point in [eMin, eMax] where f, which is true in eMin, becomes false.
 template<typename Scalar, typename Func>
 Scalar binarySearch(Scalar eMin, Scalar eMax, const Func &f, const Scalar &eps) {
@@ -102,7 +110,8 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, int iMin, int iMax, const A
                 eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l.col(1), r.col(1)));
             } else {
                 // The kernel of the matching error
-                JacobiSVD<Matrix<Scalar, 2, 2>> svd(ms->matchingError(E).first.y(), ComputeFullV);
+                JacobiSVD<Matrix<Scalar, 2, 2>> svd(
+                        balanced<Scalar>(ms, E, ms->matchingError(E).first.y()), ComputeFullV);
                 const Matrix<Scalar, 2, 1> c = svd.matrixV().col(1);
                 eigenfunctions.reserve(1);
                 eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l * c, r * c));
@@ -214,8 +223,8 @@ PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
     const Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
     const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(K);
     const Scalar &match = matslise.sectors[matslise.matchIndex]->max;
-    const Matrix<Scalar, 2, 2> left = propagate(E, l, matslise.domain.min, match).first.y();
-    const Matrix<Scalar, 2, 2> right = propagate(E, r, matslise.domain.max, match).first.y();
+    const Matrix<Scalar, 2, 2> left = balanced<Scalar>(this, E, propagate(E, l, matslise.domain.min, match).first.y());
+    const Matrix<Scalar, 2, 2> right = balanced<Scalar>(this, E, propagate(E, r, matslise.domain.max, match).first.y());
 
     // The coefficients of the eigenfunctions span the kernel of the matching error.
     JacobiSVD<Matrix<Scalar, 2, 2>> svd(left - right, ComputeFullV);
-- 
2.43.0


From 168a6e35c183cf515bbd4909a852c8e34f218697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 13/21] =?UTF-8?q?fix:=20Pr=C3=BCfer=20angle=20lost=20its?=
 =?UTF-8?q?=20accuracy=20when=20E=20is=20next=20to=20the=20potential?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 matslise/matslise/sector.cpp | 8 +++++---
 matslise/util/theta.h        | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index f3d28ce..b4d97ce 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -121,9 +121,11 @@ Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scala
         Scalar theta0 = atan_safe(y0[0] * omega, y0[1]);
         Scalar phi_bar = omega * delta;
         // The change of the angle of (y omega, y') is, up to full turns, the one closest to that of the constant potential
-        Scalar theta1 = atan2(y1[0] * omega, y1[1]) - atan2(y0[0] * omega, y0[1]) - phi_bar;
-        theta1 -= 2 * constants<Scalar>::PI * round(theta1 / (2 * constants<Scalar>::PI));
-        theta1 += theta0 + phi_bar;
+        Scalar change = atan2(y1[0] * omega, y1[1]) - atan2(y0[0] * omega, y0[1]);
+        change += 2 * constants<Scalar>::PI * round((phi_bar - change) / (2 * constants<Scalar>::PI));
+        // The angle itself has to stay accurate when omega is very small
+        Scalar theta1 = atan_safe(y1[0] * omega, y1[1]);
+        theta1 += constants<Scalar>::PI * round((theta0 + change - theta1) / constants<Scalar>::PI);
 
         return rescale(theta1, scaling / omega) - rescale(theta0, scaling / omega);
     } else {
diff --git a/matslise/util/theta.h b/matslise/util/theta.h
index 690d69e..9bf55d9 100644
--- a/matslise/util/theta.h
+++ b/matslise/util/theta.h
@@ -6,7 +6,8 @@
 
 template<typename Scalar>
 inline Scalar atan_safe(const Scalar &y, const Scalar &x) {
-    Scalar r = atan2(y, x);
+    // Adding or subtracting pi from an angle would lose the accuracy of a very small one
+    Scalar r = x < 0 ? atan2(-y, -x) : atan2(y, x);
     if (r > constants<Scalar>::PI / 2)
         r -= constants<Scalar>::PI;
     else if (r <= -constants<Scalar>::PI / 2)
-- 
2.43.0


From d2393437c53993449f028f6b65b1a4cd9603b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:57 +0000
Subject: [PATCH 14/21] fix: pieces of the Liouville transformation no longer
 shrink on rounding errors of large coefficients

---
 matslise/liouville/liouville.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index ef50f2f..77bc720 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -104,7 +104,7 @@ constructPiecewise(const LiouvilleTransformation<Scalar> &lt) {
                     return p.pwx.integral(1) * (p.x.max - p.x.min);
                 }, next, left, right) < 1e-14
                 && pieceError<Scalar>([](const Piece &p) {
-                    return p.pwx(1) - p.pwx(0);
+                    return log(p.pwx(1) / p.pwx(0));
                 }, next, left, right) < 1e-12
         )) {
             toDo.pop_back();
-- 
2.43.0


From b3d2e90b96a0892b24a39023fce8b19b40f7bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 15/21] fix: a sector cut short by a jump does not reduce the
 following ones

---
 matslise/util/sectorbuilder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index 52b531d..7fdfc20 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -59,12 +59,16 @@ typename Problem::Sector *automaticNextSector(
         const typename Problem::Scalar &tolerance, Direction direction) {
     typedef typename Problem::Scalar Scalar;
     typedef typename Problem::Sector Sector;
+    Scalar suggestedH = h;
+    bool shortened = false;
     Scalar xmin = direction == Direction::forward ? left : right - h;
     Scalar xmax = direction == Direction::forward ? left + h : right;
     if (direction == Direction::forward && xmax > right) {
         xmax = right;
+        shortened = true;
     } else if (direction == backward && xmin < left) {
         xmin = left;
+        shortened = true;
     }
     h = xmax - xmin;
     int steps = 0;
@@ -82,6 +86,7 @@ typename Problem::Sector *automaticNextSector(
         s.reset(refineSector<Scalar, Problem>(*s, ms, xmin, xmax, direction));
         h = xmax - xmin;
         error = s->error();
+        shortened = false;
     }
     if constexpr(Sector::expensive) {
         if (error < tolerance / 2) {
@@ -128,6 +133,10 @@ typename Problem::Sector *automaticNextSector(
         }
     }
 
+    // A sector that had to end at a jump says nothing about the size of the next one. When it is tiny, h can't recover
+    if (shortened)
+        h = suggestedH;
+
     return s.release();
 }
 
-- 
2.43.0


From 6cf63975215cf5e909434f0db50d86e0aef7a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 16/21] fix: the sum and the difference of two polynomials did
 not compile or recursed forever

---
 matslise/util/polynomial.h | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/matslise/util/polynomial.h b/matslise/util/polynomial.h
index 87389e4..8225ddc 100644
--- a/matslise/util/polynomial.h
+++ b/matslise/util/polynomial.h
@@ -73,24 +73,12 @@ namespace matslise {
 
 #define POLY_SUM_OPERATOR(op) \
         template<int od> \
-        POLY_INPLACE_OPERATOR(op, od, OtherPolynomial<od>, other.coefficients, od <= degree); \
-        template<int od> \
-        POLY_BINARY_OPERATOR(op, OtherPolynomial<od>);
+        POLY_INPLACE_OPERATOR(op, od, OtherPolynomial<od>, other.coefficients, od <= degree);
 
         POLY_SUM_OPERATOR(+)
 
-        template<int od>
-        POLY_BINARY_REV_OPERATOR(+, OtherPolynomial<od>);
-
         POLY_SUM_OPERATOR(-)
 
-
-        template<int od>
-        friend Polynomial<Scalar, degree>
-        operator-(const OtherPolynomial<od> &left, const Polynomial<Scalar, degree> &right) {
-            return -right + left;
-        }
-
         POLY_SCALAR_OPERATOR(+, 0)
 
         POLY_BINARY_REV_OPERATOR(+, Scalar);
-- 
2.43.0


From 585dcab93d3ec5238126adf71449e8350d735568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 17/21] =?UTF-8?q?fix:=20a=20Pr=C3=BCfer=20angle=20which=20?=
 =?UTF-8?q?is=20NaN=20was=20converted=20to=20an=20integer?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 matslise/matslise/matslise.cpp | 16 +++++++++++-----
 matslise/matslise/periodic.cpp |  5 +++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 8c849c5..e974ba0 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -57,6 +57,12 @@ Matslise<Scalar>::matchingError(const Scalar &E, const Y<Scalar> &left, const Y<
                       thetaL - thetaR);
 }
 
+// Far below all eigenvalues the solutions overflow and there is no angle, then the index is -1.
+template<typename Scalar>
+int angleToIndex(const Scalar &roundedAngle) {
+    return isnan(roundedAngle) ? -1 : (int) roundedAngle;
+}
+
 template<typename Scalar>
 pair<int, Scalar>
 newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, const Y<Scalar> &right, bool use_h) {
@@ -72,7 +78,7 @@ newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, con
         // cerr << "Newton-iteration did not converge for E=" << (double) E << endl;
     }
 
-    int index = (int) round(theta / constants<Scalar>::PI);
+    int index = angleToIndex<Scalar>(round(theta / constants<Scalar>::PI));
     if (index < 0)
         index = 0;
     return make_pair(index, E);
@@ -129,8 +135,8 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
     while (!toCheck.empty()) {
         tie(a, ta, b, tb, depth) = toCheck.front();
         toCheck.pop();
-        ia = (int) ceil(ta);
-        ib = (int) ceil(tb);
+        ia = angleToIndex<Scalar>(ceil(ta));
+        ib = angleToIndex<Scalar>(ceil(tb));
         if (ta >= tb || ia == ib || ib <= Imin || Imax <= ia)
             continue;
 
@@ -177,7 +183,7 @@ Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left,
     Scalar Emax = 1;
     while (true) {
         Scalar t = get<2>(matchingError(Emax, left, right)) / constants<Scalar>::PI;
-        int i = (int) floor(t);
+        int i = angleToIndex<Scalar>(floor(t));
         if (i >= Imax)
             break;
         else {
@@ -189,7 +195,7 @@ Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left,
     if (Emin == -1) {
         while (true) {
             Scalar t = get<2>(matchingError(Emin, left, right)) / constants<Scalar>::PI;
-            int i = (int) ceil(t);
+            int i = angleToIndex<Scalar>(ceil(t));
             if (i <= Imin)
                 break;
             else {
diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index d9eb98a..117239b 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -178,8 +178,9 @@ typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
 eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, const Scalar &eMin, const Scalar &eMax) {
     const auto boundary = gapBoundary(ms);
     auto gapsBelow = [&](const Scalar &E) {
-        return max(0, (int) ceil(get<2>(ms->matslise.matchingError(E, boundary.first, boundary.second)) /
-                                 constants<Scalar>::PI));
+        const Scalar gaps = ceil(get<2>(ms->matslise.matchingError(E, boundary.first, boundary.second)) /
+                                 constants<Scalar>::PI);
+        return gaps > 0 ? (int) gaps : 0; // far below all eigenvalues gaps can be NaN
     };
 
     return eigenpairsHelper<Scalar, with_eigenfunctions>(
-- 
2.43.0


From ea06b7dcfb5231ec1efe7be92797fe9a61d32551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 18/21] fix: domains which are shorter than the smallest sector
 (1e-3) were not refined at all

---
 matslise/util/sectorbuilder.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index 7fdfc20..9ef9950 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -56,7 +56,7 @@ template<typename Problem>
 typename Problem::Sector *automaticNextSector(
         const Problem *ms, typename Problem::Scalar &h,
         const typename Problem::Scalar &left, const typename Problem::Scalar &right,
-        const typename Problem::Scalar &tolerance, Direction direction) {
+        const typename Problem::Scalar &tolerance, const typename Problem::Scalar &minimalH, Direction direction) {
     typedef typename Problem::Scalar Scalar;
     typedef typename Problem::Sector Sector;
     Scalar suggestedH = h;
@@ -75,7 +75,7 @@ typename Problem::Sector *automaticNextSector(
     // V may throw: do not leak the sectors
     unique_ptr<Sector> s(new Sector(ms, xmin, xmax, direction));
     Scalar error = s->error();
-    while (error > tolerance && steps < 10 && h > 1e-3) {
+    while (error > tolerance && steps < 10 && h > minimalH) {
         ++steps;
         h *= std::max(Scalar(.1), .99 * Scalar(pow(tolerance / error, Scalar(1. / (Problem::order - 1)))));
         if (direction == Direction::forward) {
@@ -152,6 +152,8 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
     Scalar mid = 0.4956864123 * max + 0.5043135877 * min;
     Scalar forwardH = .33 * (max - min);
     Scalar backwardH = forwardH;
+    // On small domains smaller sectors are needed
+    Scalar minimalH = 1e-3 * std::min(Scalar(1), Scalar(max - min));
     auto forwardJumpPosition = jumps.begin();
     auto backwardJumpPosition = jumps.rbegin();
     auto nextForwardJump = [&]() {
@@ -162,10 +164,10 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
     };
     forward.emplace_back(
             automaticNextSector(problem, forwardH, min, std::min(mid, nextForwardJump()), tolerance,
-                                Direction::forward));
+                                minimalH, Direction::forward));
     backward.emplace_back(
             automaticNextSector(problem, backwardH, std::max(mid, nextBackwardJump()), max, tolerance,
-                                Direction::backward));
+                                minimalH, Direction::backward));
 
 
     while (forward.back()->max != backward.back()->min) {
@@ -175,14 +177,14 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
             forward.emplace_back(automaticNextSector(
                     problem, forwardH,
                     forward.back()->max, std::min(backward.back()->min, nextForwardJump()),
-                    tolerance, Direction::forward));
+                    tolerance, minimalH, Direction::forward));
         } else {
             if (backward.back()->min == nextBackwardJump())
                 ++backwardJumpPosition;
             backward.emplace_back(automaticNextSector(
                     problem, backwardH,
                     std::max(forward.back()->max, nextBackwardJump()), backward.back()->min,
-                    tolerance, Direction::backward));
+                    tolerance, minimalH, Direction::backward));
         }
     }
 
-- 
2.43.0


From 1a136615656e370520e74826cbb9b3fca7429484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 19/21] fix: eigenvaluesByIndex found nothing when the
 solutions overflow halfway the first interval

---
 matslise/matslise/matslise.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index e974ba0..be2d9f0 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -140,7 +140,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         if (ta >= tb || ia == ib || ib <= Imin || Imax <= ia)
             continue;
 
-        c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
+        c = isnan(ta) || ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
         if (c <= a || b <= c)
@@ -148,13 +148,16 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         if (ia + 1 == ib && ((tb - ta < 0.01 && depth > 3) || depth > 30)) {
             eigenvalues.push_back(bracketedNewton<Scalar>(ms, a, b, c, ia, left, right));
         } else if (c <= a || b <= c) {
+            if (isnan(ta))
+                continue; // the solutions overflow up to b
             // These eigenvalues can't be separated anymore
             for (int i = max(ia, Imin); i < min(ib, Imax); ++i)
                 eigenvalues.push_back(make_pair(i, c));
         } else {
             tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
             if (isnan(tc)) {
-                // cerr << "Matslise::computeEigenvalues(): some interval converted to NaN" << endl;
+                // c is far below the eigenvalues: only [c, b] can contain some
+                toCheck.push(make_tuple(c, tc, b, tb, depth));
             } else if (ia + 1 < ib) {
                 toCheck.push(make_tuple(a, ta, c, tc, 1 + depth));
                 toCheck.push(make_tuple(c, tc, b, tb, 1 + depth));
-- 
2.43.0


From fd0a2d02caf9bce23e4ab1346f47f2c9215d2aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:29 +0000
Subject: [PATCH 20/21] fix: Legendre::integrate returned half of the integral

---
 matslise/util/legendre.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/util/legendre.h b/matslise/util/legendre.h
index 4641810..c9bf8bc 100644
--- a/matslise/util/legendre.h
+++ b/matslise/util/legendre.h
@@ -52,7 +52,7 @@ namespace matslise::legendre {
             for (int j = 1; j < weights<Scalar, k>.rows(); ++j)
                 result += weights<Scalar, k>(i, j) * fs[j];
             if constexpr(scaled)
-                result *= h;
+                result *= 2 * h;
             return result;
         }
 
-- 
2.43.0


From 00aad4c794003d5451fe6aa41b81b4f0e4f8ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:37 +0000
Subject: [PATCH 21/21] fix: unary plus of polynomials did not compile

---
 matslise/util/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/util/polynomial.h b/matslise/util/polynomial.h
index 8225ddc..8411dc1 100644
--- a/matslise/util/polynomial.h
+++ b/matslise/util/polynomial.h
@@ -100,7 +100,7 @@ namespace matslise {
         }
 
         Polynomial<Scalar, degree> operator+() const {
-            return Polynomial<Scalar, degree>{+coefficients};
+            return *this;
         }
 
         template<int otherDegree>
-- 
2.43.0

