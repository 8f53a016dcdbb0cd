From 4d27e3e7102accfad019f11e0d87cfbfca0441bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 1/4] fix: isValid() for blades tests every component, not only
 the first

---
 include/g3validity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3validity.hpp b/include/g3validity.hpp
index 99c3ef8..e6b25c3 100644
--- a/include/g3validity.hpp
+++ b/include/g3validity.hpp
@@ -121,7 +121,7 @@ namespace g3
 		( Blade const & blade
 		)
 	{
-		return isValid(blade.theData[0]); // test only first element for nan
+		return isValid(blade.theData); // test all elements
 	}
 
 	//! True if instance is not null - specialization for Spinor
-- 
2.43.0


From 0124b4d389d7c683b39e36a47c01dde3b351c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 2/4] fix: exp(BiVector) no longer collapses to unity for very
 unequal components

The zero-angle test looked at validity of the direction, which is also false
when one direction component is subnormal.
---
 include/g3func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 773a99d..6ea7d9c 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -546,7 +546,7 @@ namespace g3
 				{ pairMagDirFrom(spinAngle) };
 			double const & mag = magdir.first;
 			BiVector const & dir = magdir.second;
-			if (isValid(dir))
+			if (0. < mag)
 			{
 				spin = Spinor{ std::cos(mag), std::sin(mag)*dir };
 			}
-- 
2.43.0


From 3639df67ee8a32540a131501aca331b814dd9149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:51 +0000
Subject: [PATCH 3/4] fix: null<MultiVector>() populates every grade with nan

---
 include/g3const.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/g3const.hpp b/include/g3const.hpp
index d035c36..bddbfcb 100644
--- a/include/g3const.hpp
+++ b/include/g3const.hpp
@@ -222,6 +222,20 @@ namespace g3
 		return DirPlex{ null<Vector>(), null<BiVector>() };
 	}
 
+	//! Null instance for MultiVector (all grades are null)
+	template <>
+	inline  // NOTE: can't be constexpr since MultiVector has ctors
+	MultiVector
+	null<MultiVector>()
+	{
+		return MultiVector
+			{ null<Scalar>()
+			, null<Vector>()
+			, null<BiVector>()
+			, null<TriVector>()
+			};
+	}
+
 	//
 	// Zero values
 	//
-- 
2.43.0


From 2bf02e91523cb60ccdceb02644c27b698293fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 4/4] fix: exp(MultiVector) evaluates the exponential series
 value and prints nothing

The formula used assumed the wrong signature (noted as wrong in the comments),
so vectors and trivectors were wrong, and debug values were sent to std::cout.
---
 include/g3func.hpp | 112 +++++++++++----------------------------------
 1 file changed, 27 insertions(+), 85 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 6ea7d9c..b80db94 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -599,15 +599,14 @@ namespace priv
 
 	/*! Exponential of general MultiVector element.
 	 *
-	 * Formula used is from:
-	 * \arg Dargys, Adolfas, Acus Arturas,
-	 * "Exponentials of general multivector (MV) in 3D Clifford algebras"
-	 * ArXiv:2104.01905v1, 18 Feb 2021
-	 * https://arxiv.org/pdf/2104.01905.pdf
-	 *
-* NOTE - ERROR - this paper seems to be wrong
-* For example; obvious in that b0, b123, do not reproduce (-1 == exp(I*pi))
+	 * Uses the partition M=C+D of argument into ComPlex, C, and DirPlex, D.
+	 * Since C commutes with everything, and since D*D=-ampSq(D) is itself
+	 * a ComPlex entity
+	 * \arg exp(M) = exp(C)*exp(D)
+	 * \arg exp(D) = cosh(z) + (sinh(z)/z)*D, for which z*z=D*D
 	 *
+	 * Both cosh(z) and sinh(z)/z are even functions such that the result
+	 * is independent of which square root is used for z.
 	 */
 	inline
 	MultiVector
@@ -619,83 +618,26 @@ namespace priv
 
 		if (isValid(someItem))
 		{
-			// NOTE: the algorithm [Dargys, Arturas] uses bivector
-			// decomposition with basis: E12, E23, E13
-			// This library uses: e23, e31, e12
-
-			// pull out components from input MV
-			double const a0  {  someItem[0] };
-			double const a1  {  someItem[1] };
-			double const a2  {  someItem[2] };
-			double const a3  {  someItem[3] };
-			double const a12 {  someItem[6] }; // e12
-			double const a13 { -someItem[5] }; // e31
-			double const a23 {  someItem[4] }; // e23
-			double const a123{  someItem[7] };
-
-			// evaluate scalar angles ([Dargys, Arturas] eqn 3.2)
-			double const a3m12{ a3 - a12 };
-			double const a3p12{ a3 + a12 };
-			double const a2m13{ a2 - a13 };
-			double const a2p13{ a2 + a13 };
-			double const a1m23{ a1 - a23 };
-			double const a1p23{ a1 + a23 };
-
-			double const apos{ sqrt(sq(a3m12) + sq(a2p13) + sq(a1m23)) };
-			double const aneg{ sqrt(sq(a3p12) + sq(a2m13) + sq(a1p23)) };
-
-std::cout << "apos: " << apos << std::endl;
-std::cout << "aneg: " << aneg << std::endl;
-
-			// evaluate result coefficients ([Dargys, Arturas] eqn 3.1)
-
-			// cosine function is well behaved including near zero
-			double const cospos{ std::cos(apos) }; // okay for 0==apos
-			double const cosneg{ std::cos(aneg) }; // okay for 0==aneg
-			// sync function (sin(x)/x) needs limiting case evaluation
-			double const syncpos{ priv::sync(apos) };
-			double const syncneg{ priv::sync(aneg) };
-
-std::cout << "cospos: " << cospos << std::endl;
-std::cout << "cosneg: " << cosneg << std::endl;
-
-std::cout << "syncpos: " << syncpos << std::endl;
-std::cout << "syncneg: " << syncneg << std::endl;
-
-			// leading coefficients
-			double const hea0{ .5 * std::exp(a0) }; // half * e(a0)
-			double const epa123{ std::exp( a123) }; // e(+a123)
-			double const ena123{ std::exp(-a123) }; // e(-a123)
-
-std::cout << "hea0  : " << hea0 << std::endl;
-std::cout << "epa123: " << epa123 << std::endl;
-std::cout << "ena123: " << ena123 << std::endl;
-std::cout << " sum  : " << epa123 + ena123 << std::endl;
-
-			// evaluate the output components
-
-			// Note the special case evaluations could be slightly more
-			// optimized, but simple code evaluation is preferred here.
-
-			double const b0  { epa123*cospos + ena123*cosneg };
-
-			double const b1{ epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg };
-			double const b2{ epa123*(a2p13)*syncpos + ena123*(a2m13)*syncneg };
-			double const b3{ epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg };
-
-			double const b12{-epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg};
-			double const b13{ epa123*(a2p13)*syncpos - ena123*(a2m13)*syncneg};
-			double const b23{-epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg};
-
-			double const b123{ epa123*cospos - ena123*cosneg };
-
-			// NOTE restore conventions on basis bivectors
-			// e23 :  b23
-			// e31 : -b13
-			// e12 :  b12
-			result = MultiVector{ b0, b1, b2, b3, b23, -b13, b12, b123 };
-			// apply overall scale factor
-			result = hea0 * result;
+			ComPlex const cplx{ someItem.theSca, someItem.theTri };
+			DirPlex const dplx{ someItem.theVec, someItem.theBiv };
+
+			// square of the directed part
+			std::complex<double> const zSq
+				{ -static_cast<std::complex<double> >(ampSq(dplx)) };
+			std::complex<double> const zMag{ std::sqrt(zSq) };
+
+			// sinh(z)/z - using series expansion if near zero
+			std::complex<double> zSinc{ 1. + zSq/6. + zSq*zSq/120. };
+			if (! (std::abs(zMag) < 1.e-4))
+			{
+				zSinc = std::sinh(zMag) / zMag;
+			}
+
+			std::complex<double> const zExp
+				{ std::exp(static_cast<std::complex<double> >(cplx)) };
+			ComPlex const cPart{ ComPlex::from(zExp * std::cosh(zMag)) };
+			ComPlex const dFactor{ ComPlex::from(zExp * zSinc) };
+			result = MultiVector{ cPart, dFactor * dplx };
 		}
 
 		return result;
-- 
2.43.0

