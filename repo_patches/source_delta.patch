From 73ad684bbe265ead58e8e49ec1bb758106136533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 01/30] fix: default-constructed Vector and Matrix left their
 storage pointer uninitialised

Destroying (or assigning to) an empty Vector or Matrix freed a garbage pointer, and
assigning to a zero-size object leaked its allocation.
---
 src/LinearAlgebra/Models/Matrix.h | 5 ++---
 src/LinearAlgebra/Models/Vector.h | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/LinearAlgebra/Models/Matrix.h b/src/LinearAlgebra/Models/Matrix.h
index 6693ec9..46ae833 100644
--- a/src/LinearAlgebra/Models/Matrix.h
+++ b/src/LinearAlgebra/Models/Matrix.h
@@ -93,6 +93,7 @@ protected:
     Matrix<T>::Matrix() {
         this->row = 0;
         this->col = 0;
+        this->values = nullptr;
     }
 
 
@@ -154,9 +155,7 @@ protected:
     template<class T>
     Matrix<T>& Matrix<T>::operator=(const Matrix<T>& _mat){
         if(this != &_mat){
-            if(this->row != 0 && this->col != 0){
-                delete[] this->values;
-            }
+            delete[] this->values;
 
             this->row = _mat.row;
             this->col = _mat.col;
diff --git a/src/LinearAlgebra/Models/Vector.h b/src/LinearAlgebra/Models/Vector.h
index 9102884..48b78c4 100644
--- a/src/LinearAlgebra/Models/Vector.h
+++ b/src/LinearAlgebra/Models/Vector.h
@@ -83,6 +83,7 @@ protected:
     template<class T>
     Vector<T>::Vector(){
         this->size = 0;
+        this->values = nullptr;
     }
 
 
@@ -156,9 +157,7 @@ protected:
     template<class T>
     Vector<T>& Vector<T>::operator=(const Vector<T>& _vec){
         if(this != &_vec){
-            if(this->size != 0){
-                delete[] this->values;
-            }
+            delete[] this->values;
 
             this->size = _vec.size;
             this->values = new T[this->size];
-- 
2.43.0


From 8b0d9eef371f9ffdb02896b6f353194c3634c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 02/30] fix: scalar * CSR did not compile when the scalar has
 the element type

A leftover overload that is not a friend of CSR was preferred over the declared friend operator and failed on access to private members.
---
 src/LinearAlgebra/Models/CSR.h | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/LinearAlgebra/Models/CSR.h b/src/LinearAlgebra/Models/CSR.h
index 85e8527..3f92bc3 100644
--- a/src/LinearAlgebra/Models/CSR.h
+++ b/src/LinearAlgebra/Models/CSR.h
@@ -167,16 +167,6 @@ inline T CSR<T>::get(int _row, int _col) const {
 }
 
 
-template<class F>
-inline CSR<F> operator*(F _a, const CSR<F>& _m) {
-	CSR<F> m = CSR<F>(_m);
-	for (auto& datai : m.data) {
-		datai *= _a;
-	}
-	return m;
-}
-
-
 template<class T1, class T2>
 inline const CSR<T1> operator+(const CSR<T1>& _m1, const CSR<T2>& _m2) {
 	assert(_m1.ROWS == _m2.ROWS && _m1.COLS == _m2.COLS);
-- 
2.43.0


From 1f52c4008e3bf7a77e859ab16f58d83cfb961a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:57 +0000
Subject: [PATCH 03/30] fix: Krylov solvers returned NaN for a zero right-hand
 side

---
 src/LinearAlgebra/Solvers/CG.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/LinearAlgebra/Solvers/CG.h b/src/LinearAlgebra/Solvers/CG.h
index 4f08b25..5a848c8 100644
--- a/src/LinearAlgebra/Solvers/CG.h
+++ b/src/LinearAlgebra/Solvers/CG.h
@@ -127,6 +127,9 @@ std::vector<T> CG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _eps) {
 	std::vector<T> rk = subtract(_b, _A*xk);
 	std::vector<T> pk = rk;
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//	The solution for zero right-hand side is zero
+	}
 	T rkrk = std::inner_product(rk.begin(), rk.end(), rk.begin(), T());
 
 	//----------Iteration----------
@@ -164,6 +167,9 @@ std::vector<T> BiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 	std::vector<T> pk = rk;
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//	The solution for zero right-hand side is zero
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
@@ -208,6 +214,9 @@ std::vector<T> BiCGSTAB2(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 	T beta = T();
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//	The solution for zero right-hand side is zero
+	}
 
 	//----------Iteration----------
 	for(int k = 0; k < _itrmax; k++) {
@@ -324,6 +333,9 @@ std::vector<T> ILU0CG(CSR<T>& _A, CSR<T>& _M, const std::vector<T>& _b, int _itr
 	std::vector<T> pk = PreILU0(_M, rk);				//Preconditioning
 	std::vector<T> Mrk = pk;							
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//	The solution for zero right-hand side is zero
+	}
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 	
 	//----------Iteration----------
@@ -362,6 +374,9 @@ std::vector<T> ILU0BiCGSTAB(CSR<T>& _A, CSR<T>& _M, std::vector<T>& _b, int _itr
 	std::vector<T> pk = rk;
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//	The solution for zero right-hand side is zero
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
@@ -425,6 +440,9 @@ std::vector<T> ScalingCG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _e
 	std::vector<T> pk = Scaling(D, rk);				//Scaling rk
 	std::vector<T> Mrk = pk;
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//	The solution for zero right-hand side is zero
+	}
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 
 	//----------Iteration----------
@@ -464,6 +482,9 @@ std::vector<T> ScalingBiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _e
 	std::vector<T> pk = Scaling(D, rk);
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//	The solution for zero right-hand side is zero
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
@@ -540,6 +561,9 @@ std::vector<T> SORCG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _eps,
 	std::vector<T> pk = SOR(_A, rk, _soromega, _soritermax, _soreps);		//Preconditioning SOR
 	std::vector<T> Mrk = pk;
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//	The solution for zero right-hand side is zero
+	}
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 
 	//----------Iteration----------
-- 
2.43.0


From 1f9e2bdcffc4c101cc6b0132d85cd5cc84c7ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:57 +0000
Subject: [PATCH 04/30] fix: BiCGSTAB solvers returned NaN when the first half
 step hits the solution

With a vanishing intermediate residual the stabilisation factor was 0/0.
---
 src/LinearAlgebra/Solvers/CG.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/LinearAlgebra/Solvers/CG.h b/src/LinearAlgebra/Solvers/CG.h
index 5a848c8..e5d7f42 100644
--- a/src/LinearAlgebra/Solvers/CG.h
+++ b/src/LinearAlgebra/Solvers/CG.h
@@ -176,6 +176,10 @@ std::vector<T> BiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 		std::vector<T> Apk = _A*pk;
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), Apk.begin(), T());
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, Apk);
+		if (sqrt(std::inner_product(sk.begin(), sk.end(), sk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, pk);		//	Converged at the half step
+			return xk;
+		}
 		std::vector<T> Ask = _A*sk;
 		T omega = std::inner_product(Ask.begin(), Ask.end(), sk.begin(), T())/std::inner_product(Ask.begin(), Ask.end(), Ask.begin(), T());
 		xeaxpbypcz(1.0, xk, alpha, pk, omega, sk);
@@ -225,6 +229,10 @@ std::vector<T> BiCGSTAB2(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), Apk.begin(), T());
 		std::vector<T> yk = zeavpbwpcxpdy(1.0, tkm1, -1.0, rk, -alpha, wk, alpha, Apk);
 		std::vector<T> tk = zeaxpby(1.0, rk, -alpha, Apk);
+		if (sqrt(std::inner_product(tk.begin(), tk.end(), tk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, pk);		//	Converged at the half step
+			return xk;
+		}
 		T zeta, ita;
 		std::vector<T> Atk = _A*tk;
 		T Att = std::inner_product(Atk.begin(), Atk.end(), tk.begin(), T());
@@ -384,6 +392,10 @@ std::vector<T> ILU0BiCGSTAB(CSR<T>& _A, CSR<T>& _M, std::vector<T>& _b, int _itr
 		std::vector<T> AMpk = _A*Mpk;
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), AMpk.begin(), T());
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, AMpk);
+		if (sqrt(std::inner_product(sk.begin(), sk.end(), sk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, Mpk);		//	Converged at the half step
+			return xk;
+		}
 		std::vector<T> Msk = PreILU0(_M, sk);		//Preconditioning
 		std::vector<T> AMsk = _A*Msk;
 		T omega = std::inner_product(AMsk.begin(), AMsk.end(), sk.begin(), T())/std::inner_product(AMsk.begin(), AMsk.end(), AMsk.begin(), T());
@@ -492,6 +504,10 @@ std::vector<T> ScalingBiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _e
 		std::vector<T> AMpk = _A*Mpk;
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), AMpk.begin(), T());
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, AMpk);
+		if (sqrt(std::inner_product(sk.begin(), sk.end(), sk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, Mpk);		//	Converged at the half step
+			return xk;
+		}
 		std::vector<T> Msk = Scaling(D, sk);		//Preconditioning
 		std::vector<T> AMsk = _A*Msk;
 		T omega = std::inner_product(AMsk.begin(), AMsk.end(), sk.begin(), T())/std::inner_product(AMsk.begin(), AMsk.end(), AMsk.begin(), T());
-- 
2.43.0


From e83a61cf76587366e9dd2ef2254cb005eb9a3ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:34 +0000
Subject: [PATCH 05/30] fix: generalised Lanczos started from a vector that is
 not normalised in the B inner product

The tridiagonal matrix and hence all eigenvalues were wrong unless the start vector happened to have unit B norm.
---
 src/LinearAlgebra/Solvers/Lanczos.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index b0631fa..d998214 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -253,6 +253,9 @@ void GeneralShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>& _eigenv
     q[0] = GetDiagonal(A);
     xexda(q[0], sqrt(std::inner_product(q[0].begin(), q[0].end(), q[0].begin(), T())));
     std::vector<T> p = _B*q[0];
+    T qnorm = sqrt(std::inner_product(p.begin(), p.end(), q[0].begin(), T()));
+    xexda(q[0], qnorm);
+    xexda(p, qnorm);
     int itrmax = std::max(_A.ROWS, 10000);
 
     //----------Lanczos process----------
@@ -293,6 +296,9 @@ void GeneralRestartShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>&
     q[0] = GetDiagonal(A);
     xexda(q[0], sqrt(std::inner_product(q[0].begin(), q[0].end(), q[0].begin(), T())));
     std::vector<T> p = _B*q[0];
+    T qnorm = sqrt(std::inner_product(p.begin(), p.end(), q[0].begin(), T()));
+    xexda(q[0], qnorm);
+    xexda(p, qnorm);
     int itrmax = std::max(_A.ROWS, 10000);
 
     //----------Lanczos process----------
-- 
2.43.0


From 05af50a2eb45cfa3c426b5c25aa6cfb1a47aced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 06/30] fix: generalised restart Lanczos re-orthogonalised
 against B*q instead of q

---
 src/LinearAlgebra/Solvers/Lanczos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index d998214..99b6f42 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -306,7 +306,7 @@ void GeneralRestartShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>&
         std::vector<T> s = ScalingCG(A, p, itrmax, 1.0e-10);
         for(int i = 0; i < k - 2; i++) {
             std::vector<T> Bq = _B*q[i];
-            xexpay(s, -std::inner_product(s.begin(), s.end(), Bq.begin(), T()), Bq);
+            xexpay(s, -std::inner_product(s.begin(), s.end(), Bq.begin(), T()), q[i]);
         }
         if(k != 0){
             xexpay(s, -beta[k - 1], q[k - 1]);
-- 
2.43.0


From 93fcd4b0baf6a08a52945605baf40b2465e94dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 07/30] fix: bisection returned an uninitialised value for a
 zero tridiagonal matrix

---
 src/LinearAlgebra/Solvers/Lanczos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index 99b6f42..5f541e6 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -47,7 +47,7 @@ T BisectionMethod(const std::vector<T>& _alpha, const std::vector<T>& _beta, int
         }
     }
 
-    T a1 = -b, a2 = b, lambda;
+    T a1 = -b, a2 = b, lambda = T();
     while((a2 - a1) > 1.0e-13*b){
         //----------Update lambda----------
         lambda = 0.5*(a1 + a2);
-- 
2.43.0


From a22b8cc2fa6c7f98ab727b25e758ddd8326e3eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:38 +0000
Subject: [PATCH 08/30] fix: inverse iteration returned NaN when the eigenvalue
 makes an elimination pivot vanish

---
 src/LinearAlgebra/Solvers/Lanczos.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index 5f541e6..f1eaa29 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -9,6 +9,9 @@
 #pragma once
 #include <vector>
 #include <numeric>
+#include <limits>
+#include <algorithm>
+#include <cmath>
 
 
 #include "../Models/CSR.h"
@@ -88,15 +91,30 @@ std::vector<T> InversePowerMethod(const std::vector<T>& _alpha, const std::vecto
     std::vector<T> yk = std::vector<T>(m, T());
     yk[0] = 1.0;
 
+    //----------Smallest pivot, used when lambda makes a pivot vanish----------
+    T scale = T();
+    for(int i = 0; i < m; i++){
+        scale = std::max(scale, T(fabs(_alpha[i]) + fabs(_beta[i])));
+    }
+    T tiny = std::numeric_limits<T>::epsilon()*(scale > T() ? scale : T(1.0));
+
     std::vector<T> p = std::vector<T>(m);
     std::vector<T> q = std::vector<T>(m);
     for(int k = 0; k < 10000; k++){
         //.....Solve [T - lambda*E]{ykp1}={yk} with Thomas method.....
-        p[0] = -_beta[0]/(_alpha[0] - _lambda);
-        q[0] = yk[0]/(_alpha[0] - _lambda);
+        T pivot = _alpha[0] - _lambda;
+        if(pivot == T()) {
+            pivot = tiny;
+        }
+        p[0] = -_beta[0]/pivot;
+        q[0] = yk[0]/pivot;
         for(int i = 1; i < m; i++){
-            p[i] = -_beta[i]/((_alpha[i] - _lambda) + _beta[i - 1]*p[i - 1]);
-            q[i] = (yk[i] - _beta[i - 1]*q[i - 1])/((_alpha[i] - _lambda) + _beta[i - 1]*p[i - 1]);
+            pivot = (_alpha[i] - _lambda) + _beta[i - 1]*p[i - 1];
+            if(pivot == T()) {
+                pivot = tiny;
+            }
+            p[i] = -_beta[i]/pivot;
+            q[i] = (yk[i] - _beta[i - 1]*q[i - 1])/pivot;
         }
 
         yk[m - 1] = q[m - 1];
-- 
2.43.0


From d2f16787990d66492df3c81aba6f6b0edbb53741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:29 +0000
Subject: [PATCH 09/30] fix: node table of the 20-node hexahedron listed a
 corner twice (21 points for 20 nodes)

---
 src/FEM/Controller/ShapeFunction.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/FEM/Controller/ShapeFunction.h b/src/FEM/Controller/ShapeFunction.h
index 19a14ab..b60ce5f 100644
--- a/src/FEM/Controller/ShapeFunction.h
+++ b/src/FEM/Controller/ShapeFunction.h
@@ -354,7 +354,6 @@ public:
 																	{ 1.0, T(), -1.0 },
 																	{ T(), 1.0, -1.0 },
 																	{ -1.0, T(), -1.0 },
-																	{ -1.0, 1.0, 1.0 },
 																	{ T(), -1.0, 1.0 },
 																	{ 1.0, T(), 1.0 },
 																	{ T(), 1.0, 1.0 },
-- 
2.43.0


From 351aaa1125aa6943c3ca6e2968d7b4f999f0cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:10 +0000
Subject: [PATCH 10/30] fix: weak spring element mapped every unknown of a node
 to the same element row

---
 src/FEM/Equation/General.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FEM/Equation/General.h b/src/FEM/Equation/General.h
index 586f275..fad4b22 100644
--- a/src/FEM/Equation/General.h
+++ b/src/FEM/Equation/General.h
@@ -127,7 +127,7 @@ namespace PANSFEM2 {
 		_nodetoelement = std::vector<std::vector<std::pair<int, int> > >(_element.size(), std::vector<std::pair<int, int> >(n));
 		for(int i = 0; i < _element.size(); i++) {
             for(int j = 0; j < n; j++) {
-                _nodetoelement[i][j] = std::make_pair(_doulist[j], n*i);
+                _nodetoelement[i][j] = std::make_pair(_doulist[j], n*i + j);
             }
 		}
 
-- 
2.43.0


From aa75f65e07b8faeebcec5b8a26e7eda3fb32e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:10 +0000
Subject: [PATCH 11/30] fix: Stokes viscous coupling blocks were interchanged,
 so rigid rotations produced forces

---
 src/FEM/Equation/Stokes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FEM/Equation/Stokes.h b/src/FEM/Equation/Stokes.h
index cbd8490..249e45d 100644
--- a/src/FEM/Equation/Stokes.h
+++ b/src/FEM/Equation/Stokes.h
@@ -58,8 +58,8 @@ namespace PANSFEM2 {
             Matrix<T> K = Matrix<T>(2*m + n, 2*m + n);
             for(int i = 0; i < m; i++) {
                 for(int j = 0; j < m; j++) {
-                    K(i, j) = 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j);    K(i, j + m) = _mu*dMdX(0, i)*dMdX(1, j);
-                    K(i + m, j) = _mu*dMdX(1, i)*dMdX(0, j);                                K(i + m, j + m) = _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);  
+                    K(i, j) = 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j);    K(i, j + m) = _mu*dMdX(1, i)*dMdX(0, j);
+                    K(i + m, j) = _mu*dMdX(0, i)*dMdX(1, j);                                K(i + m, j + m) = _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);  
                 }
                 for(int j = 0; j < n; j++) {
                     K(i, j + 2*m) = -N(j)*dMdX(0, i);
-- 
2.43.0


From 4528f86b48f9a1a7b667de9ba37d38cac4272eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:10 +0000
Subject: [PATCH 12/30] fix: Navier-Stokes tangent had its viscous cross terms
 in the diagonal blocks

---
 src/FEM/Equation/NavierStokes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FEM/Equation/NavierStokes.h b/src/FEM/Equation/NavierStokes.h
index b2b6dfa..bc63032 100644
--- a/src/FEM/Equation/NavierStokes.h
+++ b/src/FEM/Equation/NavierStokes.h
@@ -81,10 +81,10 @@ namespace PANSFEM2 {
             Matrix<T> K = Matrix<T>(2*m + n, 2*m + n);
             for(int i = 0; i < m; i++){
                 for(int j = 0; j < m; j++){
-                    K(i, j) = _rho*M(i)*M(j)*dUdX(0, 0) + _rho*M(i)*dMdX(0, j)*U(0) + _rho*M(i)*dMdX(1, j)*U(1) + 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j) + _mu*dMdX(1, i)*dMdX(0, j);	
-					K(i, j + m) = _rho*M(i)*M(j)*dUdX(1, 0);																	
-                    K(i + m, j) = _rho*M(i)*M(j)*dUdX(0, 1);																		
-					K(i + m, j + m) = _rho*M(i)*M(j)*dUdX(1, 1) + _rho*M(i)*dMdX(1, j)*U(1) + _rho*M(i)*dMdX(0, j)*U(0) + _mu*dMdX(0, i)*dMdX(1, j) + _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);	
+                    K(i, j) = _rho*M(i)*M(j)*dUdX(0, 0) + _rho*M(i)*dMdX(0, j)*U(0) + _rho*M(i)*dMdX(1, j)*U(1) + 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j);	
+					K(i, j + m) = _rho*M(i)*M(j)*dUdX(1, 0) + _mu*dMdX(1, i)*dMdX(0, j);																	
+                    K(i + m, j) = _rho*M(i)*M(j)*dUdX(0, 1) + _mu*dMdX(0, i)*dMdX(1, j);																		
+					K(i + m, j + m) = _rho*M(i)*M(j)*dUdX(1, 1) + _rho*M(i)*dMdX(1, j)*U(1) + _rho*M(i)*dMdX(0, j)*U(0) + _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);	
                 }
                 for(int j = 0; j < n; j++){
 					K(i, j + 2*m) = -dMdX(0, i)*N(j);
-- 
2.43.0


From 7cde1307190021de3c8a9e908f072c55d997b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:10 +0000
Subject: [PATCH 13/30] fix: finite-deformation plane strain elements ignored
 the thickness

---
 src/FEM/Equation/PlaneStrain.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/FEM/Equation/PlaneStrain.h b/src/FEM/Equation/PlaneStrain.h
index 9019649..260e2cd 100644
--- a/src/FEM/Equation/PlaneStrain.h
+++ b/src/FEM/Equation/PlaneStrain.h
@@ -287,7 +287,7 @@ namespace PANSFEM2 {
 				BL(2, 2*n) = F(0, 1)*dNdX(0, n) + F(0, 0)*dNdX(1, n);	BL(2, 2*n + 1) = F(1, 1)*dNdX(0, n) + F(1, 0)*dNdX(1, n);
 			}
 
-			_Ke += BL.Transpose()*D*BL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BL.Transpose()*D*BL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Matrix<T> E = (Z + Z.Transpose() + Z.Transpose()*Z)/2.0;
 			Vector<T> Ev = Vector<T>({ E(0, 0), E(1, 1), E(0, 1) + E(1, 0) });
@@ -305,9 +305,9 @@ namespace PANSFEM2 {
 			Matrix<T> S10 = Sv(2)*Identity<T>(2);	Matrix<T> S11 = Sv(1)*Identity<T>(2);
 			Matrix<T> S = (S00.Hstack(S01)).Vstack((S10.Hstack(S11)));
 
-			_Ke += BNL.Transpose()*S*BNL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BNL.Transpose()*S*BNL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
-			_Fe -= BL.Transpose()*Sv*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Fe -= BL.Transpose()*Sv*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 		}
 	}
 
@@ -360,7 +360,7 @@ namespace PANSFEM2 {
 				BL(1, 2*n) = T();			BL(1, 2*n + 1) = dNdx(1, n);
 				BL(2, 2*n) = dNdx(1, n);	BL(2, 2*n + 1) = dNdx(0, n);
 			}
-			_Ke += BL.Transpose()*C*BL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BL.Transpose()*C*BL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Matrix<T> S = (mu0/detF)*(F*F.Transpose() - Identity<T>(2)) + (lambda0*log(detF)/detF)*Identity<T>(2);
 			Matrix<T> BNL = Matrix<T>(4, 2*_element.size());
@@ -373,10 +373,10 @@ namespace PANSFEM2 {
 			Matrix<T> S00 = S(0, 0)*Identity<T>(2);	Matrix<T> S01 = S(0, 1)*Identity<T>(2);
 			Matrix<T> S10 = S(1, 0)*Identity<T>(2);	Matrix<T> S11 = S(1, 1)*Identity<T>(2);
 			Matrix<T> Sm = (S00.Hstack(S01)).Vstack((S10.Hstack(S11)));
-			_Ke += BNL.Transpose()*Sm*BNL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BNL.Transpose()*Sm*BNL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Vector<T> Sv = { S(0, 0), S(1, 1), S(0, 1) };
-			_Fe -= BL.Transpose()*Sv*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Fe -= BL.Transpose()*Sv*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 		}
 	}
 
-- 
2.43.0


From 46a94501406539cf49832708e4e14f542c02e2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:51 +0000
Subject: [PATCH 14/30] fix: SUPG and shock-capturing element matrices are NaN
 for zero velocity

---
 src/FEM/Equation/Advection.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/FEM/Equation/Advection.h b/src/FEM/Equation/Advection.h
index c808597..9f7f0bf 100644
--- a/src/FEM/Equation/Advection.h
+++ b/src/FEM/Equation/Advection.h
@@ -62,6 +62,9 @@ namespace PANSFEM2 {
 		}
 
 		Vector<T> a = Vector<T>({ _ax, _ay });
+		if(a.Norm() == T()) {
+			return;
+		}
 		
 		for (int g = 0; g < IC<T>::N; g++) {
 			Matrix<T> dNdr = SF<T>::dNdr(IC<T>::Points[g]);
@@ -105,6 +108,9 @@ namespace PANSFEM2 {
 		}
 
 		Vector<T> a = Vector<T>({ _ax, _ay });
+		if(a.Norm() == T()) {
+			return;
+		}
 		
 		for (int g = 0; g < IC<T>::N; g++) {
 			Matrix<T> dNdr = SF<T>::dNdr(IC<T>::Points[g]);
@@ -202,6 +208,9 @@ namespace PANSFEM2 {
 		}
 		
 		Vector<T> a = Vector<T>({ _ax, _ay });
+		if(a.Norm() == T()) {
+			return;
+		}
 		
 		for (int g = 0; g < IC<T>::N; g++) {
 			Vector<T> N = SF<T>::N(IC<T>::Points[g]);
-- 
2.43.0


From ac8406f33d7d9ee419d7d71bc3cf49336a736424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:21 +0000
Subject: [PATCH 15/30] fix: square annulus constraint list used swapped inner
 and outer contours

---
 src/PrePost/Mesher/SquareAnnulusMesh.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PrePost/Mesher/SquareAnnulusMesh.h b/src/PrePost/Mesher/SquareAnnulusMesh.h
index 3d6cf8c..3818763 100644
--- a/src/PrePost/Mesher/SquareAnnulusMesh.h
+++ b/src/PrePost/Mesher/SquareAnnulusMesh.h
@@ -102,28 +102,28 @@ private:
         for(int i = 0; i < this->nt + 1; i++){
             T t = i/(T)this->nt;
             for(int j = 0; j < this->ny; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*0.5*this->a + t*0.5*this->c, (1 - t)*this->b*(j/(T)this->ny - 0.5) + t*this->d*(j/(T)this->ny - 0.5) }))) {
+                if(_iscorrespond(Vector<T>({ t*0.5*this->a + (1 - t)*0.5*this->c, t*this->b*(j/(T)this->ny - 0.5) + (1 - t)*this->d*(j/(T)this->ny - 0.5) }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->nx; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*this->a*(0.5 - j/(T)this->nx) + t*this->c*(0.5 - j/(T)this->nx), (1 - t)*0.5*this->b + t*0.5*this->d }))) {
+                if(_iscorrespond(Vector<T>({ t*this->a*(0.5 - j/(T)this->nx) + (1 - t)*this->c*(0.5 - j/(T)this->nx), t*0.5*this->b + (1 - t)*0.5*this->d }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + this->ny, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->ny; j++){
-                if(_iscorrespond(Vector<T>({ -(1 - t)*0.5*this->a - t*0.5*this->c, (1 - t)*this->b*(0.5 - j/(T)this->ny) + t*this->d*(0.5 - j/(T)this->ny) }))) {
+                if(_iscorrespond(Vector<T>({ -t*0.5*this->a - (1 - t)*0.5*this->c, t*this->b*(0.5 - j/(T)this->ny) + (1 - t)*this->d*(0.5 - j/(T)this->ny) }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + this->ny + this->nx, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->nx; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*this->a*(j/(T)this->nx - 0.5) + t*this->c*(j/(T)this->nx - 0.5), -(1 - t)*0.5*this->b - t*0.5*this->d }))) {
+                if(_iscorrespond(Vector<T>({ t*this->a*(j/(T)this->nx - 0.5) + (1 - t)*this->c*(j/(T)this->nx - 0.5), -t*0.5*this->b - (1 - t)*0.5*this->d }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + 2*this->ny + this->nx, ui }, T() });
                     }
-- 
2.43.0


From d7a70e43162626ab2380a2a08dfc9f1ce2bc041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:24 +0000
Subject: [PATCH 16/30] fix: Delaunay boundary recovery flipped edges of
 non-convex quadrilaterals

Swapping an edge because the opposite node is the neighbour on the boundary
was done even when the two triangles do not form a convex quadrilateral or the
shared edge is itself a boundary edge, which duplicated triangles (and then
crashed the smoothing) for e.g. the rectangle (1.46981,-1.25385)-(2.13725,1.35591).
---
 src/PrePost/Mesher/Delaunay.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index 57f43a2..974d35d 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -636,11 +636,11 @@ private:
 				T r0 = this->nodes[this->elements[nowstack].nodes[1]].distance(this->nodes[this->elements[nowstack].nodes[2]]);
 				T r1 = this->nodes[this->elements[nowstack].nodes[0]].distance(this->nodes[this->elements[neighbortri].nodes[neighbornode]]);
 				if ((r0 > r1
+					|| this->elements[neighbortri].nodes[neighbornode] == _nodenump1
+					|| this->elements[neighbortri].nodes[neighbornode] == _nodenumm1)
 					&& this->elements[nowstack].inouton(this->elements[neighbortri].nodes[neighbornode], this->nodes) == -1
 					&& this->elements[neighbortri].inouton(this->elements[nowstack].nodes[0], this->nodes) == -(neighbornode + 1)
-					&& this->elements[nowstack].sides[0] == false)
-					|| (this->elements[neighbortri].nodes[neighbornode] == _nodenump1)
-					|| (this->elements[neighbortri].nodes[neighbornode] == _nodenumm1)) {
+					&& this->elements[nowstack].sides[0] == false) {
 					
 					Element<T> tmpelement = Element<T>(this->elements[neighbortri]);
 
-- 
2.43.0


From 7bb28f255e418cd1e6e3f33b6a342279a637f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:45 +0000
Subject: [PATCH 17/30] fix: Delaunay smoothing could turn elements over

Moving a node to the average of its neighbours inverted triangles next to
re-entrant corners and holes; such a movement is now cancelled.
---
 src/PrePost/Mesher/Delaunay.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index 974d35d..4bebf1c 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -722,11 +722,20 @@ private:
 					nowelement = this->elements[nowelement].neighbors[(this->elements[nowelement].nodeorder(i) + 1)%3];
 				} while (nowelement != startelement);
 
+				Vector<T> xold = this->nodes[i].x;
 				this->nodes[i].x = Vector<T>(2); 
 				for (auto j : stack) {
 					this->nodes[i].x += this->nodes[this->elements[j].nodes[(this->elements[j].nodeorder(i) + 1)%3]].x;
 				}
 				this->nodes[i].x /= (T)stack.size();
+
+				//----------Cancel movement which turns an element over----------
+				for (auto j : stack) {
+					if (this->nodes[this->elements[j].nodes[0]].vecpro(this->nodes[this->elements[j].nodes[1]], this->nodes[this->elements[j].nodes[2]]) <= T()) {
+						this->nodes[i].x = xold;
+						break;
+					}
+				}
 			}
 		}
 	}
-- 
2.43.0


From 415262caa22124b0b6915928624321b2ae098bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:51 +0000
Subject: [PATCH 18/30] fix: density filter sensitivities were normalised by
 the wrong weight sum

The derivative of rho_i = sum_j w_ij s_j / sum_j w_ij with respect to s_j carries
the weight sum of i, not of j; on graphs whose weight sums differ (every mesh
near its border) the returned sensitivities were not the gradient.
---
 src/Optimize/Filter/DensityFilter.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Optimize/Filter/DensityFilter.h b/src/Optimize/Filter/DensityFilter.h
index ce40c4c..4f041e2 100644
--- a/src/Optimize/Filter/DensityFilter.h
+++ b/src/Optimize/Filter/DensityFilter.h
@@ -62,10 +62,11 @@ private:
         for(int i = 0; i < this->n; i++){
             T wsum = T();
             for(int j = 0; j < this->neighbors[i].size(); j++){
-                dfds[i] += _dfdrho[this->neighbors[i][j]]*this->w[i][j];
                 wsum += this->w[i][j];
             }
-            dfds[i] /= wsum;       
+            for(int j = 0; j < this->neighbors[i].size(); j++){
+                dfds[this->neighbors[i][j]] += _dfdrho[i]*this->w[i][j]/wsum;
+            }
         }
         return dfds;
     }
-- 
2.43.0


From a06465168dfd02d2159dffbf6e5d6c557731bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:51 +0000
Subject: [PATCH 19/30] fix: optimisers reported convergence at once for
 negative objectives

The relative change was divided by the signed sum of the two values, so it was
negative (and below any tolerance) whenever the objective is negative.
---
 src/Optimize/Solver/CONLIN.h | 2 +-
 src/Optimize/Solver/MMA.h    | 2 +-
 src/Optimize/Solver/OC.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Optimize/Solver/CONLIN.h b/src/Optimize/Solver/CONLIN.h
index 19d4500..a2d8dcc 100644
--- a/src/Optimize/Solver/CONLIN.h
+++ b/src/Optimize/Solver/CONLIN.h
@@ -80,7 +80,7 @@ private:
 
     template<class T>
     bool CONLIN<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue) / (_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue) / fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
diff --git a/src/Optimize/Solver/MMA.h b/src/Optimize/Solver/MMA.h
index e15daa3..4a6c692 100644
--- a/src/Optimize/Solver/MMA.h
+++ b/src/Optimize/Solver/MMA.h
@@ -106,7 +106,7 @@ private:
 
     template<class T>
     bool MMA<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue) / (_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue) / fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
diff --git a/src/Optimize/Solver/OC.h b/src/Optimize/Solver/OC.h
index 7312ef1..bf93a63 100644
--- a/src/Optimize/Solver/OC.h
+++ b/src/Optimize/Solver/OC.h
@@ -66,7 +66,7 @@ private:
 
     template<class T>
     bool OC<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue)/(_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue)/fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
-- 
2.43.0


From 895e1b4379db2f2bc4ffa74bf54cb78f5258feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:22 +0000
Subject: [PATCH 20/30] fix: OC ignored the upper bounds of the design
 variables

---
 src/Optimize/Solver/OC.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimize/Solver/OC.h b/src/Optimize/Solver/OC.h
index bf93a63..eb74c01 100644
--- a/src/Optimize/Solver/OC.h
+++ b/src/Optimize/Solver/OC.h
@@ -86,8 +86,8 @@ private:
 				xkp1[i] = pow(-_dfdx[i]/(_dgdx[i]*lambda), this->iota)*_xk[i];
 				if(xkp1[i] < std::max(T(), (1.0 - this->movelimit)*_xk[i])) {
 					xkp1[i] = std::max(T(), (1.0 - this->movelimit)*_xk[i]);
-				} else if(xkp1[i] > std::min(1.0, (1.0 + this->movelimit)*_xk[i])) {
-					xkp1[i] = std::min(1.0, (1.0 + this->movelimit)*_xk[i]);
+				} else if(xkp1[i] > std::min(this->xmax[i], (1.0 + this->movelimit)*_xk[i])) {
+					xkp1[i] = std::min(this->xmax[i], (1.0 + this->movelimit)*_xk[i]);
 				}
 			}
 
-- 
2.43.0


From 2caf1e3c8988a3738b1fbfcbc5471234d03b3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:31 +0000
Subject: [PATCH 21/30] fix: MMA and CONLIN looped forever when constraints
 outnumber variables and a is not zero

With n <= m the entry of the Newton matrix that belongs to z was accumulated n
times, so the direction was no descent direction and the subproblem loop never
ended for min-max formulations (a_i != 0).
---
 src/Optimize/Solver/CONLIN.h | 4 +++-
 src/Optimize/Solver/MMA.h    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Optimize/Solver/CONLIN.h b/src/Optimize/Solver/CONLIN.h
index a2d8dcc..bda02bd 100644
--- a/src/Optimize/Solver/CONLIN.h
+++ b/src/Optimize/Solver/CONLIN.h
@@ -249,9 +249,11 @@ private:
                     for(int jj = 0; jj < this->m; jj++){
                         A[ii][this->n] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
                         A[this->n][ii] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
-                        A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
                     }
                 }
+                for(int jj = 0; jj < this->m; jj++){
+                    A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
+                }
                 A[this->n][this->n] += zeta/z;
                 std::vector<T> B = std::vector<T>(this->n + 1);
                 for(int ii = 0; ii < this->n; ii++){
diff --git a/src/Optimize/Solver/MMA.h b/src/Optimize/Solver/MMA.h
index 4a6c692..55294b2 100644
--- a/src/Optimize/Solver/MMA.h
+++ b/src/Optimize/Solver/MMA.h
@@ -301,9 +301,11 @@ private:
                     for(int jj = 0; jj < this->m; jj++){
                         A[ii][this->n] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
                         A[this->n][ii] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
-                        A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
                     }
                 }
+                for(int jj = 0; jj < this->m; jj++){
+                    A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
+                }
                 A[this->n][this->n] += zeta/z;
                 std::vector<T> B = std::vector<T>(this->n + 1);
                 for(int ii = 0; ii < this->n; ii++){
-- 
2.43.0


From f6ce1b20b2bd5008729c9df1d98194c139b04f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 22/30] fix: VTK import returned nothing for sections that
 precede the last one read

---
 src/PrePost/Import/ImportFromVTK.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/PrePost/Import/ImportFromVTK.h b/src/PrePost/Import/ImportFromVTK.h
index a9b3837..129af24 100644
--- a/src/PrePost/Import/ImportFromVTK.h
+++ b/src/PrePost/Import/ImportFromVTK.h
@@ -63,6 +63,8 @@ private:
 
     template<class T>
     std::vector<Vector<T> > ImportModelFromVTK<T>::ImportPOINTS(){
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         std::string linestrings;
         std::vector<Vector<T> > nodes;
         while (getline(this->ifs, linestrings)) {
@@ -88,14 +90,14 @@ private:
                 return nodes;
             }
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return nodes;
     }
 
 
     template<class T>
     std::vector<std::vector<int> > ImportModelFromVTK<T>::ImportCELLS(){
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         std::string linestrings;
         std::vector<std::vector<int> > elements;
         while (getline(this->ifs, linestrings)) {
@@ -124,14 +126,14 @@ private:
                 return elements;
             }    
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return elements;
     }
 
 
     template<class T>
     std::vector<Vector<T> > ImportModelFromVTK<T>::ImportPOINTVECTORS(std::string _keyword){
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         std::string linestrings;
         std::vector<Vector<T> > pointvectors;
         while (getline(this->ifs, linestrings)) {
@@ -159,14 +161,14 @@ private:
                 }
             }
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return pointvectors;
     }
 
 
     template<class T>
     std::vector<T> ImportModelFromVTK<T>::ImportPOINTSCALARS(std::string _keyword){
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         std::string linestrings;
         std::vector<T> pointscalars;
         while (getline(this->ifs, linestrings)) {
@@ -193,14 +195,14 @@ private:
                 }
             }
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return pointscalars;
     }
 
 
     template<class T>
     std::vector<Vector<T> > ImportModelFromVTK<T>::ImportCELLVECTORS(std::string _keyword){
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         std::string linestrings;
         std::vector<Vector<T> > cellvectors;
         while (getline(this->ifs, linestrings)) {
@@ -228,14 +230,14 @@ private:
                 }
             }
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return cellvectors;
     }
 
 
     template<class T>
     std::vector<T> ImportModelFromVTK<T>::ImportCELLSCALARS(std::string _keyword){
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         std::string linestrings;
         std::vector<T> cellscalars;
         while (getline(this->ifs, linestrings)) {
@@ -262,8 +264,6 @@ private:
                 }
             }
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return cellscalars;
     }
 }
\ No newline at end of file
-- 
2.43.0


From aa19f6f95f42bee9a4ada942034b28f2a7a23c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 23/30] fix: initial conditions repeated the last value of a
 row over the columns it does not give

---
 src/PrePost/Import/ImportFromCSV.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/PrePost/Import/ImportFromCSV.h b/src/PrePost/Import/ImportFromCSV.h
index b843d93..1bf00cc 100644
--- a/src/PrePost/Import/ImportFromCSV.h
+++ b/src/PrePost/Import/ImportFromCSV.h
@@ -202,8 +202,7 @@ namespace PANSFEM2 {
 			std::getline(sbuf, str, ',');
 			if (!str.empty()) {
 				int idn = stoi(str);
-				for (int i = 0; i < _u[idn].SIZE(); i++) {
-					std::getline(sbuf, str, ',');
+				for (int i = 0; i < _u[idn].SIZE() && std::getline(sbuf, str, ','); i++) {
 					if (str != "free") {
 						_u[idn](i) = stod(str);
 					}
-- 
2.43.0


From a77bdeadbdf2ec077cf219f19ca23e7560c60708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:29 +0000
Subject: [PATCH 24/30] fix: bisection lost eigenvalues when the Sturm sequence
 over- or underflowed

The characteristic polynomials grow like the matrix scale to the power of
the size; beyond the floating point range the sign changes are counted
wrongly. Both terms of the recurrence are rescaled, which keeps the signs.
---
 src/LinearAlgebra/Solvers/Lanczos.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index f1eaa29..49d2b86 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -70,6 +70,13 @@ T BisectionMethod(const std::vector<T>& _alpha, const std::vector<T>& _beta, int
             }
             pkm1 = pk;
             pk = pkp1;
+
+            //----------Keep the sequence within range----------
+            T scale = std::max(T(fabs(pkm1)), T(fabs(pk)));
+            if(scale > 1.0e100 || (T() < scale && scale < 1.0e-100)) {
+                pkm1 /= scale;
+                pk /= scale;
+            }
         }
 
         //----------Update a1 and a2----------
-- 
2.43.0


From 675cd05a6de95dbaa709cbf21a4c0872a09323c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:27 +0000
Subject: [PATCH 25/30] fix: MMA and CONLIN looped forever on badly scaled data
 (no inner iteration limit)

---
 src/Optimize/Solver/CONLIN.h | 3 ++-
 src/Optimize/Solver/MMA.h    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optimize/Solver/CONLIN.h b/src/Optimize/Solver/CONLIN.h
index bda02bd..4b7defc 100644
--- a/src/Optimize/Solver/CONLIN.h
+++ b/src/Optimize/Solver/CONLIN.h
@@ -353,8 +353,9 @@ private:
 
             //.....Update epsl.....
             T deltawlp1 = this->KKTNorm(x, y, z, lambda, gsi, ita, mu, zeta, s, eps, p, q, p0, q0, alpha, beta, b);
-            if(deltawlp1 < 0.9*eps){
+            if(deltawlp1 < 0.9*eps || l >= 2000){
                 eps *= 0.1;
+                l = 0;
             } else {
                 eps *= 1.0;
             }
diff --git a/src/Optimize/Solver/MMA.h b/src/Optimize/Solver/MMA.h
index 55294b2..5bcec27 100644
--- a/src/Optimize/Solver/MMA.h
+++ b/src/Optimize/Solver/MMA.h
@@ -405,8 +405,9 @@ private:
 
             //.....Update epsl.....
             T deltawlp1 = this->KKTNorm(x, y, z, lambda, gsi, ita, mu, zeta, s, eps, p, q, p0, q0, alpha, beta, b);
-            if(deltawlp1 < 0.9*eps){
+            if(deltawlp1 < 0.9*eps || l >= 2000){
                 eps *= 0.1;
+                l = 0;
             } else {
                 eps *= 1.0;
             }
-- 
2.43.0


From 7a527109006dc1b04088faa366569fc614f65678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:23 +0000
Subject: [PATCH 26/30] fix: line integration accepted only one-dimensional
 node coordinates

---
 src/FEM/Equation/Numeric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FEM/Equation/Numeric.h b/src/FEM/Equation/Numeric.h
index 0d680b3..576192a 100644
--- a/src/FEM/Equation/Numeric.h
+++ b/src/FEM/Equation/Numeric.h
@@ -21,7 +21,7 @@ namespace PANSFEM2 {
 	T NumericIntegrationOnLine(std::vector<Vector<T> >& _x, std::vector<int>& _element, F _f) {
         T value = T();
 
-        Matrix<T> X = Matrix<T>(0, 1);
+        Matrix<T> X = Matrix<T>(0, _x[_element[0]].SIZE());
 		for(auto i : _element){
 			X = X.Vstack(_x[i].Transpose());
 		}
-- 
2.43.0


From de79d0b6abee0920bc6a044ebde55ed0eb8b4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 27/30] fix: Delaunay lost boundary segments that cross several
 edges of the rough triangulation

A segment that crosses more than one edge, or a pair of triangles which is not
convex, was never recovered: slender triangles gave an empty mesh or invalid
memory accesses, and regions with several holes kept triangles inside a hole.
Swap the crossing edges until each boundary segment is an edge.
---
 src/PrePost/Mesher/Delaunay.h | 87 +++++++++++++++++++++++++++++++++++
 1 file changed, 87 insertions(+)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index 4bebf1c..acaea31 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -217,6 +217,7 @@ private:
 
 		void getsupertriangle();
 		void makeroughmesh(std::vector<int> _nodelists);
+		void recoverboundary(std::vector<int> _nodelists);
 		void deactivateelements(std::vector<int> _nodelists, bool _type);
 		void deactivatesupertriangle();
 		void deleteelement();
@@ -250,6 +251,12 @@ private:
 		for (auto boundary : _innerboundaries) {
 			this->makeroughmesh(boundary);
 		}
+		for (auto boundary : _outerboundaries) {
+			this->recoverboundary(boundary);
+		}
+		for (auto boundary : _innerboundaries) {
+			this->recoverboundary(boundary);
+		}
 		for (auto boundary : _outerboundaries) {
 			this->deactivateelements(boundary, true);
 		}
@@ -344,6 +351,86 @@ private:
 	}
 
 
+	//----------Swap the edges which cross a boundary segment until the segment is an edge----------
+	template<class T>
+	void Delaunay<T>::recoverboundary(std::vector<int> _nodelists) {
+		for (int i = 0; i < _nodelists.size(); i++) {
+			int a = _nodelists[i], b = _nodelists[(i + 1)%_nodelists.size()];
+			auto iscross = [&](int _p, int _q) {
+				return _p != a && _p != b && _q != a && _q != b
+					&& this->nodes[a].vecpro(this->nodes[b], this->nodes[_p])*this->nodes[a].vecpro(this->nodes[b], this->nodes[_q]) < T()
+					&& this->nodes[_p].vecpro(this->nodes[_q], this->nodes[a])*this->nodes[_p].vecpro(this->nodes[_q], this->nodes[b]) < T();
+			};
+
+			//.....Get edges which cross the segment.....
+			std::vector<std::array<int, 2> > edges;
+			for (const auto& element : this->elements) {
+				for (int j = 0; j < 3; j++) {
+					if (element.nodes[j] < element.nodes[(j + 1)%3] && iscross(element.nodes[j], element.nodes[(j + 1)%3])) {
+						edges.push_back({ element.nodes[j], element.nodes[(j + 1)%3] });
+					}
+				}
+			}
+
+			//.....Swap them.....
+			int kmax = 10*(edges.size() + 1)*(edges.size() + 1);
+			for (int k = 0; k < edges.size() && k < kmax; k++) {
+				int now = 0, order = -1;
+				for (; now < this->elements.size(); now++) {
+					for (int j = 0; j < 3; j++) {
+						if (this->elements[now].nodes[(j + 1)%3] == edges[k][0] && this->elements[now].nodes[(j + 2)%3] == edges[k][1]) {
+							order = j;
+						}
+					}
+					if (order != -1) {
+						break;
+					}
+				}
+				if (order == -1 || this->elements[now].neighbors[order] < 0 || this->elements[now].sides[order]) {
+					continue;
+				}
+				int neighbor = this->elements[now].neighbors[order];
+				int neighbororder = this->elements[neighbor].oppositenode(now);
+				Element<T> e = this->elements[now], f = this->elements[neighbor];
+				int p = e.nodes[order], q = f.nodes[neighbororder];
+				if (!(this->nodes[p].vecpro(this->nodes[edges[k][0]], this->nodes[q]) > T() && this->nodes[p].vecpro(this->nodes[q], this->nodes[edges[k][1]]) > T())) {
+					edges.push_back(edges[k]);		//	Not convex yet
+					continue;
+				}
+
+				int neighbor1 = e.neighbors[(order + 1)%3], neighbor2 = f.neighbors[(neighbororder + 1)%3];
+				if (neighbor1 >= 0) {
+					this->elements[neighbor1].neighbors[this->elements[neighbor1].oppositenode(now)] = neighbor;
+				}
+				if (neighbor2 >= 0) {
+					this->elements[neighbor2].neighbors[this->elements[neighbor2].oppositenode(neighbor)] = now;
+				}
+				this->elements[now].nodes = { p, edges[k][0], q };
+				this->elements[now].neighbors = { neighbor2, neighbor, e.neighbors[(order + 2)%3] };
+				this->elements[now].sides = { f.sides[(neighbororder + 1)%3], false, e.sides[(order + 2)%3] };
+				this->elements[now].getangle(this->nodes);
+				this->elements[neighbor].nodes = { p, q, edges[k][1] };
+				this->elements[neighbor].neighbors = { f.neighbors[(neighbororder + 2)%3], neighbor1, now };
+				this->elements[neighbor].sides = { f.sides[(neighbororder + 2)%3], e.sides[(order + 1)%3], false };
+				this->elements[neighbor].getangle(this->nodes);
+				if (iscross(p, q)) {
+					edges.push_back({ p, q });
+				}
+			}
+
+			//.....The segment is on boundary.....
+			for (auto& element : this->elements) {
+				for (int j = 0; j < 3; j++) {
+					int p = element.nodes[(j + 1)%3], q = element.nodes[(j + 2)%3];
+					if ((p == a && q == b) || (p == b && q == a)) {
+						element.sides[j] = true;
+					}
+				}
+			}
+		}
+	}
+
+
 	template<class T>
 	void Delaunay<T>::deactivateelements(std::vector<int> _nodelists, bool _type) {
 		for (auto& element : this->elements) {
-- 
2.43.0


From 31449cc98f43792d33d3ae1eca969ba1dac1e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 28/30] fix: Delaunay point location lost nodes on edges and at
 small or large scales

A node within rounding of an edge was outside of both adjacent triangles, so the
search never ended and the node was left out; the tolerance was also absolute.
Compare with a tolerance relative to the size of the triangle.
---
 src/PrePost/Mesher/Delaunay.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index acaea31..1721ef8 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -152,17 +152,20 @@ private:
 		T vecpro4 = _nodes[this->nodes[1]].vecpro(_nodes[this->nodes[0]], _nodes[_nodenum]);
 		T vecpro5 = _nodes[this->nodes[2]].vecpro(_nodes[this->nodes[1]], _nodes[_nodenum]);
 
-		if (vecpro2 > T() && (vecpro0 < T() || (fabs(vecpro0) <= SELFEPS0 && vecpro5 > T()))) {
+		T size = std::max({ _nodes[this->nodes[0]].distance(_nodes[this->nodes[1]]), _nodes[this->nodes[1]].distance(_nodes[this->nodes[2]]), _nodes[this->nodes[2]].distance(_nodes[this->nodes[0]]) });
+		T eps0 = SELFEPS0*size*size, eps1 = SELFEPS1*size*size;
+
+		if (vecpro2 > T() && (vecpro0 < -eps0 || (fabs(vecpro0) <= eps0 && vecpro5 > T()))) {
 			return -3;
-		} else if (vecpro0 > T() && (vecpro1 < T() || (fabs(vecpro1) <= SELFEPS0 && vecpro3 > T()))) {
+		} else if (vecpro0 > T() && (vecpro1 < -eps0 || (fabs(vecpro1) <= eps0 && vecpro3 > T()))) {
 			return -1;
-		} else if (vecpro1 > T() && (vecpro2 < T() || (fabs(vecpro2) <= SELFEPS0 && vecpro4 > T()))) {
+		} else if (vecpro1 > T() && (vecpro2 < -eps0 || (fabs(vecpro2) <= eps0 && vecpro4 > T()))) {
 			return -2;
-		} else if (fabs(vecpro0) <= SELFEPS1) {
+		} else if (fabs(vecpro0) <= eps1) {
 			return 3;
-		} else if (fabs(vecpro1) <= SELFEPS1) {
+		} else if (fabs(vecpro1) <= eps1) {
 			return 1;
-		} else if (fabs(vecpro2) <= SELFEPS1) {
+		} else if (fabs(vecpro2) <= eps1) {
 			return 2;
 		}
 		return 0;
-- 
2.43.0


From a6e6231974b912c88dd8e120105ddf1e81d5743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 29/30] fix: Delaunay swaps made degenerate triangles from
 collinear nodes

---
 src/PrePost/Mesher/Delaunay.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index 1721ef8..3bbf2e4 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -396,7 +396,8 @@ private:
 				int neighbororder = this->elements[neighbor].oppositenode(now);
 				Element<T> e = this->elements[now], f = this->elements[neighbor];
 				int p = e.nodes[order], q = f.nodes[neighbororder];
-				if (!(this->nodes[p].vecpro(this->nodes[edges[k][0]], this->nodes[q]) > T() && this->nodes[p].vecpro(this->nodes[q], this->nodes[edges[k][1]]) > T())) {
+				T eps = SELFEPS0*pow(this->nodes[p].distance(this->nodes[q]), 2.0);
+				if (this->nodes[p].vecpro(this->nodes[edges[k][0]], this->nodes[q]) <= eps || this->nodes[p].vecpro(this->nodes[q], this->nodes[edges[k][1]]) <= eps) {
 					edges.push_back(edges[k]);		//	Not convex yet
 					continue;
 				}
@@ -729,7 +730,8 @@ private:
 					|| this->elements[neighbortri].nodes[neighbornode] == _nodenump1
 					|| this->elements[neighbortri].nodes[neighbornode] == _nodenumm1)
 					&& this->elements[nowstack].inouton(this->elements[neighbortri].nodes[neighbornode], this->nodes) == -1
-					&& this->elements[neighbortri].inouton(this->elements[nowstack].nodes[0], this->nodes) == -(neighbornode + 1)
+					&& this->nodes[this->elements[nowstack].nodes[0]].vecpro(this->nodes[this->elements[nowstack].nodes[1]], this->nodes[this->elements[neighbortri].nodes[neighbornode]]) > SELFEPS0*r1*r1
+					&& this->nodes[this->elements[nowstack].nodes[0]].vecpro(this->nodes[this->elements[neighbortri].nodes[neighbornode]], this->nodes[this->elements[nowstack].nodes[2]]) > SELFEPS0*r1*r1
 					&& this->elements[nowstack].sides[0] == false) {
 					
 					Element<T> tmpelement = Element<T>(this->elements[neighbortri]);
-- 
2.43.0


From b662eef1302429443a34a598d8fdad2119d2b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:57 +0000
Subject: [PATCH 30/30] fix: OC turned variables into NaN when a sensitivity
 had the wrong sign

---
 src/Optimize/Solver/OC.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimize/Solver/OC.h b/src/Optimize/Solver/OC.h
index eb74c01..fa917e1 100644
--- a/src/Optimize/Solver/OC.h
+++ b/src/Optimize/Solver/OC.h
@@ -83,7 +83,7 @@ private:
 			lambda = 0.5*(lambda1 + lambda0);
 
 			for (int i = 0; i < this->n; i++) {
-				xkp1[i] = pow(-_dfdx[i]/(_dgdx[i]*lambda), this->iota)*_xk[i];
+				xkp1[i] = pow(std::max(T(), -_dfdx[i]/(_dgdx[i]*lambda)), this->iota)*_xk[i];
 				if(xkp1[i] < std::max(T(), (1.0 - this->movelimit)*_xk[i])) {
 					xkp1[i] = std::max(T(), (1.0 - this->movelimit)*_xk[i]);
 				} else if(xkp1[i] > std::min(this->xmax[i], (1.0 + this->movelimit)*_xk[i])) {
-- 
2.43.0

