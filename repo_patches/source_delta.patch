From 587d6a7a1434bc2934ee803d1f17e23c1ac310d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 01/85] fix: write matrix products at rows of the output's
 width

MultAt indexed its output with the left operand's width, so non-square
products were scrambled or panicked.
---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index fd1dcf3..a1c6e0e 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -66,7 +66,7 @@ func (m1 *Matrix) MultAt(m2, out *Matrix) *Matrix {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 2532a08..10e2f21 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -59,7 +59,7 @@ func (m1 *Matrix32) MultAt(m2, out *Matrix32) *Matrix32 {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
-- 
2.43.0


From 2dbbe6a104a8b4b7b7fc7e8c20a8a1ceace1bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 02/85] fix: apply LU row exchanges in order when solving

pivot records sequential row swaps, not a permutation, so right-hand sides
were scattered wrongly whenever the swaps were not disjoint.
---
 math/mat/mat.go   | 3 ++-
 math/mat/mat32.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index a1c6e0e..c00c73e 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -297,8 +297,9 @@ func (luf *LUFactors) SolveVector(bs, xs []float64) []float64 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst(n int, pivot []int, lu, bs, ys []float64) {
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := 0.0
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 10e2f21..2b77051 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -201,8 +201,9 @@ func (luf *LUFactors32) SolveVector(bs, xs []float32) []float32 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst32(n int, pivot []int, lu, bs, ys []float32) {
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := float32(0.0)
-- 
2.43.0


From 473a5a74ab4e7cb8c41f6ec762c2ea6744666ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 03/85] fix: read the right-hand side in LUFactors.SolveMatrix

The columns were taken from the output matrix instead of b.
---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index c00c73e..c8f71fc 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -343,7 +343,7 @@ func (luf *LUFactors) SolveMatrix(b, x *Matrix) *Matrix {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = b.Vals[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 2b77051..656a0a9 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -247,7 +247,7 @@ func (luf *LUFactors32) SolveMatrix(b, x *Matrix32) *Matrix32 {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = b.Vals[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
-- 
2.43.0


From abe445aa5860199214f352990bedf8e0aa136236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 04/85] fix: take the middle element as the median of
 odd-length arrays

Ranks are 1-indexed, so len / 2 is one rank off when the length is odd.
---
 math/sort/median.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index c6c0d45..61bc984 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -18,7 +18,7 @@ func Median(xs []float64, buf ...[]float64) float64 {
 		panic("xs empty in call to Median(xs)")
 	}
 
-	return NthLargest(xs, len(xs) / 2, buf...)
+	return NthLargest(xs, (len(xs) + 1) / 2, buf...)
 }
 
 // Remember that this function is 1-indexed.
-- 
2.43.0


From 33c1fc032f33e9fd95411229302a64e6d62c30b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 05/85] fix: count percentiles from the smallest element

Percentile passed a 0-indexed rank to the 1-indexed NthLargest, so p = 0
panicked and larger percentiles returned smaller elements.
---
 math/sort/median.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index 61bc984..fde9c0d 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -10,7 +10,8 @@ func Percentile(xs []float64, p float64, buf ...[]float64) float64 {
 	n := int(p * float64(len(xs)))
 	if n == len(xs) { n-- }
 
-	return NthLargest(xs, n, buf...)
+	// n elements lie below the requested one; NthLargest counts from the top.
+	return NthLargest(xs, len(xs) - n, buf...)
 }
 
 func Median(xs []float64, buf ...[]float64) float64 {
-- 
2.43.0


From 3df9518a72ae1aa66eddcfb87904f2ab90e4f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 06/85] fix: use the l-th previous direction number in the
 Sobol recurrence

The recurrence read (j - 1) for every term, which is only right for
polynomials of degree two.
---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 9d6cad6..6e951c0 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -58,7 +58,7 @@ func (seq *SobolSequence) Init() {
 			i ^= (i >> deg)
 
 			for l := deg - 1; l >= 1; l-- {
-				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - 1) + k] }
+				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - l) + k] }
 				ipp >>= 1
 			}
 
-- 
2.43.0


From c8128344955d3aa07f4a3b89964dfceee47b74dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 07/85] fix: pick the Sobol direction number from the current
 point's index

The Gray-code step from point n to n + 1 flips the bit of the lowest zero
bit of n; taking it from n + 1 left aligned blocks of points unevenly
spread over the dyadic intervals.
---
 math/rand/sobol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 6e951c0..b89a5c6 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -87,13 +87,13 @@ func (seq *SobolSequence) NextAt(target []float64) {
 		)
 	}
 
-	seq.seqNum++
-
 	zeroIdx := uint32(0)
 	for zeroIdx = 0; zeroIdx < MaxBit; zeroIdx++ {
 		if (seq.seqNum & (1<<zeroIdx)) == 0 { break }
 	}
 
+	seq.seqNum++
+
 	im := zeroIdx * MaxDim
 	for k := uint32(0); k < dim; k++ {
 		seq.ix[k] ^= seq.iv[im + k]
-- 
2.43.0


From 0c1d9e299649f6dbea71fd1b1fb708046735ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 08/85] fix: restart a Sobol sequence from its first point on
 Init

Init cleared the coordinates but not the position of an initialised
sequence.
---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index b89a5c6..0c7bff4 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -39,8 +39,8 @@ func NewSobolSequence() *SobolSequence {
 // See Press et al. 2007.
 func (seq *SobolSequence) Init() {
 	for i := range seq.ix { seq.ix[i] = 0 }
-	if seq.isInit { return }
 	seq.seqNum = 0
+	if seq.isInit { return }
 
 	seq.iv = initIv
 	seq.ip = initIp
-- 
2.43.0


From 1f062102944202541087d47a72edd164579244b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 09/85] fix: keep Tausworthe draws below one

Adding one to a tiny negative difference rounds to exactly one, which is
outside the half-open unit interval.
---
 math/rand/tausworthe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/math/rand/tausworthe.go b/math/rand/tausworthe.go
index 2d1ca26..d1126ff 100644
--- a/math/rand/tausworthe.go
+++ b/math/rand/tausworthe.go
@@ -36,6 +36,7 @@ func (gen *tauswortheGenerator) Init(seed uint64) {
 func (gen *tauswortheGenerator) Next() float64 {
 	next := gen.seq[gen.firstFollower] - gen.seq[gen.secondFollower]
 	if next < 0 { next += 1.0 }
+	if next >= 1 { next = 0 } // Rounding.
 	gen.seq[gen.leader] = next
 
 	if gen.leader == 0 { gen.leader = len(gen.seq) }
@@ -53,6 +54,7 @@ func (gen *tauswortheGenerator) NextSequence(target []float64) {
 	for i := range target {
 		next := gen.seq[gen.firstFollower] - gen.seq[gen.secondFollower]
 		if next < 0 { next += 1.0 }
+		if next >= 1 { next = 0 } // Rounding.
 		gen.seq[gen.leader] = next
 
 		if gen.leader == 0 { gen.leader = len(gen.seq) }
-- 
2.43.0


From d5d2e68063ee21a052bfcf90992a958b20b04c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 10/85] fix: keep UniformInt below its upper limit

The sum can round up to high for draws close to one.
---
 math/rand/rand.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/math/rand/rand.go b/math/rand/rand.go
index 6f454df..eef07de 100644
--- a/math/rand/rand.go
+++ b/math/rand/rand.go
@@ -55,8 +55,9 @@ func New(gt GeneratorType, seed uint64) *Generator {
 
 func (gen *Generator) UniformInt(low, high int) int {
 	f := gen.backend.Next()
-	return int(math.Floor(float64(high - low) * f + float64(low)))
-	
+	n := int(math.Floor(float64(high - low) * f + float64(low)))
+	if n >= high && high > low { return high - 1 } // Rounding.
+	return n
 }
 
 func (gen *Generator) Uniform(low, high float64) float64 {
-- 
2.43.0


From 272e698e08d42da59babc76b18059a24516a8983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 11/85] fix: accept points inside decreasing interpolation
 tables

---
 math/interpolate/search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/search.go b/math/interpolate/search.go
index a417fe9..bd9f0b2 100644
--- a/math/interpolate/search.go
+++ b/math/interpolate/search.go
@@ -33,7 +33,9 @@ func (s *searcher) unifInit(x0, dx float64, n int) {
 
 
 func (s *searcher) search(x float64) int {
-	if x > s.lim || x < s.x0 {
+	lo, hi := s.x0, s.lim
+	if !s.incr { lo, hi = hi, lo }
+	if x > hi || x < lo {
 		panic(fmt.Sprintf(
 			"Value %g out of range bounds [%g, %g]", x, s.x0, s.lim,
 		))
-- 
2.43.0


From a8aed01788a30623cd1a41b2435cc6783ba5875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 12/85] fix: look up z in the z grid of TriLinear

---
 math/interpolate/linear_interpolators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/linear_interpolators.go b/math/interpolate/linear_interpolators.go
index 5b24db6..f059edd 100644
--- a/math/interpolate/linear_interpolators.go
+++ b/math/interpolate/linear_interpolators.go
@@ -282,7 +282,7 @@ func NewUniformTriLinear(
 func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	ix := tri.xs.search(x)
 	iy := tri.ys.search(y)
-	iz := tri.ys.search(z)
+	iz := tri.zs.search(z)
 
 	dix, diy, diz := 1, tri.nx, tri.nx*tri.ny
 	i := ix + iy*tri.nx + iz*tri.ny*tri.nx
@@ -298,7 +298,7 @@ func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	
 	x1, x2 := tri.xs.val(ix), tri.xs.val(ix + 1)
 	y1, y2 := tri.ys.val(iy), tri.ys.val(iy + 1)
-	z1, z2 := tri.ys.val(iz), tri.ys.val(iz + 1)
+	z1, z2 := tri.zs.val(iz), tri.zs.val(iz + 1)
 	
 	xd := (x - x1) / (x2 - x1)
 	yd := (y - y1) / (y2 - y1)
-- 
2.43.0


From 6fbce69fe8c6ec33e0558899742cf48a3780d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 13/85] fix: allow two-point splines

---
 math/interpolate/spline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 5f84666..efdacc8 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -202,6 +202,7 @@ func (sp *Spline) calcY2s() {
 	// zero. Better yet, they could be set to something computed via finite
 	// differences.
 	sp.y2s[0], sp.y2s[n-1] = 0, 0
+	if n == 2 { return }
 
 	xs, ys := sp.xs, sp.ys
 	for i := range rs {
-- 
2.43.0


From 296d916ec0fb526adedc98eb80e8fa29fc5446aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 14/85] fix: accept the end points of decreasing splines

---
 math/interpolate/spline.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index efdacc8..d004105 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -109,7 +109,7 @@ func (sp *Spline) EvalAll(xs []float64, out ...[]float64) []float64 {
 //
 // x must be within the range of x values given to NewSpline().
 func (sp *Spline) Deriv(x float64, order int) float64 {
-	if x < sp.xs[0] == sp.incr || x > sp.xs[len(sp.xs)-1] == sp.incr {
+	if !sp.inRange(x) {
 		panic(fmt.Sprintf("Point %g given to Spline.Differentiate() " + 
 			"out of bounds.", x))
 	}
@@ -134,10 +134,10 @@ func (sp *Spline) Deriv(x float64, order int) float64 {
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
 	if lo > hi { return -sp.Integrate(hi, lo) }
-	if lo < sp.xs[0] == sp.incr || lo > sp.xs[len(sp.xs)-1] == sp.incr {
+	if !sp.inRange(lo) {
 		panic(fmt.Sprintf("Low bound %g in Spline.Integrate() " + 
 			"out of bounds.", lo))
-	} else if hi < sp.xs[0] == sp.incr || hi > sp.xs[len(sp.xs)-1] == sp.incr {
+	} else if !sp.inRange(hi) {
 		panic(fmt.Sprintf("High bound %g in Spline.Integrate() " + 
 			"out of bounds.", hi))
 	}
@@ -161,6 +161,13 @@ func integTerm(coeff *splineCoeff, lo, hi float64) float64 {
 	return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
 }
 
+// inRange returns true if x is within the range of the table.
+func (sp *Spline) inRange(x float64) bool {
+	lo, hi := sp.xs[0], sp.xs[len(sp.xs)-1]
+	if !sp.incr { lo, hi = hi, lo }
+	return lo <= x && x <= hi
+}
+
 // bsearch returns the the index of the largest element in xs which is smaller
 // than x.
 func (sp *Spline) bsearch(x float64) int {
-- 
2.43.0


From dd25ceef9e051c4ba1bb7bf72abeae2fb902c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 15/85] fix: integrate decreasing splines

---
 math/interpolate/spline.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index d004105..16a4e39 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -133,7 +133,8 @@ func (sp *Spline) Deriv(x float64, order int) float64 {
 
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
-	if lo > hi { return -sp.Integrate(hi, lo) }
+	// Limits are handled in the order of the table.
+	if lo != hi && (lo > hi) == sp.incr { return -sp.Integrate(hi, lo) }
 	if !sp.inRange(lo) {
 		panic(fmt.Sprintf("Low bound %g in Spline.Integrate() " + 
 			"out of bounds.", lo))
-- 
2.43.0


From 948e9c75e60fb168c9575b85773f208e37120a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 16/85] fix: measure spline integration limits from the knot

---
 math/interpolate/spline.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 16a4e39..251213c 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -145,20 +145,23 @@ func (sp *Spline) Integrate(lo, hi float64) float64 {
 
 	iLo, iHi := sp.bsearch(lo), sp.bsearch(hi)
 	if iLo == iHi {
-		return integTerm(&sp.coeffs[iLo], lo, hi)
+		return integTerm(&sp.coeffs[iLo], sp.xs[iLo], lo, hi)
 	}
-	sum := integTerm(&sp.coeffs[iLo], lo, sp.xs[iLo+1]) +
-		integTerm(&sp.coeffs[iHi], sp.xs[iHi], hi)
+	sum := integTerm(&sp.coeffs[iLo], sp.xs[iLo], lo, sp.xs[iLo+1]) +
+		integTerm(&sp.coeffs[iHi], sp.xs[iHi], sp.xs[iHi], hi)
 
 	for i := iLo + 1; i < iHi; i++ {
-		sum += integTerm(&sp.coeffs[i], sp.xs[i], sp.xs[i + 1])
+		sum += integTerm(&sp.coeffs[i], sp.xs[i], sp.xs[i], sp.xs[i + 1])
 	}
 	return sum
 }
 
-func integTerm(coeff *splineCoeff, lo, hi float64) float64 {
+func integTerm(coeff *splineCoeff, x0, lo, hi float64) float64 {
+	return antiDeriv(coeff, hi - x0) - antiDeriv(coeff, lo - x0)
+}
+
+func antiDeriv(coeff *splineCoeff, dx float64) float64 {
 	a, b, c, d := coeff.a, coeff.b, coeff.c, coeff.d
-	dx := hi - lo
 	return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
 }
 
-- 
2.43.0


From a231db06e4e9c5e3c77ce9b9159e4b5e420078c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 17/85] fix: index of periodic and reflected points in
 BoundaryCondition.Get

---
 math/interpolate/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index f4ae577..a61e84a 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -33,7 +33,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	switch {
 	case i < 0:
 		switch b {
-		case Periodic: return xs[len(xs) - 1 + i]
+		case Periodic: return xs[len(xs) + i]
 		case Reflection: return xs[-(i + 1)]
 		case ZeroPad: return 0
 		case Extension: return xs[0]
@@ -42,7 +42,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	case i >= len(xs):
 		switch b {
 		case Periodic: return xs[i - len(xs)]
-		case Reflection: return xs [(len(xs)-1) - (i - len(xs)-1)]
+		case Reflection: return xs[(len(xs)-1) - (i - len(xs))]
 		case ZeroPad: return 0
 		case Extension: return xs[len(xs) - 1]
 		}
-- 
2.43.0


From 5cfc710a8857b314addcedcc29d4389a0440f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 18/85] fix: wrap to the last point when convolving periodic
 data

---
 math/interpolate/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index a61e84a..34b6a2a 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -94,7 +94,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			idx := i + j - k.center
 			if idx < 0 {
 				switch b {
-				case Periodic: x = xs[(n - 1) + idx]
+				case Periodic: x = xs[n + idx]
 				case Reflection: x = xs[-(idx - 1)]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
-- 
2.43.0


From 697bfa5ff312047e7144fc0e81078ab40c93d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 19/85] fix: reflect convolved data about its ends as
 BoundaryCondition.Get does

---
 math/interpolate/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index 34b6a2a..b52170e 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -95,7 +95,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			if idx < 0 {
 				switch b {
 				case Periodic: x = xs[n + idx]
-				case Reflection: x = xs[-(idx - 1)]
+				case Reflection: x = xs[-(idx + 1)]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
 				}
@@ -121,7 +121,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			if idx >= n {
 				switch b {
 				case Periodic: x = xs[idx - n]
-				case Reflection: x = xs[2*(n-1) - idx]
+				case Reflection: x = xs[2*n - 1 - idx]
 				case ZeroPad: x = 0
 				case Extension: x = xs[n - 1]
 				}
-- 
2.43.0


From b1d043d046993fbcf64bf09336aa75e061991bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 20/85] fix: return the values as the zeroth derivative

---
 math/calc/deriv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index 31d4adc..c9ffa60 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -34,7 +34,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 	}
 
 	if order == 0 {
-		for i := range xs { out[i] = xs[i] }
+		for i := range ys { out[i] = ys[i] }
 	} else if order == 2 {
 		for i := 1; i < n - 1; i++ {
 			out[i] = (ys[i+1] - ys[i-1]) / (xs[i+1] - xs[i-1])
-- 
2.43.0


From 44d88496a7782d32328d23e3ae94f152c63b5f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 21/85] fix: width of the fourth order derivative stencil

---
 math/calc/deriv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index c9ffa60..a8b04fe 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -44,7 +44,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 	} else if order == 4 {
 		for i := 2; i < n - 2; i++ {
 			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-1]))
+				(3*(xs[i+2] - xs[i-2]))
 		}
 
 		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-- 
2.43.0


From 1ab74b8319b4e031b6a5941e0154e127cef97a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 22/85] fix: differentiate tables with non-uniform spacing

---
 math/calc/deriv.go | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index a8b04fe..eba5955 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -35,28 +35,34 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 
 	if order == 0 {
 		for i := range ys { out[i] = ys[i] }
-	} else if order == 2 {
-		for i := 1; i < n - 1; i++ {
-			out[i] = (ys[i+1] - ys[i-1]) / (xs[i+1] - xs[i-1])
+	} else if order == 2 || order == 4 {
+		if n <= order { panic("Too few points for the order.") }
+		for i := range out {
+			// The order + 1 points closest to being centered on i.
+			lo := i - order/2
+			if lo < 0 { lo = 0 }
+			if lo > n - 1 - order { lo = n - 1 - order }
+			out[i] = polyDeriv(xs[lo: lo+order+1], ys[lo: lo+order+1], i - lo)
 		}
-		out[0] = (-3*ys[0] + 4*ys[1] - ys[2]) / (xs[2] - xs[0])
-		out[n-1] = -(-3*ys[n-1] + 4*ys[n-2] - ys[n-3]) / (xs[n-1] - xs[n-3])
-	} else if order == 4 {
-		for i := 2; i < n - 2; i++ {
-			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-2]))
-		}
-
-		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-			25*ys[0]) / (3*(xs[4] - xs[0])))
-		out[n-2]= ((-3*ys[n-1] - 10*ys[n-2] + 18*ys[n-3] - 6*ys[n-4] +
-			ys[n-5]) / (3*(xs[n-5] - xs[n-1])))
-		out[1]= ((-3*ys[0] - 10*ys[1] + 18*ys[2] - 6*ys[3] +
-			ys[4]) / (3*(xs[4] - xs[0])))
-		out[n-1] = ((-3*ys[n-5] + 16*ys[n-4] - 36*ys[n-3] + 48*ys[n-2] -
-			25*ys[n-1]) / (3*(xs[n-5] - xs[n-1])))
 	} else {
 		panic("Invalid order.")
 	}
 	return out
 }
+
+// polyDeriv returns the derivative at xs[i] of the polynomial which passes
+// through all the given points.
+func polyDeriv(xs, ys []float64, i int) float64 {
+	sum := 0.0
+	for j := range xs {
+		if j == i { continue }
+		// Derivative of the jth Lagrange polynomial at xs[i].
+		w := 1 / (xs[j] - xs[i])
+		for k := range xs {
+			if k == i || k == j { continue }
+			w *= (xs[i] - xs[k]) / (xs[j] - xs[k])
+		}
+		sum += w * (ys[j] - ys[i])
+	}
+	return sum
+}
-- 
2.43.0


From b0706d9191a975541268e52b74378c98c5053481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 23/85] fix: check y and z in compressCoordsCheck

---
 render/geom/tetra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 79412a5..65669f6 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -122,9 +122,9 @@ func compressCoordsCheck(
 
 	if newX >= countWidth || newX < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 {
+	} else if newY >= countWidth || newY < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 { 
+	} else if newZ >= countWidth || newZ < 0 {
 		return -1, false
 	}	
 
-- 
2.43.0


From d72064fa36a3aef2de8141cdd34561cc4487b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 24/85] fix: include the fourth corner in the barycenter

---
 render/geom/tetra.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 65669f6..d2c5987 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -453,7 +453,8 @@ func (t *Tetra) Barycenter() *Vec {
 	}
 
 	for i := 0; i < 3; i++ {
-		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] + t.Corners[2][i]) / 4.0
+		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] + t.Corners[2][i] +
+			t.Corners[3][i]) / 4.0
 	}
 
 	t.baryValid = true
-- 
2.43.0


From c8dcc2bbcd1fc80ab5e69b22f76f57683bbc6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 25/85] fix: bound tetrahedra by their largest coordinates
 without rounding

---
 render/geom/tetra.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index d2c5987..c1ea6ca 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -489,17 +489,8 @@ func (t *Tetra) CellBoundsAt(cellWidth float64, cb *CellBounds) {
 	}
 
 	for i := 0; i < 3; i++ {
-		maxes[i] -= mins[i]
-	}
-	width := maxes
-	origin := mins
-
-
-	for i := 0; i < 3; i++ {
-		cb.Origin[i] = int(math.Floor(float64(origin[i]) / cellWidth))
-		cb.Width[i] = 1 + int(math.Floor(
-			float64(width[i] + origin[i]) / cellWidth),
-		)
+		cb.Origin[i] = int(math.Floor(float64(mins[i]) / cellWidth))
+		cb.Width[i] = 1 + int(math.Floor(float64(maxes[i]) / cellWidth))
 		cb.Width[i] -= cb.Origin[i]
 	}
 }
-- 
2.43.0


From 6841725bbbd965ab15acc33c40613706f90a20c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 26/85] fix: take derivatives at the z edges along z

---
 render/geom/deriv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 81f1036..b254f14 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -95,7 +95,7 @@ func (g *Grid) wrapDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.wrapDeriv(idx, 1, pos, g.Width[2])
+					d.wrapDeriv(idx, g.Area, pos, g.Width[2])
 				}
 			}
 		}
@@ -132,7 +132,7 @@ func (g *Grid) edgesDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.edgeDeriv(idx, 1, pos)
+					d.edgeDeriv(idx, g.Area, pos)
 				}
 			}
 		}
-- 
2.43.0


From 28fbf6c5a9312ddf06f80f8268a61af50b020a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 27/85] fix: require a grid as wide as the derivative stencil

---
 render/geom/deriv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index b254f14..9d1b1b6 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -26,9 +26,9 @@ func (g *GridLocation) Deriv(
 
 	if axis > 2 || axis < 0 {
 		log.Fatalf("Unrecognized axis %d", axis)
-	} else if g.Width[axis] < 3 {
-		log.Fatalf("Width of array must be at least 3 for a " +
-			"second-order derivative.")
+	} else if g.Width[axis] < opt.Order + 1 {
+		log.Fatalf("Width of array must be at least %d for a " +
+			"derivative of order %d.", opt.Order + 1, opt.Order)
 	} else if opt.Order != 2 && opt.Order != 4 {
 		log.Fatalf("Grid.Deriv() can only compute 2nd and 4th order " +
 			"derivatives, not %d order.", opt.Order)
-- 
2.43.0


From 5538f79e3f8dcc84d2c3a57e69cd4adc273a2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 28/85] fix: leave derivative options alone in Curl and
 Divergence

---
 render/geom/deriv.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 9d1b1b6..67cad2f 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -324,11 +324,9 @@ func (g *GridLocation) Curl(
 	op *DerivOptions,
 ) {
 	// We can't change and revert due to thread safety.
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 
 	g.Deriv(vecs[2], out[0], 1, op)
 	g.Deriv(vecs[0], out[1], 2, op)
@@ -344,11 +342,10 @@ func (g *GridLocation) Divergence(
 	vecs [3][]float32, out []float32,
 	op *DerivOptions,
 ) {
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
+
 	g.Deriv(vecs[0], out, 0, op)
 	op.Op = Add
 	g.Deriv(vecs[1], out, 1, op)
-- 
2.43.0


From 3be2506c671fa0bda3480dce8b249c5f393101ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 29/85] fix: combine curl and divergence with the requested
 operation

---
 render/geom/deriv.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 67cad2f..9429aa0 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -332,7 +332,11 @@ func (g *GridLocation) Curl(
 	g.Deriv(vecs[0], out[1], 2, op)
 	g.Deriv(vecs[1], out[2], 0, op)
 
-	op.Op = Subtract
+	if op.Op == Subtract {
+		op.Op = Add
+	} else {
+		op.Op = Subtract
+	}
 	g.Deriv(vecs[1], out[0], 2, op)
 	g.Deriv(vecs[2], out[1], 0, op)
 	g.Deriv(vecs[0], out[2], 1, op)
@@ -347,7 +351,7 @@ func (g *GridLocation) Divergence(
 	op = &tmp
 
 	g.Deriv(vecs[0], out, 0, op)
-	op.Op = Add
+	if op.Op == None { op.Op = Add }
 	g.Deriv(vecs[1], out, 1, op)
 	g.Deriv(vecs[2], out, 2, op)
 }
-- 
2.43.0


From 1778c6c66bc8a22d8f1e6f616aaa59920c1b1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 30/85] fix: give grid coordinates relative to the origin

---
 render/geom/grid.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index f8bf107..ddb6a4b 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -85,9 +85,9 @@ func (g *Grid) BoundsCheck(x, y, z int) bool {
 
 // Coords returns the x, y, z coordinates of a point from its grid index.
 func (g *Grid) Coords(idx int) (x, y, z int) {
-	x = idx % g.Length
-	y = (idx % g.Area) / g.Length
-	z = idx / g.Area
+	x = g.Origin[0] + idx % g.Length
+	y = g.Origin[1] + (idx % g.Area) / g.Length
+	z = g.Origin[2] + idx / g.Area
 	return x, y, z
 }
 /*
-- 
2.43.0


From ffad111a549140476670c5c0b82e81fa2ca4cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 31/85] fix: do not report touching cell bounds as intersecting

---
 render/geom/grid.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index ddb6a4b..a193671 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -116,7 +116,8 @@ func (cb1 *CellBounds) Intersect(cb2 *CellBounds, width int) bool {
 			oBig, wBig = cb1.Origin[i], cb1.Width[i]
 		}
 
-		eSmall := oSmall + wSmall
+		// Last cell of the smaller bounds.
+		eSmall := oSmall + wSmall - 1
 		beSmall := bound(eSmall, oBig, width)
 		boSmall := bound(oSmall, oBig, width)
 
@@ -146,7 +147,7 @@ func (cb1 *CellBounds) IntersectUnbounded(cb2 *CellBounds) bool {
 func bound(x, origin, width int) int {
 	diff := x - origin
 	if diff < 0 { return diff + width }
-	if diff > width { return diff - width }
+	if diff >= width { return diff - width }
 	return diff
 }
 
-- 
2.43.0


From 5263857593ed1edbc86b4f9298f6d63ca586fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 32/85] fix: keep wrapped vectors below the box width

---
 render/geom/vec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 7ba4d3f..1bee61b 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -47,6 +47,8 @@ func (v *Vec) ModAt(width float64, out *Vec) *Vec {
 			out[i] -= w
 		} else if out[i] < 0 {
 			out[i] += w
+			// Rounding can take small negative numbers up to the edge.
+			if out[i] >= w { out[i] = 0 }
 		}
 	}
 	return out
-- 
2.43.0


From 623c1279b5192a4e902974865be8a3d3b62e9064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 33/85] fix: report header errors when reading sheet positions

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 7f351b7..4160fa1 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -314,7 +314,7 @@ func ReadSheetHeaderAt(file string, hdBuf *SheetHeader) error {
 func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
-	if err != nil { return nil }
+	if err != nil { return err }
 
 	if h.GridCount != int64(len(xsBuf)) {
 		return fmt.Errorf("Position buffer has length %d, but file %s has %d "+ 
-- 
2.43.0


From 1e8247c279b128fc1689a1e259dc47bf5bef38c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 34/85] fix: read whole blocks instead of a single chunk

---
 render/io/io.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 4160fa1..0cbddd0 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -415,7 +415,7 @@ func readVecAsByte(rd io.Reader, end binary.ByteOrder, buf []geom.Vec) error {
 	hd.Cap *= 12
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -442,7 +442,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	hd.Cap *= 24
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -504,7 +504,7 @@ func readInt64AsByte(rd io.Reader, end binary.ByteOrder, buf []int64) error {
 	hd.Cap *= 8
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -533,7 +533,7 @@ func readInt32AsByte(rd io.Reader, end binary.ByteOrder, buf64 []int64) error {
 	hd.Cap *= 4
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
-- 
2.43.0


From 29a132efaf6887d0995ecb9f070b668f103078bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 35/85] fix: swap all eight bytes of double precision vectors

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 0cbddd0..629c84d 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -448,7 +448,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	if !isSysOrder(end) {
 		for i := 0; i < bufLen * 3; i++ {
 			for j := 0; j < 4; j++ {
-				idx1, idx2 := i*8 + j, i*8 + 3 - j
+				idx1, idx2 := i*8 + j, i*8 + 7 - j
 				byteBuf[idx1], byteBuf[idx2] = byteBuf[idx2], byteBuf[idx1]
 			}
 		}
-- 
2.43.0


From 09056fc062ee71752e4202908412c592d960480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 36/85] fix: read the Gadget header in the requested byte order

---
 render/io/io.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 629c84d..412c76b 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -142,7 +142,9 @@ func ReadGadgetHeader(path string, order binary.ByteOrder, variant string) *Cata
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	if err := binary.Read(f, order, gh); err != nil {
+		panic(err)
+	}
 
 	h := gh.Standardize()
 	return h
@@ -168,7 +170,9 @@ func ReadGadgetParticlesAt(
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	if err := binary.Read(f, order, gh); err != nil {
+		panic(err)
+	}
 	_ = readInt32(f, order)
 
 	h := gh.Standardize()
-- 
2.43.0


From 6022114df25c846424a95570fea89957d94a7521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 37/85] fix: report short Gadget blocks

---
 render/io/io.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 412c76b..14a0c51 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -206,9 +206,12 @@ func ReadGadgetParticlesAt(
 	}
 
 	if readF32 {
-		readVecAsByte(f, order, xs)
+		err = readVecAsByte(f, order, xs)
 	} else {
-		readVec64AsByte(f, order, xs)
+		err = readVec64AsByte(f, order, xs)
+	}
+	if err != nil {
+		panic(err)
 	}
 	_ = readInt32(f, order)
 
@@ -222,22 +225,28 @@ func ReadGadgetParticlesAt(
 		panic(fmt.Sprintf("Internal error: Expected positions block to have header %d or %d, but actually has header %d\n (this is probably a binary file format issues)", f32Size, 2*f32Size, xSize))
 	}
 	if readF32 {
-		readVecAsByte(f, order, vs)
+		err = readVecAsByte(f, order, vs)
 	} else {
-		readVec64AsByte(f, order, vs)
+		err = readVec64AsByte(f, order, vs)
+	}
+	if err != nil {
+		panic(err)
 	}
 	_ = readInt32(f, order)
 	_ = readInt32(f, order)
 
 	if idSize == 64 {
-		readInt64AsByte(f, order, ids)
+		err = readInt64AsByte(f, order, ids)
 	} else if idSize == 32 {
 		runtime.GC()
-		readInt32AsByte(f, order, ids)
+		err = readInt32AsByte(f, order, ids)
 		runtime.GC()
 	} else {
 		panic("ID size other than 32 bits or 64 bits given.")
 	}
+	if err != nil {
+		panic(err)
+	}
 	//_ = readInt32(f, order)
 	
 	// Convert gadget velocities out of code units.
-- 
2.43.0


From 844c0272068df3efc8778d3b57bc9dc0185e8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 38/85] fix: keep the high word of Gadget particle counts

---
 render/io/io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 14a0c51..72d3bcf 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -103,8 +103,8 @@ func readInt32(r io.Reader, order binary.ByteOrder) int32 {
 func (gh *gadgetHeader) Standardize() *CatalogHeader {
 	h := &CatalogHeader{}
 
-	h.Count = int64(gh.NPart[1] + gh.NPart[0]<<32)
-	h.TotalCount = int64(gh.NPartTotal[1] + gh.NPartTotal[0]<<32)
+	h.Count = int64(gh.NPart[1]) + int64(gh.NPart[0])<<32
+	h.TotalCount = int64(gh.NPartTotal[1]) + int64(gh.NPartTotal[0])<<32
 	h.Mass = float64(gh.Mass[1])
 	h.TotalWidth = float64(gh.BoxSize)
 	h.Width = -1.0
-- 
2.43.0


From 2e696b031987d57914f4d965d52cfcfd376e10bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 39/85] fix: record whether an output grid holds vectors

---
 render/io/output.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io/output.go b/render/io/output.go
index cdf611d..c5f91ab 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -152,12 +152,13 @@ func WriteBuffer(
 	hd.Render = render
 	hd.Loc = loc
 
-	binary.Write(wr, end, &hd)
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 		binary.Write(wr, end, ys)
 		binary.Write(wr, end, zs)
-- 
2.43.0


From 0dadb53f524ea6660dc59c7efe550711e0fc5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 40/85] fix: read projected grids with the size of the image

---
 render/io/output.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/render/io/output.go b/render/io/output.go
index c5f91ab..2305a2b 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -79,7 +79,12 @@ func ReadGrid(fname string) ([]float64, error) {
     }
 
     sp := hd.Loc.PixelSpan
-    val32s := make([]float32, sp[0] * sp[1] * sp[2])
+    n := int64(1)
+    for i := range sp {
+        // Projected grids don't contain the axis that was projected over.
+        if int64(i) != hd.Render.ProjectionAxis { n *= sp[i] }
+    }
+    val32s := make([]float32, n)
     err = binary.Read(f, end, val32s)
     if err != nil { return nil, err }
 
-- 
2.43.0


From 87ac753c9bcc7720c3e60a80e0759f1a20394df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 41/85] fix: return errors for damaged sheet headers

---
 render/io/io.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 72d3bcf..fdfa5ce 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -295,9 +295,17 @@ func readSheetHeaderAt(
 	if err != nil { return nil, binary.LittleEndian, err }
 
 	// order doesn't matter for this read, since flags are symmetric.
-	order := endianness(readInt32(f, binary.LittleEndian))
+	var flag, headerSize int32
+	err = binary.Read(f, binary.LittleEndian, &flag)
+	if err != nil { return nil, binary.LittleEndian, err }
+	if flag != 0 && flag != -1 {
+		return nil, binary.LittleEndian,
+		fmt.Errorf("Unrecognized endianness flag %d in %s.", flag, file)
+	}
+	order := endianness(flag)
 
-	headerSize := readInt32(f, order)
+	err = binary.Read(f, order, &headerSize)
+	if err != nil { return nil, binary.LittleEndian, err }
 	if headerSize != int32(unsafe.Sizeof(SheetHeader{})) {
 		return nil, binary.LittleEndian, 
 		fmt.Errorf("Expected catalog.SheetHeader size of %d, found %d.",
-- 
2.43.0


From 5aa3dfdd22482562963805e9287ce81546caf7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 42/85] fix: keep wrapped Gadget positions inside the box

---
 render/io/io.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/io/io.go b/render/io/io.go
index fdfa5ce..bf72506 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -254,6 +254,8 @@ func ReadGadgetParticlesAt(
 	for i := range xs {
 		for j := 0; j < 3; j++ {
 			xs[i][j] = float32(gh.WrapDistance(float64(xs[i][j])))
+			// Tiny negative positions round to the box width.
+			if float64(xs[i][j]) >= gh.BoxSize { xs[i][j] = 0 }
 			vs[i][j] = vs[i][j] * rootA
 		}
 	}
-- 
2.43.0


From 3733c73665e92d6cf8aaf505c2a30e0bea540d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 43/85] fix: convert the box width to the requested units

---
 render/main/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/main/main.go b/render/main/main.go
index 1de47f8..b71f69a 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -284,6 +284,7 @@ func createGrids(
 	for i := range hs {
 		hs[i] = *io.ReadGadgetHeader(catalogs[i], gadgetEndianness, con.InputFormat)
 		hs[i].Mass *= con.MUnits
+		hs[i].TotalWidth *= con.XUnits
 	}
 	log.Printf("Input header: %v\n", hs[0])
 
-- 
2.43.0


From b0cce908fdbb141d90c6151b0740584f40ab4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 44/85] fix: give every sheet segment its own file

---
 render/main/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index b71f69a..0533a50 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -385,13 +385,16 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 	shd.GridCount = int64(shd.GridWidth * shd.GridWidth * shd.GridWidth)
 	shd.Cells = int64(cells)
 
+	// Pad indices so that file names are unique.
+	digits := len(fmt.Sprintf("%d", cells - 1))
+
 	// Write the data. (x, y, z) indexes over the files.
 	for z := int64(0); z < shd.Cells; z++ {
 		for y := int64(0); y < shd.Cells; y++ {
 			for x := int64(0); x < shd.Cells; x++ {
 				copyToSegment(shd, xs, vs, xsSeg, vsSeg)
 				file := path.Join(outDir, fmt.Sprintf(
-					"sheet%d%d%d.dat", x, y, z,
+					"sheet%0*d%0*d%0*d.dat", digits, x, digits, y, digits, z,
 				))
 				io.WriteSheet(file, shd, xsSeg, vsSeg)
 				runtime.GC()
-- 
2.43.0


From dba0a4f584ef068923f5f6de6df58d54204ecc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 45/85] fix: refuse decompositions which would lose particles

---
 render/main/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 0533a50..f4c65ca 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -366,6 +366,13 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 
 	log.Println("Writing to directory", outDir)
 
+	if int(hd.CountWidth) % cells != 0 {
+		log.Fatalf(
+			"Cannot split %d particles on a side into %d cells.",
+			hd.CountWidth, cells,
+		)
+	}
+
 	segmentWidth := int(hd.CountWidth) / cells
 	gridWidth := segmentWidth + 1
 
-- 
2.43.0


From 729360ab11c05b0e0a7ad3f2215b9edaeb071fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 46/85] fix: start velocity bounds at the segment's own
 particles

---
 render/main/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index f4c65ca..b260daa 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -484,8 +484,8 @@ func copyToSegment(shd *io.SheetHeader, xs, vs, xsSeg, vsSeg []geom.Vec) {
 
 	// smallidx is the index within the segment.
 	smallIdx := 0
-	vMin := vs[0]
-	vMax := vs[0]
+	vMin := vs[xStart + N * yStart + N2 * zStart]
+	vMax := vMin
 
 	for z := zStart; z < zStart + shd.GridWidth; z++ {
 		zIdx := z
-- 
2.43.0


From fe5b40f515d091f98bcc2a8a8fd31e551c440526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 47/85] fix: write the sampling that was used to grid headers

---
 render/main/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index b260daa..21854bc 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -595,7 +595,7 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 		)
 
 		renderInfo := io.NewRenderInfo(
-			con.Particles, con.TotalPixels, con.SubsampleLength,
+			box.Points(), box.Cells(), con.SubsampleLength,
 			cBox.ProjectionAxis,
 		)
 
-- 
2.43.0


From bcda3d7ba3a5eeff19b0a17ef013e32019fe1727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 48/85] fix: do not announce volumes as projections

---
 render/main/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 21854bc..b013bf4 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -594,9 +594,11 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 			hd.Cosmo.OmegaL, hd.Cosmo.Z, hd.TotalWidth,
 		)
 
+		axis := ""
+		if _, ok := box.ProjectionAxis(); ok { axis = cBox.ProjectionAxis }
+
 		renderInfo := io.NewRenderInfo(
-			box.Points(), box.Cells(), con.SubsampleLength,
-			cBox.ProjectionAxis,
+			box.Points(), box.Cells(), con.SubsampleLength, axis,
 		)
 
 		io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
-- 
2.43.0


From 06bf4823419fb2faea8fda072f97c5d28896dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 49/85] fix: refuse subsampling lengths which are not powers of
 two

---
 render/io/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index 39f8354..9cfae3c 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -322,7 +322,8 @@ func (con *RenderConfig) ValidParticles() bool {
 	return con.Particles > 0
 }
 func (con *RenderConfig) ValidSubsampleLength() bool {
-	return con.SubsampleLength > 0
+	s := con.SubsampleLength
+	return s > 0 && s & (s - 1) == 0
 }
 func (con *RenderConfig) ValidImagePixels() bool {
 	return con.ImagePixels > 0
-- 
2.43.0


From ff9cf06cdbb084f0f82f12913f3603d17aed7751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 50/85] fix: require a positive ball radius

---
 render/io/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index 9cfae3c..074805d 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -350,7 +350,7 @@ type BallConfig struct {
 }
 
 func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
-	if ball.Radius == 0 {
+	if !(ball.Radius > 0) {
 		return fmt.Errorf(
 			"Need to specify a positive radius for Ball '%s'.", name,
 		)
-- 
2.43.0


From ea400efbac5b7eb1a55f9b28c1c09c518dfcd1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 51/85] fix: place balls which touch the origin inside the box

---
 render/io/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 074805d..2e1b634 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -392,19 +392,19 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 
 	box.XWidth, box.YWidth, box.ZWidth = 2 * rad, 2 * rad, 2 * rad
 
-	if ball.X > rad {
+	if ball.X >= rad {
 		box.X = ball.X - rad
 	} else {
 		box.X = ball.X - rad + totalWidth
 	}
 
-	if ball.Y > rad {
+	if ball.Y >= rad {
 		box.Y = ball.Y - rad
 	} else {
 		box.Y = ball.Y - rad + totalWidth
 	}
 
-	if ball.Z > rad {
+	if ball.Z >= rad {
 		box.Z = ball.Z - rad
 	} else {
 		box.Z = ball.Z - rad + totalWidth
-- 
2.43.0


From 4c0a6dabcc4d90f1724b233272b53f253401df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 52/85] fix: accept the documented ProjectionAxis of balls

---
 render/io/config.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 2e1b634..979e619 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -346,6 +346,7 @@ type BallConfig struct {
 
 	// Optional
 	RadiusMultiplier float64
+	ProjectionAxis string
 	Name string
 }
 
@@ -373,6 +374,15 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	axis, ok := parseProjectionAxis(ball.ProjectionAxis)
+	if !ok {
+		return fmt.Errorf(
+			"ProjectionAxis of Ball '%s' must be one of [X | Y | Z]. '%s' is " +
+				"not recognized.", name, ball.ProjectionAxis,
+		)
+	}
+	ball.ProjectionAxis = axis
+
 	ball.Name = name
 	if ball.RadiusMultiplier == 0 {
 		ball.RadiusMultiplier = 1
@@ -410,6 +420,7 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 		box.Z = ball.Z - rad + totalWidth
 	}
 
+	box.ProjectionAxis = ball.ProjectionAxis
 	box.Name = ball.Name
 
 	return box
@@ -459,24 +470,27 @@ func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
-	tmp := box.ProjectionAxis
-	box.ProjectionAxis = strings.Trim(strings.ToUpper(box.ProjectionAxis), " ")
-	if box.ProjectionAxis != "" &&
-		box.ProjectionAxis != "X" &&
-		box.ProjectionAxis != "Y" &&
-		box.ProjectionAxis != "Z" {
-
+	axis, ok := parseProjectionAxis(box.ProjectionAxis)
+	if !ok {
 		return fmt.Errorf(
 			"ProjectionAxis of Box '%s' must be one of [X | Y | Z]. '%s' is " + 
-				"not recognized.", name, tmp,
+				"not recognized.", name, box.ProjectionAxis,
 		)
 	}
+	box.ProjectionAxis = axis
 
 	box.Name = name
 
 	return nil
 }
 
+// parseProjectionAxis normalizes the name of a projection axis. ok is false if
+// the name isn't recognized.
+func parseProjectionAxis(str string) (axis string, ok bool) {
+	axis = strings.Trim(strings.ToUpper(str), " ")
+	return axis, axis == "" || axis == "X" || axis == "Y" || axis == "Z"
+}
+
 func (box *BoxConfig) IsProjection() bool { return box.ProjectionAxis != "" }
 
 type BoundsConfig struct {
-- 
2.43.0


From dd58431c9498c78f7d63484122b92551fc0730cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 53/85] fix: refuse balls which do not fit into the simulation
 box

---
 render/io/config.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index 979e619..1a7e4af 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -393,6 +393,13 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	if !(2 * ball.Radius * ball.RadiusMultiplier <= totalWidth) {
+		return fmt.Errorf(
+			"Ball '%s' is wider than the simulation box, %g.",
+			name, totalWidth,
+		)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 0d9de03531c6b6323d26582d59cc0ddee6126af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 54/85] fix: refuse boxes which do not fit into the simulation
 box

---
 render/io/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index 1a7e4af..382f7cc 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -460,6 +460,14 @@ func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	if !(box.XWidth <= totalWidth && box.YWidth <= totalWidth &&
+		box.ZWidth <= totalWidth) {
+		return fmt.Errorf(
+			"Box '%s' is wider than the simulation box, %g.",
+			name, totalWidth,
+		)
+	}
+
 	if box.X >= totalWidth || box.X < 0 {
 		return fmt.Errorf(
 			"X origin of Box '%s' must be in range [0, %g), but is %g",
-- 
2.43.0


From 2a8f2f190dc70e4fb00fe453d98f1ff41b6768b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 55/85] fix: refuse positions which are not numbers

---
 render/io/config.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 382f7cc..c6ee7c2 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -357,17 +357,17 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
-	if ball.X >= totalWidth || ball.X < 0 {
+	if !(ball.X >= 0 && ball.X < totalWidth) {
 		return fmt.Errorf(
 			"X center of Ball '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, ball.X,
 		)
-	} else if ball.Y >= totalWidth || ball.Y < 0 {
+	} else if !(ball.Y >= 0 && ball.Y < totalWidth) {
 		return fmt.Errorf(
 			"Y center of Ball '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, ball.Y,
 		)
-	} else if ball.Z >= totalWidth || ball.Z < 0 {
+	} else if !(ball.Z >= 0 && ball.Z < totalWidth) {
 		return fmt.Errorf(
 			"Z center of Ball '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, ball.Z,
@@ -468,17 +468,17 @@ func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
-	if box.X >= totalWidth || box.X < 0 {
+	if !(box.X >= 0 && box.X < totalWidth) {
 		return fmt.Errorf(
 			"X origin of Box '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, box.X,
 		)
-	} else if box.Y >= totalWidth || box.Y < 0 {
+	} else if !(box.Y >= 0 && box.Y < totalWidth) {
 		return fmt.Errorf(
 			"Y origin of Box '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, box.Y,
 		)
-	} else if box.Z >= totalWidth || box.Z < 0 {
+	} else if !(box.Z >= 0 && box.Z < totalWidth) {
 		return fmt.Errorf(
 			"Z origin of Box '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, box.Z,
-- 
2.43.0


From 503962218fe531460c8e03d4aceb335e265ff884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 56/85] fix: check the requested subsampling length

---
 render/hist.go   | 4 ++--
 render/render.go | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 6f5e5d8..9324064 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -101,8 +101,8 @@ func NewHistManager(
 }
 
 func (man *HistManager) Subsample(skip int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(skip) {
+		log.Fatalf("Skip ingrement is %d, must be power of two.", skip)
 	}
 
 	man.skip = skip
diff --git a/render/render.go b/render/render.go
index 9740a29..94901b3 100644
--- a/render/render.go
+++ b/render/render.go
@@ -215,8 +215,9 @@ func (r *renderer) initWorkspaces(man *Manager) {
 func (man *Manager) Log(flag bool) { man.log = flag }
 
 func (man *Manager) Subsample(subsampleLength int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(subsampleLength) {
+		log.Fatalf("Skip ingrement is %d, must be power of two.",
+			subsampleLength)
 	}
 
 	man.skip = subsampleLength
-- 
2.43.0


From 7566bbfe5eac98f622a50fad20298a41e0e9b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 57/85] fix: refuse subsampling lengths which do not divide the
 segments

---
 render/hist.go   | 3 +++
 render/render.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/render/hist.go b/render/hist.go
index 9324064..19bddb1 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -103,6 +103,9 @@ func NewHistManager(
 func (man *HistManager) Subsample(skip int) {
 	if !isPowTwo(skip) {
 		log.Fatalf("Skip ingrement is %d, must be power of two.", skip)
+	} else if man.hd.SegmentWidth % int64(skip) != 0 {
+		log.Fatalf("Skip increment %d does not divide the segment width, %d.",
+			skip, man.hd.SegmentWidth)
 	}
 
 	man.skip = skip
diff --git a/render/render.go b/render/render.go
index 94901b3..1ffebf3 100644
--- a/render/render.go
+++ b/render/render.go
@@ -218,6 +218,9 @@ func (man *Manager) Subsample(subsampleLength int) {
 	if !isPowTwo(subsampleLength) {
 		log.Fatalf("Skip ingrement is %d, must be power of two.",
 			subsampleLength)
+	} else if man.hd.SegmentWidth % int64(subsampleLength) != 0 {
+		log.Fatalf("Skip increment %d does not divide the segment width, %d.",
+			subsampleLength, man.hd.SegmentWidth)
 	}
 
 	man.skip = subsampleLength
-- 
2.43.0


From bbe5b24c47d6f9d22c1048546ac94ff0a27f3d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 58/85] fix: take the floor of points on cell boundaries

---
 render/box.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/render/box.go b/render/box.go
index 08bbd8a..d8de373 100644
--- a/render/box.go
+++ b/render/box.go
@@ -683,11 +683,7 @@ func (w *domainOverlap3D) Interpolate(
 }
 
 func intFloor(x float32) int {
-	if x > 0 {
-		return int(x)
-	} else {
-		return int(x - 1)
-	}
+	return int(math.Floor(float64(x)))
 }
 
 func cbSubtr(cb1, cb2 *geom.CellBounds) (i, j, k int) {
-- 
2.43.0


From 7f901c0b72079d6c7e8a07f2f3e9422701f3bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 59/85] fix: do not divide mean vectors by the projection depth

---
 render/box.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/render/box.go b/render/box.go
index d8de373..18675b8 100644
--- a/render/box.go
+++ b/render/box.go
@@ -499,7 +499,10 @@ func (w *segmentOverlap2D) Interpolate(
 	kOffset := w.domCb.Origin[kDim] - w.bufCb.Origin[kDim]
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.domCb.Width[kDim])
+	// Vector quantities are averaged over the deposited points instead.
+	if _, scalar := bbuf.ScalarBuffer(); scalar {
+		ptVal /= float64(w.domCb.Width[kDim])
+	}
 
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
@@ -598,7 +601,10 @@ func (w *domainOverlap2D) Interpolate(
 	}
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.bufCb.Width[kDim])
+	// Vector quantities are averaged over the deposited points instead.
+	if _, scalar := bbuf.ScalarBuffer(); scalar {
+		ptVal /= float64(w.bufCb.Width[kDim])
+	}
 
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
-- 
2.43.0


From 6bb83ec9e13adc2cf692704b844d0a1e3d327d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 60/85] fix: do not render the same pixel twice

---
 render/box.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/box.go b/render/box.go
index 18675b8..96c7555 100644
--- a/render/box.go
+++ b/render/box.go
@@ -163,6 +163,8 @@ func newBox2D(
 			math.Floor((width[j] + origin[j]) / cellWidth),
 		)
 		b.cb.Width[j] -= b.cb.Origin[j]
+		// The first and last pixels of a box-sized region are the same pixel.
+		if b.cb.Width[j] > cells { b.cb.Width[j] = cells }
 	}
 
 	b.cells = cells
@@ -199,6 +201,8 @@ func newBox3D(
 			math.Floor((width[j] + origin[j]) / cellWidth),
 		)
 		b.cb.Width[j] -= b.cb.Origin[j]
+		// The first and last pixels of a box-sized region are the same pixel.
+		if b.cb.Width[j] > cells { b.cb.Width[j] = cells }
 	}
 
 	b.cells = cells
-- 
2.43.0


From 73caf3604039ec4d3c74e635ec196b55c9030ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 61/85] fix: name the density quantity

---
 render/density/quantity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/quantity.go b/render/density/quantity.go
index b17327e..7a201b7 100644
--- a/render/density/quantity.go
+++ b/render/density/quantity.go
@@ -15,7 +15,7 @@ const (
 )
 
 func (q Quantity) String() string {
-	if q <= 0 || q >= EndQuantity {
+	if q < 0 || q >= EndQuantity {
 		panic(fmt.Sprintf("Value %d out of range for Quantity type.", q))
 	}
 
-- 
2.43.0


From 48da2c3c2cb8a6f921d7d33f93b6b2b6d0203545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 62/85] fix: finalize small velocity buffers

---
 render/density/buffer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 595258c..4375006 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -295,9 +295,6 @@ func (buf *velocityBuffer) FinalizedVectorBuffer() (xs, ys, zs []float32, ok boo
 	ys = make([]float32, len(buf.vecs))
 	zs = make([]float32, len(buf.vecs))
 	for i, vec := range buf.vecs {
-		if i % (len(buf.vecs) / 30) == 0 {
-			fmt.Println(i, buf.num[i], vec[0], vec[1], vec[2])
-		}
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		xs[i], ys[i], zs[i] = float32(vec[0])/n, float32(vec[1])/n, float32(vec[2])/n
-- 
2.43.0


From 8b25e6942b53684a21f85892d42fdccaaed6fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 63/85] fix: use the y velocity in divergences

---
 render/density/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 4375006..d4b8a55 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -351,7 +351,7 @@ func (buf *divergenceBuffer) FinalizedScalarBuffer() (vals []float32, ok bool) {
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		vecs[0][i] = float32(vec[0])/n
-		vecs[1][i] = float32(vec[0])/n
+		vecs[1][i] = float32(vec[1])/n
 		vecs[2][i] = float32(vec[2])/n
 	} 
 
-- 
2.43.0


From b4176611f45f8c02b0b14081aaa4c0a3c6b7e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 64/85] fix: give every subsampled cube to one histogram worker

---
 render/hist.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 19bddb1..836dedb 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -242,13 +242,13 @@ func (man *HistManager) chanHistogram(
 	// Evaluate whatever quantity is being measured.
 	switch strings.ToLower(man.quantity) {
 	case strings.ToLower("Density"):
+		cube := 0
 		for z := 0; z < segWidth; z += man.skip {
 			for y := 0; y < segWidth; y += man.skip {
 				for x := 0; x < segWidth; x += man.skip {
 					idx := x + y*gridWidth + z*gridWidth*gridWidth
-					if idx%(man.skip*man.skip*man.skip*man.workers) != worker {
-						continue
-					}
+					cube++
+					if cube % man.workers != worker { continue }
 
 					if !man.cubeIntersects(idx) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
-- 
2.43.0


From 2d6c60add0803a7ec096ab0fb356a1111b533511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 65/85] fix: include the lower edge of periodic intervals

---
 render/hist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 836dedb..b483c3b 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -220,7 +220,7 @@ func intersect1D(a, aSpan, b, bSpan, L float64) bool {
 // can be within [0, 2*L).
 func contains1D(a, aSpan, b, L float64) bool {
 	if b >= L { b -= L }
-	return (b > a && a + aSpan > b) ||
+	return (b >= a && a + aSpan > b) ||
 		(b < a && a + aSpan - L > b)
 }
 
-- 
2.43.0


From 475679251541556aa4c25086522dce7be7b9b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 66/85] fix: find intervals which share their ends or wrap
 around

---
 render/hist.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index b483c3b..4c90c74 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -209,10 +209,12 @@ func histIntersect(sheet *io.SheetHeader, box *HistBox) bool {
 // a second segment starting at b with width bSpan intersect within a periodic
 // box of width L.
 func intersect1D(a, aSpan, b, bSpan, L float64) bool {
-	return contains1D(a, aSpan, b, L) ||
-		contains1D(a, aSpan, b + bSpan, L) ||
-		contains1D(b, bSpan, a, L) ||
-		contains1D(b, bSpan, a + aSpan, L)
+	// Two closed intervals intersect if one of them contains the start of the
+	// other.
+	ab, ba := b - a, a - b
+	if ab < 0 { ab += L }
+	if ba < 0 { ba += L }
+	return ab <= aSpan || ba <= bSpan
 }
 
 // contains1D returns true if b is within a segment that starts at a and has
-- 
2.43.0


From 07897be81ded58caeef154f2fdc1ccdd910f4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 67/85] fix: histogram tetrahedra across the periodic boundary

---
 render/hist.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 4c90c74..71b4883 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -358,6 +358,8 @@ func (man *HistManager) getDensities(
 		&man.xs[idxBuf[2]], &man.xs[idxBuf[3]],
 	)
 	
+	man.periodizeTetra(&tet, L)
+
 	bufIdx := rand.Int63n(int64(len(man.unitBufs)))
 	tet.DistributeTetra(man.unitBufs[bufIdx], vecBuf)
 
@@ -408,7 +410,7 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 func (man *HistManager) periodizeTetra(tet *geom.Tetra, L float32) {
 	for i := 1; i < 4; i++ {
 		for k := 0; k < 3; k++ {
-			delta := tet.Corners[i][k] - tet.Corners[i][0]
+			delta := tet.Corners[i][k] - tet.Corners[0][k]
 			if delta > L/2 { tet.Corners[i][k] -= L }
 			if delta < -L/2 { tet.Corners[i][k] += L }
 		}
-- 
2.43.0


From 049022ced64f26a59c4a2ded9c92f9890c5e52f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 68/85] fix: ignore samples without a bin

---
 render/hist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 71b4883..26f2af6 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -430,7 +430,7 @@ func histogram(x []float64, ok []bool, info *HistInfo, counts []int) {
 			if !ok[i] { continue }
 
 			idx := (math.Log10(x[i]) - min) / dx
-			if idx < 0 || idx >= fBins { continue }
+			if !(idx >= 0 && idx < fBins) { continue }
 
 			counts[int(idx)]++
 			
@@ -442,7 +442,7 @@ func histogram(x []float64, ok []bool, info *HistInfo, counts []int) {
 			if !ok[i] { continue }
 
 			idx := (x[i] - min) / dx
-			if idx < 0 || idx >= fBins { continue }
+			if !(idx >= 0 && idx < fBins) { continue }
 			counts[int(idx)]++	
 		}
 	}
-- 
2.43.0


From f4860ed9d24ef7d483d2e02d531b18ea471c339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 69/85] fix: report errors when reading positions for
 histograms

---
 render/hist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 26f2af6..f19bc81 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -170,7 +170,8 @@ func (man *HistManager) HistFromFile(file string, info *HistInfo) error {
 	for bi := range man.boxes {
 		if !histIntersect(&man.hd, &man.boxes[bi]) { continue }
 
-		io.ReadSheetPositionsAt(file, man.xs)
+		err = io.ReadSheetPositionsAt(file, man.xs)
+		if err != nil { return err }
 
 		for id := 0; id < man.workers; id++ {
 			go man.chanHistogram(id, &man.boxes[bi], info, out)
-- 
2.43.0


From 5d2cef54a349fdefcba04c5e6534a7aa2e4d7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 70/85] fix: wrap halos at the upper edge of the box

---
 render/halo/grid.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/halo/grid.go b/render/halo/grid.go
index 5415716..d49a93f 100644
--- a/render/halo/grid.go
+++ b/render/halo/grid.go
@@ -41,17 +41,17 @@ func (g *Grid) Length(idx int) int {
 func (g *Grid) Insert(xs, ys, zs []float64) {
 	for i := range xs {
 		x, y, z := xs[i], ys[i], zs[i]
-		if x > g.Width {
+		if x >= g.Width {
 			x -= g.Width
 		} else if x < 0 {
 			x += g.Width
 		}
-		if y > g.Width {
+		if y >= g.Width {
 			y -= g.Width
 		} else if y < 0 {
 			y += g.Width
 		}
-		if z > g.Width {
+		if z >= g.Width {
 			z -= g.Width
 		} else if z < 0 {
 			z += g.Width
-- 
2.43.0


From 377d8fb4628425597c327ea3420414879eb35c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 71/85] fix: measure halo distances periodically

---
 render/halo/finder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index ff98df4..f1d5b08 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -219,12 +219,20 @@ func (sf *SubhaloFinder) markSubhalos(
 		if j <= ih { continue }
 		sx, sy, sz, sr := xs[j], ys[j], zs[j], rs[j]
 		dx, dy, dz, dr := hx - sx, hy - sy, hz - sz, hr + sr
+		dx, dy, dz = sf.periodic(dx), sf.periodic(dy), sf.periodic(dz)
 		if dr*dr >= dx*dx + dy*dy + dz*dz {
 			sf.subhalos = append(sf.subhalos, j)
 		}
 	}
 }
 
+// periodic returns the shortest periodic displacement corresponding to dx.
+func (sf *SubhaloFinder) periodic(dx float64) float64 {
+	if dx > sf.g.Width / 2 { return dx - sf.g.Width }
+	if dx < -sf.g.Width / 2 { return dx + sf.g.Width }
+	return dx
+}
+
 func cumulativeMax(xs []float64) []float64 {
 	ms := make([]float64, len(xs))
 	max := xs[len(xs) - 1]
-- 
2.43.0


From e4febeed4da1d0c5d4b4d10a7b258a98f25b9bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 72/85] fix: do not visit halo grid cells twice

---
 render/halo/finder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index f1d5b08..a559fb1 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -83,6 +83,9 @@ func (sf *SubhaloFinder) FindSubhalos(
 
 		pos[0], pos[1], pos[2] = xs[ih], ys[ih], zs[ih]
 		b.SphereBounds(pos, rh + maxSR, sf.g.cw, sf.g.Width)
+		for i := range b.Span {
+			if b.Span[i] > c { b.Span[i] = c }
+		}
 		vol += float64(b.Span[0] * b.Span[1] * b.Span[2])
 
 		for dz := 0; dz < b.Span[2]; dz++ {
-- 
2.43.0


From 77a29eddb56a20bf9628e5199cbaa7007ff684fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 73/85] fix: search the whole box for spheres as wide as it

---
 render/halo/finder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index a559fb1..12d148a 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -21,6 +21,7 @@ type Bounds struct {
 func (b *Bounds) SphereBounds(pos [3]float64, r, cw, width float64) {
 	for i := 0; i < 3; i++ {
 		min, max := pos[i] - r, pos[i] + r
+		if 2 * r >= width { min, max = 0, width }
 		if min < 0 { min += width }
 		if min > max { max +=  width }
 		minCell, maxCell := int(min / cw), int(max / cw)
-- 
2.43.0


From 32d09448b2e4ddffc15199a9ca051afb5f1a982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 74/85] fix: allow empty halo catalogs

---
 render/halo/finder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 12d148a..560c2dc 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -239,6 +239,7 @@ func (sf *SubhaloFinder) periodic(dx float64) float64 {
 
 func cumulativeMax(xs []float64) []float64 {
 	ms := make([]float64, len(xs))
+	if len(xs) == 0 { return ms }
 	max := xs[len(xs) - 1]
 	for i := len(xs) - 1; i >= 0; i-- {
 		x := xs[i]
-- 
2.43.0


From 518f81f27d6070f48fdd1429d32cb03259b5bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 75/85] fix: keep halos next to the upper edge inside the grid

---
 render/halo/grid.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/halo/grid.go b/render/halo/grid.go
index d49a93f..35f2d6c 100644
--- a/render/halo/grid.go
+++ b/render/halo/grid.go
@@ -59,6 +59,10 @@ func (g *Grid) Insert(xs, ys, zs []float64) {
 				
 
 		ix, iy, iz := int(x/g.cw), int(y/g.cw), int(z/g.cw)
+		// The division can round up to the number of cells.
+		if ix == g.Cells { ix-- }
+		if iy == g.Cells { iy-- }
+		if iz == g.Cells { iz-- }
 		idx := ix + iy * g.Cells + iz * g.Cells * g.Cells
 
 		g.Next[i] = g.Heads[idx]
-- 
2.43.0


From 56f550eff3ed691af4a76678bdf9a329e1c233f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 76/85] fix: read 32 bit Gadget ids as unsigned integers

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index bf72506..3f1819e 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -572,7 +572,7 @@ func readInt32AsByte(rd io.Reader, end binary.ByteOrder, buf64 []int64) error {
 	hd.Cap /= 4
 
 	for i := range buf {
-		buf64[i] = int64(buf[i])
+		buf64[i] = int64(uint32(buf[i]))
 	}
 	
 	return nil
-- 
2.43.0


From b2fad012c45df5f84ecc1e8d25ba1a703f56cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 77/85] fix: accept the quantity names which configurations
 accept

---
 render/density/quantity.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/render/density/quantity.go b/render/density/quantity.go
index 7a201b7..66eb9dc 100644
--- a/render/density/quantity.go
+++ b/render/density/quantity.go
@@ -2,6 +2,7 @@ package density
 
 import (
 	"fmt"
+	"strings"
 )
 
 type Quantity int64
@@ -36,17 +37,10 @@ func (q Quantity) String() string {
 }
 
 func QuantityFromString(str string) (q Quantity, ok bool) {
-	switch str {
-	case "Density":
-		return Density, true
-	case "DensityGradient":
-		return DensityGradient, true
-	case "Velocity":
-		return Velocity, true
-	case "VelocityDivergence":
-		return VelocityDivergence, true
-	case "VelocityCurl":
-		return VelocityCurl, true
+	for q = 0; q < EndQuantity; q++ {
+		if strings.ToLower(q.String()) == strings.ToLower(str) {
+			return q, true
+		}
 	}
 	return 0, false
 }
-- 
2.43.0


From 356eaeecb9a16e98d57d13187b43d178555753fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 78/85] fix: start every subhalo search from an empty list

---
 render/halo/finder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 560c2dc..880d77d 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -78,6 +78,7 @@ func (sf *SubhaloFinder) FindSubhalos(
 	cMax := cumulativeMax(rs)
 
 	vol := 0.0
+	sf.subhalos = sf.subhalos[:0]
 	for ih, rh := range rs {
 		sf.startSubhalos(ih)
 		maxSR := cMax[ih]
-- 
2.43.0


From d3f864d329813997f7453a20dd7d11204d59a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 79/85] fix: fix: gotetra.py opens grid files in binary mode
 when it reads the header

---
 python/gotetra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gotetra.py b/python/gotetra.py
index 1e5ebc3..6771b76 100644
--- a/python/gotetra.py
+++ b/python/gotetra.py
@@ -66,7 +66,7 @@ def read_header(filename):
     """ read_header returns the header information at the top of a gotetra
     output file as a Header object.
     """
-    with open(filename, "r") as fp:
+    with open(filename, "rb") as fp:
         flag_s = fp.read(8)
         ver = _read_version(flag_s)
         sizes = Sizes(ver)
-- 
2.43.0


From 130fc13fcacc83a7f88bc2f97052b98c0dbae53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 80/85] fix: fix: gtet.py takes the cosmology from the right
 fields of the sheet header

---
 python/gtet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/gtet.py b/python/gtet.py
index 46c59e0..d6e4fe4 100644
--- a/python/gtet.py
+++ b/python/gtet.py
@@ -50,7 +50,8 @@ class File(object):
         position_bounds = struct.unpack("ffffff", fp.read(6*4))
         velocity_bounds = struct.unpack("ffffff", fp.read(6*4))
         
-        self.z, self.scale, self.omega_m, self.h100 = cosmo_info
+        self.z, self.omega_m, self.omega_l, self.h100 = cosmo_info
+        self.scale = 1 / (1 + self.z)
         (self.count, self.count_width,
          self.segment_width, self.grid_width, self.grid_count,
          self.file_idx, self.file_cells) = index_info
-- 
2.43.0


From c4e8e64d4bfd3275b5cc82e73e9d84640339bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 81/85] fix: fix: gtet.py documents the order of the particle
 indices

---
 python/gtet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gtet.py b/python/gtet.py
index d6e4fe4..befc8df 100644
--- a/python/gtet.py
+++ b/python/gtet.py
@@ -11,7 +11,7 @@ class File(object):
         Data grids:
             x - A shape (n, n, n, 3) numpy array containing the positions of
                 every particle in the file in comoving Mpc/h. The 1st [2nd, 3rd]
-                index corresponds to the x [y, z] dimension in the ICs, and the
+                index corresponds to the z [y, x] dimension in the ICs, and the
                 4th index to the coordinates of the position vector. Positions
                 in this array are unique and do not appear in the x array of
                 other files.
-- 
2.43.0


From 30006bea0461e9f729c3d20a19ffefe505e41bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 82/85] fix: convert the indices of cells beyond the edge of
 the box in ConvertIndices

---
 render/halo/finder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 880d77d..7211337 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -33,11 +33,11 @@ func (b *Bounds) SphereBounds(pos [3]float64, r, cw, width float64) {
 // ConvertIndices converts non-periodic indices to periodic indices.
 func (b *Bounds) ConvertIndices(x, y, z, width int) (bx, by, bz int) {
 	bx = x - b.Origin[0]
-	if bx < 0 { bx += width }
+	if bx < 0 { bx += width } else if bx >= width { bx -= width }
 	by = y - b.Origin[1]
-	if by < 0 { by += width }
+	if by < 0 { by += width } else if by >= width { by -= width }
 	bz = z - b.Origin[2]
-	if bz < 0 { bz += width }
+	if bz < 0 { bz += width } else if bz >= width { bz -= width }
 	return bx, by, bz
 }
 
-- 
2.43.0


From f2d3de0aebb32dec470579f205ba8f6837944f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:57 +0000
Subject: [PATCH 83/85] fix: convert every snapshot when IterationEnd is not
 set

---
 render/main/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index b013bf4..37cdc6d 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -248,7 +248,10 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 
 	// If the user supplied format strings for iterated output, loop over the
 	// iteration range. Otherwise, just use the supplied snapshot.
-	for i := con.IterationStart; i <= con.IterationEnd; i++ {
+	//
+	// If IterationEnd isn't set, iterate until an invalid directory is found.
+	unlimited := !con.ValidIterationEnd()
+	for i := con.IterationStart; unlimited || i <= con.IterationEnd; i++ {
 		input, output := con.Input, con.Output
 		if con.ValidIteratedInput() {
 			input = fmt.Sprintf(con.IteratedInput, i)
@@ -256,6 +259,7 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 		}
 
 		infos, err := ioutil.ReadDir(input)
+		if err != nil && unlimited && i > con.IterationStart { return }
 		if err != nil { log.Fatal(err.Error()) }
 		files := make([]string, len(infos))
 		
-- 
2.43.0


From 98eac10f3117160da28c46be865a57a9142a5fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:57 +0000
Subject: [PATCH 84/85] fix: refuse histogram configurations without quantity,
 bins or grid file

---
 render/main/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 37cdc6d..258ac5d 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -157,6 +157,13 @@ func main() {
 		} else if !con.ValidHistMin() || !con.ValidHistMax() {
 			log.Fatalf("Invalid ('HistMin', 'HistMax'), (%g, %g).",
 				con.HistMin, con.HistMax)
+		} else if !con.ValidQuantity() {
+			log.Fatalf("Invalid 'Quantity' value, %s.", con.Quantity)
+		} else if !con.ValidHistBins() {
+			log.Fatalf("Invalid 'HistBins' value, %d.", con.HistBins)
+		} else if !con.ValidGridFile() {
+			log.Fatalf("Invalid/non-existent 'GridFile' value, %s.",
+				con.GridFile)
 		}
 
 		bounds := flag.Args()
-- 
2.43.0


From 1b305cf76ae302e45ad13b9c399772525b75ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:01 +0000
Subject: [PATCH 85/85] fix: refuse histogram configurations without particles

---
 render/io/config.go | 4 ++++
 render/main/main.go | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index c6ee7c2..369a457 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -599,6 +599,10 @@ func (con *TetraHistConfig) ValidHistBins() bool {
 	return con.HistBins > 0
 }
 
+func (con *TetraHistConfig) ValidParticles() bool {
+	return con.Particles > 0
+}
+
 func (con *TetraHistConfig) ValidHistScale() bool {
 	return con.HistScale == "Linear" || con.HistScale == "Log"
 }
diff --git a/render/main/main.go b/render/main/main.go
index 258ac5d..2fe8b89 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -161,6 +161,8 @@ func main() {
 			log.Fatalf("Invalid 'Quantity' value, %s.", con.Quantity)
 		} else if !con.ValidHistBins() {
 			log.Fatalf("Invalid 'HistBins' value, %d.", con.HistBins)
+		} else if !con.ValidParticles() {
+			log.Fatalf("Invalid 'Particles' value, %d.", con.Particles)
 		} else if !con.ValidGridFile() {
 			log.Fatalf("Invalid/non-existent 'GridFile' value, %s.",
 				con.GridFile)
-- 
2.43.0

