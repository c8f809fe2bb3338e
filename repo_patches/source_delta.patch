From 59f7ce6a5ef97ebea0a2973d2d52fa63fccd5580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 01/21] fix: matrices own their shape

The slice given as shape was kept by the new matrix, so that a matrix made
"with the shape of" another one shared its dimensions with it: transposing or
reshaping one in place (as Softmax does with a row vector) silently changed
the other. The backward pass of Softmax now checks the gradient against the
function's result and gives the operand a gradient of the operand's shape.
---
 mat/dense.go          | 2 +-
 mat/dense_new.go      | 2 +-
 mat/gradfn/softmax.go | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mat/dense.go b/mat/dense.go
index a6f9e72..2ca6b53 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -33,7 +33,7 @@ func makeDense[T float.DType](array []T, shape ...int) *Dense[T] {
 		log.Fatalf("mat: incompatible size, expected %d, actual %d", calculateSize(shape), len(array))
 	}
 	return &Dense[T]{
-		shape: shape,
+		shape: append([]int(nil), shape...),
 		data:  array,
 	}
 }
diff --git a/mat/dense_new.go b/mat/dense_new.go
index 7ce9bf2..cf0402e 100644
--- a/mat/dense_new.go
+++ b/mat/dense_new.go
@@ -128,7 +128,7 @@ func adjustShape(shape ...int) []int {
 	if len(shape) == 1 {
 		return []int{shape[0], 1}
 	}
-	return shape
+	return append([]int(nil), shape...)
 }
 
 func newScalar[T float.DType](value T, opts ...OptionsFunc) (*Dense[T], error) {
diff --git a/mat/gradfn/softmax.go b/mat/gradfn/softmax.go
index cc4060c..3ffea66 100644
--- a/mat/gradfn/softmax.go
+++ b/mat/gradfn/softmax.go
@@ -36,7 +36,7 @@ func (r *Softmax[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Softmax[O]) Backward(gy mat.Tensor) error {
-	if !mat.SameDims(r.x.Value(), gy) {
+	if !mat.SameDims(r.y, gy) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
@@ -50,7 +50,7 @@ func (r *Softmax[O]) Backward(gy mat.Tensor) error {
 			vCol := y.ScalarAt(col).F64()
 			return -(vRow * vCol)
 		})))
-		gx := jb.Mul(gy.(mat.Matrix))
+		gx := jb.Mul(gy.(mat.Matrix)).ReshapeInPlace(r.x.Value().Shape()...)
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From aeab700b624e12396d9fbac8881417e88bf7869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 02/21] fix: Copy delivers a gradient only to an operand which
 requires it

---
 mat/gradfn/identity.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mat/gradfn/identity.go b/mat/gradfn/identity.go
index 838c5f8..65755b9 100644
--- a/mat/gradfn/identity.go
+++ b/mat/gradfn/identity.go
@@ -38,6 +38,8 @@ func (r *Copy[O]) Backward(gy mat.Tensor) error {
 	if !mat.SameDims(r.x.Value(), gy) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
-	r.x.AccGrad(gy)
+	if r.x.RequiresGrad() {
+		r.x.AccGrad(gy)
+	}
 	return nil
 }
-- 
2.43.0


From f5cc241efd3d676266637c01ba48ee3e4d142c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 03/21] fix: gradients have the shape of the operand they
 belong to
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

ReduceSum, ReduceMean, Max and Min gave a matrix operand a size×1 gradient,
Concat gave a row vector a column vector.
---
 mat/gradfn/concat.go     | 2 +-
 mat/gradfn/max.go        | 4 ++--
 mat/gradfn/min.go        | 4 ++--
 mat/gradfn/reducemean.go | 2 +-
 mat/gradfn/reducesum.go  | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mat/gradfn/concat.go b/mat/gradfn/concat.go
index 2c51eb6..79d7f8f 100644
--- a/mat/gradfn/concat.go
+++ b/mat/gradfn/concat.go
@@ -56,7 +56,7 @@ func (r *Concat[O]) Backward(gy mat.Tensor) error {
 	xs := r.xs
 	for i, gx := range gy.(mat.Matrix).SplitV(sizes...) {
 		if xs[i].RequiresGrad() {
-			xs[i].AccGrad(gx)
+			xs[i].AccGrad(gx.ReshapeInPlace(xs[i].Value().Shape()...))
 		}
 	}
 	return nil
diff --git a/mat/gradfn/max.go b/mat/gradfn/max.go
index 679b574..df37cd8 100644
--- a/mat/gradfn/max.go
+++ b/mat/gradfn/max.go
@@ -56,7 +56,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 
diff --git a/mat/gradfn/min.go b/mat/gradfn/min.go
index aee4a76..b8c2f73 100644
--- a/mat/gradfn/min.go
+++ b/mat/gradfn/min.go
@@ -56,7 +56,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducemean.go b/mat/gradfn/reducemean.go
index 142a6fc..dd8c570 100644
--- a/mat/gradfn/reducemean.go
+++ b/mat/gradfn/reducemean.go
@@ -42,7 +42,7 @@ func (r *ReduceMean[O]) Backward(gy mat.Tensor) error {
 		x := r.x.Value().(mat.Matrix)
 		size := x.Size()
 		v := gy.Item().F64() / float64(size)
-		gx := x.NewMatrix(mat.WithShape(size), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
+		gx := x.NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
 		r.x.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducesum.go b/mat/gradfn/reducesum.go
index 7c186a4..51b8927 100644
--- a/mat/gradfn/reducesum.go
+++ b/mat/gradfn/reducesum.go
@@ -39,7 +39,7 @@ func (r *ReduceSum[O]) Backward(gy mat.Tensor) error {
 	}
 	if r.x.RequiresGrad() {
 		x := r.x.Value()
-		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Size()), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
+		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From a885c16d0d73d67decb868f8511c21a03a973184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 04/21] fix: RotateR accepts a rotation by zero or by all
 places

rotate asked for an empty slice past the end, which Slice refuses: the forward
pass panicked for i = 0 and the backward pass for i = size.
---
 mat/gradfn/rotater.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mat/gradfn/rotater.go b/mat/gradfn/rotater.go
index b52ce2f..6fcd525 100644
--- a/mat/gradfn/rotater.go
+++ b/mat/gradfn/rotater.go
@@ -43,6 +43,9 @@ func (r *RotateR[O]) Backward(gy mat.Tensor) error {
 
 func rotate(m mat.Matrix, i int) mat.Matrix {
 	size := m.Size()
+	if i == size {
+		i = 0 // a full turn
+	}
 	left := m.Slice(0, 0, i, 1)
 	right := m.Slice(i, 0, size, 1)
 	return m.NewConcatV(right, left)
-- 
2.43.0


From d5b8fa959c38e3191df5019a3af5bcf9f4bcadf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 05/21] fix: backward pass of SparseMax on matrices

The forward pass accepts any matrix; the backward pass panicked unless it was
a column vector.
---
 mat/gradfn/sparsemax.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/mat/gradfn/sparsemax.go b/mat/gradfn/sparsemax.go
index 8c8a85e..70f5723 100644
--- a/mat/gradfn/sparsemax.go
+++ b/mat/gradfn/sparsemax.go
@@ -8,7 +8,6 @@ import (
 	"sort"
 
 	"github.com/nlpodyssey/spago/mat"
-	"github.com/nlpodyssey/spago/mat/float"
 )
 
 // SparseMax function implementation, based on https://github.com/gokceneraslan/SparseMax.torch
@@ -48,20 +47,27 @@ func (r *SparseMax[O]) Forward() (mat.Tensor, error) {
 // Backward computes the backward pass.
 func (r *SparseMax[O]) Backward(gy mat.Tensor) error {
 	if r.x.RequiresGrad() {
+		yData := r.y.Data().F64()
+		gyData := gy.Data().F64()
+
 		var nzSum float64
 		var nzCount float64
-		r.y.DoVecNonZero(func(i int, _ float64) {
-			nzSum += gy.(mat.Matrix).ScalarAt(i).F64()
-			nzCount++
-		})
+		for i, v := range yData {
+			if v != 0 {
+				nzSum += gyData[i]
+				nzCount++
+			}
+		}
 		nzSum = nzSum / nzCount
 
-		gx := r.x.Value().(mat.Matrix).ZerosLike()
-		r.y.DoVecNonZero(func(i int, _ float64) {
-			gyi := gy.(mat.Matrix).ScalarAt(i).F64()
-			gx.SetScalar(float.Interface(gyi-nzSum), i)
-		})
+		gxData := make([]float64, len(yData))
+		for i, v := range yData {
+			if v != 0 {
+				gxData[i] = gyData[i] - nzSum
+			}
+		}
 
+		gx := r.y.NewMatrix(mat.WithShape(r.y.Shape()...), mat.WithBacking(gxData))
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From ce6f7879a8fb178b639f623626c7c2d94fe2725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 06/21] fix: SparseMax clips its result to a probability

It was clipped to the maximum of the input, which is unrelated: with all the
inputs below one the result did not sum to one, below zero it was negative.
---
 mat/gradfn/sparsemax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/sparsemax.go b/mat/gradfn/sparsemax.go
index 70f5723..26057cc 100644
--- a/mat/gradfn/sparsemax.go
+++ b/mat/gradfn/sparsemax.go
@@ -38,7 +38,7 @@ func (r *SparseMax[O]) Forward() (mat.Tensor, error) {
 
 	_, _, _, tau := sparseMaxCommon(v)
 
-	v.SubScalarInPlace(tau).ClipInPlace(0, xMax)
+	v.SubScalarInPlace(tau).ClipInPlace(0, 1)
 
 	r.y = v
 	return v, nil
-- 
2.43.0


From 0639d6d428e1bd21a9fa1a620dc2e232371a5cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 07/21] fix: gradient of SwishB's beta when x is a matrix

---
 mat/gradfn/swishb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/swishb.go b/mat/gradfn/swishb.go
index 4f74250..aea678b 100644
--- a/mat/gradfn/swishb.go
+++ b/mat/gradfn/swishb.go
@@ -51,10 +51,10 @@ func (r *SwishB[O]) Backward(gy mat.Tensor) error {
 	if r.beta.RequiresGrad() {
 		gb := r.beta.Value().(mat.Matrix).ZerosLike()
 		// FIXME: avoid casting to specific type
+		gyData := gy.Data().F64()
 		for i, x := range r.x.Value().Data().F64() {
 			deriv := swishBBetaDeriv(x, r.beta.Value().Item().F64())
-			gyi := gy.(mat.Matrix).ScalarAt(i).F64()
-			gb.AddScalarInPlace(deriv * gyi)
+			gb.AddScalarInPlace(deriv * gyData[i])
 		}
 		r.beta.AccGrad(gb)
 	}
-- 
2.43.0


From 487902a2f0bcaa6253811249330d2c2cec79878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 08/21] fix: maxima of negative values, windows of MaxPooling

ScalarMax and MaxPooling started from (nearly) zero, so that they did not find
the maximum of negative values; MaxPooling computed the width of its windows
from their height.
---
 mat/gradfn/maxpooling.go | 4 ++--
 mat/gradfn/scalarmax.go  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/mat/gradfn/maxpooling.go b/mat/gradfn/maxpooling.go
index 978edc2..9d36e97 100644
--- a/mat/gradfn/maxpooling.go
+++ b/mat/gradfn/maxpooling.go
@@ -52,11 +52,11 @@ func (r *MaxPooling[O]) Forward() (mat.Tensor, error) {
 
 	for row := 0; row < r.y.Shape()[0]; row++ {
 		for col := 0; col < r.y.Shape()[1]; col++ {
-			maximum := math.SmallestNonzeroFloat64
+			maximum := math.Inf(-1)
 
 			maxRows := (row * r.rows) + r.rows
 			for i := row * r.rows; i < maxRows; i++ {
-				maxCols := (col * r.cols) + r.rows
+				maxCols := (col * r.cols) + r.cols
 				for j := col * r.cols; j < maxCols; j++ {
 					// FIXME: avoid casting to specific type
 					val := xv.ScalarAt(i, j).F64()
diff --git a/mat/gradfn/scalarmax.go b/mat/gradfn/scalarmax.go
index 3de6fd9..b4601a7 100644
--- a/mat/gradfn/scalarmax.go
+++ b/mat/gradfn/scalarmax.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -32,8 +33,8 @@ func (r *ScalarMax[O]) Forward() (mat.Tensor, error) {
 	if len(r.xs) == 0 {
 		panic("fn: ScalarMax has no operands")
 	}
-	var max float64
-	var argmax int
+	max := math.Inf(-1)
+	argmax := 0
 	for i, x := range r.xs {
 		// FIXME: avoid casting to specific type
 		val := x.Value().Item().F64()
-- 
2.43.0


From 282f4358ab91f7afb2abb8598281c200e26a3b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 09/21] fix: activation functions give their parameters a
 gradient

CELU, ELU, LeakyReLU, SELU, SoftPlus, SoftShrink and Threshold declare their
parameters as operands without ever giving them a gradient: where one
requires it, the backward pass waited for it forever.
---
 mat/gradfn/celu.go       |  5 +++
 mat/gradfn/elu.go        |  5 +++
 mat/gradfn/leakyrelu.go  |  5 +++
 mat/gradfn/misc.go       | 74 ++++++++++++++++++++++++++++++++++++++++
 mat/gradfn/selu.go       | 10 ++++++
 mat/gradfn/softplus.go   |  9 +++++
 mat/gradfn/softshrink.go |  5 +++
 mat/gradfn/threshold.go  |  9 +++++
 8 files changed, 122 insertions(+)

diff --git a/mat/gradfn/celu.go b/mat/gradfn/celu.go
index be3fe0e..c874c48 100644
--- a/mat/gradfn/celu.go
+++ b/mat/gradfn/celu.go
@@ -45,5 +45,10 @@ func (r *CELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.alpha.RequiresGrad() {
+		g := r.x.Value().(mat.Matrix).ApplyWithAlpha(celuAlphaDeriv, r.alpha.Value().Item().F64())
+		g.ProdInPlace(gy.(mat.Matrix))
+		r.alpha.AccGrad(g.Sum())
+	}
 	return nil
 }
diff --git a/mat/gradfn/elu.go b/mat/gradfn/elu.go
index cc38b81..26edaa9 100644
--- a/mat/gradfn/elu.go
+++ b/mat/gradfn/elu.go
@@ -46,5 +46,10 @@ func (r *ELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.alpha.RequiresGrad() {
+		g := r.x.Value().(mat.Matrix).ApplyWithAlpha(eluAlphaDeriv, r.alpha.Value().Item().F64())
+		g.ProdInPlace(gy.(mat.Matrix))
+		r.alpha.AccGrad(g.Sum())
+	}
 	return nil
 }
diff --git a/mat/gradfn/leakyrelu.go b/mat/gradfn/leakyrelu.go
index 4899f43..5c78f9f 100644
--- a/mat/gradfn/leakyrelu.go
+++ b/mat/gradfn/leakyrelu.go
@@ -45,5 +45,10 @@ func (r *LeakyReLU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.alpha.RequiresGrad() {
+		g := r.x.Value().(mat.Matrix).ApplyWithAlpha(leakyReLUAlphaDeriv, r.alpha.Value().Item().F64())
+		g.ProdInPlace(gy.(mat.Matrix))
+		r.alpha.AccGrad(g.Sum())
+	}
 	return nil
 }
diff --git a/mat/gradfn/misc.go b/mat/gradfn/misc.go
index 6271685..a5dfb75 100644
--- a/mat/gradfn/misc.go
+++ b/mat/gradfn/misc.go
@@ -329,6 +329,15 @@ func celuDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+// celuAlphaDeriv is the derivative of celu with respect to alpha.
+func celuAlphaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	if v <= 0 {
+		q := v / alpha[0]
+		return math.Exp(q)*(1-q) - 1
+	}
+	return 0
+}
+
 func elu(_, _ int, v float64, alpha ...float64) float64 {
 	if v <= 0 {
 		return alpha[0] * (math.Exp(v) - 1)
@@ -349,6 +358,14 @@ func eluDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+// eluAlphaDeriv is the derivative of elu with respect to alpha.
+func eluAlphaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	if v <= 0 {
+		return math.Exp(v) - 1
+	}
+	return 0
+}
+
 func leakyReLU(_, _ int, v float64, alpha ...float64) float64 {
 	if v <= 0 {
 		return alpha[0] * v // slope * v
@@ -369,6 +386,14 @@ func leakyReLUDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+// leakyReLUAlphaDeriv is the derivative of leakyReLU with respect to alpha.
+func leakyReLUAlphaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	if v <= 0 {
+		return v
+	}
+	return 0
+}
+
 // alpha[0] is the alpha
 // alpha[1] is the scale
 func selu(_, _ int, v float64, alpha ...float64) float64 {
@@ -395,6 +420,23 @@ func seluDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+// seluAlphaDeriv is the derivative of selu with respect to alpha.
+func seluAlphaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	scale := alpha[1]
+	if v <= 0 {
+		return scale * (math.Exp(v) - 1)
+	}
+	return 0
+}
+
+// seluScaleDeriv is the derivative of selu with respect to scale.
+func seluScaleDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	if v <= 0 {
+		return alpha[0] * (math.Exp(v) - 1)
+	}
+	return v
+}
+
 func softPlus(_, _ int, v float64, alpha ...float64) float64 {
 	threshold := alpha[1]
 	beta := alpha[0]
@@ -420,6 +462,17 @@ func softPlusDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+// softPlusBetaDeriv is the derivative of softPlus with respect to beta.
+func softPlusBetaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	threshold := alpha[1]
+	beta := alpha[0]
+	if v <= threshold {
+		exp := math.Exp(v * beta)
+		return (v*exp/(exp+1) - math.Log(1+exp)/beta) / beta
+	}
+	return 0
+}
+
 func softShrink(_, _ int, v float64, alpha ...float64) float64 {
 	lambda := alpha[0]
 	if v < -lambda {
@@ -442,6 +495,18 @@ func softShrinkDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+// softShrinkLambdaDeriv is the derivative of softShrink with respect to lambda.
+func softShrinkLambdaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	lambda := alpha[0]
+	if v < -lambda {
+		return 1
+	}
+	if v > lambda {
+		return -1
+	}
+	return 0
+}
+
 func threshold(_, _ int, v float64, alpha ...float64) float64 {
 	value := alpha[1]
 	t := alpha[0]
@@ -465,6 +530,15 @@ func thresholdDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+// thresholdKDeriv is the derivative of threshold with respect to k.
+func thresholdKDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	t := alpha[0]
+	if v <= t {
+		return 1
+	}
+	return 0
+}
+
 func swishB(_, _ int, v float64, beta ...float64) float64 {
 	return v * (1.0 / (1 + math.Exp(beta[0]*-v)))
 }
diff --git a/mat/gradfn/selu.go b/mat/gradfn/selu.go
index 27a0555..dbf3ad8 100644
--- a/mat/gradfn/selu.go
+++ b/mat/gradfn/selu.go
@@ -54,5 +54,15 @@ func (r *SELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.alpha.RequiresGrad() {
+		g := r.x.Value().(mat.Matrix).ApplyWithAlpha(seluAlphaDeriv, r.alpha.Value().Item().F64(), r.scale.Value().Item().F64())
+		g.ProdInPlace(gy.(mat.Matrix))
+		r.alpha.AccGrad(g.Sum())
+	}
+	if r.scale.RequiresGrad() {
+		g := r.x.Value().(mat.Matrix).ApplyWithAlpha(seluScaleDeriv, r.alpha.Value().Item().F64(), r.scale.Value().Item().F64())
+		g.ProdInPlace(gy.(mat.Matrix))
+		r.scale.AccGrad(g.Sum())
+	}
 	return nil
 }
diff --git a/mat/gradfn/softplus.go b/mat/gradfn/softplus.go
index 75008f8..6fba7c2 100644
--- a/mat/gradfn/softplus.go
+++ b/mat/gradfn/softplus.go
@@ -54,5 +54,14 @@ func (r *SoftPlus[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.beta.RequiresGrad() {
+		g := r.x.Value().(mat.Matrix).ApplyWithAlpha(softPlusBetaDeriv, r.beta.Value().Item().F64(), r.threshold.Value().Item().F64())
+		g.ProdInPlace(gy.(mat.Matrix))
+		r.beta.AccGrad(g.Sum())
+	}
+	if r.threshold.RequiresGrad() {
+		// the function is constant in the neighborhood of almost every threshold
+		r.threshold.AccGrad(r.threshold.Value().(mat.Matrix).ZerosLike())
+	}
 	return nil
 }
diff --git a/mat/gradfn/softshrink.go b/mat/gradfn/softshrink.go
index ebfa3e9..a9e035b 100644
--- a/mat/gradfn/softshrink.go
+++ b/mat/gradfn/softshrink.go
@@ -44,5 +44,10 @@ func (r *SoftShrink[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.lambda.RequiresGrad() {
+		g := r.x.Value().(mat.Matrix).ApplyWithAlpha(softShrinkLambdaDeriv, r.lambda.Value().Item().F64())
+		g.ProdInPlace(gy.(mat.Matrix))
+		r.lambda.AccGrad(g.Sum())
+	}
 	return nil
 }
diff --git a/mat/gradfn/threshold.go b/mat/gradfn/threshold.go
index 16a42b4..3a91315 100644
--- a/mat/gradfn/threshold.go
+++ b/mat/gradfn/threshold.go
@@ -55,5 +55,14 @@ func (r *Threshold[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.threshold.RequiresGrad() {
+		// the function is constant in the neighborhood of almost every threshold
+		r.threshold.AccGrad(r.threshold.Value().(mat.Matrix).ZerosLike())
+	}
+	if r.k.RequiresGrad() {
+		g := r.x.Value().(mat.Matrix).ApplyWithAlpha(thresholdKDeriv, r.threshold.Value().Item().F64(), r.k.Value().Item().F64())
+		g.ProdInPlace(gy.(mat.Matrix))
+		r.k.AccGrad(g.Sum())
+	}
 	return nil
 }
-- 
2.43.0


From 115b8f744525fe1907667ae105f44f87278650a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 10/21] fix: a backward pass that fails leaves the graph as it
 was

---
 ag/backward.go | 11 ++++++++---
 ag/operator.go | 22 +++++++++++-----------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/ag/backward.go b/ag/backward.go
index 484a0f3..ea4d04c 100644
--- a/ag/backward.go
+++ b/ag/backward.go
@@ -26,6 +26,13 @@ func Backward(xs ...mat.Tensor) error {
 		return nil
 	}
 
+	// Fail before the state of any operator changes, so that another backward pass can follow.
+	for _, op := range ops {
+		if err := op.checkOutputGradient(); err != nil {
+			return err
+		}
+	}
+
 	// The three for loops below are intentionally executed in sequence.
 	// These steps must occur in this order, so the loops cannot be combined due to their sequential dependencies.
 
@@ -36,9 +43,7 @@ func Backward(xs ...mat.Tensor) error {
 
 	// 2. Assign the output gradients for each operator.
 	for _, op := range ops {
-		if err := op.assignOutputGradient(); err != nil {
-			return err
-		}
+		op.assignOutputGradient()
 	}
 
 	// 3. Process the backward pass for each operator in parallel using wait groups.
diff --git a/ag/operator.go b/ag/operator.go
index 49e2ce4..e013f94 100644
--- a/ag/operator.go
+++ b/ag/operator.go
@@ -233,20 +233,20 @@ func (o *Operator) AccGrad(grad mat.Tensor) {
 	}
 }
 
-func (o *Operator) assignOutputGradient() error {
-	grad := o.Value().Grad()
-
-	if !isNil(grad) {
-		o.pendingGrads--
-		return nil
+// checkOutputGradient returns an error if the operator has no gradients and none can be assigned to it.
+func (o *Operator) checkOutputGradient() error {
+	if isNil(o.Value().Grad()) && o.Value().Size() != 1 {
+		return fmt.Errorf("ag: missing gradient for %v", o)
 	}
+	return nil
+}
 
-	if o.Value().Size() == 1 {
-		o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
-		return nil
+func (o *Operator) assignOutputGradient() {
+	if !isNil(o.Value().Grad()) {
+		o.pendingGrads--
+		return
 	}
-
-	return fmt.Errorf("ag: missing gradient for %v", o)
+	o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
 }
 
 func (o *Operator) prepareBackwardPass() {
-- 
2.43.0


From eba6643abfe98df0f97cf502755ff70dfa558aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 11/21] fix: Optimize waits for all the updates

---
 optimizers/optimizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optimizers/optimizer.go b/optimizers/optimizer.go
index 2da4d08..6ffae54 100644
--- a/optimizers/optimizer.go
+++ b/optimizers/optimizer.go
@@ -68,6 +68,7 @@ func (o *Optimizer) Optimize() error {
 		}
 	}
 
+	wg.Wait() // Wait for running goroutines to finish
 	close(errCh)
 
 	if err, ok := <-errCh; ok {
-- 
2.43.0


From d4f5f15887804ee1ac4991768af2c9ee19ffe36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 12/21] fix: embeddings are traversed under their lock and in a
 fixed order

---
 nn/embedding/model.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nn/embedding/model.go b/nn/embedding/model.go
index 4370535..25fbae7 100644
--- a/nn/embedding/model.go
+++ b/nn/embedding/model.go
@@ -7,6 +7,7 @@ package embedding
 import (
 	"encoding/gob"
 	"log"
+	"sort"
 	"sync"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -49,11 +50,23 @@ func New[T float.DType](size int, dim int) *Model {
 
 // TraverseParams allows embeddings with gradients to be traversed for optimization.
 func (m *Model) TraverseParams(callback func(param *nn.Param)) {
-	for idx := range m.embedGradIdx {
+	for _, idx := range m.indicesWithGrad() {
 		callback(m.Weights[idx])
 	}
 }
 
+// indicesWithGrad returns the indices of the embeddings with gradients, in ascending order.
+func (m *Model) indicesWithGrad() []int {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	indices := make([]int, 0, len(m.embedGradIdx))
+	for idx := range m.embedGradIdx {
+		indices = append(indices, idx)
+	}
+	sort.Ints(indices)
+	return indices
+}
+
 func (m *Model) Embedding(idx int) (*Embedding, error) {
 	if idx < 0 || idx >= m.Size {
 		return nil, nn.ErrInvalidIndex
-- 
2.43.0


From ec57a4ff16b8c5922c3938f8b7cf08ae4d3d1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 13/21] fix: Range and SplitV reject indices behind the last
 element

---
 mat/dense.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mat/dense.go b/mat/dense.go
index 2ca6b53..6d23bbd 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1149,6 +1149,9 @@ func (d *Dense[T]) Range(start, end int) Matrix {
 	if end < 0 || start < 0 {
 		panic("mat: negative values for range indices are not allowed")
 	}
+	if end > len(d.data) {
+		panic("mat: range indices out of bounds")
+	}
 	return NewDense[T](WithBacking(copySlice(d.data[start:end])))
 }
 
@@ -1169,7 +1172,7 @@ func (d *Dense[T]) SplitV(sizes ...int) []Matrix {
 		}
 		startIndex := offset
 		offset = startIndex + size
-		if startIndex >= len(d.data) && offset > startIndex {
+		if offset > len(d.data) {
 			panic("mat: sizes out of bounds")
 		}
 		out[i] = NewDense[T](WithBacking(copySlice(d.data[startIndex:offset])))
-- 
2.43.0


From b802d4d378f99668a46dd98dc0ee7105fd717a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 14/21] fix: Log of float32 zeros is -Inf in every block, the
 last included

---
 mat/internal/matfuncs/log_amd64.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/mat/internal/matfuncs/log_amd64.go b/mat/internal/matfuncs/log_amd64.go
index 90e718c..cc45772 100644
--- a/mat/internal/matfuncs/log_amd64.go
+++ b/mat/internal/matfuncs/log_amd64.go
@@ -21,15 +21,13 @@ func Log32(x, y []float32) {
 			LogAVX32(x[i:], y[i:])
 		}
 
-		if max > 0 {
-			for i, v := range x[:max+1] {
-				if v == 0.0 {
-					y[i] = float32(math.Inf(-1))
-				}
+		mod := len(x) % 8
+		for i, v := range x[:len(x)-mod] {
+			if v == 0.0 {
+				y[i] = float32(math.Inf(-1))
 			}
 		}
 
-		mod := len(x) % 8
 		if mod > 0 {
 			tailStart := len(x) - mod
 			log(x[tailStart:], y[tailStart:])
@@ -43,15 +41,13 @@ func Log32(x, y []float32) {
 		LogSSE32(x[i:], y[i:])
 	}
 
-	if max > 0 {
-		for i, v := range x[:max+1] {
-			if v == 0.0 {
-				y[i] = float32(math.Inf(-1))
-			}
+	mod := len(x) % 4
+	for i, v := range x[:len(x)-mod] {
+		if v == 0.0 {
+			y[i] = float32(math.Inf(-1))
 		}
 	}
 
-	mod := len(x) % 4
 	if mod > 0 {
 		tailStart := len(x) - mod
 		log(x[tailStart:], y[tailStart:])
-- 
2.43.0


From 829b16cb681fbf293c3c25f20578ccd2eda20b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 15/21] fix: gradient clipping skips parameters without a
 gradient

Gradients are accumulated only where the backward pass reaches; a parameter
without one made ClipGrads and ClipGradients panic on a nil matrix, while
Optimize skips it.
---
 optimizers/gradclipper/clipper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optimizers/gradclipper/clipper.go b/optimizers/gradclipper/clipper.go
index 95ee09a..2512c06 100644
--- a/optimizers/gradclipper/clipper.go
+++ b/optimizers/gradclipper/clipper.go
@@ -82,6 +82,9 @@ func collectGradients(parameters nn.ParamChannelFunc) []mat.Tensor {
 
 	var allGrads []mat.Tensor
 	for param := range parameters(ctx) {
+		if !param.HasGrad() {
+			continue
+		}
 		allGrads = append(allGrads, param.Grad())
 	}
 	return allGrads
-- 
2.43.0


From c9651af9d2f64243a7caffa7f944f7103de3d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:28 +0000
Subject: [PATCH 16/21] fix: the norm of a vector sums the absolute values

Norm raised the elements themselves to the power, so that an odd power let
elements of opposite signs cancel out (Norm(1) of [-1 1] was 0).
---
 mat/dense.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/dense.go b/mat/dense.go
index 6d23bbd..d4396ce 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1297,7 +1297,7 @@ func (d *Dense[T]) norm(pow float64) float64 {
 	}
 	var s float64
 	for _, x := range d.data {
-		s += math.Pow(float64(x), pow)
+		s += math.Pow(math.Abs(float64(x)), pow)
 	}
 	return math.Pow(s, 1/pow)
 }
-- 
2.43.0


From a5516a27f77bfc3dd265c874317f9276abaac0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:39 +0000
Subject: [PATCH 17/21] fix: the S-LSTM projects the sentence state with V, not
 U, for the input activation

---
 nn/gnn/slstm/slstm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/gnn/slstm/slstm.go b/nn/gnn/slstm/slstm.go
index 27ceb12..f3e6724 100644
--- a/nn/gnn/slstm/slstm.go
+++ b/nn/gnn/slstm/slstm.go
@@ -185,7 +185,7 @@ func (m *Model) computeVg(s *State, prevG mat.Tensor) {
 	s.VfPrevG = ag.Mul(m.CellGate.V, prevG)
 	s.VsPrevG = ag.Mul(m.SentCellGate.V, prevG)
 	s.VoPrevG = ag.Mul(m.OutputGate.V, prevG)
-	s.VuPrevG = ag.Mul(m.InputActivation.U, prevG)
+	s.VuPrevG = ag.Mul(m.InputActivation.V, prevG)
 }
 
 func (m *Model) updateHiddenNodes(s *State, prevH []mat.Tensor, prevC []mat.Tensor, prevG mat.Tensor) ([]mat.Tensor, []mat.Tensor) {
-- 
2.43.0


From c6576df968959941b2b492192316a83f7987e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:04 +0000
Subject: [PATCH 18/21] fix: the causal mask leaves the cached keys visible to
 all queries

---
 nn/attention/attention.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nn/attention/attention.go b/nn/attention/attention.go
index 511f5a0..15371a6 100644
--- a/nn/attention/attention.go
+++ b/nn/attention/attention.go
@@ -23,6 +23,13 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 	causalMaskEnabled := useCausalMask && len(q) > 1
 	kRows := k.Value().Shape()[0]
 
+	// Keys that come before the first query (for example, from a cache) are
+	// visible to all queries.
+	past := kRows - len(q)
+	if past < 0 {
+		past = 0
+	}
+
 	kqi := make([]mat.Tensor, len(q))
 	for i, qi := range q {
 		kqi[i] = ag.Mul(k, qi)
@@ -32,7 +39,7 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 		scores := ag.ProdScalar(kqii, scaleFactor)
 
 		if causalMaskEnabled {
-			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(i, kRows))) // TODO: use external cache for causal mask?
+			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(past+i, kRows))) // TODO: use external cache for causal mask?
 			scores = ag.Add(scores, causalMask)
 		}
 
-- 
2.43.0


From 7e1e283860520b097fe04b98026e2dfa17f690a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:00 +0000
Subject: [PATCH 19/21] fix: nn.Apply of an embedding model with gradients
 calls a nil callback

---
 nn/traversal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nn/traversal.go b/nn/traversal.go
index 90cb188..294bf74 100644
--- a/nn/traversal.go
+++ b/nn/traversal.go
@@ -30,7 +30,9 @@ type paramsTraversal struct {
 // walk iterates through all the parameters of m.
 func (pt paramsTraversal) walk(m any) {
 	if m, ok := m.(ParamsTraverser); ok {
-		m.TraverseParams(pt.paramsFunc)
+		if pt.paramsFunc != nil {
+			m.TraverseParams(pt.paramsFunc)
+		}
 		return
 	}
 	forEachField(m, func(field any, name string) {
-- 
2.43.0


From 29f85d0731a3a531d9fba7f92994fcfb8fb16887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 20/21] fix: gradients of the embeddings of a decoded model

---
 nn/embedding/embedding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nn/embedding/embedding.go b/nn/embedding/embedding.go
index 9652c70..51087ff 100644
--- a/nn/embedding/embedding.go
+++ b/nn/embedding/embedding.go
@@ -19,6 +19,9 @@ type Embedding struct {
 func (e *Embedding) AccGrad(gx mat.Tensor) {
 	e.m.mu.Lock()
 	defer e.m.mu.Unlock()
+	if e.m.embedGradIdx == nil { // the model has been decoded
+		e.m.embedGradIdx = make(map[int]struct{})
+	}
 	e.m.embedGradIdx[e.idx] = struct{}{}
 	e.Param.AccGrad(gx)
 }
-- 
2.43.0


From af144a6101849646728d79106fdc2809efe5f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:51 +0000
Subject: [PATCH 21/21] fix: zero can be among unique random numbers

GetUniqueRandomInt and GetUniqueRandomIndices looked for a number among
all the places of the result, so that the zeros of those not yet filled
made it refuse 0, forever if all of [0,max) were asked for.
---
 mat/rand/misc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index b6bf3ce..e94b47c 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -51,7 +51,7 @@ func GetUniqueRandomInt(n, max int, valid func(r int) bool) []int {
 	a := make([]int, n)
 	for i := 0; i < n; i++ {
 		r := rand.Intn(max) // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = rand.Intn(max) // Warning: use global rand
 		}
 		a[i] = r
@@ -67,7 +67,7 @@ func GetUniqueRandomIndices(n int, indices []int, valid func(r int) bool) []int
 		// The generic type is irrelevant, since the given generator is nil.
 		// TODO: ugly API of ShuffleInPlace to be refactored
 		r := ShuffleInPlace(indices, nil)[0] // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = ShuffleInPlace(indices, nil)[0] // Warning: use global rand
 		}
 		a[i] = r
-- 
2.43.0

