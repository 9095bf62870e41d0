From 14b3fa17dd660bb4a07cbe8c85ebf0793733179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 01/58] fix: match names in equations as whole factors

Terms were analysed with substring/regexp matching, so several valid
equations were silently evaluated wrongly: powers of one letter fields
(m*c^3), repeated factors (c*c), scalars placed alphabetically between
fields (a*k*b), scalars directly after LAP (LAP k*c), products with
registered functions (F*c, F^2) and names containing other names.
Combinations that still cannot be resolved now panic.
---
 pf/model.go      | 12 ++++--
 pf/rhsBuilder.go | 96 +++++++++++++++++++++++++++---------------------
 pf/util.go       | 55 +++++++++++++--------------
 3 files changed, 91 insertions(+), 72 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index 140d220..cc246b0 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -171,10 +171,14 @@ func (m *Model) UpdateDerivedFields(eq string) {
 	}
 
 	field := fieldNameFromLeibniz(strings.Split(eq, "=")[0])
-	fieldNames := make([]string, len(m.Fields))
-	for i := range m.Fields {
-		fieldNames[i] = m.Fields[i].Name
+	// Registered functions and other derived fields can enter in products together
+	// with the fields
+	fields := make([]Field, len(m.Fields), len(m.Fields)+len(m.DerivedFields))
+	copy(fields, m.Fields)
+	for _, f := range m.DerivedFields {
+		fields = append(fields, Field{Data: f.Data, Name: f.Name})
 	}
+	fieldNames := m.AllFieldNames()
 
 	for i := range splitted {
 		if m.IsUserDefinedTerm(splitted[i]) {
@@ -186,7 +190,7 @@ func (m *Model) UpdateDerivedFields(eq string) {
 			dField := DerivedField{
 				Data: make([]complex128, len(m.Fields[0].Data)),
 				Name: newFields,
-				Calc: DerivedFieldCalcFromDesc(newFields, m.Fields),
+				Calc: DerivedFieldCalcFromDesc(newFields, fields),
 			}
 			m.DerivedFields = append(m.DerivedFields, dField)
 			m.Bricks[newFields] = &dField
diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 16b2ca8..fbcda38 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -6,7 +6,6 @@ import (
 	"math"
 	"math/cmplx"
 	"regexp"
-	"strconv"
 	"strings"
 )
 
@@ -44,7 +43,7 @@ func Build(eq string, m *Model) RHS {
 			rhs.Denum = append(rhs.Denum, constructFunc(m.MixedTerms[name].ConstructLinear(m.Bricks), prefixes))
 			rhs.Terms = append(rhs.Terms, constructFunc(m.MixedTerms[name].ConstructNonLinear(m.Bricks), prefixes))
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
-			t.SubString = strings.Replace(t.SubString, field, "", -1)
+			t.SubString = removeField(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
@@ -65,44 +64,65 @@ func fieldNameFromLeibniz(leibniz string) string {
 	return leibniz[1 : len(leibniz)-3]
 }
 
+// splitTerm splits a term into its factors. Laplacian operators are removed from
+// the factors, and the total power of all laplacians in the term is returned as the
+// second value (0 if there are none).
+func splitTerm(term string) ([]string, int) {
+	lapReg := regexp.MustCompile("^LAP(\\^\\d+)?")
+	factors := []string{}
+	lapPower := 0
+	for _, factor := range strings.Split(strings.Replace(term, " ", "", -1), "*") {
+		for lap := lapReg.FindString(factor); lap != ""; lap = lapReg.FindString(factor) {
+			lapPower += int(GetPower(lap))
+			factor = factor[len(lap):]
+		}
+		if factor != "" {
+			factors = append(factors, factor)
+		}
+	}
+	return factors, lapPower
+}
+
+// factorName returns the name of a factor (e.g. without any power)
+func factorName(factor string) string {
+	return strings.Split(factor, "^")[0]
+}
+
 // isBilinear checks if the term given is bilinear in the passed field
 func isBilinear(term string, field string, fieldNames []string) bool {
-	fieldReg := regexp.MustCompile(field)
-	resCount := fieldReg.FindAllStringIndex(term, -1)
-	if len(resCount) != 1 {
-		return false
+	factors, _ := splitTerm(term)
+	count := 0
+	for _, factor := range factors {
+		name := factorName(factor)
+		if name == field {
+			if math.Abs(GetPower(factor)-1.0) > 1e-10 {
+				return false
+			}
+			count++
+		}
 	}
 
 	// Check if any of ther other fields are present. In that case, the term
 	// will not be linear in the fourier domain
 	for _, f := range fieldNames {
-		if f == field {
-			continue
-		}
-		r := regexp.MustCompile(f)
-		count := r.FindAllStringIndex(term, -1)
-		if len(count) > 0 {
+		if f != field && strings.Contains(term, f) {
 			return false
 		}
 	}
+	return count == 1
+}
 
-	// Match the field name until * or / is found
-	regIncludingPowers := regexp.MustCompile(field + "*[^/\\*]*")
-	res := regIncludingPowers.FindString(term)
-
-	// Extract an power (if exists) (the number after ^)
-	regPower := regexp.MustCompile("\\^(-?\\d+\\.?\\d*)")
-	strPower := regPower.FindStringSubmatch(res)
-	if len(strPower) <= 1 {
-		return true
-	}
-	power, err := strconv.ParseFloat(strPower[1], 64)
-
-	if err != nil || math.Abs(power-1.0) < 1e-10 {
-		// No power or equal to 1
-		return true
+// removeField removes the factor that corresponds to field from the term. Laplacian
+// operators preceeding the field are kept
+func removeField(term string, field string) string {
+	factors := strings.Split(term, "*")
+	for i, factor := range factors {
+		remaining, _ := splitTerm(factor)
+		if len(remaining) == 1 && factorName(remaining[0]) == field {
+			factors[i] = strings.TrimSuffix(factor, remaining[0])
+		}
 	}
-	return false
+	return strings.Join(factors, "*")
 }
 
 // ValidName returns true if the parser knows how to parse it
@@ -115,9 +135,7 @@ func ValidName(name string, model *Model) bool {
 		}
 	}
 
-	if nameStripped[:3] == "LAP" {
-		nameStripped = nameStripped[3:]
-	}
+	nameStripped = strings.TrimPrefix(nameStripped, "LAP")
 	return model.IsBrickName(nameStripped) || model.IsFieldName(nameStripped)
 }
 
@@ -129,19 +147,17 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 		sign = -1.0
 	}
 
-	fieldReg := regexp.MustCompile("[^\\*]*")
-	res := fieldReg.FindAllStringSubmatch(term, -1)
+	factors, lapPower := splitTerm(term)
 
 	brickNames := []string{}
 	powers := []float64{}
 
-	nameNoPow := regexp.MustCompile("^[^\\^]*")
-	for i := range res {
-		name := nameNoPow.FindString(res[i][0])
+	for _, factor := range factors {
+		name := factorName(factor)
 
 		if !m.IsFieldName(name) && m.IsBrickName(name) {
 			brickNames = append(brickNames, name)
-			powers = append(powers, GetPower(res[i][0]))
+			powers = append(powers, GetPower(factor))
 		} else if !ValidName(name, m) {
 			msg := fmt.Sprintf("rhsBuilder: Name %s is not defined!", name)
 			panic(msg)
@@ -150,11 +166,9 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 
 	fieldName := GetFieldName(SortFactors(term), m.AllFieldNames())
 
-	if strings.Contains(term, "LAP") {
+	if lapPower > 0 {
 		// Term with Laplace operator
-		lapWithPowReg := regexp.MustCompile("LAP*[^a-zA-Z]*")
-		res := lapWithPowReg.FindString(term)
-		lap := LaplacianN{Power: int(GetPower(res))}
+		lap := LaplacianN{Power: lapPower}
 		return func(freq Frequency, t float64, field []complex128) {
 			for i := range field {
 				field[i] = complex(sign, 0.0)
diff --git a/pf/util.go b/pf/util.go
index 20af17b..839ad9c 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -15,22 +15,19 @@ import (
 // GetNonLinearFieldExpressions returns constructions that must be FFT separateley. Note
 // that if the expression is bilinear in field, field is omitted from the returned expression
 func GetNonLinearFieldExpressions(pattern string, field string, fieldNames []string) string {
-	expr := ""
+	expr := []string{}
+	factors, _ := splitTerm(pattern)
 	for i := range fieldNames {
 		if fieldNames[i] == field && isBilinear(pattern, field, fieldNames) {
 			continue
 		}
-		regField := regexp.MustCompile(fieldNames[i] + "[^\\*]*")
-		res := regField.FindString(pattern)
-		if res != "" {
-			expr += res + "*"
+		for _, factor := range factors {
+			if factorName(factor) == fieldNames[i] {
+				expr = append(expr, factor)
+			}
 		}
 	}
-
-	if len(expr) > 1 {
-		return expr[:len(expr)-1]
-	}
-	return expr
+	return strings.Join(expr, "*")
 }
 
 // DerivedFieldCalcFromDesc returns a derived field calculator based on its description
@@ -79,28 +76,32 @@ func GetPower(pattern string) float64 {
 	return power
 }
 
-// GetFieldName returns the field name of a term.
+// GetFieldName returns the field name of a term. An empty string is returned if the
+// term contains no fields. The function panics if the term contains a combination of
+// fields that does not match any of the field names
 func GetFieldName(term string, fieldNames []string) string {
-	field := ""
-	for _, f := range fieldNames {
-		if strings.Contains(term, f) {
-			// Check that there are no other matches
-			withoutField := strings.Replace(term, f, "", -1)
-
-			ok := true
-			for _, f1 := range fieldNames {
-				if strings.Contains(withoutField, f1) {
-					ok = false
-					break
-				}
+	fieldFactors := []string{}
+	factors, _ := splitTerm(term)
+	for _, factor := range factors {
+		for _, f := range fieldNames {
+			if factorName(factor) == f {
+				fieldFactors = append(fieldFactors, factor)
+				break
 			}
+		}
+	}
 
-			if ok && len(f) > len(field) {
-				field = f
-			}
+	if len(fieldFactors) == 0 {
+		return ""
+	}
+
+	field := SortFactors(strings.Join(fieldFactors, "*"))
+	for _, f := range fieldNames {
+		if SortFactors(f) == field {
+			return f
 		}
 	}
-	return field
+	panic(fmt.Sprintf("util: The product %s is not a known field", field))
 }
 
 // RealPartAsUint8 return the real part of the field as uint8. The data is scaled
-- 
2.43.0


From 004686c5cef6fc0a2d4dbe790c98fe8f21b28939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:52 +0000
Subject: [PATCH 02/58] fix: order 3D FFT dimensions according to the node
 layout

Nodes in 3D are ordered as (depth, row, col), but the plan was created
with (row, col, depth). Transforms on non-cubic 3D domains were wrong.
---
 pfutil/fftWrap.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pfutil/fftWrap.go b/pfutil/fftWrap.go
index 6595fef..233f706 100644
--- a/pfutil/fftWrap.go
+++ b/pfutil/fftWrap.go
@@ -16,8 +16,15 @@ type FFTWWrapper struct {
 func NewFFTW(n []int) *FFTWWrapper {
 	var transform FFTWWrapper
 	transform.Data = make([]complex128, ProdInt(n))
-	transform.PlanFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, -1, fftw.MEASURE)
-	transform.PlanIFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, 1, fftw.MEASURE)
+
+	// FFTW expects the dimensions ordered from the slowest to the fastest varying
+	// index. In 3D, nodes are ordered as (depth, row, col) (see NodeIdx)
+	planDims := n
+	if len(n) == 3 {
+		planDims = []int{n[2], n[0], n[1]}
+	}
+	transform.PlanFFT = fftw.PlanZ2Z(planDims, transform.Data, transform.Data, -1, fftw.MEASURE)
+	transform.PlanIFFT = fftw.PlanZ2Z(planDims, transform.Data, transform.Data, 1, fftw.MEASURE)
 	transform.Dimensions = n
 	return &transform
 }
-- 
2.43.0


From 65a42a7910ed543d4398358840932fda4e0c02ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:19 +0000
Subject: [PATCH 03/58] fix: evaluate all equations at y_n in the Euler stepper

Fields were updated one by one, so equations of later fields were
evaluated with already updated earlier fields, contrary to the
documented scheme.
---
 pf/euler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pf/euler.go b/pf/euler.go
index 1730189..1ae6677 100644
--- a/pf/euler.go
+++ b/pf/euler.go
@@ -24,13 +24,20 @@ func (eu *Euler) Step(m *Model) {
 	}
 
 	t := eu.GetTime()
+
+	// Evaluate all equations before any of the fields are updated
+	rhs := make([][]complex128, len(m.Fields))
+	denum := make([][]complex128, len(m.Fields))
+	for i := range m.Fields {
+		rhs[i] = m.GetRHS(i, eu.FT.Freq, t)
+		denum[i] = m.GetDenum(i, eu.FT.Freq, t)
+	}
+
 	for i := range m.Fields {
-		rhs := m.GetRHS(i, eu.FT.Freq, t)
-		denum := m.GetDenum(i, eu.FT.Freq, t)
 		d := m.Fields[i].Data
 		// Apply semi implicit scheme
 		for j := range d {
-			d[j] = (d[j] + cDt*rhs[j]) / (complex(1.0, 0.0) - cDt*denum[j])
+			d[j] = (d[j] + cDt*rhs[i][j]) / (complex(1.0, 0.0) - cDt*denum[i][j])
 		}
 
 		if eu.Filter != nil {
-- 
2.43.0


From 20388097c7a303b48294583c18fa9126471d56b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 04/58] fix: advance time in RK4.Step and evaluate stages at
 their own time

The step counter was only advanced by RK4.Propagate, so time stood still
when RK4 was driven by a Solver (which calls Step). The intermediate stages
were evaluated at t instead of the documented t + factor*dt.
---
 pf/rk4.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index 72b1299..edb72f2 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -71,6 +71,7 @@ func (rk *RK4) Step(m *Model) {
 		rk.FT.IFFT(f.Data)
 		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))
 	}
+	rk.CurrentStep++
 }
 
 // PrepareNextCorrection updates the final fields and rests the fields of the model to the original
@@ -122,7 +123,7 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 	}
 
 	for i := range m.Fields {
-		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t)
+		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)
 	}
 }
 
@@ -130,7 +131,6 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 func (rk *RK4) Propagate(nsteps int, m *Model) {
 	for i := 0; i < nsteps; i++ {
 		rk.Step(m)
-		rk.CurrentStep++
 	}
 }
 
-- 
2.43.0


From a1be79251b9feda291d56a1cd4c24df0aefb1dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 05/58] fix: register every derived field of a term under its
 own brick

All bricks pointed at the loop variable, hence all names passed in one call
referred to the last derived field.
---
 pf/model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index cc246b0..89fec85 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -339,7 +339,8 @@ func (m *Model) registerTerm(name string, t PureTerm, dFields []DerivedField, te
 // RegisterDerivedFields adds a new set of derived fields to the model
 func (m *Model) registerDerivedFields(dFields []DerivedField) {
 	if dFields != nil {
-		for _, f := range dFields {
+		for i := range dFields {
+			f := dFields[i]
 			if !m.IsFieldName(f.Name) {
 				m.DerivedFields = append(m.DerivedFields, f)
 				m.Bricks[f.Name] = &f
-- 
2.43.0


From eadb32f210adb45d8b5e6062836414303db60120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:00 +0000
Subject: [PATCH 06/58] fix: let Scalar.SetFloat modify the scalar

The value receiver made SetFloat a no-op.
---
 pf/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 89fec85..aff4604 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -98,7 +98,7 @@ func NewScalar(name string, value complex128) Scalar {
 }
 
 // SetFloat sets a new value
-func (s Scalar) SetFloat(v float64) {
+func (s *Scalar) SetFloat(v float64) {
 	s.Value = complex(v, 0.0)
 }
 
-- 
2.43.0


From 104f9ea2ec760a4d2c56e4a1ac7c9893ab97ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:49 +0000
Subject: [PATCH 07/58] fix: no penalty force for even exponents in
 NegativeValuePenalty

Prefactor*(|x|^n - x^n) is identically zero for even n, but a non-zero
derivative was returned for negative values.
---
 pf/negative_value_penalty.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/negative_value_penalty.go b/pf/negative_value_penalty.go
index c6de7f5..1f90da0 100644
--- a/pf/negative_value_penalty.go
+++ b/pf/negative_value_penalty.go
@@ -13,7 +13,8 @@ type NegativeValuePenalty struct {
 
 // Penalty returns the derivative of the underlying function
 func (nvp *NegativeValuePenalty) Penalty(x float64) float64 {
-	if x > 0.0 {
+	// |x|^Exponent = x^Exponent for even exponents
+	if x > 0.0 || nvp.Exponent%2 == 0 {
 		return 0.0
 	}
 	p := float64(nvp.Exponent)
-- 
2.43.0


From 28a714912d79288017076c204f1f6cf42163ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 08/58] fix: apply Prefactor to the non-linear part of
 IdealMixtureTerm

Prefactor was only applied to the linear part and to the energy.
---
 pf/pairCorrelationTerm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/pairCorrelationTerm.go b/pf/pairCorrelationTerm.go
index 7ede0ff..96669ae 100644
--- a/pf/pairCorrelationTerm.go
+++ b/pf/pairCorrelationTerm.go
@@ -161,7 +161,7 @@ func (idt *IdealMixtureTerm) ConstructNonLinear(bricks map[string]Brick) Term {
 	return func(freq Frequency, t float64, field []complex128) {
 		if b, ok := bricks[idt.nonLinearDerivedFieldName()]; ok {
 			for i := range field {
-				field[i] = b.Get(i)
+				field[i] = complex(idt.Prefactor, 0.0) * b.Get(i)
 			}
 
 			if idt.Laplacian {
-- 
2.43.0


From 722973fc9ca9a25ac19037ddea0b3f4bbe052724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 09/58] fix: let Advection, DivGrad and WeightedLaplacian
 satisfy PureTerm

Because of the wrong/missing OnStepFinished method none of these terms
could be registered in a model.
---
 pf/advection.go          | 2 +-
 pf/gradientCalculator.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index 9408dfc..b8f20cd 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -95,4 +95,4 @@ func (ad *Advection) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (ad *Advection) OnStepFinished(t float64) {}
+func (ad *Advection) OnStepFinished(t float64, bricks map[string]Brick) {}
diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 60ab932..7c76f6b 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -106,7 +106,7 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (dg *DivGrad) OnStepFinished(t float64) {}
+func (dg *DivGrad) OnStepFinished(t float64, bricks map[string]Brick) {}
 
 // WeightedLaplacian is a type used to represent terms of the form
 // F(c) LAP <field>, where F is a function of all the fields.
@@ -158,3 +158,6 @@ func (wl *WeightedLaplacian) Construct(bricks map[string]Brick) Term {
 		wl.FT.FFT(field)
 	}
 }
+
+// OnStepFinished does nothing as we don't need any updates in between steps
+func (wl *WeightedLaplacian) OnStepFinished(t float64, bricks map[string]Brick) {}
-- 
2.43.0


From c1d3dd00285a64457d804a7a047e64a500fe7cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:05 +0000
Subject: [PATCH 10/58] fix: document the conductivity component order that is
 actually used

The code uses the Voigt order (yz before xz) in 3D.
---
 pf/chargeTransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/chargeTransport.go b/pf/chargeTransport.go
index 89f5839..c20b4fb 100644
--- a/pf/chargeTransport.go
+++ b/pf/chargeTransport.go
@@ -32,7 +32,7 @@ import (
 // and r is the real space position vector. E_ext is the external electric field
 type ChargeTransport struct {
 	// Conductivity return the conductivity tensor at node i. If 3D
-	// the order should be s_xx, s_yy, s_zz, s_xz, s_yz, s_xy and if 2D
+	// the order should be s_xx, s_yy, s_zz, s_yz, s_xz, s_xy and if 2D
 	// it should be s_xx, s_yy, s_xy. The vacuum permittivity should be embeded
 	// in the conductivity. Thus, if the "normal" conductiviy in Ohm's law is
 	// labeled sigma, the current density is given by j = sigma*E, this function
-- 
2.43.0


From f287198a698d984db2437fdfb5f596fcd5cc48e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 11/58] fix: omit the Nyquist frequency in the divergence of
 DivGrad

Otherwise a real field becomes complex on grids with an even number of nodes.
---
 pf/gradientCalculator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 7c76f6b..541ff5e 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -99,6 +99,10 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 			brick := bricks[dg.FuncName()+dg.GradName(d)]
 			for i := range field {
 				f := freq(i)[d]
+				if math.Abs(math.Abs(f)-0.5) < 1e-10 {
+					// The derivative of the Nyquist frequency vanishes at the grid points
+					continue
+				}
 				field[i] += complex(0.0, 2.0*math.Pi*f) * brick.Get(i)
 			}
 		}
-- 
2.43.0


From df45a35a093783ff12c14e4c238b6116cbd3963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 12/58] fix: omit the Nyquist frequency in mixed derivatives of
 TensorialHessian

Otherwise a real field becomes complex on grids with an even number of nodes.
---
 pf/tensorialHessian.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 188f575..7957b84 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -53,6 +53,10 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 			// Off-diagonal terms
 			for j := 0; j < dim; j++ {
 				for k := j + 1; k < dim; k++ {
+					if isNyquist(f[j]) || isNyquist(f[k]) {
+						// Mixed derivatives of the Nyquist frequency vanish at the grid points
+						continue
+					}
 					preFactor := -8.0 * math.Pi * math.Pi * f[j] * f[k] * th.GetCoeff(j, k)
 					field[i] += complex(preFactor, 0.0)
 				}
@@ -61,6 +65,10 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 	}
 }
 
+func isNyquist(f float64) bool {
+	return math.Abs(math.Abs(f)-0.5) < 1e-10
+}
+
 // GetCoeff return the i, j element of the coefficient tensor
 func (th *TensorialHessian) GetCoeff(i, j int) float64 {
 	d := 2
-- 
2.43.0


From 166bd227e471318ace3516081772ee499b383ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 13/58] fix: use real strains in HomogeneousModulusLinElast

Nyquist frequencies give the strains a spurious imaginary part on grids
with an even number of nodes, which made the evolved field complex.
---
 pf/homoLinElast.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pf/homoLinElast.go b/pf/homoLinElast.go
index 02c90ae..51bd6cc 100644
--- a/pf/homoLinElast.go
+++ b/pf/homoLinElast.go
@@ -71,6 +71,10 @@ func (h *HomogeneousModulusLinElast) Construct(bricks map[string]Brick) Term {
 				strains := elasticity.Strain(disp, h.Freq, i, j)
 				h.FT.IFFT(strains) // Obtain real-space strains
 				pfutil.DivRealScalar(strains, float64(len(strains)))
+				for k := range strains {
+					// Remove imaginary part originating from the Nyquist frequency
+					strains[k] = complex(real(strains[k]), 0.0)
+				}
 				pfutil.ElemwiseMul(strains, work)
 				h.FT.FFT(strains)
 
-- 
2.43.0


From e730c9c0d1d2298f8a1c008c1efead402e44e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 14/58] fix: contract the wave vector with the second index in
 PerturbedForce

The documented force is C_{ijkl}*k_j*(...), but k_i was used.
---
 elasticity/perturbation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elasticity/perturbation.go b/elasticity/perturbation.go
index 7808a63..b21145c 100644
--- a/elasticity/perturbation.go
+++ b/elasticity/perturbation.go
@@ -54,8 +54,8 @@ func PerturbedForce(ft FourierTransform, misfit *mat.Dense, ftDisp [][]complex12
 			for k := range force {
 				f := ft.Freq(k)
 				for comp := 0; comp < dim; comp++ {
-					for q := 0; q < 3; q++ {
-						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[comp]) * strain[k]
+					for q := 0; q < dim; q++ {
+						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[q]) * strain[k]
 					}
 				}
 			}
-- 
2.43.0


From eb608ffcaebf29c88a2c5e8fb2565da989fceb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:55 +0000
Subject: [PATCH 15/58] fix: include all minor symmetries in CubicMaterial

C_{ijji} was left at zero, so shear stresses were half of what they should be.
---
 elasticity/rank4.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elasticity/rank4.go b/elasticity/rank4.go
index 8426b08..8a5b2d3 100644
--- a/elasticity/rank4.go
+++ b/elasticity/rank4.go
@@ -122,6 +122,8 @@ func CubicMaterial(c11 float64, c12 float64, c44 float64) Rank4 {
 
 			tensor.Set(i, j, i, j, c44)
 			tensor.Set(j, i, j, i, c44)
+			tensor.Set(i, j, j, i, c44)
+			tensor.Set(j, i, i, j, c44)
 		}
 	}
 	return tensor
-- 
2.43.0


From 10b00d9044341591ea775a5c101c95ee4ebf0bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:40 +0000
Subject: [PATCH 16/58] fix: count equivalent planes correctly when only H and
 L are equal

---
 pfc/miller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/miller.go b/pfc/miller.go
index 0a7d334..e7d90d8 100644
--- a/pfc/miller.go
+++ b/pfc/miller.go
@@ -60,7 +60,7 @@ func NumEquivalent3D(miller Miller) int {
 	if abs(miller.K) == abs(miller.H) {
 		numEqual++
 	}
-	if abs(miller.L) == abs(miller.K) {
+	if abs(miller.L) == abs(miller.K) || abs(miller.L) == abs(miller.H) {
 		numEqual++
 	}
 
-- 
2.43.0


From d11ad8458fe8664333f319a57907e46b80cc6e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 17/58] fix: transpose the cell change when updating the
 reciprocal lattice

The reciprocal cell is M^T = 2*pi*C^{-1}, hence the first order change is
dM = -M*dC^T*M/(2*pi). The result was wrong for non-symmetric changes.
---
 pfc/lattice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 60962bd..2ddb2ec 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -47,7 +47,7 @@ func (rc *ReciprocalCell) HKLVector(miller Miller) []float64 {
 func (rc *ReciprocalCell) CellChange(realSpaceChange *mat.Dense) *mat.Dense {
 	r, c := realSpaceChange.Dims()
 	change := mat.NewDense(r, c, nil)
-	change.Product(rc.CellVec, realSpaceChange, rc.CellVec)
+	change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)
 	change.Scale(-1.0/(2.0*math.Pi), change)
 	return change
 }
-- 
2.43.0


From d97e01613e788190eefce5b91cb7e307902da4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 18/58] fix: leave the concentration passed to TwoPhaseCorrFunc
 untouched

The fourier transformed concentration of the caller was overwritten by its
real space representation.
---
 pfc/twoPhaseCorrFunc.go | 150 ++++++++++++++++++++--------------------
 1 file changed, 76 insertions(+), 74 deletions(-)

diff --git a/pfc/twoPhaseCorrFunc.go b/pfc/twoPhaseCorrFunc.go
index 8a90840..1b03a40 100644
--- a/pfc/twoPhaseCorrFunc.go
+++ b/pfc/twoPhaseCorrFunc.go
@@ -1,75 +1,77 @@
-package pfc
-
-import (
-	"math"
-	"github.com/davidkleiven/gopf/pfutil"
-)
-
-// 3*x^2 - 2x^3
-func Indicator(x float64) float64 {
-	if x < 0.0 {
-		return 0.0
-	} else if x > 1{
-		return 1.0
-	} 
-	return 3 * x * x - 2 * x * x * x
-}
-
-func IndicatorDeriv(x float64) float64 {
-	if x < 0.0 || x > 1.0 {
-		return 0.0
-	}
-	return 6 * x - 6 * x * x
-}
-
-type TwoPhaseCorrFunc struct {
-	CorrFunc []ReciprocalSpacePairCorrelation
-}
-
-func Dot(x []float64, y []float64) float64 {
-	res := 0.0
-	for i := range x {
-		res += x[i]*y[i]
-	}
-	return res
-}
-
-func (tpcf *TwoPhaseCorrFunc) Evaluate(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
-	if len(tpcf.CorrFunc) != 2 {
-		panic("Length of CorrFunc must be 2\n")
-	}
-
-	// Calcualte real space correlation functions
-	corrFunc1FT := make([]complex128, len(cFT))
-	corrFunc2FT := make([]complex128, len(cFT))
-	twoPi := 2.0*math.Pi
-	for i := range corrFunc1FT {
-		freq := fft.Freq(i)
-		k := twoPi*math.Sqrt(Dot(freq, freq))
-		corrFunc1FT[i] = complex(tpcf.CorrFunc[0].Eval(k), 0.0)
-		corrFunc2FT[i] = complex(tpcf.CorrFunc[1].Eval(k), 0.0)
-	}
-
-	corrFunc1 := fft.IFFT(corrFunc1FT)
-	corrFunc2 := fft.IFFT(corrFunc2FT)
-	pfutil.DivRealScalar(corrFunc1, float64(len(corrFunc1)))
-	pfutil.DivRealScalar(corrFunc2, float64(len(corrFunc2)))
-
-	// Calculate real space concentration
-	conc := fft.IFFT(cFT)
-	pfutil.DivRealScalar(conc, float64(len(conc)))
-	
-	// C_eff = Indicator(conc)*CorrFunc1 + (1-Indicator(conc))*CorrFunc2
-	C_eff := corrFunc1FT // Overwrite corrFunc1FT
-	for i := range C_eff {
-		x := real(conc[i])
-		C_eff[i] = complex(Indicator(x), 0.0) * corrFunc1[i] + complex(1-Indicator(x), 0.0)*corrFunc2[i]
-	}
-	return C_eff
-}
-
-func (tpcf *TwoPhaseCorrFunc) EvaluateFT(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
-	Ceff := tpcf.Evaluate(cFT, fft)
-	fft.FFT(Ceff)
-	return Ceff
+package pfc
+
+import (
+	"math"
+	"github.com/davidkleiven/gopf/pfutil"
+)
+
+// 3*x^2 - 2x^3
+func Indicator(x float64) float64 {
+	if x < 0.0 {
+		return 0.0
+	} else if x > 1{
+		return 1.0
+	} 
+	return 3 * x * x - 2 * x * x * x
+}
+
+func IndicatorDeriv(x float64) float64 {
+	if x < 0.0 || x > 1.0 {
+		return 0.0
+	}
+	return 6 * x - 6 * x * x
+}
+
+type TwoPhaseCorrFunc struct {
+	CorrFunc []ReciprocalSpacePairCorrelation
+}
+
+func Dot(x []float64, y []float64) float64 {
+	res := 0.0
+	for i := range x {
+		res += x[i]*y[i]
+	}
+	return res
+}
+
+func (tpcf *TwoPhaseCorrFunc) Evaluate(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
+	if len(tpcf.CorrFunc) != 2 {
+		panic("Length of CorrFunc must be 2\n")
+	}
+
+	// Calcualte real space correlation functions
+	corrFunc1FT := make([]complex128, len(cFT))
+	corrFunc2FT := make([]complex128, len(cFT))
+	twoPi := 2.0*math.Pi
+	for i := range corrFunc1FT {
+		freq := fft.Freq(i)
+		k := twoPi*math.Sqrt(Dot(freq, freq))
+		corrFunc1FT[i] = complex(tpcf.CorrFunc[0].Eval(k), 0.0)
+		corrFunc2FT[i] = complex(tpcf.CorrFunc[1].Eval(k), 0.0)
+	}
+
+	corrFunc1 := fft.IFFT(corrFunc1FT)
+	corrFunc2 := fft.IFFT(corrFunc2FT)
+	pfutil.DivRealScalar(corrFunc1, float64(len(corrFunc1)))
+	pfutil.DivRealScalar(corrFunc2, float64(len(corrFunc2)))
+
+	// Calculate real space concentration
+	conc := make([]complex128, len(cFT))
+	copy(conc, cFT)
+	fft.IFFT(conc)
+	pfutil.DivRealScalar(conc, float64(len(conc)))
+	
+	// C_eff = Indicator(conc)*CorrFunc1 + (1-Indicator(conc))*CorrFunc2
+	C_eff := corrFunc1FT // Overwrite corrFunc1FT
+	for i := range C_eff {
+		x := real(conc[i])
+		C_eff[i] = complex(Indicator(x), 0.0) * corrFunc1[i] + complex(1-Indicator(x), 0.0)*corrFunc2[i]
+	}
+	return C_eff
+}
+
+func (tpcf *TwoPhaseCorrFunc) EvaluateFT(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
+	Ceff := tpcf.Evaluate(cFT, fft)
+	fft.FFT(Ceff)
+	return Ceff
 }
\ No newline at end of file
-- 
2.43.0


From 5169555a2c811ec59c6270e941cc57b3aaa36bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:58 +0000
Subject: [PATCH 19/58] fix: apply the SDD reflection to all fields at once

---
 pf/sdd.go | 51 +++++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/pf/sdd.go b/pf/sdd.go
index 14325a1..61bdf8d 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -195,40 +195,42 @@ func (sdd *SDD) Step(m *Model) {
 	sdd.ShiftFieldsAlongDimer(m.Fields, -0.5*l)
 	sdd.fft(m)
 
-	work := make([]complex128, m.NumNodes())
-
-	// Array that is used to track changes in the produced field
-	origField := make([]complex128, m.NumNodes())
+	N := m.NumNodes()
 	sdd.Monitor.MaxForce = 0.0
 	sdd.Monitor.ForcePowerSpectrum = 0.0
 	cDt := complex(sdd.Dt, 0.0)
 
-	for i := range m.Fields {
-		copy(origField, m.Fields[i].Data)
-		// Fill the work array with the weighted average of the field values
-		w1 := complex(sdd.Alpha, 0.0)
-		w2 := complex(1.0-sdd.Alpha, 0.0)
-		for j := range work {
-			work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
-		}
-		d := m.Fields[i].Data
-		activeFtOrient := ftOrientation[i*m.NumNodes() : (i+1)*m.NumNodes()]
-		sdd.householder(work, activeFtOrient, 2.0, m.NumNodes())
+	// The dimer orientation is a unit vector in the space spanned by all fields. Thus, the
+	// reflection has to be applied to the force and to the linear part of all fields at once
+	w1 := complex(sdd.Alpha, 0.0)
+	w2 := complex(1.0-sdd.Alpha, 0.0)
+	force := make([]complex128, len(ftOrientation))
+	for j := range force {
+		force[j] = w1*rhsStart[j] + w2*rhsEnd[j]
+	}
+	sdd.householder(force, ftOrientation, 2.0, N)
 
-		// Apply euler scheme
-		for j := range d {
-			d[j] = (d[j] + cDt*work[j])
+	// Apply euler scheme
+	updated := make([]complex128, len(ftOrientation))
+	denums := make([]complex128, len(ftOrientation))
+	for i := range m.Fields {
+		for j, v := range m.Fields[i].Data {
+			updated[i*N+j] = v + cDt*force[i*N+j]
 		}
-		work = m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())
-		dsm := sdd.householderDenum(work, activeFtOrient, 2.0)
-		dsm.dot(d)
+		copy(denums[i*N:], m.GetDenum(i, sdd.ft.Freq, sdd.GetTime()))
+	}
+	dsm := sdd.householderDenum(denums, ftOrientation, 2.0)
+	dsm.dot(updated)
 
+	for i := range m.Fields {
+		d := m.Fields[i].Data
 		for j := range d {
-			diff := cmplx.Abs((d[j] - origField[j]) / cDt)
-			sdd.Monitor.ForcePowerSpectrum += diff * diff / float64(m.NumNodes())
+			diff := cmplx.Abs((updated[i*N+j] - d[j]) / cDt)
+			sdd.Monitor.ForcePowerSpectrum += diff * diff / float64(N)
 			if diff > sdd.Monitor.MaxForce {
 				sdd.Monitor.MaxForce = diff
 			}
+			d[j] = updated[i*N+j]
 		}
 	}
 
@@ -334,9 +336,10 @@ func (sdd *SDD) householderDenum(data []complex128, ftOrientation []complex128,
 	}
 
 	cSigma := complex(sigma, 0.0)
+	numNodes := pfutil.ProdInt(sdd.ft.Dimensions)
 	for i := range data {
 		dsm.invDiagonal[i] = 1.0 / (1.0 - cDt*data[i])
-		dsm.v[i] = cSigma * data[i] * cDt * cmplx.Conj(ftOrientation[i]) / complex(float64(len(data)), 0.0)
+		dsm.v[i] = cSigma * data[i] * cDt * cmplx.Conj(ftOrientation[i]) / complex(float64(numNodes), 0.0)
 	}
 	dsm.u = ftOrientation
 	return dsm
-- 
2.43.0


From 05f317fea2eaf68e6edaae0fe6e2489c2259c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 20/58] fix: store the node number as position id in FieldDB

---
 pf/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 160a9d9..8598074 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -180,13 +180,13 @@ func (fdb *FieldDB) populatePositionsTable() {
 	for i := 0; i < numNodes; i++ {
 		pos := pfutil.Pos(fdb.DomainSize, i)
 		copy(pos3, pos)
-		statement, err := tx.Prepare("INSERT INTO positions (X, Y, Z) VALUES (?, ?, ?)")
+		statement, err := tx.Prepare("INSERT OR IGNORE INTO positions (id, X, Y, Z) VALUES (?, ?, ?, ?)")
 
 		if err != nil {
 			tx.Rollback()
 			return
 		}
-		_, err = statement.Exec(pos3[0], pos3[1], pos3[2])
+		_, err = statement.Exec(i, pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
-- 
2.43.0


From 6289208172f7ce5ea05531c1e95233d4e16db680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:14 +0000
Subject: [PATCH 21/58] fix: refuse a 2D field in a database holding a 3D
 domain

---
 pf/database.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 8598074..a0d6fd4 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -165,7 +165,7 @@ func (fdb *FieldDB) positionTableIsPopulated() bool {
 	for result.Next() {
 		result.Scan(&numRows)
 	}
-	return numRows > 1
+	return numRows > 0
 }
 
 // populatePositionTables inserts values into the position table
@@ -351,7 +351,11 @@ func (fdb *FieldDB) domainSizeOk() bool {
 
 	columns := []string{"X", "Y", "Z"}
 
-	for i := 0; i < len(fdb.DomainSize); i++ {
+	// The coordinates along directions that are not part of the domain are always zero
+	size := []int{1, 1, 1}
+	copy(size, fdb.DomainSize)
+
+	for i := range columns {
 		sqlStr := fmt.Sprintf("SELECT MAX(%s) FROM positions", columns[i])
 		rows, err := fdb.DB.Query(sqlStr)
 		if err != nil {
@@ -363,7 +367,7 @@ func (fdb *FieldDB) domainSizeOk() bool {
 		for rows.Next() {
 			rows.Scan(&maxval)
 		}
-		if maxval != fdb.DomainSize[i]-1 {
+		if maxval != size[i]-1 {
 			return false
 		}
 	}
-- 
2.43.0


From 40ee3fa5148505f1abe098a140fd3b69e36032ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 22/58] fix: report failed database operations in FieldDB

---
 pf/database.go | 126 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 99 insertions(+), 27 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index a0d6fd4..8e900dd 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"fmt"
 	"log"
+	"math"
 	"math/rand"
 	"strings"
 	"time"
@@ -86,13 +87,17 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare("CREATE TABLE IF NOT EXISTS positions (id INTEGER PRIMARY KEY, X INTEGER, Y INTEGER, Z INTEGER)")
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS fields (id INTEGER PRIMARY KEY, name TEXT, " +
@@ -103,14 +108,18 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value REAL, simID INTEGER, FOREIGN KEY(simID) REFERENCES fields(simID))")
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS comments (simID INTEGER, value TEXT, " +
@@ -119,7 +128,9 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS simTextAttributes (key TEXT, value TEXT, " +
@@ -128,7 +139,9 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS timeseries (key TEXT, value REAL, " +
@@ -137,7 +150,9 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	if fdb.simID == 0 {
 		source := rand.NewSource(time.Now().UnixNano())
@@ -149,7 +164,9 @@ func (fdb *FieldDB) initialize() {
 		if err != nil {
 			panic(err)
 		}
-		statement.Exec(fdb.simID)
+		if _, err = statement.Exec(fdb.simID); err != nil {
+			panic(err)
+		}
 	}
 
 	fdb.initialized = true
@@ -163,7 +180,12 @@ func (fdb *FieldDB) positionTableIsPopulated() bool {
 	}
 	var numRows int
 	for result.Next() {
-		result.Scan(&numRows)
+		if err = result.Scan(&numRows); err != nil {
+			panic(err)
+		}
+	}
+	if err = result.Err(); err != nil {
+		panic(err)
 	}
 	return numRows > 0
 }
@@ -184,16 +206,18 @@ func (fdb *FieldDB) populatePositionsTable() {
 
 		if err != nil {
 			tx.Rollback()
-			return
+			panic(err)
 		}
 		_, err = statement.Exec(i, pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
-			return
+			panic(err)
 		}
 	}
-	tx.Commit()
+	if err = tx.Commit(); err != nil {
+		panic(err)
+	}
 }
 
 // insertRealPart inserts the real part of a set of field values into the database
@@ -205,7 +229,11 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 	if len(values) != pfutil.ProdInt(fdb.DomainSize) {
 		panic("FieldDB: The passed array does not match the specified domain size")
 	}
-	tx, _ := fdb.DB.Begin()
+	tx, err := fdb.DB.Begin()
+	if err != nil {
+		log.Fatal(err)
+		return
+	}
 	for i := range values {
 		statement, err := tx.Prepare("INSERT INTO fields (name, value, positionId, timestep, simID) VALUES (?, ?, ?, ?, ?)")
 
@@ -223,7 +251,9 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 			return
 		}
 	}
-	tx.Commit()
+	if err = tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SaveFields stores all the field to the database. This function satisfies the
@@ -253,7 +283,9 @@ func (fdb *FieldDB) Comment(comment string) {
 		log.Fatal(err)
 		return
 	}
-	statement.Exec(fdb.simID, comment)
+	if _, err = statement.Exec(fdb.simID, comment); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SetAttr adds a set of key-value pairs associated with the current simID
@@ -282,7 +314,9 @@ func (fdb *FieldDB) SetAttr(attr map[string]float64) {
 			return
 		}
 	}
-	tx.Commit()
+	if err = tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SetTextAttr sets text attributes associated with the current simulation
@@ -311,7 +345,9 @@ func (fdb *FieldDB) SetTextAttr(attr map[string]string) {
 			return
 		}
 	}
-	tx.Commit()
+	if err = tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // TimeSeries inserts data into the timeseries table
@@ -339,7 +375,9 @@ func (fdb *FieldDB) TimeSeries(data map[string]float64, timestep int) {
 			return
 		}
 	}
-	tx.Commit()
+	if err = tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // domainSizeOk returns true if the domain size stored locally matches the one
@@ -365,7 +403,12 @@ func (fdb *FieldDB) domainSizeOk() bool {
 
 		var maxval int
 		for rows.Next() {
-			rows.Scan(&maxval)
+			if err = rows.Scan(&maxval); err != nil {
+				log.Fatal(err)
+			}
+		}
+		if err = rows.Err(); err != nil {
+			log.Fatal(err)
 		}
 		if maxval != size[i]-1 {
 			return false
@@ -386,9 +429,14 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 	}
 	var name string
 	for rows.Next() {
-		rows.Scan(&name)
+		if err = rows.Scan(&name); err != nil {
+			panic(err)
+		}
 		fieldNames = append(fieldNames, name)
 	}
+	if err = rows.Err(); err != nil {
+		panic(err)
+	}
 
 	var numNodes int
 	rows, err = fdb.DB.Query("SELECT COUNT(*) FROM positions")
@@ -396,7 +444,12 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 		panic(err)
 	}
 	for rows.Next() {
-		rows.Scan(&numNodes)
+		if err = rows.Scan(&numNodes); err != nil {
+			panic(err)
+		}
+	}
+	if err = rows.Err(); err != nil {
+		panic(err)
 	}
 	fields := make(map[string]Field)
 	for _, key := range fieldNames {
@@ -405,11 +458,24 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 
 	rows, err = fdb.DB.Query("SELECT name, value, positionId FROM fields "+
 		"WHERE simID=? AND timestep=?", simID, timestep)
-	var value float64
+	if err != nil {
+		panic(err)
+	}
+	var value sql.NullFloat64
 	var positionID int
 	for rows.Next() {
-		rows.Scan(&name, &value, &positionID)
-		fields[name].Data[positionID] = complex(value, 0.0)
+		if err = rows.Scan(&name, &value, &positionID); err != nil {
+			panic(err)
+		}
+
+		// NaN is stored as NULL in the database
+		if !value.Valid {
+			value.Float64 = math.NaN()
+		}
+		fields[name].Data[positionID] = complex(value.Float64, 0.0)
+	}
+	if err = rows.Err(); err != nil {
+		panic(err)
 	}
 
 	fieldArray := make([]Field, len(fieldNames))
@@ -426,9 +492,15 @@ func (fdb *FieldDB) LoadLast(simID int) []Field {
 	if err != nil {
 		panic(err)
 	}
-	var maxTs int
+	// MAX is NULL if there are no entries for the simulation ID
+	var maxTs sql.NullInt64
 	for rows.Next() {
-		rows.Scan(&maxTs)
+		if err = rows.Scan(&maxTs); err != nil {
+			panic(err)
+		}
+	}
+	if err = rows.Err(); err != nil {
+		panic(err)
 	}
-	return fdb.Load(simID, maxTs)
+	return fdb.Load(simID, int(maxTs.Int64))
 }
-- 
2.43.0


From 4d721292a1edcadae423e3f4c8268ab742010043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:13 +0000
Subject: [PATCH 23/58] fix: print the value of text attributes in db attr
 --name

---
 cmd/attr.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 3a21063..ffe2fbc 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -219,9 +219,14 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=?", name)
 	}
 
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
+
 	var txtValue string
 	for rows.Next() {
-		rows.Scan(&value, &simID)
+		rows.Scan(&txtValue, &simID)
 		fmt.Printf("Sim id %-10d %-20s = %12s\n", simID, name, txtValue)
 	}
 }
-- 
2.43.0


From 39ff12e2a48770ce8f0f00a349f664dd55e11da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:34 +0000
Subject: [PATCH 24/58] fix: do not show the comment of another simulation in
 db list

---
 cmd/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/list.go b/cmd/list.go
index 75e0061..8793175 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -124,8 +124,8 @@ func showComments(db *sql.DB, max int) {
 	}
 
 	sql = "SELECT value from comments WHERE simID=?"
-	var comment string
 	for _, v := range simIds {
+		var comment string
 		rows, err = db.Query(sql, v)
 		if err != nil {
 			fmt.Printf("%s\n", err)
-- 
2.43.0


From 948371896828293c222d543877523fb7cc2bd53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:55 +0000
Subject: [PATCH 25/58] fix: use the position of each row in the contour plot

---
 cmd/contour.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index dc70504..a917f53 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -207,7 +207,7 @@ func (h HeatMapData) Y(r int) float64 {
 
 // Z returns the value of the field
 func (h HeatMapData) Z(c, r int) float64 {
-	return h.rows[index(c, r, h.Nx)].Value
+	return h.rows[h.index[index(c, r, h.Nx)]].Value
 }
 
 func getColIndex(header []string, column string) int {
-- 
2.43.0


From d66a5423f3ddc726de4f51cfefa610b4706c9724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:17 +0000
Subject: [PATCH 26/58] fix: honour the list of fields passed to lineplot

---
 cmd/lineplot.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/lineplot.go b/cmd/lineplot.go
index f195efd..26454bf 100644
--- a/cmd/lineplot.go
+++ b/cmd/lineplot.go
@@ -93,16 +93,17 @@ To plot data along a line, at least two of -x, -y and -z must be specified.
 			return
 		}
 
-		fields, err := cmd.Flags().GetString("fields")
+		fields, err := cmd.Flags().GetString("data")
+		if err != nil {
+			log.Fatalf("Could not read field names: %s\n", err)
+			return
+		}
 
 		var fieldArray []string
 		if fields == "" {
 			fieldArray = readHeader(fname)[3:]
 		} else {
-			splitted := strings.Split(fields, ",")
-			for i := 4; i < len(splitted); i++ {
-				fieldArray = append(fieldArray, splitted[i])
-			}
+			fieldArray = strings.Split(fields, ",")
 		}
 
 		plt := plot.New()
-- 
2.43.0


From 2db1e2d47d6117de0da2fada532018b510f0714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:40 +0000
Subject: [PATCH 27/58] fix: accept the export type shown in the help of db
 export

---
 cmd/export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/export.go b/cmd/export.go
index 65e9dd1..074b23c 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -88,7 +88,7 @@ and have names dataset0.csv, dataset1.csv, dataset2.csv and so on.
 		switch ftype {
 		case "timeseries", "ts":
 			exportTimeseries(db, outfile, simid)
-		case "field", "fieldData", "fd":
+		case "field", "fieldData", "fielddata", "fd":
 			if all {
 				steps := allTimeSteps(db, simid)
 				for _, step := range steps {
-- 
2.43.0


From 8f7f741c1bd18bb4d977ef4f62708ef0f88200de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:03 +0000
Subject: [PATCH 28/58] fix: do not claim that a missing comment was updated

---
 cmd/comment.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index 306d6f0..bbd43f7 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -62,7 +62,15 @@ is used.
 				fmt.Printf("%s\n", err)
 				return
 			}
-			statement.Exec(newMsg, simid)
+			result, err := statement.Exec(newMsg, simid)
+			if err != nil {
+				fmt.Printf("%s\n", err)
+				return
+			}
+			if num, err := result.RowsAffected(); err != nil || num == 0 {
+				fmt.Printf("Simulation %d has no comment that can be updated\n", simid)
+				return
+			}
 			fmt.Printf("Comment of id %d was successfully updated\n", simid)
 		} else {
 			rows, err := sqlDB.Query("SELECT value FROM comments WHERE simId=?", simid)
-- 
2.43.0


From 4f2f5c36e95f511b8a3a23f3c48f818e1def95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:26 +0000
Subject: [PATCH 29/58] fix: show the full comment in db comment

---
 cmd/comment.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index bbd43f7..3bc7729 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -106,24 +106,20 @@ func printAllComments(db *sql.DB) {
 	for rows.Next() {
 		rows.Scan(&simID, &comment)
 
-		numLines := len(comment)/CommentWidth + 1
-		var currentComment string
-		start := 0
-		for lineNum := 0; lineNum < numLines; lineNum++ {
-			idString := " "
-			if lineNum == 0 {
-				idString = fmt.Sprintf("%d", simID)
+		idString := fmt.Sprintf("%d", simID)
+		for len(comment) > CommentWidth {
+			// Break at a white space, or in the middle of a word that does not fit on one line
+			end := closestWhiteSpace(comment, CommentWidth)
+			next := end + 1
+			if end == 0 {
+				end = CommentWidth
+				next = end
 			}
-
-			if start+CommentWidth > len(comment) {
-				currentComment = comment[start:]
-			} else {
-				end := closestWhiteSpace(comment, start+CommentWidth)
-				currentComment = comment[start:end]
-				start = end + 1
-			}
-			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, currentComment)
+			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, comment[:end])
+			comment = comment[next:]
+			idString = " "
 		}
+		fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, comment)
 	}
 	fmt.Printf("%s\n", singleLine(width))
 }
-- 
2.43.0


From b0e96d68279334a2399d3362abd54194765e0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:49 +0000
Subject: [PATCH 30/58] fix: export NaN instead of the preceding value in db
 export

---
 cmd/export.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index 074b23c..bb6f634 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -5,6 +5,7 @@ import (
 	"encoding/csv"
 	"fmt"
 	"log"
+	"math"
 	"os"
 
 	"github.com/spf13/cobra"
@@ -120,6 +121,15 @@ func appendFileExtension(fname string) string {
 	return fname
 }
 
+// nullToNaN converts a value from the database to a float. NaN is stored as NULL
+// in the database
+func nullToNaN(value sql.NullFloat64) float64 {
+	if !value.Valid {
+		return math.NaN()
+	}
+	return value.Float64
+}
+
 func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	// Extract keys
 	rows, err := db.Query("SELECT DISTINCT key FROM timeseries WHERE simId=?", simid)
@@ -157,11 +167,11 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		return
 	}
 	var timestep int
-	var value float64
+	var value sql.NullFloat64
 
 	for rows.Next() {
 		rows.Scan(&key, &value, &timestep)
-		dataArray[timestep][key] = value
+		dataArray[timestep][key] = nullToNaN(value)
 	}
 
 	out, err := os.Create(outfile)
@@ -230,11 +240,11 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		return
 	}
 	var name string
-	var value float64
+	var value sql.NullFloat64
 	var positionID int
 	for rows.Next() {
 		rows.Scan(&name, &value, &positionID)
-		data[positionID][name] = value
+		data[positionID][name] = nullToNaN(value)
 	}
 
 	out, err := os.Create(outfile)
-- 
2.43.0


From 8856898f3894e37f86730b1384f29eed9b288192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:09 +0000
Subject: [PATCH 31/58] fix: pick the last simulation created when creation
 times are equal

---
 cmd/list.go | 4 ++--
 cmd/util.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/list.go b/cmd/list.go
index 8793175..df1451d 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -77,7 +77,7 @@ func showSimulationIds(db *sql.DB, max int) {
 		fmt.Printf("Showing %d of %d rows\n", max, numRows)
 	}
 
-	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
+	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
 
@@ -108,7 +108,7 @@ func showComments(db *sql.DB, max int) {
 	}
 
 	simIds := []int{}
-	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
+	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
 	if err != nil {
diff --git a/cmd/util.go b/cmd/util.go
index cf503fb..a748080 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -28,7 +28,7 @@ func singleLine(length int) string {
 
 // newestSimulationID returns the ID of the newest simulation
 func newestSimulationID(db *sql.DB) int {
-	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC LIMIT 1")
+	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT 1")
 	if err != nil {
 		fmt.Printf("%s\n", err)
 		return 0
-- 
2.43.0


From 5f545db1f19e509cb32f5f64ebe7b46880222a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 32/58] fix: write the timestep column in db export

---
 cmd/export.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index bb6f634..4260e1d 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -183,11 +183,12 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	writer := csv.NewWriter(out)
 	defer writer.Flush()
 
-	writer.Write(keys)
-	record := make([]string, len(keys))
-	for _, item := range dataArray {
+	writer.Write(append([]string{"timestep"}, keys...))
+	record := make([]string, len(keys)+1)
+	for i, item := range dataArray {
+		record[0] = fmt.Sprintf("%d", i)
 		for j, k := range keys {
-			record[j] = fmt.Sprintf("%f", item[k])
+			record[j+1] = fmt.Sprintf("%f", item[k])
 		}
 		writer.Write(record)
 	}
-- 
2.43.0


From fdc8067bdf2b40406d4d73394f3a15eaac662db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 33/58] fix: order the XDMF dimensions according to the node
 layout

---
 pf/xdmf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/xdmf.go b/pf/xdmf.go
index 76fa426..2b1311a 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -88,7 +88,8 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		dimensions = fmt.Sprintf("%d %d", domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDY"
 	} else if len(domainSize) == 3 {
-		dimensions = fmt.Sprintf("%d %d %d", domainSize[0], domainSize[1], domainSize[2])
+		// Dimensions are listed from the slowest to the fastest varying index (see pfutil.NodeIdx)
+		dimensions = fmt.Sprintf("%d %d %d", domainSize[2], domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDYDZ"
 	} else {
 		panic("Length of domain size to be either 2 or 3")
-- 
2.43.0


From cee76f7cf3e871c3a0a7274d3856f5444e3097c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 34/58] fix: report failed reads and writes of field files

---
 pf/fileIO.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/pf/fileIO.go b/pf/fileIO.go
index df1c779..eff97db 100644
--- a/pf/fileIO.go
+++ b/pf/fileIO.go
@@ -36,8 +36,12 @@ func (u *Uint8IO) SaveFields(s *Solver, epoch int) {
 		if err != nil {
 			panic(err)
 		}
-		binary.Write(out, binary.BigEndian, uint8Rep)
-		out.Close()
+		if err = binary.Write(out, binary.BigEndian, uint8Rep); err != nil {
+			panic(err)
+		}
+		if err = out.Close(); err != nil {
+			panic(err)
+		}
 	}
 }
 
@@ -78,7 +82,9 @@ func LoadFloat64(fname string) []float64 {
 	bytes := make([]byte, size)
 
 	data := make([]float64, len(bytes)/8)
-	binary.Read(infile, binary.BigEndian, data)
+	if err = binary.Read(infile, binary.BigEndian, data); err != nil && err != io.EOF {
+		panic(err)
+	}
 	return data
 }
 
@@ -87,11 +93,15 @@ func LoadFloat64(fname string) []float64 {
 func SaveFloat64(fname string, data []float64) {
 	out, err := os.Create(fname)
 	if err != nil {
-		fmt.Printf("%s\n", err)
-		return
+		panic(err)
+	}
+	if err = binary.Write(out, binary.BigEndian, data); err != nil {
+		out.Close()
+		panic(err)
+	}
+	if err = out.Close(); err != nil {
+		panic(err)
 	}
-	defer out.Close()
-	binary.Write(out, binary.BigEndian, data)
 }
 
 // CsvIO writes data to text csv text files
@@ -144,7 +154,10 @@ func LoadCSV(fname string) []Field {
 		}
 
 		for i := 0; i < len(fields); i++ {
-			v, _ := strconv.ParseFloat(record[i+3], 64)
+			v, err := strconv.ParseFloat(record[i+3], 64)
+			if err != nil {
+				log.Fatalf("Could not convert string to float: %s\n", err)
+			}
 			fields[i].Data = append(fields[i].Data, complex(v, 0.0))
 		}
 	}
@@ -190,7 +203,6 @@ func SaveCsv(fname string, data []CsvData, domainSize []int) {
 	defer out.Close()
 
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	writer.Write(header)
 	record := make([]string, len(header))
@@ -206,4 +218,8 @@ func SaveCsv(fname string, data []CsvData, domainSize []int) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	if err = writer.Error(); err != nil {
+		log.Fatalf("Could not write to file: %s\n", err)
+	}
 }
-- 
2.43.0


From 48aa78afbb91f552e501e2997d02c205b84d4bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:10 +0000
Subject: [PATCH 35/58] fix: evolve every field with its own equation

---
 pf/model.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index aff4604..bdbef29 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -283,34 +283,48 @@ func (m *Model) AllVariableNames() []string {
 	return names
 }
 
-// GetRHS evaluates the right hand side of one of the equations
+// equationOfField returns the number of the equation that evolves the passed field. If no
+// equation refers to the name of the field, the equation with the same number as the field
+// is used.
+func (m *Model) equationOfField(fieldNo int) int {
+	for i, eq := range m.Equations {
+		if strings.HasPrefix(eq, "d"+m.Fields[fieldNo].Name+"/dt=") {
+			return i
+		}
+	}
+	return fieldNo
+}
+
+// GetRHS evaluates the right hand side of the equation that evolves the passed field
 func (m *Model) GetRHS(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Terms {
+	eqNo := m.equationOfField(fieldNo)
+	for _, f := range m.RHS[eqNo].Terms {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
-	for _, s := range m.AllSources[fieldNo] {
+	for _, s := range m.AllSources[eqNo] {
 		s.Eval(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
 	// Apply eventual modifiers
 	for i := range m.RHSModifiers {
-		if m.RHSModifiers[i].EqNo == fieldNo {
+		if m.RHSModifiers[i].EqNo == eqNo {
 			m.RHSModifiers[i].RHSModifier(data)
 		}
 	}
 	return data
 }
 
-// GetDenum evaluates the denuminator
+// GetDenum evaluates the denuminator of the equation that evolves the passed field
 func (m *Model) GetDenum(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Denum {
+	eqNo := m.equationOfField(fieldNo)
+	for _, f := range m.RHS[eqNo].Denum {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
-- 
2.43.0


From 9ef657cce8df863d4b6944ad782395205b46b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:07 +0000
Subject: [PATCH 36/58] fix: add terms without fields to the zero frequency
 only

---
 pf/rhsBuilder.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index fbcda38..fdd4948 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -45,6 +45,8 @@ func Build(eq string, m *Model) RHS {
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
 			t.SubString = removeField(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
+		} else if GetFieldName(t.SubString, m.AllFieldNames()) == "" {
+			rhs.Terms = append(rhs.Terms, uniformTerm(ConcreteTerm(t, m)))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
 		}
@@ -52,6 +54,25 @@ func Build(eq string, m *Model) RHS {
 	return rhs
 }
 
+// uniformTerm returns the fourier transform of a term that has the same value in all
+// nodes. Thus, only the zero frequency mode is non-zero.
+func uniformTerm(value Term) Term {
+	return func(freq Frequency, t float64, field []complex128) {
+		value(freq, t, field)
+		for i := range field {
+			zeroFreq := true
+			for _, f := range freq(i) {
+				zeroFreq = zeroFreq && f == 0.0
+			}
+			if zeroFreq {
+				field[i] *= complex(float64(len(field)), 0.0)
+			} else {
+				field[i] = 0.0
+			}
+		}
+	}
+}
+
 // fieldNameFromLeibniz extracts a field name from a Leibniz formatted
 // differnetation operation (e.g dkappa/dt)
 func fieldNameFromLeibniz(leibniz string) string {
-- 
2.43.0


From 642c2ea802a2e8d822b350986bdd6682168934c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:46 +0000
Subject: [PATCH 37/58] fix: avoid cancellation in the implicit stepper for
 small linear factors

---
 pf/implicitEuler.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pf/implicitEuler.go b/pf/implicitEuler.go
index 1a698b3..e0f4f23 100644
--- a/pf/implicitEuler.go
+++ b/pf/implicitEuler.go
@@ -150,13 +150,14 @@ func (ie *ImplicitEuler) defaultTol() float64 {
 
 func (ie *ImplicitEuler) nonlinearIntegral(denum complex128, rhs complex128, rhsPrev complex128) complex128 {
 	cDt := complex(ie.Dt, 0.0)
-	tol := 1e-5
+	tol := 1e-3
 	a := rhsPrev
 	b := (rhs - rhsPrev) / cDt
 	f := cmplx.Exp(denum * cDt)
 
-	if cmplx.Abs(denum) < tol {
-		return 0.5 * cDt * (rhs + rhsPrev*f)
+	// Use series expansions when the expressions below suffer from cancellation
+	if x := denum * cDt; cmplx.Abs(x) < tol {
+		return a*cDt*(1.0+x/2.0+x*x/6.0+x*x*x/24.0) + b*cDt*cDt*(0.5+x/6.0+x*x/24.0+x*x*x/120.0)
 	}
 	return a*(f-1.0)/denum + b*(f-denum*cDt-1.0)/(denum*denum)
 }
-- 
2.43.0


From 6e059de4900802beb73277b0dddbf5fa28d126d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:02 +0000
Subject: [PATCH 38/58] fix: keep the fluxes of several DivGrad terms on one
 field apart

---
 pf/gradientCalculator.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 541ff5e..62834ef 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -50,6 +50,9 @@ func (g *GradientCalculator) ToDerivedField(name string, N int, brick Brick) Der
 type DivGrad struct {
 	Field string
 	F     GenericFunction
+
+	// suffix separates the fluxes of terms that act on the same field
+	suffix string
 }
 
 // FuncName returns the name of the generic function F
@@ -62,12 +65,21 @@ func (dg *DivGrad) GradName(comp int) string {
 	return fmt.Sprintf("GRAD_%s_%d", dg.Field, comp)
 }
 
+// fluxName returns the name of the derived field that holds F times the gradient
+func (dg *DivGrad) fluxName(comp int) string {
+	return dg.FuncName() + dg.GradName(comp) + dg.suffix
+}
+
 // PrepareModel impose nessecary changes in the model in order to use the
 // DivGrad term. N is the number of grid points in the simulation domain,
 // dim is the dimension of the simulation domain. FT is a fourier transformer
 // required for gradient evaluations
 func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 	dim := len(FT.Freq(0))
+	dg.suffix = ""
+	for i := 1; m.IsBrickName(dg.fluxName(0)); i++ {
+		dg.suffix = fmt.Sprintf("_%d", i)
+	}
 	for d := 0; d < dim; d++ {
 		grad := GradientCalculator{
 			FT:          FT,
@@ -78,7 +90,7 @@ func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 		m.RegisterDerivedField(dField)
 
 		dField2 := DerivedField{
-			Name: dg.FuncName() + dg.GradName(d),
+			Name: dg.fluxName(d),
 			Data: make([]complex128, N),
 			Calc: func(data []complex128) {
 				for i := range data {
@@ -96,7 +108,7 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 		pfutil.Clear(field)
 		dim := len(freq(0))
 		for d := 0; d < dim; d++ {
-			brick := bricks[dg.FuncName()+dg.GradName(d)]
+			brick := bricks[dg.fluxName(d)]
 			for i := range field {
 				f := freq(i)[d]
 				if math.Abs(math.Abs(f)-0.5) < 1e-10 {
-- 
2.43.0


From 82ae16373c6a9fad1c4beb355b4090a36fa9ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:43 +0000
Subject: [PATCH 39/58] fix: sum both off-diagonal coefficients in
 TensorialHessian

---
 pf/tensorialHessian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 7957b84..469c97f 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -57,7 +57,7 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 						// Mixed derivatives of the Nyquist frequency vanish at the grid points
 						continue
 					}
-					preFactor := -8.0 * math.Pi * math.Pi * f[j] * f[k] * th.GetCoeff(j, k)
+					preFactor := -4.0 * math.Pi * math.Pi * f[j] * f[k] * (th.GetCoeff(j, k) + th.GetCoeff(k, j))
 					field[i] += complex(preFactor, 0.0)
 				}
 			}
-- 
2.43.0


From e3ba29263450a33c24d220c9001714d4d2222197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:27 +0000
Subject: [PATCH 40/58] fix: report failed writes of xdmf and grid files

---
 pf/xdmf.go     |  9 +++++++--
 pfutil/grid.go | 10 +++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pf/xdmf.go b/pf/xdmf.go
index 2b1311a..78f0f2e 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -169,6 +169,11 @@ func WriteXDMF(xdmfFile string, fields []string, prefix string, num int, domainS
 	}
 	enc := xml.NewEncoder(writer)
 	enc.Indent("", "    ")
-	enc.Encode(CreateXDMF(fields, prefix, num, domainSize))
-	writer.Close()
+	if err = enc.Encode(CreateXDMF(fields, prefix, num, domainSize)); err != nil {
+		writer.Close()
+		panic(err)
+	}
+	if err = writer.Close(); err != nil {
+		panic(err)
+	}
 }
diff --git a/pfutil/grid.go b/pfutil/grid.go
index 3baacd9..e6da277 100644
--- a/pfutil/grid.go
+++ b/pfutil/grid.go
@@ -80,7 +80,7 @@ func (g *Grid) FromComplex(carray []complex128) {
 func (g Grid) SaveCsv(fname string) {
 	f, err := os.Create(fname)
 	if err != nil {
-		fmt.Printf("%s\n", err)
+		panic(err)
 	}
 	defer f.Close()
 
@@ -89,7 +89,9 @@ func (g Grid) SaveCsv(fname string) {
 	if dim == 3 {
 		header = "x,y,z,value\n"
 	}
-	f.WriteString(header)
+	if _, err = f.WriteString(header); err != nil {
+		panic(err)
+	}
 	for i := range g.Data {
 		pos := g.Pos(i)
 		posString := []string{}
@@ -98,7 +100,9 @@ func (g Grid) SaveCsv(fname string) {
 		}
 		text := strings.Join(posString, ",")
 		text += fmt.Sprintf(",%f\n", g.Data[i])
-		f.WriteString(text)
+		if _, err = f.WriteString(text); err != nil {
+			panic(err)
+		}
 	}
 }
 
-- 
2.43.0


From b20d919b47dd45141fff2106fca0a9a9a2280c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:14 +0000
Subject: [PATCH 41/58] fix: draw the contour plot with the y-axis pointing
 upwards

---
 cmd/contour.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index a917f53..3ad2f4f 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -327,7 +327,8 @@ func fillImage(data HeatMapData, cmap palette.ColorMap) *image.RGBA64 {
 				log.Fatalf("%s\n", err)
 				return img
 			}
-			img.Set(i, j, color)
+			// The first row of an image is at the top, while the y-axis points upwards
+			img.Set(i, m-1-j, color)
 		}
 	}
 	return img
-- 
2.43.0


From 559d51550be23e56a5777f16228183729b34cb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:51 +0000
Subject: [PATCH 42/58] fix: show NaN attributes in db attr

---
 cmd/attr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index ffe2fbc..cd4e055 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -126,14 +126,14 @@ func listAttributes(db *sql.DB, simulationID int) {
 
 	// Go through the float attributes
 	var key string
-	var value float64
+	var value sql.NullFloat64
 	var simID int
 	for rows.Next() {
 		rows.Scan(&key, &value, &simID)
 		if _, ok := kvp[simID]; !ok {
 			kvp[simID] = make(map[string]string)
 		}
-		kvp[simID][key] = fmt.Sprintf("%f", value)
+		kvp[simID][key] = fmt.Sprintf("%f", nullToNaN(value))
 		header[key] = true
 	}
 
@@ -206,11 +206,11 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		return
 	}
 
-	var value float64
+	var value sql.NullFloat64
 	var simID int
 	for rows.Next() {
 		rows.Scan(&value, &simID)
-		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, value)
+		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, nullToNaN(value))
 	}
 
 	if simulationID > 0 {
-- 
2.43.0


From 7a9698e53f4967f1a98e653a16860b0501e6a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:11 +0000
Subject: [PATCH 43/58] fix: refuse damaged input in elast energy

---
 cmd/energy.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/energy.go b/cmd/energy.go
index 0cb9798..431d40d 100644
--- a/cmd/energy.go
+++ b/cmd/energy.go
@@ -35,7 +35,10 @@ passed via a JSON file. See gopf elast templatate for further information.
 		}
 
 		var params elasticity.StrainEnergyInput
-		json.Unmarshal(byteValue, &params)
+		if err := json.Unmarshal(byteValue, &params); err != nil {
+			log.Fatalf("Could not read %s: %s\n", infile, err)
+			return
+		}
 		energy := elasticity.CalculateStrainEnergy(params)
 		log.Printf("Elastic energy per volume inclusion: %f\n", energy)
 	},
-- 
2.43.0


From d2368e7220406e3ada0dd3a1016ca2828f112101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:31 +0000
Subject: [PATCH 44/58] fix: do not report a failed export as written

---
 cmd/export.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index 4260e1d..d5f67f8 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -181,7 +181,6 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	}
 	defer out.Close()
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	writer.Write(append([]string{"timestep"}, keys...))
 	record := make([]string, len(keys)+1)
@@ -192,6 +191,11 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	fmt.Printf("Timeseries written to %s\n", outfile)
 }
 
@@ -255,7 +259,6 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 	}
 	defer out.Close()
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	header := make([]string, 3+len(keys))
 	header[0] = "X"
@@ -273,6 +276,11 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	fmt.Printf("Field data written to %s\n", outfile)
 }
 
-- 
2.43.0


From 3808b225f0fd28f2a84c85ac64173a4f74d9a659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:47 +0000
Subject: [PATCH 45/58] fix: align the half axes with the tensor axes in the
 strain energy

---
 elasticity/strainEnergyCLI.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elasticity/strainEnergyCLI.go b/elasticity/strainEnergyCLI.go
index 25cbbcf..e194c82 100644
--- a/elasticity/strainEnergyCLI.go
+++ b/elasticity/strainEnergyCLI.go
@@ -46,7 +46,8 @@ func CalculateStrainEnergy(params StrainEnergyInput) float64 {
 				v := math.Pow(x/params.HalfA, 2) + math.Pow(y/params.HalfB, 2) + math.Pow(z/params.HalfC, 2)
 
 				if v <= 1.0 {
-					indicator.Set(i, j, k, complex(1.0, 0.0))
+					// Columns (second index) correspond to the first component of the frequency
+					indicator.Set(j, i, k, complex(1.0, 0.0))
 				}
 			}
 		}
-- 
2.43.0


From b30ba0799600dfdcfc1fdef34980f226cf1d5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:16 +0000
Subject: [PATCH 46/58] fix: start each node in the plane when drawing
 transformed shapes

On 2D grids the third coordinate of the transformed position was carried over from
node to node, such that rotations out of the plane drifted.
---
 pfutil/shapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfutil/shapes.go b/pfutil/shapes.go
index d916d33..41a1081 100644
--- a/pfutil/shapes.go
+++ b/pfutil/shapes.go
@@ -104,8 +104,8 @@ func Draw(shape Shape, grid *Grid, transformation *Affine, value float64) {
 	bbox := shape.BBox()
 	bbox.check()
 	dim := len(grid.Dims)
-	floatPos := make([]float64, 3)
 	for i := range grid.Data {
+		floatPos := make([]float64, 3)
 		pos := grid.Pos(i)
 		for j := range pos {
 			floatPos[j] = float64(pos[j])
-- 
2.43.0


From fedd1810062065e2d8d6dbeda6fad6a75c458751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:06 +0000
Subject: [PATCH 47/58] fix: evaluate time dependent terms at the end of the
 step in ImplicitEuler

---
 pf/implicitEuler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/implicitEuler.go b/pf/implicitEuler.go
index e0f4f23..d0fc577 100644
--- a/pf/implicitEuler.go
+++ b/pf/implicitEuler.go
@@ -75,7 +75,8 @@ func (ie *ImplicitEuler) updateEquation(newFields []float64, out []float64, rhsP
 	cDt := complex(ie.Dt, 0.0)
 	for i := range m.Fields {
 		N := len(m.Fields[i].Data)
-		rhs := m.GetRHS(i, ie.FT.Freq, t)
+		// The fields are those at the end of the step
+		rhs := m.GetRHS(i, ie.FT.Freq, t+ie.Dt)
 		denum := m.GetDenum(i, ie.FT.Freq, t)
 
 		// Overwrite rhs with the complex the equation data
-- 
2.43.0


From eea706bf0b104527893aceafedc94d3bc20e4dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:54 +0000
Subject: [PATCH 48/58] fix: register the gradient of a field once when several
 terms use it

---
 pf/advection.go          | 6 ++++--
 pf/gradientCalculator.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index b8f20cd..39d91eb 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -62,8 +62,10 @@ func (ad *Advection) PrepareModel(N int, m *Model, FT FourierTransform) {
 			FT:   FT,
 			Comp: d,
 		}
-		dField := grad.ToDerivedField(ad.GradName(d), N, m.Bricks[ad.Field])
-		m.RegisterDerivedField(dField)
+		if !m.IsFieldName(ad.GradName(d)) {
+			dField := grad.ToDerivedField(ad.GradName(d), N, m.Bricks[ad.Field])
+			m.RegisterDerivedField(dField)
+		}
 	}
 
 	vDotGradField := DerivedField{
diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 62834ef..e7f8126 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -86,8 +86,10 @@ func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 			Comp:        d,
 			KeepNyquist: false,
 		}
-		dField := grad.ToDerivedField(dg.GradName(d), N, m.Bricks[dg.Field])
-		m.RegisterDerivedField(dField)
+		if !m.IsFieldName(dg.GradName(d)) {
+			dField := grad.ToDerivedField(dg.GradName(d), N, m.Bricks[dg.Field])
+			m.RegisterDerivedField(dField)
+		}
 
 		dField2 := DerivedField{
 			Name: dg.fluxName(d),
-- 
2.43.0


From 3573cdbf2505b73b4270115d8c788dc95110d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:07 +0000
Subject: [PATCH 49/58] fix: keep the derived fields of several
 IdealMixtureTerms on one field apart

---
 pf/pairCorrelationTerm.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pf/pairCorrelationTerm.go b/pf/pairCorrelationTerm.go
index 96669ae..6ba518f 100644
--- a/pf/pairCorrelationTerm.go
+++ b/pf/pairCorrelationTerm.go
@@ -114,6 +114,9 @@ type IdealMixtureTerm struct {
 	Field     string
 	Prefactor float64
 	Laplacian bool
+
+	// suffix separates the derived fields of several terms that act on the same field
+	suffix string
 }
 
 // Eval returns the derivative of the underlying ideal mixture term
@@ -137,12 +140,16 @@ func (idt *IdealMixtureTerm) ConstructLinear(bricks map[string]Brick) Term {
 }
 
 func (idt *IdealMixtureTerm) nonLinearDerivedFieldName() string {
-	return fmt.Sprintf("ideal_mixture_%s_nonlin", idt.Field)
+	return fmt.Sprintf("ideal_mixture_%s_nonlin%s", idt.Field, idt.suffix)
 }
 
 // DerivedField returns the required derived field that is nessecary in order
 // to use this model
 func (idt *IdealMixtureTerm) DerivedField(numNodes int, bricks map[string]Brick) DerivedField {
+	idt.suffix = ""
+	for i := 1; bricks[idt.nonLinearDerivedFieldName()] != nil; i++ {
+		idt.suffix = fmt.Sprintf("_%d", i)
+	}
 	return DerivedField{
 		Name: idt.nonLinearDerivedFieldName(),
 		Data: make([]complex128, numNodes),
-- 
2.43.0


From 43c0534107751f8415130575ba486941b2e5508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:54 +0000
Subject: [PATCH 50/58] fix: validate implicit terms with frequencies of the
 dimension of the domain

---
 pf/model.go  | 11 ++++++++++-
 pf/solver.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index bdbef29..b26caff 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -246,6 +246,11 @@ func (m *Model) SyncDerivedFields() {
 
 // Init prepares the model
 func (m *Model) Init() {
+	m.init(2)
+}
+
+// init prepares a model in the passed number of dimensions
+func (m *Model) init(dim int) {
 	m.RHS = m.RHS[:0]
 	for _, eq := range m.Equations {
 		m.RHS = append(m.RHS, Build(eq, m))
@@ -255,7 +260,11 @@ func (m *Model) Init() {
 	// Validate all implicit terms
 	for k, v := range m.ImplicitTerms {
 		if !isImplicit(v, m.Bricks, m.NumNodes(), func(i int) []float64 {
-			return []float64{0.4, 0.4}
+			f := make([]float64, dim)
+			for d := range f {
+				f[d] = 0.4
+			}
+			return f
 		}) {
 			msg := fmt.Sprintf("Model: Term %s is not implicit (e.g. it varies when the fields are varied)", k)
 			panic(msg)
diff --git a/pf/solver.go b/pf/solver.go
index fbf519a..cc68b1f 100644
--- a/pf/solver.go
+++ b/pf/solver.go
@@ -39,7 +39,7 @@ type Solver struct {
 // NewSolver initializes a new solver
 func NewSolver(m *Model, domainSize []int, dt float64) *Solver {
 	var solver Solver
-	m.Init()
+	m.init(len(domainSize))
 	solver.Model = m
 	solver.Dt = dt
 	solver.Callbacks = []SolverCB{}
-- 
2.43.0


From 9842ffc128fcbd6009e5df973627c0c063efb823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 51/58] fix: keep Vandeven filters of order above 85 finite

---
 pf/vandeven.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pf/vandeven.go b/pf/vandeven.go
index 8a61098..53b78b3 100644
--- a/pf/vandeven.go
+++ b/pf/vandeven.go
@@ -14,13 +14,17 @@ func NewVandeven(order int) Vandeven {
 	var filter Vandeven
 	filter.Data = make([]float64, 1000)
 	filter.Data[0] = 1.0
-	prefactor := math.Gamma(float64(2*order)) / (math.Gamma(float64(order)) * math.Gamma(float64(order)))
+	// The factor 4^(1-order) is split off from the integrand, such that neither of them leaves the
+	// range of a float64 when the order is high
+	lgNum, _ := math.Lgamma(float64(2 * order))
+	lgDen, _ := math.Lgamma(float64(order))
+	prefactor := math.Exp(lgNum - 2.0*lgDen - float64(order-1)*math.Log(4.0))
 	dx := 1.0 / 999.0
 	for i := 1; i < 1000; i++ {
 		x := float64(i) * dx
-		i2 := math.Pow(x*(1-x), float64(order-1))
+		i2 := math.Pow(4.0*x*(1-x), float64(order-1))
 		x1 := x - dx
-		i1 := math.Pow(x1*(1.0-x1), float64(order-1))
+		i1 := math.Pow(4.0*x1*(1.0-x1), float64(order-1))
 		filter.Data[i] = filter.Data[i-1] - prefactor*0.5*(i1+i2)*dx
 	}
 	return filter
-- 
2.43.0


From a93a4dfc02d790459b4561a4f9b3b94238633efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:32 +0000
Subject: [PATCH 52/58] fix: fit elastic properties of models with a single
 mode

---
 pfc/mode_solver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pfc/mode_solver.go b/pfc/mode_solver.go
index 3010487..a4b56ed 100644
--- a/pfc/mode_solver.go
+++ b/pfc/mode_solver.go
@@ -435,7 +435,9 @@ func (ms *ModeSolver) MatchElasticProp(properties map[string]float64) ElasticPro
 		initX[i] = 1.0
 	}
 	initX[0] = 1.0
-	initX[1] = 0.01
+	if len(initX) > 1 {
+		initX[1] = 0.01
+	}
 	optRes, _ := optimize.Minimize(problem, initX, nil, nil)
 
 	fitRes := ElasticPropResult{
-- 
2.43.0


From bd89008bd56d7d5572f8906cad3423e8ff09438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:56 +0000
Subject: [PATCH 53/58] fix: refuse implicit terms that depend on differences
 of fields

---
 pf/userDefinedTerm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pf/userDefinedTerm.go b/pf/userDefinedTerm.go
index af1e615..783b75e 100644
--- a/pf/userDefinedTerm.go
+++ b/pf/userDefinedTerm.go
@@ -80,10 +80,12 @@ func isImplicit(t PureTerm, bricks map[string]Brick, N int, freq Frequency) bool
 	// Construct a set of fields that changes the fields
 	tmpBricks := make(map[string]Brick)
 	for k, brick := range bricks {
+		// The perturbations are different, such that they do not cancel in differences
+		// between fields
 		tmpBricks[k] = &perturbedBrick{
 			name:         k,
 			parentBrick:  brick,
-			perturbation: complex(0.2, 0.0),
+			perturbation: complex(0.2*float64(len(tmpBricks)+1), 0.0),
 		}
 	}
 	func1 := t.Construct(bricks)
@@ -105,5 +107,5 @@ type perturbedBrick struct {
 }
 
 func (pb *perturbedBrick) Get(i int) complex128 {
-	return pb.parentBrick.Get(i) + pb.perturbation
+	return pb.parentBrick.Get(i) + pb.perturbation*complex(1.0+1.0/float64(i+1), 0.0)
 }
-- 
2.43.0


From 98d1885d88ee3efc8803b5cd8dda6389ddae7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 54/58] fix: accept implicit terms that depend on scalars

---
 pf/userDefinedTerm.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pf/userDefinedTerm.go b/pf/userDefinedTerm.go
index 783b75e..b1cbb4f 100644
--- a/pf/userDefinedTerm.go
+++ b/pf/userDefinedTerm.go
@@ -80,6 +80,12 @@ func isImplicit(t PureTerm, bricks map[string]Brick, N int, freq Frequency) bool
 	// Construct a set of fields that changes the fields
 	tmpBricks := make(map[string]Brick)
 	for k, brick := range bricks {
+		if _, ok := brick.(*Scalar); ok {
+			// Implicit terms can depend on scalars
+			tmpBricks[k] = brick
+			continue
+		}
+
 		// The perturbations are different, such that they do not cancel in differences
 		// between fields
 		tmpBricks[k] = &perturbedBrick{
-- 
2.43.0


From 0629e0d5a02accef40a0aa5a7730df7e98c176c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:42 +0000
Subject: [PATCH 55/58] fix: gradients of advected fields overwrote or read
 fields named like them

---
 pf/advection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/advection.go b/pf/advection.go
index 39d91eb..1d7234b 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -21,7 +21,7 @@ type Advection struct {
 
 // GradName returns the gradient term associated with the field
 func (ad *Advection) GradName(comp int) string {
-	return fmt.Sprintf("%s_%d", ad.Field, comp)
+	return fmt.Sprintf("GRAD_%s_%d", ad.Field, comp)
 }
 
 // GetName returns the name of the brick corresponding to
-- 
2.43.0


From 8ec5706096a5e1949d32f0c56c997405ab0cbf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:03 +0000
Subject: [PATCH 56/58] fix: advection terms with different velocities could
 share one name

---
 pf/advection.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index 1d7234b..3023cea 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -2,6 +2,7 @@ package pf
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/davidkleiven/gopf/pfutil"
 )
@@ -27,12 +28,7 @@ func (ad *Advection) GradName(comp int) string {
 // GetName returns the name of the brick corresponding to
 // vDotGradField
 func (ad *Advection) GetName() string {
-	name := ""
-	for _, vel := range ad.VelocityFields {
-		name += vel
-	}
-	name += "Dot" + "Grad" + ad.Field
-	return name
+	return strings.Join(ad.VelocityFields, ",") + "DotGrad" + ad.Field
 }
 
 // AllFieldsExist returns true if all the fields are registered in the model
-- 
2.43.0


From 040b676d2b05848d835ebece8d48bb409be9cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:53 +0000
Subject: [PATCH 57/58] fix: the command line tool showed the readable part of
 a damaged database as if it were everything

---
 cmd/attr.go    | 5 +++++
 cmd/comment.go | 2 ++
 cmd/export.go  | 9 +++++++++
 cmd/info.go    | 8 ++++++++
 cmd/list.go    | 5 +++++
 cmd/time.go    | 1 +
 cmd/util.go    | 9 +++++++++
 7 files changed, 39 insertions(+)

diff --git a/cmd/attr.go b/cmd/attr.go
index cd4e055..a6db600 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -97,6 +97,7 @@ func listUniqueAttributes(db *sql.DB) {
 		rows.Scan(&key)
 		fmt.Printf("%s\n", key)
 	}
+	exitOnReadError(rows)
 }
 
 // listAttributes lists the attributes. If simulationID is greater than 0, only attributes
@@ -136,6 +137,7 @@ func listAttributes(db *sql.DB, simulationID int) {
 		kvp[simID][key] = fmt.Sprintf("%f", nullToNaN(value))
 		header[key] = true
 	}
+	exitOnReadError(rows)
 
 	// Go through the text attributes
 	var txtVal string
@@ -159,6 +161,7 @@ func listAttributes(db *sql.DB, simulationID int) {
 		}
 		kvp[simID][key] = txtVal
 	}
+	exitOnReadError(rows)
 
 	headerKeys := set2slice(header)
 	for tableIdx := 0; tableIdx <= len(headerKeys)/MaxCols; tableIdx++ {
@@ -212,6 +215,7 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		rows.Scan(&value, &simID)
 		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, nullToNaN(value))
 	}
+	exitOnReadError(rows)
 
 	if simulationID > 0 {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=? AND simId=?", name, simulationID)
@@ -229,6 +233,7 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		rows.Scan(&txtValue, &simID)
 		fmt.Printf("Sim id %-10d %-20s = %12s\n", simID, name, txtValue)
 	}
+	exitOnReadError(rows)
 }
 
 func set2slice(set map[string]bool) []string {
diff --git a/cmd/comment.go b/cmd/comment.go
index 3bc7729..7ad8ad1 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -82,6 +82,7 @@ is used.
 			for rows.Next() {
 				rows.Scan(&comment)
 			}
+			exitOnReadError(rows)
 			fmt.Printf("Sim id %d:\n%s\n", simid, comment)
 		}
 
@@ -121,6 +122,7 @@ func printAllComments(db *sql.DB) {
 		}
 		fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, comment)
 	}
+	exitOnReadError(rows)
 	fmt.Printf("%s\n", singleLine(width))
 }
 
diff --git a/cmd/export.go b/cmd/export.go
index d5f67f8..29728c7 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -143,6 +143,7 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		rows.Scan(&key)
 		keys = append(keys, key)
 	}
+	exitOnReadError(rows)
 
 	// Extract maximum number timestep
 	rows, err = db.Query("SELECT MAX(timestep) FROM timeseries WHERE simId=?", simid)
@@ -155,6 +156,7 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	for rows.Next() {
 		rows.Scan(&maxStep)
 	}
+	exitOnReadError(rows)
 
 	dataArray := make([]map[string]float64, maxStep+1)
 	for i := range dataArray {
@@ -173,6 +175,7 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		rows.Scan(&key, &value, &timestep)
 		dataArray[timestep][key] = nullToNaN(value)
 	}
+	exitOnReadError(rows)
 
 	out, err := os.Create(outfile)
 	if err != nil {
@@ -209,6 +212,7 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 	for rows.Next() {
 		rows.Scan(&numRows)
 	}
+	exitOnReadError(rows)
 	if numRows == 0 {
 		fmt.Printf("No entries in DB for id: %d and timestep %d\n", simid, ts)
 		return
@@ -225,6 +229,7 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		rows.Scan(&key)
 		keys = append(keys, key)
 	}
+	exitOnReadError(rows)
 
 	positions := [][]int{}
 	rows, err = db.Query("SELECT X,Y,Z FROM positions ORDER BY id")
@@ -233,6 +238,7 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		rows.Scan(&x, &y, &z)
 		positions = append(positions, []int{x, y, z})
 	}
+	exitOnReadError(rows)
 
 	data := make([]map[string]float64, len(positions))
 	for i := range data {
@@ -251,6 +257,7 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		rows.Scan(&name, &value, &positionID)
 		data[positionID][name] = nullToNaN(value)
 	}
+	exitOnReadError(rows)
 
 	out, err := os.Create(outfile)
 	if err != nil {
@@ -295,6 +302,7 @@ func largestTimestep(db *sql.DB, simid int) int {
 	for rows.Next() {
 		rows.Scan(&maxts)
 	}
+	exitOnReadError(rows)
 	return maxts
 }
 
@@ -311,5 +319,6 @@ func allTimeSteps(db *sql.DB, simid int) []int {
 		rows.Scan(&step)
 		timesteps = append(timesteps, step)
 	}
+	exitOnReadError(rows)
 	return timesteps
 }
diff --git a/cmd/info.go b/cmd/info.go
index d92fddc..76f1cd3 100644
--- a/cmd/info.go
+++ b/cmd/info.go
@@ -62,6 +62,7 @@ the name of all timeseries that are tracked.
 		for rows.Next() {
 			rows.Scan(&numCalc)
 		}
+		exitOnReadError(rows)
 
 		// Extract the names of the fields
 		rows, err = db.Query("SELECT DISTINCT name FROM fields")
@@ -75,6 +76,7 @@ the name of all timeseries that are tracked.
 			rows.Scan(&fieldName)
 			fields = append(fields, fieldName)
 		}
+		exitOnReadError(rows)
 
 		// Extract the dimension of the data
 		rows, err = db.Query("SELECT MAX(X) FROM positions")
@@ -86,6 +88,7 @@ the name of all timeseries that are tracked.
 		for rows.Next() {
 			rows.Scan(&nx)
 		}
+		exitOnReadError(rows)
 
 		rows, err = db.Query("SELECT MAX(Y) FROM positions")
 		if err != nil {
@@ -95,6 +98,7 @@ the name of all timeseries that are tracked.
 		for rows.Next() {
 			rows.Scan(&ny)
 		}
+		exitOnReadError(rows)
 
 		rows, err = db.Query("SELECT MAX(Z) FROM positions")
 		if err != nil {
@@ -104,6 +108,7 @@ the name of all timeseries that are tracked.
 		for rows.Next() {
 			rows.Scan(&nz)
 		}
+		exitOnReadError(rows)
 
 		// Extract attributes
 		rows, err = db.Query("SELECT DISTINCT key FROM simAttributes")
@@ -117,6 +122,7 @@ the name of all timeseries that are tracked.
 			rows.Scan(&attr)
 			attrs = append(attrs, attr)
 		}
+		exitOnReadError(rows)
 
 		rows, err = db.Query("SELECT DISTINCT key FROM simTextAttributes")
 		if err != nil {
@@ -127,6 +133,7 @@ the name of all timeseries that are tracked.
 			rows.Scan(&attr)
 			attrs = append(attrs, attr)
 		}
+		exitOnReadError(rows)
 
 		// Extract the timeseries
 		rows, err = db.Query("SELECT DISTINCT key FROM timeseries")
@@ -141,6 +148,7 @@ the name of all timeseries that are tracked.
 			rows.Scan(&tname)
 			tnames = append(tnames, tname)
 		}
+		exitOnReadError(rows)
 
 		width := DescWidth + ValueWidth + 7
 		// Print the summary
diff --git a/cmd/list.go b/cmd/list.go
index df1451d..02085d2 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -73,6 +73,7 @@ func showSimulationIds(db *sql.DB, max int) {
 	for rows.Next() {
 		rows.Scan(&numRows)
 	}
+	exitOnReadError(rows)
 	if max < numRows {
 		fmt.Printf("Showing %d of %d rows\n", max, numRows)
 	}
@@ -90,6 +91,7 @@ func showSimulationIds(db *sql.DB, max int) {
 		rows.Scan(&simID, &timestamp)
 		fmt.Printf("| %-23d | %-29s |\n", simID, timestamp)
 	}
+	exitOnReadError(rows)
 	fmt.Printf("-----------------------------------------------------------\n")
 }
 
@@ -103,6 +105,7 @@ func showComments(db *sql.DB, max int) {
 	for rows.Next() {
 		rows.Scan(&numRows)
 	}
+	exitOnReadError(rows)
 	if max < numRows {
 		fmt.Printf("Showing %d of %d rows\n", max, numRows)
 	}
@@ -122,6 +125,7 @@ func showComments(db *sql.DB, max int) {
 		rows.Scan(&simID, &creationTime)
 		simIds = append(simIds, simID)
 	}
+	exitOnReadError(rows)
 
 	sql = "SELECT value from comments WHERE simID=?"
 	for _, v := range simIds {
@@ -134,6 +138,7 @@ func showComments(db *sql.DB, max int) {
 		for rows.Next() {
 			rows.Scan(&comment)
 		}
+		exitOnReadError(rows)
 
 		fmt.Printf("Sim Id %d:\n%s\n\n", v, comment)
 	}
diff --git a/cmd/time.go b/cmd/time.go
index eb8e67a..eb58717 100644
--- a/cmd/time.go
+++ b/cmd/time.go
@@ -43,6 +43,7 @@ prints the creation time of the simulation with ID 456.
 		for rows.Next() {
 			rows.Scan(&creationTime)
 		}
+		exitOnReadError(rows)
 		fmt.Printf("Simulation %d was created at %s\n", simid, creationTime)
 	},
 }
diff --git a/cmd/util.go b/cmd/util.go
index a748080..68121ba 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"database/sql"
 	"fmt"
+	"log"
 )
 
 // SimIDWidth is the width of the simulation ID field
@@ -26,6 +27,13 @@ func singleLine(length int) string {
 	return singleLine
 }
 
+// exitOnReadError ends the program if not all rows could be read from the database
+func exitOnReadError(rows *sql.Rows) {
+	if err := rows.Err(); err != nil {
+		log.Fatalf("Could not read from the database: %s\n", err)
+	}
+}
+
 // newestSimulationID returns the ID of the newest simulation
 func newestSimulationID(db *sql.DB) int {
 	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT 1")
@@ -38,6 +46,7 @@ func newestSimulationID(db *sql.DB) int {
 	for rows.Next() {
 		rows.Scan(&simID)
 	}
+	exitOnReadError(rows)
 	return simID
 }
 
-- 
2.43.0


From dafe83cf84a5375790d06840b6ce995765543445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:40 +0000
Subject: [PATCH 58/58] fix: exported timeseries contained zeros at timesteps
 where nothing is stored

---
 cmd/export.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/export.go b/cmd/export.go
index 29728c7..36f9a98 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -190,7 +190,12 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	for i, item := range dataArray {
 		record[0] = fmt.Sprintf("%d", i)
 		for j, k := range keys {
-			record[j+1] = fmt.Sprintf("%f", item[k])
+			value, ok := item[k]
+			if !ok {
+				// Nothing is stored for this timestep
+				value = math.NaN()
+			}
+			record[j+1] = fmt.Sprintf("%f", value)
 		}
 		writer.Write(record)
 	}
-- 
2.43.0

