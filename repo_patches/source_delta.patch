From 99a934b6fd37350dc1fbeddcfed91b3537fc324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 01/29] fix: find symmetries of graphs in non-standard lattice
 bases

---
 src/symmetries.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 9dfd9e1..df96aa3 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -147,7 +147,8 @@ pub fn symmetries<T, CS>(graph: &Graph<T, CS>) -> Vec<Automorphism<T, CS>>
 
     for i in 0..edge_lists.len() {
         if p.find(&edge_lists[i]) != p.find(&edge_lists[0]) {
-            let m = &bases[i] * &inv_b;
+            // edge vectors are rows here, so transpose to act on columns
+            let m = (&inv_b * &bases[i]).transpose();
 
             if is_unimodular(&m) {
                 let aff = &AffineMap::new(&m, &Vector::zero(T::dim()));
-- 
2.43.0


From 98834ef88cbeeaecf772aab569428adf2b57c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 02/29] fix: use column convention for the basis change in
 minimal_image

---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index df96aa3..b13056e 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -77,7 +77,7 @@ pub fn minimal_image<TIn, TOut, CSIn, CSOut>(graph: &Graph<TIn, CSIn>)
     } else {
         let b = extended_translation_basis(graph, &orbits[0]);
         let rows = b.iter().map(|v| Matrix::row(v)).collect::<Vec<_>>();
-        let m = Matrix::vstack(&rows).inverse().unwrap();
+        let m = Matrix::vstack(&rows).transpose().inverse().unwrap();
         let aff = &AffineMap::new(&m, &Vector::zero(TIn::dim()));
 
         let mut imgs = HashMap::new();
-- 
2.43.0


From 986a6ae39d3b06eee58468f2556ff0aa5b10580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 03/29] fix: reduce negative coordinates modulo Z into the unit
 interval

---
 src/arithmetic/geometry.rs |  9 ++++++---
 src/spacegroups/basics.rs  | 10 ++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/arithmetic/geometry.rs b/src/arithmetic/geometry.rs
index a5fd2fa..8719a81 100644
--- a/src/arithmetic/geometry.rs
+++ b/src/arithmetic/geometry.rs
@@ -116,10 +116,13 @@ impl<T, CS> Neg for Vector<T, CS>
 
 
 impl<T, CS> ModZ for Vector<T, CS>
-    where T: Clone + One + Rem<Output=T>
+    where T: Clone + One + Add<Output=T> + Rem<Output=T>
 {
     fn mod_z(&self) -> Self {
-        self.iter().cloned().map(|x| x % T::one()).collect()
+        // `%` truncates, so shift negative remainders into the unit interval
+        self.iter().cloned()
+            .map(|x| (x % T::one() + T::one()) % T::one())
+            .collect()
     }
 }
 
@@ -637,7 +640,7 @@ impl<T: Clone + Zero, CS: Clone> From<Matrix<T>> for AffineMap<T, CS> {
 }
 
 impl<T, CS> ModZ for AffineMap<T, CS>
-    where T: Clone + One + Rem<Output=T>, CS: Clone
+    where T: Clone + One + Add<Output=T> + Rem<Output=T>, CS: Clone
 {
     fn mod_z(&self) -> Self {
         AffineMap::new(&self.linear_matrix(), &self.shift().mod_z())
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 5f6999e..372d275 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -69,9 +69,15 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
                 translations.push(op.shift().into_iter().collect());
             }
         }
-        let cell: Vec<_> = rational_lattice_basis(&translations)
+        let mut cell: Vec<_> = rational_lattice_basis(&translations)
             .into_iter().map(|v| Vector::new(&v)).collect();
-        let to_primitive = CoordinateMap::to_basis(&cell);
+        let mut to_primitive = CoordinateMap::to_basis(&cell);
+
+        if to_primitive.determinant() < BigRational::zero() {
+            // keep the primitive cell right-handed
+            cell[0] = -&cell[0];
+            to_primitive = CoordinateMap::to_basis(&cell);
+        }
 
         let mut seen = HashSet::new();
         let mut ops = vec![];
-- 
2.43.0


From 11c7381c10ac128ad8e1e33cdf09570773b07746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 04/29] fix: reduce exact negative multiples of the pivot to
 zero

---
 src/arithmetic/linear_algebra.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 99c3f1d..b419b70 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -167,7 +167,11 @@ fn reduce_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &Vec<T>)
     where T: num_traits::PrimInt + SubAssign
 {
     let f = v[col] / b[col] - (
-        if v[col] < T::zero() { T::one() } else { T::zero() }
+        if v[col] < T::zero() && v[col] % b[col] != T::zero() {
+            T::one()
+        } else {
+            T::zero()
+        }
     );
 
     if f != T::zero() {
-- 
2.43.0


From 5d6b91f68fb0259d11e07a0c74ec90f21fbd8446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 05/29] fix: do not skip rows for columns without a pivot
 modulo a prime

---
 src/arithmetic/modular_solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 347f16a..176d610 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -63,9 +63,9 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
                     }
                 }
             }
-        }
 
-        irow += 1;
+            irow += 1;
+        }
     }
 
     a
-- 
2.43.0


From bc01f8b9060da8ccc7fb0abadd78546a98e9f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 06/29] fix: reduce negative multiples of the modulus to zero

---
 src/arithmetic/modular_solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 176d610..9d5166d 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -32,7 +32,7 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
     for row in matrix {
         assert!(a.len() == 0 || row.len() == a[0].len());
         let row = row.iter()
-            .map(|&n| n % prime + if n < 0 { prime } else { 0 })
+            .map(|&n| n.rem_euclid(prime))
             .collect();
         a.push(row);
     }
-- 
2.43.0


From 214ffc118ddb6864140451e8f52c426b9cf31e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 07/29] fix: solve systems whose determinant is divisible by
 the working prime

---
 src/arithmetic/modular_solver.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 9d5166d..b84e7c6 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -1,6 +1,9 @@
 use num_bigint::BigInt;
 use num_rational::BigRational;
 
+use super::linear_algebra::LinearAlgebra;
+use super::matrices;
+
 
 pub fn modular_inverse(argument: i64, modulus: i64) -> Option<i64> {
     let (mut t, mut t1) = (0, 1);
@@ -236,6 +239,20 @@ pub fn solve(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
             row.iter().map(|x| { rational_reconstruction(x, &p) }).collect()
         }).collect())
     } else {
-        None
+        // the prime divides the determinant, which need not be zero
+        solve_rational(a, b)
     }
 }
+
+
+fn solve_rational(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
+    let to_rational = |m: &Matrix| matrices::Matrix::vstack(
+        &m.iter().map(|row| row.iter()
+            .map(|&x| BigRational::from(BigInt::from(x)))
+            .collect::<matrices::Matrix<_>>()
+        ).collect::<Vec<_>>()
+    );
+
+    let inverse = to_rational(a).inverse()?;
+    Some((inverse * to_rational(b)).get_rows())
+}
-- 
2.43.0


From 1585524441cd3f389eca5ba7c5e78f8fd9780699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 08/29] fix: do not crash on zero denominators in operators

---
 src/spacegroups/parse_operator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index cde208a..b6d9d09 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -81,7 +81,11 @@ fn unsigned_fraction(input: &str) -> IResult<&str, Fraction> {
             separated_pair(
                 integer, tuple((space0, char('/'), space0)), integer
             ),
-            |(n, d)| Some(Ratio::new(n as i32, d as i32))
+            |(n, d)| if d == 0 {
+                None
+            } else {
+                Some(Ratio::new(n as i32, d as i32))
+            }
         ),
         map_opt(integer, |n| Some(Ratio::from_integer(n as i32))),
     ))(input)
-- 
2.43.0


From 758e49fdfd49c1d9b8310dd1ded3d8b68673492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 09/29] fix: reject operators with axes or coordinates beyond
 their dimension

---
 src/spacegroups/parse_operator.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index b6d9d09..d4e94a8 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -27,7 +27,9 @@ type Operator = (Vec<Vec<Ratio<i32>>>, Vec<Ratio<i32>>);
 pub fn parse_operator(input: &str) -> Result<(&str, Operator), String>
 {
     match delimited(space0, operator, space0)(input).finish() {
-        Ok((rest, op)) => Ok((rest, convert_operator(&op))),
+        Ok((rest, op)) => convert_operator(&op)
+            .map(|op| (rest, op))
+            .ok_or_else(|| "coordinates and axes do not match".to_string()),
         Err(err) => Err(err.to_string()),
     }
 }
@@ -107,7 +109,7 @@ fn integer(input: &str) -> IResult<&str, u32> {
 }
 
 
-fn convert_operator(op: &[Coordinate]) -> Operator {
+fn convert_operator(op: &[Coordinate]) -> Option<Operator> {
     let mut rows = vec![];
     let mut shift = vec![];
 
@@ -117,11 +119,18 @@ fn convert_operator(op: &[Coordinate]) -> Operator {
     }
 
     let n = shift.len();
+    let fits = |v: &Vec<Fraction>|
+        n <= v.len() && v[n..].iter().all(|q| *q.numer() == 0);
+
+    if !rows.iter().all(fits) {
+        return None;
+    }
+
     let rows = rows.iter()
         .map(|v| v.iter().take(n).copied().collect())
         .collect();
 
-    (rows, shift)
+    Some((rows, shift))
 }
 
 
-- 
2.43.0


From b1b36cf3e3235ae59faa58104b9e159cbf67b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 10/29] fix: do not ignore text after an operator

---
 src/spacegroups/parse_table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index e6ba02f..a9b6491 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -184,9 +184,9 @@ impl Centering {
 
 impl<CS: Clone> AffineMap<BigRational, CS> {
     pub fn from_string(s: &str) -> Option<Self> {
-        let (_, (linear, shift)) = parse_operator(s).ok()?;
+        let (rest, (linear, shift)) = parse_operator(s).ok()?;
 
-        if linear.len() != shift.len() {
+        if !rest.is_empty() || linear.len() != shift.len() {
             None
         } else {
             let linear: Vec<_> = linear.iter().map(promote_vec).collect();
-- 
2.43.0


From 655a7ea1d91c36f0118647587459f39c11d4d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 11/29] fix: reject singular coordinate transforms instead of
 crashing

---
 src/spacegroups/parse_table.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index a9b6491..a98fbe6 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -207,7 +207,13 @@ fn promote_vec<T: Coord>(v: &Vec<Ratio<i32>>) -> Vec<T> {
 
 impl<CSIn: Clone, CSOut: Clone>  CoordinateMap<BigRational, CSIn, CSOut> {
     pub fn from_string(s: &str) -> Option<Self> {
-        Some(CoordinateMap::new(&AffineMap::from_string(s)?))
+        let forward = AffineMap::from_string(s)?;
+
+        if forward.inverse().is_some() {
+            Some(CoordinateMap::new(&forward))
+        } else {
+            None
+        }
     }
 }
 
-- 
2.43.0


From 39a631c6dd59917ef45486fcf825c3a67048760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 12/29] fix: print unit shifts of operators

---
 src/spacegroups/parse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index a98fbe6..9ebee46 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -91,7 +91,7 @@ fn write_op_row(
             } else if val.is_negative() {
                 write!(f, "-")?;
             }
-            if !val.abs().is_one() {
+            if axis.is_empty() || !val.abs().is_one() {
                 write!(f, "{}", val.abs())?;
             }
             write!(f, "{}", axis)?;
-- 
2.43.0


From 4c4453b2ec759ce8419d5f63c05defab9deadeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 13/29] fix: report incomplete alias and lookup lines instead
 of crashing

---
 src/spacegroups/parse_table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 9ebee46..e5b5ac5 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -238,7 +238,8 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
             let fields: Vec<_> = content.split_whitespace().collect();
 
             if fields[0].to_lowercase() == "alias" {
-                alias.insert(fields[1].into(), fields[2].into());
+                let (name, target) = (fields.get(1)?, fields.get(2)?);
+                alias.insert(name.to_string(), target.to_string());
             } else if fields[0].to_lowercase() == "lookup" {
                 lookup.push(make_lookup_entry(&fields)?);
             } else {
@@ -266,8 +267,8 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
 
 
 fn make_lookup_entry(fields: &Vec<&str>) -> Option<Lookup> {
-    let name = fields[1].to_string();
-    let spec = fields[4..].join(" ");
+    let name = fields.get(1)?.to_string();
+    let spec = fields.get(4..)?.join(" ");
     let from_std = CoordinateMap::from_string(&spec)?;
 
     let system = CrystalSystem::from_string(fields[2])?;
-- 
2.43.0


From a4a174ac5ace9e84e47b1eb3078fa067f29681e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 14/29] fix: do not crash on fractions with zero denominator in
 input lines

---
 src/io/parse_cgd_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index 5d0db33..c9491b9 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -78,7 +78,7 @@ fn field(input: &str) -> IResult<&str, Field> {
 fn fraction(input: &str) -> IResult<&str, Ratio<i32>> {
     map_opt(
         separated_pair(integer, char('/'), unsigned_integer),
-        |(n, d)| Some(Ratio::new(n, d as i32))
+        |(n, d)| if d == 0 { None } else { Some(Ratio::new(n, d as i32)) }
     )(input)
 }
 
-- 
2.43.0


From a18f5ca05593e8353a2b9995ec172c02dc50b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 15/29] fix: do not split names at characters that only
 resemble spaces

---
 src/io/parse_cgd_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index c9491b9..ca0c35d 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -3,7 +3,7 @@ use std::iter;
 use nom::{IResult, Finish};
 use nom::bytes::complete::{take_till1, take_until1, tag};
 use nom::character::complete::{char, digit1, space0, space1};
-use nom::character::{is_space, is_alphabetic};
+use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
 use nom::number::complete::double;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
@@ -97,7 +97,7 @@ fn quoted_string(input: &str) -> IResult<&str, &str> {
 
 
 fn name(input: &str) -> IResult<&str, &str> {
-    take_till1(|c| c == '"' || c == '#' || is_space(c as u8))(input)
+    take_till1(|c| c == '"' || c == '#' || c == ' ' || c == '\t')(input)
 }
 
 
-- 
2.43.0


From 040a273a29f770f928f58a0aa9a06b9a979216b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 16/29] fix: read names that start like 'nan' or 'inf' as names

---
 src/io/parse_cgd_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index ca0c35d..e3c7829 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -5,7 +5,7 @@ use nom::bytes::complete::{take_till1, take_until1, tag};
 use nom::character::complete::{char, digit1, space0, space1};
 use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
-use nom::number::complete::double;
+use nom::number::complete::recognize_float;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
 use nom::combinator::{map_opt, rest, opt};
 use nom::branch::alt;
@@ -68,7 +68,7 @@ fn key(input: &str) -> IResult<&str, &str> {
 fn field(input: &str) -> IResult<&str, Field> {
     alt((
         map_opt(fraction, |f| Some(Field::Fraction(f))),
-        map_opt(double, double_to_field()),
+        map_opt(recognize_float, |s: &str| s.parse().ok().and_then(double_to_field())),
         map_opt(quoted_string, |f| Some(Field::Name(f.to_string()))),
         map_opt(name, |f| Some(Field::Name(f.to_string()))),
     ))(input)
-- 
2.43.0


From 4bdd8d1a91c584989b2240007f827f1320591385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 17/29] fix: warn about any text after a block type or 'end'

---
 src/io/parse_cgd_blocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index d84cbb2..f8d2a98 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -103,7 +103,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                             entry.add_error("block has no type or content");
                         }
                         current_block.lineno_end = entry.line_number;
-                        if entry.fields.len() > 1 {
+                        if entry.fields.len() > 0 {
                             entry.add_warning("text after 'end' ignored");
                         }
                         current_block.entries.push(entry);
@@ -116,7 +116,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.block_type = new_key;
                         in_block = true;
                         current_key = None;
-                        if entry.fields.len() > 1 {
+                        if entry.fields.len() > 0 {
                             entry.add_warning("text after block type ignored");
                         }
                         current_block.entries.push(entry);
-- 
2.43.0


From 7c33dc3b42612d45ae772abc45984c6c5e4782f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 18/29] fix: stop reading when the input stream fails

---
 src/io/parse_cgd_blocks.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index f8d2a98..b78dec8 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -1,4 +1,4 @@
-use std::io::{BufRead, Read, BufReader};
+use std::io::{self, BufRead, Read, BufReader};
 
 use super::parse_cgd_line::{parse_cgd_line, Field};
 
@@ -151,7 +151,20 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
     let mut all_entries = vec![];
     let mut lineno = 0;
 
-    for line in BufReader::new(input).lines() {
+    let mut reader = BufReader::new(input);
+    let mut failed = false;
+
+    while !failed {
+        let mut bytes = vec![];
+        let line = match reader.read_until(b'\n', &mut bytes) {
+            Ok(0) => break,
+            Ok(_) => decode_line(bytes),
+            Err(e) => {
+                // the stream itself is broken, so there is no next line
+                failed = true;
+                Err(e)
+            },
+        };
         let mut current_entry = Entry::new(
             EntryType::Data, lineno, None, None, vec![]
         );
@@ -194,6 +207,19 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
 }
 
 
+fn decode_line(mut bytes: Vec<u8>) -> io::Result<String> {
+    if bytes.last() == Some(&b'\n') {
+        bytes.pop();
+        if bytes.last() == Some(&b'\r') {
+            bytes.pop();
+        }
+    }
+
+    String::from_utf8(bytes)
+        .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
+}
+
+
 #[test]
 fn test_parse_cgd_block() {
     let input =
-- 
2.43.0


From 908dfc529ce3cc77dd81a910260f20e46cbaf30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 19/29] fix: do not carry a keyword over to data after the end
 of its block

---
 src/io/parse_cgd_blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index b78dec8..1bd950a 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -109,6 +109,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.entries.push(entry);
                         blocks.push(current_block);
                         current_block = Block::new();
+                        current_key = None;
                         in_block = false;
                     } else if !in_block {
                         entry.entry_type = EntryType::Begin;
-- 
2.43.0


From ade32608151adda3057182c2b2ec300145cefcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 20/29] fix: report stray lines after the final block

---
 src/io/parse_cgd_blocks.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 1bd950a..43d6cfa 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -142,6 +142,12 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
         current_block.lineno_end = last_entry.line_number;
         last_entry.add_error("final block is missing an 'end' statement");
         blocks.push(current_block);
+    } else if let Some(last_entry) = current_block.entries.last() {
+        // stray lines after the final block, all with errors noted
+        current_block.lineno_start = current_block.entries[0].line_number;
+        current_block.lineno_end = last_entry.line_number;
+        current_block.block_type = "--void--".to_string();
+        blocks.push(current_block);
     }
 
     blocks
-- 
2.43.0


From f7572d6d5923db8b8675bee7c5b48138df89cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 21/29] fix: allow primitive groups in PrimitiveSetting

---
 src/spacegroups/basics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 372d275..fddcbd3 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -63,7 +63,8 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
         let id = Matrix::identity(dim);
         let s0 = Vector::zero(dim);
 
-        let mut translations = vec![];
+        // include the zero shift, in case there are no others
+        let mut translations = vec![s0.clone().into_iter().collect()];
         for op in ops_all {
             if op.linear_matrix() == id && op.shift() != s0 {
                 translations.push(op.shift().into_iter().collect());
-- 
2.43.0


From a4c3676592d91205b583d97d08d5277294f8d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 22/29] fix: return the full shift space for groups without
 rotations

---
 src/spacegroups/basics.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index fddcbd3..3904101 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -159,8 +159,12 @@ pub fn shift_space<CS: Clone>(ops: &Vec<AffineMap<BigRational, CS>>)
         }
     }
 
-    let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
-    Matrix::vstack(&eqns).null_space()
+    if eqns.is_empty() {
+        Some(id)
+    } else {
+        let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
+        Matrix::vstack(&eqns).null_space()
+    }
 }
 
 
-- 
2.43.0


From aef7a2e2f5ccc0516a350da09bbc9ea2f00dd837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 23/29] fix: use column convention for invariant Gram matrices

---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 3904101..e01b759 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -127,7 +127,7 @@ pub fn gram_matrix_configuration_space<CS: Clone>(
                 let mut eqn = vec![BigRational::zero(); m];
                 for ja in 0..dim {
                     for jb in 0..dim {
-                        eqn[k[(ja, jb)]] += &s[(ia, ja)] * &s[(ib, jb)];
+                        eqn[k[(ja, jb)]] += &s[(ja, ia)] * &s[(jb, ib)];
                     }
                 }
                 eqn[k[(ia, ib)]] -= BigRational::one();
-- 
2.43.0


From 5d0727f9e362e33add53dacb6646093043b6e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 24/29] Verification hooks (cfg systre_verif)

---
 src/io/parse_cgd_blocks.rs | 43 ++++++++++++++++++++++++++++++++++++++
 src/lib.rs                 |  2 ++
 src/spacegroups/basics.rs  | 19 +++++++++++++++++
 src/spacegroups/finder.rs  | 35 +++++++++++++++++++++++++++++++
 4 files changed, 99 insertions(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 43d6cfa..c072d77 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -227,6 +227,49 @@ fn decode_line(mut bytes: Vec<u8>) -> io::Result<String> {
 }
 
 
+#[cfg(systre_verif)]
+pub mod verif_hooks {
+    //! Access to private items for external verification harnesses.
+    use super::*;
+
+    pub struct EntryView<'a> {
+        pub entry_type: &'a EntryType,
+        pub key: &'a Option<String>,
+        pub fields: &'a Vec<Field>,
+        pub notes: &'a Vec<Note>,
+        pub line_number: usize,
+        pub content: &'a Option<String>,
+    }
+
+    pub struct BlockView<'a> {
+        pub block_type: &'a String,
+        pub lineno_start: usize,
+        pub lineno_end: usize,
+        pub entries: &'a Vec<Entry>,
+    }
+
+    pub fn view_entry(e: &Entry) -> EntryView<'_> {
+        EntryView {
+            entry_type: &e.entry_type,
+            key: &e.key,
+            fields: &e.fields,
+            notes: &e.notes,
+            line_number: e.line_number,
+            content: &e.content,
+        }
+    }
+
+    pub fn view_block(b: &Block) -> BlockView<'_> {
+        BlockView {
+            block_type: &b.block_type,
+            lineno_start: b.lineno_start,
+            lineno_end: b.lineno_end,
+            entries: &b.entries,
+        }
+    }
+}
+
+
 #[test]
 fn test_parse_cgd_block() {
     let input =
diff --git a/src/lib.rs b/src/lib.rs
index 76c5828..b515cb3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // for the verification hooks
+
 pub mod arithmetic;
 pub mod io;
 pub mod partitions;
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index e01b759..0ea46f5 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -168,6 +168,25 @@ pub fn shift_space<CS: Clone>(ops: &Vec<AffineMap<BigRational, CS>>)
 }
 
 
+#[cfg(systre_verif)]
+pub mod verif_hooks {
+    //! Access to private items for external verification harnesses.
+    use super::*;
+
+    pub fn primitive_setting<CS, CSP>(ops: &Vec<AffineMap<BigRational, CS>>)
+        -> (
+            Vec<Vector<BigRational, CS>>,
+            CoordinateMap<BigRational, CS, CSP>,
+            Vec<AffineMap<BigRational, CSP>>
+        )
+        where CS: Clone + Eq, CSP: Clone + Eq + Hash
+    {
+        let ps: PrimitiveSetting<CS, CSP> = PrimitiveSetting::new(ops);
+        (ps.cell, ps.to_primitive, ps.ops)
+    }
+}
+
+
 #[cfg(test)]
 mod tests {
     use num_bigint::BigInt;
diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index bae7037..4b4b497 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -362,6 +362,41 @@ fn as_columns<T>(vs: Vec<Vec<T>>) -> Vec<Matrix<T>>
 }
 
 
+#[cfg(systre_verif)]
+pub mod verif_hooks {
+    //! Access to private items for external verification harnesses.
+    use num_rational::BigRational;
+    use super::*;
+
+    pub struct Details {
+        pub matrix: Matrix<BigRational>,
+        pub dimension: usize,
+        pub axis: Option<Vec<BigRational>>,
+        pub order: usize,
+        pub is_orientation_preserving: bool,
+        pub is_clockwise: bool,
+    }
+
+    pub fn operator_details(matrix: Matrix<BigRational>) -> Details {
+        let d = OperatorDetails::from(matrix);
+        Details {
+            matrix: d.matrix,
+            dimension: d.dimension,
+            axis: d.axis,
+            order: d.order,
+            is_orientation_preserving: d.is_orientation_preserving,
+            is_clockwise: d.is_clockwise,
+        }
+    }
+
+    pub fn crystal_system_and_basis_2d(ops: &[Matrix<BigRational>])
+        -> (CrystalSystem, Vec<Matrix<BigRational>>)
+    {
+        super::crystal_system_and_basis_2d(ops)
+    }
+}
+
+
 #[cfg(test)]
 mod tests {
     use num_bigint::BigInt;
-- 
2.43.0


From 01ced80208f9803ad75dce40be6c13d2e2fb7fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 25/29] fix: assemble rational systems row by row

---
 src/arithmetic/modular_solver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index b84e7c6..423d683 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -247,10 +247,10 @@ pub fn solve(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
 
 fn solve_rational(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
     let to_rational = |m: &Matrix| matrices::Matrix::vstack(
-        &m.iter().map(|row| row.iter()
+        &m.iter().map(|row| matrices::Matrix::row(&row.iter()
             .map(|&x| BigRational::from(BigInt::from(x)))
-            .collect::<matrices::Matrix<_>>()
-        ).collect::<Vec<_>>()
+            .collect::<Vec<_>>()
+        )).collect::<Vec<_>>()
     );
 
     let inverse = to_rational(a).inverse()?;
-- 
2.43.0


From b38b04fd2cb940d01500fc0bfdca9da0d2e9431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 26/29] fix: keep entries small in rational_lattice_basis

---
 src/spacegroups/lattices.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/spacegroups/lattices.rs b/src/spacegroups/lattices.rs
index 41975d7..84eb727 100644
--- a/src/spacegroups/lattices.rs
+++ b/src/spacegroups/lattices.rs
@@ -226,7 +226,7 @@ pub fn rational_lattice_basis(vectors: &Vec<Vec<BigRational>>)
         }
     }
 
-    let common_denom = common_denom.to_i32().unwrap();
+    let common_denom = common_denom.to_i64().unwrap();
     let f = BigRational::from(BigInt::from(common_denom));
 
     let mut basis = vec![];
@@ -238,8 +238,17 @@ pub fn rational_lattice_basis(vectors: &Vec<Vec<BigRational>>)
     }
 
     for d in vectors {
-        let d: Vec<_> = d.iter().map(|x| r_to_i32(&(x * &f)).unwrap()).collect();
+        let d: Vec<_> = d.iter()
+            .map(|x| r_to_i64(&(x * &f)).unwrap() % common_denom)
+            .collect();
         extend_basis(&d, &mut basis);
+
+        // all multiples of common_denom are in the lattice; keep entries small
+        for b in &mut basis {
+            for x in b.iter_mut().skip_while(|x| **x == 0).skip(1) {
+                *x %= common_denom;
+            }
+        }
     }
 
     basis.iter()
@@ -251,9 +260,9 @@ pub fn rational_lattice_basis(vectors: &Vec<Vec<BigRational>>)
 }
 
 
-fn r_to_i32(x: &BigRational) -> Option<i32> {
+fn r_to_i64(x: &BigRational) -> Option<i64> {
     if x.is_integer() {
-        x.to_integer().to_i32()
+        x.to_integer().to_i64()
     } else {
         None
     }
-- 
2.43.0


From 4d899eb6e2c6e8e53bc5ef83e487e8a097035c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 27/29] fix: do not take rounding residue for a pivot

Eliminating a column of double precision numbers can leave a tiny residue
where the exact result is zero. It was used as a pivot, so that well
conditioned systems with more unknowns than equations got wrong solutions.
---
 src/arithmetic/linear_algebra.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index b419b70..ef0d755 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -71,7 +71,7 @@ impl Scalar for f64 {
         v[col] = 0.0;
 
         for k in (col + 1)..v.len() {
-            v[k] -= b[k] * f;
+            v[k] = subtract_rounded(v[k], b[k] * f);
         }
     }
 
@@ -89,7 +89,7 @@ impl Scalar for f64 {
         v[col] = 0.0;
 
         for k in (col + 1)..v.len() {
-            v[k] -= b[k] * f;
+            v[k] = subtract_rounded(v[k], b[k] * f);
         }
     }
 
@@ -100,6 +100,13 @@ impl Scalar for f64 {
     }
 }
 
+/// Subtracts `b` from `a`, but returns zero if they only differ by rounding
+/// errors, which must not be mistaken for a pivot.
+fn subtract_rounded(a: f64, b: f64) -> f64 {
+    let d = a - b;
+    if d.abs() <= 1e-12 * a.abs() { 0.0 } else { d }
+}
+
 impl Scalar for i32 {
     fn clear_column(col: usize, v: &mut Vec<Self>, b: &mut Vec<Self>) {
         clear_column_primitive_int(col, v, b);
-- 
2.43.0


From e208c9bb2b818b592d3422d50449243aba84d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:37 +0000
Subject: [PATCH 28/29] fix: keep component measures from overflowing

The lattice spanned by the shifts of a component was kept in an unreduced
32-bit basis, whose entries grow with every shift added: sums of labels of
a few thousand overflowed, and gave a wrong rank or multiplicity where
overflow is not checked. Use 64 bits and reduce the basis at each step.
---
 src/pgraphs.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index 851e06e..7b6c879 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -10,7 +10,8 @@ use num_bigint::BigInt;
 use num_rational::BigRational;
 
 use crate::arithmetic::geometry;
-use crate::arithmetic::linear_algebra::extend_basis;
+use crate::arithmetic::linear_algebra::{extend_basis, LinearAlgebra};
+use crate::arithmetic::matrices::Matrix;
 use crate::partitions::Partition;
 use crate::symmetries::symmetries;
 
@@ -714,20 +715,25 @@ pub fn graph_component_measures<T, CS>(g: &Graph<T, CS>, v0: &Vertex)
         vertices.insert(e.tail);
     }
 
-    let mut basis = vec![];
+    let mut basis: Vec<Vec<i64>> = vec![];
     for e in &edges {
-        extend_basis(&e.shift.to_vec(), &mut basis);
+        let s: Vec<_> = e.shift.to_vec().iter().map(|&x| x as i64).collect();
+        extend_basis(&s, &mut basis);
+
+        // keep entries small; in an unreduced basis they grow exponentially
+        let rows: Vec<_> = basis.iter().map(|b| Matrix::row(b)).collect();
+        basis = Matrix::vstack(&rows).reduced_basis().get_rows();
     }
 
     let size = vertices.len();
     let rank = basis.len();
 
     let multiplicity = if rank == T::dim() {
-        let mut d: i32 = 1;
+        let mut d: i64 = 1;
         for i in 0..basis.len() {
             d *= basis[i][i];
         }
-        Some(d.abs())
+        Some(i32::try_from(d.abs()).expect("multiplicity out of range"))
     } else {
         None
     };
-- 
2.43.0


From e7fba684432b8793194cdab20323eb2c7957da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:01:03 +0000
Subject: [PATCH 29/29] fix: use 128 bits for component measures

Clearing one vector with three basis vectors multiplies their entries, so
64 bits overflowed for labels of about a million.
---
 src/arithmetic/linear_algebra.rs | 20 ++++++++++++++++++++
 src/pgraphs.rs                   |  6 +++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index ef0d755..5725eb0 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -147,6 +147,26 @@ impl Scalar for i64 {
     }
 }
 
+impl Scalar for i128 {
+    fn clear_column(col: usize, v: &mut Vec<Self>, b: &mut Vec<Self>) {
+        clear_column_primitive_int(col, v, b);
+    }
+
+    fn normalize_column(col: usize, v: &mut Vec<Self>) {
+        normalize_column_primitive_int(col, v);
+    }
+
+    fn reduce_column(col: usize, v: &mut Vec<Self>, b: &Vec<Self>) {
+        reduce_column_primitive_int(col, v, b);
+    }
+
+    fn solve_row(a: &Vec<Self>, x: &Vec<Vec<Self>>, b: &Vec<Self>)
+        -> Option<Vec<Self>>
+    {
+        solve_row_primitive_int(a, x, b)
+    }
+}
+
 
 fn clear_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &mut Vec<T>)
     where T: num_traits::PrimInt
diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index 7b6c879..9d01e8e 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -715,9 +715,9 @@ pub fn graph_component_measures<T, CS>(g: &Graph<T, CS>, v0: &Vertex)
         vertices.insert(e.tail);
     }
 
-    let mut basis: Vec<Vec<i64>> = vec![];
+    let mut basis: Vec<Vec<i128>> = vec![];
     for e in &edges {
-        let s: Vec<_> = e.shift.to_vec().iter().map(|&x| x as i64).collect();
+        let s: Vec<_> = e.shift.to_vec().iter().map(|&x| x as i128).collect();
         extend_basis(&s, &mut basis);
 
         // keep entries small; in an unreduced basis they grow exponentially
@@ -729,7 +729,7 @@ pub fn graph_component_measures<T, CS>(g: &Graph<T, CS>, v0: &Vertex)
     let rank = basis.len();
 
     let multiplicity = if rank == T::dim() {
-        let mut d: i64 = 1;
+        let mut d: i128 = 1;
         for i in 0..basis.len() {
             d *= basis[i][i];
         }
-- 
2.43.0

