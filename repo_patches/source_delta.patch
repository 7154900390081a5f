From 7b6fa7b88138a17b599dfd1e3571348daf5f27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 01/19] fix: adding a constant that cancels the constant of a
 sum no longer panics

---
 src/model/node.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/model/node.rs b/src/model/node.rs
index 01d0a99..f3507b9 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -172,6 +172,9 @@ macro_rules! impl_node_add_node {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }        
@@ -214,6 +217,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
@@ -251,6 +257,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
-- 
2.43.0


From 0b7d9bd8e20af23065072a3c0defb34d12e7cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 02/19] fix: derivative of an expression divided by itself is
 zero

---
 src/model/function/div.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 691c445..fa04411 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -33,7 +33,10 @@ impl NodeBase for FunctionDiv {
     }
 
     fn partial(&self, arg: &Node) -> Node { 
-        if self.args.0 == *arg {
+        if self.args.0 == *arg && self.args.1 == *arg {
+            return ConstantScalar::new(0.); // f/f
+        }
+        else if self.args.0 == *arg {
             return 1./&self.args.1;
         }
         else if self.args.1 == *arg {
-- 
2.43.0


From e3242630e8c8d3e0ea885f3984d114db3947bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 03/19] fix: violation of an inequality is NaN, not zero, when
 it cannot be evaluated

---
 src/model/constraint.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model/constraint.rs b/src/model/constraint.rs
index 10ee986..6916c03 100644
--- a/src/model/constraint.rs
+++ b/src/model/constraint.rs
@@ -64,10 +64,12 @@ impl Constraint {
                 (self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values)).abs()
             },
             ConstraintKind::LessEqual => { 
-                0_f64.max(self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values))
+                let v = self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values);
+                if v < 0. { 0. } else { v } // keeps NaN
             },
             ConstraintKind::GreaterEqual => {
-                0_f64.max(self.0.rhs.evaluate(var_values)-self.0.lhs.evaluate(var_values))
+                let v = self.0.rhs.evaluate(var_values)-self.0.lhs.evaluate(var_values);
+                if v < 0. { 0. } else { v } // keeps NaN
             },
         }
     }
-- 
2.43.0


From 8eb54310d6a591bdde044a3354fb110c6f5b5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 04/19] fix: cosine and sine of a constant expression are
 constant in the standard form

---
 src/model/function/cos.rs | 7 ++++++-
 src/model/function/sin.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/model/function/cos.rs b/src/model/function/cos.rs
index ab19c7c..5a56f6f 100644
--- a/src/model/function/cos.rs
+++ b/src/model/function/cos.rs
@@ -51,7 +51,12 @@ impl NodeStd for FunctionCos {
 
     fn std_properties(&self) -> NodeStdProp {
         let mut p = self.arg.std_properties();
-        p.affine = false;
+        if p.a.is_empty() {
+            p.b = p.b.cos(); // constant
+        }
+        else {
+            p.affine = false;
+        }
         p
     }
 }
diff --git a/src/model/function/sin.rs b/src/model/function/sin.rs
index 370d329..c9a9d88 100644
--- a/src/model/function/sin.rs
+++ b/src/model/function/sin.rs
@@ -51,7 +51,12 @@ impl NodeStd for FunctionSin {
 
     fn std_properties(&self) -> NodeStdProp {
         let mut p = self.arg.std_properties();
-        p.affine = false;
+        if p.a.is_empty() {
+            p.b = p.b.sin(); // constant
+        }
+        else {
+            p.affine = false;
+        }
         p
     }
 }
-- 
2.43.0


From c562cd60ec61158bc6862fa5eb13855d93f9061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 05/19] fix: Ipopt Hessian callback always returns values for
 the given point, multipliers and factor

---
 src/solver/ipopt.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 328ee71..e536819 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -298,7 +298,7 @@ extern fn eval_h_cb(n: c_int,
                     obj_factor: c_double, 
                     m: c_int,
                     lambda: *const c_double,
-                    new_lambda: c_int,
+                    _new_lambda: c_int,
                     nele_hess: c_int,
                     irow: *mut c_int,
                     jcol: *mut c_int,
@@ -344,23 +344,21 @@ extern fn eval_h_cb(n: c_int,
                 }
                 p.evaluate(slice::from_raw_parts(x, p.nx()));
             }
-            if new_lambda == cipopt::TRUE {
+            if p.nf() > 0 {
                 if lambda.is_null() {
                     return cipopt::FALSE;
                 }
                 p.combine_h(slice::from_raw_parts(lambda.add(p.na()), p.nf()));
             }
-            if new_x == cipopt::TRUE || new_lambda == cipopt::TRUE {
-                let mut k: usize = 0;
-                for (_row, _col, val) in p.hphi().iter() {
-                    *values.add(k) = obj_factor*(*val); 
-                    k += 1;
-                }
-                for (_row, _col, val) in p.hcomb().iter() {
-                    *values.add(k) = *val; 
-                    k += 1;
-                }
-            }   
+            let mut k: usize = 0;
+            for (_row, _col, val) in p.hphi().iter() {
+                *values.add(k) = obj_factor*(*val); 
+                k += 1;
+            }
+            for (_row, _col, val) in p.hcomb().iter() {
+                *values.add(k) = *val; 
+                k += 1;
+            }
         }
     };
     cipopt::TRUE
-- 
2.43.0


From fe2a07e7b0f8a2a3a8d42c169dd0f6af996075df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 06/19] fix: Ipopt problem is freed when a parameter cannot be
 obtained or set

---
 src/solver/ipopt.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index e536819..0acf45a 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -60,6 +60,18 @@ impl Solver for SolverIpopt {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameter print_level
+        let print_level: &i32 = match self.get_param("print_level") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+        };
+
+        // Parameter sb
+        let sb: &str = match self.get_param("sb") {
+            Some(SolverParam::StrParam(s)) => s.as_ref(),
+            _ => return Err(SimpleError::new("unable to get parameter sb"))
+        };
+
         // Init
         let n: c_int = p.nx().to_i32().unwrap();
         let m: c_int = (p.na() + p.nf()).to_i32().unwrap();
@@ -88,20 +100,16 @@ impl Solver for SolverIpopt {
             return Err(SimpleError::new("failed to create ipopt problem"))
         }
 
-        // Parameter print_level
-        let print_level: &i32 = match self.get_param("print_level") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+        // Options
+        let options = unsafe {
+            add_int_option(cprob, "print_level", *print_level)
+                .and_then(|_| add_str_option(cprob, "sb", sb))
         };
-        unsafe { add_int_option(cprob, "print_level", *print_level)? };
+        if let Err(e) = options {
+            unsafe { cipopt::FreeIpoptProblem(cprob) };
+            return Err(e);
+        }
 
-        // Parameter sb
-        let sb: &str = match self.get_param("sb") {
-            Some(SolverParam::StrParam(s)) => s.as_ref(),
-            _ => return Err(SimpleError::new("unable to get parameter sb"))
-        };
-        unsafe { add_str_option(cprob, "sb", sb)? };
-        
         // Buffers
         let mut x: Vec<f64> = vec![0.;p.nx()];
         let mut lamnu: Vec<f64> = vec![0.;p.na()+p.nf()];        
-- 
2.43.0


From 62bcd96ff0c0e4c8704a7eb16aac17fbd1c17228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 07/19] fix: string parameter with an interior nul byte is an
 error, not a panic

---
 src/solver/ipopt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 0acf45a..74202ad 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -390,7 +390,10 @@ unsafe fn add_str_option(cprob: cipopt::IpoptProblem,
                          val: &str) 
                          -> Result<(), SimpleError> {
     let ckey = CString::new(key).unwrap();
-    let cval = CString::new(val).unwrap();
+    let cval = match CString::new(val) {
+        Ok(c) => c,
+        Err(_e) => return Err(SimpleError::new(format!("unable to set parameter {}", key)))
+    };
     match cipopt::AddIpoptStrOption(cprob, 
                                     ckey.as_ptr() as *const c_char, 
                                     cval.as_ptr() as *const c_char) {
-- 
2.43.0


From 395591e81bf63262893e3f5d0ab8f988f38e6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 08/19] fix: cbc's "Integer infeasible" is reported as
 infeasible, not as an error

---
 src/solver/cbc_cmd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 9f7d8f8..3cbedbe 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -64,7 +64,8 @@ impl SolverCbcCmd {
 
         // Status
         r.read_line(&mut line)?;
-        match line.split_ascii_whitespace().next() {
+        let mut words = line.split_ascii_whitespace();
+        match words.next() {
             Some(s) => {
                 if !cbc && s == "optimal" {
                     status = SolverStatus::Solved;
@@ -78,6 +79,9 @@ impl SolverCbcCmd {
                 else if cbc && s == "Infeasible" {
                     status = SolverStatus::Infeasible;
                 }
+                else if cbc && s == "Integer" && words.next() == Some("infeasible") {
+                    status = SolverStatus::Infeasible;
+                }
             },
             None => {
                 status = SolverStatus::Error;
-- 
2.43.0


From 4f88b4a5d44f223c65dc2b3fe45229994b0feff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 09/19] fix: solution file that names an unknown variable or
 row is an error, not a panic

---
 src/solver/cbc_cmd.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 3cbedbe..610e526 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -125,6 +125,11 @@ impl SolverCbcCmd {
                 None => return Err(e)
             };
 
+            // Out of range
+            if (dtype == "x" && index >= p.nx()) || (dtype == "c" && index >= p.na()) {
+                return Err(e);
+            }
+
             // Variable
              if dtype == "x" {
                 solution.x[index] = value;
-- 
2.43.0


From fb27d54ed5f9c020ecb68e947857fb4c13ee32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 10/19] fix: clp solutions are read also in the format that clp
 1.17 writes

---
 src/solver/cbc_cmd.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 610e526..169386a 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -52,6 +52,7 @@ impl SolverCbcCmd {
         let mut index: usize;
         let mut value: f64;
         let mut mul: f64;
+        let mut obj_line = false;
         let mut status = SolverStatus::Error;
         let mut solution = ProblemSol::new(p.nx(), p.na(), 0);
         let f = match File::open(fname) {
@@ -69,14 +70,15 @@ impl SolverCbcCmd {
             Some(s) => {
                 if !cbc && s == "optimal" {
                     status = SolverStatus::Solved;
+                    obj_line = true;
                 }
                 else if !cbc && s == "infeasible" {
                     status = SolverStatus::Infeasible;
                 }
-                else if cbc && s == "Optimal" {
+                else if s == "Optimal" { // cbc, and clp since 1.17
                     status = SolverStatus::Solved;
                 }
-                else if cbc && s == "Infeasible" {
+                else if s == "Infeasible" {
                     status = SolverStatus::Infeasible;
                 }
                 else if cbc && s == "Integer" && words.next() == Some("infeasible") {
@@ -94,7 +96,7 @@ impl SolverCbcCmd {
         }
 
         // Objective value
-        if !cbc {
+        if obj_line {
             r.read_line(&mut line)?;
         }
 
-- 
2.43.0


From b369aa749165d29c1ced94d6b5f9ae3321c6e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 11/19] fix: no input file is left behind when parameter
 logLevel cannot be obtained

---
 src/solver/cbc_cmd.rs | 12 ++++++------
 src/solver/clp_cmd.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 169386a..7e2bb5a 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -170,6 +170,12 @@ impl Solver for SolverCbcCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("cbc")
@@ -200,12 +206,6 @@ impl Solver for SolverCbcCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Cbc command
         match Command::new("cbc")
                       .args(&[&input_filename,
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index 0d4b58e..c3f361f 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -52,6 +52,12 @@ impl Solver for SolverClpCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("clp")
@@ -82,12 +88,6 @@ impl Solver for SolverClpCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Clp command
         match Command::new("clp")
                       .stdout(if *log_level == 0 { Stdio::null() } else { Stdio::inherit() })
-- 
2.43.0


From a8299373da324970dec867753778de94854a1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 12/19] fix: a solver command that fails or is killed gives
 status error, its output is not trusted

---
 src/solver/cbc_cmd.rs | 7 ++++++-
 src/solver/clp_cmd.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 7e2bb5a..b39509f 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -218,7 +218,12 @@ impl Solver for SolverCbcCmd {
                               &output_filename])
                       .spawn()
                       .and_then(|mut cmd| cmd.wait()) {
-            Ok(_s) => (),
+            Ok(s) if s.success() => (),
+            Ok(_s) => {
+                remove_file(&input_filename).ok();
+                remove_file(&output_filename).ok();
+                return Ok((SolverStatus::Error, ProblemSol::new(p.nx(), p.na(), 0)));
+            },
             Err(_e) => {
                 remove_file(&input_filename).ok();
                 remove_file(&output_filename).ok();
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index c3f361f..203b945 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -101,7 +101,12 @@ impl Solver for SolverClpCmd {
                               &output_filename])
                       .spawn()
                       .and_then(|mut cmd| cmd.wait()) {
-            Ok(_s) => (),
+            Ok(s) if s.success() => (),
+            Ok(_s) => {
+                remove_file(&input_filename).ok();
+                remove_file(&output_filename).ok();
+                return Ok((SolverStatus::Error, ProblemSol::new(p.nx(), p.na(), 0)));
+            },
             Err(_e) => {
                 remove_file(&input_filename).ok();
                 remove_file(&output_filename).ok();
-- 
2.43.0


From c274b648a92041a539a3be4c076fd4eb776acace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 13/19] fix: solution file that is cut off or lacks values is
 an error, not solved with zeros

---
 src/solver/cbc_cmd.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index b39509f..8c618bc 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -101,8 +101,16 @@ impl SolverCbcCmd {
         }
 
         // Results
-        for l in r.lines() {
-            line = l?;
+        let mut x_read = vec![false; p.nx()];
+        let mut c_read = vec![false; p.na()];
+        loop {
+            line.clear();
+            if r.read_line(&mut line)? == 0 {
+                break;
+            }
+            if !line.ends_with('\n') { // cut off
+                return Err(e);
+            }
             let mut iter = line.split_ascii_whitespace();
             iter.next();
             name = match iter.next() {
@@ -134,6 +142,7 @@ impl SolverCbcCmd {
 
             // Variable
              if dtype == "x" {
+                x_read[index] = true;
                 solution.x[index] = value;
                 if mul > 0. {
                     solution.pi[index] = mul;
@@ -145,6 +154,7 @@ impl SolverCbcCmd {
 
             // Constraint
             else if dtype == "c" {
+                c_read[index] = true;
                 solution.lam[index] = mul;
             }
             else {
@@ -152,6 +162,11 @@ impl SolverCbcCmd {
             }
         }
 
+        // Incomplete
+        if x_read.contains(&false) || c_read.contains(&false) {
+            return Err(e);
+        }
+
         Ok((status, solution))
     }
 }
-- 
2.43.0


From 9dc7f4994544a8bd190ebc453ad879a3dbfb917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 14/19] fix: Jacobian rows of nonlinear constraints come after
 those of linear ones for Ipopt

---
 src/solver/ipopt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 74202ad..f8c291f 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -274,7 +274,7 @@ extern fn eval_jac_g_cb(n: c_int,
                 k += 1;
             }
             for (row, col, _val) in p.j().iter() {
-                *irow.add(k) = row.to_i32().unwrap();
+                *irow.add(k) = (p.na()+row).to_i32().unwrap();
                 *jcol.add(k) = col.to_i32().unwrap();
                 k += 1;
             }
-- 
2.43.0


From a5b4d0d3bfd7b59aa16556a40fad7bbd11343f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 15/19] fix: dual of a constraint that was added several times
 no longer depends on hash order

---
 src/model/model.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/model/model.rs b/src/model/model.rs
index 7332057..366be49 100644
--- a/src/model/model.rs
+++ b/src/model/model.rs
@@ -140,17 +140,18 @@ impl Model {
         }
 
         // Final constr duals
-        for (index, constr) in std_prob.aindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.lam[*index]);
-        }
-        for (index, constr) in std_prob.jindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.nu[*index]);
-        }
-        for (index, constr) in std_prob.uindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.mu[*index]);
-        }
-        for (index, constr) in std_prob.lindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.pi[*index]);
+        // (the dual of a constraint that was added several times is the sum over its rows)
+        for (constrs, vals) in [(&std_prob.aindex2constr, &solution.lam),
+                                (&std_prob.jindex2constr, &solution.nu),
+                                (&std_prob.uindex2constr, &solution.mu),
+                                (&std_prob.lindex2constr, &solution.pi)].iter() {
+            let mut duals: HashMap<Constraint, f64> = HashMap::with_capacity(constrs.len());
+            for (index, val) in vals.iter().enumerate() {
+                if let Some(constr) = constrs.get(&index) {
+                    *duals.entry(constr.clone()).or_insert(0.) += *val;
+                }
+            }
+            self.final_duals.extend(duals);
         }
 
         // Done
-- 
2.43.0


From ab452baf923cb55fb5655356adc7bbacb0ba83e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 16/19] fix: row entries and derivatives are listed in variable
 order, not in hash order

---
 src/model/constraint_std.rs | 8 ++++----
 src/model/node_std.rs       | 9 ++++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/model/constraint_std.rs b/src/model/constraint_std.rs
index 4d6bc8d..0fb8b85 100644
--- a/src/model/constraint_std.rs
+++ b/src/model/constraint_std.rs
@@ -127,8 +127,8 @@ impl ConstraintStd for Constraint {
 
             // a^Tx + b == 0
             if *self.kind() == ConstraintKind::Equal {
-                for (x, val) in prop.a.iter() {
-                    a.push((*arow, x.clone(), *val)); 
+                for (x, _) in comp.gphi.iter() {
+                    a.push((*arow, x.clone(), *prop.a.get(x).unwrap()));
                 }
                 b.push(-prop.b);
                 ca.push(self.clone());
@@ -138,8 +138,8 @@ impl ConstraintStd for Constraint {
             // a^Tx + b - s == 0 and s <= 0 or s >= 0
             else {
                 let s = VariableScalar::new_continuous(format!("_s_a{}_", *arow).as_str());
-                for (x, val) in prop.a.iter() {
-                    a.push((*arow, x.clone(), *val)); 
+                for (x, _) in comp.gphi.iter() {
+                    a.push((*arow, x.clone(), *prop.a.get(x).unwrap()));
                 }
                 a.push((*arow, s.clone(), -1.)); 
                 b.push(-prop.b);
diff --git a/src/model/node_std.rs b/src/model/node_std.rs
index 5cf1cfd..8273210 100644
--- a/src/model/node_std.rs
+++ b/src/model/node_std.rs
@@ -104,16 +104,19 @@ impl NodeStd for Node {
         let mut hphi: Vec<(Node, Node, Node)> = Vec::new();
         let prop = self.std_properties();
 
+        // Variables, in an order that does not depend on hashing
+        let mut vars: Vec<&Node> = prop.a.keys().collect();
+        vars.sort_by(|x,y| x.name().cmp(y.name()));
+
         // Affine
         if prop.affine {
-            for (key, val) in prop.a.iter() {
-                gphi.push((key.clone(), ConstantScalar::new(*val)));
+            for var in vars.iter() {
+                gphi.push(((*var).clone(), ConstantScalar::new(*prop.a.get(*var).unwrap())));
             }
         }
 
         // Not affine
         else {
-            let vars: Vec<&Node> = prop.a.keys().collect();
             let derivs = self.derivatives(&vars);
             for (i, var1) in vars.iter().enumerate() {
                 let d = derivs.get(var1).unwrap();
-- 
2.43.0


From b7938de6809a0d8699beb435a2a219efdb6cda78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 17/19] fix: solution and problem files keep their names
 reserved in the working directory during a solve

---
 src/solver/cbc_cmd.rs | 26 ++++++--------------------
 src/solver/clp_cmd.rs | 26 ++++++--------------------
 2 files changed, 12 insertions(+), 40 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 8c618bc..38b2316 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -4,7 +4,6 @@ use std::fs::File;
 use std::ffi::OsStr;
 use tempfile::Builder;
 use std::io::prelude::*;
-use std::fs::remove_file;
 use std::process::Command;
 use simple_error::SimpleError;
 use std::io::{self, BufReader};
@@ -191,22 +190,22 @@ impl Solver for SolverCbcCmd {
             _ => return Err(SimpleError::new("unable to get parameter logLevel"))
         };
 
-        // Input filename
+        // Input filename (the file reserves it until the end of this call)
         let input_file = Builder::new()
             .prefix("cbc")
             .suffix(".lp")
-            .tempfile();
-        let input_filename = match input_file {
+            .tempfile_in(".");
+        let input_filename = match &input_file {
             Ok(f) => f.path().file_name().and_then(OsStr::to_str).unwrap().to_string(),
             Err(_e) => return Err(SimpleError::new("failed to create input filename")),
         };
 
-        // Output filename
+        // Output filename (the file reserves it until the end of this call)
         let output_file = Builder::new()
             .prefix("cbc")
             .suffix(".sol")
-            .tempfile();
-        let output_filename = match output_file {
+            .tempfile_in(".");
+        let output_filename = match &output_file {
             Ok(f) => f.path().file_name().and_then(OsStr::to_str).unwrap().to_string(),
             Err(_e) => return Err(SimpleError::new("failed to create output filename")),
         };
@@ -215,8 +214,6 @@ impl Solver for SolverCbcCmd {
         match p.write_to_lp_file(&input_filename) {
             Ok(()) => (),
             Err(_e) => {
-                remove_file(&input_filename).ok();
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed to write lp file"));
             }
         };
@@ -235,32 +232,21 @@ impl Solver for SolverCbcCmd {
                       .and_then(|mut cmd| cmd.wait()) {
             Ok(s) if s.success() => (),
             Ok(_s) => {
-                remove_file(&input_filename).ok();
-                remove_file(&output_filename).ok();
                 return Ok((SolverStatus::Error, ProblemSol::new(p.nx(), p.na(), 0)));
             },
             Err(_e) => {
-                remove_file(&input_filename).ok();
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed executing cbc command"));
             }
         }
-        
-        // Clean up input file
-        remove_file(&input_filename).ok();
 
         // Read output file
         let (status, solution) = match Self::read_sol_file(&output_filename, &p, true) {
             Ok((s, sol)) => (s, sol),
             Err(_e) => {
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed to read cbc solution file"))
             }
         };
 
-        // Clean up output file
-        remove_file(&output_filename).ok();
-        
         // All good
         Ok((status, solution))
     }
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index 203b945..2f261f1 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -2,7 +2,6 @@
 
 use std::ffi::OsStr;
 use tempfile::Builder;
-use std::fs::remove_file;
 use std::process::{Command, Stdio};
 use simple_error::SimpleError;
 use std::collections::HashMap;
@@ -58,22 +57,22 @@ impl Solver for SolverClpCmd {
             _ => return Err(SimpleError::new("unable to get parameter logLevel"))
         };
 
-        // Input filename
+        // Input filename (the file reserves it until the end of this call)
         let input_file = Builder::new()
             .prefix("clp")
             .suffix(".lp")
-            .tempfile();
-        let input_filename = match input_file {
+            .tempfile_in(".");
+        let input_filename = match &input_file {
             Ok(f) => f.path().file_name().and_then(OsStr::to_str).unwrap().to_string(),
             Err(_e) => return Err(SimpleError::new("failed to create input filename")),
         };
 
-        // Output filename
+        // Output filename (the file reserves it until the end of this call)
         let output_file = Builder::new()
             .prefix("clp")
             .suffix(".sol")
-            .tempfile();
-        let output_filename = match output_file {
+            .tempfile_in(".");
+        let output_filename = match &output_file {
             Ok(f) => f.path().file_name().and_then(OsStr::to_str).unwrap().to_string(),
             Err(_e) => return Err(SimpleError::new("failed to create output filename")),
         };
@@ -82,8 +81,6 @@ impl Solver for SolverClpCmd {
         match p.as_mut_milp().write_to_lp_file(&input_filename) {
             Ok(()) => (),
             Err(_e) => {
-                remove_file(&input_filename).ok();
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed to write lp file"));
             }
         };
@@ -103,19 +100,12 @@ impl Solver for SolverClpCmd {
                       .and_then(|mut cmd| cmd.wait()) {
             Ok(s) if s.success() => (),
             Ok(_s) => {
-                remove_file(&input_filename).ok();
-                remove_file(&output_filename).ok();
                 return Ok((SolverStatus::Error, ProblemSol::new(p.nx(), p.na(), 0)));
             },
             Err(_e) => {
-                remove_file(&input_filename).ok();
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed executing clp command"));
             }
         }
-        
-        // Clean up input file
-        remove_file(&input_filename).ok();
 
         // Read output file
         let (status, solution) = match SolverCbcCmd::read_sol_file(&output_filename, 
@@ -123,14 +113,10 @@ impl Solver for SolverClpCmd {
                                                                    false) {
             Ok((s, sol)) => (s, sol),
             Err(_e) => {
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed to read clp solution file"))
             }
         };
 
-        // Clean up output file
-        remove_file(&output_filename).ok();
-        
         // All good
         Ok((status, solution))
     }
-- 
2.43.0


From ffd6ac405d345aff4ab87dc36b66756cbef866d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 18/19] fix: refuse costs and starting values of the wrong
 length

---
 src/problem/milp.rs  | 1 +
 src/problem/minlp.rs | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/problem/milp.rs b/src/problem/milp.rs
index 0bf57e8..76fbdb8 100644
--- a/src/problem/milp.rs
+++ b/src/problem/milp.rs
@@ -54,6 +54,7 @@ impl ProblemMilp {
             gphi.copy_from_slice(&c);
         });
         let nx = a.cols();
+        assert_eq!(cc.len(), nx);
         let base = ProblemMinlp::new(CooMat::from_nnz((nx, nx), 0), // Hphi
                                      a, 
                                      b,
diff --git a/src/problem/minlp.rs b/src/problem/minlp.rs
index bbd6c3e..6b85156 100644
--- a/src/problem/minlp.rs
+++ b/src/problem/minlp.rs
@@ -74,6 +74,9 @@ impl ProblemMinlp {
         assert_eq!(u.len(), nx);
 
         assert_eq!(p.len(), nx);
+        if let Some(x) = &x0 {
+            assert_eq!(x.len(), nx);
+        }
 
         let mut k: usize = 0;
         let hcomb_nnz = h.iter().map(|h| h.nnz()).sum();
-- 
2.43.0


From ea7dda7c61f945eadb1823eb74dcd25ef8135bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:26 +0000
Subject: [PATCH 19/19] fix: solution file names like x_0_7 or x_+0 were read
 as x_0

---
 src/solver/cbc_cmd.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 38b2316..f022a16 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -134,6 +134,11 @@ impl SolverCbcCmd {
                 None => return Err(e)
             };
 
+            // Unknown name
+            if name != format!("{}_{}", dtype, index) {
+                return Err(e);
+            }
+
             // Out of range
             if (dtype == "x" && index >= p.nx()) || (dtype == "c" && index >= p.na()) {
                 return Err(e);
-- 
2.43.0

