From c87b26302ddc6b74dd292138f6fe58e55c29a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 01/71] fix: pure endowment of zero term pays its endowment
 amount

---
 src/actuarialmath/insurance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 1973599..d7b4ed6 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -29,8 +29,8 @@ class Insurance(Fractional):
         """
         if t < 0:  # t infinite => EPV(t) = 0
             return 0   
-        if t == 0:    # t = 0 => EPV(0) = 1
-            return 1
+        if t == 0:    # t = 0 => endowment is paid with certainty
+            return 0 if moment == self.VARIANCE else endowment**moment
         t = self.max_term(x+s, t)
         t_p_x = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-- 
2.43.0


From 7e2bc51193216be0c8ac14446934010b70857f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 02/71] fix: endowment amount enters the second moment of A_x
 squared

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index d7b4ed6..0057492 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -64,7 +64,7 @@ class Insurance(Fractional):
         """
         assert moment >= 1
         if t >=0 and endowment > 0:
-            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment
+            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment**moment
         else:
             E = 0
         t = self.max_term(x+s+u, t=t)
-- 
2.43.0


From 29505d006d9093e6225e077b79ebe126ef4d0fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 03/71] fix: variance of whole life insurance used the fourth
 power of the mean

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 0057492..854b860 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -108,7 +108,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)**2
+            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         return self.A_x(x, s=s, t=self.WHOLE, benefit=lambda x,t: b, 
                         moment=moment, discrete=discrete)
-- 
2.43.0


From cdab4bf1f81abd80f7da7e7cb5d4bde6ce86463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 04/71] fix: variance of term insurance raised NameError

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 854b860..7d7bc0b 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -131,7 +131,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.term_insurance(x, s=s, t=t, moment=2, discrete=discrete)
-            A2 = self.term_insurance(x, s=s, t=t, discrete=discrete)**2
+            A1 = self.term_insurance(x, s=s, t=t, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment, 
                                       discrete=discrete)
-- 
2.43.0


From aed890fd9a0e0becc6e420bee09facb984506ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 05/71] fix: variance of endowment insurance scaled twice by
 the benefit

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 7d7bc0b..8fdb4f8 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -195,7 +195,7 @@ class Insurance(Fractional):
                                           b=b, moment=2, discrete=discrete)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment,
                                           b=b, discrete=discrete)
-            return self.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment,
                                 discrete=discrete)
-- 
2.43.0


From 3b7640a2ccb23617aa358c346dbfa186af53c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 06/71] fix: decreasing insurance ignored years after selection

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 8fdb4f8..743e103 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -236,7 +236,7 @@ class Insurance(Fractional):
         >>> life.decreasing_insurance(x=0, t=10)
         """
         assert t > 0  # decreasing must be term insurance
-        A = self.term_insurance(x, t=t, b=b, discrete=discrete)
+        A = self.term_insurance(x, s=s, t=t, b=b, discrete=discrete)
         n = t + int(discrete)   #  (DA)_x:n + (IA)_x:n = (n+1) A^1_x:n
         return A*n - self.increasing_insurance(x, s=s, t=t, b=b, 
                                                discrete=discrete)
-- 
2.43.0


From 5d859bc7f95c99dde8e54715b8ff17523f3e1e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 07/71] fix: continuous life annuity ignored years after
 selection

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a16da37..a08cde8 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -33,7 +33,7 @@ class Annuity(Insurance):
                          * self.p_x(x, s=s, t=k) for k in range(int(u), int(t+u))])
             else:   # use continuous first principles
                 Y = lambda t: (benefit(x+s, t+u) * self.interest.v_t(t+u) 
-                               * self.S(x, 0, t=t+u))
+                               * self.S(x, s, t=t+u))
                 a = self.integral(Y, 0, t)
         except:
             raise Exception("Failed to numerically integrate EPV of annuity")
-- 
2.43.0


From 1b9bff8f9581d4b6dc0b2fce61d0e616f9dfd9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 08/71] fix: whole life annuity at zero interest ignored the
 benefit amount

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a08cde8..41bbbd0 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -131,7 +131,7 @@ class Annuity(Insurance):
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
             return b * (1 - A) / interest if interest > 0 else b * (1 - A)
         else:  # when interest=1, annuity is expected life time (+1 if discrete)
-            return discrete + self.e_x(x=x, s=s, curtate=discrete)
+            return b * (discrete + self.e_x(x=x, s=s, curtate=discrete))
 
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
-- 
2.43.0


From 796a6b2353e2a8d74cf6a72d5eacbe67fe940f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 09/71] fix: certain payments of a certain and life annuity
 ignored the benefit amount

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 41bbbd0..271bc56 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -202,7 +202,7 @@ class Annuity(Insurance):
         if u < 0:
             return 0.
         a = self.deferred_annuity(x, s=s, u=u, t=t, b=b, discrete=discrete)
-        return self.interest.annuity(u, m=int(discrete)) + a
+        return b * self.interest.annuity(u, m=int(discrete)) + a
 
     def increasing_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
                            b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From e4484d575ed526120a85b063db994b04a766b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 10/71] fix: continuous decreasing annuity was short by one
 level annuity

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 271bc56..e74cbba 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -239,7 +239,7 @@ class Annuity(Insurance):
         assert t >= 0   # decreasing must be till term
         t = self.max_term(x+s, t=t)
         a = self.temporary_annuity(x, s=s, t=t, discrete=discrete)
-        n = t + int(discrete)
+        n = t + 1   # increasing annuity pays at rate t+1 at time t
         return b * (a*n - self.increasing_annuity(x, s=s, t=t, discrete=discrete))
 
     #
-- 
2.43.0


From d4409b1a1234f87f430eaf7a5c7ef05a8a731495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 11/71] fix: m-thly conversion rejected a zero rate of interest

---
 src/actuarialmath/interest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index e160a10..748a470 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -115,13 +115,13 @@ class Interest(Actuarial):
           >>> print("Convert annual-pay to mthly:", Interest.mthly(i=i, m=12))
         """
         assert m >= 0, "mthly frequency must be non-negative"
-        if i > 0:
+        if i >= 0:
             return m * ((1 + i)**(1 / m) - 1) if m else math.log(1+i)
-        elif d > 0:
+        elif d >= 0:
             return m * (1 - (1 - d)**(1 / m)) if m else -math.log(1-d)
-        elif i_m > 0:
+        elif i_m >= 0:
             return (1 + (i_m / m))**m - 1
-        elif d_m > 0:
+        elif d_m >= 0:
             return 1 - (1 - (d_m / m))**m
         else:
             raise Exception("no interest rate given to mthly")
-- 
2.43.0


From a6a0e4dabfb47b5996f72ff5efe94f059ee0a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 12/71] fix: annuity certain divided by zero at zero interest

---
 src/actuarialmath/interest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index 748a470..f7d0269 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -90,6 +90,8 @@ class Interest(Actuarial):
         """
         v_t = 0 if t < 0 else self.v**t   # is t finite
         assert m >= 0, "mthly frequency must be non-negative"
+        if t >= 0 and self.i == 0:  # undiscounted payments of 1 per year
+            return t
         if m == 0:  # if continuous
             return (1 - v_t) / self.delta
         elif due:   # if annuity due
-- 
2.43.0


From c7c3efc5c1747c038474d992bfe7a088822b5c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 13/71] fix: density derived from number of lives was not per
 life at [x]+s

---
 src/actuarialmath/survival.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 6289f4a..1bb5270 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -54,7 +54,7 @@ class Survival(Life):
 
         def f_from_l(x: int, s, t: float) -> float:
             """Derive lifetime density function from number of lives"""
-            return -self.derivative(lambda t: self.l(x, s+t), t)
+            return -self.derivative(lambda t: self.l(x, s+t), t) / self.l(x, s)
 
         def mu_from_S(x: int, t: float) -> float:
             """Derive force of mortality from survival probability"""
-- 
2.43.0


From 74b35b441b297e95087b0b89b4e0468438c593e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 14/71] fix: variance of one-year curtate lifetime returned its
 mean

---
 src/actuarialmath/lifetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetime.py b/src/actuarialmath/lifetime.py
index e98be35..eec6358 100644
--- a/src/actuarialmath/lifetime.py
+++ b/src/actuarialmath/lifetime.py
@@ -31,7 +31,7 @@ class Lifetime(Survival):
         assert x >= 0, "x must be non-negative"
         assert s >= 0, "s must be non-negative"
 
-        if t == 1 and curtate:      # shortcut for e_x:1
+        if t == 1 and curtate and moment != self.VARIANCE:  # shortcut for e_x:1
             return self.p_x(x, s=s, t=1)
         
         t = self.max_term(x+s, t)   # length of term must be bounded by max age
-- 
2.43.0


From 69ca214ccf5b73d00cbcb220f44045c07fa0ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 15/71] fix: density at fractional age under UDD ignored
 survival to that age

---
 src/actuarialmath/fractional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index bd015bb..f0e5308 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -141,7 +141,7 @@ class Fractional(Lifetime):
         assert t >= 0, "t must be non-negative"
         if 0. <= r + t <= 1.:   # shortcuts available within integer ages
             if self.udd_:       # UDD shortcut: constant q_x
-                return self.q_x(x, s=s)  # does not depend fractional age or duration
+                return self.q_x(x, s=s) / (1. - r*self.q_x(x, s=s))
             else:               # Constant force shortcut:
                 if self.isclose(t):
                     return self.f_x(x=x, s=s)
-- 
2.43.0


From 85f667cb4c251b8411b9f9f3a40e5f38246292a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 16/71] fix: policy value truncated the term of insurance by
 the duration twice

---
 src/actuarialmath/policyvalues.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 3269cb4..c34361f 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -164,7 +164,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:   # Endowment Insurance 
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2,
                                             discrete=discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete)
@@ -194,12 +194,12 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:  # Shortcut available for (equal) Endowment Insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=discrete)
             A = self.endowment_insurance(x, s=s, t=n, discrete=discrete)
         else:   # Special Term or (unequal) Endowment insurance has no shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete,
                                             b=b, endowment=endowment)
             a1 = self.temporary_annuity(x, s=s+t, t=n-t, b=b, 
@@ -264,7 +264,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, 
                                             discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2, 
                                             discrete=contract.discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
@@ -293,11 +293,11 @@ class PolicyValues(Premiums):
             A = self.whole_life_insurance(x, s=s+t, 
                                           discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment Ins shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=contract.discrete)
         else:  # Special term insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.term_insurance(x, s=s+t, t=n-t, discrete=contract.discrete)
             a = self.temporary_annuity(x, s=s+t, t=n-t,
                                        discrete=contract.discrete)
-- 
2.43.0


From 877078e38863524dc6a7add631904f5bf33a020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 17/71] fix: inverse of annuity present value at zero interest

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index e74cbba..a0d0bb0 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -309,7 +309,7 @@ class Annuity(Insurance):
         Args:
           Y : Present value of benefits paid
         """
-        if self.interest.v == 0.:
+        if self.interest.delta == 0.:
             return Y
         else:
             return math.log(1 - self.interest.delta*Y) / math.log(self.interest.v)
-- 
2.43.0


From cdbad071d4ab4cdb7bcbf3c8bcb7ad6b3b5996bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 18/71] fix: loss at issue of a term policy when the insured
 survives the term

---
 src/actuarialmath/policyvalues.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index c34361f..e2113ac 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -322,13 +322,12 @@ class PolicyValues(Premiums):
         """
         c = contract or Contract()
         k = math.floor(t) if c.discrete else t
-        if c.T > 0 and k >= c.T:   # if endowment insurance and t is beyond term
-            t = c.T
-            endowment = c.endowment * self.Z_from_t(t)
+        if c.T > 0 and k >= c.T:   # survives term: endowment, and all T premiums
+            benefit = c.endowment * self.interest.v_t(c.T)
+            t = c.T - 1 if c.discrete else c.T
         else:
-            endowment = 0
-        return ((c.claims_cost * self.Z_from_t(t, discrete=c.discrete))
-                + endowment
+            benefit = c.claims_cost * self.Z_from_t(t, discrete=c.discrete)
+        return (benefit
                 + c.initial_cost
                 - (c.renewal_profit * self.Y_from_t(t, discrete=c.discrete)))
 
-- 
2.43.0


From 5935f7a0a6b21c672f2621bea335a887eff91fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 19/71] fix: deaths over a period running past the limiting age
 of a life table

---
 src/actuarialmath/lifetable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 50376fd..62e9553 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -205,7 +205,7 @@ class LifeTable(Reserves):
         if x+s+t <= self._MAXAGE:
             return self.l_x(x, s=s) - self.l_x(x, s=s+t)
         else:
-            return 0.
+            return self.l_x(x, s=s)   # nobody survives the limiting age
 
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_x = lives beginning year x+t divided lives beginning year x
@@ -231,8 +231,8 @@ class LifeTable(Reserves):
           t : death within next t years
         """
         denom = self.l_x(x, s=s)
-        if denom and x+s+t <= self._MAXAGE:
-            return self.d_x(x, s=s+u, t=t) / self.l_x(x, s=s)
+        if denom:
+            return self.d_x(x, s=s+u, t=t) / denom
         else:
             return 1     # the only certainty in life
 
-- 
2.43.0


From 5c2fef4a6e58c5b9ae612d6ce6f3aab5bd592bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 20/71] fix: limited expectation of life from a life table
 ignored the limit and years after selection

---
 src/actuarialmath/lifetable.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 62e9553..6efee58 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -236,27 +236,27 @@ class LifeTable(Reserves):
         else:
             return 1     # the only certainty in life
 
-    def e_x(self, x: int, s: int = 0, n: int = Reserves.WHOLE,
+    def e_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE,
             curtate: bool = True, moment: int = 1) -> float:
         """Expected curtate lifetime from sum of lives in table
 
         Args:
           x : age of selection
           s : years after selection
-          n : future lifetime limited at n years
+          t : future lifetime limited at t years
           curtate : whether curtate (True) or complete (False) expectations
           moment : whether to compute first (1) or second (2) moment
 
         """
         if moment == 1:
-            # E[K_x] = sum([self.p(x, k+1) for k in range(n)])
-            n = min(self._MAXAGE - x, n) if n > 0 else self._MAXAGE
+            # E[K_x] = sum([self.p(x, k+1) for k in range(t)])
+            t = self.max_term(x+s, t)
             # approximate complete by UDD between integer age recursion
-            e = sum([(1 - curtate)*(self.l(x, s=s+t) - self.l(x, s=s+t+1))*0.5
-                     + self.l(x, s=s+t+1) for t in range(n)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=0)
+            e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
+                     + self.l(x, s=s+k+1) for k in range(t)])  # s_p_x = l_x+s/l_x
+            return e / self.l(x, s=s)
         else:
-            return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+            return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
-- 
2.43.0


From 99a10d54fbee2a3d75d6d6110df1a2cc5a054ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 21/71] fix: pure endowment of a life table: endowment amount
 and variance

---
 src/actuarialmath/lifetable.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 6efee58..f12d0df 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -258,27 +258,26 @@ class LifeTable(Reserves):
         else:
             return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-    def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
+    def E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1, 
+            moment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
 
         Args:
           x : age of selection
           s : years after selection
           t : survives t years
+          endowment : amount of pure endowment
           moment : return first (1) or second (2) moment or variance (-2)
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else endowment**moment
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
         p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
         if moment == self.VARIANCE:
-            return self.interest.v_t(t)**moment * p * (1 - p)
-        if moment == 1:
-            return self.interest.v_t(t) * p
-        # SULT shortcut: t_E_x(moment=2) = t_E_x(moment=1) * v**t
-        return self.interest.v_t(t)**(moment-1) * self.E_x(x, s=s, t=t)
+            return self.interest.v_t(t)**2 * p * (1 - p) * endowment**2
+        return (endowment * self.interest.v_t(t))**moment * p
 
     def __getitem__(self, col: str) -> Dict[int, float]:
         """Returns a column of the life table
-- 
2.43.0


From 9dcc4e502596de165d61a75f519aab75f22d39d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 22/71] fix: select life set_select dropped deaths and lowered
 the maximum age

---
 src/actuarialmath/selectlife.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1827586..4edf966 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -123,7 +123,7 @@ class SelectLife(LifeTable):
         tables = {
             'l': ifelse(l, {}),
             'q': ifelse(q, {}),
-            'd': ifelse(e, {}),
+            'd': ifelse(d, {}),
             'e': ifelse(e, {}),
             'a': ifelse(a, {}),
             'A': ifelse(A, {})
@@ -140,7 +140,7 @@ class SelectLife(LifeTable):
 
                     if self._MINAGE < 0 or x < self._MINAGE:  # infer min age
                         self._MINAGE = x
-                    if age > self._MAXAGE:                    # infer max age
+                    if x > self._MAXAGE:                      # infer max age
                         self._MAXAGE = x
         if fill:
             self.fill_table(radix=radix)
-- 
2.43.0


From 1c3847694bf28775dfda7912412d5c5820ea6f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 23/71] fix: insurance values read from a select table ignored
 benefit, term and deferral

---
 src/actuarialmath/selectlife.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 4edf966..1d3a3d4 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -2,7 +2,7 @@
 
 MIT License. Copyright 2022-2023 Terence Lim
 """
-from typing import Dict, List
+from typing import Any, Dict, List
 import math
 import matplotlib.pyplot as plt
 import numpy as np
@@ -292,11 +292,31 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete insurance"
-        if self._isin_sel(x, s, 'A'):
+        if self._is_whole_unit(**kwargs) and self._isin_sel(x, s, 'A'):
             return self._get_sel(x, s, 'A')
         else:
             return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
 
+    def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
+                             b: int = 1, discrete: bool = True) -> float:
+        """Returns whole life insurance value, from select table if available
+
+        Args:
+          x : age of selection
+          s : years after selection
+          b : amount of benefit
+        """
+        if moment == 1 and discrete and self._isin_sel(x, s, 'A'):
+            return b * self._get_sel(x, s, 'A')
+        return super().whole_life_insurance(x, s=s, moment=moment, b=b, 
+                                            discrete=discrete)
+
+    @staticmethod
+    def _is_whole_unit(t: int = LifeTable.WHOLE, u: int = 0, 
+                       benefit: Any = None, endowment: float = 0.) -> bool:
+        """Whether terms are of an immediate whole life unit benefit"""
+        return t < 0 and u == 0 and benefit is None
+
     def a_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
             **kwargs) -> float:
         """Returns annuity value computed from select table
@@ -306,10 +326,10 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete annuity"
-        if self._isin_sel(x, s, 'a'):
+        if self._is_whole_unit(**kwargs) and self._isin_sel(x, s, 'a'):
             return self._get_sel(x, s, 'a')
         else:
-            return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
+            return super().a_x(x=x, s=s, discrete=True, **kwargs)
 
     def l_x(self, x: int, s: int = 0) -> float:
         """Returns number of lives aged [x]+s computed from select table
-- 
2.43.0


From bc458b9426de2df845893c3a2d6effd2b371c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 24/71] fix: expectation of life from a select table ignored
 the term

---
 src/actuarialmath/selectlife.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1d3a3d4..e89830f 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -362,19 +362,22 @@ class SelectLife(LifeTable):
         return (1. - self.p_x(x, s=s + u, t=t)) * self.p_x(x, s=s, t=u)
 
     def e_x(self, x: int, s: int = 0, t: int = LifeTable.WHOLE,
-            curtate: int = True) -> float:
+            curtate: int = True, moment: int = 1) -> float:
         """Returns expected life time computed from select table
 
         Args:
           x : age of selection
           s : years after selection
           t : limit of expected future lifetime
+          moment : whether to compute first (1) or second (2) moment
         """
         assert curtate, "Must be curtate lifetimes"
-        if (self._isin_sel(x, s, 'e')):
+        if moment != 1:
+            return super().e_x(x, s=s, t=t, moment=moment)
+        if t < 0 and self._isin_sel(x, s, 'e'):
             return self._get_sel(x, s, 'e')
-        e = sum([self.p_x(x, s=s, t=k+1) for k in range(max(1, t))])
-        return e
+        t = self.max_term(x+s, t)
+        return sum([self.p_x(x, s=s, t=k+1) for k in range(t)])
 
     def frame(self, table: str = 'l') -> pd.DataFrame:
         """Returns select and ultimate table values as a DataFrame
-- 
2.43.0


From a4b6d8e62c5de4dad6a1fa9b822267bae999fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 25/71] fix: whole life values omitted the ultimate years of a
 select table

---
 src/actuarialmath/selectlife.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index e89830f..594bb3d 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -331,6 +331,19 @@ class SelectLife(LifeTable):
         else:
             return super().a_x(x=x, s=s, discrete=True, **kwargs)
 
+    def max_term(self, x: int, t: int, u: int = 0) -> int:
+        """Decrease term t if adding deferral period u to (x) exceeds limiting age
+
+        Args:
+          x : attained age
+          t : term of insurance or annuity, after deferral period
+          u : term deferred
+        """
+        limit = self._MAXAGE  # oldest selection age, extended by ultimate rates
+        while self._isin_sel(limit - self.periods_, self.periods_, 'q'):
+            limit += 1
+        return limit - (x + u) if t < 0 or x + t + u > limit else t
+
     def l_x(self, x: int, s: int = 0) -> float:
         """Returns number of lives aged [x]+s computed from select table
 
-- 
2.43.0


From d5c67198f92f18bfbc60026d76785872f169a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 26/71] fix: deaths from a select table beyond the oldest
 selection age

---
 src/actuarialmath/selectlife.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 594bb3d..ff371a7 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -353,6 +353,16 @@ class SelectLife(LifeTable):
         """
         return self._get_sel(x, s, 'l')
 
+    def d_x(self, x: int, s: int = 0, t: int = 1) -> float:
+        """Returns number of deaths within t years of age [x]+s
+
+        Args:
+          x : age of selection
+          s : years after selection
+          t : death within next t years
+        """
+        return self.l_x(x, s=s) - (self.l_x(x, s=s+t) or 0.)
+
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_[x]+s by chain rule: prod(1_p_[x]+s+y) for y in range(t)
 
-- 
2.43.0


From 2762f93bf0153ffef786bbe581e5cbec73ddff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 27/71] fix: fractional expectation under a mortality law
 called an undefined method

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 0c5bfb9..5763d04 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -82,7 +82,7 @@ class MortalityLaws(Reserves):
         """
         if t < 0:
             t = self._MAXAGE - (x + s + r)
-        return self.integrate(lambda t: self.S(x, s+r, t), 0., float(t))
+        return self.integral(lambda t: self.S(x, s+r, t), 0., float(t))
 
 class Beta(MortalityLaws):
     """Shortcuts with beta distribution of deaths (is Uniform when alpha = 1)
-- 
2.43.0


From dc1b8c36d83d9748e57c1b348bca490a8915d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 28/71] fix: density of the beta law was the force of mortality
 at the starting age

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 5763d04..005bcc1 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -112,7 +112,7 @@ class Beta(MortalityLaws):
             return ((omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
-            return alpha / (omega - (x+s))
+            return _S(x, s, t) * _mu(x, s+t)
 
         self.set_survival(mu=_mu, l=_l, S=_S, f=_f, minage=0, maxage=omega)
         self.omega_ = omega  # store omega parameter
-- 
2.43.0


From b365d9a2dfea250a5b93fabe5617dc9394760ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 29/71] fix: limited expectation and variance of lifetime under
 the beta law

---
 src/actuarialmath/mortalitylaws.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 005bcc1..b1713c6 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -118,40 +118,41 @@ class Beta(MortalityLaws):
         self.omega_ = omega  # store omega parameter
         self.alpha_ = alpha  # store alpha parameter
 
-    def e_r(self, x: int, s: int = 0, t: float = Reserves.WHOLE) -> float:
+    def e_r(self, x: int, s: int = 0, r: float = 0.,
+            t: float = Reserves.WHOLE) -> float:
         """Expectation of future lifetime through fractional age: e_[x]+s:t
 
         Args:
           x : age of selection
           s : years after selection
+          r : fractional year after selection
           t : limited at t years
         """
-        e = (self.omega_ - (x+s)) / (self.alpha_ + 1)
-        if t > 0 and self.max_term(x+s, t) > t: # temporary expectation
-            return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
+        e = (self.omega_ - (x+s+r)) / (self.alpha_ + 1)
+        if t >= 0 and x+s+r+t < self.omega_:    # temporary expectation
+            return e - self.p_r(x, s=s, r=r, t=t) * self.e_r(x, s=s, r=r+t)
         return e   # complete expectation
 
-    def e_x(self, x: int, s: int = 0, n: int = MortalityLaws.WHOLE, 
+    def e_x(self, x: int, s: int = 0, t: int = MortalityLaws.WHOLE, 
           curtate: bool = False, moment: int = 1) -> float:
         """Shortcut formula for complete expectation
 
         Args:
           x : age of selection
           s : years after selection
-          n : death within next n fractional years
           t : limited at t years
           curtate : whether curtate (True) or complete (False) lifetime
           moment : whether to compute first (1) or second (2) moment
         """
-        if n == 0:
+        if t == 0:
             return 0
         if not curtate:
             if moment == 1:
-                return self.e_r(x, s=s, t=n)
-            if moment == self.VARIANCE and n < 0: # shortcut for complete variance
-                return ((self.omega_ - (x + s))
-                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 1)))
-        return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+                return self.e_r(x, s=s, t=t)
+            if moment == self.VARIANCE and t < 0: # shortcut for complete variance
+                return (self.alpha_ * (self.omega_ - (x + s))**2
+                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 2)))
+        return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
 class Uniform(Beta):
     """Shortcuts with uniform distribution of deaths aka DeMoivre's Law
-- 
2.43.0


From efff7ea12033812e955b46f7e6f77c0fd6d76ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 30/71] fix: expectations under the uniform law: years after
 selection and limited lifetime

---
 src/actuarialmath/mortalitylaws.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index b1713c6..e66d17e 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -182,14 +182,14 @@ class Uniform(Beta):
         if moment in [1, self.VARIANCE] and not curtate:
             if t < 0:
                 if moment == self.VARIANCE:
-                    return (self.omega_ - x)**2 / 12  # complete shortcut
+                    return (self.omega_ - (x+s))**2 / 12  # complete shortcut
                 else:
-                    return (self.omega_ - x) / 2
+                    return (self.omega_ - (x+s)) / 2
             elif moment == 1:         # temporary expectation shortcut
                 # (Pr[die within n years] * n/2) plus (Pr[survive n years] * n)
                 t = self.max_term(x+s, t)
-                t_p_x = t / (self.omega_ - x)
-                return t_p_x * t  + (1 - t_p_x) * (t / 2)
+                t_q_x = t / (self.omega_ - (x+s))
+                return t_q_x * (t / 2) + (1 - t_q_x) * t
         return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     
-- 
2.43.0


From ab76b728978ba0960a4eda49fab9461b9e7fdfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 31/71] fix: pure endowment under the uniform law: years after
 selection, endowment amount and variance

---
 src/actuarialmath/mortalitylaws.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index e66d17e..6716836 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -194,7 +194,7 @@ class Uniform(Beta):
 
     
     def E_x(self, x: int, s: int = 0, t: int = Beta.WHOLE, 
-            moment: int = 1) -> float:
+            endowment: int = 1, moment: int = 1) -> float:
         """Shortcut for Pure Endowment
 
         Args:
@@ -204,17 +204,17 @@ class Uniform(Beta):
           endowment : amount of pure endowment
           moment : compute first or second moment
         """
-        assert moment > 0
+        assert moment > 0 or moment == self.VARIANCE
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else endowment**moment
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
-        t_p_x = (self.omega_ - x - t) / (self.omega_ - x)
+        t_p_x = (self.omega_ - (x+s) - t) / (self.omega_ - (x+s))
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-            return self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x)
-        return (self.interest.v_t(t)**moment * (self.omega_ - x - t) 
-                / (self.omega_ - x))
+            return (self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x) 
+                    * endowment**2)
+        return (endowment * self.interest.v_t(t))**moment * t_p_x
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
                              b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From c9132a565e145adc92e3b7e41ef899d631516aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 32/71] fix: insurances under the uniform law: second moment,
 variance, term and zero interest

---
 src/actuarialmath/mortalitylaws.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 6716836..fc290dd 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -233,7 +233,7 @@ class Uniform(Beta):
                 return (self.whole_life_insurance(x, s=s, b=b, moment=2, 
                                                   discrete=False) -
                         self.whole_life_insurance(x, s=s, b=b, moment=1, 
-                                                    discrete=False)**2) * b**2
+                                                    discrete=False)**2)
             return self.term_insurance(x, s=s, t=self.omega_-(x+s), b=b,
                                        moment=moment, discrete=False)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
@@ -251,16 +251,17 @@ class Uniform(Beta):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if not discrete and moment in [1, Beta.VARIANCE]:
+        if not discrete:
             if moment == Beta.VARIANCE:
                 return (self.term_insurance(x, s=s, b=b, t=t, moment=2, 
                                             discrete=False) -
                         self.term_insurance(x, s=s, b=b, t=t, 
-                                            discrete=False)**2) * b**2
+                                            discrete=False)**2)
             t = self.max_term(x+s, t)                                        
-            return (b * (1 - self.interest.v_t(t)) 
-                    / (self.interest.delta * (self.omega_ - (x+s))))
-        return super().term_insurance(x, s=s, moment=moment, b=b, 
+            delta = moment * self.interest.delta   # multiply force of interest
+            a = (1 - self.interest.v_t(t)**moment) / delta if delta else t
+            return b**moment * a / (self.omega_ - (x+s))
+        return super().term_insurance(x, s=s, t=t, moment=moment, b=b, 
                                       discrete=discrete)
 
 class Makeham(MortalityLaws):
-- 
2.43.0


From 0645395db50dfab4999c24efe6bddb16e65a00b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 33/71] fix: continuous whole life insurance under constant
 force ignored the benefit amount

---
 src/actuarialmath/constantforce.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 8f5cb3a..d3ccee8 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -133,7 +133,8 @@ class ConstantForce(MortalityLaws):
         """
         if moment > 0 and not discrete:
             delta = moment * self.interest.delta   # multiply force of interest
-            return self.mu_ / (self.mu_ + delta) if self.mu_ > 0 else 0.
+            return (b**moment * self.mu_ / (self.mu_ + delta) 
+                    if self.mu_ > 0 else 0.)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
                                             discrete=discrete)
 
-- 
2.43.0


From c8fe9cdaec4fd2521ec254e7264aa684eafe120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 34/71] fix: variance of limited lifetime under constant force
 ignored the limit

---
 src/actuarialmath/constantforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index d3ccee8..3853486 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -43,7 +43,7 @@ class ConstantForce(MortalityLaws):
           moment : first (1) or second (2) moment
         """
         if not curtate:    # Var[Tx] = 1/mu^2, E[Tx] = 1/mu
-            if moment == MortalityLaws.VARIANCE:
+            if moment == MortalityLaws.VARIANCE and t < 0:
                 return 1. / self.mu_**2   # shortcut
             elif moment == 1:
                 e = 1 / self.mu_  # infinite n case shortcut
-- 
2.43.0


From 98608c92ba854676fc4e88b81b4871a20a9ada35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 35/71] fix: variance and zero term of pure endowment under
 constant force

---
 src/actuarialmath/constantforce.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 3853486..22fc052 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -64,9 +64,12 @@ class ConstantForce(MortalityLaws):
           moment : compute first or second moment
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else endowment**moment
         if t < 0:
             return 0.
+        if moment == self.VARIANCE:
+            t_p_x = math.exp(-self.mu_ * t)
+            return (endowment * self.interest.v_t(t))**2 * t_p_x * (1 - t_p_x)
         delta = moment * self.interest.delta   # multiply force of interest
         return math.exp(-(self.mu_ + delta) * t) * endowment**moment
 
-- 
2.43.0


From 88c166286609c8b19d4ea3ff4b15573a23928e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 36/71] fix: m-thly insurances: whole life called an invalid
 argument and sum, deferral and term of A_x

---
 src/actuarialmath/mthly.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index f520300..4839476 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -114,15 +114,15 @@ class Mthly(Actuarial):
           moment : return first or second moment
         """
         assert moment in [1, 2]
-        t = self.max_term(x+s, t)
+        t = self.life.max_term(x+s, t, u)
         if self.m > 0:
             A = sum([(benefit(x+s, k/self.m) * self.v_m(k+1))**moment 
                      * self.q_m(x, s_m=s*self.m, u_m=k) 
-                     for k in range((t+u) * self.m)])
+                     for k in range(u * self.m, (t+u) * self.m)])
         else:
-            Z = lambda t: ((benefit(x+s, t+u) * self.life.v_t(t+u))**moment
-                            * self.life.f(x, s, t+u))
-            A = self.life.integrate(Z, 0, t)
+            Z = lambda t: ((benefit(x+s, t+u) * self.life.interest.v_t(t+u))**moment
+                            * self.life.f_x(x, s=s, t=t+u))
+            A = self.life.integral(Z, 0, t)
         return A
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
@@ -140,7 +140,8 @@ class Mthly(Actuarial):
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             A1 = self.whole_life_insurance(x, s=s)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        return sum(self.A_x(x, s=s, b=b, moment=moment))
+        return self.A_x(x, s=s, t=Annuity.WHOLE, benefit=lambda x,t: b,
+                        moment=moment)
 
 
     def term_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
-- 
2.43.0


From 49f6d43edff2a9fb7c843960f2582844836a34a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 37/71] fix: variance of m-thly endowment insurance scaled
 twice by the benefit

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 4839476..5fd3392 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -206,7 +206,7 @@ class Mthly(Actuarial):
                                           b=b, moment=2)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment, 
                                           b=b)
-            return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.life.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment)
         return A + E * (b if endowment < 0 else endowment)**moment
-- 
2.43.0


From 472f0188f74d53b282e79a41a14be32238e6d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 38/71] fix: m-thly annuities: discount rate, variance of
 temporary annuity, continuous immediate annuity

---
 src/actuarialmath/mthly.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 5fd3392..63151c8 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -265,7 +265,7 @@ class Mthly(Actuarial):
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
-        return b * (1 - self.whole_life_insurance(x, s=s)) / self.d
+        return b * self.annuity_twin(self.whole_life_insurance(x, s=s))
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
                           b: int = 1, variance: bool = False) -> float:
@@ -279,13 +279,13 @@ class Mthly(Actuarial):
           variance : return first moment (False) or variance (True)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.term_insurance(x, s=s, t=t)
-            A2 = self.term_insurance(x, s=s, t=t, moment=2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         a = self.whole_life_annuity(x, s=s, b=b)
-        if t < 0 or self.max_term(x+s, t) < t:
+        if t < 0 or self.life.max_term(x+s, t) < t:
             return a
         a_t = self.whole_life_annuity(x, s=s+t, b=b)
         return a - (a_t * self.E_x(x, s=s, t=t))
@@ -319,7 +319,7 @@ class Mthly(Actuarial):
         if self.m > 0:
             return (a - ((1 - self.E_x(x, s=s, t=t)) / self.m)) * b
         else:
-            return a
+            return a * b
 
 if __name__ == "__main__":
     from actuarialmath.lifetable import LifeTable
-- 
2.43.0


From 2b3b8f18e0a27f51f9470b12622c767a1d57dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 39/71] fix: UDD insurances: benefit amount of whole life,
 second moments used an undefined attribute

---
 src/actuarialmath/udd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 4783519..84540c7 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -66,9 +66,9 @@ class UDD(Mthly):
         A = self.life.whole_life_insurance(x, s=s, moment=moment)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i=i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
-        return A * i / i_m
+        return A * b**moment * i / i_m
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
                             endowment: int = -1, moment: int = 1) -> float:
@@ -114,7 +114,7 @@ class UDD(Mthly):
         A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i=i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
         return A * (i / i_m)
 
-- 
2.43.0


From dd3ba79cade0aca2e871022f96881ad70b9a0075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 40/71] fix: UDD annuities: variances used undefined names and
 term insurance

---
 src/actuarialmath/udd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 84540c7..9dd9cd0 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -134,7 +134,7 @@ class UDD(Mthly):
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
         a = self.life.whole_life_annuity(x, s=s)
         return b * (a * self.alpha_m - self.beta_m)
             
@@ -153,9 +153,9 @@ class UDD(Mthly):
           >>> UDD(m=12, life=SULT(udd=True)).temporary_annuity(45, t=20)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.temporary_insurance(x, s=s, t=t)
-            A2 = self.temporary_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         if t < 0:
-- 
2.43.0


From fab92a3de0ddadb88ff22642650651661bb6fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 41/71] fix: UDD deferred annuity raised NameError; its term
 and variance

---
 src/actuarialmath/udd.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 9dd9cd0..ee50246 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -175,15 +175,14 @@ class UDD(Mthly):
           t : term of annuity in years
           b : amount of benefit
         """
-        if self.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.endowment_insurance(x, s=s, t=t)
-            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
-
-        a = self.life.deferred_annuity(x, s=s, u=u, t=t)
-        return (a * self.alpha_m - self.beta_m * self.E_x(x, s=s, t=u)) * b
+        a = self.temporary_annuity(x, s=s+u, t=t, b=b)
+        if variance:  # conditional on surviving the deferral period
+            var = self.temporary_annuity(x, s=s+u, t=t, b=b, variance=True)
+            return (self.E_x(x, s=s, t=u, moment=2) * (var + a**2) -
+                    (self.E_x(x, s=s, t=u) * a)**2)
+        return self.E_x(x, s=s, t=u) * a
 
     @staticmethod
     def interest_frame(i: float = 0.05):
-- 
2.43.0


From 765b6a9294d04ae748d0d28a7a271431abba9350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 42/71] fix: UDD annuity factors did not follow a later change
 of interest rate

---
 src/actuarialmath/udd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index ee50246..edafe97 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -17,8 +17,16 @@ class UDD(Mthly):
 
     def __init__(self, m: int, life: Annuity, **kwargs):
         super().__init__(m=m, life=life, **kwargs)
-        self.alpha_m = self.alpha(m=m, i=self.life.interest.i)
-        self.beta_m = self.beta(m=m, i=self.life.interest.i)
+
+    @property
+    def alpha_m(self) -> float:
+        """Annuity factor alpha(m) at the current interest rate"""
+        return self.alpha(m=self.m, i=self.life.interest.i)
+
+    @property
+    def beta_m(self) -> float:
+        """Annuity factor beta(m) at the current interest rate"""
+        return self.beta(m=self.m, i=self.life.interest.i)
 
     @staticmethod
     def alpha(m: int, i: float) -> float:
-- 
2.43.0


From 7bf27241d892b3f039b9e02de5417894d8310ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 43/71] fix: Woolhouse annuities: zero force of mortality, zero
 term and term past the limiting age

---
 src/actuarialmath/woolhouse.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 4a9c17a..a4a56f1 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -38,7 +38,7 @@ class Woolhouse(Mthly):
             return self.approximate_mu(x, s)
 
     def whole_life_insurance(self, x: int, s: int = 0, b: int = 1,
-                             mu: float | None = 0.) -> float:
+                             mu: float | None = None) -> float:
         """1/m'thly Woolhouse whole life insurance: A_x
  
         Args:
@@ -50,7 +50,7 @@ class Woolhouse(Mthly):
         return b * self.insurance_twin(self.whole_life_annuity(x, s=s, mu=mu))
 
     def term_insurance(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
-                       b: int = 1, mu: float | None = 0., 
+                       b: int = 1, mu: float | None = None, 
                        mu1: float | None = None) -> float:
         """1/m'thly Woolhouse term insurance: A_x:t
 
@@ -124,7 +124,8 @@ class Woolhouse(Mthly):
         a = (self.life.whole_life_annuity(x, s=s, discrete=True) -
              (self.m - 1)/(2 * self.m))
         if self.three_term:
-            mu = mu or self.mu_x(x, s)
+            if mu is None:
+                mu = self.mu_x(x, s)
             a -= (mu + self.life.interest.delta)*(self.m**2 - 1)/(12 * self.m**2)
         return a * b
 
@@ -156,10 +157,13 @@ class Woolhouse(Mthly):
           mu : value of mu at age x+s+u
           mu1 : value of mu at age x+s+u+t
         """
-        a_x = self.whole_life_annuity(x, s=s+u, mu=mu)
-        a_xt = self.whole_life_annuity(x, s=s+t+u, mu=mu1) if t > 0 else 0
-        a = self.E_x(x, s=s, t=u) * (a_x - self.E_x(x, s=s+u, t=t) * a_xt)
-        return a * b
+        if t == 0 or self.life.max_term(x+s, u) < u:
+            return 0.
+        a = self.whole_life_annuity(x, s=s+u, mu=mu)
+        if t > 0 and self.life.max_term(x+s+u, t) >= t:
+            a -= (self.E_x(x, s=s+u, t=t) * 
+                  self.whole_life_annuity(x, s=s+t+u, mu=mu1))
+        return self.E_x(x, s=s, t=u) * a * b
 
 if __name__ == "__main__":
     from actuarialmath.sult import SULT
-- 
2.43.0


From 67e0fd2bf4919369878f76ccb046b78376b35235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 44/71] fix: mortality without extra risk was None; invalid
 risk raised NameError

---
 src/actuarialmath/extrarisk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index ee466b9..54e6c95 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -22,7 +22,7 @@ class ExtraRisk(Actuarial):
                  risk: str = "",
                  extra: float = 0.) -> "ExtraRisk":
         """Specify type and amount of mortality adjustment to apply"""
-        assert not risk or risk in self.risks, "risk must be one of " + str(risks)
+        assert not risk or risk in self.risks, "risk must be one of " + str(self.risks)
         assert extra >= 0, "amount of extra risk must be non-negative"
         self.life = life
         self.extra_ = extra
@@ -82,6 +82,7 @@ class ExtraRisk(Actuarial):
             return self.life.q_x(x + self.extra_, s=s)
         if self.risk_ in ["MULTIPLY_RATE"]:
             return self.extra_ * self.life.q_x(x, s=s)
+        return self.life.q_x(x, s=s)
 
 if __name__ == "__main__":
     from actuarialmath.selectlife import SelectLife
-- 
2.43.0


From 5d9ff4e040a7be24a23e979cc47ff0d5cc1df59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 45/71] fix: Woolhouse term running exactly to the limiting age
 evaluated the force of mortality there

---
 src/actuarialmath/woolhouse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index a4a56f1..39c3e0e 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -63,7 +63,7 @@ class Woolhouse(Mthly):
           mu1 : value of mu at age x+s+t
         """
         A = self.whole_life_insurance(x, s=s, b=b, mu=mu)
-        if t < 0 or self.life.max_term(x+s, t) < t:
+        if t < 0 or self.life.max_term(x+s, t+1) <= t:  # to the limiting age
             return A
         E = self.E_x(x, s=s, t=t)
         return A - E * self.whole_life_insurance(x, s=s+t, b=b, mu=mu1)
@@ -160,7 +160,7 @@ class Woolhouse(Mthly):
         if t == 0 or self.life.max_term(x+s, u) < u:
             return 0.
         a = self.whole_life_annuity(x, s=s+u, mu=mu)
-        if t > 0 and self.life.max_term(x+s+u, t) >= t:
+        if t > 0 and self.life.max_term(x+s+u, t+1) > t:
             a -= (self.E_x(x, s=s+u, t=t) * 
                   self.whole_life_annuity(x, s=s+t+u, mu=mu1))
         return self.E_x(x, s=s, t=u) * a * b
-- 
2.43.0


From b75126f56f21003766cf60595ad4db779dd3a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 46/71] fix: Recursion: variance of a pure endowment whose
 survival is not known raised TypeError

---
 src/actuarialmath/recursion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 7c8dc6a..00ce29f 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -894,6 +894,8 @@ class Recursion(Reserves):
             if found is not None:
                 return found
             t_p_x = self.p_x(x, s=s, t=t)
+            if t_p_x is None:
+                return None
             return (endowment * self.interest.v_t(t))**2 * t_p_x * (1-t_p_x)
         found = self._E_x(x, s=s, t=t, endowment=endowment, moment=moment,
                           depth=self.maxdepth)
-- 
2.43.0


From 287fd1a3c83022f8e5cf849579f26d2818d90122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 47/71] fix: Recursion: moments of pure endowments (term,
 discount and amount), stored per unit of the amount

---
 src/actuarialmath/recursion.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 00ce29f..348a418 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -793,7 +793,7 @@ class Recursion(Reserves):
         key = self._db_key('E', x=x+s, t=t, moment=moment)
         val = self.db.get(key, None)
         if val is not None:
-            return val * endowment   # stored with benefit=1
+            return val * endowment**abs(moment)   # stored with benefit=1
 
     def set_E(self, val: float, x: int, s: int = 0, t: int = 1, 
               endowment: int = 1, moment: int = 1) -> "Recursion":
@@ -807,7 +807,8 @@ class Recursion(Reserves):
           endowment : endowment value
           moment : first or second moment of pure endowment
         """
-        val /= endowment   # store with benefit=1
+        if val is not None:
+            val /= endowment**abs(moment)   # store with benefit=1
         return self._db_put(self._db_key('E', x=x+s, t=t, moment=moment), val)
 
     def _E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1, 
@@ -820,14 +821,16 @@ class Recursion(Reserves):
             return 0
         if t == 0:    # t = 0 => EPV(0) = endowment**moment
             return endowment**moment
+        if moment == self.VARIANCE:  # rules below apply to moments only
+            return None
         if moment > 1:
-            E = self._E_x(x, s=s, endowment=endowment, depth=depth)
+            E = self._E_x(x, s=s, t=t, endowment=endowment, depth=depth)
             if E:  # (1) Shortcut: 2E_x = v E_x
                 self.blog(self.pprint.E(x=x, s=s, t=t, moment=moment),
                           f"= " + self.pprint.m(moment*t, v="v"), '*',
                           self.pprint.E(x=x, s=s, t=t),
                           depth=depth, rule='moments of pure endowment')
-                return E * self.interest.v**(moment-1)
+                return E * (endowment * self.interest.v_t(t))**(moment-1)
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From 7e74b0f1a93e8b3f4a547bacd3a511b46c6102df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 48/71] fix: Recursion: insurance moments are stored and
 returned per unit of benefit to the power of the moment

---
 src/actuarialmath/recursion.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 348a418..fea9307 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1122,10 +1122,10 @@ class Recursion(Reserves):
         if endowment < 0:   # endowment insurance with equal benefits
             endowment = b
         if t == 0:          # terminal value of insurance
-            return endowment
+            return 0 if u > 0 or moment < 0 else endowment**moment
         if b == 0:          # normalize insurance factor by benefit amount
             scale = endowment
-            endowment = 1
+            endowment = float('inf')   # endowment only, no death benefit
         else:
             scale = b
             endowment = 1 if b == endowment else endowment / b
@@ -1133,7 +1133,7 @@ class Recursion(Reserves):
                            endowment=endowment, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * scale   # stored with benefit=1
+            return val * scale**abs(moment)   # stored with benefit=1
 
 
     def set_A(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
@@ -1156,14 +1156,14 @@ class Recursion(Reserves):
         """
         if endowment < 0:      # endowment insurance with equal death and endow
             endowment = b
-        if endowment == 0:     # normalize insurance factor by benefit amount
-            val /= b
-        elif b == 0:
-            val /= endowment   # store with benefit=1
+        if b == 0:             # normalize insurance factor by benefit amount
+            scale = endowment  # store with benefit=1
+            endowment = float('inf')   # endowment only, no death benefit
         else:
-            if b != 1:
-                val /= b
-                endowment /= b
+            scale = b
+            endowment = 1 if b == endowment else endowment / b
+        if val is not None:
+            val /= scale**abs(moment)
         return self._db_put(self._db_key('A', x=x+s, t=t, u=u,
                                          moment=moment, endowment=endowment, 
                                          discrete=discrete), val)
-- 
2.43.0


From 089f177e108a0e8a3b3432fc8d084b330c47b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 49/71] fix: Recursion: rules for deferred insurance used an
 undefined name and ignored the deferral of continuous insurance

---
 src/actuarialmath/recursion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index fea9307..f987e5a 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1173,7 +1173,7 @@ class Recursion(Reserves):
              moment: int = 1, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
 
-        if endowment == b and t == 1 and discrete: # 1-year endow ins
+        if endowment == b and t == 1 and discrete and u == 0 and moment > 0: # 1-year endow ins
 #            self.blog(self.pprint.A(x=x, s=s, t=1, endowment=b, b=b, moment=moment),
 #                      '=', self.pprint.m(moment, v="v"),
 #                      depth=depth, rule='one-year endowment insurance')
@@ -1185,11 +1185,11 @@ class Recursion(Reserves):
         if depth <= 0:
             return None
 
-        if discrete and u > 0:  # (1) deferred insurance  
+        if u > 0:  # (1) deferred insurance  
             A = self._A_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
                               moment=moment, endowment=endowment, depth=depth-1)
             E = self._E_x(x, s=s, t=1, moment=moment, depth=depth-1)
-            if A is not None and p is not None:  # (1a) backward E_x * A
+            if A is not None and E is not None:  # (1a) backward E_x * A
                 #msg = f"backward deferred {u}_A_{x+s}: {u}_E * A_{x+s+u}"
                 self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
                           self.pprint.E(x=x, s=s, moment=moment), '*',
-- 
2.43.0


From 59872dd18fe6bcc9f4b0a0c41587f5db73457b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 50/71] fix: Recursion: rules for moments of insurance were
 applied to its variance

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index f987e5a..1871de4 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1182,7 +1182,7 @@ class Recursion(Reserves):
                             moment=moment, endowment=endowment)
         if found is not None:
             return found
-        if depth <= 0:
+        if depth <= 0 or moment == self.VARIANCE:
             return None
 
         if u > 0:  # (1) deferred insurance  
-- 
2.43.0


From e0724811061f5301d0e43f7f74d36563ed9aba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 51/71] fix: Recursion: one-year discrete insurance rule raised
 AttributeError

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 1871de4..2e44f97 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1263,7 +1263,7 @@ class Recursion(Reserves):
                           self.pprint.m(moment, v="v"), "*",
                           self.pprint.q(x=x, s=s), f"*",
                           self.pprint.m(moment, v="v"), "+",
-                          self.pprint.p(x=x, s=s), f"*".
+                          self.pprint.p(x=x, s=s), f"*",
                           self.pprint.m(moment, endow=endowment),
                           #f"discrete 1-year insurance: A_{x+s}:1 = qv",
                           depth=depth, rule='one-year discrete insurance')
-- 
2.43.0


From 689140438fa09ad1216da595472a17fcf80774d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 52/71] fix: Recursion: deferred mortality for the whole of
 life ignored the deferral

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 2e44f97..400daac 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -451,7 +451,7 @@ class Recursion(Reserves):
         if t == 0:
             return 0
         if t < 0:
-            return 1
+            return self._p_x(x, s=s, t=u, depth=depth-1) if u > 0 else 1
         if u > 0:
             pu = self._p_x(x, s=s, t=u, depth=depth-1) #depth-1)
             qt = self._get_q(x, s=s+u, t=t)
-- 
2.43.0


From 7f90f6fb42dab482cd2cb73b9d5e0670bea1bf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 53/71] fix: Recursion: variance of an annuity raised
 AssertionError instead of using its formula; of a one-year annuity was its
 benefit

---
 src/actuarialmath/recursion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 400daac..b1e2e47 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1483,7 +1483,7 @@ class Recursion(Reserves):
                            variance=variance, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * b    # stored with benefit=1
+            return val * b**(1 + bool(variance))    # stored with benefit=1
 
     def set_a(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
               u: int = 0, b: int = 1, variance: bool = False, 
@@ -1503,7 +1503,8 @@ class Recursion(Reserves):
         Examples:
           >>> Recursion().set_interest(i=0.06).set_a(7, x=1)
         """
-        val /= b    # store with benefit=1
+        if val is not None:
+            val /= b**(1 + bool(variance))    # store with benefit=1
         return self._db_put(self._db_key('a', x=x+s, t=t, u=u, 
                                          variance=variance, discrete=discrete), val)
 
@@ -1511,7 +1512,7 @@ class Recursion(Reserves):
              u: int = 0, b: int = 1, discrete: bool = True, 
              variance: bool = False, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
-        if t == 1 and not u and discrete:
+        if t == 1 and not u and discrete and not variance:
 #            self.blog(self.pprint.a(x=x, s=s, t=1, discrete=discrete), '= 1',
 #                      depth=depth, rule='one-year discrete annuity')
             return b 
@@ -1521,9 +1522,8 @@ class Recursion(Reserves):
                             variance=variance)
         if found is not None:
             return found
-        if depth <= 0:
+        if depth <= 0 or variance:   # recursions only for expected value
             return None
-        assert variance is False, "Annuity recursion requires variance=False"
 
         if u > 0:  # (1) deferred annuity
             found = self._a_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
-- 
2.43.0


From 8b0360d80a4eb021d1fee27a17c73f4b99f73aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 54/71] fix: Recursion: decreasing insurance rules were never
 applied and mixed up increasing and decreasing insurance

---
 src/actuarialmath/recursion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index b1e2e47..487beb7 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1042,18 +1042,18 @@ class Recursion(Reserves):
     def _DA_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE, b: int = 1,
               discrete: bool = True, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
-        found = self._get_DA(x=x, s=s, t=t, discrete=discrete)
+        found = self._get_DA(x=x, s=s, t=t, b=b, discrete=discrete)
         if found is not None:
             return found
         if t == 0:
             return 0
         if depth <= 0:
             return None
-        assert t < 0,  "Decreasing insurance must be term insurance"
+        assert t > 0,  "Decreasing insurance must be term insurance"
     
         A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         n = t + int(discrete)
-        IA = self._DA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
+        IA = self._IA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         if A is not None and IA is not None:
             self.blog(self.pprint.DA(x=x, s=s, t=t), f'= {n}',
                       self.pprint.A(x=x, s=s, t=t), '-',
@@ -1064,7 +1064,7 @@ class Recursion(Reserves):
             self.blog.pop(depth=depth)
 
         if discrete:
-            DA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
+            DA = self._DA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, depth=depth-1)
             if DA is not None and p is not None:
                 #f"backward DA_{x+s}:{t}: v(t q_{x+s} + p_{x+s} DA_{x+s+1}:{t-1})"
@@ -1073,7 +1073,7 @@ class Recursion(Reserves):
                           self.pprint.q(x=x, s=s), '+',
                           self.pprint.p(x=x, s=s), '*', self.pprint.DA(x=x, s=s+1, t=t-1),
                           depth=depth, rule='backward recursion')
-                return self.interest.v * ((1-p)*t + p*DA)  # (2) backward recursion
+                return self.interest.v * ((1-p)*t*b + p*DA)  # (2) backward recursion
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From 012f3edf7a879ae3de3244d39ba906e97088c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 55/71] fix: Recursion: backward recursion of increasing
 insurance omitted the first year's share of later benefits

---
 src/actuarialmath/recursion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 487beb7..42c5625 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -970,14 +970,17 @@ class Recursion(Reserves):
             A = self._A_x(x=x, s=s, t=1, b=b, discrete=discrete, depth=depth-1)
             IA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, t=1, depth=depth-1)   # FIXED t=1
-            if A is not None and IA is not None and p is not None:
+            A1 = self._A_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, 
+                           discrete=discrete, depth=depth-1)
+            if (A is not None and IA is not None and p is not None
+                and A1 is not None):
                 self.blog(self.pprint.IA(x=x, s=s, t=t), '=',
                           self.pprint.A(x=x, s=s, t=t), '+',
                           self.pprint.p(x=x, s=s), f"*", self.pprint.m(t, v="v"), "*",
                           self.pprint.IA(x=x, s=s+1, t=t-1),
                           #f"backward IA_{x+s}:{t}: A + IA_{x+s+1}:{t-1}",
                           depth=depth, rule='backward recursion')
-                return A + p * self.interest.v * IA  # (2) backward recursion
+                return A + p * self.interest.v * (IA + A1)  # (2) backward recursion
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From 1ef75db0de6bb2d4d5f979cacf7ac7237bb797fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:23 +0000
Subject: [PATCH 56/71] fix: Recursion: twin of an insurance or annuity ignored
 the benefit amount

---
 src/actuarialmath/recursion.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 42c5625..74da17b 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1375,14 +1375,14 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and self.interest.i > 0:  # (1) twin annuity
-            a = self._a_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            a = self._a_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if a is not None:
                 self.blog(self.pprint.a(x=x, s=s), '= [ 1 -',
                           self.pprint.A(x=x, s=s), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().whole_life_insurance(x, s=s, b=b, discrete=discrete,
                                          moment=moment)
         if A is not None:
@@ -1454,11 +1454,11 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and endowment == b and self.interest.i > 0:
-            a = self._a_x(x, s=s, b=b, t=t, discrete=discrete,
+            a = self._a_x(x, s=s, t=t, discrete=discrete,
                           depth=self.maxdepth)
             if a is not None:   # twin insurance
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().endowment_insurance(x, s=s, b=b, t=t, discrete=discrete,
                                         moment=moment, endowment=endowment)
         if A is not None:
@@ -1610,13 +1610,13 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0:  # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            A = self._A_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if A is not None:
                 self.blog(self.pprint.a(x=x, s=s, discrete=discrete, variance=variance),
                           "= [1 -", self.pprint.A(x=x, s=s, discrete=discrete), "] / d",
                           depth=self.maxdepth, rule='insurance twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().whole_life_annuity(x, s=s, b=b, discrete=discrete,
                                        variance=variance)
         if a is not None:
@@ -1646,7 +1646,7 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0: # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, t=t, endowment=b, discrete=discrete, 
+            A = self._A_x(x, s=s, t=t, endowment=1, discrete=discrete, 
                           depth=self.maxdepth)
             if A is not None:
                 self.blog(self.pprint.a(x=x, s=s, t=t, b=b), '= [ 1 -',
@@ -1654,7 +1654,7 @@ class Recursion(Reserves):
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().temporary_annuity(x, s=s, b=b, t=t, discrete=discrete,
                                       variance=variance)
         if a is not None:
-- 
2.43.0


From efdb4800ba1b18c680582a51bf1adc179b8d7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 57/71] fix: Recursion: deferred annuity ignored the deferral
 when solved by the base formula

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 74da17b..0478219 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1689,7 +1689,7 @@ class Recursion(Reserves):
         if a is not None and a_t is not None:
             self.blog.display()
             return a - a_t
-        return super().deferred_annuity(x, s=s, b=b, t=t, discrete=discrete)
+        return super().deferred_annuity(x, s=s, u=u, b=b, t=t, discrete=discrete)
 
 # to auto-detect notebook environment
 try:
-- 
2.43.0


From 4aff77e2ba7de503506c7a3e9bf0dbd963333489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 58/71] fix: Recursion: removing a fact stored None for it or
 raised TypeError

---
 src/actuarialmath/recursion.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 0478219..c7dd5fe 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -395,8 +395,8 @@ class Recursion(Reserves):
           key : key of the item
           value : value to store for item
         """
-        if value is None and key in self.db:
-            self.db.pop(key)
+        if value is None:
+            self.db.pop(key, None)
         else:
             self.db[key] = value
             label = key[0]
@@ -937,7 +937,8 @@ class Recursion(Reserves):
           b : benefit after year 1
           discrete : discrete or continuous increasing insurance
         """
-        val /= b   # store with benefit=1
+        if val is not None:
+            val /= b   # store with benefit=1
         return self._db_put(self._db_key('IA', x=x+s, t=t, 
                                          discrete=discrete), val)
 
@@ -1038,7 +1039,8 @@ class Recursion(Reserves):
           b : benefit after year 1
           discrete : discrete or continuous decreasing insurance
         """
-        val /= b     # store with benefit=1
+        if val is not None:
+            val /= b     # store with benefit=1
         return self._db_put(self._db_key('DA', x=x+s, t=t, 
                                          discrete=discrete), val)
 
-- 
2.43.0


From 46c8131fdf121b828cecbf0dfb9c551d3dbcd886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 59/71] fix: Recursion: display of steps in a notebook as text
 used an undefined name

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index c7dd5fe..94d5944 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -69,7 +69,7 @@ class _Blog:
             if _Blog._notebook and _Blog._latex:
                 display_latex(_str, raw=True)
             elif _Blog._notebook:
-                display_pretty(_self, raw=True)
+                display_pretty(_str, raw=True)
             else:
                 print(_str, end=end)
             
-- 
2.43.0


From 1fc2f3fe314b6876346a859eb50050fd0b79c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 60/71] fix: PolicyValues.L_plot returned an unbound local when
 no T is given

---
 src/actuarialmath/policyvalues.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index e2113ac..22824d3 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -424,6 +424,7 @@ class PolicyValues(Premiums):
             bx.set_ylabel(f"$S({K})$", color='g')
             bx.tick_params(axis='y', colors='g')
 
+        z = None
         if T is not None:
             # plot indicate(T*)
             z = self.L_from_t(T, contract=contract)
-- 
2.43.0


From 907a639b49f6a2d424c2e68ff6d35b628df2df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 61/71] fix: Annuity._Y_plot read an undefined name for its bar
 width

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a0d0bb0..64d9d20 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -428,7 +428,7 @@ class Annuity(Insurance):
         # plot benefit values
         y = [benefit(x, s+t) * self.Y_from_t(t, discrete=discrete) for t in steps]
         if T is None:
-            ax.bar(steps, y, width=stepsize, alpha=0.5, color=color)
+            ax.bar(steps, y, width=step, alpha=0.5, color=color)
             Y = None
         else:
             ax.step(steps, y, ':', c=color, where='pre' if discrete else 'post')
-- 
2.43.0


From bb2e1f4ad70fa90aaddea7e08dfd7d8eb88425d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 62/71] fix: limiting age of a select table with fewer
 selection ages than select years ignored its ultimate rates

---
 src/actuarialmath/selectlife.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index ff371a7..61f2f8c 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -339,9 +339,9 @@ class SelectLife(LifeTable):
           t : term of insurance or annuity, after deferral period
           u : term deferred
         """
-        limit = self._MAXAGE  # oldest selection age, extended by ultimate rates
-        while self._isin_sel(limit - self.periods_, self.periods_, 'q'):
-            limit += 1
+        n = self.periods_     # oldest selection age, extended by ultimate rates
+        limit = max([self._MAXAGE] + [age + n + 1 for age in self._select['q']
+                                      if self._isin_sel(age, n, 'q')])
         return limit - (x + u) if t < 0 or x + t + u > limit else t
 
     def l_x(self, x: int, s: int = 0) -> float:
-- 
2.43.0


From e032706f000f82d26cf642a0774b562eaf81a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 63/71] fix: plots marked the present value and survival of
 another age than the one plotted

---
 src/actuarialmath/annuity.py   | 6 +++---
 src/actuarialmath/insurance.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 64d9d20..d1038ce 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -380,7 +380,7 @@ class Annuity(Insurance):
     
         if T is not None:
             # indicate PV benefit Y(T*)
-            Y = self.Y_from_t(T, discrete=discrete) * benefit(self._MINAGE, T)
+            Y = self.Y_from_t(T, discrete=discrete) * benefit(x, s+T)
             
             label1, = ax.plot(T, Y, c=color, marker='o',
                               label=f"Y({T:.2f})={Y:.4f}")            
@@ -388,7 +388,7 @@ class Annuity(Insurance):
             ax.legend(handles=[label1], loc='upper left')
 
             if dual:
-                prob = self.S(x, 0, T)
+                prob = self.S(x, s, T)
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
@@ -397,7 +397,7 @@ class Annuity(Insurance):
         ax.set_ylabel(f"$Y({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Y if T else None
+        return Y if T is not None else None
 
     def _Y_plot(self, x: int, s: int = 0, stop : int = 0,
                 benefit: Callable = lambda x,k: 1,
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 743e103..3abcead 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -391,14 +391,14 @@ class Insurance(Fractional):
             
         if T is not None:
             # indicate PV of benefit Z(T*)
-            Z = benefit(self._MINAGE, T) * self.Z_from_t(T, discrete=discrete)
+            Z = benefit(x, s+T) * self.Z_from_t(T, discrete=discrete)
             label1, = ax.plot(T, Z, c=color, marker='o',
                               label=f"Z({T:.2f})={Z:.4f}")
             #ax.text(T + xjig, Z, f"Z({T:.2f})={Z:.4f}", c=color)
             ax.legend(handles=[label1], loc='lower left')
 
             if dual:
-                prob = self.S(x, 0, T)      # note: is opposite of annuity
+                prob = self.S(x, s, T)      # note: is opposite of annuity
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
@@ -407,7 +407,7 @@ class Insurance(Fractional):
         ax.set_ylabel(f"$Z({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Z if T else None
+        return Z if T is not None else None
 
     def _Z_plots(self,
                  x: int,
-- 
2.43.0


From fecd30859f6756cbb4064d39069bf1feec845cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 64/71] fix: pure endowment of Uniform and ConstantForce
 defaults to a one year term like every other model (was 0)

---
 src/actuarialmath/constantforce.py | 2 +-
 src/actuarialmath/mortalitylaws.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 22fc052..b08a734 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -52,7 +52,7 @@ class ConstantForce(MortalityLaws):
                 return e
         return super().e_x(x, s=s, t=t, curtate=curtate, moment=moment)
 
-    def E_x(self, x: int, s: int = 0, t: int = MortalityLaws.WHOLE, 
+    def E_x(self, x: int, s: int = 0, t: int = 1, 
             endowment: int = 1, moment: int = 1) -> float:
         """Shortcut for pure endowment: does not depend on age x
 
diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index fc290dd..38d5f29 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -193,7 +193,7 @@ class Uniform(Beta):
         return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     
-    def E_x(self, x: int, s: int = 0, t: int = Beta.WHOLE, 
+    def E_x(self, x: int, s: int = 0, t: int = 1, 
             endowment: int = 1, moment: int = 1) -> float:
         """Shortcut for Pure Endowment
 
-- 
2.43.0


From 6d19449a96da5286c1942bbf0cf1784b4f306f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 65/71] fix: Uniform.term_insurance pays at the end of the year
 unless asked otherwise, like every other model

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 38d5f29..a18eccc 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -240,7 +240,7 @@ class Uniform(Beta):
                                             discrete=discrete)
 
     def term_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
-                       moment: int = 1, discrete: bool = False) -> float:
+                       moment: int = 1, discrete: bool = True) -> float:
         """Shortcut for term insurance
 
         Args:
-- 
2.43.0


From 400a34c7979fa6d4a4b54cbab66c1b408985eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 66/71] fix: lifetime density from a fractional age beyond the
 first year

Fractional.f_r reduced the fractional age only when r + t exceeded one, after
the test for staying within the year: from r >= 1 with the death in the same
year of age it survived a negative time and failed.
---
 src/actuarialmath/fractional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index f0e5308..4e6886c 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -139,6 +139,9 @@ class Fractional(Lifetime):
         assert s >= 0, "s must be non-negative"
         assert r >= 0, "r must be non-negative"
         assert t >= 0, "t must be non-negative"
+        r_floor = math.floor(r)
+        r -= r_floor            # s.t. r < 1 
+        s += r_floor            # while maintaining x+s+r unchanged
         if 0. <= r + t <= 1.:   # shortcuts available within integer ages
             if self.udd_:       # UDD shortcut: constant q_x
                 return self.q_x(x, s=s) / (1. - r*self.q_x(x, s=s))
@@ -148,9 +151,6 @@ class Fractional(Lifetime):
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-            r_floor = math.floor(r)
-            r -= r_floor            # s.t. r < 1 
-            s += r_floor            # while maintaining x+s+r unchanged
             t_floor = math.floor(r + t)
             u = t_floor - r         # s.t. u + r is integer
             t = t + r - t_floor     # s.t. t < 1
-- 
2.43.0


From 59f5718da69cb1d0ccd9cf1f2fc949dd56d02c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 67/71] fix: lifetime density at time zero under constant force

Fractional.f_r handed the density at time zero to f_x, which for a life table
interpolates with f_r again and never returned; elsewhere it answered with
another law than the constant force of the year.
---
 src/actuarialmath/fractional.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index 4e6886c..6141f57 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -146,8 +146,6 @@ class Fractional(Lifetime):
             if self.udd_:       # UDD shortcut: constant q_x
                 return self.q_x(x, s=s) / (1. - r*self.q_x(x, s=s))
             else:               # Constant force shortcut:
-                if self.isclose(t):
-                    return self.f_x(x=x, s=s)
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-- 
2.43.0


From 58ce8bb560ab1b942699d74cb915e5c6ba443a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 68/71] fix: m-thly deferred insurance takes its deferral as u,
 as documented and as Woolhouse does

---
 src/actuarialmath/mthly.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 63151c8..0b35174 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -167,7 +167,7 @@ class Mthly(Actuarial):
         A -= E * self.whole_life_insurance(x, s=s+t, b=b, moment=moment)
         return A
 
-    def deferred_insurance(self, x: int, s: int = 0, n: int = 0, b: int = 1, 
+    def deferred_insurance(self, x: int, s: int = 0, u: int = 0, b: int = 1, 
                            t: int = Annuity.WHOLE, moment: int = 1) -> float:
         """Deferred insurance n|_A_x:t^1 = discounted whole life
 
@@ -179,14 +179,14 @@ class Mthly(Actuarial):
           b : amount of benefit
           moment : return first or second moment
         """
-        if self.life.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
         if moment == self.VARIANCE:
-            A2 = self.deferred_insurance(x, s=s, t=t, n=n, moment=2)
-            A1 = self.deferred_insurance(x, s=s, t=t, n=n)
+            A2 = self.deferred_insurance(x, s=s, t=t, u=u, moment=2)
+            A1 = self.deferred_insurance(x, s=s, t=t, u=u)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        E = self.E_x(x, s=s, t=n, moment=moment)
-        A = self.term_insurance(x, s=s+n, t=t, b=b, moment=moment)
+        E = self.E_x(x, s=s, t=u, moment=moment)
+        A = self.term_insurance(x, s=s+u, t=t, b=b, moment=moment)
         return E * A   # discount insurance by moment*force of interest
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
-- 
2.43.0


From ca2668f813a05c93cc9fb8b5b6d3b51b729a1afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 69/71] fix: docstrings name the arguments their functions take

---
 src/actuarialmath/actuarial.py    | 2 +-
 src/actuarialmath/annuity.py      | 2 +-
 src/actuarialmath/insurance.py    | 1 -
 src/actuarialmath/policyvalues.py | 2 +-
 4 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 68b3fda..2244dbb 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -81,7 +81,7 @@ class Actuarial(object):
           fun : function to compute output given input values
           target : target value of function output
           grid : initial range of guesses
-          root : whether to solve root (True), or minimize absolute function (False)
+          mad : whether to minimize absolute function (True), or solve root (False)
 
         Returns:
           value s.t. output of function fun(value) ~ target
diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index d1038ce..961c719 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -120,7 +120,7 @@ class Annuity(Insurance):
           discrete : annuity due (True) or continuous (False)
 
         Examples:
-          >>> life.whole_life_annuity(x=24, variance=True, due=False)
+          >>> life.whole_life_annuity(x=24, variance=True, discrete=False)
         """
         interest = self.interest.d if discrete else self.interest.delta
         if variance:  # short cut for variance of whole life
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 3abcead..b9d1701 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -284,7 +284,6 @@ class Insurance(Fractional):
 
         Args:
           t : year of death
-          b : benefit paid at t
           discrete : benefit paid year-end (True) or moment of death (False)
 
         Examples:
diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 22824d3..8b579f7 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -238,7 +238,7 @@ class PolicyValues(Premiums):
         Args:
           A1 : insurance factor
           A2 : insurance factor at double the force of interest
-          policy : policy terms and expenses
+          contract : policy terms and expenses
         """
         contract = contract or Contract()
         interest = self.interest.d if contract.discrete else self.interest.delta
-- 
2.43.0


From f6d2e3e3f79397a0574c74239fd55c5dbf275012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:58 +0000
Subject: [PATCH 70/71] fix: examples of insurance.py called a method that does
 not exist

---
 src/actuarialmath/insurance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index b9d1701..17d8001 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -531,8 +531,8 @@ if __name__ == "__main__":
 
     from actuarialmath.sult import SULT
     life = SULT()
-    life.Z_curve(x=20, stop=80, T=life.Z_t(x=20, prob=0.5),
-                 title="PV insurance benefit if (x) survives median lifetime")
+    life.Z_plot(x=20, stop=80, T=life.Z_t(x=20, prob=0.5),
+                title="PV insurance benefit if (x) survives median lifetime")
     
     print("SOA Question 4.18  (A) 81873 ")
     def f(x,s,t): return 0.1 if t < 2 else 0.4*t**(-2)
@@ -541,7 +541,7 @@ if __name__ == "__main__":
     def benefit(x,t): return 0 if t < 2 else 100000
     prob = 0.9 - life.q_x(x=0, t=2)
     T = life.Z_t(x=0, prob=prob)
-    life.Z_curve(x=0, T=T, benefit=benefit, discrete=False)
+    life.Z_plot(x=0, T=T, benefit=benefit, discrete=False)
     Z = life.Z_from_t(T) * benefit(0, T)
     print(Z)
     
-- 
2.43.0


From e5b95242469864e018565c134320d8b62252699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 71/71] fix: derivative gave arrays to a function of one number

---
 src/actuarialmath/actuarial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 2244dbb..584b0ae 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -69,7 +69,8 @@ class Actuarial(object):
         Examples:
           >>> print(Actuarial.derivative(fun=lambda x: x/50, x=25))
         """
-        return float(scipy.differentiate.derivative(fun, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
+        return float(scipy.differentiate.derivative(np.vectorize(fun, otypes=[float]), x=x,
+                                                    initial_step=1, maxiter=1, preserve_shape=True).df)
         # return scipy.misc.derivative(fun, x0=x, dx=1)
 
     @staticmethod
-- 
2.43.0

