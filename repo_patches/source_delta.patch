From 47a8dc1c6bcec871b6c084a946f3db32a7295ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:20 +0000
Subject: [PATCH 01/18] fix: draw phase-2 challenges at the input layer at
 random instead of zeroing them

---
 src/linear_gkr/verifier_fast_track.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index a61bd56..b90ecfa 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -498,8 +498,6 @@ bool verifier::verify()
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-			if(i == 1)
-				r_v[j] = prime_field::field_element(0);
 			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);
 			previous_random = r_v[j];
 			if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
-- 
2.43.0


From 7d964a8b2f035908b7a21c35b8e4a23f64ff6b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:20 +0000
Subject: [PATCH 02/18] fix: bind the prover's V(r_u) claim once per layer in
 the fast track verifier

---
 src/linear_gkr/verifier_fast_track.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index b90ecfa..9768219 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -495,12 +495,14 @@ bool verifier::verify()
 		std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		//the claimed V(r_u) is fixed here, before any phase 2 challenge is revealed
+		auto v_u = p -> v_u;
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
 			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);
 			previous_random = r_v[j];
-			if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+			if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 			{
 				fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 				return false;
@@ -508,14 +510,13 @@ bool verifier::verify()
 			else
 			{
 			}
-			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;
 		}
 		t1 = std::chrono::high_resolution_clock::now();
 		time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
 		std::cerr << "	Time: " << time_span.count() << std::endl;
 		
 		auto final_claims = p -> sumcheck_finalize(previous_random);
-		auto v_u = final_claims.first;
 		auto v_v = final_claims.second;
 
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
-- 
2.43.0


From 6e602fbcd3784be25eb7bd105e0f84b7c771834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 03/18] fix: bc_clogc verifier computes the block-selector
 weight itself

---
 src/traditional_gkr/verifier_bc_clogc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index f6a7edd..b3f179c 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -374,7 +374,11 @@ bool verifier::verify()
 //		std::cout << "mult_value = " << mult_value.to_string(10) << std::endl;
 //		std::cout << "add_value = " << add_value.to_string(10) << std::endl;
 
-		if(alpha_beta_sum != p -> beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
+		prime_field::field_element beta_blk_val = prime_field::field_element(1);
+		for(int j = 0; j < C.total_blocks_binary_length; ++j)
+			beta_blk_val = beta_blk_val * (r_b_0[j] * r_b[j] + one_minus_r_b_0[j] * one_minus_r_b[j]);
+
+		if(alpha_beta_sum != beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
-- 
2.43.0


From f252ea682641113f9b5b87ddb4231d0cc62641e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 04/18] fix: verifiers evaluate the claimed output's extension
 themselves

---
 src/linear_gkr/verifier_fast_track.cpp       | 2 +-
 src/traditional_gkr/verifier_bc_clogc.cpp    | 2 +-
 src/traditional_gkr/verifier_traditional.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index 9768219..0a350d2 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -443,7 +443,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index b3f179c..6019722 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -257,7 +257,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, one_minus_r_b_0, r_b_0, result, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, C.total_blocks_binary_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length)));
+	prime_field::field_element a_0 = V_in(r_b_0, one_minus_r_b_0, r_0, one_minus_r_0, result, C.total_blocks_binary_length, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length)));
 	delete[] result;
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
diff --git a/src/traditional_gkr/verifier_traditional.cpp b/src/traditional_gkr/verifier_traditional.cpp
index 6776232..05d5262 100644
--- a/src/traditional_gkr/verifier_traditional.cpp
+++ b/src/traditional_gkr/verifier_traditional.cpp
@@ -220,7 +220,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	//std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
-- 
2.43.0


From aeeee03ffc4d97b08f21bcbe484c8ccfcea8c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 05/18] fix: provers evaluate dummy input gates to zero, as the
 verifiers do

---
 src/linear_gkr/prover_fast_track.cpp | 2 +-
 src/traditional_gkr/prover_clogc.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/prover_fast_track.cpp b/src/linear_gkr/prover_fast_track.cpp
index 8273506..25434dc 100644
--- a/src/linear_gkr/prover_fast_track.cpp
+++ b/src/linear_gkr/prover_fast_track.cpp
@@ -44,7 +44,7 @@ prime_field::field_element* prover::evaluate()
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
 		assert(ty == 3 || ty == 2);
-		circuit_value[0][g] = prime_field::field_element(u);
+		circuit_value[0][g] = prime_field::field_element(ty == 2 ? 0 : u);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
diff --git a/src/traditional_gkr/prover_clogc.cpp b/src/traditional_gkr/prover_clogc.cpp
index a89cabc..5ab7831 100644
--- a/src/traditional_gkr/prover_clogc.cpp
+++ b/src/traditional_gkr/prover_clogc.cpp
@@ -44,7 +44,7 @@ prime_field::field_element* prover::evaluate()
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
 		assert(ty == 3 || ty == 2);
-		circuit_value[0][g] = prime_field::field_element(u);
+		circuit_value[0][g] = prime_field::field_element(ty == 2 ? 0 : u);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
-- 
2.43.0


From d11bfd65ae4df7d884ab187827e415c80f859b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 06/18] fix: clogc prover rejects circuits deeper than its
 layer table

---
 src/traditional_gkr/prover_clogc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traditional_gkr/prover_clogc.cpp b/src/traditional_gkr/prover_clogc.cpp
index 5ab7831..7a616da 100644
--- a/src/traditional_gkr/prover_clogc.cpp
+++ b/src/traditional_gkr/prover_clogc.cpp
@@ -46,7 +46,7 @@ prime_field::field_element* prover::evaluate()
 		assert(ty == 3 || ty == 2);
 		circuit_value[0][g] = prime_field::field_element(ty == 2 ? 0 : u);
 	}
-	assert(C.total_depth < 1000000);
+	assert(C.total_depth <= 1000);
 	for(int i = 1; i < C.total_depth; ++i)
 	{
 		circuit_value[i] = new prime_field::field_element[(1 << C.circuit[i].bit_length)];
-- 
2.43.0


From 9c70e601087b41021752c669a51a68a50de99208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:36 +0000
Subject: [PATCH 07/18] fix: u256b subtraction is off by one (two's complement
 without the +1)

---
 src/linear_gkr/prime_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 23edac2..525ed60 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -59,7 +59,7 @@ namespace prime_field
 		not_x.lo = ~x.lo;
 		not_x.mid = ~x.mid;
 		not_x.hi = ~x.hi;
-		return *this + not_x;
+		return *this + not_x + (u256b)(unsigned long long)1;
 	}
 
 	u256b u256b::operator * (const u256b &x) const
-- 
2.43.0


From b192f0118680cdb478859eccba994f472db92196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:36 +0000
Subject: [PATCH 08/18] fix: u256b::testBit reads the wrong limb for bits 64
 and 128

---
 src/linear_gkr/prime_field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 525ed60..e6c96a8 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -192,11 +192,11 @@ namespace prime_field
 
 	int u256b::testBit(int i)
 	{
-		if(i <= 64)
+		if(i < 64)
 		{
 			return (lo >> i) & 1;
 		}
-		else if(i <= 128)
+		else if(i < 128)
 		{
 			return (mid >> (i - 64)) & 1;
 		}
-- 
2.43.0


From 30eee1d34d073a658df8f30042cbc25cddc27e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:36 +0000
Subject: [PATCH 09/18] fix: u512b from text ignored the base

---
 src/linear_gkr/prime_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index e6c96a8..ed2b17b 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -269,7 +269,7 @@ namespace prime_field
 		for(int i = len - 1; i >= 0; --i)
 		{
 			ret = ret + tmp * (u512b)((u256b)(unsigned long long)(x[i] - '0'));
-			tmp = tmp * (u512b)((u256b)(unsigned long long)10);
+			tmp = tmp * (u512b)((u256b)(unsigned long long)base);
 		}
 		*this = ret;
 	}
-- 
2.43.0


From 70e082ab96f72756e0e32bdbc66e731c7244e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:36 +0000
Subject: [PATCH 10/18] fix: bitLen of zero is undefined

---
 src/linear_gkr/prime_field.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index ed2b17b..e713630 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -186,6 +186,8 @@ namespace prime_field
 		}
 		else
 		{
+			if(lo == 0)
+				return 0;
 			return 64 - __builtin_clzll(lo);
 		}
 	}
@@ -598,6 +600,8 @@ namespace prime_field
 			lo = value.lo & (~zero);
 			if(hi != 0)
 				return 128 - __builtin_clzll(hi);
+			if(lo == 0)
+				return 0;
 			return 64 - __builtin_clzll(lo);
 		}
 	}
-- 
2.43.0


From e1cdd265a113c0d3385d62e525f5147c00abfbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:36 +0000
Subject: [PATCH 11/18] fix: to_gmp_class releases an array with plain delete

---
 src/linear_gkr/prime_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index e713630..f15e8d8 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -624,7 +624,7 @@ namespace prime_field
 		}
 		str_value[256] = 0;
 		mpz_class ret(str_value, 2);
-		delete str_value;
+		delete[] str_value;
 		return ret;
 	} 
 	bool field_element::operator == (const field_element &b) const
-- 
2.43.0


From 598531894e742b8ff0e6952ede76a4116ba3ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:36 +0000
Subject: [PATCH 12/18] fix: bc_clogc prover tables have room for the pair of
 copies combined when there is a single copy

---
 src/traditional_gkr/prover_bc_clogc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/traditional_gkr/prover_bc_clogc.cpp b/src/traditional_gkr/prover_bc_clogc.cpp
index a632193..c1541fb 100644
--- a/src/traditional_gkr/prover_bc_clogc.cpp
+++ b/src/traditional_gkr/prover_bc_clogc.cpp
@@ -152,8 +152,10 @@ void prover::init_array(int max_bit_length, int blk_bit_length)
 	beta_g_r1_shalf = new prime_field::field_element[(1 << half_length)];
 	beta_u_fhalf = new prime_field::field_element[(1 << half_length)];
 	beta_u_shalf = new prime_field::field_element[(1 << half_length)];
-	block_beta_value = new prime_field::field_element[(1 << blk_bit_length)];
-	block_v_value = new prime_field::field_element[1 << (blk_bit_length + max_bit_length)];
+	//the tables are combined in pairs of copies, even if there is a single copy
+	int blk_pair_length = blk_bit_length > 0 ? blk_bit_length : 1;
+	block_beta_value = new prime_field::field_element[(1 << blk_pair_length)];
+	block_v_value = new prime_field::field_element[1 << (blk_pair_length + max_bit_length)];
 }
 
 void prover::delete_self()
-- 
2.43.0


From b8ea01e2239e6f7d66fbf3ac9036c7a08817ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 13/18] fix: parallel prover workers read beta_g_sum and beta_u
 while other workers still write them

---
 src/linear_gkr/prover_fast_para_track.cpp | 49 ++++++++++++++++-------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 8ca6cba..c0f77f2 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -182,10 +182,27 @@ prover::~prover()
 {
 }
 
+//the shared table beta_g_sum must be complete before phase1_init_func runs
+void phase1_beta_func(prover* p, int id)
+{
+	int first_half = p -> length_g >> 1;
+	int mask_fhalf = (1 << first_half) - 1;
+	int bs = (1 << p -> length_g) / NUM_THREADS;
+	if(bs == 0)
+		bs = 1;
+	int st = bs * id, ed = bs * (id + 1);
+	if(ed > (1 << p -> length_g))
+		ed = (1 << p -> length_g);
+	for(int i = st; i < ed; ++i)
+	{
+		p -> beta_g_sum[i].value = (p -> beta_g_r0_fhalf[i & mask_fhalf].value * p -> beta_g_r0_shalf[i >> first_half].value 
+							 + p -> beta_g_r1_fhalf[i & mask_fhalf].value * p -> beta_g_r1_shalf[i >> first_half].value) % prime_field::mod;
+	}
+}
+
 void phase1_init_func(prover* p, int id)
 {
 	int total_uv = (1 << (p -> C.circuit[p -> sumcheck_layer_id - 1].bit_length));
-	int first_half = p -> length_g >> 1, second_half = p -> length_g - first_half;
 	prime_field::field_element zero = prime_field::field_element(0);
 	int layer_id = p -> sumcheck_layer_id;
 	
@@ -206,19 +223,6 @@ void phase1_init_func(prover* p, int id)
 	}
 	
 
-	int mask_fhalf = (1 << first_half) - 1;
-	bs = (1 << p -> length_g) / NUM_THREADS;
-	if(bs == 0)
-		bs = 1;
-	st = bs * id, ed = bs * (id + 1);
-	if(ed > (1 << p -> length_g))
-		ed = (1 << p -> length_g);
-	for(int i = st; i < ed; ++i)
-	{
-		p -> beta_g_sum[i].value = (p -> beta_g_r0_fhalf[i & mask_fhalf].value * p -> beta_g_r0_shalf[i >> first_half].value 
-							 + p -> beta_g_r1_fhalf[i & mask_fhalf].value * p -> beta_g_r1_shalf[i >> first_half].value) % prime_field::mod;
-	}
-	
 	/*
 
 	for(int i = st; i < ed; ++i)
@@ -306,6 +310,11 @@ void prover::sumcheck_phase1_init()
 
 	std::thread threads[NUM_THREADS];
 
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i] = std::thread(phase1_beta_func, this, i);
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i].join();
+
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i] = std::thread(phase1_init_func, this, i);
 	for(int i = 0; i < NUM_THREADS; ++i)
@@ -411,7 +420,8 @@ quadratic_poly prover::sumcheck_phase1_update(prime_field::field_element previou
 	return ret;
 }
 
-void phase2_init_func(prover* p, int id)
+//the shared table beta_u must be complete before phase2_init_func runs
+void phase2_beta_func(prover* p, int id)
 {
 	int first_half = p -> length_u >> 1, second_half = p -> length_u - first_half;
 	int mask_fhalf = (1 << first_half) - 1;
@@ -430,7 +440,11 @@ void phase2_init_func(prover* p, int id)
 	{
 		p -> beta_u[i].value = p -> beta_u_fhalf[i & mask_fhalf].value * p -> beta_u_shalf[i >> first_half].value % prime_field::mod;
 	}
+}
 
+void phase2_init_func(prover* p, int id)
+{
+	int bs, st, ed;
 	
 	int total_uv = (1 << p -> C.circuit[p -> sumcheck_layer_id - 1].bit_length);
 	int total_g = (1 << p -> C.circuit[p -> sumcheck_layer_id].bit_length);
@@ -589,6 +603,11 @@ void prover::sumcheck_phase2_init(prime_field::field_element previous_random, co
 	
 	total_uv = (1 << C.circuit[sumcheck_layer_id - 1].bit_length);
 	std::thread threads[NUM_THREADS];
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i] = std::thread(phase2_beta_func, this, i);
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i].join();
+
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i] = std::thread(phase2_init_func, this, i);
 	
-- 
2.43.0


From f469a8f875b097ce28ba5442c5d5f98a74cf4ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 14/18] fix: parallel prover phase 2 subtraction can go below
 zero

---
 src/linear_gkr/prover_fast_para_track.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index c0f77f2..38542bb 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -648,13 +648,13 @@ void phase2_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 		{
 			
 			p -> nV_mult_add[i].b.value = (p -> V_mult_add[g_zero].a.value * previous_random.value + p -> V_mult_add[g_zero].b.value) % prime_field::mod;
-			p -> nV_mult_add[i].a.value = (p -> V_mult_add[g_one].a.value * previous_random.value + p -> V_mult_add[g_one].b.value - p -> nV_mult_add[i].b.value) % prime_field::mod;
+			p -> nV_mult_add[i].a.value = (p -> V_mult_add[g_one].a.value * previous_random.value + p -> V_mult_add[g_one].b.value - p -> nV_mult_add[i].b.value + prime_field::mod) % prime_field::mod;
 
 			p -> naddV_array[i].b.value = (p -> addV_array[g_zero].a.value * previous_random.value + p -> addV_array[g_zero].b.value) % prime_field::mod;
-			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value) % prime_field::mod;
+			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value + prime_field::mod) % prime_field::mod;
 
 			p -> nadd_mult_sum[i].b.value = (p -> add_mult_sum[g_zero].a.value * previous_random.value + p -> add_mult_sum[g_zero].b.value) % prime_field::mod;
-			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value) % prime_field::mod;
+			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 		}
 
 		if(i % 8 == 0 || i + 1 == (total_uv >> 1))
-- 
2.43.0


From 12dc98a712019be4c331466459092b4337e7d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 15/18] fix: parallel prover accumulates more products than the
 reduction can take

---
 src/linear_gkr/prover_fast_para_track.cpp | 68 +++++------------------
 1 file changed, 15 insertions(+), 53 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 38542bb..3740c56 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -369,22 +369,11 @@ void phase1_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 
 		}
-		if(i % 4 == 0 || i + 1 == (total_uv >> 1))
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value) % prime_field::mod;
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value) % prime_field::mod;
-		}
-		else
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value);
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value);
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value);
-		}
+		p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
+		p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
+								  + p -> naddV_array[i].a.value) % prime_field::mod;
+		p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
+								  + p -> naddV_array[i].b.value) % prime_field::mod;
 	}
 
 	p -> rets[id].a.value = p -> rets[id].a.value % prime_field::mod;
@@ -534,31 +523,16 @@ void phase2_init_func(prover* p, int id)
 				if(ty == 1) //mult gate
 				{
 					p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value + (p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod * p -> v_u.value) % prime_field::mod;
-					p -> add_mult_sum_counter[v]++;
-					if(p -> add_mult_sum_counter[v] > 30)
-					{
-						p -> add_mult_sum_counter[v] = 0;
-						p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
-					}
+					p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
 				}
 				if(ty == 0) //add gate
 				{
 					p -> add_mult_sum[v].b.value = (p -> add_mult_sum[v].b.value + p -> beta_g_sum[g].value * p -> beta_u[u].value);
 					p -> addV_array[v].b.value = ((p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod) * p -> v_u.value + p -> addV_array[v].b.value);
 
-					p -> add_mult_sum_counter[v]++;
-					if(p -> add_mult_sum_counter[v] > 30)
-					{
-						p -> add_mult_sum_counter[v] = 0;
-						p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
-					}
-
-					p -> addV_array_counter[v]++;
-					if(p -> addV_array_counter[v] > 30)
-					{
-						p -> addV_array_counter[v] = 0;
-						p -> addV_array[v].b.value = p -> addV_array[v].b.value % prime_field::mod;
-					}
+					p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
+
+					p -> addV_array[v].b.value = p -> addV_array[v].b.value % prime_field::mod;
 				}
 			}
 		}
@@ -657,24 +631,12 @@ void phase2_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 		}
 
-		if(i % 8 == 0 || i + 1 == (total_uv >> 1))
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
-									  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value) % prime_field::mod;
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value) % prime_field::mod;
-		}
-		else
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value);
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
-									  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value);
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value);
-		}
+		p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
+		p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
+								  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
+								  + p -> naddV_array[i].a.value) % prime_field::mod;
+		p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
+								  + p -> naddV_array[i].b.value) % prime_field::mod;
 	}
 
 
-- 
2.43.0


From 2b6b64ea0638d6399796357f3b2d0b84a813c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 16/18] fix: parallel verifier lets the prover compute the
 output claim

---
 src/linear_gkr/verifier_fast_para_track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_gkr/verifier_fast_para_track.cpp b/src/linear_gkr/verifier_fast_para_track.cpp
index f43624d..1a01a11 100644
--- a/src/linear_gkr/verifier_fast_para_track.cpp
+++ b/src/linear_gkr/verifier_fast_para_track.cpp
@@ -226,7 +226,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
-- 
2.43.0


From 03cd621c24be35d9d2ba783426c5e4e9f685f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 17/18] fix: parallel track aborts on a dummy input gate

---
 src/linear_gkr/prover_fast_para_track.cpp   | 4 ++--
 src/linear_gkr/verifier_fast_para_track.cpp | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 3740c56..d149ceb 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -70,8 +70,8 @@ prime_field::field_element* prover::evaluate()
 		u = C.circuit[0].gates[g].u;
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
-		assert(ty == 3);
-		circuit_value[0][g] = prime_field::field_element(u);
+		assert(ty == 3 || ty == 2);
+		circuit_value[0][g] = prime_field::field_element(ty == 2 ? 0 : u);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
diff --git a/src/linear_gkr/verifier_fast_para_track.cpp b/src/linear_gkr/verifier_fast_para_track.cpp
index 1a01a11..f6e9526 100644
--- a/src/linear_gkr/verifier_fast_para_track.cpp
+++ b/src/linear_gkr/verifier_fast_para_track.cpp
@@ -355,6 +355,10 @@ bool verifier::verify()
 		{
 			input[g] = prime_field::field_element(C.circuit[0].gates[g].u);
 		}
+		else if(C.circuit[0].gates[g].ty == 2)
+		{
+			input[g] = prime_field::field_element(0);
+		}
 		else
 			assert(false);
 	}
-- 
2.43.0


From 27a5393ce2cdd89ab3e65ca4f536e7a22cfcf48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 18/18] fix: gen mode 5 announces the two layers it writes

---
 bin/gen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/gen.cpp b/bin/gen.cpp
index 36ec9ae..fa5aeb1 100644
--- a/bin/gen.cpp
+++ b/bin/gen.cpp
@@ -263,7 +263,7 @@ int main(int argc, char **argv)
 		int d, w;
 		sscanf(argv[2], "%d", &d);
 		sscanf(argv[3], "%d", &w);
-		printf("%d\n", d);
+		printf("%d\n", 2); //the input layer and the summation layer
 		int n = (1 << w);
 		printf("%d ", n);
 		for(int j = 0; j < n; ++j)
-- 
2.43.0

