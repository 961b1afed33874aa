From b77ae066e36764e7136cc8e6e4fe3f2244055b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:55 +0000
Subject: [PATCH 1/6] fix: keep the self test mark of a collector in a word of
 its own

The mark is written by jent_selftest(), which is documented to be callable
from any thread in parallel with the entropy collection. As a bitfield it
shares its storage unit with apt_base_set, in_recovery and others that the
collecting thread rewrites all the time, so a concurrent read-modify-write
of a neighbor may lose the mark and a permanently disabled instance keeps
delivering output. The comment above the member already demands a full word.
---
 src/jitterentropy-internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitterentropy-internal.h b/src/jitterentropy-internal.h
index e962148..30a5bcc 100644
--- a/src/jitterentropy-internal.h
+++ b/src/jitterentropy-internal.h
@@ -568,7 +568,7 @@ struct rand_data
 	 * mode. A full word rather than a bitfield: the self test may run on
 	 * another thread, and setting a bitfield would rewrite its neighbors.
 	 */
-	unsigned int selftest_failed:1;
+	unsigned int selftest_failed;
 
 #ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
 	volatile uint8_t notime_interrupt;	/* indicator to interrupt ctr */
-- 
2.43.0


From 24965642dd0d7efa2442d5c3c6dfd7c5fc9a1a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:55 +0000
Subject: [PATCH 2/6] fix: carry the self test mark over to the reallocated
 collector

A bound jent_selftest() failure puts an instance permanently out of service.
jent_health_failure_reset() replaced the collector without the mark, so an
intermittent health failure that coincides with the self test failure (e.g.
the self test run from the FIPS failure callback or from another thread)
brought the disabled instance back into service in jent_read_entropy_safe().
---
 src/jitterentropy-base.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 142a82b..a8f088b 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -447,6 +447,9 @@ static int jent_health_failure_reset(
 	new_ec->read_invocations = (*ec)->read_invocations;
 	new_ec->bytes_output = (*ec)->bytes_output;
 
+	/* A failed bound self test disables the instance for good. */
+	new_ec->selftest_failed = (*ec)->selftest_failed;
+
 	jent_entropy_collector_free(*ec);
 	*ec = new_ec;
 
-- 
2.43.0


From f818de25a9bd3e39c75899b2eb769836b76b3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:55 +0000
Subject: [PATCH 3/6] fix: unmark the self tests when one of the pre tests
 failed

A failing known answer test or GCD self test returned without passing
through jent_entropy_init_common_post(). The GCD self test even marked the
self tests as run beforehand, so an initialization which had just failed
allowed the following allocation to skip all startup tests.
---
 src/jitterentropy-base.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index a8f088b..2f25545 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -1205,7 +1205,7 @@ int jent_entropy_init(void)
 	int ret = jent_entropy_init_common_pre(0);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	ret = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
 
@@ -1233,7 +1233,7 @@ int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
 	ret = jent_entropy_init_common_pre(flags);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	/*
 	 * NTG.1 forbids the internal timer, and the collector allocation
-- 
2.43.0


From 10a49906a07681baff631539fc826889c4ba4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:07 +0000
Subject: [PATCH 4/6] fix: mark the startup self tests as run only after they
 passed

The mark was set before the timer tests started, merely to keep the test
instance they allocate from recursing into the initialization. Whoever
allocates in the meantime - another thread, or the FIPS failure callback
invoked by the failing test - found the mark set and got a collector without
any timer test having passed. Let the allocation of the test instance say
that it precedes the verdict instead, and mark the tests only on success.
---
 src/jitterentropy-base.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 2f25545..ab64098 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -627,8 +627,13 @@ unsigned int jent_hashloop_cnt(unsigned int flags)
  */
 static int jent_selftest_run = 0;
 
+/*
+ * The startup self tests themselves need a collector to measure the timer with.
+ * It is the only one allocated with selftest == 0, i.e. before their verdict.
+ */
 static struct rand_data
-*jent_entropy_collector_alloc_internal(unsigned int osr, unsigned int flags)
+*jent_entropy_collector_alloc_common(unsigned int osr, unsigned int flags,
+				     int selftest)
 {
 	struct rand_data *entropy_collector;
 	uint32_t memsize = 0;
@@ -661,7 +666,7 @@ static struct rand_data
 		return NULL;
 
 	/* Force the self test to be run */
-	if (!jent_atomic_load_int(&jent_selftest_run) &&
+	if (selftest && !jent_atomic_load_int(&jent_selftest_run) &&
 	    jent_entropy_init_ex(osr, flags))
 		return NULL;
 
@@ -782,6 +787,12 @@ err:
 	return NULL;
 }
 
+static struct rand_data
+*jent_entropy_collector_alloc_internal(unsigned int osr, unsigned int flags)
+{
+	return jent_entropy_collector_alloc_common(osr, flags, 1);
+}
+
 static struct rand_data *_jent_entropy_collector_alloc(unsigned int osr,
 						       unsigned int flags)
 {
@@ -984,7 +995,7 @@ int jent_time_entropy_init(unsigned int osr, unsigned int flags)
 	 * are really bad.
 	 */
 	flags |= JENT_FORCE_FIPS;
-	ec = jent_entropy_collector_alloc_internal(osr, flags);
+	ec = jent_entropy_collector_alloc_common(osr, flags, 0);
 	if (!ec) {
 		ret = EMEM;
 		goto out;
@@ -1166,18 +1177,17 @@ static inline int jent_entropy_init_common_pre(unsigned int flags)
 	if (ret)
 		return ret;
 
-	ret = jent_gcd_selftest(flags);
-
-	jent_atomic_store_int(&jent_selftest_run, 1);
-
-	return ret;
+	return jent_gcd_selftest(flags);
 }
 
 static inline int jent_entropy_init_common_post(int ret)
 {
-	/* Unmark the execution of the self tests if they failed. */
-	if (ret)
-		jent_atomic_store_int(&jent_selftest_run, 0);
+	/*
+	 * Mark the execution of the self tests, or unmark it if they failed.
+	 * Not before all of them completed: an allocation that finds the mark
+	 * set skips them.
+	 */
+	jent_atomic_store_int(&jent_selftest_run, !ret);
 
 	return ret;
 }
-- 
2.43.0


From 50a4cfb662fbdee097bb0011355bd6be60112d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:10 +0000
Subject: [PATCH 5/6] fix: collect noise for a collector replaced during its
 startup

The startup loop left the decision to rerun after a replacement to the
startup state of the new collector. It is completed from the beginning
when the system-wide FIPS indicator cannot be read any more, and the
collector was then handed out without having collected any noise.
---
 src/jitterentropy-base.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index ab64098..c584c88 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -842,7 +842,7 @@ static struct rand_data *_jent_entropy_collector_alloc(unsigned int osr,
 	 * invocation of 2 noise sources each delivering 240 bits of entropy
 	 * at least at this point.
 	 */
-	do {
+	for (;;) {
 		jent_random_data(ec);
 
 		/*
@@ -880,7 +880,10 @@ static struct rand_data *_jent_entropy_collector_alloc(unsigned int osr,
 			/* Rerun startup sequence */
 			continue;
 		}
-	} while (ec->startup_state != jent_startup_completed);
+
+		if (ec->startup_state == jent_startup_completed)
+			break;
+	}
 
 	jent_notime_unsettick(ec);
 
-- 
2.43.0


From 1e83629984aaf23f27345a676d00f00503e07292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:10 +0000
Subject: [PATCH 6/6] fix: keep enforcing the health tests on a replaced
 collector

The allocation of the replacement consults the system-wide FIPS indicator
again. If it cannot be read at that time, e.g. without a free file
descriptor, the replacement went on without the health tests, and the
failure that caused the replacement was the last one ever reported.
---
 src/jitterentropy-base.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index c584c88..41b315a 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -447,6 +447,13 @@ static int jent_health_failure_reset(
 	new_ec->read_invocations = (*ec)->read_invocations;
 	new_ec->bytes_output = (*ec)->bytes_output;
 
+	/*
+	 * Keep enforcing the health tests even if the system-wide FIPS
+	 * indicator the allocation consults cannot be read any more.
+	 */
+	if ((*ec)->is_fips_enabled)
+		new_ec->is_fips_enabled = 1;
+
 	/* A failed bound self test disables the instance for good. */
 	new_ec->selftest_failed = (*ec)->selftest_failed;
 
-- 
2.43.0

