From dd4eef15c27b5d2f2fe5049e458b2d949eb967b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 01/19] fix: restart the sentence terminator sequence at every
 ATerm and STerm

An ATerm or STerm that follows Close or Sp within a terminator sequence
(e.g. 'Hello.). World') started no new sequence, so SB8 to SB11 were not
applied behind it and the sentence boundary was lost.
---
 src/sentence.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sentence.c b/src/sentence.c
index 291c7f4..c6161d8 100644
--- a/src/sentence.c
+++ b/src/sentence.c
@@ -67,10 +67,8 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 	 *     left of the middle spot.
 	 *
 	 */
-	if ((state->aterm_close_sp_level == 0 ||
-	     state->aterm_close_sp_level == 1) &&
-	    prop == SENTENCE_BREAK_PROP_ATERM) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (anew) */
 		state->aterm_close_sp_level = 1;
 	} else if ((state->aterm_close_sp_level == 1 ||
 	            state->aterm_close_sp_level == 2) &&
@@ -88,11 +86,9 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 		state->aterm_close_sp_level = 0;
 	}
 
-	if ((state->saterm_close_sp_parasep_level == 0 ||
-	     state->saterm_close_sp_parasep_level == 1) &&
-	    (prop == SENTENCE_BREAK_PROP_STERM ||
-	     prop == SENTENCE_BREAK_PROP_ATERM)) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_STERM ||
+	    prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (anew) */
 		state->saterm_close_sp_parasep_level = 1;
 	} else if ((state->saterm_close_sp_parasep_level == 1 ||
 	            state->saterm_close_sp_parasep_level == 2) &&
-- 
2.43.0


From ae85eb3d4491700a5cf1359ccef02ee3586583f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 02/19] fix: let a new numeric sequence begin right behind a
 closed one

A NU directly behind 'NU (NU|SY|IS)* (CL|CP)' (e.g. '(1)2%') started no
new sequence, so the tailored LB25 was not applied to what follows it.
---
 src/line.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/line.c b/src/line.c
index 5355143..a6ec239 100644
--- a/src/line.c
+++ b/src/line.c
@@ -113,9 +113,10 @@ next_line_break(HERODOTUS_READER *r)
 			 *     and one (CL | CP) to the left of the middle
 			 *     spot
 			 */
-			if ((lb25_level == 0 || lb25_level == 1) &&
+			if ((lb25_level == 0 || lb25_level == 1 ||
+			     lb25_level == 3) &&
 			    cp0_prop == LINE_BREAK_PROP_NU) {
-				/* sequence has begun */
+				/* sequence has begun (anew) */
 				lb25_level = 1;
 			} else if ((lb25_level == 1 || lb25_level == 2) &&
 			           (cp0_prop == LINE_BREAK_PROP_NU ||
-- 
2.43.0


From 3a3e44a944a8faf6f9f674e14b29862f9c8d32ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 03/19] fix: apply LB23a to unassigned extended pictographics

They have the line breaking class ID and only get a class of their own
for the sake of LB30b.
---
 src/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/line.c b/src/line.c
index a6ec239..fc66211 100644
--- a/src/line.c
+++ b/src/line.c
@@ -333,11 +333,14 @@ next_line_break(HERODOTUS_READER *r)
 		/* LB23a */
 		if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_PR &&
 		    (cp1_prop == LINE_BREAK_PROP_ID ||
+		     cp1_prop == LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     cp1_prop == LINE_BREAK_PROP_EB ||
 		     cp1_prop == LINE_BREAK_PROP_EM)) {
 			continue;
 		}
 		if ((last_non_cm_or_zwj_prop == LINE_BREAK_PROP_ID ||
+		     last_non_cm_or_zwj_prop ==
+		             LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EB ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EM) &&
 		    cp1_prop == LINE_BREAK_PROP_PO) {
-- 
2.43.0


From 6254ba53ce0c17cf71ba136a7a9f9c8ceca13419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 04/19] fix: skip CM and ZWJ behind OP and HY in the LB25
 lookahead

The tailored rule (PR | PO) x (OP | HY) NU comes behind LB9, so combining
marks between the OP or HY and the NU must not have an influence.
---
 src/line.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/line.c b/src/line.c
index fc66211..43c393c 100644
--- a/src/line.c
+++ b/src/line.c
@@ -23,7 +23,7 @@ next_line_break(HERODOTUS_READER *r)
 {
 	HERODOTUS_READER tmp;
 	enum line_break_property cp0_prop, cp1_prop, last_non_cm_or_zwj_prop,
-		last_non_sp_prop, last_non_sp_cm_or_zwj_prop;
+		last_non_sp_prop, last_non_sp_cm_or_zwj_prop, tmp_prop;
 	uint_least32_t cp;
 	uint_least8_t lb25_level = 0;
 	bool lb21a_flag = false, ri_even = true;
@@ -375,12 +375,21 @@ next_line_break(HERODOTUS_READER *r)
 			 */
 			herodotus_reader_copy(r, &tmp);
 			herodotus_read_codepoint(&tmp, true, &cp);
-			if (herodotus_read_codepoint(&tmp, true, &cp) ==
-			            HERODOTUS_STATUS_SUCCESS &&
-			    (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_HY)) {
-				if (get_break_prop(cp) == LINE_BREAK_PROP_NU) {
+			if (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_HY) {
+				/* skip CM and ZWJ according to LB9 */
+				tmp_prop = LINE_BREAK_PROP_AL;
+				while (herodotus_read_codepoint(&tmp, true,
+				                                &cp) ==
+				       HERODOTUS_STATUS_SUCCESS) {
+					tmp_prop = get_break_prop(cp);
+					if (tmp_prop != LINE_BREAK_PROP_CM &&
+					    tmp_prop != LINE_BREAK_PROP_ZWJ) {
+						break;
+					}
+				}
+				if (tmp_prop == LINE_BREAK_PROP_NU) {
 					continue;
 				}
 			}
-- 
2.43.0


From ebd743ac5c89a6a705c816d8b0854eb0f49a0117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 05/19] fix: treat a CM or ZWJ behind OP SP+ as AL

LB9 does not attach a CM or ZWJ to a SP, so LB10 makes it an AL. Given
LB14 forbids a break in front of it, it is seen on the left side of the
following breakpoints, where LB14 was mistakenly applied once more.
---
 src/line.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/line.c b/src/line.c
index 43c393c..0be64fc 100644
--- a/src/line.c
+++ b/src/line.c
@@ -139,6 +139,13 @@ next_line_break(HERODOTUS_READER *r)
 			}
 
 			last_non_cm_or_zwj_prop = cp0_prop;
+		} else if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_SP) {
+			/*
+			 * LB9 does not apply behind a SP (which may be found
+			 * on the left side within LB14), so this CM or ZWJ is
+			 * an AL according to LB10
+			 */
+			last_non_cm_or_zwj_prop = LINE_BREAK_PROP_AL;
 		}
 
 		/*
-- 
2.43.0


From 18855cae4e064f1819cc847d6a5c89ab06baa4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 06/19] fix: keep the line breaking class of explicitly listed
 unassigned codepoints

LineBreak.txt lists unassigned codepoints as ID and PR, but the generator
matched 'Cn' in the comment of these lines before it looked at the class
and then mapped all of them but the extended pictographics to AL.
---
 gen/line.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/gen/line.c b/gen/line.c
index 2e08acc..2d89372 100644
--- a/gen/line.c
+++ b/gen/line.c
@@ -28,13 +28,8 @@ static const struct property_spec line_break_property[] = {
 	 * TMP_EXTENDED_PICTOGRAPHIC and TMP_CN, because we don't need
 	 * them, and in the final postprocessing we "reset" all
 	 * remaining matches (that then didn't fit any of the other
-	 * classes) to the generic class AL.
+	 * classes) to the class ID and the generic class AL respectively.
 	 */
-	{
-		.enumname = "TMP_CN",
-		.file = FILE_LINE,
-		.ucdname = "Cn",
-	},
 	{
 		.enumname = "TMP_EXTENDED_PICTOGRAPHIC",
 		.file = FILE_EMOJI,
@@ -136,11 +131,6 @@ static const struct property_spec line_break_property[] = {
 		.file = FILE_LINE,
 		.ucdname = "HY",
 	},
-	{
-		.enumname = "ID",
-		.file = FILE_LINE,
-		.ucdname = "ID",
-	},
 	{
 		.enumname = "IN",
 		.file = FILE_LINE,
@@ -241,6 +231,20 @@ static const struct property_spec line_break_property[] = {
 		.file = FILE_LINE,
 		.ucdname = "ZWJ",
 	},
+	/*
+	 * given the first match counts, TMP_CN only matches those unassigned
+	 * codepoints that are listed as ID
+	 */
+	{
+		.enumname = "TMP_CN",
+		.file = FILE_LINE,
+		.ucdname = "Cn",
+	},
+	{
+		.enumname = "ID",
+		.file = FILE_LINE,
+		.ucdname = "ID",
+	},
 	{
 		.enumname = "TMP_AI",
 		.file = FILE_LINE,
@@ -445,9 +449,12 @@ post_process(struct properties *prop)
 		                   "TMP_CJ")) {
 			/* map CJ to NS */
 			target = "NS";
+		} else if (!strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_CN")) {
+			/* unassigned IDs that are no extended pictographics */
+			target = "ID";
 		} else if (
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_CN") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_EXTENDED_PICTOGRAPHIC") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
-- 
2.43.0


From d0610144dc5dc1f43a01137eca253a722c86bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 07/19] fix: resolve SA with General_Category Mn or Mc to CM

LB1 maps the combining marks of the class SA to CM, but they ended up as
TMP_MN and TMP_MC (the first match counts), which were mapped to AL.
---
 gen/line.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/gen/line.c b/gen/line.c
index 2d89372..72ca69c 100644
--- a/gen/line.c
+++ b/gen/line.c
@@ -436,8 +436,19 @@ post_process(struct properties *prop)
 			target = "AL";
 		} else if (!strcmp(line_break_property[prop[i].property]
 		                           .enumname,
-		                   "TMP_SA_WITH_MN_OR_MC")) {
-			/* map SA (with General_Category Mn or Mc) to CM */
+		                   "TMP_SA_WITH_MN_OR_MC") ||
+		           !strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_MN") ||
+		           !strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_MC")) {
+			/*
+			 * map SA (with General_Category Mn or Mc) to CM,
+			 * given TMP_MN and TMP_MC only match those Mn and Mc
+			 * whose class is SA, as it is the first match that
+			 * counts and all other classes with marks come first
+			 */
 			target = "CM";
 		} else if (!strcmp(line_break_property[prop[i].property]
 		                           .enumname,
@@ -457,10 +468,6 @@ post_process(struct properties *prop)
 		} else if (
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_EXTENDED_PICTOGRAPHIC") ||
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_MN") ||
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_MC") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_EAW_H") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
-- 
2.43.0


From 94bb4e3dbb8442e315bc54c737e63c5d17856a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 08/19] fix: do not break between two regional indicators
 without a state

grapheme_is_character_break() with a NULL state is documented to behave
as with a fully reset state, but reported a break between the first two
regional indicators.
---
 src/character.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/character.c b/src/character.c
index aedcf9e..d3525ab 100644
--- a/src/character.c
+++ b/src/character.c
@@ -200,12 +200,14 @@ grapheme_is_character_break(uint_least32_t cp0, uint_least32_t cp1,
 		 * http://unicode.org/reports/tr29/#Grapheme_Cluster_Boundary_Rules
 		 *
 		 * Given we have no state, this behaves as if the state-booleans
-		 * were all set to false
+		 * were all set to false before they are updated with cp0 (which
+		 * only makes a difference for a first regional indicator)
 		 */
 		notbreak = (dont_break[cp0_prop] & (UINT16_C(1) << cp1_prop)) ||
 		           (dont_break_gb11[cp0_prop] &
 		            (UINT16_C(1) << cp1_prop)) ||
-		           (dont_break_gb12_13[cp0_prop] &
+		           (dont_break_gb12_13[cp0_prop +
+		                               NUM_CHAR_BREAK_PROPS] &
 		            (UINT16_C(1) << cp1_prop));
 	}
 
-- 
2.43.0


From 55c61fae2d39db8a0dd161f8f8e0b0620d3d0e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 09/19] fix: see a cased case-ignorable behind a sigma as cased

The Final_Sigma after-condition asks for a cased character behind zero or
more case-ignorable ones; a character that is both is such a character.
---
 src/case.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/case.c b/src/case.c
index 6fac8ec..3ed5207 100644
--- a/src/case.c
+++ b/src/case.c
@@ -79,8 +79,7 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 				     HERODOTUS_STATUS_SUCCESS;) {
 					prop = get_case_property(tmp_cp);
 
-					if (prop != CASE_PROP_CASE_IGNORABLE &&
-					    prop != CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
+					if (prop != CASE_PROP_CASE_IGNORABLE) {
 						break;
 					}
 				}
-- 
2.43.0


From a2fc391c6b06491add126fb02eaef8d9b7661187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 10/19] fix: let a cased character restart the Final_Sigma
 sequence

A cased character behind case-ignorable ones fulfils the before-condition
just like one at the beginning.
---
 src/case.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/case.c b/src/case.c
index 3ed5207..e09e732 100644
--- a/src/case.c
+++ b/src/case.c
@@ -109,10 +109,8 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 
 			/* update state */
 			prop = get_case_property(cp);
-			if ((final_sigma_level == 0 ||
-			     final_sigma_level == 1) &&
-			    (prop == CASE_PROP_CASED ||
-			     prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
+			if (prop == CASE_PROP_CASED ||
+			    prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
 				/* sequence has begun */
 				final_sigma_level = 1;
 			} else if (
-- 
2.43.0


From 1304fcfe19153d38786c5c487408855fca514d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 11/19] fix: stay within a state buffer that is shorter than
 the paragraph

The paragraph's properties are only stored as far as the buffer reaches,
but all of the paragraph was processed in it afterwards.
---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 4e81df1..49bb809 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1437,7 +1437,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			          &(buf[bufoff]));
 		}
 	}
-	bufsize = herodotus_reader_number_read(r);
+	bufsize = MIN(herodotus_reader_number_read(r), buflen);
 
 	for (bufoff = 0; bufoff < bufsize; bufoff++) {
 		if (get_state(STATE_PROP, buf[bufoff]) != BIDI_PROP_B &&
-- 
2.43.0


From 6ad45d3b9ff34cb328165626674a9bddcb2b49cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 12/19] fix: stay within the given level buffer

Neither write the level behind the last one nor reset the levels of a
trailing run that was not stored.
---
 src/bidirectional.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 49bb809..7b6bede 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1496,7 +1496,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 
 		/* write level into level array if we still have space */
 		if (level != -1 || skipignored == false) {
-			if (levlen <= levsize) {
+			if (levlen < levsize) {
 				set_level(lev, levlen, level);
 			}
 			levlen++;
@@ -1527,7 +1527,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 		 * we hit the end of the line but were in a run;
 		 * reset the line levels to the paragraph level
 		 */
-		for (i = runsince; i < MIN(linelen, levlen); i++) {
+		for (i = runsince; i < MIN(levsize, levlen); i++) {
 			if (get_level(lev, i) != -1) {
 				set_level(lev, i, runlevel);
 			}
-- 
2.43.0


From 85bb7352fdb3175ea2b9970193a6a2ffebd344ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 13/19] fix: determine the paragraph level from the first
 paragraph only

Strong characters behind the paragraph separator belong to another
paragraph.
---
 src/bidirectional.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 7b6bede..7cfd546 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -974,6 +974,11 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 	                        HERODOTUS_STATUS_SUCCESS;) {
 		prop = get_bidi_property(cp);
 
+		/* P1 */
+		if (prop == BIDI_PROP_B) {
+			break;
+		}
+
 		/* BD8/BD9 */
 		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
 		     prop == BIDI_PROP_FSI) &&
-- 
2.43.0


From 775020015e9d2412f461af747cf8ef4adf7ceefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 14/19] fix: count all isolates when looking for the first
 strong character

BD8/BD9 and P2 know no depth limit; with more than 125 nested isolates a
PDI was matched with the wrong initiator.
---
 src/bidirectional.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 7cfd546..a69c5e3 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -898,8 +898,7 @@ static uint_least8_t
 get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 {
 	enum bidi_property prop;
-	int_least8_t isolate_level;
-	size_t stateoff;
+	size_t stateoff, isolate_level;
 
 	/* determine paragraph level (rules P1-P3) and terminate on PDI */
 	for (stateoff = 0, isolate_level = 0; stateoff < statelen; stateoff++) {
@@ -914,9 +913,8 @@ get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
@@ -956,7 +954,7 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 {
 	HERODOTUS_READER tmp;
 	enum bidi_property prop;
-	int_least8_t isolate_level;
+	size_t isolate_level;
 	uint_least32_t cp;
 
 	/* check overrides first according to rule HL1 */
@@ -980,9 +978,8 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
-- 
2.43.0


From ca6958360ed758ec280fc3ba6ee6b70e0bdb9bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 15/19] fix: follow BD13 when advancing in an isolating run
 sequence

Isolate initiators and PDIs were recognised by their current property,
which rules X5a-X6a may have overridden, their nesting was only counted up
to 125 levels, and an isolate that overflowed the maximum depth was skipped
even though it remains in the level run.
---
 src/bidirectional.c | 77 ++++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 46 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index a69c5e3..986bc79 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -225,7 +225,8 @@ static int
 ir_advance(struct isolate_runner *ir)
 {
 	enum bidi_property prop;
-	int_least8_t level, isolate_level, last_isolate_level;
+	int_least8_t level;
+	bool initiator, skipped;
 	size_t i;
 
 	if (ir->next.off == SIZE_MAX) {
@@ -244,45 +245,28 @@ ir_advance(struct isolate_runner *ir)
 	 */
 	ir->next.off = SIZE_MAX;
 
-	last_isolate_level = -1;
-	for (i = ir->cur.off, isolate_level = 0; i < ir->buflen; i++) {
+	/*
+	 * the explicit levels and the preserved properties are final when we
+	 * get here, so follow BD13: The sequence continues with the next
+	 * character of the same level, unless the current character is an
+	 * isolate initiator whose content has been given a higher level. In
+	 * that case it continues with the matching PDI, if there is one.
+	 */
+	prop = ir_get_current_preserved_prop(ir);
+	initiator = (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+	             prop == BIDI_PROP_FSI);
+
+	for (i = ir->cur.off + 1, skipped = false; i < ir->buflen; i++) {
 		level = (int_least8_t)get_state(STATE_LEVEL, ir->buf[i]);
-		prop = (uint_least8_t)get_state(STATE_PROP, ir->buf[i]);
+		prop = (uint_least8_t)get_state(STATE_PRESERVED_PROP,
+		                                ir->buf[i]);
 
 		if (level == -1) {
 			/* this is one of the ignored characters, skip */
 			continue;
-		} else if (level == ir->isolating_run_level) {
-			last_isolate_level = level;
-		}
-
-		/* follow BD8/BD9 and P2 to traverse the current sequence */
-		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		    prop == BIDI_PROP_FSI) {
-			/*
-			 * we encountered an isolate initiator, increment
-			 * counter, but go into processing when we
-			 * were not isolated before
-			 */
-			if (isolate_level < MAX_DEPTH) {
-				isolate_level++;
-			}
-			if (isolate_level != 1) {
-				continue;
-			}
-		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
-			isolate_level--;
-
-			/*
-			 * if the current PDI dropped the isolate-level
-			 * to zero, it is itself part of the isolating
-			 * run sequence; otherwise we simply continue.
-			 */
-			if (isolate_level > 0) {
-				continue;
-			}
-		} else if (isolate_level > 0) {
-			/* we are in an isolating sequence */
+		} else if (initiator && level > ir->isolating_run_level) {
+			/* we are within the isolate, skip */
+			skipped = true;
 			continue;
 		}
 
@@ -291,19 +275,20 @@ ir_advance(struct isolate_runner *ir)
 		 * the eos-case as we left the sequence and hit the
 		 * first non-isolating-sequence character.
 		 */
-		if (i == ir->cur.off) {
-			/* we were in the first initializing round */
-			continue;
-		} else if (level == ir->isolating_run_level) {
-			/* isolate_level-skips have been handled before, we're
-			 * good */
+		if (level == ir->isolating_run_level &&
+		    (!skipped || prop == BIDI_PROP_PDI)) {
 			/* still in the sequence */
 			ir->next.off = i;
 		} else {
-			/* out of sequence or isolated, compare levels via eos
+			/*
+			 * out of sequence, compare levels via eos; the level
+			 * that follows an initiator without matching PDI is
+			 * the paragraph level
 			 */
-			ir->next.off = SIZE_MAX;
-			if (MAX(last_isolate_level, level) % 2 == 0) {
+			if (skipped) {
+				level = (int_least8_t)ir->paragraph_level;
+			}
+			if (MAX(ir->isolating_run_level, level) % 2 == 0) {
 				ir->eos = BIDI_PROP_L;
 			} else {
 				ir->eos = BIDI_PROP_R;
@@ -318,8 +303,8 @@ ir_advance(struct isolate_runner *ir)
 		 * level of the last element in the isolating run sequence
 		 * with the paragraph level.
 		 */
-		ir->next.off = SIZE_MAX;
-		if (MAX(last_isolate_level, ir->paragraph_level) % 2 == 0) {
+		if (MAX(ir->isolating_run_level, ir->paragraph_level) % 2 ==
+		    0) {
 			/* the higher level is even, set eos to L */
 			ir->eos = BIDI_PROP_L;
 		} else {
-- 
2.43.0


From 1320eb9d6b2e16bf56f926464a6fe8c575e62819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 16/19] fix: only take canonical decompositions as bracket
 aliases

BD16 matches canonical equivalents. Superscript, small and fullwidth
brackets have compatibility mappings and only match their own kind.
---
 gen/bidirectional.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/gen/bidirectional.c b/gen/bidirectional.c
index b4a4fb7..9746554 100644
--- a/gen/bidirectional.c
+++ b/gen/bidirectional.c
@@ -160,23 +160,13 @@ decomposition_callback(const char *file, char **field, size_t nfields,
 
 	if (decomp->cp == cp) {
 		/* we hit the line that contains our decomposition target */
-		if (strlen(field[5]) > 0) {
-			p = field[5];
-			if (*p == '<') {
-				/*
-				 * the decomposition contains some metadata
-				 * <...> we skip
-				 */
-				for (; *p != '\0'; p++) {
-					if (*p == '>') {
-						p++;
-						while (*p == ' ') {
-							p++;
-						}
-						break;
-					}
-				}
-			}
+		p = field[5];
+
+		/*
+		 * a decomposition containing some metadata <...> is a
+		 * compatibility mapping, only canonical ones count
+		 */
+		if (strlen(p) > 0 && *p != '<') {
 			hextocp(p, strlen(p), &(decomp->decomposition));
 		} else {
 			decomp->decomposition = decomp->cp;
-- 
2.43.0


From 14bc687981092baeba679c597278625a985096e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 17/19] fix: identify bracket pairs as BD16 prescribes

The FIFO that held the pending brackets forgot or mispaired brackets
when it overflowed. Use the 63-element stack of BD16 and store the
pairs in the state.
---
 src/bidirectional.c | 242 ++++++++++++--------------------------------
 1 file changed, 67 insertions(+), 175 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 986bc79..11344b8 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -15,6 +15,7 @@ enum state_type {
 	STATE_LEVEL,           /* in 0..MAX_DEPTH+1=126, embedding level */
 	STATE_PARAGRAPH_LEVEL, /* in 0..1, paragraph embedding level */
 	STATE_VISITED,         /* in 0..1, visited within isolating run */
+	STATE_PAIRED,          /* in 0..1, bracket that is part of a pair */
 };
 
 static struct {
@@ -52,6 +53,11 @@ static struct {
 		.mask_shift   = 26,
 		.value_offset = 0,
 	},
+	[STATE_PAIRED] = {
+		.filter_mask  = 0x8000000, /* 00001000 00000000 00000000 00000000 */
+		.mask_shift   = 27,
+		.value_offset = 0,
+	},
 };
 
 static inline int_least16_t
@@ -471,198 +477,83 @@ preprocess_bracket_pairs(uint_least32_t *buf, size_t buflen, size_t off,
 	 * by 63, the algorithm, as is, requires dynamic memory
 	 * management.
 	 *
-	 * A naive approach (used by Fribidi) would be to screw the
-	 * stack-approach and simply directly determine the
-	 * corresponding closing bracket offset for a given opening
-	 * bracket, leading to O(n²) time complexity in the worst case
-	 * with a lot of brackets. While many brackets are not common,
-	 * it is still possible to find a middle ground where you obtain
-	 * strongly linear time complexity in most common cases:
-	 *
-	 * Instead of a stack, we use a FIFO data structure which is
-	 * filled with bracket openings in the order of appearance (thus
-	 * yielding an implicit sorting!) at the top. If the
-	 * corresponding closing bracket is encountered, it is added to
-	 * the respective entry, making it ready to "move out" at the
-	 * bottom (i.e. passed to the bracket processing). Due to the
-	 * nature of the specified pair detection algorithm, which only
-	 * cares about the bracket type and nothing else (bidi class,
-	 * level, etc.), we can mix processing and bracket detection.
-	 *
-	 * Obviously, if you, for instance, have one big bracket pair at
-	 * the bottom that has not been closed yet, it will block the
-	 * bracket processing and the FIFO might hit its capacity limit.
-	 * At this point, the blockage is manually resolved using the
-	 * naive quadratic approach.
-	 *
-	 * To remain within the specified standard behaviour, which
-	 * mandates that processing of brackets should stop when the
-	 * bracketing-depth is at 63, we simply check in an "overflow"
-	 * scenario if all 63 elements in the LIFO are unfinished, which
-	 * corresponds with such a bracketing depth.
+	 * We avoid the list by marking the paired brackets in the state
+	 * buffer. As a pair removes all openings above it from the stack,
+	 * the pairs are properly nested, and given an opening that is part
+	 * of a pair its counterpart can be found by merely counting the
+	 * paired brackets in between. Going through the openings in the
+	 * order of their appearance yields an implicit sorting.
 	 */
-	enum bidi_property prop;
-
 	struct {
-		bool complete;
-		size_t bracket_class;
-		struct isolate_runner start;
-		struct isolate_runner end;
-	} fifo[63];
-	const struct bracket *bracket_prop, *tmp_bracket_prop;
-	struct isolate_runner ir, tmp_ir;
-	size_t fifo_len = 0, i, blevel, j, k;
-
-	ir_init(buf, buflen, off, paragraph_level, false, &ir);
-	while (!ir_advance(&ir)) {
-		prop = ir_get_current_prop(&ir);
-		bracket_prop = ir_get_current_bracket_prop(&ir);
-		if (prop == BIDI_PROP_ON &&
-		    bracket_prop->type == BIDI_BRACKET_OPEN) {
-			if (fifo_len == LEN(fifo)) {
-				/*
-				 * The FIFO is full, check first if it's
-				 * completely blocked (i.e. no finished
-				 * bracket pairs, triggering the standard
-				 * that mandates to abort in such a case
-				 */
-				for (i = 0; i < fifo_len; i++) {
-					if (fifo[i].complete) {
-						break;
-					}
-				}
-				if (i == fifo_len) {
-					/* abort processing */
-					return;
-				}
-
-				/*
-				 * by construction, the bottom entry
-				 * in the FIFO is guaranteed to be
-				 * unfinished (given we "consume" all
-				 * finished bottom entries after each
-				 * iteration).
-				 *
-				 * iterate, starting after the opening
-				 * bracket, and find the corresponding
-				 * closing bracket.
-				 *
-				 * if we find none, just drop the FIFO
-				 * entry silently
-				 */
-				for (tmp_ir = fifo[0].start, blevel = 0;
-				     !ir_advance(&tmp_ir);) {
-					tmp_bracket_prop =
-						ir_get_current_bracket_prop(
-							&tmp_ir);
-
-					if (tmp_bracket_prop->type ==
-					            BIDI_BRACKET_OPEN &&
-					    tmp_bracket_prop->class ==
-					            bracket_prop->class) {
-						/* we encountered another
-						 * opening bracket of the
-						 * same class */
-						blevel++;
-
-					} else if (tmp_bracket_prop->type ==
-					                   BIDI_BRACKET_CLOSE &&
-					           tmp_bracket_prop->class ==
-					                   bracket_prop
-					                           ->class) {
-						/* we encountered a closing
-						 * bracket of the same class
-						 */
-						if (blevel == 0) {
-							/* this is the
-							 * corresponding
-							 * closing bracket
-							 */
-							fifo[0].complete = true;
-							fifo[0].end = ir;
-						} else {
-							blevel--;
-						}
-					}
-				}
-				if (fifo[0].complete) {
-					/* we found the matching bracket */
-					preprocess_bracket_pair(
-						&(fifo[i].start),
-						&(fifo[i].end));
-				}
+		size_t class;
+		size_t off;
+	} stack[63];
+	const struct bracket *bracket_prop;
+	struct isolate_runner start, end;
+	size_t stack_len = 0, depth, i;
+
+	/* BD16 */
+	ir_init(buf, buflen, off, paragraph_level, false, &end);
+	while (!ir_advance(&end)) {
+		if (ir_get_current_prop(&end) != BIDI_PROP_ON) {
+			continue;
+		}
+		bracket_prop = ir_get_current_bracket_prop(&end);
 
-				/* shift FIFO one to the left */
-				for (i = 1; i < fifo_len; i++) {
-					fifo[i - 1] = fifo[i];
-				}
-				fifo_len--;
+		if (bracket_prop->type == BIDI_BRACKET_OPEN) {
+			if (stack_len == LEN(stack)) {
+				/* no room, stop looking for pairs */
+				break;
 			}
-
-			/* add element to the FIFO */
-			fifo_len++;
-			fifo[fifo_len - 1].complete = false;
-			fifo[fifo_len - 1].bracket_class = bracket_prop->class;
-			fifo[fifo_len - 1].start = ir;
-		} else if (prop == BIDI_PROP_ON &&
-		           bracket_prop->type == BIDI_BRACKET_CLOSE) {
+			stack[stack_len].class = bracket_prop->class;
+			stack[stack_len].off = end.cur.off;
+			stack_len++;
+		} else if (bracket_prop->type == BIDI_BRACKET_CLOSE) {
 			/*
-			 * go backwards in the FIFO, skip finished entries
-			 * and simply ignore (do nothing) the closing
-			 * bracket if we do not match anything
+			 * go down the stack and simply ignore (do
+			 * nothing) the closing bracket if we do not
+			 * match anything
 			 */
-			for (i = fifo_len; i > 0; i--) {
-				if (bracket_prop->class ==
-				            fifo[i - 1].bracket_class &&
-				    !fifo[i - 1].complete) {
+			for (i = stack_len; i > 0; i--) {
+				if (bracket_prop->class == stack[i - 1].class) {
 					/* we have found a pair */
-					fifo[i - 1].complete = true;
-					fifo[i - 1].end = ir;
-
-					/* remove all uncompleted FIFO elements
-					 * above i - 1 */
-					for (j = i; j < fifo_len;) {
-						if (fifo[j].complete) {
-							j++;
-							continue;
-						}
+					set_state(STATE_PAIRED, 1,
+					          &(buf[stack[i - 1].off]));
+					set_state(STATE_PAIRED, 1,
+					          &(buf[end.cur.off]));
 
-						/* shift FIFO one to the left */
-						for (k = j + 1; k < fifo_len;
-						     k++) {
-							fifo[k - 1] = fifo[k];
-						}
-						fifo_len--;
-					}
+					/* remove this and all openings above */
+					stack_len = i - 1;
 					break;
 				}
 			}
 		}
+	}
 
-		/* process all ready bracket pairs from the FIFO bottom */
-		while (fifo_len > 0 && fifo[0].complete) {
-			preprocess_bracket_pair(&(fifo[0].start),
-			                        &(fifo[0].end));
+	/* N0 */
+	ir_init(buf, buflen, off, paragraph_level, false, &start);
+	while (!ir_advance(&start)) {
+		if (!get_state(STATE_PAIRED, buf[start.cur.off]) ||
+		    ir_get_current_bracket_prop(&start)->type !=
+		            BIDI_BRACKET_OPEN) {
+			continue;
+		}
 
-			/* shift FIFO one to the left */
-			for (j = 0; j + 1 < fifo_len; j++) {
-				fifo[j] = fifo[j + 1];
+		/* go to the matching closing bracket */
+		end = start;
+		for (depth = 1; depth > 0 && !ir_advance(&end);) {
+			if (!get_state(STATE_PAIRED, buf[end.cur.off])) {
+				continue;
+			}
+			if (ir_get_current_bracket_prop(&end)->type ==
+			    BIDI_BRACKET_OPEN) {
+				depth++;
+			} else {
+				depth--;
 			}
-			fifo_len--;
 		}
-	}
 
-	/*
-	 * afterwards, we still might have unfinished bracket pairs
-	 * that will remain as such, but the subsequent finished pairs
-	 * also need to be taken into account, so we go through the
-	 * FIFO once more and process all finished pairs
-	 */
-	for (i = 0; i < fifo_len; i++) {
-		if (fifo[i].complete) {
-			preprocess_bracket_pair(&(fifo[i].start),
-			                        &(fifo[i].end));
-		}
+		preprocess_bracket_pair(&start, &end);
 	}
 }
 
@@ -1419,6 +1310,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			set_state(STATE_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_PARAGRAPH_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_VISITED, 0, &(buf[bufoff]));
+			set_state(STATE_PAIRED, 0, &(buf[bufoff]));
 			set_state(STATE_PRESERVED_PROP,
 			          (uint_least8_t)get_bidi_property(cp),
 			          &(buf[bufoff]));
-- 
2.43.0


From b652f9b40f5866f6575b2163de037b09e501e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 18/19] fix: show out-of-range values as U+FFFD in reordered
 lines

The level metadata shares the output array with the codepoint, and
values above 2^21-1 corrupted it.
---
 src/bidirectional.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 11344b8..be57144 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1478,7 +1478,11 @@ grapheme_bidirectional_reorder_line(const uint_least32_t *line,
 	/* write output characters (and apply possible mirroring) */
 	for (i = 0, outputlen = 0; i < linelen; i++) {
 		if (get_state(STATE_LEVEL, linedata[i]) != -1) {
-			if (outputlen < outputsize) {
+			if (outputlen < outputsize &&
+			    line[i] > UINT32_C(0x10FFFF)) {
+				/* there is only room for 21 bits */
+				output[outputlen] = GRAPHEME_INVALID_CODEPOINT;
+			} else if (outputlen < outputsize) {
 				output[outputlen] =
 					(uint_least32_t)((int_least32_t)
 				                                 line[i] +
-- 
2.43.0


From ecf52f009e608f9b0fd9cc0336779875d318090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 19/19] fix: do not mistake an ill-formed sequence before a
 soft limit for a truncated one

Titlecase conversion and detection ended at a word whose last sequence
is ill-formed, as it looked truncated within the word.
---
 src/util.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util.c b/src/util.c
index 4d9a8a4..b9c7ec9 100644
--- a/src/util.c
+++ b/src/util.c
@@ -147,9 +147,13 @@ herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
 		*cp = ((const uint_least32_t *)(r->src))[r->off];
 		ret = 1;
 	} else { /* r->type == HERODOTUS_TYPE_UTF8 */
-		ret = grapheme_decode_utf8(
-			(const char *)r->src + r->off,
-			MIN(r->srclen, r->soft_limit[0]) - r->off, cp);
+		/*
+		 * soft limits never split a sequence, but cutting off
+		 * what follows would make an ill-formed sequence look
+		 * like a truncated one
+		 */
+		ret = grapheme_decode_utf8((const char *)r->src + r->off,
+		                           r->srclen - r->off, cp);
 	}
 
 	if (unlikely(r->srclen == SIZE_MAX && *cp == 0)) {
-- 
2.43.0

