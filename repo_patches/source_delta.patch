From b5f6bd63102653cadccb039bc63cbd85d04acc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:21 +0000
Subject: [PATCH 01/91] fix: pd_copy of a 0-crossing diagram keeps the
 component tag and uid

---
 src/pdcode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 354efaf..539ac02 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2723,7 +2723,10 @@ pd_code_t *pd_copy_newsize(pd_code_t *pd, pd_idx_t MAXVERTS)
 {
   if (pd->ncross == 0) {
 
-    return pd_build_unknot(0);
+    pd_code_t *unknot = pd_build_unknot(0);
+    unknot->uid = pd->uid;
+    unknot->comp[0].tag = pd->comp[0].tag;
+    return unknot;
 
   }
 
-- 
2.43.0


From e6d04ffd78d6daf5e6ddc554ab95a7c85150cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:21 +0000
Subject: [PATCH 02/91] fix: loop deletion of the one-crossing diagram keeps
 the component tag

---
 src/pd_crossingmoves.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 6b6f72f..d90b7e0 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -464,7 +464,9 @@ pd_code_t *pd_R1_loopdeletion(pd_code_t *pd,pd_idx_t cr)
 
     if (pd->ncomps == 1 && pd->ncross == 1 && pd->nedges == 2 && pd->nfaces == 3) {
 
-      return pd_build_unknot(0);
+      pd_code_t *unknot = pd_build_unknot(0);
+      unknot->comp[0].tag = pd->comp[0].tag;
+      return unknot;
 
     } else {
 
-- 
2.43.0


From f81db9e255136ff04d0321ffe45e1c5afffe554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:21 +0000
Subject: [PATCH 03/91] fix: reorienting or renumbering a 0-crossing diagram
 does not read out of bounds or abort

---
 src/pd_operations.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pd_operations.c b/src/pd_operations.c
index 4f2d270..f69e2ae 100644
--- a/src/pd_operations.c
+++ b/src/pd_operations.c
@@ -46,6 +46,8 @@ void pd_reorient_component(pd_code_t *pd, pd_idx_t cmp,pd_or_t orient)
   pd_check_notnull(SRCLOC,"pd",pd);
   pd_check_cmp(SRCLOC,pd,cmp);
 
+  if (pd->ncross == 0) { return; } /* The 0-crossing unknot has no crossings or edge numbers to change. */
+
   if (orient == PD_NEG_ORIENTATION) {
 
     /* Several things need to happen in a proper component reversal:
@@ -151,6 +153,8 @@ void pd_renumber_component(pd_code_t *pd, pd_idx_t cmp,pd_idx_t ofs)
   pd_check_notnull(SRCLOC,"pd",pd);
   pd_check_cmp(SRCLOC,pd,cmp);
 
+  if (pd->ncross == 0) { return; } /* The 0-crossing unknot has only one edge. */
+
   if (ofs != 0) {
 
     /* Several things need to happen in a proper component renumbering:
-- 
2.43.0


From a93188e32cc93b576d6aeb2bf6b5532059b91e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:10 +0000
Subject: [PATCH 04/91] fix: connect sum with a 0-crossing summand does not
 read out of bounds

---
 src/pd_crossingmoves.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index d90b7e0..be41f79 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -2300,6 +2300,12 @@ pd_code_t *pd_connect_sum(pd_code_t *pdA, pd_idx_t edgeA,
   pd_check_edge(SRCLOC,pdA,edgeA);
   pd_check_edge(SRCLOC,pdB,edgeB);
 
+  /* The edge of a 0-crossing diagram has no head or tail to splice:
+     summing with it leaves the other diagram unchanged. */
+
+  if (pdA->ncross == 0) { return pd_copy(pdB); }
+  if (pdB->ncross == 0) { return pd_copy(pdA); }
+
   /* The algorithm here is straightforward; allocate space,
      copy crossings and edges, then reconnect edges. */
 
-- 
2.43.0


From 88a34b443e1bf3f8ae5f2c290ea4cf1947f15e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:35 +0000
Subject: [PATCH 05/91] fix: pd_read does not write past its hash buffer

---
 src/pdcode.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 539ac02..896294b 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3125,7 +3125,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
   /* pd   <hash> <uid> */ /* Remember that the hash is base64 encoded using a-zA-Z;: character set */
 
   unsigned long int input_temp,input_temp2,input_temp3,input_temp4;
-  char hash[PD_HASHSIZE];
+  char hash[PD_HASHSIZE+1]; /* sscanf stores up to PD_HASHSIZE characters and a 0 */
   pd_uid_t uid;
 
   /* The first thing we do is spin through whitespace until we encounter a "p" */
@@ -3310,7 +3310,8 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   /* We now have to copy the hash into the new pd code. */
 
-  strncpy(pd->hash,hash,PD_HASHSIZE);
+  strncpy(pd->hash,hash,PD_HASHSIZE-1);
+  pd->hash[PD_HASHSIZE-1] = 0;
   pd->uid = uid;
   pd->ncross = (pd_idx_t)(input_temp);
 
-- 
2.43.0


From fe93c97cf7cacea280243d04de6ba2bb74bc0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:35 +0000
Subject: [PATCH 06/91] fix: pd_read refuses malformed files instead of
 aborting or reading out of bounds

---
 src/pdcode.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 896294b..22f69c5 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3286,7 +3286,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	pd_error(SRCLOC,
 		 "Reading 0 crossing pd code, we found eof before a component tag. ",NULL);
 	pd_err_set(err, PD_BAD_FORMAT);
-	exit(1);
+	return NULL;
 
       }
     }
@@ -3427,6 +3427,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	     "nc <ncomps>\n"
 	     "where <ncomps> is a positive integer\n"
 	     "but this one doesn't",pd);
+    pd_err_set(err, PD_BAD_FORMAT);
     pd_code_free(&pd); return NULL;
 
   }
@@ -3629,9 +3630,30 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   }
 
+  for(edge=0;edge<pd->nedges;edge++) {
+
+    if (pd->edge[edge].head >= pd->ncross || pd->edge[edge].headpos >= 4 ||
+	pd->edge[edge].tail >= pd->ncross || pd->edge[edge].tailpos >= 4) {
+
+      pd_error(SRCLOC,"edge %d refers to a crossing or position which does not exist\n",pd,edge);
+      pd_err_set(err, PD_BAD_FORMAT);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
+
+  }
+
   pd_regenerate_crossings(pd); /* If the crossings were not in canonical order, fix it. */
 
-  pd_err_check(pd_ok(pd), err, PD_NOT_OK, pd);
+  if (!pd_ok(pd)) {
+
+    if (err) { *err = PD_NOT_OK; return pd; }
+    pd_code_free(&pd);
+    return NULL;
+
+  }
+
   if (strstr(pd->hash,"unset") != NULL) { pd_regenerate_hash(pd); }
 
   return pd;
-- 
2.43.0


From 08abb121e297a04faa25a6d6df5851b0d28e675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:47 +0000
Subject: [PATCH 07/91] fix: pd_ok rejects empty faces and components

---
 src/pdcode.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 22f69c5..47eaa52 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2368,6 +2368,12 @@ bool pd_comps_ok(pd_code_t *pd)
 
   for(correct_edgenum=0,comp=0;comp < pd->ncomps;comp++) {
 
+    if (pd->comp[comp].nedges == 0) {
+
+      return pd_error(SRCLOC,"component %d has no edges in pd %PD",pd,comp);
+
+    }
+
     for(edge=0;edge < pd->comp[comp].nedges;edge++,correct_edgenum++) {
 
       if (correct_edgenum != pd->comp[comp].edge[edge]) {
@@ -2384,6 +2390,12 @@ bool pd_comps_ok(pd_code_t *pd)
       e_idx = pd->comp[comp].edge[edge];
       n_idx = pd->comp[comp].edge[next_edge];
 
+      if (e_idx >= pd->nedges || n_idx >= pd->nedges) {
+
+	return pd_error(SRCLOC,"%COMP refers to an edge which does not exist in pd %PD",pd,comp);
+
+      }
+
       if (pd->edge[e_idx].head != pd->edge[n_idx].tail ||
 	  (4 + pd->edge[e_idx].headpos - pd->edge[n_idx].tailpos) % 4 != 2) {
 
@@ -2533,6 +2545,12 @@ bool pd_faces_ok(pd_code_t *pd)
 
     pd_face_t *f = &(pd->face[face]);
 
+    if (f->nedges == 0) {
+
+      return pd_error(SRCLOC,"face %d has no edges in pd %PD",pd,face);
+
+    }
+
     for(edge=0,nxt_edge= 1 % f->nedges;
 	edge<f->nedges;
 	edge++,nxt_edge = (edge+1) % f->nedges) {
-- 
2.43.0


From 89de75fa60b5efd340951527e10e09a76ca4cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:47 +0000
Subject: [PATCH 08/91] fix: pd_read refuses an impossible number of crossings

---
 src/pdcode.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 47eaa52..55e7947 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3267,6 +3267,14 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   }
 
+  if (input_temp > UINT_MAX/8) { /* The counts below would not fit in a pd_idx_t */
+
+    pd_error(SRCLOC,"pdcode file claims an impossible number of crossings\n",NULL);
+    pd_err_set(err, PD_BAD_FORMAT);
+    return NULL;
+
+  }
+
   /* We now know the number of crossings to allocate space for,
      and we can call pd_new. We make sure that we have space for
      at least two more crossings than we see now (to prevent zero
-- 
2.43.0


From 03b4cada4fd35a7d9404a598743206d5fe472878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:40 +0000
Subject: [PATCH 09/91] fix: unpacking a diagram without crossing signs leaves
 the signs unset

---
 src/pd_pack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index d1236c0..ab4d69c 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -424,6 +424,12 @@ pd_code_t *pd_unpack(unsigned int *bitform)
 
   pd_regenerate(pd);
   assert(pd_ok(pd));
+
+  if (crtype == UNSIGNED_CROSSINGS) {
+
+    for(k=0;k<pd->ncross;k++) { pd->cross[k].sign = PD_UNSET_ORIENTATION; }
+
+  }
   
   return pd;
 }
-- 
2.43.0


From 2e484f75381d9490933eb7a2aa3b92cbecbb3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:34 +0000
Subject: [PATCH 10/91] fix: pd_read refuses a file whose list of faces is
 incomplete

---
 src/pdcode.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 55e7947..5c63d82 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3680,6 +3680,34 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   }
 
+  /* Each side of each edge has to be on exactly one face. */
+
+  int *side_seen = calloc(2*pd->nedges,sizeof(int));
+  assert(side_seen != NULL);
+
+  for(face=0;face<pd->nfaces;face++) {
+
+    for(edge=0;edge<pd->face[face].nedges;edge++) {
+
+      side_seen[2*pd->face[face].edge[edge] +
+		(pd->face[face].orient[edge] == PD_POS_ORIENTATION ? 1 : 0)]++;
+
+    }
+
+  }
+
+  bool sides_ok = true;
+  for(edge=0;edge<2*pd->nedges;edge++) { if (side_seen[edge] != 1) { sides_ok = false; } }
+  free(side_seen);
+
+  if (!sides_ok) {
+
+    pd_err_set(err, PD_BAD_FORMAT);
+    pd_code_free(&pd);
+    return NULL;
+
+  }
+
   if (strstr(pd->hash,"unset") != NULL) { pd_regenerate_hash(pd); }
 
   return pd;
-- 
2.43.0


From 45598d40e7f73d01bedf6f1d9f9208ec4d33b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:25 +0000
Subject: [PATCH 11/91] fix: KnotTheory reader directs every two-edge component
 correctly

---
 src/pdcode.c | 451 ++++-----------------------------------------------
 1 file changed, 28 insertions(+), 423 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 5c63d82..0c88dc3 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3872,48 +3872,49 @@ ones we don't need.
 
     */
 
-    if (pd->cross[cr].edge[3] - pd->cross[cr].edge[1] == 1) { // 1 -> 3
+    pd_idx_t e1 = pd->cross[cr].edge[1], e3 = pd->cross[cr].edge[3];
+    bool one_to_three;
 
-      pd->cross[cr].sign = PD_NEG_ORIENTATION;
+    if (e3 - e1 == 1) { one_to_three = true; }
+    else if (e1 - e3 == 1) { one_to_three = false; }
+    else { one_to_three = (e1 > e3); } /* The numbers wrap around here. */
 
-      pd->edge[pd->cross[cr].edge[1]].head = cr;
-      pd->edge[pd->cross[cr].edge[1]].headpos = 1;
+    /* In a two-edge component, the numbers don't tell. But the other
+       place where e1 and e3 are opposite each other does. */
 
-      pd->edge[pd->cross[cr].edge[3]].tail = cr;
-      pd->edge[pd->cross[cr].edge[3]].tailpos = 3;
+    pd_idx_t other;
 
-    } else if (pd->cross[cr].edge[1] - pd->cross[cr].edge[3] == 1) { // 3 -> 1
+    for(other=0;other<crbuf_used;other++) {
 
-      pd->cross[cr].sign = PD_POS_ORIENTATION;
+      pd_crossing_t *o = &(crbuf[other]); /* edge numbers from 1 here */
 
-      pd->edge[pd->cross[cr].edge[3]].head = cr;
-      pd->edge[pd->cross[cr].edge[3]].headpos = 3;
+      if (o->edge[0] == e1+1 && o->edge[2] == e3+1) { one_to_three = false; }
+      else if (o->edge[0] == e3+1 && o->edge[2] == e1+1) { one_to_three = true; }
+      else if (other < cr &&
+	       ((o->edge[1] == e1+1 && o->edge[3] == e3+1) ||
+		(o->edge[1] == e3+1 && o->edge[3] == e1+1))) {
 
-      pd->edge[pd->cross[cr].edge[1]].tail = cr;
-      pd->edge[pd->cross[cr].edge[1]].tailpos = 1;
+	/* We are over at both crossings, and the direction was chosen
+	   at the other one: its outgoing edge comes in here. */
 
-    } else if (pd->cross[cr].edge[1] > pd->cross[cr].edge[3]) { // 1 -> 3, wrapping
+	pd_idx_t out = (pd->cross[other].sign == PD_NEG_ORIENTATION) ?
+	  pd->cross[other].edge[3] : pd->cross[other].edge[1];
 
-      pd->cross[cr].sign = PD_NEG_ORIENTATION;
+	one_to_three = (e1 == out);
 
-      pd->edge[pd->cross[cr].edge[1]].head = cr;
-      pd->edge[pd->cross[cr].edge[1]].headpos = 1;
-
-      pd->edge[pd->cross[cr].edge[3]].tail = cr;
-      pd->edge[pd->cross[cr].edge[3]].tailpos = 3;
-
-    } else { // 3 -> 1, wrapping
+      }
 
-      pd->cross[cr].sign = PD_POS_ORIENTATION;
+    }
 
-      pd->edge[pd->cross[cr].edge[3]].head = cr;
-      pd->edge[pd->cross[cr].edge[3]].headpos = 3;
+    pd_pos_t in_pos = one_to_three ? 1 : 3, out_pos = one_to_three ? 3 : 1;
 
-      pd->edge[pd->cross[cr].edge[1]].tail = cr;
-      pd->edge[pd->cross[cr].edge[1]].tailpos = 1;
+    pd->cross[cr].sign = one_to_three ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION;
 
+    pd->edge[pd->cross[cr].edge[in_pos]].head = cr;
+    pd->edge[pd->cross[cr].edge[in_pos]].headpos = in_pos;
 
-    }
+    pd->edge[pd->cross[cr].edge[out_pos]].tail = cr;
+    pd->edge[pd->cross[cr].edge[out_pos]].tailpos = out_pos;
 
   }
 
@@ -3921,402 +3922,6 @@ ones we don't need.
   pd->nedges = 2*crbuf_used;
   pd->nfaces = crbuf_used + 2;
 
-  /* We now search for two-edge components in the list. Unfortunately,
-     none of the existing "regenerate" codes are going to do the trick here,
-     because they all resort the crossings, losing the information we'll
-     need to correct our past errors (if any).
-  */
-
-  pd_idx_t crA, crB;
-
-  for(crA=0;crA<pd->ncross-1;crA++) {
-
-    for(crB=crA+1;crB<pd->ncross;crB++) {
-
-
-      /*       +------<--e2-----+
-	       |                |
-	       |0               |2
-	   1   |    3        3  |   1
-	+-------------->---------------+
-	 crA   |                |   crB
-	       |2               |0
-	       |                |
-	       +------->--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-
-      /*       +------->-e2-----+
-	       |                |
-	       |2               |0
-	   3   |    1        1  |   3
-	+-------------->---------------+
-	 crA   |                |   crB
-	       |0               |2
-	       |                |
-	       +-------<-e1-----+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[1]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------->-e2-----+
-	       |                |
-	       |3               |3
-	   0   |    2        0  |   2
-	+------|------->--------|------+
-	 crA   |                |   crB
-	       |1               |1
-	       |                |
-	       +-------<--e1----+
-
-	   taken as default, instead of
-
-	       +----------------+
-	       |                |
-	       |3               |3
-	   0   |    2        0  |   2
-	+------|------->--------|------+
-	 crA   |                |   crB
-	       |1               |1
-	       |                |
-	       +------->--------+
-
-	   which has the same pd code.
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +-------->-e2----+
-	       |                |
-	       |1               |1
-	   2   |    0        2  |   0
-	+------|-------<--------|------+
-	 crA   |                |   crB
-	       |3               |3
-	       |                |
-	       +-------<-e1-----+
-
-	   taken as default, instead of
-
-	       +----------------+
-	       |                |
-	       |1               |1
-	   2   |    0        2  |   0
-	+------|-------<--------|------+
-	 crA   |                |   crB
-	       |3               |3
-	       |                |
-	       +------->--------+
-
-	   which has the same pd code.
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[0]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +-------<---e2---+
-	       |                |
-	       |3               |2
-	   0   |    2        3  |   1
-	+------|------->---------------+
-	 crA   |                |   crB
-	       |1               |0
-	       |                |
-	       +------->---e1---+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------<---e2----+
-	       |                |
-	       |1               |2
-	   2   |    0        3  |   1
-	+------|-------<---------------+
-	 crA   |                |   crB
-	       |3               |0
-	       |                |
-	       +------->--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[0]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------->---e2---+
-	       |                |
-	       |1               |0
-	   2   |    0        1  |   3
-	+------|-------<---------------+
-	 crA   |                |   crB
-	       |3               |2
-	       |                |
-	       +-------<---e1---+
-
-      */
-
-      if (pd->cross[crB].edge[0] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[0]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------>---e2----+
-	       |                |
-	       |3               |0
-	   0   |    2        1  |   3
-	+------|------->---------------+
-	 crA   |                |   crB
-	       |1               |2
-	       |                |
-	       +-------<--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[0] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-
-      /*       +------<-e2------+
-	       |                |
-	       |0               |3
-	   1   |    3        0  |   2
-	+-------------->--------|------+
-	 crA   |                |   crB
-	       |2               |1
-	       |                |
-	       +------->-e1-----+
-
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +-------<--e2----+
-	       |                |
-	       |0               |1
-	   1   |    3        2  |   0
-	+--------------<--------|------+
-	 crA   |                |   crB
-	       |2               |3
-	       |                |
-	       +------->--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[1] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-
-      }
-
-      /*       +------->--e2----+
-	       |                |
-	       |0               |1
-	   1   |    3        2  |   0
-	+--------------<--------|------+
-	 crA   |                |   crB
-	       |2               |3
-	       |                |
-	       +-------<--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[1] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-
-      }
-
-      /*       +------->--e2----+
-	       |                |
-	       |0               |3
-	   1   |    3        0  |   2
-	+-------------->--------|------+
-	 crA   |                |   crB
-	       |2               |1
-	       |                |
-	       +-------<--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-    }
-
-  }
-
-
   /* We can now detect everything else by regenerating... */
 
   pd_regenerate(pd);
-- 
2.43.0


From e24b3536a840e6923a1df2fcb6215a9d812d5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:45 +0000
Subject: [PATCH 12/91] fix: KnotTheory reader refuses codes that are not
 planar diagrams instead of aborting or writing out of bounds

---
 src/pdcode.c | 72 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 0c88dc3..5517c28 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3790,6 +3790,34 @@ ones we don't need.
 
   }
 
+  /* Every edge number in 1..2*(number of crossings) has to appear exactly twice. */
+
+  int *seen = calloc(2*crbuf_used+1,sizeof(int));
+  assert(seen != NULL);
+  bool edges_ok = true;
+  int i,j;
+
+  for(i=0;i<crbuf_used;i++) {
+
+    for(j=0;j<4;j++) {
+
+      if (crbuf[i].edge[j] < 1 || crbuf[i].edge[j] > 2*crbuf_used ||
+	  ++seen[crbuf[i].edge[j]] > 2) { edges_ok = false; break; }
+
+    }
+
+  }
+
+  free(seen);
+
+  if (!edges_ok) {
+
+    printf("pd_read_KnotTheory: Edge numbers don't make up a PD code.\n");
+    free(crbuf);
+    return NULL;
+
+  }
+
   /* We have now read all the crossings and won't bother with the file anymore. Our job is
      to extract the information needed to allocate and fill a pd_code_t from this buffer,
      then free it. The first task is to allocate space for the code. */
@@ -3922,6 +3950,50 @@ ones we don't need.
   pd->nedges = 2*crbuf_used;
   pd->nfaces = crbuf_used + 2;
 
+  /* Crossings which don't fit together along the strands, or only fit
+     together on a surface other than the sphere (where the number of
+     faces is ncross + 2), are not a PD code. */
+
+  bool fits = pd_edges_ok(pd);
+
+  if (fits) {
+
+    int nfaces = 0, d;
+    bool *side_seen = calloc(4*pd->ncross,sizeof(bool));
+    assert(side_seen != NULL);
+
+    for(d=0;d<4*pd->ncross;d++) {
+
+      int w;
+
+      for(w=d;!side_seen[w];) { /* Walk around the face next to position w%4 of crossing w/4 */
+
+	side_seen[w] = true;
+	if (w == d) { nfaces++; }
+
+	pd_edge_t *e = &(pd->edge[pd->cross[w/4].edge[w%4]]);
+	if (e->tail == w/4 && e->tailpos == w%4) { w = 4*e->head + (e->headpos+3)%4; }
+	else { w = 4*e->tail + (e->tailpos+3)%4; }
+
+      }
+
+    }
+
+    free(side_seen);
+    fits = (nfaces == pd->ncross+2);
+
+  }
+
+  if (!fits) {
+
+    printf("pd_read_KnotTheory: Crossings don't make up a planar PD code.\n");
+    free(crbuf);
+    pd->nfaces = 0;
+    pd_code_free(&pd);
+    return NULL;
+
+  }
+
   /* We can now detect everything else by regenerating... */
 
   pd_regenerate(pd);
-- 
2.43.0


From f2b231e99ef63897bfd51bf7a2eef3dbd42f2d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:21 +0000
Subject: [PATCH 13/91] fix: pd_build_diagram_isotopies reports no isotopy when
 component tags do not correspond

It exited the process instead (and leaked the container when the
matching components had different lengths).
---
 src/pd_isomorphisms.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 510598a..c571055 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2562,11 +2562,12 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
     }
 
-    if (!tag_found) { /* Something weird has happened. */
+    if (!tag_found) { /* The tags don't correspond, so there is no diagram isotopy. */
 
-      pd_error(SRCLOC,"couldn't find tag from %COMP of pdA = %PD in",pdA,i);
-      pd_error(SRCLOC,"pdB = %PD\n",pdB);
-      exit(1);
+      pd_free_perm((void **)(&comp_perm));
+      pd_free_container(&isos,pd_free_fake);
+      *nisos = 0;
+      return NULL;
 
     }
 
@@ -2592,6 +2593,7 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
     if (pdA->comp[i].nedges != pdB->comp[comp_perm->map[i]].nedges) {
 
       pd_free_perm((void **)(&comp_perm));
+      pd_free_container(&isos,pd_free_fake);
       *nisos = 0;
       return NULL;
 
-- 
2.43.0


From 4043f24d731b3872464b125a20591f3acf8d4413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:03 +0000
Subject: [PATCH 14/91] fix: isomorphism maps keep the ends of edges, not only
 their numbers

Crossing and face maps were matched by edge numbers alone. On a
component of two edges (or the one-crossing unknot) reversing the
component in place leaves those lists unchanged, so maps that are not
isomorphisms were listed and diagrams differing by the orientation of
such a component were reported diagram isotopic.
---
 src/pd_isomorphisms.c | 54 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index c571055..80c3040 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -956,6 +956,54 @@ int  pd_crossmap_cmp(const void *A,const void *B)
 }
 
 
+static bool pdint_edgemap_keeps_ends(pd_code_t *pdA,pd_code_t *pdB,
+				     pd_edgemap_t *edgemap,pd_or_t orient)
+
+/* Comparing the lists of edges around crossings (or faces) doesn't see which END
+   of an edge is at the crossing. This matters for components with one or two edges,
+   where reversing the component in place leaves all of those lists alone. So we check
+   that the ends of the edges of pdA at each crossing are carried to the ends of edges
+   at a single crossing of pdB, in the cyclic order given by orient. */
+
+{
+  pd_idx_t cross;
+
+  for(cross=0;cross<pdA->ncross;cross++) {
+
+    pd_idx_t tocross[4];
+    pd_pos_t topos[4],pos;
+
+    for(pos=0;pos<4;pos++) {
+
+      pd_idx_t   edge = pdA->cross[cross].edge[pos];
+      pd_edge_t *from = &(pdA->edge[edge]);
+      pd_edge_t *to   = &(pdB->edge[edgemap->perm->map[edge]]);
+
+      bool at_tail = (from->tail == cross && from->tailpos == pos);
+
+      if (at_tail == (edgemap->orient[edge] == PD_POS_ORIENTATION)) {
+
+	tocross[pos] = to->tail; topos[pos] = to->tailpos;
+
+      } else {
+
+	tocross[pos] = to->head; topos[pos] = to->headpos;
+
+      }
+
+      pd_pos_t expected = (orient == PD_POS_ORIENTATION) ?
+	(topos[0] + pos) % 4 : (topos[0] + 4 - pos) % 4;
+
+      if (tocross[pos] != tocross[0] || topos[pos] != expected) { return false; }
+
+    }
+
+  }
+
+  return true;
+
+}
+
 pd_crossmap_t *pdint_build_oriented_crossmap(pd_code_t *pdA,pd_code_t *pdB,
 					     pd_edgemap_t *edgemap,pd_or_t orient)
 
@@ -966,6 +1014,8 @@ pd_crossmap_t *pdint_build_oriented_crossmap(pd_code_t *pdA,pd_code_t *pdB,
   assert(pdA->ncross == pdB->ncross);
   pd_idx_t ncross = pdA->ncross;
 
+  if (!pdint_edgemap_keeps_ends(pdA,pdB,edgemap,orient)) { return NULL; }
+
   pd_crossmap_t *crossmap;
   crossmap = pd_new_crossmap(&ncross);
 
@@ -1030,6 +1080,8 @@ pd_crossmap_t *pdint_build_oriented_signed_crossmap(pd_code_t *pdA,pd_code_t *pd
   assert(pdA->ncross == pdB->ncross);
   pd_idx_t ncross = pdA->ncross;
 
+  if (!pdint_edgemap_keeps_ends(pdA,pdB,edgemap,orient)) { return NULL; }
+
   pd_crossmap_t *crossmap;
   crossmap = pd_new_crossmap(&ncross);
 
@@ -1299,6 +1351,8 @@ pd_facemap_t *pdint_build_oriented_facemap(pd_code_t *pdA,pd_code_t *pdB,
   assert(pdA->nfaces == pdB->nfaces);
   pd_idx_t nfaces = pdA->nfaces;
 
+  if (!pdint_edgemap_keeps_ends(pdA,pdB,edgemap,orient)) { return NULL; }
+
   pd_facemap_t *facemap;
   facemap = pd_new_facemap(&nfaces);
 
-- 
2.43.0


From e5e920345b039cc99a1da4678c8068426626d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:24 +0000
Subject: [PATCH 15/91] fix: pd_build_diagram_isotopies accepts any permutation
 of component tags

The component permutation was filled in without recomputing its
precomputed index, so pd_perm_ok failed and the process exited whenever
matching tags did not give the identity permutation.
---
 src/pd_isomorphisms.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 80c3040..03226da 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2627,6 +2627,8 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
   }
 
+  pd_regenerate_pcidx(comp_perm); /* We changed the map. */
+
   /* We SHOULD have assembled a permutation of components. */
 
   if (!pd_perm_ok(comp_perm)) {
-- 
2.43.0


From e65cb73333b4fc9061ef404cb2a83ebd0f2311d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:24 +0000
Subject: [PATCH 16/91] fix: pd_build_map_isomorphisms works on crossingless
 diagrams

The crossing map is NULL there; the face map carries the same
orientation.
---
 src/pd_isomorphisms.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 03226da..56e57c7 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2883,7 +2883,7 @@ pd_iso_t **pdint_build_map_isomorphisms(pd_code_t *pdA,pd_code_t *pdB,
 
       for(map=0;map<nmaps && !abortflag;map++) { /* We have actually generated an isomorphism! */
 
-          if(crossmaps[map]->orient == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
+          if(facemaps[map]->orient == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
 
               pd_iso_t *new_iso;
               new_iso = calloc(1,sizeof(pd_iso_t)); assert(new_iso != NULL);
-- 
2.43.0


From 37f97afcb29da6b2315e2d54a9db20ae91c690ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:45 +0000
Subject: [PATCH 17/91] fix: crossingless diagrams can be packed, unpacked and
 stored

pd_pack aborted on them (and so did pd_addto_pdstor).
---
 src/pd_pack.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index ab4d69c..c6620ab 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -302,6 +302,13 @@ unsigned int *pd_pack(pd_code_t *pd,unsigned int *packedlength)
   int k;
   bool crossings_consistent = true;
 
+  if (pd->ncross == 0) { /* No crossings to pack: just record their number. */
+
+    *packedlength = 1;
+    return calloc(*packedlength,sizeof(unsigned int));
+
+  }
+
   if (pd->cross[0].sign == PD_UNSET_ORIENTATION) {
 
     for(k=1;k<pd->ncross;k++) {
@@ -387,6 +394,8 @@ pd_code_t *pd_unpack(unsigned int *bitform)
   
   pd_idx_t ncross;
   pd_signcross_t crtype;
+
+  if (bitform[0] == 0) { return pd_build_unknot(0); }
   
   if ((int)(bitform[0]) > 0) {
 
-- 
2.43.0


From 464546ef6c9aa6487ea572844cc172aeedd32883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:45 +0000
Subject: [PATCH 18/91] fix: pd_display_pdstor works on an empty pdstor

It dereferenced the NULL first element.
---
 src/pd_storage.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index c2852af..3ba359f 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -542,6 +542,8 @@ void pd_display_pdstor(FILE *stream,pd_stor_t *pdstor) /* Prints a representatio
   pd_uid_t   uid_min,uid_max;
 
   pd = pd_stor_firstelt(pdstor);
+  if (pd == NULL) { return; } /* There is nothing to list. */
+
   strncpy(cur_hash,pd->hash,32);
   uid_min = pd->uid;
   uid_max = pd->uid;
-- 
2.43.0


From e73906f507a664da56587cc7dab481bee85f8604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:45 +0000
Subject: [PATCH 19/91] fix: pd_read_pdstor refuses inconsistent headers
 whether or not PD_VERBOSE is set

---
 src/pd_storage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 3ba359f..45ca0fd 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -744,10 +744,11 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
       if (PD_VERBOSE) {
 
 	printf("pd_read_pdstor: Header of pdstor file appears corrupt.\n");
-	return NULL;
 
       }
 
+      return NULL;
+
     }
 
     nelts = nelts_claimed;
-- 
2.43.0


From 0266c2cd39e6318967df50231a97d567eb21219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:14 +0000
Subject: [PATCH 20/91] fix: pd_read_pdstor reads files with unknown element
 counts to the end of the file

---
 src/pd_storage.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 45ca0fd..23c0d27 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -769,6 +769,14 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
     }
 
+    if (nelts == UINT_MAX) { /* We don't know how many to expect: stop at the end of the file. */
+
+      char next;
+      if (fscanf(stream," %c",&next) != 1) { nelts = elt; break; }
+      ungetc(next,stream);
+
+    }
+
     pd_code_t *pd = pd_read(stream);
 
     if (pd == NULL) { 
-- 
2.43.0


From a5d82db193c47f3563a1f75c90efcc2128d06606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:46 +0000
Subject: [PATCH 21/91] fix: pd_read_pdstor accepts an unknown-count file whose
 last element ends at the end of the file

---
 src/pd_storage.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 23c0d27..c93aba5 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -795,6 +795,8 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
   }
 
+  if (nelts == UINT_MAX) { nelts = elt; } /* The last element ended exactly at the end of the file. */
+
   if (elt != nelts) { 
 
     if (PD_VERBOSE) { printf("pd_read_pdstor: Only read %u of %u elements from file.\n",elt,nelts); }
-- 
2.43.0


From 4d428106144e5f67b527c3de8d53203c3bef968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:08 +0000
Subject: [PATCH 22/91] fix: setting a constraint no longer swallows an equal
 constraint on another component

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 69ff4f1..8461a5b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -506,6 +506,7 @@ static inline void overrun_check(plc_constraint *cst) {
   }
   /* Now combine adjacent constraints if possible */
   while (cst->next != NULL &&
+         cst->next->cmp == cst->cmp &&
          cst->next->vert == cst->vert+cst->num_verts &&
          cst->next->kind == cst->kind &&
          cst->kind != fixed &&
-- 
2.43.0


From 56bc28176cd56d079224aa1c6beccc53c038cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:08 +0000
Subject: [PATCH 23/91] fix: plc_add_component and plc_drop_component keep
 constraints on the component they were set on

---
 src/plCurve.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 8461a5b..a5450fc 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2031,6 +2031,7 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
                       const plc_vector * const vt,
            /*@null@*/ const plc_color * const clr) {
   plc_strand *cp;
+  plc_constraint *cst;
 
   assert(L != NULL);
   assert(nv >= 1);
@@ -2040,6 +2041,11 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
   assert(add_as >= 0);
   assert(add_as <= L->nc);
 
+  /* Constraints stay with the components they were set on. */
+  for (cst = L->cst; cst != NULL; cst = cst->next) {
+    if (cst->cmp >= add_as) { cst->cmp++; }
+  }
+
   L->nc++;
   /*@-compdestroy@*/
   L->cp = realloc(L->cp,L->nc*sizeof(plc_strand));
@@ -2076,12 +2082,19 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
 
 void plc_drop_component(plCurve *L, const int cmp) {
   int cnt;
+  plc_constraint *cst;
 
   assert(L != NULL);
   assert(cmp >= 0);
   assert(cmp < L->nc);
   assert(L->nc > 0);
 
+  /* The constraints on this component go with it, the others stay with theirs. */
+  plc_unconstrain(L,cmp,0,L->cp[cmp].nv);
+  for (cst = L->cst; cst != NULL; cst = cst->next) {
+    if (cst->cmp > cmp) { cst->cmp--; }
+  }
+
   L->nc--;
   L->cp[cmp].vt--;
   free(L->cp[cmp].vt);
-- 
2.43.0


From 03f452b41225914b74bfbe0b6fe8b0dc85d02b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:08 +0000
Subject: [PATCH 24/91] fix: plc_double_verts handles components without colors
 and colors the last vertices

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index a5450fc..d4da6e1 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2394,9 +2394,9 @@ plCurve *plc_double_verts(plCurve *L)
 
       newL->cp[cmp].clr[0] = L->cp[cmp].clr[0];
 
-    } else {
+    } else if (newL->cp[cmp].cc > 1) {
 
-      for(vt=0;vt<L->cp[cmp].nv-1;vt++) {
+      for(vt=0;vt<L->cp[cmp].nv;vt++) {
 
 	newL->cp[cmp].clr[2*vt+1] = newL->cp[cmp].clr[2*vt] = L->cp[cmp].clr[vt];
 	
-- 
2.43.0


From 8f60520f140ba72b4e168b4c8bcd10a11d5c972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:53 +0000
Subject: [PATCH 25/91] fix: plc_whitten moves each constraint with the
 vertices it constrains

---
 src/plwhitten.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index 3f9b729..e7f8a62 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -77,13 +77,13 @@ int  perm(int permsize,int *perm,int ind)
   return ind;
 }
 
-int  iperm(int permsize,int *perm,int ind)
+int  iperm(int permsize,int *thisperm,int ind)
 {
   int i;
 
-  for(i=permsize;i>0;i--) {
+  for(i=0;i<permsize/2;i++) {
     
-    if (perm[i] == ind) { return perm[i-1]; }
+    if (perm(permsize,thisperm,i) == ind) { return i; }
 
   }
 
@@ -214,7 +214,7 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
       for(tc=L->cst;tc != NULL;tc=tc->next) {
 
-	tc->vert = (nv-1) - (tc->vert + tc->num_verts); 
+	if (tc->cmp == cp) { tc->vert = nv - (tc->vert + tc->num_verts); }
 
       }
 
@@ -222,6 +222,25 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
   }
 
+  /* The list of constraints is kept in order of component and vertex. */
+
+  plc_constraint *sorted = NULL, **place;
+
+  while (L->cst != NULL) {
+
+    tc = L->cst;
+    L->cst = tc->next;
+
+    for(place = &sorted;*place != NULL && ((*place)->cmp < tc->cmp || ((*place)->cmp == tc->cmp && (*place)->vert < tc->vert));
+	place = &((*place)->next));
+
+    tc->next = *place;
+    *place = tc;
+
+  }
+
+  L->cst = sorted;
+
   plc_fix_wrap(L);
 
   /* We have now applied everything. */
-- 
2.43.0


From e9fc70126bbd415aada4b512de54a26788bd2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:53 +0000
Subject: [PATCH 26/91] fix: plc_write keeps the precision of constraints

---
 src/plCurve.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index d4da6e1..af8e03c 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -870,13 +870,13 @@ void plc_write(FILE *outfile, plCurve * const L) {
                                 cst->num_verts, cst_list);
       cst_num++;
       if (cst->kind == fixed) {
-        fprintf(outfile, "# Constraint %d Fixed %g %g %g\n", cst_num,
+        fprintf(outfile, "# Constraint %d Fixed %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]));
       } else if (cst->kind == line) {
-        fprintf(outfile, "# Constraint %d Line %g %g %g %g %g %g\n", cst_num,
+        fprintf(outfile, "# Constraint %d Line %.16g %.16g %.16g %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]), plc_M_clist(cst->vect[1]));
       } else if (cst->kind == plane) {
-      fprintf(outfile, "# Constraint %d Plane %g %g %g %g\n", cst_num,
+      fprintf(outfile, "# Constraint %d Plane %.16g %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]), cst->vect[1].c[0]);
       }
     }
-- 
2.43.0


From 9b1c0398999499d564bea97aeaca3ea99663c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:53 +0000
Subject: [PATCH 27/91] fix: plc_write does not cut off the constraint number
 after long coordinates

---
 src/plCurve.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index af8e03c..81ede72 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -800,8 +800,8 @@ void plc_write(FILE *outfile, plCurve * const L) {
   int i,j;                  /* Counters for the for loops */
   int nverts = 0;           /* Total number of vertices of all components */
   int colors = 0;           /* Total number of colors of all components */
-  char outstr[80] = "";     /* So we can wrap the vertex lines */
-  char outstr2[80] = "";    /* Again for wrapping */
+  char outstr[256] = "";     /* So we can wrap the vertex lines */
+  char outstr2[128] = "";    /* Again for wrapping */
   int cst_num;              /* This constraint */
   int **cst_nums = NULL;    /* All constraint numbers */
   plc_constraint *cst;  /* Current constraint */
@@ -892,7 +892,7 @@ void plc_write(FILE *outfile, plCurve * const L) {
   for (i=0; i<L->nc; i++) {
     fprintf(outfile,"# Component %d\n",i);
     for (j=0; j<L->cp[i].nv; j++) {
-      (void)snprintf(outstr,sizeof(outstr),"%.16g %.16g %.16g",
+      (void)snprintf(outstr,sizeof(outstr2),"%.16g %.16g %.16g",
           plc_M_clist(L->cp[i].vt[j]));
       if (cst_nums[i][j] != 0) {
         strcpy(outstr2,outstr);
-- 
2.43.0


From 456bbfb9898f5b9522ec4fa3ec09bd03dee9181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:53 +0000
Subject: [PATCH 28/91] fix: plc_read refuses files without the VECT keyword

---
 src/plCurve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 81ede72..5d7efd5 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1180,6 +1180,7 @@ void plc_fix_wrap(plCurve * const L) {
   plc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
+  int keyword = 0; /* Set when the VECT keyword has been read */
 
   assert(file != NULL);
   assert(error_str_len > 0);
@@ -1187,7 +1188,7 @@ void plc_fix_wrap(plCurve * const L) {
   *error_num = 0;
 
   /* First, we check for the 'VECT' keyword. */
-  if (fscanf(file," VECT ") == EOF) {
+  if (fscanf(file," VECT%n ",&keyword) == EOF || keyword == 0) {
     *error_num = PLC_E_NO_VECT;
     (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't find VECT keyword.\n");
-- 
2.43.0


From b986612f22eef2df010360c7cc8b9cf993df2a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:53 +0000
Subject: [PATCH 29/91] fix: plc_read reports impossible vertex and color
 counts instead of aborting

---
 src/plCurve.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 5d7efd5..6d5668a 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -42,6 +42,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 #include <time.h>
 
 /* Utility routines */
@@ -1234,6 +1235,16 @@ void plc_fix_wrap(plCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (nvarray[i] == 0 || nvarray[i] < -INT_MAX) {
+      *error_num = PLC_E_BAD_CVRT_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Bad number of vertices (%d) in component %d.\n",
+          nvarray[i],i);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
     /* A negative number of vertices indicates a CLOSED component. */
     open[i] = (nvarray[i] >= 0);
     nvarray[i] = abs(nvarray[i]);
@@ -1253,6 +1264,16 @@ void plc_fix_wrap(plCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (ccarray[i] < 0 || ccarray[i] > nvarray[i]) {
+      *error_num = PLC_E_BAD_CC;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Bad number of colors (%d) in component %d.\n",
+          ccarray[i],i);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
-- 
2.43.0


From d4649a02a5153fa07a5d1a77af09dd43a537ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:54 +0000
Subject: [PATCH 30/91] fix: plc_read makes room for every constraint and
 refuses undefined constraint numbers

---
 src/plCurve.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 6d5668a..07c16c8 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1330,11 +1330,24 @@ void plc_fix_wrap(plCurve * const L) {
         "plc_read: Couldn't parse constraint number from '%s'.\n",place);
       return NULL;
     }
-    if (cst_num+1 > (int)cst_list_len) {
-      cst_list_len = (size_t)(10*((cst_num+11) % 10)); /* Allocate by 10s */
+    if ((size_t)cst_num >= cst_list_len) {
+      size_t new_len = 10*((size_t)cst_num/10 + 1); /* Allocate by 10s */
+      plc_constraint *new_list;
       assert(cst_list->next == NULL);
-      cst_list = realloc(cst_list,cst_list_len*sizeof(plc_constraint));
-      assert(cst_list != NULL);
+      new_list = realloc(cst_list,new_len*sizeof(plc_constraint));
+      if (new_list == NULL) {
+        plc_free(L);
+        free(cst_list);
+        free(comment);
+        *error_num = PLC_E_BAD_CST_NUM;
+        (void)snprintf(error_str,error_str_len,
+          "plc_read: No room for constraint number %d.\n",cst_num);
+        return NULL;
+      }
+      cst_list = new_list;
+      memset(&cst_list[cst_list_len],0,
+             (new_len - cst_list_len)*sizeof(plc_constraint));
+      cst_list_len = new_len;
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
@@ -1444,7 +1457,9 @@ void plc_fix_wrap(plCurve * const L) {
         memmove(comment,place,strlen(place)+1);
         place = strtok(comment,space); /* Cst: */
         place_not_null;
-        if (sscanf(&comment[5],"%d",&cst_num) != 1) {
+        if (sscanf(&comment[5],"%d",&cst_num) != 1 ||
+            cst_num < 0 || (size_t)cst_num >= cst_list_len ||
+            (cst_num != 0 && cst_list[cst_num].kind == unconstrained)) {
           plc_free(L);
           assert(cst_list->next == NULL);
           free(cst_list);
-- 
2.43.0


From 2744676a0b478643981a9d594b54d40ec49f5c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:54 +0000
Subject: [PATCH 31/91] fix: plc_read accepts a fixed constraint shared by
 neighboring vertices

---
 src/plCurve.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 07c16c8..e99528a 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -656,6 +656,24 @@ static inline void plc_set_constraint(plCurve * const L,
   /*@=usereleased =compdef@*/
 } /* plc_set_constraint */
 
+/* Set a constraint read from a file on a run of vertices. (A fixed constraint
+ * applies to one vertex at a time.) */
+static inline void constrain_run(plCurve * const L,
+                                     const int          cmp,
+                                     const int          vert,
+                                     const int          num_verts,
+                                     const plc_constraint * const cst) {
+  int i;
+
+  if (cst->kind != fixed) {
+    plc_set_constraint(L,cmp,vert,num_verts,cst->kind,cst->vect);
+  } else {
+    for (i = 0; i < num_verts; i++) {
+      plc_set_constraint(L,cmp,vert+i,1,fixed,cst->vect);
+    }
+  }
+}
+
 /* Now the four functions which call plc_set_constraint */
 void plc_set_fixed(plCurve * const L,
                        const int          cmp,
@@ -1473,16 +1491,16 @@ void plc_fix_wrap(plCurve * const L) {
       free(comment);
       if (cst_num != prev_cst_num) {
         if (prev_cst_num != 0) {
-          plc_set_constraint(L, i, prev_cst_vert, j - prev_cst_vert,
-              cst_list[prev_cst_num].kind, cst_list[prev_cst_num].vect);
+          constrain_run(L, i, prev_cst_vert, j - prev_cst_vert,
+              &cst_list[prev_cst_num]);
         }
         prev_cst_num = cst_num;
         prev_cst_vert = j;
       }
     }
     if (prev_cst_num != 0) {
-      plc_set_constraint(L, i, prev_cst_vert, j - prev_cst_vert,
-          cst_list[cst_num].kind, cst_list[cst_num].vect);
+      constrain_run(L, i, prev_cst_vert, j - prev_cst_vert,
+          &cst_list[prev_cst_num]);
     }
   }
   /* Now set the "wrap-around" vertices */
-- 
2.43.0


From 1210c6f7701d385f9ec21e01535cbb15b0a8d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:54 +0000
Subject: [PATCH 32/91] fix: plc_read does not read past the end of a
 constraint comment

---
 src/plCurve.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index e99528a..2cac1e9 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1195,7 +1195,7 @@ void plc_fix_wrap(plCurve * const L) {
   int ds; /* Doubles scanned */
   /*@temp@*/ char *place;
   char *space = " ";
-  size_t parsed;
+  size_t parsed, comment_len;
   plc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
@@ -1319,8 +1319,13 @@ void plc_fix_wrap(plCurve * const L) {
   while ((place = strcasestr(comment,"Constraint ")) != NULL) {
     /* Move the word "Constraint to the beginning of the string */
     memmove(comment,place,strlen(place)+1);
+    comment_len = strlen(comment);
     /* Now start tokenizing */
     place = strtok(comment, space); /* "Constraint" */
+/* Where the text after the current token starts */
+#define token_parsed \
+    parsed = (size_t)(place - comment) + strlen(place); \
+    if (parsed < comment_len) { parsed++; }
 #define place_not_null \
     if (place == NULL) { \
       plc_free(L); \
@@ -1333,10 +1338,8 @@ void plc_fix_wrap(plCurve * const L) {
       return NULL; \
     }
     place_not_null;
-    parsed = strlen(place)+1;
     place = strtok(NULL, space); /* The constraint number */
     place_not_null;
-    parsed += strlen(place)+1;
     if (sscanf(place,"%d",&cst_num) != 1 ||
         cst_num < 1) {
       plc_free(L);
@@ -1369,7 +1372,7 @@ void plc_fix_wrap(plCurve * const L) {
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
-    parsed += strlen(place)+1;
+    token_parsed;
     if (strcasestr(place,"Fixed") != NULL) {
       cst_list[cst_num].kind = fixed;
       if (sscanf(&comment[parsed],"%lf %lf %lf",
@@ -1389,7 +1392,7 @@ void plc_fix_wrap(plCurve * const L) {
       for (i=0; i < 3; i++) {
         place = strtok(NULL, space); /* Step over the numbers */
         place_not_null;
-        parsed += strlen(place)+1;
+        token_parsed;
       }
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else if (strcasestr(place,"Line") != NULL) {
@@ -1413,7 +1416,7 @@ void plc_fix_wrap(plCurve * const L) {
       for (i=0; i < 6; i++) {
         place = strtok(NULL, space); /* Step over the numbers */
         place_not_null;
-        parsed += strlen(place)+1;
+        token_parsed;
       }
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else if (strcasestr(place,"Plane") != NULL) {
@@ -1437,7 +1440,7 @@ void plc_fix_wrap(plCurve * const L) {
       for (i=0; i < 4; i++) {
         place = strtok(NULL, space); /* Step over the numbers */
         place_not_null;
-        parsed += strlen(place)+1;
+        token_parsed;
       }
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else {
-- 
2.43.0


From 77f61ba0936ee83ce3f4bbcf07add57f57816e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:20 +0000
Subject: [PATCH 33/91] fix: plc_delete_arc keeps the colors of the remaining
 vertices

---
 src/plCurve.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 2cac1e9..b2adb1f 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2966,6 +2966,26 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
   }
 
     
+  static void plc_arc_colors(plCurve *newL,int newcp,const plCurve *L,int cp,int start)
+
+  /* Color component newcp of newL, whose vertices are those of component cp of L */
+  /* from start on (wrapping around), as these vertices were colored in L.        */
+
+  {
+    int i,cc = L->cp[cp].cc;
+    bool per_vertex = (cc == L->cp[cp].nv);
+
+    if (per_vertex || cc > newL->cp[newcp].nv) { cc = newL->cp[newcp].nv; }
+    plc_resize_colorbuf(newL,newcp,cc);
+
+    for(i=0;i<cc;i++) {
+
+      newL->cp[newcp].clr[i] = L->cp[cp].clr[per_vertex ? (start+i) % L->cp[cp].nv : i];
+
+    }
+
+  }
+
   plCurve *plc_delete_arc(plCurve *L,int cp,int vt1, int vt2)
 
   /* Delete a subarc from a component of a plCurve between vt1 and vt2    */
@@ -3009,6 +3029,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 	  }
 	  
 	  newL->cp[cp].nv = L->cp[cp].nv - (vt2+1);
+	  plc_arc_colors(newL,cp,L,cp,vt2+1);
 	  plc_fix_wrap(newL);
 
 	  return newL;
@@ -3018,6 +3039,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
       } else if (vt2 >= L->cp[cp].nv-1) { /* Cut off the end of the component. */
 
 	newL->cp[cp].nv = vt1;
+	plc_arc_colors(newL,cp,L,cp,0);
 	plc_fix_wrap(newL);
 
 	return newL;
@@ -3026,6 +3048,8 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
 	plc_add_component(newL,cp+1,L->cp[cp].nv-(vt2+1),true,0,&(L->cp[cp].vt[vt2+1]),NULL);
 	newL->cp[cp].nv = vt1;
+	plc_arc_colors(newL,cp,L,cp,0);
+	plc_arc_colors(newL,cp+1,L,cp,vt2+1);
 	plc_fix_wrap(newL);
 
 	return newL;
@@ -3052,6 +3076,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
 	}
 	newL->cp[cp].open = true;
+	plc_arc_colors(newL,cp,L,cp,vt2+1);
 	plc_fix_wrap(newL);
 
 	return newL;
@@ -3068,6 +3093,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
 	}
 	newL->cp[cp].open = true;
+	plc_arc_colors(newL,cp,L,cp,vt2+1);
 	plc_fix_wrap(newL);
 
 	return newL;
-- 
2.43.0


From bb0e06246979816b73bfd9ebfeae28265d3df8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:44 +0000
Subject: [PATCH 34/91] fix: pd_read_pdstor files elements under their own
 hash, whatever the file says

---
 src/pd_storage.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index c93aba5..57514c5 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -787,6 +787,7 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
     } else {
 
+      pd_regenerate_hash(pd); /* Elements are filed (and looked for) by their own hash. */
       pd_addto_pdstor(pdstor,pd,eq);
 
     }
-- 
2.43.0


From 765db595b2b1fce5d46cb68a8358901353e66e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:44 +0000
Subject: [PATCH 35/91] fix: pd_read_pdstor refuses partly signed elements
 instead of aborting

---
 src/pd_storage.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 57514c5..b0261b1 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -787,6 +787,23 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
     } else {
 
+      pd_idx_t cr;
+
+      for(cr=1;cr<pd->ncross;cr++) {
+
+	/* Stored codes have either all of their crossings set or none. */
+
+	if ((pd->cross[cr].sign == PD_UNSET_ORIENTATION) != (pd->cross[0].sign == PD_UNSET_ORIENTATION)) {
+
+	  if (PD_VERBOSE) { printf("pd_read_pdstor: Only some crossings of pd code %d are set.\n",elt); }
+	  pd_code_free(&pd);
+	  pd_free_pdstor(&pdstor);
+	  return NULL;
+
+	}
+
+      }
+
       pd_regenerate_hash(pd); /* Elements are filed (and looked for) by their own hash. */
       pd_addto_pdstor(pdstor,pd,eq);
 
-- 
2.43.0


From d02b0c3a55b71c0e7813bb30b953cd1e379b5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:26 +0000
Subject: [PATCH 36/91] fix: plc_random_rotate turns the curve over when the
 axis points straight down

---
 src/plCurve.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index b2adb1f..0e85028 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2835,10 +2835,22 @@ void plc_random_rotate(plCurve *link, plc_vector axis)
 
     /* Finally, we changed vertices, so we need to */
     
+    plc_fix_wrap(link);
+  } else if (zrand < 0) {
+
+    /* The axis points straight down: turn the link over. */
+
+    for(cp=0;cp < link->nc;cp++) {
+      for(vt=0;vt<link->cp[cp].nv;vt++) {
+	link->cp[cp].vt[vt].c[1] *= -1;
+	link->cp[cp].vt[vt].c[2] *= -1;
+      }
+    }
+
     plc_fix_wrap(link);
   }
 
-  // else z is essentially 0 so we'll just leave things as is
+  // else the axis already points in the (0,0,1) direction
 }
 
 
-- 
2.43.0


From 9fae39076da5a2abbdf7f996f4386357fe3b506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:26 +0000
Subject: [PATCH 37/91] fix: plc_s counts no edge after the last vertex of an
 open component

---
 src/plCurve.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 0e85028..bc2b33f 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -236,7 +236,9 @@ double plc_s(const plCurve * const L, const int cmp, const int vert)
 
   for(c = 0;c < cmp;c++) {
 
-    for(v = 1;v <= L->cp[c].nv; v++) {
+    /* An open component has no edge after its last vertex. */
+
+    for(v = 1;v < (L->cp[c].open ? L->cp[c].nv : L->cp[c].nv + 1); v++) {
 
       d = plc_M_sq_dist(L->cp[c].vt[v-1],L->cp[c].vt[v])  /* ok not to ; */
       s += sqrt(d);	
-- 
2.43.0


From 368770093d705924cac36e6f02dbec604cf30a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:20 +0000
Subject: [PATCH 38/91] fix: plc_read does not use the freed comment in its
 error messages

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index bc2b33f..8990597 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1347,10 +1347,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_NUM;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't parse constraint number from '%s'.\n",place);
+      free(comment); /* place points into it */
       return NULL;
     }
     if ((size_t)cst_num >= cst_list_len) {
@@ -1449,10 +1449,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_KIND;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Unrecognized constraint kind '%s'.\n",place);
+      free(comment); /* place points into it */
       return NULL;
     }
   }
-- 
2.43.0


From 9b3e84bd2281e959f4ca4f543e0fa6dc968c7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:47 +0000
Subject: [PATCH 39/91] fix: pd_is_alternating answers for the crossingless
 unknot

---
 src/pdcode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 5517c28..3f1d630 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2660,6 +2660,10 @@ bool pd_is_alternating(pd_code_t *pd)
 
   }
 
+  /* The edge of the crossingless unknot meets no crossings; it alternates vacuously. */
+
+  if (pd->ncross == 0) { return true; }
+
   pd_idx_t comp;
   pd_idx_t compedge;
 
-- 
2.43.0


From fb8a68de6d8f6c13662813ede550256372c22e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:09 +0000
Subject: [PATCH 40/91] fix: pd_homfly of the crossingless unknot is 1

---
 src/plcTopology.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index aa5335b..94980aa 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -287,6 +287,19 @@ char *pd_homfly_timeout(pd_code_t *pd, int timeout)
   char *ccode;
   char *homfly_lmpoly;
 
+  if (pd->ncross == 0) { /* The crossingless unknot has no crossing code to give to lmpoly. */
+
+    homfly_lmpoly = calloc(128,sizeof(char));
+    assert(homfly_lmpoly != NULL);
+    sprintf(homfly_lmpoly,"[[1]]N ");
+
+    char *unknot_homfly = lmpoly_to_latex(homfly_lmpoly);
+    free(homfly_lmpoly);
+
+    return unknot_homfly;
+
+  }
+
   ccode = pdcode_to_ccode(pd);
 
   if (PD_VERBOSE) {
-- 
2.43.0


From ec00f0140d453d2d770ee1ae10123a654431029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:28 +0000
Subject: [PATCH 41/91] fix: pd_classify does not free the caller's diagram

---
 src/plcTopology.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 94980aa..2c5a35b 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1656,7 +1656,6 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   }
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
-- 
2.43.0


From d7ed049b680ad4ac5906b813691dc43062c1d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:35 +0000
Subject: [PATCH 42/91] fix: plc_read_knottype does not free an interior
 pointer, counts the factors and bounds their indices

---
 src/plcTopology.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 2c5a35b..7e8b134 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1740,11 +1740,20 @@ plc_knottype *plc_read_knottype(const char *kt)
   plc_knottype *working_kt;
   int pc = 0;
   char *working_copy = calloc(strlen(kt)+10,sizeof(char));
+  char *strtok_ptr = NULL;
   strcpy(working_copy,kt);
-  int maxind[19] = {0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
+  int maxind[20] = {1, 0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
 
   working_kt = calloc(1,sizeof(plc_knottype));
-  while((primecomp = strtok_r(working_copy,"#",&working_copy)) != NULL) {
+  for(primecomp = strtok_r(working_copy,"#",&strtok_ptr);primecomp != NULL;primecomp = strtok_r(NULL,"#",&strtok_ptr)) {
+
+    if (pc == MAXPRIMEFACTORS) {
+      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
+	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
+      free(working_copy);
+      free(working_kt);
+      return NULL;
+    }
 
     if (sscanf(primecomp,"%d_%d",&(working_kt->cr[pc]),&(working_kt->ind[pc])) != 2) {
       fprintf(stderr,"plc_read_knottype: Could not parse prime component %s in knot type %s.\n",primecomp,kt);
@@ -1770,16 +1779,9 @@ plc_knottype *plc_read_knottype(const char *kt)
 
     pc++;
 
-    if (pc == MAXPRIMEFACTORS) {
-      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
-	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
-      free(working_copy);
-      free(working_kt);
-
-    }
-    
   }
 
+  working_kt->nf = pc;
   free(working_copy);
   return working_kt;
 }
-- 
2.43.0


From 845a797b98e2fbe2fb46adcdb8d055f9d6287b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:23 +0000
Subject: [PATCH 43/91] fix: twist knots with an even number of twists
 alternate

---
 src/pdcode_testcodes.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/pdcode_testcodes.c b/src/pdcode_testcodes.c
index 7b22e88..2d6cf6d 100644
--- a/src/pdcode_testcodes.c
+++ b/src/pdcode_testcodes.c
@@ -79,13 +79,31 @@ pd_code_t *pd_build_twist_knot(pd_idx_t n)
     
   pd_regenerate(pd);
 
-  /* Now we have an edge list and can assign crossing signs. It turns
-     out that this is trivial as all the crossings have positive sign. */
+  /* Now we have an edge list and can assign crossing signs. If the
+     number of twists is odd, all the crossings have positive sign.
+     If it's even, the clasp and the twist region have opposite signs.
+     In either case, the diagram alternates, so we can make every other
+     edge of the knot come in to its crossing as the overstrand. */
 
   pd_idx_t k;
-  for(k=0;k<pd->ncross;k++) { 
+  for(k=0;k<pd->comp[0].nedges;k+=2) { 
 
-    pd->cross[k].sign = PD_POS_ORIENTATION;
+    pd_idx_t e = pd->comp[0].edge[k];
+    pd_idx_t incoming,outgoing;
+
+    pd->cross[pd->edge[e].head].sign = PD_POS_ORIENTATION;
+    pd_overstrand_pos(pd,pd->edge[e].head,&incoming,&outgoing);
+    if (incoming != pd->edge[e].headpos) { pd->cross[pd->edge[e].head].sign = PD_NEG_ORIENTATION; }
+
+  }
+
+  if (pd->cross[0].sign == PD_NEG_ORIENTATION) { /* Use the mirror image with a positive first crossing */
+
+    for(k=0;k<pd->ncross;k++) {
+
+      pd->cross[k].sign = (pd->cross[k].sign == PD_POS_ORIENTATION) ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION;
+
+    }
 
   }
 
-- 
2.43.0


From 6d3c31d8d48107d7144aebd3da1267bef92d1d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:50 +0000
Subject: [PATCH 44/91] fix: pd_code_from_plCurve looks from another direction
 when the first one has a triple point

---
 src/plcTopology.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 7e8b134..c0d10e0 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1369,7 +1369,10 @@ pd_code_t *pd_code_from_plCurve(gsl_rng *rng, plCurve *L) {
 
     /* Step 2. Perturb to make it crossing-clean. */
 
-    plCurve *genericL = make_zprojection_generic(rng,L);
+    /* (The first attempt uses the original direction; if that can't be made
+       to work, we look from the random direction instead.) */
+
+    plCurve *genericL = make_zprojection_generic(rng,attempt_number == 0 ? L : workingL);
 
     if (pd_code_from_plCurve_verbose) {
 
-- 
2.43.0


From 3f30394dc2f55b77a6ecbcb12c896bddcea32cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:00 +0000
Subject: [PATCH 45/91] fix: pd_stareq_perm keeps the precomputed index in step
 with the permutation

---
 src/pd_perm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_perm.c b/src/pd_perm.c
index 41cf09b..80fa60b 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -501,6 +501,8 @@ void pd_stareq_perm(pd_perm_t *A,pd_perm_t *B)
   
   memcpy(A->map,newmap,n*sizeof(pd_idx_t));
   free(newmap);
+
+  pd_regenerate_pcidx(A);
 }
   
 unsigned int pd_perm_period(pd_perm_t *A) 
-- 
2.43.0


From 90c2c7cee85651b89c6ce797933dca458f4fe878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:27 +0000
Subject: [PATCH 46/91] fix: printing long permutations does not write past the
 buffer

---
 src/pd_cyclic.c   | 4 ++--
 src/pd_dihedral.c | 4 ++--
 src/pd_perm.c     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pd_cyclic.c b/src/pd_cyclic.c
index 8825e68..577c7c1 100644
--- a/src/pd_cyclic.c
+++ b/src/pd_cyclic.c
@@ -111,11 +111,11 @@ char  *pd_print_cyclic(void *cyclicP)
     for(i=0;i<c->n && chars_ptd < bufsize;i++) {
 
       chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d",c->map[i]); 
-      if (i != c->n-1) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
+      if (i != c->n-1 && chars_ptd < bufsize) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
 
     }
 
-    if (chars_ptd > bufsize) { 
+    if (chars_ptd >= bufsize) { 
 
       snprintf(buf,bufsize,"[CYCLIC > %d CHARS]",(int)(bufsize));
 
diff --git a/src/pd_dihedral.c b/src/pd_dihedral.c
index c57d274..08d2bb9 100644
--- a/src/pd_dihedral.c
+++ b/src/pd_dihedral.c
@@ -136,11 +136,11 @@ char  *pd_print_dihedral(void *dihedralP)
     for(i=0;i<d->n && chars_ptd < bufsize;i++) {
 
       chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d",d->map[i]); 
-      if (i != d->n-1) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
+      if (i != d->n-1 && chars_ptd < bufsize) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
 
     }
 
-    if (chars_ptd > bufsize) { 
+    if (chars_ptd >= bufsize) { 
 
       snprintf(buf,bufsize,"[DIHEDRAL > %d CHARS]",(int)(bufsize));
 
diff --git a/src/pd_perm.c b/src/pd_perm.c
index 80fa60b..2e1abe0 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -369,11 +369,11 @@ char *pd_print_perm(void *permP)
     for(i=0;i<perm->n && chars_ptd < bufsize;i++) {
 
       chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d",perm->map[i]); 
-      if (i != perm->n-1) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
+      if (i != perm->n-1 && chars_ptd < bufsize) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
 
     }
 
-    if (chars_ptd > bufsize) { 
+    if (chars_ptd >= bufsize) { 
 
       snprintf(buf,bufsize,"[PERM > %d CHARS]",(int)(bufsize));
 
-- 
2.43.0


From 7b15f3fcc743f98227cf03ae17d39b61fa419a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:24 +0000
Subject: [PATCH 47/91] fix: tangle contents behind a kink are found

---
 src/pd_tangles.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 992bceb..d3ed916 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -1015,11 +1015,13 @@ void tangle_contents_worker(pd_code_t *pd,pd_tangle_t *t,
   transverse_edge[0] = pd->cross[cr].edge[(pd->edge[edge].headpos+1)%4];
   transverse_edge[1] = pd->cross[cr].edge[(pd->edge[edge].headpos+3)%4];
 
-  if (pd->edge[transverse_edge[0]].tail == cr) {
+  if (pd->edge[transverse_edge[0]].tail == cr &&
+      pd->edge[transverse_edge[0]].tailpos == (pd->edge[edge].headpos+1)%4) {
 
     tangle_contents_worker(pd,t,transverse_edge[0],depth+1);
 
-  } else if (pd->edge[transverse_edge[1]].tail == cr) {
+  } else if (pd->edge[transverse_edge[1]].tail == cr &&
+      pd->edge[transverse_edge[1]].tailpos == (pd->edge[edge].headpos+3)%4) {
 
     tangle_contents_worker(pd,t,transverse_edge[1],depth+1);
 
-- 
2.43.0


From f65a363fe4e0c67640605ba1ddc0810da3e5a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:13 +0000
Subject: [PATCH 48/91] fix: pd_tangle_slide makes room for components that
 gain edges

---
 src/pd_tangles.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index d3ed916..6e81490 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3448,6 +3448,12 @@ end_anchor   | 	    Tangle     	 |
 
       pd_working->comp[i].edge[0] = pd_working->comp[i].edge[j];
 
+      /* The component may have gained edges: make room for all there are. */
+
+      pd_working->comp[i].edge = realloc(pd_working->comp[i].edge,
+					 (pd_working->nedges+2)*sizeof(pd_idx_t));
+      assert(pd_working->comp[i].edge != NULL);
+
       pd_idx_t next_edge;
       pd_or_t  next_or;
 
-- 
2.43.0


From 503d416480904ac50526d18be27431de513d0ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:13 +0000
Subject: [PATCH 49/91] fix: pd_tangle_slide follows complementary edges merged
 by the crossings it deletes

---
 src/pd_tangles.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 6e81490..4dc4e63 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2520,6 +2520,21 @@ end_anchor   | 	    Tangle     	 |
 
     if (has_unset) {
 
+      /* A complementary edge leading out of the tangle into this crossing is
+	 about to be merged into the edge across from it. */
+
+      for(k=0;k<t->nedges-(n-1);k++) {
+
+	pd_edge_t ce = pd_working->edge[complementary_edges[k]];
+
+	if (complementary_or[k] == out && ce.head == j) {
+
+	  complementary_edges[k] = pd_working->cross[j].edge[(ce.headpos+2)%4];
+
+	}
+
+      }
+
 	pd_crossing_delete(pd_working,j);
 
     }
-- 
2.43.0


From bab543e805f8210ff2b886249de5878d116b1482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:01 +0000
Subject: [PATCH 50/91] fix: pd_tangle_slide slides strands that cross a single
 tangle edge

---
 src/pd_tangles.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 4dc4e63..99dd53c 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2247,17 +2247,15 @@ void pd_tangle_slide_err(pd_code_t *pd,pd_tangle_t *t,
 
   /* First, we check the crossings involved in the overstrand. */
 
-  for(i=1;i<n-1;i++) {
+  for(i=0;i<n-1;i++) {
 
-    if (pd->edge[overstrand_edges[i]].tail == start_anchor ||
-	pd->edge[overstrand_edges[i]].head == start_anchor ) {
+    if (pd->edge[overstrand_edges[i]].head == start_anchor) {
 
       start_anchor_ok = false;
 
     }
 
-    if (pd->edge[overstrand_edges[i]].tail == end_anchor ||
-	pd->edge[overstrand_edges[i]].head == end_anchor) {
+    if (pd->edge[overstrand_edges[i]].head == end_anchor) {
 
       end_anchor_ok = false;
 
@@ -2404,6 +2402,19 @@ end_anchor   |                   |    +---start_anchor
 
   }
 
+  if (n == 2) { /* No internal edges: detach e[0] and e[1] from the crossing between them. */
+
+    pd_edge_t *e0 = &(pd_working->edge[overstrand_edges[0]]);
+    pd_edge_t *e1 = &(pd_working->edge[overstrand_edges[1]]);
+
+    pd_working->cross[e0->head].edge[e0->headpos] = PD_UNSET_IDX;
+    pd_working->cross[e1->tail].edge[e1->tailpos] = PD_UNSET_IDX;
+
+    e0->head = PD_UNSET_IDX; e0->headpos = PD_UNSET_POS;
+    e1->tail = PD_UNSET_IDX; e1->tailpos = PD_UNSET_POS;
+
+  }
+
   /* Step 3. We're now in the state:
 
 		  |  	   |
-- 
2.43.0


From 1c8bf18fd99408160f178fe42201c09935c295c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 51/91] fix: pd_tangle_slide signs the crossing when there is
 only one new one

---
 src/pd_tangles.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 99dd53c..817f5ba 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3243,6 +3243,23 @@ end_anchor   | 	    Tangle     	 |
 
     }
 
+    /* With a single new crossing there were no edges to add, but the
+       crossing still needs its sign. */
+
+    if (ncomplementary_edges == 1) {
+
+      pd_working->cross[pd->ncross].sign = PD_POS_ORIENTATION;
+      pd_idx_t in_overstrand, out_overstrand;
+      pd_overstrand(pd_working,pd->ncross,&in_overstrand,&out_overstrand);
+
+      if (overstrand_goes_OVER != (in_overstrand == overstrand_edges[0])) {
+
+	pd_working->cross[pd->ncross].sign = PD_NEG_ORIENTATION;
+
+      }
+
+    }
+
   }
 
   /* Step 6. Cleanup. At this point, we should have valid crossing data for a pd
-- 
2.43.0


From f2f8d967afd9e0b3834f9a41a2667a539a5594b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:08 +0000
Subject: [PATCH 52/91] fix: octrope_strutfile_read refuses negative component
 and vertex numbers

---
 src/octrope.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index c319f16..bbd6094 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2191,7 +2191,8 @@ void octrope_strutfile_read(plCurve *L,
 
     ts = (*strutlist)[i];
 
-    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc) {
+    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc ||
+        ts.component[0] < 0 || ts.component[1] < 0) {
 
       octrope_error_num = 66;
       sprintf(octrope_error_str,
@@ -2203,7 +2204,8 @@ void octrope_strutfile_read(plCurve *L,
     }
 
     if (ts.lead_vert[0] >= L->cp[ts.component[0]].nv ||
-        ts.lead_vert[1] >= L->cp[ts.component[1]].nv) {
+        ts.lead_vert[1] >= L->cp[ts.component[1]].nv ||
+        ts.lead_vert[0] < 0 || ts.lead_vert[1] < 0) {
 
       octrope_error_num = 67;
       sprintf(octrope_error_str,
-- 
2.43.0


From 9a9edc851372e183c77eea268e1a49aec1798bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:39 +0000
Subject: [PATCH 53/91] fix: octrope_struts loses no strut when its list
 overflows before the shortest one is found

---
 src/octrope.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/octrope.c b/src/octrope.c
index bbd6094..cd1bd9d 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -1363,6 +1363,9 @@ void cleanup_strutlist(octrope_strut *st, int *strut_count,
 
 #define v_neq(A,B) (A.c[0] != B.c[0] || A.c[1] != B.c[1] || A.c[2] != B.c[2])
 #define final_pv(Pl,vertex) (Pl.open && vertex == Pl.nv - 1)
+/* Set when check_boxes has to throw out a strut because the list is full. */
+static bool strut_dropped;
+
 #define dist_up_bound ((cutoff > 0) ? cutoff : *shortest+epsilon)
 /*
  * Take a box and either check for struts with those edges contained in it
@@ -1477,6 +1480,7 @@ void check_boxes(const plCurve *L, box *B, plc_vector verts[3],
                 }
 #endif
                 st_ptr = st;
+                strut_dropped = true;
               }
             }
             st_ptr->component[0] = bo_me->component;
@@ -1670,6 +1674,7 @@ int octrope_struts(plCurve *L,
 
   /* Mark the strut list as empty */
   strut_count = 0;
+  strut_dropped = false;
 
   /* Don't check first edge as struts can only be *
    * from an edge to one before it.               */
@@ -1685,6 +1690,24 @@ int octrope_struts(plCurve *L,
       &short_strut,cutoff,epsilon,strutlist,sl_size,&strut_count,pi_count); 
   }
 
+  /* If struts which belong on the list may have been thrown out before the  *
+   * shortest one was found, go through the edges again now that we know the *
+   * length that we are really looking for.                                  */
+  if (strut_dropped && cutoff == 0) {
+    double final_cutoff = short_strut + epsilon;
+    if (final_cutoff < DBL_MIN) { final_cutoff = DBL_MIN; }
+    strut_count = 0;
+    for (edge = num_edges - 1; edge > 0; edge--) { 
+      cmp = by_oct[edge].component;
+      vert = by_oct[edge].vertex;
+      verts[0] = L->cp[cmp].vt[vert-1];
+      verts[1] = L->cp[cmp].vt[vert];
+      verts[2] = L->cp[cmp].vt[vert+1];
+      check_boxes(L,B,verts,edge,final_pv(L->cp[cmp],vert+1),
+        &short_strut,final_cutoff,0,strutlist,sl_size,&strut_count,pi_count); 
+    }
+  }
+
   if (sl_size > 0 && strut_count > 0) {
     cleanup_strutlist(strutlist,&strut_count,
       (cutoff > 0) ? cutoff : short_strut + epsilon);
-- 
2.43.0


From a355dfee76b29a1ed8769d6b349c35f3940922ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:39 +0000
Subject: [PATCH 54/91] fix: plc_symmetrize restores the wraparound vertices

---
 src/symmetries.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/symmetries.c b/src/symmetries.c
index ccd9d2d..432570a 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -513,6 +513,10 @@ void plc_symmetrize(plCurve *L)
 	  
   free(point_covered);
 
+  /* We changed vertices, so we need to */
+
+  plc_fix_wrap(L);
+
 }
 
 void plc_symmetrize_variation(plCurve *L,plc_vector *buffer)
-- 
2.43.0


From 130d5cc7dbf81b6256a12869c835f899809f0256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:39 +0000
Subject: [PATCH 55/91] fix: plc_coordplanes_reflection_group builds the whole
 group and checks all of it

---
 src/symmetries.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/symmetries.c b/src/symmetries.c
index 432570a..cd253c5 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -411,11 +411,11 @@ plc_symmetry_group *plc_reflection_group(plCurve *L,plc_vector axis)
 
 plc_symmetry_group *plc_coordplanes_reflection_group(plCurve *L)
 
-/* Creates reflections over the x-y, y-z, and z-x planes. */
+/* Creates the group (Z/2Z)^3 generated by reflections over the x-y, y-z, and z-x planes. */
 
 {
   plc_symmetry_group *build;
-  build = plc_symmetry_group_new(4);
+  build = plc_symmetry_group_new(8);
 
   /* We now try to set up the group. */
 
@@ -432,15 +432,29 @@ plc_symmetry_group *plc_coordplanes_reflection_group(plCurve *L)
   plc_reflection_matrix(plc_build_vect(0,0,1),&A);
   build->sym[3] = plc_build_symmetry(&A,L);
 
+  /* The products of the reflections are in the group, too. */
+
+  plc_rotation_matrix(plc_build_vect(1,0,0),acos(-1),&A);
+  build->sym[4] = plc_build_symmetry(&A,L);
+
+  plc_rotation_matrix(plc_build_vect(0,1,0),acos(-1),&A);
+  build->sym[5] = plc_build_symmetry(&A,L);
+
+  plc_rotation_matrix(plc_build_vect(0,0,1),acos(-1),&A);
+  build->sym[6] = plc_build_symmetry(&A,L);
+
+  plc_identity_matrix(&A);
+  A[0][0] = A[1][1] = A[2][2] = -1;
+  build->sym[7] = plc_build_symmetry(&A,L);
+
   /* All elements are their own inverses */
 
-  build->inverse[0] = 0; build->inverse[1] = 1; 
-  build->inverse[2] = 2; build->inverse[3] = 3;
+  int i;
+  for(i=0;i<8;i++) { build->inverse[i] = i; }
 
   /* We need to scan and make sure the builds succeeded. */
 
-  int i;
-  for(i=0;i<2;i++) {
+  for(i=0;i<8;i++) {
 
     if (build->sym[i] == NULL) {
 
-- 
2.43.0


From 43ae4a5f092f607c615635ec40ef75791cd8d641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:39 +0000
Subject: [PATCH 56/91] fix: adding or dropping a component discards the
 symmetry group built for the old vertices

---
 src/plCurve.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 8990597..e43924d 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2101,6 +2101,9 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
   assert(add_as >= 0);
   assert(add_as <= L->nc);
 
+  /* The symmetry group does not know about the new vertices. */
+  plc_symmetry_group_free(&(L->G));
+
   /* Constraints stay with the components they were set on. */
   for (cst = L->cst; cst != NULL; cst = cst->next) {
     if (cst->cmp >= add_as) { cst->cmp++; }
@@ -2149,6 +2152,9 @@ void plc_drop_component(plCurve *L, const int cmp) {
   assert(cmp < L->nc);
   assert(L->nc > 0);
 
+  /* The symmetry group refers to the vertices which are about to go. */
+  plc_symmetry_group_free(&(L->G));
+
   /* The constraints on this component go with it, the others stay with theirs. */
   plc_unconstrain(L,cmp,0,L->cp[cmp].nv);
   for (cst = L->cst; cst != NULL; cst = cst->next) {
-- 
2.43.0


From b2b76cad91dee9b1c0e348913d7712b10798935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:39 +0000
Subject: [PATCH 57/91] fix: plc_whitten discards the symmetry group, which
 refers to the old order of the vertices

---
 src/plwhitten.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index e7f8a62..17673a4 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -96,6 +96,10 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
   plc_strand *newpos;
   int i;
 
+  /* The symmetry group refers to the vertices in their old order. */
+
+  plc_symmetry_group_free(&(L->G));
+
   /* First, create a new, permuted version of the strands in L */
 
   newpos = calloc(L->nc,sizeof(plc_strand));
-- 
2.43.0


From cf2c8cdccb3591bc8931f04333bc7059a68a8edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:39 +0000
Subject: [PATCH 58/91] fix: plc_random_rotate turns the symmetry group with
 the link

---
 src/plCurve.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index e43924d..1f903d4 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2823,6 +2823,36 @@ void plc_random_rotate(plCurve *link, plc_vector axis)
   double zrand = axis.c[2];
   double tmp = sqrt(1-zrand*zrand);
 
+  /* As in plc_rotate, the symmetry group has to turn with the link. */
+
+  if (link->G != NULL && (tmp > DBL_EPSILON || zrand < 0)) {
+
+    plc_matrix A,Ainv,*TAinv;
+    int i,j;
+
+    plc_identity_matrix(&A);
+
+    if (tmp > DBL_EPSILON) {
+      A[0][0] = -yrand/tmp;       A[0][1] =  xrand/tmp;
+      A[1][0] = -xrand*zrand/tmp; A[1][1] = -yrand*zrand/tmp; A[1][2] = tmp;
+      A[2][0] =  xrand;           A[2][1] =  yrand;           A[2][2] = zrand;
+    } else {
+      A[1][1] = A[2][2] = -1;
+    }
+
+    for(i=0;i<3;i++) { for(j=0;j<3;j++) { Ainv[i][j] = A[j][i]; } }
+
+    for(i=0;i<link->G->n;i++) {
+
+      TAinv = plc_matrix_matrix_multiply(link->G->sym[i]->transform,&Ainv);
+      free(link->G->sym[i]->transform);
+      link->G->sym[i]->transform = plc_matrix_matrix_multiply(&A,TAinv);
+      free(TAinv);
+
+    }
+
+  }
+
   if(tmp > DBL_EPSILON){
 
     double x, y, z;
-- 
2.43.0


From 1b9b7d43ae7be459b22c7e67462ddd1eda2ccd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:44 +0000
Subject: [PATCH 59/91] fix: room for the first chord in the spiral and teeth
 triangulations of a triangle

---
 src/plcToricSymplecticTriangulation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 8ea9482..5e8c67e 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -39,7 +39,7 @@ tsmcmc_triangulation_t tsmcmc_spiral_triangulation(int nedges)
   bool *vert_active = calloc(nedges,sizeof(bool));
   assert(vert_active != NULL);
 
-  tsmcmc_chord_t *chordsys = calloc(nedges-3,sizeof(tsmcmc_chord_t));
+  tsmcmc_chord_t *chordsys = calloc(nedges-2,sizeof(tsmcmc_chord_t));
   assert(chordsys != NULL);
 
   /* Start with all vertices active. */
@@ -162,7 +162,7 @@ tsmcmc_triangulation_t tsmcmc_teeth_triangulation(int nedges)
 /* Constructs a triangulation by "walking" across the polygon. */
 
 {
-  tsmcmc_chord_t *chordsys = calloc(nedges-3,sizeof(tsmcmc_chord_t *));
+  tsmcmc_chord_t *chordsys = calloc(nedges-2,sizeof(tsmcmc_chord_t));
   assert(chordsys != NULL);
   
   int chords_used;
-- 
2.43.0


From 708ec1894b303d00ef2ef2a136f2fe75f8dfedf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:30 +0000
Subject: [PATCH 60/91] fix: count the Gammas of the ips estimator correctly
 when the data runs out

---
 src/geyer_estimators.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index 511330e..d4dc79b 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -127,9 +127,10 @@ double ips_sigma_estimator_with_gammas(double *zero_meaned_data, int m,
   if (Gammas != NULL) { 
     
     *Gammas = internal_Gammas;
-    *N = k-2; 
+    *N = done_flag ? k-2 : k-1; 
     /* Remember that k got incremented on the way out of the loop when we detected the first negative,
-       AND that we wanted to throw that one out. */
+       AND that we wanted to throw that one out. If we simply ran out of data, there's nothing to throw
+       out (and if there are fewer than four data points, there are no Gammas at all). */
     
   } else { 
     
-- 
2.43.0


From db4675305a1d9f2319a5f31ef369f615dd2586d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:30 +0000
Subject: [PATCH 61/91] fix: geyer_ips_value sets ok when there are no samples

---
 src/geyer_estimators.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index d4dc79b..27c0153 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -681,6 +681,7 @@ double geyer_ips_value(geyer_ips_t *gips,double *error,bool *ok)
   if (gips->samples == 0) { 
 
     if (error != NULL) { *error = 0; } 
+    *ok = true;
     return 0;
 
   }
-- 
2.43.0


From 7e0cf807df456dda8413fb1c9848f7a6b066b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:30 +0000
Subject: [PATCH 62/91] fix: buffered ips estimator handles zero Gammas and a
 negative sum as the batch one does

---
 src/geyer_estimators.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index 27c0153..f5307b0 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -790,12 +790,16 @@ double geyer_ips_value(geyer_ips_t *gips,double *error,bool *ok)
     
   }
 
-  if (gips->Gamma[gips->N-1] < 0) { gips->N--; *ok = true; } /* The last Gamma was negative. */
+  if (gips->Gamma[gips->N-1] <= 0) { gips->N--; *ok = true; } /* The last Gamma was not positive. */
   else { *ok = false; } /* We computed all of the Gammas that we could, but they are still positive! */
   /* Now we can actually compute the estimator. */
 
   gips->sigma = -littlegamma[0]; 
   for(i=0;i<gips->N;i++) { gips->sigma += 2*gips->Gamma[i]; }
+
+  /* As above, the sum can be negative if we are far from convergence. */
+
+  if (gips->sigma < 0) { gips->sigma = GIPS_MAX(littlegamma[0],0); }
   gips->sigma = sqrt(gips->sigma); 
   
   *error = 1.96 * gips->sigma / sqrt(gips->samples);
-- 
2.43.0


From 431b1f7fb3d77fc1df4c75be97f828e4ed383485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:52 +0000
Subject: [PATCH 63/91] fix: flat triangles are embedded instead of producing
 NaN vertices

---
 src/plcToricSymplecticTriangulation.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 5e8c67e..1fcfda5 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -644,9 +644,12 @@ bool     tsmcmc_triangle_from_edgelengths(plc_vector *a, plc_vector *b, plc_vect
 
   }
   
-  double alpha;
+  double alpha,cosalpha;
 
-  alpha = acos((B*B + C*C - A*A)/(2.0*B*C));
+  /* If the triangle is (nearly) flat, roundoff can push the cosine out of [-1,1]. */
+
+  cosalpha = (B*B + C*C - A*A)/(2.0*B*C);
+  alpha = acos(cosalpha > 1.0 ? 1.0 : (cosalpha < -1.0 ? -1.0 : cosalpha));
 
   *a = plc_build_vect(0,0,0);
   *b = plc_build_vect(C,0,0);
-- 
2.43.0


From df4875815735dbd5596bb3c00529ff1bbdd8d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:52 +0000
Subject: [PATCH 64/91] fix: room for the log file name in
 tsmcmc_run_params_MathematicaForm

---
 src/plcToricSymplectic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index fc1202b..80141e4 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1050,7 +1050,7 @@ char    *tsmcmc_run_stats_MathematicaForm(tsmcmc_run_stats run_stats)
 char    *tsmcmc_run_params_MathematicaForm(tsmcmc_run_parameters run_params)
 
 {
-  char *ret = calloc(1024,sizeof(char));
+  char *ret = calloc(1024 + sizeof(run_params.logfile_name),sizeof(char));
   assert(ret != NULL);
 
   sprintf(ret,
-- 
2.43.0


From 7c0e79e1e65d47b646b415b33082f0b5687276bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:52 +0000
Subject: [PATCH 65/91] fix: room for every length and angle in
 tsmcmc_configuration_MathematicaForm

---
 src/plcToricSymplectic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 80141e4..0bb35bb 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1071,7 +1071,7 @@ char    *tsmcmc_run_params_MathematicaForm(tsmcmc_run_parameters run_params)
 char    *tsmcmc_configuration_MathematicaForm(tsmcmc_triangulation_t T,double *edge_lengths,double *diagonal_lengths,double *dihedral_angles)
 {
 
-  char *ret = calloc(2048,sizeof(char));
+  char *ret = calloc(2048 + 32*(T.nedges + 2*T.ndiags),sizeof(char)); /* %g never needs 32 characters */
   assert(ret != NULL);
 
   sprintf(ret,
-- 
2.43.0


From ad4338b8e7b1221b81b5ef4666d065c389fdff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:05 +0000
Subject: [PATCH 66/91] fix: logged sample mean is the mean of the samples

---
 src/plcToricSymplectic.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 0bb35bb..803d904 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1204,7 +1204,7 @@ double   tsmcmc_equilateral_expectation(gsl_rng *rng,double integrand(plCurve *L
 
 	char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+		i,configuration,ival,(double)(gips->sample_sum/(long double)(gips->samples > 0 ? gips->samples : 1)));
 	fflush(run_params.logfile);
     }
 
@@ -1362,7 +1362,7 @@ double   tsmcmc_confined_equilateral_expectation(gsl_rng *rng,double integrand(p
 
       char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
       fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-	      i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+	      i,configuration,ival,(double)(gips->sample_sum/(long double)(gips->samples > 0 ? gips->samples : 1)));
       fflush(run_params.logfile);
       free(configuration);
 
@@ -1524,7 +1524,7 @@ double   tsmcmc_fixed_ftc_expectation(gsl_rng *rng,double integrand(plCurve *L,
 
 	char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+		i,configuration,ival,(double)(gips->sample_sum/(long double)(gips->samples > 0 ? gips->samples : 1)));
 	fflush(run_params.logfile);
     }
 
-- 
2.43.0


From 17f64a80a5f06e8583bd77aa8c5a8181ff26a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:05 +0000
Subject: [PATCH 67/91] fix: free the logged configuration

---
 src/plcToricSymplectic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 803d904..76deebb 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1206,6 +1206,7 @@ double   tsmcmc_equilateral_expectation(gsl_rng *rng,double integrand(plCurve *L
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
 		i,configuration,ival,(double)(gips->sample_sum/(long double)(gips->samples > 0 ? gips->samples : 1)));
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
@@ -1526,6 +1527,7 @@ double   tsmcmc_fixed_ftc_expectation(gsl_rng *rng,double integrand(plCurve *L,
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
 		i,configuration,ival,(double)(gips->sample_sum/(long double)(gips->samples > 0 ? gips->samples : 1)));
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
-- 
2.43.0


From b4cea9ebc1739f88b1d0fe84f4e70f0c15fc9b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:05 +0000
Subject: [PATCH 68/91] fix: confined expectation reports an infinite error
 when the estimator fails, as the others do

---
 src/plcToricSymplectic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 76deebb..2c7a9c6 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1396,7 +1396,7 @@ double   tsmcmc_confined_equilateral_expectation(gsl_rng *rng,double integrand(p
 
   }
 
-  if (error != NULL) { *error = err; }
+  if (error != NULL) { if (ok) { *error = err; } else { *error = 1.0/0.0; } }
   geyer_ips_free(&gips);
   tsmcmc_triangulation_free(T);
 
-- 
2.43.0


From 75c3bb9197475be22f9dcde1e2b7994ddbeb9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:41 +0000
Subject: [PATCH 69/91] fix: triangles on a diagonal of length zero are
 embedded with the right edge lengths

---
 src/plcToricSymplecticTriangulation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 1fcfda5..59164b9 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -704,6 +704,12 @@ bool tsmcmc_embed_polygon_worker(plCurve *L,tsmcmc_triangulation_t T,
 
     current_normal = parent_normal;
 
+    /* There is no direction along the parent edge either, so pick one: any unit vector normal to parent_normal. */
+
+    frame[1] = plc_cross_prod(parent_normal,
+			      (fabs(parent_normal.c[0]) < 0.9) ? plc_build_vect(1,0,0) : plc_build_vect(0,1,0));
+    frame[1] = plc_normalize_vect(frame[1],&ok);
+
   } else { /* Use the dihedral data. */
 
     frame[2] = plc_cross_prod(frame[0],frame[1]);
-- 
2.43.0


From b204f6c44e0b7f68c9f0afc9485853227f66a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:03 +0000
Subject: [PATCH 70/91] fix: plc_is_sap rejects vertices that are too close

---
 src/plcRandomSap.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/plcRandomSap.c b/src/plcRandomSap.c
index 2894ed3..001f59b 100644
--- a/src/plcRandomSap.c
+++ b/src/plcRandomSap.c
@@ -167,9 +167,9 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
 		       
-		return false;
-
 	      }
+
+	      return false;
 	      
 	    }
 	    
@@ -183,14 +183,18 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 	  
 	  for(vt2=0;vt2<L->cp[cp2].nv;vt2++) {
 	    
-	     if (verbose) {
+	    if (plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]) < 1.0-1e-10) {
+
+	      if (verbose) {
 
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
 		       
-		return false;
+	      }
 
-	     }
+	      return false;
+
+	    }
 
 	  }
 
-- 
2.43.0


From 76a592b140f23039fe3a40f58f2e8e8489023ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:03 +0000
Subject: [PATCH 71/91] fix: plc_loop_closure reads the closing arc from its
 only component

---
 src/plcRandomPolygon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 13ab911..cf7bc3f 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1239,7 +1239,7 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
   assert(newVerts != NULL);
 
   for(vt=0;vt<openL->cp[cp].nv;vt++) { newVerts[vt] = openL->cp[cp].vt[vt]; }
-  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[cp].vt[ca_vt]; }
+  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[0].vt[ca_vt]; }
 
   assert(ca_vt == closureArc->cp[0].nv-1 && vt == nEdges); /* These should finish at the same time */
 
-- 
2.43.0


From ceafbe6d2b25f579ca9bc738334d19bcf58f4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:03 +0000
Subject: [PATCH 72/91] fix: plc_loop_closure fails when no closing arc exists

---
 src/plcRandomPolygon.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index cf7bc3f..16ce118 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1210,6 +1210,14 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
 
   closureArc = plc_random_ftc_internal(r,nEdges - (openL->cp[cp].nv-1),closureLength,ftc,false);
 
+  if (closureArc == NULL) {
+
+    fprintf(stderr,"plc_loop_closure: Can't close gap of %g with %d edge(s) of total length %g.\n",
+	    ftc,nEdges - (openL->cp[cp].nv-1),closureLength);
+    return NULL;
+
+  }
+
   /* There are two cases. If the original curve is already (numerically) closed, there is no operation here. */
   /* Otherwise, we'll need to rotate and translate the closureArc into place. */
 
-- 
2.43.0


From f76d6515113901762042ce50ea4c10932ed7d631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:03 +0000
Subject: [PATCH 73/91] fix: rejection sampler of equilateral polygons may need
 more than 10000 trials

---
 src/plcRandomPolygon.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 16ce118..94a4805 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -929,15 +929,15 @@ plCurve *plc_random_equilateral_closed_polygon(gsl_rng *rng,int n)
 
       safety_check++;
 
-    } while (!distances_ok && safety_check < 10000);
+    } while (!distances_ok && safety_check < 100000000);
 
     /* Now we've generated distances up to d[n-3] without violating
        a sum condition. We still have to check that 0 <= d[n-3] <= 2,
        so that we can set d[n-2]=1 without violating an inequality. */
 
-  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < 10000);
+  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < 100000000);
 
-  assert(safety_check < 10000);
+  assert(safety_check < 100000000);
 
   /* We can now set the last distance to be 1.0 */
 
-- 
2.43.0


From e380963274fe44aeb1a5e2fb379255046c4dbc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:23 +0000
Subject: [PATCH 74/91] fix: plc_dihedral_angles returns two angles per
 quadruple and keeps to its cap

---
 src/plc_dihedrals.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plc_dihedrals.c b/src/plc_dihedrals.c
index bc7890c..52cb51c 100644
--- a/src/plc_dihedrals.c
+++ b/src/plc_dihedrals.c
@@ -41,6 +41,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 #include <time.h>
 
 #ifdef HAVE_GSL_GSL_COMBINATION_H
@@ -61,7 +62,8 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
 {
   int n = L->cp[0].nv;
 
-  unsigned int max_ndihedrals = (n*(n-1)*(n-2)*(n-3)*(n-4))/4;
+  double combos = (double)(n)*(n-1)*(n-2)*(n-3)/12.0; /* 2 (n 4) */
+  unsigned int max_ndihedrals = combos < UINT_MAX ? (unsigned int)(combos) : UINT_MAX;
 
   if (*ndihedrals == 0) { 
 
@@ -107,6 +109,8 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
     angles[i] = plc_angle(plc_normal(a,b,d,&ok1),plc_normal(b,c,d,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
     i++;
+
+    if (i == *ndihedrals) { break; }
     
     angles[i] = plc_angle(plc_normal(a,b,c,&ok1),plc_normal(c,d,a,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
-- 
2.43.0


From b49ac251b6a5b9105ac001f9d18056a1dd3cd337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:23 +0000
Subject: [PATCH 75/91] fix: plc_random_vect covers the whole sphere

---
 src/vector.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 5b8e18f..4ab311d 100755
--- a/src/vector.c
+++ b/src/vector.c
@@ -205,19 +205,18 @@ plc_vector plc_random_vect()
   int i;
   plc_vector R;
   double V1 = 0.0, V2 = 0.0;
-  double S = 0.0;
+  double S = 2.0;
   double sqt;
 
   /*@+loopexec@*/
   for (i = 0; i < 1000 &&
-              (S - 1.0 > DBL_EPSILON ||
-               S - 0.01 < DBL_EPSILON); i++) {
+              S > 1.0; i++) {
     V1 = 2*(double)(rand())/(double)(RAND_MAX) - 1;
     V2 = 2*(double)(rand())/(double)(RAND_MAX) - 1;
     S = V1*V1 + V2*V2;
   }
   /*@=loopexec@*/
-  assert(S - 0.01 >= DBL_EPSILON && S - 1.0 <= DBL_EPSILON);
+  assert(S <= 1.0);
   sqt = sqrt(1-S);
   R.c[0] = 2*V1*sqt;
   R.c[1] = 2*V2*sqt;
-- 
2.43.0


From 5f00b5fc011954e6c19814473dde6c5fbc28b736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:37 +0000
Subject: [PATCH 76/91] fix: plc_dihedral_angle accepts NULL for ok when it
 succeeds, as when it fails

---
 src/vector.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 4ab311d..f2a7e01 100755
--- a/src/vector.c
+++ b/src/vector.c
@@ -417,10 +417,9 @@ double plc_dihedral_angle(plc_vector A, plc_vector B, plc_vector C, plc_vector D
   /* With these three vectors, we should be able to compute the dihedral. */
   /* If we got this far, we'll get a result. */
 
-  *ok = true;
-
-  double theta = plc_angle(normABC,normACD,ok);
-  if (!(*ok)) { return 0; } 
+  double theta = plc_angle(normABC,normACD,&local_ok);
+  if (ok != NULL) { *ok = local_ok; }
+  if (!local_ok) { return 0; } 
 
   /* We have the angle. The question is how the angle is oriented. */
 
-- 
2.43.0


From 458efc0e37c496c2aee77ed7181c5599624c00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:12 +0000
Subject: [PATCH 77/91] fix: plc_convert_from_spline reads no color past the
 last vertex of a closed strand

---
 src/splines.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/splines.c b/src/splines.c
index 251f6e7..4abd3b8 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -600,11 +600,12 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
       /* And interpolate the colors */
       if (do_colors) {
+        int chi = shi % spL->cp[comp].ns; /* On a closed strand, the last arc ends at vertex 0 */
         L->cp[comp].clr[i] = plc_build_color(
-            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[shi].r,
-            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[shi].g,
-            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[shi].b,
-            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[shi].alpha);
+            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[chi].r,
+            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[chi].g,
+            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[chi].b,
+            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[chi].alpha);
       }
     }
 
-- 
2.43.0


From 349a663afb3edd708cecf4270b288c5810ae791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:12 +0000
Subject: [PATCH 78/91] fix: plc_convert_from_spline reaches the end of an open
 strand whatever the rounding

---
 src/splines.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/splines.c b/src/splines.c
index 4abd3b8..e4bdd3e 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -584,6 +584,12 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
       s = s_max*i/L->cp[comp].nv;
 
+      /* Rounding may not take us past the end of an open strand. */
+
+      if (spL->cp[comp].open && s > spL->cp[comp].svals[spL->cp[comp].ns-1]) {
+        s = spL->cp[comp].svals[spL->cp[comp].ns-1];
+      }
+
       /* Search to make sure that slo and shi bracket our current s.*/
 
       while (spL->cp[comp].svals[shi] <= s && 
-- 
2.43.0


From 4b0eafb076247a634620ca9df24b9c7a8fc2f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:47 +0000
Subject: [PATCH 79/91] fix: nplc_sq_dist returns the square of the distance,
 not the dot product

---
 src/nvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector.c b/src/nvector.c
index a326ddd..282e6c1 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -205,7 +205,7 @@ inline double nplc_sq_dist(nplc_vector A, nplc_vector B) {
   int i,n;
   double ret=0;
   n = nplc_vect_dim(A,B);
-  for(i=0;i<n;i++) { ret += A.c[i] * B.c[i]; }
+  for(i=0;i<n;i++) { ret += (A.c[i] - B.c[i]) * (A.c[i] - B.c[i]); }
   return ret;
 }
 
-- 
2.43.0


From e678f7cc9c6c7be0ecbe43da1f96c2724e8e9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:47 +0000
Subject: [PATCH 80/91] fix: nplc_vect_buf_free frees the buffer as well as the
 vectors in it

---
 src/nvector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nvector.c b/src/nvector.c
index 282e6c1..b507752 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -93,6 +93,8 @@ void nplc_vect_buf_free(int bufsize,nplc_vector *buf)
 
   }
 
+  free(buf);
+
 }
 
 int nplc_vect_dim(nplc_vector A,nplc_vector B) 
-- 
2.43.0


From 49338be7eccb8edeecb88f5b4de68b7dafdabfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:47 +0000
Subject: [PATCH 81/91] fix: nplc_write writes every coordinate of a vertex,
 however long the line

---
 src/nplCurve.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 309087e..3d3edac 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -764,8 +764,6 @@ void nplc_write(FILE *outfile, nplCurve * const L) {
   int i,j;                  /* Counters for the for loops */
   int nverts = 0;           /* Total number of vertices of all components */
   int colors = 0;           /* Total number of colors of all components */
-  char outstr[80] = "";     /* So we can wrap the vertex lines */
-  char outstr2[80] = "";    /* Again for wrapping */
   int cst_num;              /* This constraint */
   int **cst_nums = NULL;    /* All constraint numbers */
   nplc_constraint *cst;  /* Current constraint */
@@ -863,17 +861,14 @@ void nplc_write(FILE *outfile, nplCurve * const L) {
   for (i=0; i<L->nc; i++) {
     fprintf(outfile,"# Component %d\n",i);
     for (j=0; j<L->cp[i].nv; j++) {
-      (void)snprintf(outstr,sizeof(outstr),"%s",
-          nplc_vect_clist(L->cp[i].vt[j]));
+      fprintf(outfile,"%s",nplc_vect_clist(L->cp[i].vt[j]));
       if (cst_nums[i][j] != 0) {
-        strcpy(outstr2,outstr);
-        (void)snprintf(outstr,sizeof(outstr),
-                       "%s # Cst: %d",outstr2,cst_nums[i][j]);
+        fprintf(outfile," # Cst: %d",cst_nums[i][j]);
       }
       /* Here is where we will eventually write out the quantifiers, wrapping
        * as necessary */
-      /* Now complete the string. */
-      fprintf(outfile,"%s\n",outstr);
+      /* Now complete the line. */
+      fprintf(outfile,"\n");
     }
   }
 
-- 
2.43.0


From 143742bc9e32abf5c17c4270864ddd8ee2aff96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:47 +0000
Subject: [PATCH 82/91] fix: nplc_read refuses files without the (N)VECT
 keyword and dimensions below one

---
 src/nplCurve.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 3d3edac..9da06e4 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -1140,7 +1140,8 @@ void nplc_fix_wrap(nplCurve * const L) {
                                   /*@out@*/ int *error_num,
                                   /*@out@*/ char error_str[],
                                             size_t error_str_len) {
-  int dim;
+  int dim = 0;
+  int keyword = 0; /* Set once the whole of the keyword has been matched */
   nplCurve *L;
   int nverts = 0, ncomp = 0, ncolors = 0;
   int *nvarray, *ccarray;
@@ -1162,11 +1163,12 @@ void nplc_fix_wrap(nplCurve * const L) {
   *error_num = 0;
 
   /* First, we check for the '(N)VECT' keyword. */
-  if (fscanf(file,"%dVECT ",&dim) != 1) {
+  if (fscanf(file,"%dVECT%n ",&dim,&keyword) != 1 || keyword == 0 || dim < 1) {
 
     fseek(file,0,SEEK_SET); /* Rewind and try again- this might be an ordinary VECT file.*/
 
-    if (fscanf(file," VECT ") == EOF) {
+    keyword = 0;
+    if (fscanf(file," VECT%n ",&keyword) == EOF || keyword == 0) {
       *error_num = NPLC_E_NO_VECT;
       (void)snprintf(error_str,error_str_len,
 		     "nplc_read: Couldn't find (N)VECT keyword.\n");
-- 
2.43.0


From 247aec713c630d6e974c2d999269b009de98409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:47 +0000
Subject: [PATCH 83/91] fix: nplc_read refuses components without vertices and
 negative numbers of colors

---
 src/nplCurve.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 9da06e4..fd78e40 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -1218,6 +1218,15 @@ void nplc_fix_wrap(nplCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (nvarray[i] == 0) { /* Every component has at least one vertex */
+      *error_num = NPLC_E_BAD_CVRT_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "nplc_read: Component %d has no vertices.\n",i);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
     /* A negative number of vertices indicates a CLOSED component. */
     open[i] = (nvarray[i] >= 0);
     nvarray[i] = abs(nvarray[i]);
@@ -1237,6 +1246,15 @@ void nplc_fix_wrap(nplCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (ccarray[i] < 0) {
+      *error_num = NPLC_E_BAD_CLR_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "nplc_read: Component %d has %d colors.\n",i,ccarray[i]);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
-- 
2.43.0


From f9846c8c008e82a2f1b7edcc5563dcd0887100c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:09 +0000
Subject: [PATCH 84/91] fix: nplc_component sets the wrap-around vertices of
 the new curve

---
 src/nplCurve.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index fd78e40..27af965 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -422,7 +422,9 @@ nplCurve *nplc_component(int cp,nplCurve *L)
     Lcp->cp[0].clr[i] = L->cp[cp].clr[i];
 
   }
-  
+
+  nplc_fix_wrap(Lcp);
+
   return Lcp;
 
 }
-- 
2.43.0


From a7b96b01792ccd37ba356a78e9d1ef7f16bb827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:09 +0000
Subject: [PATCH 85/91] fix: nplc_random_vect works in every dimension

---
 src/nvector.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nvector.c b/src/nvector.c
index b507752..5983a91 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -319,11 +319,16 @@ nplc_vector nplc_random_vect(int n)
 
     for(i=0;i<n;i++) {
       
-      ret.c[i] = 2*(double)(rand())/(double)(RAND_MAX) - 1;
+      /* Normal coordinates (Box-Muller): their direction is uniform on the
+	 sphere in any dimension, while the part of the cube that lies in the
+	 ball vanishes as the dimension grows. */
+
+      ret.c[i] = sqrt(-2*log(((double)(rand())+1.0)/((double)(RAND_MAX)+1.0)))
+	*cos(2*3.14159265358979323846*(double)(rand())/((double)(RAND_MAX)+1.0));
     
     }
 
-    if (nplc_norm(ret) < 1.0 && nplc_norm(ret) > 0.1) {
+    if (nplc_norm(ret) > 0.1) {
 
       nrm = nplc_normalize_vect(ret,NULL);
       nplc_vect_free(&ret);
-- 
2.43.0


From a2630f6bc97d3a4f3ee38ed2104a32620b1b8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:47 +0000
Subject: [PATCH 86/91] fix: HOMFLY polynomials keep coefficients larger than
 an int

---
 src/polynomials.c | 24 ++++++++++++------------
 src/polynomials.h |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 2592d96..7efbab4 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -49,7 +49,7 @@ int monomial_cmp(const void *A,const void *B)
 
   }
 
-  return a->coeff - b->coeff;
+  return (a->coeff > b->coeff) - (a->coeff < b->coeff);
 
 }
 
@@ -191,7 +191,7 @@ homfly_polynomial_t *lmpoly_to_polynomial(char *lmout)
 
       /* Process the coefficient with sscanf */
 
-      if (sscanf(&(lmoutput[i]),"%d",&(homfly->mono[mono_count].coeff)) != 1) {
+      if (sscanf(&(lmoutput[i]),"%ld",&(homfly->mono[mono_count].coeff)) != 1) {
 
 	fprintf(stderr,"Couldn't process string %s.\n",&(lmoutput[i]));
 	exit(1);
@@ -248,7 +248,7 @@ char *poly_to_mathematica(homfly_polynomial_t *homfly)
 
     if (i > 0) { sprintf(buffer," + "); strcat(output,buffer); }
 
-    sprintf(buffer,"(%d)",homfly->mono[i].coeff); strcat(output,buffer);
+    sprintf(buffer,"(%ld)",homfly->mono[i].coeff); strcat(output,buffer);
 
     if (homfly->mono[i].l != 0) {
       sprintf(buffer,"*a^(%d)",homfly->mono[i].l); strcat(output,buffer);
@@ -277,7 +277,7 @@ char *poly_to_latex(homfly_polynomial_t *homfly)
 
     if (i > 0) {
 
-      if ((int)(homfly->mono[i].coeff) > 0) { sprintf(buffer," + "); strcat(output,buffer); }
+      if (homfly->mono[i].coeff > 0) { sprintf(buffer," + "); strcat(output,buffer); }
       else { sprintf(buffer," - "); strcat(output,buffer); }
 
     } else {
@@ -286,9 +286,9 @@ char *poly_to_latex(homfly_polynomial_t *homfly)
 
     }
 
-    if (abs((int)(homfly->mono[i].coeff)) != 1 || (homfly->mono[i].l == 0 && homfly->mono[i].m == 0)) {
+    if (labs(homfly->mono[i].coeff) != 1 || (homfly->mono[i].l == 0 && homfly->mono[i].m == 0)) {
 
-      sprintf(buffer,"%d",abs((int)(homfly->mono[i].coeff))); strcat(output,buffer);
+      sprintf(buffer,"%ld",labs(homfly->mono[i].coeff)); strcat(output,buffer);
 
     }
 
@@ -442,18 +442,18 @@ int mspan(monomial_t *poly,int nmonos) {
 }
 
 
-void write_lmpoly_lcoeff(char *buf,int coeff,int l)
+void write_lmpoly_lcoeff(char *buf,long coeff,int l)
 
 {
   char writebuf[256];
 
   if (l == 0) {
 
-    sprintf(writebuf,"[%d] ",coeff); strcat(buf,writebuf);
+    sprintf(writebuf,"[%ld] ",coeff); strcat(buf,writebuf);
 
   } else {
 
-    sprintf(writebuf,"%d ",coeff); strcat(buf,writebuf);
+    sprintf(writebuf,"%ld ",coeff); strcat(buf,writebuf);
 
   }
 
@@ -507,7 +507,7 @@ void write_lmpoly_mline(char *buf,monomial_t *mline,int nmonos)
 
   /* Now write the first coefficient */
 
-  write_lmpoly_lcoeff(buf,(int)(mline[0].coeff),(int)(mline[0].l));
+  write_lmpoly_lcoeff(buf,mline[0].coeff,(int)(mline[0].l));
 
   int i;
 
@@ -520,7 +520,7 @@ void write_lmpoly_mline(char *buf,monomial_t *mline,int nmonos)
 
     /* Now actually write the coefficient */
 
-    write_lmpoly_lcoeff(buf,(int)(mline[i].coeff),(int)(mline[i].l));
+    write_lmpoly_lcoeff(buf,mline[i].coeff,(int)(mline[i].l));
 
   }
 
@@ -669,7 +669,7 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 
     }
 
-    if (sscanf(monostring," %d a^%d z^%d ",
+    if (sscanf(monostring," %ld a^%d z^%d ",
 	       &(homfly->mono[i].coeff),&(homfly->mono[i].l), &(homfly->mono[i].m)) != 3) {
 
       pd_error( SRCLOC ,"failed to decode monomial %s", NULL, monostring);
diff --git a/src/polynomials.h b/src/polynomials.h
index 436ff3a..6cae3ea 100644
--- a/src/polynomials.h
+++ b/src/polynomials.h
@@ -32,7 +32,7 @@
 
 typedef struct monomial_struct {
 
-    int coeff;
+    long coeff;
     int l;  /* Power of l in this monomial */
     int m;  /* Power of m in this monomial */
     
-- 
2.43.0


From 5a3bf55bd5de8d9badf0cfd12bc43036e1ff1c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 87/91] fix: KnotTheory_to_polynomial allocates the whole
 polynomial

---
 src/polynomials.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 7efbab4..a31bab9 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -649,7 +649,7 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 
   }
 
-  homfly_polynomial_t *homfly = calloc(1,sizeof(homfly_polynomial_t *));
+  homfly_polynomial_t *homfly = calloc(1,sizeof(homfly_polynomial_t));
   assert(homfly != NULL);
   homfly->mono = calloc(nterms,sizeof(monomial_t));
   assert(homfly->mono != NULL);
-- 
2.43.0


From 7753b2f8c45a15fa50061da9fefd86bff3f8ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 88/91] fix: lmpoly_to_polynomial leaves room for rows without
 spaces

---
 src/polynomials.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index a31bab9..33ae467 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -159,10 +159,11 @@ homfly_polynomial_t *lmpoly_to_polynomial(char *lmout)
 
   /* We now have the initialmpower set up. */
   /* We need to count the actual number of monomials in the strings. This
-     is certainly overestimated the number of spaces in the initial string. */
+     is certainly overestimated by the number of separators in the initial string. */
 
   int mono_count = 0;
-  for(i=0;lmoutput[i];i++) { mono_count += (lmoutput[i] == ' '); }
+  for(i=0;lmoutput[i];i++) { mono_count += (lmoutput[i] == ' ' || lmoutput[i] == 'N'); }
+  mono_count++; /* Zero coefficients are read into the next free monomial, too. */
 
   /* Now we can create a buffer for the monomials themselves. */
 
-- 
2.43.0


From 1d23c4bc8a49dc4e57bd879db7c36c4dd2b46163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 89/91] fix: product_polynomial drops terms which cancel

---
 src/polynomials.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 33ae467..6111d0d 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -380,14 +380,14 @@ homfly_polynomial_t *product_polynomial(homfly_polynomial_t *pA, homfly_polynomi
 
     } else {
 
-      nFin++;
+      if (finishedProduct->mono[nFin].coeff != 0) { nFin++; } /* Terms which cancelled are overwritten */
       finishedProduct->mono[nFin] = rawProduct[i];
 
     }
 
   }
 
-  nFin++;
+  if (finishedProduct->mono[nFin].coeff != 0) { nFin++; }
   free(rawProduct);
 
   finishedProduct->nmonomials = nFin;
-- 
2.43.0


From 7b455a577bee033264fe017399f9fc26a84d20ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 90/91] fix: polynomial_to_lmpoly allocates room for the whole
 text

---
 src/polynomials.c | 44 ++++++++++++--------------------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 6111d0d..dcb6dcb 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -412,37 +412,6 @@ int lmpoly_cmp(const void *A,const void *B)
   }
 }
 
-int lspan(monomial_t *poly,int nmonos) {
-
-  int lowl = INT_MAX, hil = INT_MIN;
-  int i;
-
-  for(i=0;i<nmonos;i++) {
-
-    lowl = (poly[i].l < lowl) ? poly[i].l : lowl;
-    hil  = (poly[i].l > hil)  ? poly[i].l : hil;
-
-  }
-
-  return hil - lowl;
-}
-
-int mspan(monomial_t *poly,int nmonos) {
-
-  int lowm = INT_MAX, him = INT_MIN;
-  int i;
-
-  for(i=0;i<nmonos;i++) {
-
-    lowm = (poly[i].m < lowm) ? poly[i].m : lowm;
-    him  = (poly[i].m > him)  ? poly[i].m : him;
-
-  }
-
-  return him - lowm;
-}
-
-
 void write_lmpoly_lcoeff(char *buf,long coeff,int l)
 
 {
@@ -558,7 +527,18 @@ char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
      span in m and the span in l. */
 
   char *outbuf;
-  outbuf = calloc(lspan(sortPoly,nmonos)*mspan(sortPoly,nmonos)*256,sizeof(char));
+  int lowl = 0, hil = 0, lowm = 0, him = 0; /* Every row shows l^0, and there is always a row for m^0 */
+
+  for(i=0;i<nmonos;i++) {
+
+    lowl = (sortPoly[i].l < lowl) ? sortPoly[i].l : lowl;
+    hil  = (sortPoly[i].l > hil)  ? sortPoly[i].l : hil;
+    lowm = (sortPoly[i].m < lowm) ? sortPoly[i].m : lowm;
+    him  = (sortPoly[i].m > him)  ? sortPoly[i].m : him;
+
+  }
+
+  outbuf = calloc((size_t)(hil - lowl + 1)*(him - lowm + 1)*32 + 32,sizeof(char));
   assert(outbuf != 0);
 
   monomial_t *mline;
-- 
2.43.0


From cf6bb91fe8e8869b31f4fcd69ba51e74c8259c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 91/91] fix: polynomial_to_lmpoly marks the m^0 row when it has
 no terms

---
 src/polynomials.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index dcb6dcb..470b39a 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -507,6 +507,14 @@ void write_lmpoly_mline(char *buf,monomial_t *mline,int nmonos)
 
 }
 
+void write_lmpoly_placeholder(char *buf,int m)
+
+/* Writes a row without terms; the m^0 row has to be marked even then. */
+
+{
+  strcat(buf,(m == 0) ? "[[0]]N" : "[0]N");
+}
+
 char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
 
 /* Returns a buffer giving the polynomial in the (slightly weird) lmpoly format */
@@ -550,6 +558,9 @@ char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
   lsize = 1;
   mline[0] = sortPoly[0];
 
+  int mrow;
+  for(mrow=0;mrow<sortPoly[0].m;mrow++) { write_lmpoly_placeholder(outbuf,mrow); }
+
   for(i=1;i<nmonos;i++) {
 
     if (mline[lsize-1].m == sortPoly[i].m) { /* Part of the same line, push onto it. */
@@ -566,7 +577,7 @@ char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
       int mcount = mline[0].m+1;
       for(;mcount<sortPoly[i].m;mcount++) { /* Add placeholder lines. */
 
-	sprintf(writebuf,"[0]N");strcat(outbuf,writebuf);
+	write_lmpoly_placeholder(outbuf,mcount);
 
       }
 
@@ -582,6 +593,8 @@ char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
   /* We have a last line, so write it. */
   write_lmpoly_mline(outbuf,mline,lsize);
 
+  for(mrow=sortPoly[nmonos-1].m+1;mrow<=0;mrow++) { write_lmpoly_placeholder(outbuf,mrow); }
+
   /* Now add a trailing space */
   sprintf(writebuf," "); strcat(outbuf,writebuf);
 
-- 
2.43.0

