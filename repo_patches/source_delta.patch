From 773635602f06d2041641a18ccea85267bb30ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:57 +0000
Subject: [PATCH 01/74] fix: read_targets must not accept truncated or
 unreadable target files

fscanf() returns EOF, not 0, at the end of the file, so an empty or cut file
was reported as a complete target list with uninitialised or stale contents.
---
 liboptv/src/tracking_frame_buf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index a75b4c6..c01c0db 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -59,7 +59,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
         goto handle_error;
     }
 
-    if (fscanf(FILEIN, "%d\n", &num_targets) == 0) {
+    if (fscanf(FILEIN, "%d\n", &num_targets) != 1 || num_targets < 0) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
     }
@@ -70,11 +70,15 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
 		  &(buffer[tix].nx),   &(buffer[tix].ny),
 		  &(buffer[tix].sumg), &(buffer[tix].tnr) );
       
-      if (scanf_ok == 0) {
+      if (scanf_ok != 8) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
       }
 	}
+    if (ferror(FILEIN)) {
+        printf("Read error in file: %s\n", filein);
+        goto handle_error;
+    }
     
     fclose (FILEIN);
 	return num_targets;
-- 
2.43.0


From 0d7d72cebb72f0e43f28e26172fe709f39298cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 02/74] fix: read_path_frame must recognise truncated frame
 files

The number of points in the header was ignored and EOF counted as a record
that was read. A file cut at a record boundary, or a cut linkage or prio file,
passed as a complete frame.
---
 liboptv/src/tracking_frame_buf.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index c01c0db..db91007 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -235,12 +235,13 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     FILE *filein, *linkagein = NULL, *prioin = NULL;
     char fname[STR_MAX_LEN];
     int read_res = 0, targets = -1, alt_link = 0;
+    int num_points, num_links; /* announced in the files' first line */
     double discard; /* For position values that are to be read again from a 
                        differnt file. */
     
     /* File format: first line contains the number of points, then each line is
-    a record of path and correspondence info. We don't need the nuber of points
-    because we read to EOF anyway. */
+    a record of path and correspondence info. The number of points tells a
+    complete file from one that was cut short. */
     
     sprintf(fname, "%s.%d", corres_file_base, frame_num);
     filein = fopen (fname, "r");
@@ -250,8 +251,8 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         goto finalize;
     }
     
-    read_res = fscanf(filein, "%d\n", &read_res);
-    if (!read_res) goto finalize;
+    read_res = fscanf(filein, "%d\n", &num_points);
+    if (read_res != 1) goto finalize;
     
     if (linkage_file_base != NULL) {
         sprintf(fname, "%s.%d", linkage_file_base, frame_num);
@@ -263,8 +264,8 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             goto finalize;
         }
     
-        read_res = fscanf(linkagein, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        read_res = fscanf(linkagein, "%d\n", &num_links);
+        if (read_res != 1 || num_links != num_points) goto finalize;
     }
     
     if (prio_file_base != NULL) {
@@ -277,8 +278,8 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             goto finalize;
         }
     
-        read_res = fscanf(prioin, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        read_res = fscanf(prioin, "%d\n", &num_links);
+        if (read_res != 1 || num_links != num_points) goto finalize;
     }
     
     targets = 0;
@@ -286,7 +287,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         if (linkagein != NULL) {
             read_res = fscanf(linkagein, "%4d %4d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
-            if (!read_res) {
+            if (read_res != 5) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
@@ -302,7 +303,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             read_res = fscanf( prioin, "%4d %4d %lf %lf %lf %d\n",
                 &read_res, &read_res, &discard, &discard, &discard,
                 &(path_buf->prio) );
-            if (!read_res) {
+            if (read_res != 6) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
@@ -339,6 +340,10 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         path_buf++;
     } while (!feof(filein));
     
+    if (targets != num_points || ferror(filein) ||
+        (linkagein && ferror(linkagein)) || (prioin && ferror(prioin)))
+        targets = -1;
+    
 finalize:
     if (filein != NULL) fclose(filein);
     if (linkagein != NULL) fclose(linkagein);
-- 
2.43.0


From 9d3c84163fd9b9b270679619c1fd9ba8f864d8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 03/74] fix: read links to particles numbered 10000 and up

The field width in the scan format cut longer particle numbers apart and
shifted all fields that follow.
---
 liboptv/src/tracking_frame_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index db91007..6141e2f 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -285,7 +285,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     targets = 0;
     do {
         if (linkagein != NULL) {
-            read_res = fscanf(linkagein, "%4d %4d %lf %lf %lf\n",
+            read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
             if (read_res != 5) {
                 printf("Error with linkage file format in: %s.%d\n",
@@ -300,7 +300,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
         
         if (prioin != NULL) {
-            read_res = fscanf( prioin, "%4d %4d %lf %lf %lf %d\n",
+            read_res = fscanf( prioin, "%d %d %lf %lf %lf %d\n",
                 &read_res, &read_res, &discard, &discard, &discard,
                 &(path_buf->prio) );
             if (read_res != 6) {
-- 
2.43.0


From 00efe33f9ece766d041630a0ba25b5414336bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 04/74] fix: report failed writes of frames and targets

Data that did not reach the disk (full disk, I/O error, error on close) was
reported as written.
---
 liboptv/src/tracking_frame_buf.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 6141e2f..cfdf4f6 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -141,7 +141,8 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
     success = 1;
 
 finalize:
-    if (FILEOUT != NULL) fclose (FILEOUT);
+    /* Buffered data may fail to reach the disk only now. */
+    if (FILEOUT != NULL && fclose (FILEOUT) != 0) success = 0;
     return success;
 }
 
@@ -425,9 +426,20 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     success = 1;
 
 finalize:
-    if (corres_file != NULL) fclose(corres_file);
-    if (linkage_file != NULL) fclose(linkage_file);
-    if (prio_file != NULL) fclose(prio_file);
+    /* Errors of the buffered writes above are kept in the file's state, or
+       come up on closing. */
+    if (corres_file != NULL) {
+        if (ferror(corres_file)) success = 0;
+        if (fclose(corres_file) != 0) success = 0;
+    }
+    if (linkage_file != NULL) {
+        if (ferror(linkage_file)) success = 0;
+        if (fclose(linkage_file) != 0) success = 0;
+    }
+    if (prio_file != NULL) {
+        if (ferror(prio_file)) success = 0;
+        if (fclose(prio_file) != 0) success = 0;
+    }
     
     return success;
 }
-- 
2.43.0


From b555d7d330de4cfc5f138de6637cdf8eb7b6b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 05/74] fix: write_targets must name files as read_targets and
 its documentation do

For frame numbers below 0 the number was added to the name on writing only.
---
 liboptv/src/tracking_frame_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index cfdf4f6..2aec9f4 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -110,7 +110,7 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
     int	tix, printf_ok, success = 0;
     char fileout[STR_MAX_LEN + 1];
     
-    if (frame_num == 0){
+    if (frame_num <= 0){
         sprintf(fileout, "%s%s", file_base, "_targets");
     } else {
         sprintf(fileout, "%s%04d%s", file_base, frame_num, "_targets");
-- 
2.43.0


From e650cc0e1c3c3f9448d041048427af275d465ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 06/74] fix: read frames without particles instead of losing
 their targets

A frame with no particles was treated as unreadable: its targets were not
read, and tracking overwrote them with those of another frame. A particle added
to it was written before the start of the particle array. The count of -1 that
tracking stores for such a frame could not be read at all.
---
 liboptv/src/track.c              |  2 ++
 liboptv/src/tracking_frame_buf.c | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index b439874..46ddf23 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -691,6 +691,8 @@ void add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]) {
     corres *ref_corres;
     target **ref_targets;
     
+    /* A frame without particles is marked by a count of -1. */
+    if (frm->num_parts < 0) frm->num_parts = 0;
     num_parts = frm->num_parts;
     ref_path_inf = &(frm->path_info[num_parts]);
     vec_copy(ref_path_inf->x, pos);
diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 2aec9f4..9308838 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -242,7 +242,8 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     
     /* File format: first line contains the number of points, then each line is
     a record of path and correspondence info. The number of points tells a
-    complete file from one that was cut short. */
+    complete file from one that was cut short. Tracking stores -1 as the number
+    of points of a frame without any. */
     
     sprintf(fname, "%s.%d", corres_file_base, frame_num);
     filein = fopen (fname, "r");
@@ -284,6 +285,8 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     }
     
     targets = 0;
+    if (num_points <= 0) goto finalize;
+    
     do {
         if (linkagein != NULL) {
             read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
@@ -715,15 +718,21 @@ void fb_prev(framebuf_base *self) {
  */
 int fb_disk_read_frame_at_end(framebuf_base *self_base, int frame_num, int read_links) {
     framebuf* self = (framebuf*)self_base;
+    frame *frm = self->base.buf[self->base.buf_len - 1];
+    int success;
     
     if (read_links) {
-        return read_frame(self->base.buf[self->base.buf_len - 1], self->corres_file_base,
+        success = read_frame(frm, self->corres_file_base,
             self->linkage_file_base, self->prio_file_base, 
             self->target_file_base, frame_num);
     } else {
-        return read_frame(self->base.buf[self->base.buf_len - 1], self->corres_file_base,
+        success = read_frame(frm, self->corres_file_base,
             NULL, NULL, self->target_file_base, frame_num);
     }
+    
+    /* Tracking marks a frame that has no particles by a count of -1. */
+    if (frm->num_parts == 0) frm->num_parts = -1;
+    return success;
 }
 
 /* fb_write_frame_from_start() writes the frame to the first position in the ring.
-- 
2.43.0


From 449f91a57eff67cf8239833958b7ee6692508371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 07/74] fix: frames that cannot be read must not leave or
 destroy other data

After a failed read the frame kept the targets of the frame that used its
memory before. Tracking searched those, and then overwrote the files of the
unreadable frame with them.
---
 liboptv/include/tracking_frame_buf.h |  1 +
 liboptv/src/tracking_frame_buf.c     | 22 ++++++++++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/liboptv/include/tracking_frame_buf.h b/liboptv/include/tracking_frame_buf.h
index fa2a8f7..812bf96 100644
--- a/liboptv/include/tracking_frame_buf.h
+++ b/liboptv/include/tracking_frame_buf.h
@@ -72,6 +72,7 @@ typedef struct {
     int num_cams, max_targets;
     int num_parts; /* Number of 3D particles in the correspondence buffer */
     int *num_targets; /* Pointer to array of 2D particle counts per image. */
+    int unreadable; /* The last attempt to read the frame failed. */
 } frame;
 
 void frame_init(frame *new_frame, int num_cams, int max_targets);
diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 9308838..b557b27 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -473,6 +473,7 @@ void frame_init(frame *new_frame, int num_cams, int max_targets) {
     new_frame->num_cams = num_cams;
     new_frame->max_targets = max_targets;
     new_frame->num_parts = 0;
+    new_frame->unreadable = 0;
 }
 
 /* free_frame() frees all memory allocated for the frame arrays.
@@ -516,8 +517,9 @@ void free_frame(frame *self) {
  *   between the name and the frame number.
  *
  * Returns:
- * True on success, false otherwise. In case of failure, the state of frame is
- * undefined.
+ * True on success, false otherwise. In case of failure, the frame is left
+ * without particles and targets, and write_frame() will not overwrite stored
+ * data with it.
  */
 int read_frame(frame *self, char *corres_file_base, char *linkage_file_base,
     char *prio_file_base, char **target_file_base,
@@ -525,9 +527,10 @@ int read_frame(frame *self, char *corres_file_base, char *linkage_file_base,
 {
     int cam;
     
+    self->unreadable = 0;
     self->num_parts = read_path_frame(self->correspond, self->path_info,
         corres_file_base, linkage_file_base, prio_file_base, frame_num);
-    if (self->num_parts == -1) return 0;
+    if (self->num_parts == -1) self->unreadable = 1;
     
     /* Prevent crashes by testing for initial allocation */
     if (self->num_targets == 0) return 0;
@@ -535,10 +538,14 @@ int read_frame(frame *self, char *corres_file_base, char *linkage_file_base,
     for (cam = 0; cam < self->num_cams; cam++) {
         self->num_targets[cam] = read_targets(
             self->targets[cam], target_file_base[cam], frame_num);
-        if (self->num_targets[cam] == -1) return 0;
+        if (self->num_targets[cam] == -1) self->unreadable = 1;
     }
+    if (!self->unreadable) return 1;
     
-    return 1;
+    /* Leave nothing of what was read, or of the frame held before. */
+    self->num_parts = 0;
+    for (cam = 0; cam < self->num_cams; cam++) self->num_targets[cam] = 0;
+    return 0;
 }
 
 /* write_frame() writes all of the frame associated data: correspondnces,
@@ -565,6 +572,9 @@ int write_frame(frame *self, char *corres_file_base, char *linkage_file_base,
 {
     int cam, status;
     
+    /* Nothing is known about a frame that could not be read. */
+    if (self->unreadable) return 0;
+    
     status = write_path_frame(self->correspond, self->path_info,
         self->num_parts, corres_file_base, linkage_file_base, prio_file_base,
         frame_num);
@@ -731,7 +741,7 @@ int fb_disk_read_frame_at_end(framebuf_base *self_base, int frame_num, int read_
     }
     
     /* Tracking marks a frame that has no particles by a count of -1. */
-    if (frm->num_parts == 0) frm->num_parts = -1;
+    if (success && frm->num_parts == 0) frm->num_parts = -1;
     return success;
 }
 
-- 
2.43.0


From d4d45bc1aff93b7d1940043556e6c5c356bcd273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 08/74] fix: initialise the Y limits of a tracking run

volumedimension() only extends the limits it is given, so that the Y range for
added particles depended on what the memory held before.
---
 liboptv/src/tracking_run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 8c983ae..d40ca58 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -67,6 +67,7 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
     tr->lmax = norm((tpar->dvxmin - tpar->dvxmax), \
                     (tpar->dvymin - tpar->dvymax), \
                     (tpar->dvzmin - tpar->dvzmax));
+    tr->ymin = tr->ymax = 0; /* extended by volumedimension() as needed */
     volumedimension(&(vpar->X_lay[1]), &(vpar->X_lay[0]), &(tr->ymax),
                     &(tr->ymin), &(vpar->Zmax_lay[1]), &(vpar->Zmin_lay[0]),
                     vpar, cpar, cal);
-- 
2.43.0


From fbd7092fc798fd18e07c1b817a5763ccb8c29fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 09/74] fix: set all correspondences of an added particle

Those of absent cameras were left over from an earlier frame and got stored.
---
 liboptv/src/track.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 46ddf23..a007112 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -700,6 +700,8 @@ void add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]) {
     
     ref_corres = &(frm->correspond[num_parts]);
     ref_targets = frm->targets;
+    for (cam = frm->num_cams; cam < TR_MAX_CAMS; cam++)
+        ref_corres->p[cam] = CORRES_NONE;
     for (cam = 0; cam < frm->num_cams; cam++) {
         ref_corres->p[cam] = CORRES_NONE;
         
-- 
2.43.0


From d501f256e2b9ecbc6453b1e4e5ad11db69f42e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 10/74] fix: start the run statistics anew when tracking is
 restarted

---
 liboptv/src/track.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index a007112..e0f8a5d 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -46,6 +46,9 @@
 */
 void track_forward_start(tracking_run *tr) {
     int step;
+    
+    tr->npart = tr->nlinks = 0;
+    
     /* Prime the buffer with first frames */
     for (step = tr->seq_par->first; 
          step < tr->seq_par->first + TR_BUFSPACE - 1; 
-- 
2.43.0


From 5d7034e2d8db37c1ebd43f17a58ee8d969bea205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 11/74] fix: do not track with frames left over from an earlier
 run

In a sequence of three frames the last step searched the frame before the
first one, which held data of a run done before with the same object.
---
 liboptv/src/track.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index e0f8a5d..5cba050 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -45,7 +45,8 @@
       a frame buffer with 4 positions.
 */
 void track_forward_start(tracking_run *tr) {
-    int step;
+    int step, cam;
+    frame *before; /* position of the frame before the first */
     
     tr->npart = tr->nlinks = 0;
     
@@ -58,6 +59,11 @@ void track_forward_start(tracking_run *tr) {
         fb_next(tr->fb);
     }
     fb_prev(tr->fb);
+    
+    /* There is no such frame, only what an earlier run may have left. */
+    before = tr->fb->buf[0];
+    before->num_parts = 0;
+    for (cam = 0; cam < before->num_cams; cam++) before->num_targets[cam] = 0;
 }
 
 /* reset_foundpix_array() sets default values for foundpix objects in an array.
-- 
2.43.0


From 7fe3af1b3a9f8161c0c889118ffbfee82251392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 12/74] fix: read_sequence_par must not accept incomplete files

fscanf() returns EOF, not 0, at the end of the file.
---
 liboptv/src/parameters.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 785328d..c827dd7 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -38,15 +38,16 @@ sequence_par* read_sequence_par(char *filename, int num_cams) {
 
     for (cam = 0; cam < num_cams; cam++) {
         read_ok = fscanf(par_file, "%s\n", line);
-        if (read_ok == 0) goto handle_error;
+        if (read_ok != 1) goto handle_error;
         
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) == 0)
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) != 1)
         goto handle_error;
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) == 0)    
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) != 1)    
         goto handle_error;
+    if (ferror(par_file)) goto handle_error;
 
     fclose(par_file);
     return ret;
-- 
2.43.0


From f8ee928ac5e2ea57e0cc4feb99ee248d9c3edf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 13/74] fix: compare_sequence_par compared the image names to
 themselves

---
 liboptv/src/parameters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index c827dd7..47fadca 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -100,7 +100,7 @@ int compare_sequence_par(sequence_par *sp1, sequence_par *sp2) {
         return 0; /*not equal*/
 
     for (cam = 0; cam < sp1->num_cams; cam++) {
-        if (strcmp(sp1->img_base_name[cam],sp1->img_base_name[cam]) !=0){
+        if (strcmp(sp1->img_base_name[cam],sp2->img_base_name[cam]) !=0){
             return 0; /*not equal*/
         }
     }
-- 
2.43.0


From 12dad0c9ebb125bdb974b7613515b1ab0afa2285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 14/74] fix: read_track_par and read_volume_par must report
 missing and cut files

A missing file crashed the reader, and an incomplete one was accepted with
uninitialised values.
---
 liboptv/src/parameters.c | 50 ++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 47fadca..c405b52 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -157,15 +157,17 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dangle)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dacc)) == 0) goto handle_error;
-    if(fscanf(fpp, "%d\n", &(ret->add)) == 0) goto handle_error;
+    if (fpp == NULL) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dangle)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dacc)) != 1) goto handle_error;
+    if(fscanf(fpp, "%d\n", &(ret->add)) != 1) goto handle_error;
+    if (ferror(fpp)) goto handle_error;
     fclose (fpp);
     
     ret->dsumg = ret->dn = ret->dnx = ret->dny = 0;
@@ -174,7 +176,7 @@ parsing to fail */
 handle_error:
     printf("Error reading tracking parameters from %s\n", filename);
     free(ret);
-    fclose (fpp);
+    if (fpp != NULL) fclose (fpp);
     return NULL;
 }
 
@@ -228,27 +230,29 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) == 0) goto handle_error;
+    if (fpp == NULL) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) != 1) goto handle_error;
     
-    if(fscanf(fpp, "%lf\n", &(ret->cnx)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cny)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cn)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->csumg)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->eps0)) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cnx)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cny)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cn)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->csumg)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->eps0)) != 1) goto handle_error;
     
+    if (ferror(fpp)) goto handle_error;
     fclose (fpp);
     return ret;
 
 handle_error:
     printf("Error reading volume parameters from %s\n", filename);
     free(ret);
-    fclose(fpp);
+    if (fpp != NULL) fclose(fpp);
     return NULL;
 }
 
-- 
2.43.0


From c3cbff52448e81e292650aa8b5d8188946958837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 15/74] fix: read_control_par and read_target_par must report
 incomplete reads

The former accepted cut files and left the file open on a bad first line; the
latter accepted a value cut by a read error.
---
 liboptv/src/parameters.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index c405b52..3868c5b 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -358,31 +358,33 @@ parsing to fail */
 
     if (fscanf(par_file, "%d\n", &num_cams) != 1) {
         printf("Could not read number of cameras from %s", filename);
+        fclose(par_file);
         return NULL;
     }
     ret = new_control_par(num_cams);
     for (cam = 0; cam < ret->num_cams; cam++) {
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
         strncpy(ret->cal_img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
     
-    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imx)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imy)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->chfield)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) == 0) goto handle_error; 
+    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imx)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imy)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->chfield)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) != 1) goto handle_error; 
     
+    if (ferror(par_file)) goto handle_error;
     fclose(par_file);
     ret->mm->nlay = 1;
     return ret;
@@ -500,7 +502,8 @@ target_par* read_target_par(char *filename) {
         || !(fscanf(file, "%d  %d", &ret->nxmin, &ret->nxmax)==2) /* pixels per target,  */
         || !(fscanf(file, "%d  %d", &ret->nymin, &ret->nymax)==2) /* abs, in x, in y     */
         || !(fscanf(file, "%d", &ret->sumg_min)==1)               /* min. sumg */
-        || !(fscanf(file, "%d", &ret->cr_sz)==1))                 /* size of crosses */
+        || !(fscanf(file, "%d", &ret->cr_sz)==1)                  /* size of crosses */
+        || ferror(file))
     {
         printf("Error reading target recognition parameters from %s\n", filename);
         free(ret);
-- 
2.43.0


From 781ef3f23660d91c30206bc89961fe7238d3bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 16/74] fix: write_target_par crashed if the file could not be
 created

---
 liboptv/src/parameters.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 3868c5b..399c2ff 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -541,8 +541,10 @@ int compare_target_par(target_par *targ1, target_par *targ2) {
 void write_target_par(target_par *targ, char *filename) {
     FILE *file = fopen(filename, "w");
 
-    if (file == NULL)
+    if (file == NULL) {
         printf("Can't create file: %s\n", filename);
+        return;
+    }
 
     fprintf(file, "%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d",
             targ->gvthres[0],
-- 
2.43.0


From 9319b1229776fb2d2a5aefd7fa044ec6e373a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 17/74] fix: read_ori must close its file on errors and check
 the distortion values

Incomplete distortion data was accepted although documented as a failure.
---
 liboptv/src/calibration.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 6e7a973..a9b2c20 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -100,22 +100,22 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
   scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf",
 	  &(Ex->x0), &(Ex->y0), &(Ex->z0),
 	  &(Ex->omega), &(Ex->phi), &(Ex->kappa));
-  if (scan_res != 6) return 0;
+  if (scan_res != 6) goto handle_error;
   
   /* Exterior rotation matrix */
   for (i=0; i<3; i++) {
     scan_res = fscanf (fp, " %lf %lf %lf",
         &(Ex->dm[i][0]), &(Ex->dm[i][1]), &(Ex->dm[i][2]));
-    if (scan_res != 3) return 0;
+    if (scan_res != 3) goto handle_error;
   }
 
   /* Interior */
   scan_res = fscanf (fp, "%lf %lf %lf", &(I->xh), &(I->yh), &(I->cc));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   /* Glass */
   scan_res = fscanf (fp, "%lf %lf %lf", &(G->vec_x), &(G->vec_y), &(G->vec_z));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3 || ferror(fp)) goto handle_error;
   
   fclose(fp);
   
@@ -127,6 +127,7 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
     scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf %lf",
         &(addp->k1), &(addp->k2), &(addp->k3), &(addp->p1), &(addp->p2),
         &(addp->scx), &(addp->she));
+    if (scan_res != 7 || ferror(fp)) goto handle_error;
     fclose (fp);
   } else {
     printf("no addpar fallback used\n"); // Waits for proper logging.
-- 
2.43.0


From 39cb252271caad1e997e84f06faab60d18af71bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 18/74] fix: write_ori must report failed writes, and success
 without add_file

Data that did not reach the disk was reported as written.
---
 liboptv/src/calibration.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index a9b2c20..1b166ee 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -40,10 +40,12 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   fprintf (fp,"\n    %8.4f %8.4f\n    %8.4f\n", I.xh, I.yh, I.cc);
   fprintf (fp,"\n    %20.15f %20.15f  %20.15f\n", G.vec_x, G.vec_y, G.vec_z);
   
-  fclose (fp);
+  success = !ferror(fp);
+  if (fclose (fp) != 0) success = 0;
   fp = NULL;
   
-  if (add_file == NULL) goto finalize;
+  if (!success || add_file == NULL) goto finalize;
+  success = 0;
   fp = fopen (add_file, "w");
   if (! fp) {
         printf("Can't open ascii file: %s\n", add_file);
@@ -51,10 +53,10 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   }
   fprintf (fp, "%.8f %.8f %.8f %.8f %.8f %.8f %.8f", ap.k1, ap.k2, ap.k3, ap.p1, ap.p2,
     ap.scx, ap.she);
-  success = 1;
+  success = !ferror(fp);
   
 finalize:
-    if (fp != NULL) fclose (fp);
+    if (fp != NULL && fclose (fp) != 0) success = 0;
     return success;
 }
 
-- 
2.43.0


From 90a9682027b4b41833710cddae62cf60eb247334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 19/74] fix: read_calblock and read_sortgrid_par must report
 incomplete reads

A calibration block cut inside a point, or by a read error, was accepted with
the points before.
---
 liboptv/src/sortgrid.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index cc72b4c..4d8623f 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -139,7 +139,7 @@ int read_sortgrid_par(char *filename) {
     
     fpp = fopen(filename, "r");
     if(!fpp) goto handle_error;
-    if(fscanf(fpp, "%d\n",  &eps) == 0) goto handle_error;
+    if(fscanf(fpp, "%d\n",  &eps) != 1 || ferror(fpp)) goto handle_error;
     fclose (fpp);
     
     return eps;
@@ -163,7 +163,7 @@ handle_error:
 */
 vec3d* read_calblock(int *num_points, char* filename) {
     FILE* fpp = NULL;
-    int	dummy, k = 0;
+    int	dummy, scan_res, k = 0;
     vec3d fix;
     vec3d *ret = (vec3d *) malloc(1); /* reallocated every line */
        
@@ -174,15 +174,15 @@ vec3d* read_calblock(int *num_points, char* filename) {
     }
     
     /* Single-pass read-reallocate.*/
-    while (fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
-            &(fix[1]),&(fix[2])) == 4) 
+    while ((scan_res = fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
+            &(fix[1]),&(fix[2]))) == 4) 
     {
         ret = (vec3d *) realloc(ret, (k + 1) * sizeof(vec3d));
         vec_copy(ret[k], fix);
         k++;
     }
     
-    if (k == 0) {
+    if (k == 0 || scan_res != EOF || ferror(fpp)) {
         printf("Empty of badly formatted file: %s\n", filename);
         goto handle_error;
     }
-- 
2.43.0


From 69fab77eb791b3490bc5c5d4501bff82daa15fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 20/74] fix: read_man_ori_fix must report incomplete files and
 close them once

Missing numbers were taken from uninitialised memory, and the file was closed
twice if the calibration block could not be read.
---
 liboptv/src/orientation.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 21f23c2..d8c130d 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -724,9 +724,12 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
     }
 
     for (i=0; i<cam; i++)
-        fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy);
-    fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]);
+        if (fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy) != 4)
+            goto handle_error;
+    if (fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]) != 4 ||
+        ferror(fpp)) goto handle_error;
     fclose (fpp);
+    fpp = NULL;
 
     /* read the id and positions of the fixed points, assign the pre-defined to fix4 */
     fix = read_calblock(&num_fix, calblock_filename);
@@ -782,7 +785,8 @@ orient_par* read_orient_par(char *filename) {
         || !(fscanf(file, "%d", &ret->p2flag)==1)     /* p2 */
         || !(fscanf(file, "%d", &ret->scxflag)==1)   /* scx - scaling  */
         || !(fscanf(file, "%d", &ret->sheflag)==1)    /* she - shearing  */
-        || !(fscanf(file, "%d", &ret->interfflag)==1))  /* interface glass vector */
+        || !(fscanf(file, "%d", &ret->interfflag)==1)  /* interface glass vector */
+        || ferror(file))
     {
         printf("Error reading orientation parameters from %s\n", filename);
         free(ret);
-- 
2.43.0


From fa845ca0fbd64e5ada7d490f581fa0095fd48bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 21/74] fix: correspondences must check all of its allocations

---
 liboptv/src/correspondences.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 2b9e764..4815d43 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -624,8 +624,9 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   con = (n_tupel *) malloc(cpar->num_cams*nmax * sizeof(n_tupel)); 
   
   tim = safely_allocate_target_usage_marks(cpar->num_cams);
-  if (tim == NULL) {
+  if (tim == NULL || con0 == NULL || con == NULL) {
       fprintf(stderr, "out of memory\n");
+      if (tim != NULL) deallocate_target_usage_marks(tim, cpar->num_cams);
       free(con0);
       free(con);
       return NULL;
-- 
2.43.0


From 7d6cffecf5fcc2883028a7b1b019ab8d247b4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 22/74] fix: prepare_image must report all of its failures and
 free its memory

A missing filter file crashed it, an incomplete one was used with uninitialised
elements, and a failed blur went unnoticed.
---
 liboptv/src/image_processing.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index e58fed0..c273f25 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -144,7 +144,10 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     nq = n*n;
     
     if ((row_accum = (int *)calloc(image_size, sizeof(int))) == NULL) return 0;
-    if ((col_accum = (int *)calloc(cpar->imx, sizeof(int))) == NULL) return 0;
+    if ((col_accum = (int *)calloc(cpar->imx, sizeof(int))) == NULL) {
+        free(row_accum);
+        return 0;
+    }
     
     /* Sum over lines first [1]: */
     for (i = 0; i < cpar->imy; i++) {
@@ -386,7 +389,10 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
       puts ("calloc for img_lp --> error");
       return 0;
   }
-  fast_box_blur(dim_lp, img, img_lp, cpar);
+  if (fast_box_blur(dim_lp, img, img_lp, cpar) == 0) {
+      free (img_lp);
+      return 0;
+  }
   subtract_img (img, img_lp, img_hp, cpar);
   
   /* consider field mode */
@@ -400,9 +406,14 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
+        if (fp == NULL) {
+            free (img_lp);
+            return 0;
+        }
         for (i = 0; i < 9; i++) {
-            if (fscanf(fp, "%lf", (double *)filt + i) == 0) {
+            if (fscanf(fp, "%lf", (double *)filt + i) != 1 || ferror(fp)) {
                 fclose(fp);
+                free (img_lp);
                 return 0;
             }
         }
-- 
2.43.0


From 7fdbdb78943d773ec2d66013f965db1b07edbe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 23/74] fix: orient leaked two of its buffers

---
 liboptv/src/orientation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index d8c130d..faa787c 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -577,15 +577,18 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     free(X);
     free(P);
     free(y);
+    free(yh);
     free(Xbeta);
     free(Xh);
 
     if (stopflag){
         rotation_matrix(&(cal->ext_par));
         memcpy(cal_in, cal, sizeof (Calibration));
+        free(cal);
         return resi;
     }
     else {
+        free(cal);
         free(resi);
         return NULL;
     }
-- 
2.43.0


From e5d797c08c07615142f545c29e63d98af6d14df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 24/74] fix: tr_free leaked the frame buffer's frames and the
 image names

---
 liboptv/src/tracking_run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index d40ca58..01a282b 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -84,9 +84,9 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
    TrackingRun *tr - points to the TrackingRun object to free.
 */
 void tr_free(tracking_run *tr) {
+    fb_free(tr->fb);
     free(tr->fb);
-    free(tr->seq_par->img_base_name);
-    free(tr->seq_par);
+    free_sequence_par(tr->seq_par);
     free(tr->tpar);
     free(tr->vpar);
     free_control_par(tr->cpar);
-- 
2.43.0


From 53f9662c35cd6490a6d2fa57cd4c1270a5dbc065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 25/74] fix: tr_new_legacy crashed if parameter files could not
 be read

---
 liboptv/src/tracking_run.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 01a282b..27227a6 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -13,14 +13,32 @@
    char *tpar_fname - path to tracking parameters file.
    char *vpar_fname - path to volume parameters file.
    char *cpar_fname - path to control parameters file.
+   
+   Returns:
+   the new tracking run, or NULL if some parameters could not be read.
 */
 tracking_run* tr_new_legacy(char *seq_par_fname, char *tpar_fname,
     char *vpar_fname, char *cpar_fname, Calibration **cal) 
 {
+    sequence_par *seq_par;
+    track_par *tpar;
+    volume_par *vpar;
     control_par *cpar = read_control_par(cpar_fname);
-    sequence_par *seq_par = read_sequence_par(seq_par_fname, cpar->num_cams);
-    return tr_new(seq_par, read_track_par(tpar_fname), 
-        read_volume_par(vpar_fname), cpar, 4, 20000,
+    if (cpar == NULL) return NULL;
+    
+    seq_par = read_sequence_par(seq_par_fname, cpar->num_cams);
+    tpar = read_track_par(tpar_fname);
+    vpar = read_volume_par(vpar_fname);
+    
+    if (seq_par == NULL || tpar == NULL || vpar == NULL) {
+        if (seq_par != NULL) free_sequence_par(seq_par);
+        free(tpar);
+        free(vpar);
+        free_control_par(cpar);
+        return NULL;
+    }
+    
+    return tr_new(seq_par, tpar, vpar, cpar, 4, 20000,
         "res/rt_is", "res/ptv_is", "res/added", cal, 10000);
 }
 
-- 
2.43.0


From 143f659b342eee17a50d3a436c22b22acec5dd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 26/74] fix: correspondences binding allocated too few match
 counts

liboptv sets four counts whatever the number of cameras.
---
 py_bind/optv/correspondences.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 1b14fc3..6633c72 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -164,7 +164,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
         np.ndarray[ndim=3, dtype=np.float64_t] clique_targs
         
         # Return buffers:
-        int *match_counts = <int *> malloc(num_cams * sizeof(int))
+        int *match_counts = <int *> malloc(4 * sizeof(int)) # always 4 are set
         n_tupel *corresp_buf
     
     # Initialize frame partially, without the extra momory used by init_frame.
-- 
2.43.0


From 8e670c62054a3bd434049ae4e8da7634139cee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 27/74] fix: frame_init allocated target counts by targets, not
 cameras

---
 liboptv/src/tracking_frame_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index b557b27..682a303 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -462,7 +462,7 @@ void frame_init(frame *new_frame, int num_cams, int max_targets) {
     new_frame->correspond = (corres *) calloc(max_targets, sizeof(corres));
     
     new_frame->targets = (target**) calloc(num_cams, sizeof(target*));
-    new_frame->num_targets = (int *) calloc(max_targets, sizeof(int));
+    new_frame->num_targets = (int *) calloc(num_cams, sizeof(int));
     
     for (cam = 0; cam < num_cams; cam++) {
         new_frame->targets[cam] = \
-- 
2.43.0


From 2ac9b0ef91bc218b3d1dc3945d1994fe300c2f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 28/74] fix: read_path_frame must notice read errors in frames
 without particles

---
 liboptv/src/tracking_frame_buf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 682a303..438276a 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -284,8 +284,12 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         if (read_res != 1 || num_links != num_points) goto finalize;
     }
     
+    if (num_points <= 0) {
+        if (!ferror(filein) && !(linkagein && ferror(linkagein)) &&
+            !(prioin && ferror(prioin))) targets = 0;
+        goto finalize;
+    }
     targets = 0;
-    if (num_points <= 0) goto finalize;
     
     do {
         if (linkagein != NULL) {
-- 
2.43.0


From 61e3e59fe65ff0d8cd025286d04a77e62d89e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 29/74] fix: sorting an empty detection list must not read past
 it

---
 liboptv/src/correspondences.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 4815d43..c448a0d 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -71,7 +71,7 @@ void qs_con (n_tupel *con, int left, int right){
 */
 
 void quicksort_target_y (target *pix, int num) {
-  qs_target_y (pix, 0, num-1);
+  if (num > 0) qs_target_y (pix, 0, num-1);
 }
 
 /* qs_target_y() uses quicksort algorithm to 
@@ -118,7 +118,7 @@ void qs_target_y (target *pix, int left, int right){
    integer num equal to the length of the array pix
 */
 void quicksort_coord2d_x (coord_2d *crd, int num) {
-	qs_coord2d_x (crd, 0, num-1);
+	if (num > 0) qs_coord2d_x (crd, 0, num-1);
 }
 
 void qs_coord2d_x (coord_2d	*crd, int left, int right){
-- 
2.43.0


From 6112cb152f5a929d5f996be5a17445cbcc485fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 30/74] fix: refraction look-up must not read past the end of
 the table

---
 liboptv/src/multimed.c | 934 ++++++++++++++++++++---------------------
 1 file changed, 467 insertions(+), 467 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 2abe438..73a1603 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -1,467 +1,467 @@
-/****************************************************************************
-
-Routine:            multimed.c
-
-Author/Copyright:       Hans-Gerd Maas
-
-Address:            Institute of Geodesy and Photogrammetry
-                    ETH - Hoenggerberg
-                    CH - 8093 Zurich
-
-Creation Date:          20.4.88
-    
-Description:            
-1 point, exterior orientation, multimedia parameters    ==> X,Y=shifts
-          (special case 3 media, medium 2 = plane parallel)
-                            
-Routines contained:     -
-
-****************************************************************************/
-
-#include "multimed.h"
-
-/*  multimed_nlay() creates the Xq,Yq points for each X,Y point in the image space
-    using radial shift from the multimedia model.
-    
-    Arguments:
-    Calibration *cal - calibration parameters.
-    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
-        layers)
-    vec3d pos - three doubles of the particle position in the 3D space.
-    double *Xq, *Yq - returned values; two dimensional position on the glass 
-        surface separating the water from air.
-*/
-void  multimed_nlay (Calibration *cal, mm_np *mm, vec3d pos, 
-    double *Xq, double *Yq)
-{
-    double  radial_shift;
-      
-    radial_shift = multimed_r_nlay (cal, mm, pos); 
-
-    /* if radial_shift == 1.0, this degenerates to Xq = X, Yq = Y  */
-    *Xq = cal->ext_par.x0 + (pos[0] - cal->ext_par.x0) * radial_shift;
-    *Yq = cal->ext_par.y0 + (pos[1] - cal->ext_par.y0) * radial_shift;
-}
-
-
-/*  multimedia_r_nlay() calculates and returns the radial shift
-    
-    Arguments:
-    Calibration *cal - calibration parameters.
-    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
-        layers)
-    vec3d pos - three doubles of the particle position in the 3D space.
-    
-    Returns:
-    double radial_shift: default is 1.0 if no solution is found
-*/
-double multimed_r_nlay (Calibration *cal, mm_np *mm, vec3d pos) {
-    int i, it = 0;
-    int n_iter = 40;
-    double beta1, beta2[32], beta3, r, rbeta, rdiff, rq, mmf=1.0;
-    double X,Y,Z;
-    double zout;
-    
-    /* 1-medium case */
-    if (mm->n1 == 1 && mm->nlay == 1 && mm->n2[0]== 1 && mm->n3 == 1)
-        return (1.0);
-    
-    /* interpolation using the existing mmlut */
-	if (cal->mmlut.data != NULL) {
-        mmf = get_mmf_from_mmlut(cal, pos);
-        if (mmf > 0) return (mmf);
-    }
-    
-    /* iterative procedure */
-    X = pos[0];
-    Y = pos[1];
-    Z = pos[2];
-    
-    /* Extra layers protrude into water side: */
-    zout = Z;
-    for (i = 1; i < mm->nlay; i++)
-        zout += mm->d[i];
-    
-    r = norm((X - cal->ext_par.x0), (Y - cal->ext_par.y0), 0);
-    rq = r;
-  
-    do
-    {
-        beta1 = atan (rq/(cal->ext_par.z0 - Z));
-        for (i = 0; i < mm->nlay; i++)
-            beta2[i] = asin (sin(beta1) * mm->n1/mm->n2[i]);
-        beta3 = asin (sin(beta1) * mm->n1/mm->n3);
-
-        rbeta = (cal->ext_par.z0 - mm->d[0]) * tan(beta1) - zout * tan(beta3);
-        for (i = 0; i < mm->nlay; i++)
-            rbeta += (mm->d[i] * tan(beta2[i]));
-        
-        rdiff = r - rbeta;
-        rq += rdiff;
-        it++;
-    }
-    while (((rdiff > 0.001) || (rdiff < -0.001))  &&  it < n_iter);
-
- 
-    if (it >= n_iter) {
-        printf ("multimed_r_nlay stopped after %d iterations\n", n_iter);  
-        return (1.0);
-    }
-
-    if (r != 0){ 
-        return (rq/r);
-    }  
-    else {
-        return (1.0);
-    }
-}
-
-/*  trans_Cam_Point() projects global-coordinate points of the camera and an
-    image points on the glass surface separating those points.
-    
-    Input arguments:
-    Exterior ex - holding global-coordinates camera position.
-    mm_np mm - holding glass thickness.
-    Glass gl - holding the glass position in global-coordinates as a 
-        glass-normal vector.
-    vec3d pos - the global coordinates of the observed point.
-    
-    Output arguments:
-    Exterior ex_t - only the primary point fields are used, and are set 
-        to the glass/Z axis intersection.
-    double cross_p[3] - the observed point projection coordinates in global
-        coordinates.
-    double cross_c[3] - same for the camera position. Since the camera point
-        is projected on the other side of the glass, it'll have a small 
-        difference in Z value from ``cross_p``.
-*/
-void trans_Cam_Point(Exterior ex, mm_np mm, Glass gl, vec3d pos, 
-    Exterior *ex_t, vec3d pos_t, double cross_p[3], double cross_c[3])
-{
-    double dist_cam_glas,dist_point_glas,dist_o_glas; //glas inside at water 
-    vec3d glass_dir, primary_pt, renorm_glass, temp;
-    
-    vec_set(glass_dir, gl.vec_x, gl.vec_y, gl.vec_z);
-    vec_set(primary_pt, ex.x0, ex.y0, ex.z0);
-
-    dist_o_glas = vec_norm(glass_dir);
-    dist_cam_glas = vec_dot(primary_pt, glass_dir) / dist_o_glas \
-        - dist_o_glas - mm.d[0];
-    dist_point_glas = vec_dot(pos, glass_dir) / dist_o_glas - dist_o_glas;
-
-    vec_scalar_mul(glass_dir, dist_cam_glas/dist_o_glas, renorm_glass);
-    vec_subt(primary_pt, renorm_glass, cross_c);
-
-    vec_scalar_mul(glass_dir, dist_point_glas/dist_o_glas, renorm_glass);
-    vec_subt(pos, renorm_glass, cross_p);
-
-    ex_t->x0 = 0.;
-    ex_t->y0 = 0.;
-    ex_t->z0 = dist_cam_glas + mm.d[0];
-
-    vec_scalar_mul(glass_dir, mm.d[0]/dist_o_glas, renorm_glass);
-    vec_subt(cross_c, renorm_glass, temp);
-    vec_subt(cross_p, temp, temp);
-    
-    vec_set(pos_t, vec_norm(temp), 0, dist_point_glas);
-}
-
-/* the opposite direction transfer from X_t,Y_t,Z_t to the X,Y,Z in 3D space */
-
-void back_trans_Point(vec3d pos_t, mm_np mm, Glass G, double cross_p[3], 
-    double cross_c[3], vec3d pos)
-{  
-    double nVe, nGl;
-    vec3d glass_dir, renorm_glass, after_glass, temp;
-    
-    vec_set(glass_dir, G.vec_x, G.vec_y, G.vec_z);
-    nGl = vec_norm(glass_dir);
-    
-    vec_scalar_mul(glass_dir, mm.d[0]/nGl, renorm_glass);
-    vec_subt(cross_c, renorm_glass, after_glass);
-    vec_subt(cross_p, after_glass, temp);
-    
-    nVe = vec_norm(temp);
-    
-    vec_scalar_mul(glass_dir, -pos_t[2]/nGl, renorm_glass);
-    vec_subt(after_glass, renorm_glass, pos);
-    
-    if (nVe > 0) {  
-        /* We need this for when the cam-point line is exactly perp. to glass.
-         The degenerate case will have nVe == 0 and produce NaNs on the
-         following calculations.
-        */
-        vec_scalar_mul(temp, -pos_t[0]/nVe, renorm_glass);
-        vec_subt(pos, renorm_glass, pos);
-    }
-}
-
-/*  move_along_ray() calculates the position of a point in a global Z value
-    along a ray whose vertex and direction are given.
-    
-    Arguments:
-    double glob_Z - the Z value of the result point in the global
-        coordinate system.
-    vec3d vertex - the ray vertex.
-    vec3d direct - the ray direction, a unit vector.
-    vec3d out - result buffer.
-*/
-void move_along_ray(double glob_Z, vec3d vertex, vec3d direct, vec3d out) {
-    out[0] = vertex[0] + (glob_Z - vertex[2]) * direct[0]/direct[2];   
-    out[1] = vertex[1] + (glob_Z - vertex[2]) * direct[1]/direct[2];
-    out[2] = glob_Z;
-}
-
-/*  init_mmlut() prepares the multimedia Look-Up Table for a single camera
-    Arguments: 
-    
-    volume_par *vpar - struct holding the observed volume size.
-    control_par *cpar - struct holding general control parameters such as 
-        image size.
-    Calibration *cal - current single-camera positioning and other camera-
-        specific data.
-    
-    Output:
-    initializes data in cal->mmlut->data
-*/ 
-void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
-  register int  i,j, nr, nz;
-  double R, Zmin, Rmax=0, Zmax;
-  vec3d pos, a, xyz, xyz_t; 
-  double x,y, *Ri,*Zi, *data;
-  double rw = 2.0; 
-
-  /* A frame representing a point outside tank, middle of glass*/
-  Calibration cal_t;
-
-  double Zmin_t, Zmax_t;
-  double cross_p[3],cross_c[3]; 
-  double xc[2], yc[2];  /* image corners */
-  
-  /* image corners */
-  xc[0] = 0.0;
-  xc[1] = (double) cpar->imx;
-  yc[0] = 0.0;
-  yc[1] = (double) cpar->imy;
-
-  /* find extrema of imaged object volume */      
-  Zmin = vpar->Zmin_lay[0];
-  Zmax = vpar->Zmax_lay[0];
-  
-  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
-  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
- 
-  Zmin -= fmod (Zmin, rw);
-  Zmax += (rw - fmod (Zmax, rw));
-  Zmin_t=Zmin;
-  Zmax_t=Zmax;
-
-  /* intersect with image vertices rays */
-  cal_t = *cal;
-
-  for (i = 0; i < 2; i ++) {
-      for (j = 0; j < 2; j++) {
-          pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
-
-          x = x - cal->int_par.xh;
-          y = y - cal->int_par.yh;
-  
-          correct_brown_affin (x, y, cal->added_par, &x,&y);  
-          ray_tracing(x, y, cal, *(cpar->mm), pos, a);
-          
-          move_along_ray(Zmin, pos, a, xyz);
-          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz, \
-            &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
-
-          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
-          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
-
-          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
-          if (R > Rmax)
-              Rmax = R;
-           
-          move_along_ray(Zmax, pos, a, xyz);
-          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz,\
-              &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
-  
-          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
-          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
-
-          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
-          if (R > Rmax)
-              Rmax = R;
-      }
-  }
-
-  /* round values (-> enlarge) */
-  Rmax += (rw - fmod (Rmax, rw));
-
-  /* get # of rasterlines in r,z */
-  nr = (int)(Rmax/rw + 1);
-  nz = (int)((Zmax_t-Zmin_t)/rw + 1);
-
-  /* create two dimensional mmlut structure */
-  vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
-  
-  cal->mmlut.nr = nr;
-  cal->mmlut.nz = nz;
-  cal->mmlut.rw = rw;
-  
-  if (cal->mmlut.data == NULL) {
-      data = (double *) malloc (nr*nz * sizeof (double));
-  
-      /* fill mmlut structure */
-      Ri = (double *) malloc (nr * sizeof (double));
-      for (i = 0; i < nr; i++)
-        Ri[i] = i*rw;
-
-      Zi = (double *) malloc (nz * sizeof (double));
-      for (i = 0; i < nz; i++)
-        Zi[i] = Zmin_t + i*rw;
-
-      for (i = 0; i < nr; i++) {
-        for (j = 0; j < nz; j++) {
-            vec_set(xyz, Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]);
-            data[i*nz + j] = multimed_r_nlay(&cal_t, cpar->mm, xyz);
-        } /* nr */
-      } /* nz */
-    
-      free (Ri);
-      free (Zi);
-      cal->mmlut.data = data;
-    }
-}
-
-
-/*  get_mmf_from_mmlut() returns the value of mmf (double) for a 3D point
-    using the multimedia look up table.
-    
-    Arguments:
-    pos - vector of 3 doubles, position in 3D space 
-   Calibration parameters pointer, *cal
-*/
-double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
-    int i, ir,iz, nr,nz, rw, v4[4];
-    double R, sr, sz, mmf = 1.0;
-    vec3d temp;
-    
-    rw = cal->mmlut.rw;
-  
-    vec_subt(pos, cal->mmlut.origin, temp);
-    sz = temp[2]/rw;
-    iz = (int) sz;
-    sz -= iz;
-    
-    R = norm(temp[0], temp[1], 0);
-    
-    sr = R/rw;
-    ir = (int) sr;
-    sr -= ir;
-  
-    nz = cal->mmlut.nz;
-    nr = cal->mmlut.nr;
-    
-    /* check whether point is inside camera's object volume */
-    if (ir > nr)
-        return (0);
-    if (iz < 0  ||  iz > nz)
-        return (0);
-  
-    /* bilinear interpolation in r/z box */
-    /* ================================= */
-  
-    /* get vertices of box */
-    v4[0] = ir*nz + iz;
-    v4[1] = ir*nz + (iz+1);
-    v4[2] = (ir+1)*nz + iz;
-    v4[3] = (ir+1)*nz + (iz+1);
-  
-    /* 2. check wther point is inside camera's object volume */
-    /* important for epipolar line computation */
-    for (i = 0; i < 4; i++)
-        if (v4[i] < 0  ||  v4[i] > nr*nz)
-            return (0);
-    
-    /* interpolate */
-    mmf = cal->mmlut.data[v4[0]] * (1-sr)*(1-sz)
-        + cal->mmlut.data[v4[1]] * (1-sr)*sz
-        + cal->mmlut.data[v4[2]] * sr*(1-sz)
-        + cal->mmlut.data[v4[3]] * sr*sz;
-  
-    return (mmf);
-}
-
-
-/*  volumedimension() finds the limits of the measurement volume in 3D space.
-    
-    Arguments:
-    double pointers to the limits of the volume in x (xmin,xmax), y (ymin, ymax) and
-    z (zmin, zmax) directions
-    volume_par *vpar - struct holding the observed volume size.
-    control_par *cpar - struct holding general control parameters such as 
-        image size.
-    Calibration *cal - scene parameters.
-*/  
-void volumedimension (double *xmax, double *xmin, 
-    double *ymax, double *ymin,
-    double *zmax, double *zmin,
-    volume_par *vpar, control_par *cpar, Calibration **cal)
-{
-  int i_cam, i, j;
-  double X, Y;
-  vec3d pos, a;
-  double x,y;  
-  double xc[2], yc[2];  /* image corners */
-  double Zmin, Zmax;
-  
-  xc[0] = 0.0;
-  xc[1] = (double) cpar->imx;
-  yc[0] = 0.0;
-  yc[1] = (double) cpar->imy;
-  
-  Zmin = vpar->Zmin_lay[0];
-  Zmax = vpar->Zmax_lay[0];
-  
-  /* there is a bug, see the original multimed.c  
-  https://github.com/3dptv/3dptv/src_c/multimed.c#L899
-  obviously we have left and right side that could be smaller or larger in Z
-  */
-  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
-  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
-
-  *zmin = Zmin;
-  *zmax = Zmax;
-    
-  /* find extrema of imaged object volume */
-  for (i_cam = 0; i_cam < cpar->num_cams; i_cam++) {
-      for (i = 0; i < 2; i ++) {
-          for (j = 0; j < 2; j++) {
-              pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
-              x = x - cal[i_cam]->int_par.xh;
-              y = y - cal[i_cam]->int_par.yh;
-              correct_brown_affin (x, y, cal[i_cam]->added_par, &x, &y);
-          
-              ray_tracing(x, y, cal[i_cam], *(cpar->mm), pos, a);
-          
-              X = pos[0] + (Zmin - pos[2]) * a[0]/a[2];   
-              Y = pos[1] + (Zmin - pos[2]) * a[1]/a[2];
-              
-                     
-              if ( X > *xmax) *xmax = X;
-              if ( X < *xmin) *xmin = X;
-              if ( Y > *ymax) *ymax = Y;
-              if ( Y < *ymin) *ymin = Y;
-
-              X = pos[0] + (Zmax - pos[2]) * a[0]/a[2];   
-              Y = pos[1] + (Zmax - pos[2]) * a[1]/a[2];
-        
-              if ( X > *xmax) *xmax = X;
-              if ( X < *xmin) *xmin = X;
-              if ( Y > *ymax) *ymax = Y;
-              if ( Y < *ymin) *ymin = Y;
-        
-          }
-      }
-  }
-}
-
+/****************************************************************************
+
+Routine:            multimed.c
+
+Author/Copyright:       Hans-Gerd Maas
+
+Address:            Institute of Geodesy and Photogrammetry
+                    ETH - Hoenggerberg
+                    CH - 8093 Zurich
+
+Creation Date:          20.4.88
+    
+Description:            
+1 point, exterior orientation, multimedia parameters    ==> X,Y=shifts
+          (special case 3 media, medium 2 = plane parallel)
+                            
+Routines contained:     -
+
+****************************************************************************/
+
+#include "multimed.h"
+
+/*  multimed_nlay() creates the Xq,Yq points for each X,Y point in the image space
+    using radial shift from the multimedia model.
+    
+    Arguments:
+    Calibration *cal - calibration parameters.
+    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
+        layers)
+    vec3d pos - three doubles of the particle position in the 3D space.
+    double *Xq, *Yq - returned values; two dimensional position on the glass 
+        surface separating the water from air.
+*/
+void  multimed_nlay (Calibration *cal, mm_np *mm, vec3d pos, 
+    double *Xq, double *Yq)
+{
+    double  radial_shift;
+      
+    radial_shift = multimed_r_nlay (cal, mm, pos); 
+
+    /* if radial_shift == 1.0, this degenerates to Xq = X, Yq = Y  */
+    *Xq = cal->ext_par.x0 + (pos[0] - cal->ext_par.x0) * radial_shift;
+    *Yq = cal->ext_par.y0 + (pos[1] - cal->ext_par.y0) * radial_shift;
+}
+
+
+/*  multimedia_r_nlay() calculates and returns the radial shift
+    
+    Arguments:
+    Calibration *cal - calibration parameters.
+    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
+        layers)
+    vec3d pos - three doubles of the particle position in the 3D space.
+    
+    Returns:
+    double radial_shift: default is 1.0 if no solution is found
+*/
+double multimed_r_nlay (Calibration *cal, mm_np *mm, vec3d pos) {
+    int i, it = 0;
+    int n_iter = 40;
+    double beta1, beta2[32], beta3, r, rbeta, rdiff, rq, mmf=1.0;
+    double X,Y,Z;
+    double zout;
+    
+    /* 1-medium case */
+    if (mm->n1 == 1 && mm->nlay == 1 && mm->n2[0]== 1 && mm->n3 == 1)
+        return (1.0);
+    
+    /* interpolation using the existing mmlut */
+	if (cal->mmlut.data != NULL) {
+        mmf = get_mmf_from_mmlut(cal, pos);
+        if (mmf > 0) return (mmf);
+    }
+    
+    /* iterative procedure */
+    X = pos[0];
+    Y = pos[1];
+    Z = pos[2];
+    
+    /* Extra layers protrude into water side: */
+    zout = Z;
+    for (i = 1; i < mm->nlay; i++)
+        zout += mm->d[i];
+    
+    r = norm((X - cal->ext_par.x0), (Y - cal->ext_par.y0), 0);
+    rq = r;
+  
+    do
+    {
+        beta1 = atan (rq/(cal->ext_par.z0 - Z));
+        for (i = 0; i < mm->nlay; i++)
+            beta2[i] = asin (sin(beta1) * mm->n1/mm->n2[i]);
+        beta3 = asin (sin(beta1) * mm->n1/mm->n3);
+
+        rbeta = (cal->ext_par.z0 - mm->d[0]) * tan(beta1) - zout * tan(beta3);
+        for (i = 0; i < mm->nlay; i++)
+            rbeta += (mm->d[i] * tan(beta2[i]));
+        
+        rdiff = r - rbeta;
+        rq += rdiff;
+        it++;
+    }
+    while (((rdiff > 0.001) || (rdiff < -0.001))  &&  it < n_iter);
+
+ 
+    if (it >= n_iter) {
+        printf ("multimed_r_nlay stopped after %d iterations\n", n_iter);  
+        return (1.0);
+    }
+
+    if (r != 0){ 
+        return (rq/r);
+    }  
+    else {
+        return (1.0);
+    }
+}
+
+/*  trans_Cam_Point() projects global-coordinate points of the camera and an
+    image points on the glass surface separating those points.
+    
+    Input arguments:
+    Exterior ex - holding global-coordinates camera position.
+    mm_np mm - holding glass thickness.
+    Glass gl - holding the glass position in global-coordinates as a 
+        glass-normal vector.
+    vec3d pos - the global coordinates of the observed point.
+    
+    Output arguments:
+    Exterior ex_t - only the primary point fields are used, and are set 
+        to the glass/Z axis intersection.
+    double cross_p[3] - the observed point projection coordinates in global
+        coordinates.
+    double cross_c[3] - same for the camera position. Since the camera point
+        is projected on the other side of the glass, it'll have a small 
+        difference in Z value from ``cross_p``.
+*/
+void trans_Cam_Point(Exterior ex, mm_np mm, Glass gl, vec3d pos, 
+    Exterior *ex_t, vec3d pos_t, double cross_p[3], double cross_c[3])
+{
+    double dist_cam_glas,dist_point_glas,dist_o_glas; //glas inside at water 
+    vec3d glass_dir, primary_pt, renorm_glass, temp;
+    
+    vec_set(glass_dir, gl.vec_x, gl.vec_y, gl.vec_z);
+    vec_set(primary_pt, ex.x0, ex.y0, ex.z0);
+
+    dist_o_glas = vec_norm(glass_dir);
+    dist_cam_glas = vec_dot(primary_pt, glass_dir) / dist_o_glas \
+        - dist_o_glas - mm.d[0];
+    dist_point_glas = vec_dot(pos, glass_dir) / dist_o_glas - dist_o_glas;
+
+    vec_scalar_mul(glass_dir, dist_cam_glas/dist_o_glas, renorm_glass);
+    vec_subt(primary_pt, renorm_glass, cross_c);
+
+    vec_scalar_mul(glass_dir, dist_point_glas/dist_o_glas, renorm_glass);
+    vec_subt(pos, renorm_glass, cross_p);
+
+    ex_t->x0 = 0.;
+    ex_t->y0 = 0.;
+    ex_t->z0 = dist_cam_glas + mm.d[0];
+
+    vec_scalar_mul(glass_dir, mm.d[0]/dist_o_glas, renorm_glass);
+    vec_subt(cross_c, renorm_glass, temp);
+    vec_subt(cross_p, temp, temp);
+    
+    vec_set(pos_t, vec_norm(temp), 0, dist_point_glas);
+}
+
+/* the opposite direction transfer from X_t,Y_t,Z_t to the X,Y,Z in 3D space */
+
+void back_trans_Point(vec3d pos_t, mm_np mm, Glass G, double cross_p[3], 
+    double cross_c[3], vec3d pos)
+{  
+    double nVe, nGl;
+    vec3d glass_dir, renorm_glass, after_glass, temp;
+    
+    vec_set(glass_dir, G.vec_x, G.vec_y, G.vec_z);
+    nGl = vec_norm(glass_dir);
+    
+    vec_scalar_mul(glass_dir, mm.d[0]/nGl, renorm_glass);
+    vec_subt(cross_c, renorm_glass, after_glass);
+    vec_subt(cross_p, after_glass, temp);
+    
+    nVe = vec_norm(temp);
+    
+    vec_scalar_mul(glass_dir, -pos_t[2]/nGl, renorm_glass);
+    vec_subt(after_glass, renorm_glass, pos);
+    
+    if (nVe > 0) {  
+        /* We need this for when the cam-point line is exactly perp. to glass.
+         The degenerate case will have nVe == 0 and produce NaNs on the
+         following calculations.
+        */
+        vec_scalar_mul(temp, -pos_t[0]/nVe, renorm_glass);
+        vec_subt(pos, renorm_glass, pos);
+    }
+}
+
+/*  move_along_ray() calculates the position of a point in a global Z value
+    along a ray whose vertex and direction are given.
+    
+    Arguments:
+    double glob_Z - the Z value of the result point in the global
+        coordinate system.
+    vec3d vertex - the ray vertex.
+    vec3d direct - the ray direction, a unit vector.
+    vec3d out - result buffer.
+*/
+void move_along_ray(double glob_Z, vec3d vertex, vec3d direct, vec3d out) {
+    out[0] = vertex[0] + (glob_Z - vertex[2]) * direct[0]/direct[2];   
+    out[1] = vertex[1] + (glob_Z - vertex[2]) * direct[1]/direct[2];
+    out[2] = glob_Z;
+}
+
+/*  init_mmlut() prepares the multimedia Look-Up Table for a single camera
+    Arguments: 
+    
+    volume_par *vpar - struct holding the observed volume size.
+    control_par *cpar - struct holding general control parameters such as 
+        image size.
+    Calibration *cal - current single-camera positioning and other camera-
+        specific data.
+    
+    Output:
+    initializes data in cal->mmlut->data
+*/ 
+void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
+  register int  i,j, nr, nz;
+  double R, Zmin, Rmax=0, Zmax;
+  vec3d pos, a, xyz, xyz_t; 
+  double x,y, *Ri,*Zi, *data;
+  double rw = 2.0; 
+
+  /* A frame representing a point outside tank, middle of glass*/
+  Calibration cal_t;
+
+  double Zmin_t, Zmax_t;
+  double cross_p[3],cross_c[3]; 
+  double xc[2], yc[2];  /* image corners */
+  
+  /* image corners */
+  xc[0] = 0.0;
+  xc[1] = (double) cpar->imx;
+  yc[0] = 0.0;
+  yc[1] = (double) cpar->imy;
+
+  /* find extrema of imaged object volume */      
+  Zmin = vpar->Zmin_lay[0];
+  Zmax = vpar->Zmax_lay[0];
+  
+  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
+  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
+ 
+  Zmin -= fmod (Zmin, rw);
+  Zmax += (rw - fmod (Zmax, rw));
+  Zmin_t=Zmin;
+  Zmax_t=Zmax;
+
+  /* intersect with image vertices rays */
+  cal_t = *cal;
+
+  for (i = 0; i < 2; i ++) {
+      for (j = 0; j < 2; j++) {
+          pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
+
+          x = x - cal->int_par.xh;
+          y = y - cal->int_par.yh;
+  
+          correct_brown_affin (x, y, cal->added_par, &x,&y);  
+          ray_tracing(x, y, cal, *(cpar->mm), pos, a);
+          
+          move_along_ray(Zmin, pos, a, xyz);
+          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz, \
+            &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
+
+          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
+          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
+
+          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
+          if (R > Rmax)
+              Rmax = R;
+           
+          move_along_ray(Zmax, pos, a, xyz);
+          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz,\
+              &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
+  
+          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
+          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
+
+          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
+          if (R > Rmax)
+              Rmax = R;
+      }
+  }
+
+  /* round values (-> enlarge) */
+  Rmax += (rw - fmod (Rmax, rw));
+
+  /* get # of rasterlines in r,z */
+  nr = (int)(Rmax/rw + 1);
+  nz = (int)((Zmax_t-Zmin_t)/rw + 1);
+
+  /* create two dimensional mmlut structure */
+  vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
+  
+  cal->mmlut.nr = nr;
+  cal->mmlut.nz = nz;
+  cal->mmlut.rw = rw;
+  
+  if (cal->mmlut.data == NULL) {
+      data = (double *) malloc (nr*nz * sizeof (double));
+  
+      /* fill mmlut structure */
+      Ri = (double *) malloc (nr * sizeof (double));
+      for (i = 0; i < nr; i++)
+        Ri[i] = i*rw;
+
+      Zi = (double *) malloc (nz * sizeof (double));
+      for (i = 0; i < nz; i++)
+        Zi[i] = Zmin_t + i*rw;
+
+      for (i = 0; i < nr; i++) {
+        for (j = 0; j < nz; j++) {
+            vec_set(xyz, Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]);
+            data[i*nz + j] = multimed_r_nlay(&cal_t, cpar->mm, xyz);
+        } /* nr */
+      } /* nz */
+    
+      free (Ri);
+      free (Zi);
+      cal->mmlut.data = data;
+    }
+}
+
+
+/*  get_mmf_from_mmlut() returns the value of mmf (double) for a 3D point
+    using the multimedia look up table.
+    
+    Arguments:
+    pos - vector of 3 doubles, position in 3D space 
+   Calibration parameters pointer, *cal
+*/
+double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
+    int i, ir,iz, nr,nz, rw, v4[4];
+    double R, sr, sz, mmf = 1.0;
+    vec3d temp;
+    
+    rw = cal->mmlut.rw;
+  
+    vec_subt(pos, cal->mmlut.origin, temp);
+    sz = temp[2]/rw;
+    iz = (int) sz;
+    sz -= iz;
+    
+    R = norm(temp[0], temp[1], 0);
+    
+    sr = R/rw;
+    ir = (int) sr;
+    sr -= ir;
+  
+    nz = cal->mmlut.nz;
+    nr = cal->mmlut.nr;
+    
+    /* check whether point is inside camera's object volume */
+    if (ir > nr)
+        return (0);
+    if (iz < 0  ||  iz > nz)
+        return (0);
+  
+    /* bilinear interpolation in r/z box */
+    /* ================================= */
+  
+    /* get vertices of box */
+    v4[0] = ir*nz + iz;
+    v4[1] = ir*nz + (iz+1);
+    v4[2] = (ir+1)*nz + iz;
+    v4[3] = (ir+1)*nz + (iz+1);
+  
+    /* 2. check wther point is inside camera's object volume */
+    /* important for epipolar line computation */
+    for (i = 0; i < 4; i++)
+        if (v4[i] < 0  ||  v4[i] >= nr*nz)
+            return (0);
+    
+    /* interpolate */
+    mmf = cal->mmlut.data[v4[0]] * (1-sr)*(1-sz)
+        + cal->mmlut.data[v4[1]] * (1-sr)*sz
+        + cal->mmlut.data[v4[2]] * sr*(1-sz)
+        + cal->mmlut.data[v4[3]] * sr*sz;
+  
+    return (mmf);
+}
+
+
+/*  volumedimension() finds the limits of the measurement volume in 3D space.
+    
+    Arguments:
+    double pointers to the limits of the volume in x (xmin,xmax), y (ymin, ymax) and
+    z (zmin, zmax) directions
+    volume_par *vpar - struct holding the observed volume size.
+    control_par *cpar - struct holding general control parameters such as 
+        image size.
+    Calibration *cal - scene parameters.
+*/  
+void volumedimension (double *xmax, double *xmin, 
+    double *ymax, double *ymin,
+    double *zmax, double *zmin,
+    volume_par *vpar, control_par *cpar, Calibration **cal)
+{
+  int i_cam, i, j;
+  double X, Y;
+  vec3d pos, a;
+  double x,y;  
+  double xc[2], yc[2];  /* image corners */
+  double Zmin, Zmax;
+  
+  xc[0] = 0.0;
+  xc[1] = (double) cpar->imx;
+  yc[0] = 0.0;
+  yc[1] = (double) cpar->imy;
+  
+  Zmin = vpar->Zmin_lay[0];
+  Zmax = vpar->Zmax_lay[0];
+  
+  /* there is a bug, see the original multimed.c  
+  https://github.com/3dptv/3dptv/src_c/multimed.c#L899
+  obviously we have left and right side that could be smaller or larger in Z
+  */
+  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
+  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
+
+  *zmin = Zmin;
+  *zmax = Zmax;
+    
+  /* find extrema of imaged object volume */
+  for (i_cam = 0; i_cam < cpar->num_cams; i_cam++) {
+      for (i = 0; i < 2; i ++) {
+          for (j = 0; j < 2; j++) {
+              pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
+              x = x - cal[i_cam]->int_par.xh;
+              y = y - cal[i_cam]->int_par.yh;
+              correct_brown_affin (x, y, cal[i_cam]->added_par, &x, &y);
+          
+              ray_tracing(x, y, cal[i_cam], *(cpar->mm), pos, a);
+          
+              X = pos[0] + (Zmin - pos[2]) * a[0]/a[2];   
+              Y = pos[1] + (Zmin - pos[2]) * a[1]/a[2];
+              
+                     
+              if ( X > *xmax) *xmax = X;
+              if ( X < *xmin) *xmin = X;
+              if ( Y > *ymax) *ymax = Y;
+              if ( Y < *ymin) *ymin = Y;
+
+              X = pos[0] + (Zmax - pos[2]) * a[0]/a[2];   
+              Y = pos[1] + (Zmax - pos[2]) * a[1]/a[2];
+        
+              if ( X > *xmax) *xmax = X;
+              if ( X < *xmin) *xmin = X;
+              if ( Y > *ymax) *ymax = Y;
+              if ( Y < *ymin) *ymin = Y;
+        
+          }
+      }
+  }
+}
+
-- 
2.43.0


From 04d4dcc0374caac2f3796cdf33ef03de9b5222d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 31/74] fix: distortion of a point exactly at the distortion
 centre was not set

---
 liboptv/src/trafo.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 8690a20..1cb37b6 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -181,6 +181,10 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
       
       *x1 = ap.scx * x - sin(ap.she) * y;  *y1 = cos(ap.she) * y;
     }
+  else
+    {
+      *x1 = *y1 = 0;
+    }
 }
 
 /*  correct distorted to flat-image coordinates, see correct_brown_affine_exact(),
@@ -210,7 +214,10 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     double  r, rq, xq, yq;
     int itnum = 0;
   
-    if ((x == 0) && (y == 0)) return;
+    if ((x == 0) && (y == 0)) {
+        *x1 = *y1 = 0;
+        return;
+    }
     
     /* Initial guess for the flat point is the distorted point, assuming 
        distortion is small. */
-- 
2.43.0


From 8bb52b6c8f38ae86c31094d1aad0585dc48b538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:12 +0000
Subject: [PATCH 32/74] fix: refraction look-up must not mix table rows at the
 edge of the table

---
 liboptv/src/multimed.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 73a1603..0e4bb65 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -362,9 +362,9 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
     nr = cal->mmlut.nr;
     
     /* check whether point is inside camera's object volume */
-    if (ir > nr)
+    if (ir + 1 >= nr)
         return (0);
-    if (iz < 0  ||  iz > nz)
+    if (iz < 0  ||  iz + 1 >= nz)
         return (0);
   
     /* bilinear interpolation in r/z box */
-- 
2.43.0


From 6279ebae077494bea25603db4fa29aa251e956fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:30 +0000
Subject: [PATCH 33/74] fix: init_mmlut kept the old table when called for
 another volume

---
 liboptv/src/multimed.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 0e4bb65..1bf4575 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -258,6 +258,7 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
 
   /* intersect with image vertices rays */
   cal_t = *cal;
+  cal_t.mmlut.data = NULL; /* only filled below */
 
   for (i = 0; i < 2; i ++) {
       for (j = 0; j < 2; j++) {
@@ -307,7 +308,10 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
   cal->mmlut.nz = nz;
   cal->mmlut.rw = rw;
   
-  if (cal->mmlut.data == NULL) {
+  /* A table made earlier may be for another volume. */
+  free (cal->mmlut.data);
+  cal->mmlut.data = NULL;
+  
       data = (double *) malloc (nr*nz * sizeof (double));
   
       /* fill mmlut structure */
@@ -329,7 +333,6 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
       free (Ri);
       free (Zi);
       cal->mmlut.data = data;
-    }
 }
 
 
-- 
2.43.0


From 6844dcf6a698a22f919e1bdd7e1322ff31a15e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:22 +0000
Subject: [PATCH 34/74] fix: orientation reported convergence when the geometry
 determines none

---
 liboptv/src/orientation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index faa787c..1260f12 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -519,7 +519,8 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
       stopflag = 1;
       for (i = 0; i < numbers; i++) {
-          if (fabs (beta[i]) > CONVERGENCE)  stopflag = 0;
+          /* also false if the geometry determines no solution (NaN) */
+          if (! (fabs (beta[i]) <= CONVERGENCE))  stopflag = 0;
       }
 
       if ( ! flags->ccflag) beta[6] = 0.0;
@@ -680,7 +681,7 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     
         stopflag = 1;
         for (i = 0; i < 6; i++) {
-          if (fabs (beta[i]) > 0.1 )
+          if (! (fabs (beta[i]) <= 0.1))
             stopflag = 0;
         }
     
-- 
2.43.0


From 2f6de59daca758d72df6a9ed9f41bb9fb6074143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:40 +0000
Subject: [PATCH 35/74] fix: backward tracking must not follow links into
 frames it could not read

---
 liboptv/src/track.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 5cba050..45b3d7d 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -1121,6 +1121,9 @@ double trackback_c (tracking_run *run_info)
 
             /* We try to find link only if the forward search failed to. */
             if ((curr_path_inf->next < 0) || (curr_path_inf->prev != -1)) continue;
+            
+            /* The linked-to frame may be unreadable now. */
+            if (curr_path_inf->next >= fb->buf[0]->num_parts) continue;
 
             for (j = 0; j < 6; j++) vec_init(X[j]);
             curr_path_inf->inlist = 0;
@@ -1237,7 +1240,8 @@ double trackback_c (tracking_run *run_info)
 
                 /* old which link to prev has to be checked */
                 if ((ref_path_inf->prev != PREV_NONE) && \
-                    (ref_path_inf->next == NEXT_NONE) )
+                    (ref_path_inf->next == NEXT_NONE) && \
+                    (ref_path_inf->prev < fb->buf[3]->num_parts) )
                 {
                     vec_copy(X[0], fb->buf[0]->path_info[curr_path_inf->next].x);
                     vec_copy(X[1], curr_path_inf->x);
-- 
2.43.0


From 5336f695c0dd16bc2a2e1828db98f1078e20f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:20 +0000
Subject: [PATCH 36/74] fix: matching overran its scratch buffer with fewer
 than four cameras

The buffer holds num_cams*nmax candidates, the limit passed was 4*nmax.
---
 liboptv/src/correspondences.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index c448a0d..8e17665 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -662,7 +662,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent quadruplets in the list */
   if (cpar->num_cams == 4) {
     match0 = four_camera_matching(list, frm->num_targets[0], 
-        vpar->corrmin, con0, 4*nmax);
+        vpar->corrmin, con0, cpar->num_cams*nmax);
     
     match_counts[0] = take_best_candidates(con0, con, cpar->num_cams, match0, tim);
     match_counts[3] += match_counts[0];
@@ -671,7 +671,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent triplets :  123, 124, 134, 234 */
   if ((cpar->num_cams == 4 && cpar->allCam_flag == 0) || cpar->num_cams == 3) {
     match0 = three_camera_matching(list, cpar->num_cams, frm->num_targets, 
-        vpar->corrmin, con0, 4*nmax, tim);
+        vpar->corrmin, con0, cpar->num_cams*nmax, tim);
     
     match_counts[1] = take_best_candidates(con0, &(con[match_counts[3]]), 
         cpar->num_cams, match0, tim);
@@ -681,7 +681,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent pairs :  12, 13, 14, 23, 24, 34 */
   if(cpar->num_cams > 1 && cpar->allCam_flag == 0) {
       match0 = consistent_pair_matching(list, cpar->num_cams, 
-          frm->num_targets, vpar->corrmin, con0, 4*nmax, tim);
+          frm->num_targets, vpar->corrmin, con0, cpar->num_cams*nmax, tim);
                 
       match_counts[2] = take_best_candidates(con0, &(con[match_counts[3]]), 
           cpar->num_cams, match0, tim);
-- 
2.43.0


From bc6d603baae2414ad605bbe160b55d61f164b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 37/74] fix: angle between velocities was NaN for a particle at
 rest or exactly parallel vectors

angle_acc() passed acos() arguments rounded beyond 1 and divided by a zero
length. The NaN reached the quality sum of a link candidate, and the
candidates could not be ranked.
---
 liboptv/src/track.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 45b3d7d..962fd46 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -201,6 +201,7 @@ int pos3d_in_bounds(vec3d pos, track_par *bounds) {
 void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
 {
     vec3d v0, v1;
+    double cosine;
 
     vec_subt(pred, start, v0);
     vec_subt(cand, start, v1);
@@ -212,9 +213,14 @@ void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
         *angle = 200;
     } else if ((v0[0] == v1[0]) && (v0[1] == v1[1]) && (v0[2] == v1[2])) {
         *angle = 0;         // otherwise it returns NaN
+    } else if (vec_norm(v0) == 0 || vec_norm(v1) == 0) {
+        *angle = 0;         // no direction to deviate from, otherwise NaN
     } else {
-        *angle = (200./M_PI) * acos(vec_dot(v0, v1) / vec_norm(v0) \
-                                    / vec_norm(v1));
+        cosine = vec_dot(v0, v1) / vec_norm(v0) / vec_norm(v1);
+        // Rounding may leave parallel vectors slightly out of acos() domain.
+        if (cosine > 1.0) cosine = 1.0;
+        if (cosine < -1.0) cosine = -1.0;
+        *angle = (200./M_PI) * acos(cosine);
     }
 }
 
-- 
2.43.0


From b1bf970c1d26f3de228fd36699bcc80c1b80dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:38 +0000
Subject: [PATCH 38/74] fix: last step of backward tracking used a stale frame
 before the first

When the sequence starts inside a longer one that was tracked before, the
first frame's particles have links to an earlier frame which is not read. The
position left in the recycled window slot was then used in its place.
---
 liboptv/src/track.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 962fd46..13a48e6 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -1281,7 +1281,12 @@ double trackback_c (tracking_run *run_info)
 
         fb_next(fb);
         fb_write_frame_from_start(fb, step);
-        if(step > seq_par->first + 2) { fb_read_frame_at_end(fb, step - 3, 1); }
+        if(step > seq_par->first + 2) {
+            fb_read_frame_at_end(fb, step - 3, 1);
+        } else {
+            /* Nothing before the first frame, only what was there earlier. */
+            fb->buf[fb->buf_len - 1]->num_parts = 0;
+        }
     }     /* end of sequence loop */
 
     /* average of all steps */
-- 
2.43.0


From 51d75a106af31f25f2f71695572ec44d8e6db720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:03 +0000
Subject: [PATCH 39/74] fix: empty frames stored as 0 points with links stored
 as -1 could not be read

The number of points stored by the correspondence step is 0 for an empty
frame, while tracking stores -1. Both mean there is nothing to read.
---
 liboptv/src/tracking_frame_buf.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 438276a..afeacb3 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -243,7 +243,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     /* File format: first line contains the number of points, then each line is
     a record of path and correspondence info. The number of points tells a
     complete file from one that was cut short. Tracking stores -1 as the number
-    of points of a frame without any. */
+    of points of a frame without any, so any number below 1 means no points. */
     
     sprintf(fname, "%s.%d", corres_file_base, frame_num);
     filein = fopen (fname, "r");
@@ -267,7 +267,9 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
     
         read_res = fscanf(linkagein, "%d\n", &num_links);
-        if (read_res != 1 || num_links != num_points) goto finalize;
+        if (read_res != 1) goto finalize;
+        if (num_links != num_points && (num_links > 0 || num_points > 0))
+            goto finalize;
     }
     
     if (prio_file_base != NULL) {
@@ -281,7 +283,9 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
     
         read_res = fscanf(prioin, "%d\n", &num_links);
-        if (read_res != 1 || num_links != num_points) goto finalize;
+        if (read_res != 1) goto finalize;
+        if (num_links != num_points && (num_links > 0 || num_points > 0))
+            goto finalize;
     }
     
     if (num_points <= 0) {
-- 
2.43.0


From 5fade771f63e49206c2d4a01dc592860782a6d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 40/74] fix: peak_fit read outside the image at its borders

The neighbours of border pixels lie outside the image, and the limits for
touch events confused width and height. Results depended on what happened to
be next to the image in memory.
---
 liboptv/src/segmentation.c | 52 ++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index fbe6e9d..1c89c9e 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -218,6 +218,20 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
 
 
+/* grey_value() gives the grey value of a pixel, 0 for pixels outside the image.
+
+   Arguments:
+   unsigned char *img - image.
+   int imx, imy - size of the image.
+   int x, y - position of the pixel.
+*/
+static unsigned char grey_value(unsigned char *img, int imx, int imy, int x, 
+    int y)
+{
+    if (x < 0 || x >= imx || y < 0 || y >= imy) return 0;
+    return *(img + imx*y + x);
+}
+
 /* 
   peak fitting technique for particle coordinate determination  
   labeling with discontinuity, reunification with distance and profile criteria
@@ -290,14 +304,14 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           if (*(label_img + n) != 0)    continue;
 
           /* check, wether pixel is a local maximum */
-          if ( gv >= *(img + n-1)
-           &&   gv >= *(img + n+1)
-           &&   gv >= *(img + n-imx)
-           &&   gv >= *(img + n+imx)
-           &&   gv >= *(img + n-imx-1)
-           &&   gv >= *(img + n+imx-1)
-           &&   gv >= *(img + n-imx+1)
-           &&   gv >= *(img + n+imx+1) )
+          if ( gv >= grey_value(img, imx, imy, j-1, i)
+           &&   gv >= grey_value(img, imx, imy, j+1, i)
+           &&   gv >= grey_value(img, imx, imy, j, i-1)
+           &&   gv >= grey_value(img, imx, imy, j, i+1)
+           &&   gv >= grey_value(img, imx, imy, j-1, i-1)
+           &&   gv >= grey_value(img, imx, imy, j-1, i+1)
+           &&   gv >= grey_value(img, imx, imy, j+1, i-1)
+           &&   gv >= grey_value(img, imx, imy, j+1, i+1) )
             {
               /* label peak in label_img, initialize peak */
               n_peaks++;
@@ -329,7 +343,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
                       yn = y8[k];
                       xn = x8[k];
                       
-                      if (xn<0 || xn>imx || yn<0 || yn>imy) 
+                      if (xn<0 || xn>=imx || yn<0 || yn>=imy) 
                         continue;
                       
                       n = imx*yn + xn;
@@ -343,10 +357,10 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
                       if (   (gv > thres)
                          && (xn>=xmin)&&(xn<xmax) && (yn>=ymin)&&(yn<ymax-1)
                          && (gv <= gvref+disco)
-                         && (gvref + disco >= *(img + imx*(yn-1) + xn))
-                         && (gvref + disco >= *(img + imx*(yn+1) + xn))
-                         && (gvref + disco >= *(img + imx*yn + (xn-1)))
-                         && (gvref + disco >= *(img + imx*yn + (xn+1)))
+                         && (gvref + disco >= grey_value(img, imx, imy, xn, yn-1))
+                         && (gvref + disco >= grey_value(img, imx, imy, xn, yn+1))
+                         && (gvref + disco >= grey_value(img, imx, imy, xn-1, yn))
+                         && (gvref + disco >= grey_value(img, imx, imy, xn+1, yn))
                          )
                         {
                           *(label_img + imx*yn + xn) = n_peaks;
@@ -391,16 +405,16 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
               /* get touch events */
 
-              if (i>0 && j>1)           check_touch (ptr_peak, pnr, *(label_img+n-imx-1));
+              if (i>0 && j>0)           check_touch (ptr_peak, pnr, *(label_img+n-imx-1));
               if (i>0)                  check_touch (ptr_peak, pnr, *(label_img+n-imx));
-              if (i>0 && j<imy-1)       check_touch (ptr_peak, pnr, *(label_img+n-imx+1));
+              if (i>0 && j<imx-1)       check_touch (ptr_peak, pnr, *(label_img+n-imx+1));
 
               if (j>0)                  check_touch (ptr_peak, pnr, *(label_img+n-1));
-              if (j<imy-1)              check_touch (ptr_peak, pnr, *(label_img+n+1));
+              if (j<imx-1)              check_touch (ptr_peak, pnr, *(label_img+n+1));
 
-              if (i<imx-1 && j>0)       check_touch (ptr_peak, pnr, *(label_img+n+imx-1));
-              if (i<imx-1)              check_touch (ptr_peak, pnr, *(label_img+n+imx));
-              if (i<imx-1 && j<imy-1)   check_touch (ptr_peak, pnr, *(label_img+n+imx+1));
+              if (i<imy-1 && j>0)       check_touch (ptr_peak, pnr, *(label_img+n+imx-1));
+              if (i<imy-1)              check_touch (ptr_peak, pnr, *(label_img+n+imx));
+              if (i<imy-1 && j<imx-1)   check_touch (ptr_peak, pnr, *(label_img+n+imx+1));
           }
     }
 
-- 
2.43.0


From ad0a2c2f08ad2360c944d3de2a905388188ff0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:40 +0000
Subject: [PATCH 41/74] fix: segmentation overran its fixed-size tables on
 large blobs and busy images

More than 2048 waiting pixels overran the waiting list on the stack, and more
than 4096 peaks overran the table of peaks on the heap.
---
 liboptv/src/segmentation.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 1c89c9e..4deea94 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -55,7 +55,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
     register unsigned char    gv, gvref;
 
-    targpix waitlist[2048];
+    targpix *waitlist;  /* every pixel is listed once at most */
 
     /* avoid many dereferences */
     int imx, imy;
@@ -69,6 +69,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
     /* copy image to a temporary mask */
     img0 = (unsigned char *) calloc (imx*imy, 1);
+    waitlist = (targpix *) malloc (imx*imy*sizeof(targpix));
     memcpy(img0, img, imx*imy);
 
     // printf("in segmentation.c memcpy succeded\n");
@@ -200,6 +201,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
           } /*  end of if-loop  */
     }
     free(img0);
+    free(waitlist);
     /* protect pix from zero memory */
     if (n_targets < 1){
         pix[0].n = 1;
@@ -274,11 +276,11 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     unsigned char gv, gvref;      /* current and reference greyvalue */
     unsigned char gv1, gv2;           /* greyvalues for profile test */
     double        x1,x2,y1,y2,s12;    /* values for profile test */
-    short         *label_img;           /* target number labeling */
+    int           *label_img;           /* target number labeling */
     /* the following were not assigned, probably from globals */
-    int nmax = 1024; 
+    int max_peaks = 4096;  /* peaks there is place for, extended as needed */
     peak          *peaks, *ptr_peak;    /* detected peaks */
-    targpix       waitlist[2048];     /* pix to be tested for connectivity */
+    targpix       *waitlist;          /* pix to be tested for connectivity */
 
     imx = cpar->imx;
     imy = cpar->imy;
@@ -287,9 +289,9 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     disco = targ_par->discont;
 
     /* allocate memory */
-    label_img = (short *) calloc (imx*imy, sizeof(short));
-    peaks = (peak *) calloc (4*nmax, sizeof(peak));
-    ptr_peak = peaks;
+    label_img = (int *) calloc (imx*imy, sizeof(int));
+    waitlist = (targpix *) malloc (imx*imy*sizeof(targpix));
+    peaks = (peak *) malloc (max_peaks*sizeof(peak));
 
 
     /* connectivity analysis with peak search and discontinuity criterion */
@@ -314,6 +316,11 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
            &&   gv >= grey_value(img, imx, imy, j+1, i+1) )
             {
               /* label peak in label_img, initialize peak */
+              if (n_peaks == max_peaks) {
+                  max_peaks *= 2;
+                  peaks = (peak *) realloc (peaks, max_peaks*sizeof(peak));
+              }
+              ptr_peak = peaks + n_peaks;
               n_peaks++;
               *(label_img + n) = n_peaks;
               ptr_peak->pos = n;
@@ -327,7 +334,6 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
               ptr_peak->y = 0;
               ptr_peak->n_touch = 0;
               for (k=0; k<4; k++)   ptr_peak->touch[k] = 0;
-              ptr_peak++;
 
               waitlist[0][0] = j;  waitlist[0][1] = i;  n_wait = 1;
 
@@ -512,6 +518,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     }
     
     free (label_img);
+    free (waitlist);
     free (peaks);
 
     return (n_target);
-- 
2.43.0


From aaa03b963ae7199a70ae920a4b86df5e761d8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:12 +0000
Subject: [PATCH 42/74] fix: a dot unified with the first dot of an image was
 reported as well

---
 liboptv/src/segmentation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 4deea94..16ffc30 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -469,7 +469,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
           /* otherwise unify targets */
           unified++;
-          peaks[i].unr = p2;
+          peaks[i].unr = p2 + 1; /* 0 means not unified */
           peaks[p2].x += peaks[i].x;
           peaks[p2].y += peaks[i].y;
           peaks[p2].sumg += peaks[i].sumg;
-- 
2.43.0


From adb62277c760338326c4e0c2363842cdfe05e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:56 +0000
Subject: [PATCH 43/74] fix: match counts were left unset when matching runs
 out of memory

---
 liboptv/src/correspondences.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 8e17665..2d610e2 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -607,7 +607,7 @@ int take_best_candidates(n_tupel *src, n_tupel *dst,
     
     Returns:
     n_tupel con - the sorted list of correspondences in descending quality
-        order.
+        order. NULL if memory runs out, then match_counts are all 0.
 */
 n_tupel *correspondences (frame *frm, coord_2d **corrected, 
   volume_par *vpar, control_par *cpar, Calibration **calib, int match_counts[])
@@ -617,6 +617,8 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   correspond *list[4][4];
   int **tim;
   
+  for (i=0; i<4; i++)  match_counts[i] = 0; 
+
   /* Allocation of scratch buffers for internal tasks and return-value 
      space. 
   */
@@ -653,8 +655,6 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
     con0[i].corr = 0.0;
   }
   
-  for (i=0; i<4; i++)  match_counts[i] = 0; 
-
   /* Generate adjacency lists: mark candidates for correspondence.
      matching  1 -> 2,3,4  +  2 -> 3,4  +  3 -> 4 */
   match_pairs(list, corrected, frm, vpar, cpar, calib);
-- 
2.43.0


From 75012821e5b0fb707a9cce4285b11e7f06c98f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 44/74] fix: running out of memory in matching crashed the
 Python binding

---
 py_bind/optv/correspondences.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 6633c72..8319ee0 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -180,6 +180,13 @@ def correspondences(list img_pts, list flat_coords, list cals,
     # The biz:
     corresp_buf = corresp(&frm, corrected, 
         vparam._volume_par, cparam._control_par, calib, match_counts)
+    if corresp_buf == NULL:
+        free(frm.targets)
+        free(frm.num_targets)
+        free(calib)
+        free(corrected)
+        free(match_counts)
+        raise MemoryError("not enough memory for finding correspondences")
     
     # Distribute data to return structures:
     sorted_pos = [None]*(num_cams - 1)
-- 
2.43.0


From dd944a505bc00deba602aa9d8b28a17848955c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 45/74] fix: restore the line endings of multimed.c that
 6112cb1 had changed

---
 liboptv/src/multimed.c | 940 ++++++++++++++++++++---------------------
 1 file changed, 470 insertions(+), 470 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 1bf4575..609ff6c 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -1,470 +1,470 @@
-/****************************************************************************
-
-Routine:            multimed.c
-
-Author/Copyright:       Hans-Gerd Maas
-
-Address:            Institute of Geodesy and Photogrammetry
-                    ETH - Hoenggerberg
-                    CH - 8093 Zurich
-
-Creation Date:          20.4.88
-    
-Description:            
-1 point, exterior orientation, multimedia parameters    ==> X,Y=shifts
-          (special case 3 media, medium 2 = plane parallel)
-                            
-Routines contained:     -
-
-****************************************************************************/
-
-#include "multimed.h"
-
-/*  multimed_nlay() creates the Xq,Yq points for each X,Y point in the image space
-    using radial shift from the multimedia model.
-    
-    Arguments:
-    Calibration *cal - calibration parameters.
-    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
-        layers)
-    vec3d pos - three doubles of the particle position in the 3D space.
-    double *Xq, *Yq - returned values; two dimensional position on the glass 
-        surface separating the water from air.
-*/
-void  multimed_nlay (Calibration *cal, mm_np *mm, vec3d pos, 
-    double *Xq, double *Yq)
-{
-    double  radial_shift;
-      
-    radial_shift = multimed_r_nlay (cal, mm, pos); 
-
-    /* if radial_shift == 1.0, this degenerates to Xq = X, Yq = Y  */
-    *Xq = cal->ext_par.x0 + (pos[0] - cal->ext_par.x0) * radial_shift;
-    *Yq = cal->ext_par.y0 + (pos[1] - cal->ext_par.y0) * radial_shift;
-}
-
-
-/*  multimedia_r_nlay() calculates and returns the radial shift
-    
-    Arguments:
-    Calibration *cal - calibration parameters.
-    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
-        layers)
-    vec3d pos - three doubles of the particle position in the 3D space.
-    
-    Returns:
-    double radial_shift: default is 1.0 if no solution is found
-*/
-double multimed_r_nlay (Calibration *cal, mm_np *mm, vec3d pos) {
-    int i, it = 0;
-    int n_iter = 40;
-    double beta1, beta2[32], beta3, r, rbeta, rdiff, rq, mmf=1.0;
-    double X,Y,Z;
-    double zout;
-    
-    /* 1-medium case */
-    if (mm->n1 == 1 && mm->nlay == 1 && mm->n2[0]== 1 && mm->n3 == 1)
-        return (1.0);
-    
-    /* interpolation using the existing mmlut */
-	if (cal->mmlut.data != NULL) {
-        mmf = get_mmf_from_mmlut(cal, pos);
-        if (mmf > 0) return (mmf);
-    }
-    
-    /* iterative procedure */
-    X = pos[0];
-    Y = pos[1];
-    Z = pos[2];
-    
-    /* Extra layers protrude into water side: */
-    zout = Z;
-    for (i = 1; i < mm->nlay; i++)
-        zout += mm->d[i];
-    
-    r = norm((X - cal->ext_par.x0), (Y - cal->ext_par.y0), 0);
-    rq = r;
-  
-    do
-    {
-        beta1 = atan (rq/(cal->ext_par.z0 - Z));
-        for (i = 0; i < mm->nlay; i++)
-            beta2[i] = asin (sin(beta1) * mm->n1/mm->n2[i]);
-        beta3 = asin (sin(beta1) * mm->n1/mm->n3);
-
-        rbeta = (cal->ext_par.z0 - mm->d[0]) * tan(beta1) - zout * tan(beta3);
-        for (i = 0; i < mm->nlay; i++)
-            rbeta += (mm->d[i] * tan(beta2[i]));
-        
-        rdiff = r - rbeta;
-        rq += rdiff;
-        it++;
-    }
-    while (((rdiff > 0.001) || (rdiff < -0.001))  &&  it < n_iter);
-
- 
-    if (it >= n_iter) {
-        printf ("multimed_r_nlay stopped after %d iterations\n", n_iter);  
-        return (1.0);
-    }
-
-    if (r != 0){ 
-        return (rq/r);
-    }  
-    else {
-        return (1.0);
-    }
-}
-
-/*  trans_Cam_Point() projects global-coordinate points of the camera and an
-    image points on the glass surface separating those points.
-    
-    Input arguments:
-    Exterior ex - holding global-coordinates camera position.
-    mm_np mm - holding glass thickness.
-    Glass gl - holding the glass position in global-coordinates as a 
-        glass-normal vector.
-    vec3d pos - the global coordinates of the observed point.
-    
-    Output arguments:
-    Exterior ex_t - only the primary point fields are used, and are set 
-        to the glass/Z axis intersection.
-    double cross_p[3] - the observed point projection coordinates in global
-        coordinates.
-    double cross_c[3] - same for the camera position. Since the camera point
-        is projected on the other side of the glass, it'll have a small 
-        difference in Z value from ``cross_p``.
-*/
-void trans_Cam_Point(Exterior ex, mm_np mm, Glass gl, vec3d pos, 
-    Exterior *ex_t, vec3d pos_t, double cross_p[3], double cross_c[3])
-{
-    double dist_cam_glas,dist_point_glas,dist_o_glas; //glas inside at water 
-    vec3d glass_dir, primary_pt, renorm_glass, temp;
-    
-    vec_set(glass_dir, gl.vec_x, gl.vec_y, gl.vec_z);
-    vec_set(primary_pt, ex.x0, ex.y0, ex.z0);
-
-    dist_o_glas = vec_norm(glass_dir);
-    dist_cam_glas = vec_dot(primary_pt, glass_dir) / dist_o_glas \
-        - dist_o_glas - mm.d[0];
-    dist_point_glas = vec_dot(pos, glass_dir) / dist_o_glas - dist_o_glas;
-
-    vec_scalar_mul(glass_dir, dist_cam_glas/dist_o_glas, renorm_glass);
-    vec_subt(primary_pt, renorm_glass, cross_c);
-
-    vec_scalar_mul(glass_dir, dist_point_glas/dist_o_glas, renorm_glass);
-    vec_subt(pos, renorm_glass, cross_p);
-
-    ex_t->x0 = 0.;
-    ex_t->y0 = 0.;
-    ex_t->z0 = dist_cam_glas + mm.d[0];
-
-    vec_scalar_mul(glass_dir, mm.d[0]/dist_o_glas, renorm_glass);
-    vec_subt(cross_c, renorm_glass, temp);
-    vec_subt(cross_p, temp, temp);
-    
-    vec_set(pos_t, vec_norm(temp), 0, dist_point_glas);
-}
-
-/* the opposite direction transfer from X_t,Y_t,Z_t to the X,Y,Z in 3D space */
-
-void back_trans_Point(vec3d pos_t, mm_np mm, Glass G, double cross_p[3], 
-    double cross_c[3], vec3d pos)
-{  
-    double nVe, nGl;
-    vec3d glass_dir, renorm_glass, after_glass, temp;
-    
-    vec_set(glass_dir, G.vec_x, G.vec_y, G.vec_z);
-    nGl = vec_norm(glass_dir);
-    
-    vec_scalar_mul(glass_dir, mm.d[0]/nGl, renorm_glass);
-    vec_subt(cross_c, renorm_glass, after_glass);
-    vec_subt(cross_p, after_glass, temp);
-    
-    nVe = vec_norm(temp);
-    
-    vec_scalar_mul(glass_dir, -pos_t[2]/nGl, renorm_glass);
-    vec_subt(after_glass, renorm_glass, pos);
-    
-    if (nVe > 0) {  
-        /* We need this for when the cam-point line is exactly perp. to glass.
-         The degenerate case will have nVe == 0 and produce NaNs on the
-         following calculations.
-        */
-        vec_scalar_mul(temp, -pos_t[0]/nVe, renorm_glass);
-        vec_subt(pos, renorm_glass, pos);
-    }
-}
-
-/*  move_along_ray() calculates the position of a point in a global Z value
-    along a ray whose vertex and direction are given.
-    
-    Arguments:
-    double glob_Z - the Z value of the result point in the global
-        coordinate system.
-    vec3d vertex - the ray vertex.
-    vec3d direct - the ray direction, a unit vector.
-    vec3d out - result buffer.
-*/
-void move_along_ray(double glob_Z, vec3d vertex, vec3d direct, vec3d out) {
-    out[0] = vertex[0] + (glob_Z - vertex[2]) * direct[0]/direct[2];   
-    out[1] = vertex[1] + (glob_Z - vertex[2]) * direct[1]/direct[2];
-    out[2] = glob_Z;
-}
-
-/*  init_mmlut() prepares the multimedia Look-Up Table for a single camera
-    Arguments: 
-    
-    volume_par *vpar - struct holding the observed volume size.
-    control_par *cpar - struct holding general control parameters such as 
-        image size.
-    Calibration *cal - current single-camera positioning and other camera-
-        specific data.
-    
-    Output:
-    initializes data in cal->mmlut->data
-*/ 
-void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
-  register int  i,j, nr, nz;
-  double R, Zmin, Rmax=0, Zmax;
-  vec3d pos, a, xyz, xyz_t; 
-  double x,y, *Ri,*Zi, *data;
-  double rw = 2.0; 
-
-  /* A frame representing a point outside tank, middle of glass*/
-  Calibration cal_t;
-
-  double Zmin_t, Zmax_t;
-  double cross_p[3],cross_c[3]; 
-  double xc[2], yc[2];  /* image corners */
-  
-  /* image corners */
-  xc[0] = 0.0;
-  xc[1] = (double) cpar->imx;
-  yc[0] = 0.0;
-  yc[1] = (double) cpar->imy;
-
-  /* find extrema of imaged object volume */      
-  Zmin = vpar->Zmin_lay[0];
-  Zmax = vpar->Zmax_lay[0];
-  
-  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
-  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
- 
-  Zmin -= fmod (Zmin, rw);
-  Zmax += (rw - fmod (Zmax, rw));
-  Zmin_t=Zmin;
-  Zmax_t=Zmax;
-
-  /* intersect with image vertices rays */
-  cal_t = *cal;
-  cal_t.mmlut.data = NULL; /* only filled below */
-
-  for (i = 0; i < 2; i ++) {
-      for (j = 0; j < 2; j++) {
-          pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
-
-          x = x - cal->int_par.xh;
-          y = y - cal->int_par.yh;
-  
-          correct_brown_affin (x, y, cal->added_par, &x,&y);  
-          ray_tracing(x, y, cal, *(cpar->mm), pos, a);
-          
-          move_along_ray(Zmin, pos, a, xyz);
-          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz, \
-            &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
-
-          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
-          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
-
-          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
-          if (R > Rmax)
-              Rmax = R;
-           
-          move_along_ray(Zmax, pos, a, xyz);
-          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz,\
-              &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
-  
-          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
-          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
-
-          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
-          if (R > Rmax)
-              Rmax = R;
-      }
-  }
-
-  /* round values (-> enlarge) */
-  Rmax += (rw - fmod (Rmax, rw));
-
-  /* get # of rasterlines in r,z */
-  nr = (int)(Rmax/rw + 1);
-  nz = (int)((Zmax_t-Zmin_t)/rw + 1);
-
-  /* create two dimensional mmlut structure */
-  vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
-  
-  cal->mmlut.nr = nr;
-  cal->mmlut.nz = nz;
-  cal->mmlut.rw = rw;
-  
-  /* A table made earlier may be for another volume. */
-  free (cal->mmlut.data);
-  cal->mmlut.data = NULL;
-  
-      data = (double *) malloc (nr*nz * sizeof (double));
-  
-      /* fill mmlut structure */
-      Ri = (double *) malloc (nr * sizeof (double));
-      for (i = 0; i < nr; i++)
-        Ri[i] = i*rw;
-
-      Zi = (double *) malloc (nz * sizeof (double));
-      for (i = 0; i < nz; i++)
-        Zi[i] = Zmin_t + i*rw;
-
-      for (i = 0; i < nr; i++) {
-        for (j = 0; j < nz; j++) {
-            vec_set(xyz, Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]);
-            data[i*nz + j] = multimed_r_nlay(&cal_t, cpar->mm, xyz);
-        } /* nr */
-      } /* nz */
-    
-      free (Ri);
-      free (Zi);
-      cal->mmlut.data = data;
-}
-
-
-/*  get_mmf_from_mmlut() returns the value of mmf (double) for a 3D point
-    using the multimedia look up table.
-    
-    Arguments:
-    pos - vector of 3 doubles, position in 3D space 
-   Calibration parameters pointer, *cal
-*/
-double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
-    int i, ir,iz, nr,nz, rw, v4[4];
-    double R, sr, sz, mmf = 1.0;
-    vec3d temp;
-    
-    rw = cal->mmlut.rw;
-  
-    vec_subt(pos, cal->mmlut.origin, temp);
-    sz = temp[2]/rw;
-    iz = (int) sz;
-    sz -= iz;
-    
-    R = norm(temp[0], temp[1], 0);
-    
-    sr = R/rw;
-    ir = (int) sr;
-    sr -= ir;
-  
-    nz = cal->mmlut.nz;
-    nr = cal->mmlut.nr;
-    
-    /* check whether point is inside camera's object volume */
-    if (ir + 1 >= nr)
-        return (0);
-    if (iz < 0  ||  iz + 1 >= nz)
-        return (0);
-  
-    /* bilinear interpolation in r/z box */
-    /* ================================= */
-  
-    /* get vertices of box */
-    v4[0] = ir*nz + iz;
-    v4[1] = ir*nz + (iz+1);
-    v4[2] = (ir+1)*nz + iz;
-    v4[3] = (ir+1)*nz + (iz+1);
-  
-    /* 2. check wther point is inside camera's object volume */
-    /* important for epipolar line computation */
-    for (i = 0; i < 4; i++)
-        if (v4[i] < 0  ||  v4[i] >= nr*nz)
-            return (0);
-    
-    /* interpolate */
-    mmf = cal->mmlut.data[v4[0]] * (1-sr)*(1-sz)
-        + cal->mmlut.data[v4[1]] * (1-sr)*sz
-        + cal->mmlut.data[v4[2]] * sr*(1-sz)
-        + cal->mmlut.data[v4[3]] * sr*sz;
-  
-    return (mmf);
-}
-
-
-/*  volumedimension() finds the limits of the measurement volume in 3D space.
-    
-    Arguments:
-    double pointers to the limits of the volume in x (xmin,xmax), y (ymin, ymax) and
-    z (zmin, zmax) directions
-    volume_par *vpar - struct holding the observed volume size.
-    control_par *cpar - struct holding general control parameters such as 
-        image size.
-    Calibration *cal - scene parameters.
-*/  
-void volumedimension (double *xmax, double *xmin, 
-    double *ymax, double *ymin,
-    double *zmax, double *zmin,
-    volume_par *vpar, control_par *cpar, Calibration **cal)
-{
-  int i_cam, i, j;
-  double X, Y;
-  vec3d pos, a;
-  double x,y;  
-  double xc[2], yc[2];  /* image corners */
-  double Zmin, Zmax;
-  
-  xc[0] = 0.0;
-  xc[1] = (double) cpar->imx;
-  yc[0] = 0.0;
-  yc[1] = (double) cpar->imy;
-  
-  Zmin = vpar->Zmin_lay[0];
-  Zmax = vpar->Zmax_lay[0];
-  
-  /* there is a bug, see the original multimed.c  
-  https://github.com/3dptv/3dptv/src_c/multimed.c#L899
-  obviously we have left and right side that could be smaller or larger in Z
-  */
-  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
-  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
-
-  *zmin = Zmin;
-  *zmax = Zmax;
-    
-  /* find extrema of imaged object volume */
-  for (i_cam = 0; i_cam < cpar->num_cams; i_cam++) {
-      for (i = 0; i < 2; i ++) {
-          for (j = 0; j < 2; j++) {
-              pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
-              x = x - cal[i_cam]->int_par.xh;
-              y = y - cal[i_cam]->int_par.yh;
-              correct_brown_affin (x, y, cal[i_cam]->added_par, &x, &y);
-          
-              ray_tracing(x, y, cal[i_cam], *(cpar->mm), pos, a);
-          
-              X = pos[0] + (Zmin - pos[2]) * a[0]/a[2];   
-              Y = pos[1] + (Zmin - pos[2]) * a[1]/a[2];
-              
-                     
-              if ( X > *xmax) *xmax = X;
-              if ( X < *xmin) *xmin = X;
-              if ( Y > *ymax) *ymax = Y;
-              if ( Y < *ymin) *ymin = Y;
-
-              X = pos[0] + (Zmax - pos[2]) * a[0]/a[2];   
-              Y = pos[1] + (Zmax - pos[2]) * a[1]/a[2];
-        
-              if ( X > *xmax) *xmax = X;
-              if ( X < *xmin) *xmin = X;
-              if ( Y > *ymax) *ymax = Y;
-              if ( Y < *ymin) *ymin = Y;
-        
-          }
-      }
-  }
-}
-
+/****************************************************************************
+
+Routine:            multimed.c
+
+Author/Copyright:       Hans-Gerd Maas
+
+Address:            Institute of Geodesy and Photogrammetry
+                    ETH - Hoenggerberg
+                    CH - 8093 Zurich
+
+Creation Date:          20.4.88
+    
+Description:            
+1 point, exterior orientation, multimedia parameters    ==> X,Y=shifts
+          (special case 3 media, medium 2 = plane parallel)
+                            
+Routines contained:     -
+
+****************************************************************************/
+
+#include "multimed.h"
+
+/*  multimed_nlay() creates the Xq,Yq points for each X,Y point in the image space
+    using radial shift from the multimedia model.
+    
+    Arguments:
+    Calibration *cal - calibration parameters.
+    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
+        layers)
+    vec3d pos - three doubles of the particle position in the 3D space.
+    double *Xq, *Yq - returned values; two dimensional position on the glass 
+        surface separating the water from air.
+*/
+void  multimed_nlay (Calibration *cal, mm_np *mm, vec3d pos, 
+    double *Xq, double *Yq)
+{
+    double  radial_shift;
+      
+    radial_shift = multimed_r_nlay (cal, mm, pos); 
+
+    /* if radial_shift == 1.0, this degenerates to Xq = X, Yq = Y  */
+    *Xq = cal->ext_par.x0 + (pos[0] - cal->ext_par.x0) * radial_shift;
+    *Yq = cal->ext_par.y0 + (pos[1] - cal->ext_par.y0) * radial_shift;
+}
+
+
+/*  multimedia_r_nlay() calculates and returns the radial shift
+    
+    Arguments:
+    Calibration *cal - calibration parameters.
+    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
+        layers)
+    vec3d pos - three doubles of the particle position in the 3D space.
+    
+    Returns:
+    double radial_shift: default is 1.0 if no solution is found
+*/
+double multimed_r_nlay (Calibration *cal, mm_np *mm, vec3d pos) {
+    int i, it = 0;
+    int n_iter = 40;
+    double beta1, beta2[32], beta3, r, rbeta, rdiff, rq, mmf=1.0;
+    double X,Y,Z;
+    double zout;
+    
+    /* 1-medium case */
+    if (mm->n1 == 1 && mm->nlay == 1 && mm->n2[0]== 1 && mm->n3 == 1)
+        return (1.0);
+    
+    /* interpolation using the existing mmlut */
+	if (cal->mmlut.data != NULL) {
+        mmf = get_mmf_from_mmlut(cal, pos);
+        if (mmf > 0) return (mmf);
+    }
+    
+    /* iterative procedure */
+    X = pos[0];
+    Y = pos[1];
+    Z = pos[2];
+    
+    /* Extra layers protrude into water side: */
+    zout = Z;
+    for (i = 1; i < mm->nlay; i++)
+        zout += mm->d[i];
+    
+    r = norm((X - cal->ext_par.x0), (Y - cal->ext_par.y0), 0);
+    rq = r;
+  
+    do
+    {
+        beta1 = atan (rq/(cal->ext_par.z0 - Z));
+        for (i = 0; i < mm->nlay; i++)
+            beta2[i] = asin (sin(beta1) * mm->n1/mm->n2[i]);
+        beta3 = asin (sin(beta1) * mm->n1/mm->n3);
+
+        rbeta = (cal->ext_par.z0 - mm->d[0]) * tan(beta1) - zout * tan(beta3);
+        for (i = 0; i < mm->nlay; i++)
+            rbeta += (mm->d[i] * tan(beta2[i]));
+        
+        rdiff = r - rbeta;
+        rq += rdiff;
+        it++;
+    }
+    while (((rdiff > 0.001) || (rdiff < -0.001))  &&  it < n_iter);
+
+ 
+    if (it >= n_iter) {
+        printf ("multimed_r_nlay stopped after %d iterations\n", n_iter);  
+        return (1.0);
+    }
+
+    if (r != 0){ 
+        return (rq/r);
+    }  
+    else {
+        return (1.0);
+    }
+}
+
+/*  trans_Cam_Point() projects global-coordinate points of the camera and an
+    image points on the glass surface separating those points.
+    
+    Input arguments:
+    Exterior ex - holding global-coordinates camera position.
+    mm_np mm - holding glass thickness.
+    Glass gl - holding the glass position in global-coordinates as a 
+        glass-normal vector.
+    vec3d pos - the global coordinates of the observed point.
+    
+    Output arguments:
+    Exterior ex_t - only the primary point fields are used, and are set 
+        to the glass/Z axis intersection.
+    double cross_p[3] - the observed point projection coordinates in global
+        coordinates.
+    double cross_c[3] - same for the camera position. Since the camera point
+        is projected on the other side of the glass, it'll have a small 
+        difference in Z value from ``cross_p``.
+*/
+void trans_Cam_Point(Exterior ex, mm_np mm, Glass gl, vec3d pos, 
+    Exterior *ex_t, vec3d pos_t, double cross_p[3], double cross_c[3])
+{
+    double dist_cam_glas,dist_point_glas,dist_o_glas; //glas inside at water 
+    vec3d glass_dir, primary_pt, renorm_glass, temp;
+    
+    vec_set(glass_dir, gl.vec_x, gl.vec_y, gl.vec_z);
+    vec_set(primary_pt, ex.x0, ex.y0, ex.z0);
+
+    dist_o_glas = vec_norm(glass_dir);
+    dist_cam_glas = vec_dot(primary_pt, glass_dir) / dist_o_glas \
+        - dist_o_glas - mm.d[0];
+    dist_point_glas = vec_dot(pos, glass_dir) / dist_o_glas - dist_o_glas;
+
+    vec_scalar_mul(glass_dir, dist_cam_glas/dist_o_glas, renorm_glass);
+    vec_subt(primary_pt, renorm_glass, cross_c);
+
+    vec_scalar_mul(glass_dir, dist_point_glas/dist_o_glas, renorm_glass);
+    vec_subt(pos, renorm_glass, cross_p);
+
+    ex_t->x0 = 0.;
+    ex_t->y0 = 0.;
+    ex_t->z0 = dist_cam_glas + mm.d[0];
+
+    vec_scalar_mul(glass_dir, mm.d[0]/dist_o_glas, renorm_glass);
+    vec_subt(cross_c, renorm_glass, temp);
+    vec_subt(cross_p, temp, temp);
+    
+    vec_set(pos_t, vec_norm(temp), 0, dist_point_glas);
+}
+
+/* the opposite direction transfer from X_t,Y_t,Z_t to the X,Y,Z in 3D space */
+
+void back_trans_Point(vec3d pos_t, mm_np mm, Glass G, double cross_p[3], 
+    double cross_c[3], vec3d pos)
+{  
+    double nVe, nGl;
+    vec3d glass_dir, renorm_glass, after_glass, temp;
+    
+    vec_set(glass_dir, G.vec_x, G.vec_y, G.vec_z);
+    nGl = vec_norm(glass_dir);
+    
+    vec_scalar_mul(glass_dir, mm.d[0]/nGl, renorm_glass);
+    vec_subt(cross_c, renorm_glass, after_glass);
+    vec_subt(cross_p, after_glass, temp);
+    
+    nVe = vec_norm(temp);
+    
+    vec_scalar_mul(glass_dir, -pos_t[2]/nGl, renorm_glass);
+    vec_subt(after_glass, renorm_glass, pos);
+    
+    if (nVe > 0) {  
+        /* We need this for when the cam-point line is exactly perp. to glass.
+         The degenerate case will have nVe == 0 and produce NaNs on the
+         following calculations.
+        */
+        vec_scalar_mul(temp, -pos_t[0]/nVe, renorm_glass);
+        vec_subt(pos, renorm_glass, pos);
+    }
+}
+
+/*  move_along_ray() calculates the position of a point in a global Z value
+    along a ray whose vertex and direction are given.
+    
+    Arguments:
+    double glob_Z - the Z value of the result point in the global
+        coordinate system.
+    vec3d vertex - the ray vertex.
+    vec3d direct - the ray direction, a unit vector.
+    vec3d out - result buffer.
+*/
+void move_along_ray(double glob_Z, vec3d vertex, vec3d direct, vec3d out) {
+    out[0] = vertex[0] + (glob_Z - vertex[2]) * direct[0]/direct[2];   
+    out[1] = vertex[1] + (glob_Z - vertex[2]) * direct[1]/direct[2];
+    out[2] = glob_Z;
+}
+
+/*  init_mmlut() prepares the multimedia Look-Up Table for a single camera
+    Arguments: 
+    
+    volume_par *vpar - struct holding the observed volume size.
+    control_par *cpar - struct holding general control parameters such as 
+        image size.
+    Calibration *cal - current single-camera positioning and other camera-
+        specific data.
+    
+    Output:
+    initializes data in cal->mmlut->data
+*/ 
+void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
+  register int  i,j, nr, nz;
+  double R, Zmin, Rmax=0, Zmax;
+  vec3d pos, a, xyz, xyz_t; 
+  double x,y, *Ri,*Zi, *data;
+  double rw = 2.0; 
+
+  /* A frame representing a point outside tank, middle of glass*/
+  Calibration cal_t;
+
+  double Zmin_t, Zmax_t;
+  double cross_p[3],cross_c[3]; 
+  double xc[2], yc[2];  /* image corners */
+  
+  /* image corners */
+  xc[0] = 0.0;
+  xc[1] = (double) cpar->imx;
+  yc[0] = 0.0;
+  yc[1] = (double) cpar->imy;
+
+  /* find extrema of imaged object volume */      
+  Zmin = vpar->Zmin_lay[0];
+  Zmax = vpar->Zmax_lay[0];
+  
+  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
+  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
+ 
+  Zmin -= fmod (Zmin, rw);
+  Zmax += (rw - fmod (Zmax, rw));
+  Zmin_t=Zmin;
+  Zmax_t=Zmax;
+
+  /* intersect with image vertices rays */
+  cal_t = *cal;
+  cal_t.mmlut.data = NULL; /* only filled below */
+
+  for (i = 0; i < 2; i ++) {
+      for (j = 0; j < 2; j++) {
+          pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
+
+          x = x - cal->int_par.xh;
+          y = y - cal->int_par.yh;
+  
+          correct_brown_affin (x, y, cal->added_par, &x,&y);  
+          ray_tracing(x, y, cal, *(cpar->mm), pos, a);
+          
+          move_along_ray(Zmin, pos, a, xyz);
+          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz, \
+            &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
+
+          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
+          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
+
+          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
+          if (R > Rmax)
+              Rmax = R;
+           
+          move_along_ray(Zmax, pos, a, xyz);
+          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz,\
+              &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
+  
+          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
+          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
+
+          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
+          if (R > Rmax)
+              Rmax = R;
+      }
+  }
+
+  /* round values (-> enlarge) */
+  Rmax += (rw - fmod (Rmax, rw));
+
+  /* get # of rasterlines in r,z */
+  nr = (int)(Rmax/rw + 1);
+  nz = (int)((Zmax_t-Zmin_t)/rw + 1);
+
+  /* create two dimensional mmlut structure */
+  vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
+  
+  cal->mmlut.nr = nr;
+  cal->mmlut.nz = nz;
+  cal->mmlut.rw = rw;
+  
+  /* A table made earlier may be for another volume. */
+  free (cal->mmlut.data);
+  cal->mmlut.data = NULL;
+  
+      data = (double *) malloc (nr*nz * sizeof (double));
+  
+      /* fill mmlut structure */
+      Ri = (double *) malloc (nr * sizeof (double));
+      for (i = 0; i < nr; i++)
+        Ri[i] = i*rw;
+
+      Zi = (double *) malloc (nz * sizeof (double));
+      for (i = 0; i < nz; i++)
+        Zi[i] = Zmin_t + i*rw;
+
+      for (i = 0; i < nr; i++) {
+        for (j = 0; j < nz; j++) {
+            vec_set(xyz, Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]);
+            data[i*nz + j] = multimed_r_nlay(&cal_t, cpar->mm, xyz);
+        } /* nr */
+      } /* nz */
+    
+      free (Ri);
+      free (Zi);
+      cal->mmlut.data = data;
+}
+
+
+/*  get_mmf_from_mmlut() returns the value of mmf (double) for a 3D point
+    using the multimedia look up table.
+    
+    Arguments:
+    pos - vector of 3 doubles, position in 3D space 
+   Calibration parameters pointer, *cal
+*/
+double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
+    int i, ir,iz, nr,nz, rw, v4[4];
+    double R, sr, sz, mmf = 1.0;
+    vec3d temp;
+    
+    rw = cal->mmlut.rw;
+  
+    vec_subt(pos, cal->mmlut.origin, temp);
+    sz = temp[2]/rw;
+    iz = (int) sz;
+    sz -= iz;
+    
+    R = norm(temp[0], temp[1], 0);
+    
+    sr = R/rw;
+    ir = (int) sr;
+    sr -= ir;
+  
+    nz = cal->mmlut.nz;
+    nr = cal->mmlut.nr;
+    
+    /* check whether point is inside camera's object volume */
+    if (ir + 1 >= nr)
+        return (0);
+    if (iz < 0  ||  iz + 1 >= nz)
+        return (0);
+  
+    /* bilinear interpolation in r/z box */
+    /* ================================= */
+  
+    /* get vertices of box */
+    v4[0] = ir*nz + iz;
+    v4[1] = ir*nz + (iz+1);
+    v4[2] = (ir+1)*nz + iz;
+    v4[3] = (ir+1)*nz + (iz+1);
+  
+    /* 2. check wther point is inside camera's object volume */
+    /* important for epipolar line computation */
+    for (i = 0; i < 4; i++)
+        if (v4[i] < 0  ||  v4[i] >= nr*nz)
+            return (0);
+    
+    /* interpolate */
+    mmf = cal->mmlut.data[v4[0]] * (1-sr)*(1-sz)
+        + cal->mmlut.data[v4[1]] * (1-sr)*sz
+        + cal->mmlut.data[v4[2]] * sr*(1-sz)
+        + cal->mmlut.data[v4[3]] * sr*sz;
+  
+    return (mmf);
+}
+
+
+/*  volumedimension() finds the limits of the measurement volume in 3D space.
+    
+    Arguments:
+    double pointers to the limits of the volume in x (xmin,xmax), y (ymin, ymax) and
+    z (zmin, zmax) directions
+    volume_par *vpar - struct holding the observed volume size.
+    control_par *cpar - struct holding general control parameters such as 
+        image size.
+    Calibration *cal - scene parameters.
+*/  
+void volumedimension (double *xmax, double *xmin, 
+    double *ymax, double *ymin,
+    double *zmax, double *zmin,
+    volume_par *vpar, control_par *cpar, Calibration **cal)
+{
+  int i_cam, i, j;
+  double X, Y;
+  vec3d pos, a;
+  double x,y;  
+  double xc[2], yc[2];  /* image corners */
+  double Zmin, Zmax;
+  
+  xc[0] = 0.0;
+  xc[1] = (double) cpar->imx;
+  yc[0] = 0.0;
+  yc[1] = (double) cpar->imy;
+  
+  Zmin = vpar->Zmin_lay[0];
+  Zmax = vpar->Zmax_lay[0];
+  
+  /* there is a bug, see the original multimed.c  
+  https://github.com/3dptv/3dptv/src_c/multimed.c#L899
+  obviously we have left and right side that could be smaller or larger in Z
+  */
+  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
+  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
+
+  *zmin = Zmin;
+  *zmax = Zmax;
+    
+  /* find extrema of imaged object volume */
+  for (i_cam = 0; i_cam < cpar->num_cams; i_cam++) {
+      for (i = 0; i < 2; i ++) {
+          for (j = 0; j < 2; j++) {
+              pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
+              x = x - cal[i_cam]->int_par.xh;
+              y = y - cal[i_cam]->int_par.yh;
+              correct_brown_affin (x, y, cal[i_cam]->added_par, &x, &y);
+          
+              ray_tracing(x, y, cal[i_cam], *(cpar->mm), pos, a);
+          
+              X = pos[0] + (Zmin - pos[2]) * a[0]/a[2];   
+              Y = pos[1] + (Zmin - pos[2]) * a[1]/a[2];
+              
+                     
+              if ( X > *xmax) *xmax = X;
+              if ( X < *xmin) *xmin = X;
+              if ( Y > *ymax) *ymax = Y;
+              if ( Y < *ymin) *ymin = Y;
+
+              X = pos[0] + (Zmax - pos[2]) * a[0]/a[2];   
+              Y = pos[1] + (Zmax - pos[2]) * a[1]/a[2];
+        
+              if ( X > *xmax) *xmax = X;
+              if ( X < *xmin) *xmin = X;
+              if ( Y > *ymax) *ymax = Y;
+              if ( Y < *ymin) *ymin = Y;
+        
+          }
+      }
+  }
+}
+
-- 
2.43.0


From 3130ba6043b454a3ef5e895bba344cff7d6e7d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 46/74] fix: box blur divided the last lines of an image by too
 large a window

The window of the i-th line from the bottom holds 2i-1 lines, not 2i+1, so
the blurred image got dark towards its lower border (a third of the true
value in the last line) and the high-pass image bright, which showed up as
false detections along the border.
---
 liboptv/src/image_processing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index c273f25..1437704 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -239,7 +239,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 -= (*ptr1 + *ptr2);
-            *ptrz = n * (*ptr3) / nq / (2*i+1);
+            *ptrz = n * (*ptr3) / nq / (2*i-1);
         }
     }
     
-- 
2.43.0


From 08500a32ad0f4d799fde390f22abe1098790cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 47/74] fix: orientation compared corrected points with
 distorted projections

The picture points were corrected for distortion while the projected ones
have it, so cameras with distortion got a wrong calibration, several pixels
off, or none.
---
 liboptv/src/orientation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 1260f12..8dec6f3 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -360,9 +360,9 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
             case 3: if ((i % 3) == 0)  continue;  break;
         }
 
-        /* get metric flat-image coordinates of the detected point */
+        /* get metric image coordinates of the detected point, with distortion 
+           as the projected coordinates have it */
         pixel_to_metric (&xc, &yc, pix[i].x, pix[i].y, cpar);
-        correct_brown_affin (xc, yc, cal->added_par, &xc, &yc);
 
         /* Projected 2D position on sensor of corresponding known point */
         rotation_matrix(&(cal->ext_par));
-- 
2.43.0


From 469605bf730add222ea8737c314943ac4db2aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 48/74] fix: saved calibrations lost small distortion
 parameters

Eight decimals are none at all for the k2 and k3 of usual lenses, which made
loaded calibrations pixels off. Zeros and ones are written as before.
---
 liboptv/src/calibration.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 1b166ee..04a448d 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -51,8 +51,9 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
         printf("Can't open ascii file: %s\n", add_file);
         goto finalize;
   }
-  fprintf (fp, "%.8f %.8f %.8f %.8f %.8f %.8f %.8f", ap.k1, ap.k2, ap.k3, ap.p1, ap.p2,
-    ap.scx, ap.she);
+  /* digits that count, as k2 and k3 of usual lenses are less than 1e-8 */
+  fprintf (fp, "%#.9g %#.9g %#.9g %#.9g %#.9g %#.9g %#.9g", ap.k1, ap.k2, ap.k3, 
+    ap.p1, ap.p2, ap.scx, ap.she);
   success = !ferror(fp);
   
 finalize:
-- 
2.43.0


From b29c83e802ff1900f6728e9b38b7d1771339e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 49/74] fix: orientation never converged with the glass
 interface released

The steps of the interface were undone by the next point's derivatives, and
the two directions in which it turns were not across it.
---
 liboptv/src/orientation.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 8dec6f3..55668bd 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -258,7 +258,7 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
     int numbers;
 
-    double al,be,ga,nGl,e1_x,e1_y,e1_z,e2_x,e2_y,e2_z,safety_x,safety_y,safety_z;
+    double al,be,ga,nGl,safety_x,safety_y,safety_z;
     double *P, *y, *yh, *Xbeta, *resi;
     vec3d glass_dir, tmp_vec, e1, e2;
 
@@ -306,17 +306,16 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
         cal->glass_par.vec_x, cal->glass_par.vec_y, cal->glass_par.vec_z);
     nGl = vec_norm(glass_dir);
 
-    e1_x = 2*cal->glass_par.vec_z - 3*cal->glass_par.vec_x;
-    e1_y = 3*cal->glass_par.vec_x - 1*cal->glass_par.vec_z;
-    e1_z = 1*cal->glass_par.vec_y - 2*cal->glass_par.vec_y;
-    vec_set(tmp_vec, e1_x, e1_y, e1_z);
-    unit_vector(tmp_vec, e1);
-
-    e2_x = e1_y*cal->glass_par.vec_z - e1_z*cal->glass_par.vec_x;
-    e2_y = e1_z*cal->glass_par.vec_x - e1_x*cal->glass_par.vec_z;
-    e2_z = e1_x*cal->glass_par.vec_y - e1_y*cal->glass_par.vec_y;
-    vec_set(tmp_vec, e2_x, e2_y, e2_z);
-    unit_vector(tmp_vec, e2);
+    /* two directions across the glass vector */
+    vec_set(tmp_vec, 1, 2, 3);
+    vec_cross(glass_dir, tmp_vec, e1);
+    if (vec_norm(e1) < 1e-6*nGl) {
+        vec_set(tmp_vec, 1, 0, 0);
+        vec_cross(glass_dir, tmp_vec, e1);
+    }
+    unit_vector(e1, e1);
+    vec_cross(e1, glass_dir, e2);
+    unit_vector(e2, e2);
 
     al = 0;
     be = 0;
@@ -558,6 +557,10 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
           cal->glass_par.vec_x += e2[0]*nGl*beta[17];
           cal->glass_par.vec_y += e2[1]*nGl*beta[17];
           cal->glass_par.vec_z += e2[2]*nGl*beta[17];
+
+          safety_x = cal->glass_par.vec_x;
+          safety_y = cal->glass_par.vec_y;
+          safety_z = cal->glass_par.vec_z;
       }
     }
 
-- 
2.43.0


From 01092a76dae3f9964e1ffea7558086da07fb3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 50/74] fix: a parameter file that cannot be read left Python
 objects with a NULL pointer

---
 py_bind/optv/parameters.pyx | 78 ++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 23 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index a5c703c..774adbe 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -222,8 +222,13 @@ cdef class TrackingParams:
         Reads tracking parameters from an old-style .par file having the
         objects' arguments ordered one per line.
         """
-        free(self._track_par)
-        self._track_par = c_read_track_par(file_name)
+        cdef track_par *read = c_read_track_par(file_name)
+        if read == NULL:
+            raise IOError("Problem reading tracking parameters.")
+        
+        # In place, because others (e.g. a Tracker) may hold the address.
+        self._track_par[0] = read[0]
+        free(read)
     
     # Checks for equality between this and other trackParams objects
     # Gives the ability to use "==" and "!=" operators on two trackParams objects
@@ -382,12 +387,19 @@ cdef class SequenceParams:
         filename - path to the text file containing the parameters.
         num_cams - expected number of cameras
         """
-        # free the memory of previous C struct and its inner strings before 
-        # creating a new one.
-        c_free_sequence_par(self._sequence_par)
+        cdef:
+            sequence_par *read = c_read_sequence_par(filename, num_cams)
+            sequence_par old
+        
+        if read == NULL:
+            raise IOError("Problem reading sequence parameters.")
         
-        # read parameters from file to a new sequence_par C struct
-        self._sequence_par = c_read_sequence_par(filename, num_cams)
+        # Exchange contents in place, because others (e.g. a Tracker) may hold 
+        # the address. Then free the previous content with its inner strings.
+        old = self._sequence_par[0]
+        self._sequence_par[0] = read[0]
+        read[0] = old
+        c_free_sequence_par(read)
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
@@ -540,10 +552,14 @@ cdef class VolumeParams:
         Argument:
         filename - path to the text file containing the parameters.
         """
-        # free the memory of previous C struct 
-        free(self._volume_par)
-        # read parameters from file to a new volume_par C struct
-        self._volume_par = c_read_volume_par(filename)
+        cdef volume_par *read = c_read_volume_par(filename)
+        if read == NULL:
+            raise IOError("Problem reading volume parameters.")
+        
+        # In place, because arrays returned by the getters with copy=False
+        # share this memory.
+        self._volume_par[0] = read[0]
+        free(read)
     
     # Checks for equality between self and other VolumeParams objects
     # Gives the ability to use "==" and "!=" operators on two VolumeParams objects
@@ -677,15 +693,27 @@ cdef class ControlParams:
     # Arguments:
     # filename - path to text file containing the parameters.
     def read_control_par(self, filename):
-        # free the memory of previous C struct and its inner strings before creating a new one
-        c_free_control_par(self._control_par)
-        # memory for _multimedia_params' mm_np struct was just freed,
-        # so set _multimedia params' mm_np pointer to NULL to avoid double free corruption 
-        self._multimedia_params._mm_np = NULL
-        # read parameters from file to a new control_par C struct
-        self._control_par = c_read_control_par(filename)
-        # set _multimedia_params's _mm_np to the new mm_np that just allocated and read into _control_par
-        self._multimedia_params.set_mm_np(self._control_par[0].mm)
+        cdef:
+            control_par *read = c_read_control_par(filename)
+            control_par old
+            mm_np *mm = self._control_par[0].mm
+        
+        if read == NULL:
+            raise IOError("Problem reading control parameters.")
+        
+        # Exchange contents in place, because others (e.g. a Tracker) may hold
+        # the address. The mm_np struct is shared with _multimedia_params and 
+        # stays where it is, for the same reason.
+        old = self._control_par[0]
+        self._control_par[0] = read[0]
+        read[0] = old
+        
+        mm[0] = self._control_par[0].mm[0]
+        read[0].mm = self._control_par[0].mm
+        self._control_par[0].mm = mm
+        
+        # free the previous content with its inner strings.
+        c_free_control_par(read)
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
@@ -871,11 +899,15 @@ cdef class TargetParams:
         
         Fills up the fields of the object from the file and returns.
         """
-        free(self._targ_par)
-        self._targ_par = read_target_par(inp_filename)
+        cdef target_par *targ_par = read_target_par(inp_filename)
         
-        if self._targ_par == NULL:
+        if targ_par == NULL:
             raise IOError("Problem reading target recognition parameters.")
+        
+        # In place, because arrays returned by get_grey_thresholds() with 
+        # copy=False share this memory.
+        self._targ_par[0] = targ_par[0]
+        free(targ_par)
     
     def __dealloc__(self):
         free(self._targ_par)
-- 
2.43.0


From f05f6ab975e2aed3f3881620222dc8ed68e9fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 51/74] fix: Python parameter objects started with whatever
 memory contained

---
 py_bind/optv/parameters.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 774adbe..75e4217 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -1,5 +1,5 @@
 # Implementation of Python binding to parameters.h
-from libc.stdlib cimport malloc, free
+from libc.stdlib cimport malloc, calloc, free
 from libc.string cimport strncpy
 
 import numpy
@@ -75,7 +75,8 @@ cdef class MultimediaParams:
         n3 - index of refraction of final medium (e.g. water, 1.33).
         d - thickness of all but first and last layers, [mm].
         """
-        self._mm_np = < mm_np *> malloc(sizeof(mm_np))
+        self._mm_np = < mm_np *> calloc(1, sizeof(mm_np))
+        self._mm_np[0].nlay = 1
         
         if kwargs.has_key('n1') and kwargs['n1'] is not None:
             self.set_n1(kwargs['n1'])
@@ -180,7 +181,7 @@ cdef class TrackingParams:
             positions that have enough targets but no matching correspondence
             result (boolean int).
         """
-        self._track_par = < track_par *> malloc(sizeof(track_par))
+        self._track_par = < track_par *> calloc(1, sizeof(track_par))
         
         if 'accel_lim' in kwds:
             self.set_dacc(kwds['accel_lim'])
@@ -447,7 +448,7 @@ cdef class VolumeParams:
             calculated from match of the different target measures to the 
             reference values in this object.
         """
-        self._volume_par = < volume_par *> malloc(sizeof(volume_par))
+        self._volume_par = < volume_par *> calloc(1, sizeof(volume_par))
         
         if 'x_span' in kwargs:
             self.set_X_lay(kwargs['x_span'])
-- 
2.43.0


From cf902a4f60e1063c86fece284a0de3aef35fbd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 52/74] fix: Python setters wrote past the ends of parameter
 arrays

---
 py_bind/optv/parameters.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 75e4217..90c0475 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -102,6 +102,8 @@ cdef class MultimediaParams:
     def set_layers(self, refr_index, thickness):
         if len(refr_index) != len(thickness):
             raise ValueError("Lengths of refractive index and thickness must be equal.")
+        elif len(refr_index) > 3:
+            raise ValueError("Can't store more than 3 layers.")
         else:
             for i in range(len(refr_index)):
                 self._mm_np[0].n2[i] = refr_index[i]
@@ -477,6 +479,9 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].X_lay, copy)
     
     def set_X_lay(self, X_lay):
+        if len(X_lay) != 2:
+            raise ValueError("Expected 2 values, got " + str(len(X_lay)))
+        
         for i in range(len(X_lay)):
             self._volume_par[0].X_lay[i] = X_lay[i]
             
@@ -485,6 +490,9 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmin_lay, copy)
 
     def set_Zmin_lay(self, Zmin_lay):
+        if len(Zmin_lay) != 2:
+            raise ValueError("Expected 2 values, got " + str(len(Zmin_lay)))
+        
         for i in range(len(Zmin_lay)):
             self._volume_par[0].Zmin_lay[i] = Zmin_lay[i]
             
@@ -493,6 +501,9 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmax_lay, copy)
     
     def set_Zmax_lay(self, Zmax_lay):
+        if len(Zmax_lay) != 2:
+            raise ValueError("Expected 2 values, got " + str(len(Zmax_lay)))
+        
         for i in range(len(Zmax_lay)):
             self._volume_par[0].Zmax_lay[i] = Zmax_lay[i]
             
@@ -811,6 +822,9 @@ cdef class TargetParams:
         copy - if True, return a copy of the underlying array. This way the 
             original is safe.
         """
+        if num_cams > 4:
+            raise ValueError("No more than 4 grey-level thresholds are stored.")
+        
         return wrap_1d_c_arr_as_ndarray(self, num_cams, numpy.NPY_INT, 
             self._targ_par.gvthres, (1 if copy else 0))
         
-- 
2.43.0


From 58c13cdf3a5dc7d39bf7888f2c731ecb4700d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 53/74] fix: image name setters wrote outside the name and cut
 multi-byte characters

---
 py_bind/optv/parameters.pxd |  1 +
 py_bind/optv/parameters.pyx | 46 +++++++++++++++++++++++++++++--------
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/py_bind/optv/parameters.pxd b/py_bind/optv/parameters.pxd
index b9149b5..4165c0e 100644
--- a/py_bind/optv/parameters.pxd
+++ b/py_bind/optv/parameters.pxd
@@ -13,6 +13,7 @@ cdef extern from "optv/parameters.h":
         int dsumg, dn, dnx, dny, add
     
     ctypedef struct sequence_par:
+        int num_cams
         char ** img_base_name
         int first, last
         
diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 90c0475..31cfe02 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -9,6 +9,8 @@ cimport numpy as numpy
 from cpython cimport PyObject, Py_INCREF
 
 cdef extern from "optv/parameters.h":
+    int NAME_MAX_LEN "SEQ_FNAME_MAX_LEN"
+    
     int c_compare_mm_np "compare_mm_np"(mm_np * mm_np1, mm_np * mm_np2)
     
     track_par * c_read_track_par "read_track_par"(char * file_name)
@@ -59,6 +61,26 @@ cdef numpy.ndarray wrap_1d_c_arr_as_ndarray(object base_obj,
     
     return ndarr
     
+cdef int set_c_name(char **names, int num_names, int ix, object name) except -1:
+    """
+    Copies a Python string into its place in a C array of names.
+    
+    Arguments:
+    char **names - array of num_names C strings, allocated to NAME_MAX_LEN.
+    int ix - the place of the changed name in ``names``.
+    name - the Python string.
+    """
+    py_byte_string = name.encode('UTF-8')
+    cdef char * c_string = py_byte_string
+    
+    if ix < 0 or ix >= num_names:
+        raise IndexError("No camera %d among %d." % (ix, num_names))
+    if len(py_byte_string) >= NAME_MAX_LEN:
+        raise ValueError("Name longer than %d bytes." % (NAME_MAX_LEN - 1))
+    
+    strncpy(names[ix], c_string, len(py_byte_string) + 1)
+    return 0
+
 cdef class MultimediaParams:
     """
     Relates to photographing through several transparent media (air, tank 
@@ -406,15 +428,17 @@ cdef class SequenceParams:
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
+        if cam < 0 or cam >= self._sequence_par[0].num_cams:
+            raise IndexError("No camera %d." % cam)
+        
         cdef char * c_str = self._sequence_par[0].img_base_name[cam]
         cdef py_str = c_str
         return py_str
     
     # Set image base name for camera #cam
     def set_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._sequence_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        set_c_name(self._sequence_par[0].img_base_name, self._sequence_par[0].num_cams, cam, 
+            new_img_name)
     
     # Checks for equality between this and other SequenceParams objects
     # Gives the ability to use "==" and "!=" operators on two SequenceParams objects
@@ -729,27 +753,31 @@ cdef class ControlParams:
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
+        if cam < 0 or cam >= self._control_par[0].num_cams:
+            raise IndexError("No camera %d." % cam)
+        
         cdef char * c_str = self._control_par[0].img_base_name[cam]
         cdef py_str = c_str
         return py_str
     
     # Set image base name for camera #cam
     def set_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        set_c_name(self._control_par[0].img_base_name, self._control_par[0].num_cams, cam, 
+            new_img_name)
     
     # Get calibration image base name of camera #cam
     def get_cal_img_base_name(self, cam):
+        if cam < 0 or cam >= self._control_par[0].num_cams:
+            raise IndexError("No camera %d." % cam)
+        
         cdef char * c_str = self._control_par[0].cal_img_base_name[cam]
         cdef py_str = c_str
         return py_str
     
     # Set calibration image base name for camera #cam
     def set_cal_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].cal_img_base_name[cam], c_string, len(new_img_name) + 1)
+        set_c_name(self._control_par[0].cal_img_base_name, self._control_par[0].num_cams, cam, 
+            new_img_name)
     
     def get_multimedia_params(self):
         return self._multimedia_params
-- 
2.43.0


From 5097df64aff7e2cfb169e0835001851d06cffeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 54/74] fix: a Python object whose initialization failed
 crashed when deleted

---
 py_bind/optv/parameters.pyx | 5 ++++-
 py_bind/optv/tracker.pyx    | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 31cfe02..6b9b2ae 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -451,7 +451,8 @@ cdef class SequenceParams:
         else: raise TypeError("Unhandled comparison operator " + operator)
         
     def __dealloc__(self):
-        c_free_sequence_par(self._sequence_par)
+        if self._sequence_par != NULL: # initialization may have failed.
+            c_free_sequence_par(self._sequence_par)
         
 cdef class VolumeParams:
     """
@@ -796,6 +797,8 @@ cdef class ControlParams:
         # set the mm pointer to NULL in order to prevent c_free_control_par 
         # function from freeing it. MultimediaParams object will free this
         # memory in its python destructor when there will be no references to it.
+        if self._control_par == NULL: # initialization failed.
+            return
         
         self._control_par[0].mm = NULL
         c_free_control_par(self._control_par)
diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index cbf47d3..877cc1a 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -94,6 +94,9 @@ cdef class Tracker:
     
     def __dealloc__(self):
         # Don't call tr_free, just free the memory that belongs to us.
+        if self.run_info == NULL: # initialization failed.
+            return
+        
         fb_free(self.run_info.fb)
         free(self.run_info.cal) # allocated by cal_list2arr, leafs belong to
                                 # owner of the Tracker.
-- 
2.43.0


From 7d28c86e5afae7a8713b579b730a64e9cafdc487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 55/74] fix: Calibration.from_file lost the object on failure
 and ignored fallback_file

---
 py_bind/optv/calibration.pyx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/py_bind/optv/calibration.pyx b/py_bind/optv/calibration.pyx
index 613bc61..c7e6242 100644
--- a/py_bind/optv/calibration.pyx
+++ b/py_bind/optv/calibration.pyx
@@ -71,10 +71,18 @@ cdef class Calibration:
         fallback_file - optional path to file used in case ``add_file`` fails
             to open.
         """
-        free(self._calibration);
-        self._calibration = read_calibration(
+        cdef calibration *read = read_calibration(
             (<char *>ori_file if ori_file != None else < char *> 0),
-            (<char *>add_file if add_file != None else < char *> 0), NULL)
+            (<char *>add_file if add_file != None else < char *> 0),
+            (<char *>fallback_file if fallback_file != None else < char *> 0))
+        
+        if read == NULL:
+            raise IOError("Failed to read calibration.")
+        
+        # In place, because others (e.g. a Tracker) may hold the address.
+        free(self._calibration.mmlut.data)
+        self._calibration[0] = read[0]
+        free(read)
         
     def write(self, filename, add_file):
         """
@@ -279,5 +287,7 @@ cdef class Calibration:
     
     # Free memory
     def __dealloc__(self):
+        if self._calibration != NULL:
+            free(self._calibration.mmlut.data)
         free(self._calibration)
 
-- 
2.43.0


From dfc8624a1b290e249d010099ec051abd46fb9c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 56/74] fix: image names of new parameter objects were not
 initialized

---
 liboptv/src/parameters.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 399c2ff..b567df3 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -79,7 +79,7 @@ sequence_par * new_sequence_par(int num_cams) {
 
     ret->num_cams = num_cams;
     for (cam = 0; cam < num_cams; cam++) {
-        ret->img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
+        ret->img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
     }
     return ret;
 }
@@ -297,8 +297,8 @@ control_par * new_control_par(int cams) {
     ret->cal_img_base_name = (char **) calloc(ret->num_cams, sizeof(char *));
 
     for (cam = 0; cam < ret->num_cams; cam++) {
-        ret->img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
-        ret->cal_img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
+        ret->img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
+        ret->cal_img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
     }
 
     ret->mm = (mm_np *) malloc(sizeof(mm_np));
-- 
2.43.0


From 33b5c5195cb7937e0fbf20fa274abc2d59f06351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 57/74] fix: targets that could not be written or read were not
 reported to Python

---
 py_bind/optv/tracking_framebuf.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 06b5f3f..a6f5e1c 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -166,7 +166,10 @@ cdef class TargetArray:
         file_base - path to the file, base part.
         frame_num - frame number part of the file name.
         """
-        write_targets(self._tarr, self._num_targets, file_base, frame_num)
+        success = write_targets(self._tarr, self._num_targets, file_base, 
+            frame_num)
+        if not success:
+            raise IOError("Failed to write targets.")
 
     def __getitem__(self, int ix):
         """
@@ -220,6 +223,10 @@ def read_targets(basename, int frame_num):
     c_string = py_byte_string
     
     num_targets = c_read_targets(tarr, c_string, frame_num)
+    if num_targets < 0:
+        free(tarr)
+        raise IOError("Failed to read targets.")
+    
     ret.set(tarr, num_targets, 1)
     
     return ret
-- 
2.43.0


From c5814ac606e7161de5a12b115e2574d55b347966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 58/74] fix: Frame leaked memory on reading and hid a failure
 to read

---
 py_bind/optv/tracking_framebuf.pyx | 31 +++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index a6f5e1c..024f01c 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -261,9 +261,9 @@ cdef class Frame:
             target_file_base is None or frame_num is None:
             self._frm = NULL
 
-        else:
-            self.read(corres_file_base, linkage_file_base, 
-                target_file_base, frame_num, prio_file_base)
+        elif not self.read(corres_file_base, linkage_file_base, 
+                target_file_base, frame_num, prio_file_base):
+            raise IOError("Failed to read frame.")
     
     def read(Frame self, char *corres_file_base, char *linkage_file_base,
         list target_file_base, int frame_num, prio_file_base):
@@ -281,18 +281,26 @@ cdef class Frame:
             added between the name and the frame number.
         prio_file_base - optional, for the linkage file with added 'prio'
             column.
+        
+        Returns:
+        True value on success, False value if a file could not be read.
         """
-        cdef char **targ_fb = <char **> malloc(self._num_cams*sizeof(char *))
+        cdef char **targ_fb
         cdef char* pb
         
-        for cam in range(self._num_cams):
-            targ_fb[cam] = target_file_base[cam]
-        
         if prio_file_base is None:
             pb = NULL
         else:
             pb = prio_file_base
         
+        targ_fb = <char **> malloc(self._num_cams*sizeof(char *))
+        try:
+            for cam in range(self._num_cams):
+                targ_fb[cam] = target_file_base[cam]
+        except:
+            free(targ_fb)
+            raise
+        
         if self._frm == NULL:
             self._frm = <frame *> malloc(sizeof(frame))
         else:
@@ -303,6 +311,7 @@ cdef class Frame:
         success = read_frame(self._frm, corres_file_base, linkage_file_base, 
             pb, targ_fb, frame_num)
         
+        free(targ_fb)
         return success
      
     def positions(Frame self):
@@ -314,6 +323,9 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos3d
             double *vec
         
+        if self._frm == NULL:
+            return np.empty((0, 3))
+        
         pos3d = np.empty((self._frm.num_parts, 3))
         for pt in range(self._frm.num_parts):
             vec = <double *>np.PyArray_GETPTR2(pos3d, pt, 0)
@@ -339,6 +351,11 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos2d
             int tix
         
+        if cam < 0 or cam >= self._num_cams:
+            raise IndexError("No camera %d." % cam)
+        if self._frm == NULL:
+            return np.empty((0, 2))
+        
         pos2d = np.empty((self._frm.num_parts, 2))
         for pt in range(self._frm.num_parts):
             tix = self._frm.correspond[pt].p[cam]
-- 
2.43.0


From bf35cf9a13071813c4f7b1a6e73e6e9673739851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 59/74] fix: a Target outlived the TargetArray whose memory it
 uses

---
 py_bind/optv/tracking_framebuf.pxd | 1 +
 py_bind/optv/tracking_framebuf.pyx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/py_bind/optv/tracking_framebuf.pxd b/py_bind/optv/tracking_framebuf.pxd
index 1a29a35..95b67de 100644
--- a/py_bind/optv/tracking_framebuf.pxd
+++ b/py_bind/optv/tracking_framebuf.pxd
@@ -38,6 +38,7 @@ cdef extern from "optv/tracking_frame_buf.h":
 cdef class Target:
     cdef target* _targ
     cdef int _owns_data
+    cdef object _owner # keeps memory alive that is owned elsewhere.
     cdef void set(Target self, target* targ)
 
 cdef class TargetArray:
diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 024f01c..9037676 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -190,6 +190,7 @@ cdef class TargetArray:
         
         ret = Target()
         ret.set(self._tarr + ix)
+        ret._owner = self # whose memory this is.
         return ret
     
     def __len__(self):
-- 
2.43.0


From e745abd3c5529bb14c84beb9e6745d4bd9d3cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 60/74] fix: single camera correspondences gave x for the y
 position

---
 py_bind/optv/correspondences.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 8319ee0..0c82703 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -283,7 +283,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
         if p1 > -1:
             targ = img_pts[0][p1]
             clique_targs[0, pt, 0] = (<Target> targ)._targ.x
-            clique_targs[0, pt, 1] = (<Target> targ)._targ.x
+            clique_targs[0, pt, 1] = (<Target> targ)._targ.y
             # we also update the tnr, see docstring of correspondences
             (<Target> targ)._targ.tnr = pt
 
-- 
2.43.0


From 46165aa4b6d5af8185afb6e636eb57ad174aca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 61/74] fix: total of correspondences was wrong for less than
 four cameras

---
 py_bind/optv/correspondences.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 0c82703..01c6933 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -221,7 +221,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
         sorted_corresp[clique_type] = clique_ids
     
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3] # the total, regardless of num_cams.
     free(frm.targets)
     free(frm.num_targets)
     free(calib)
-- 
2.43.0


From 6b8997de96e315b1f6addd0c85e9bf800b0dba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 62/74] fix: correspondences leaked memory on every call from
 Python

---
 py_bind/optv/correspondences.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 01c6933..c6dd649 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -225,6 +225,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
     free(frm.targets)
     free(frm.num_targets)
     free(calib)
+    free(corrected)
     free(match_counts)
     free(corresp_buf) # Note this for future returning of correspondences.
     
@@ -257,7 +258,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
     """
     cdef: 
         int pt, num_points
-        coord_2d *corrected = <coord_2d *> malloc(sizeof(coord_2d *))
+        coord_2d *corrected
     
     corrected = (<MatchedCoords>flat_coords[0]).buf
 
-- 
2.43.0


From b7fdaa53c83f3c2202c800e71925b678bd642e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 63/74] fix: correspondences read outside memory with arguments
 for other numbers of cameras

---
 py_bind/optv/correspondences.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index c6dd649..57a4aaa 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -147,6 +147,14 @@ def correspondences(list img_pts, list flat_coords, list cals,
     """
     cdef: 
         int num_cams = len(cals)
+    
+    # The data of each camera is passed on by address:
+    if len(img_pts) != num_cams or len(flat_coords) != num_cams or \
+            cparam._control_par.num_cams != num_cams:
+        raise ValueError("Different numbers of cameras in the arguments.")
+    for cam in range(num_cams):
+        if len(img_pts[cam]) != (<MatchedCoords?>flat_coords[cam])._num_pts:
+            raise ValueError("Different numbers of targets and coordinates.")
 
     # Special case of a single camera, follow the single_cam_correspondence docstring    
     if num_cams == 1:
-- 
2.43.0


From cd5fc9a05e9170bd6faf98590467786ab76a5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 64/74] fix: 3D positions from Python leaked memory and read
 outside of it

---
 py_bind/optv/orientation.pyx | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index b3ef927..3dce497 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -56,6 +56,15 @@ def match_detection_to_ref(Calibration cal,
     t.set(sorted_targs, len(ref_pts), 1)
     return t
 
+def check_targets(targets, cals):
+    """
+    Raises ValueError if an array of targets is not (num_targets, num_cams, 2) 
+    with as many cameras as there are calibrations.
+    """
+    if targets.shape[1] != len(cals) or targets.shape[2] != 2:
+        raise ValueError("Expected targets of shape (num_targets, %d, 2)" \
+            % len(cals))
+
 cdef calibration** cal_list2arr(list cals):
     """
     Allocate a C array with C calibration objects based on a Python list with
@@ -120,9 +129,12 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
+    check_targets(targets, cals)
+    calib = cal_list2arr(cals)
+
     # So we can address targets.data directly instead of get_ptr stuff:
     targets = np.ascontiguousarray(targets)
     
@@ -137,6 +149,7 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                             calib[0], cparam._control_par.mm, vparam._volume_par, 
                             <vec3d> np.PyArray_GETPTR2(res, pt, 0));
 
+    free(calib)
     return res, rcm
           
 
@@ -162,9 +175,12 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
+    check_targets(targets, cals)
+    calib = cal_list2arr(cals)
+
     # So we can address targets.data directly instead of get_ptr stuff:
     targets = np.ascontiguousarray(targets)
 
@@ -179,6 +195,7 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                                  cparam._control_par.mm, calib,
                                  <vec3d> np.PyArray_GETPTR2(res, pt, 0))
 
+    free(calib)
     return res, rcm
 
 def external_calibration(Calibration cal, 
@@ -326,9 +343,12 @@ def dumbbell_target_func(np.ndarray[ndim=3, dtype=pos_t] targets,
     cdef:
         np.ndarray[ndim=2, dtype=pos_t] targ
         vec2d **ctargets
-        calibration **calib = cal_list2arr(cals)
+        calibration **calib
         int cam, num_cams
     
+    check_targets(targets, cals)
+    calib = cal_list2arr(cals)
+    
     num_cams = targets.shape[1]
     num_pts = targets.shape[0]
     ctargets = <vec2d **>calloc(num_pts, sizeof(vec2d*))
@@ -337,5 +357,9 @@ def dumbbell_target_func(np.ndarray[ndim=3, dtype=pos_t] targets,
         targ = targets[pt]
         ctargets[pt] = <vec2d *>(targ.data)
     
-    return weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
-        cparam._control_par.mm, calib,  db_length, db_weight)
+    try:
+        return weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
+            cparam._control_par.mm, calib,  db_length, db_weight)
+    finally:
+        free(ctargets)
+        free(calib)
-- 
2.43.0


From 624ad9c3e637203a5a33639f3fbc42ab9285e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 65/74] fix: calibration from Python read outside memory with
 unmatched points

---
 py_bind/optv/orientation.pyx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index 3dce497..89f5aa2 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -10,6 +10,13 @@ from optv.parameters cimport ControlParams, VolumeParams
 from optv.epipolar cimport epi_mm_2D
 
 
+def check_ref_pts(ref_pts):
+    """
+    Raises ValueError if an array of reference points is not (n,3).
+    """
+    if ref_pts.shape[1] != 3:
+        raise ValueError("Expected an (n,3) array of reference points.")
+
 def match_detection_to_ref(Calibration cal,
                            np.ndarray[ndim=2, dtype=pos_t] ref_pts,
                            TargetArray img_pts,
@@ -37,6 +44,7 @@ def match_detection_to_ref(Calibration cal,
     TargetArray holding the sorted targets.
     """
 
+    check_ref_pts(ref_pts)
     if len(img_pts) < len(ref_pts):
         # raise ValueError('Must have at least as many targets as ref. points.')
         print('Must have at least as many targets as ref. points.')
@@ -222,6 +230,10 @@ def external_calibration(Calibration cal,
         target *targs
         vec3d *ref_coord
     
+    check_ref_pts(ref_pts)
+    if len(img_pts) != len(ref_pts):
+        raise ValueError("Expected one image point per reference point.")
+    
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
     
@@ -285,6 +297,10 @@ def full_calibration(Calibration cal,
         orient_par *orip
         double *residuals
     
+    check_ref_pts(ref_pts)
+    if len(img_pts) != len(ref_pts):
+        raise ValueError("Expected one target per reference point.")
+    
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
 
-- 
2.43.0


From 86f8527ce64f88443dca4dbaae2f555d0814a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 66/74] fix: a running Tracker used names and calibrations that
 may be gone

---
 py_bind/optv/tracker.pyx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index 877cc1a..e3f4013 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -38,13 +38,23 @@ cdef class Tracker:
         dict naming - a dictionary with naming rules for the frame buffer 
             files. See the ``default_naming`` member (which is the default).
         """
+        cdef:
+            char *corres = naming['corres']
+            char *linkage = naming['linkage']
+            char *prio = naming['prio']
+        
+        if len(cals) != cpar._control_par.num_cams or \
+                spar._sequence_par.num_cams != cpar._control_par.num_cams:
+            raise ValueError("Different numbers of cameras in the arguments.")
+        
         # We need to keep a reference to the Python objects so that their
-        # allocations are not freed.
-        self._keepalive = (cpar, vpar, tpar, spar, cals)
+        # allocations are not freed. The containers may change, so not them.
+        self._keepalive = (cpar, vpar, tpar, spar, list(cals), 
+            naming['corres'], naming['linkage'], naming['prio'])
         
         self.run_info = tr_new(spar._sequence_par, tpar._track_par,
             vpar._volume_par, cpar._control_par, TR_BUFSPACE, MAX_TARGETS,
-            naming['corres'], naming['linkage'], naming['prio'], 
+            corres, linkage, prio, 
             cal_list2arr(cals), flatten_tol)
     
     def restart(self):
-- 
2.43.0


From fd0a7afa46c65b9c1105c91176faeb6f9e5aaa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 67/74] fix: preprocess_image misread non-contiguous images and
 ignored output_img

---
 py_bind/optv/image_processing.pyx | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/py_bind/optv/image_processing.pyx b/py_bind/optv/image_processing.pyx
index 6add162..535fdad 100644
--- a/py_bind/optv/image_processing.pyx
+++ b/py_bind/optv/image_processing.pyx
@@ -32,31 +32,42 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
     numpy.ndarray representing the result image.
     '''
 
+    cdef np.ndarray[ndim=2, dtype=np.uint8_t] work_img
+    
     # check arrays dimensions
     if input_img.ndim != 2:
         raise TypeError("Input array must be two-dimensional")
     if (output_img is not None) and (input_img.shape[0] != output_img.shape[0] or
                          input_img.shape[1] != output_img.shape[1]):
         raise ValueError("Different shapes of input and output images.")
-    else:
-        output_img = np.empty_like(input_img)
+    if input_img.shape[0] != control._control_par.imy or \
+            input_img.shape[1] != control._control_par.imx:
+        raise ValueError("Image size differs from that in the parameters.")
     
     if filter_hp == 2:
-        if filter_file == None or not isinstance(filter_file, string_types):
+        if isinstance(filter_file, string_types):
+            filter_file = filter_file.encode('utf-8')
+        if not isinstance(filter_file, bytes):
             raise ValueError("Expecting a filter file name, received None or non-string.")
     else:
         filter_file=b""
         
-    for arr in (input_img, output_img):
-        if not arr.flags['C_CONTIGUOUS']:
-            np.ascontiguousarray(arr)
+    # The C function addresses the data directly, row after row.
+    input_img = np.ascontiguousarray(input_img)
+    work_img = np.empty((input_img.shape[0], input_img.shape[1]), 
+        dtype=np.uint8)
     
     if (1 != prepare_image( < unsigned char *> input_img.data,
-                            < unsigned char *> output_img.data,
+                            < unsigned char *> work_img.data,
                             lowpass_dim,
                             filter_hp,
                             filter_file,
                             control._control_par)):
         raise Exception("prepare_image C function failed: "
                       + "failure of memory allocation or filter file reading")
+    
+    if output_img is None:
+        return work_img
+    
+    output_img[...] = work_img
     return output_img              
-- 
2.43.0


From ebe37f48af2da4a6472915843dc274d356129571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 68/74] fix: target_recognition misread non-contiguous images
 and overran its target array

---
 py_bind/optv/segmentation.pyx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index d40dff9..a874b7c 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -31,9 +31,6 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     """
     Detects targets (contiguous bright blobs) in an image.
     
-    Limited to ~20,000 targets per image for now. This limitation comes from
-    the structure of underlying C code.
-    
     Arguments:
     np.ndarray img - a numpy array holding the 8-bit gray image.
     TargetParams tpar - target recognition parameters s.a. size bounds etc.
@@ -51,7 +48,7 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     cdef:
         TargetArray t = TargetArray()
         target *ret
-        target *targs = <target *> calloc(1024*20, sizeof(target))
+        target *targs
         int num_targs
         int xmin, xmax, ymin, ymax
     
@@ -72,13 +69,21 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
         raise ValueError("dimensions are not correct")
 
     assert img.dtype == DTYPE
+    
+    # The C code addresses the data directly, row after row.
+    img = np.ascontiguousarray(img)
+    
+    # No two targets share a pixel, so there can't be more targets than pixels.
+    targs = <target *> calloc(img.shape[0]*img.shape[1] + 1, sizeof(target))
+    if targs == NULL:
+        raise MemoryError("Failed to allocate target array.")
 
     # The core liboptv call:
     num_targs = targ_rec(<unsigned char *>img.data, tpar._targ_par, 
         xmin, xmax, ymin, ymax, cparam._control_par, cam, targs)
     
     # Fit the memory size snugly and generate the Python return value.
-    ret = <target *>realloc(targs, num_targs * sizeof(target))
+    ret = <target *>realloc(targs, max(num_targs, 1) * sizeof(target))
     if ret == NULL:
         free(targs)
         raise MemoryError("Failed to reallocate target array.")
-- 
2.43.0


From 1fcc836023e6899ba023f1718453fd06d17b2bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 69/74] fix: target_recognition read outside the image when a
 subrange was given

---
 py_bind/optv/segmentation.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index a874b7c..87cc057 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -65,8 +65,13 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     else:
         ymin, ymax = subrange_y
     
-    if img.shape[0] != ymax or img.shape[1] != xmax:
+    if img.shape[0] != cparam._control_par[0].imy or \
+            img.shape[1] != cparam._control_par[0].imx:
         raise ValueError("dimensions are not correct")
+    if xmin < 0 or ymin < 0 or xmax > img.shape[1] or ymax > img.shape[0]:
+        raise ValueError("subrange exceeds the image")
+    if cam < 0 or cam >= 4:
+        raise IndexError("No grey-level threshold for camera %d" % cam)
 
     assert img.dtype == DTYPE
     
-- 
2.43.0


From 97ed8e9319e2a3824fd15b7b6cb65fb5afe480d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 70/74] fix: raw_orient overran its equations with more than
 five points

---
 liboptv/src/orientation.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 55668bd..9a0f8c4 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -620,17 +620,19 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
 int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], target pix[])
 {
-    double  X[10][6], y[10], XPX[6][6], XPy[6], beta[6];
-    int     i, j, n, itnum, stopflag;
+    double  (*X)[6], *y, XPX[6][6], XPy[6], beta[6];
+    int     i, n, itnum, stopflag;
     double  dm = 0.0001,  drad = 0.0001;
     double 	xp, yp, xc, yc;
     vec3d   pos;
 
-    /* init X, y (set to zero) */
-    for (i = 0; i < 10; i++) {
-      for (j = 0; j < 6; j++)
-        X[i][j] = 0;
-      y[i] = 0;
+    /* two equations per point; init X, y (set to zero) */
+    X = (double (*)[6]) calloc(2*nfix + 1, sizeof(*X));
+    y = (double *) calloc(2*nfix + 1, sizeof(*y));
+    if (X == NULL || y == NULL) {
+        free(X);
+        free(y);
+        return 0;
     }
 
     cal->added_par.k1 = 0;
@@ -700,6 +702,8 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     if (stopflag) {
         rotation_matrix(&(cal->ext_par));
     }
+    free(X);
+    free(y);
     return stopflag;
 }
 
-- 
2.43.0


From d834a66ca3e2f2e3c353a50c5ce03289fd5aeac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 71/74] fix: correspondences from Python crashed when out of
 memory

---
 py_bind/optv/correspondences.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 57a4aaa..d5666e1 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -179,6 +179,15 @@ def correspondences(list img_pts, list flat_coords, list cals,
     frm.targets = <target**> calloc(num_cams, sizeof(target*))
     frm.num_targets = <int *> calloc(num_cams, sizeof(int))
     
+    if calib == NULL or corrected == NULL or match_counts == NULL or \
+            frm.targets == NULL or frm.num_targets == NULL:
+        free(frm.targets)
+        free(frm.num_targets)
+        free(calib)
+        free(corrected)
+        free(match_counts)
+        raise MemoryError("not enough memory for finding correspondences")
+    
     for cam in range(num_cams):
         calib[cam] = (<Calibration>cals[cam])._calibration
         frm.targets[cam] = (<TargetArray>img_pts[cam])._tarr
-- 
2.43.0


From f587c25a4fd5a2fd8cf6f89bc72dfb86f4b90f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 72/74] fix: correspondences wrote outside of arrays whose
 targets are numbered otherwise

---
 py_bind/optv/correspondences.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index d5666e1..3920e4f 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -147,14 +147,20 @@ def correspondences(list img_pts, list flat_coords, list cals,
     """
     cdef: 
         int num_cams = len(cals)
+        MatchedCoords coords
+        int pt
     
     # The data of each camera is passed on by address:
     if len(img_pts) != num_cams or len(flat_coords) != num_cams or \
             cparam._control_par.num_cams != num_cams:
         raise ValueError("Different numbers of cameras in the arguments.")
     for cam in range(num_cams):
-        if len(img_pts[cam]) != (<MatchedCoords?>flat_coords[cam])._num_pts:
+        coords = flat_coords[cam]
+        if len(img_pts[cam]) != coords._num_pts:
             raise ValueError("Different numbers of targets and coordinates.")
+        for pt in range(coords._num_pts):
+            if coords.buf[pt].pnr >= coords._num_pts:
+                raise ValueError("Target numbers are not those of the array.")
 
     # Special case of a single camera, follow the single_cam_correspondence docstring    
     if num_cams == 1:
-- 
2.43.0


From 50c9286eb69e98e9ba842ffe6bfc53e66b71ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 73/74] fix: Tracker leaked its frame buffer struct

---
 py_bind/optv/tracker.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index e3f4013..4d331ca 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -108,6 +108,7 @@ cdef class Tracker:
             return
         
         fb_free(self.run_info.fb)
+        free(self.run_info.fb) # fb_free() only frees the content.
         free(self.run_info.cal) # allocated by cal_list2arr, leafs belong to
                                 # owner of the Tracker.
         free(self.run_info) # not using tr_free() which assumes ownership of 
-- 
2.43.0


From bc2da288f983b55220bda79693ab1a0ec50a115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 74/74] fix: ControlParams that could not be initialized leaked
 memory

---
 py_bind/optv/parameters.pyx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 6b9b2ae..ce26a4f 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -628,7 +628,14 @@ cdef class ControlParams:
         pixel_size - sequence, w,h pixel size in mm.
         cam_side_n, wall_ns, wall_thicks, object_side_n - see MultimediaParams
         """
+        # Ownership of the mm_np struct is settled before anything can fail.
+        self._multimedia_params = MultimediaParams(
+            n1=cam_side_n, n2=wall_ns, d=wall_thicks, n3=object_side_n)
+        
         self._control_par = c_new_control_par(cams)
+        free(self._control_par[0].mm)
+        self._control_par[0].mm = self._multimedia_params._mm_np
+        
         self.set_hp_flag('hp' in flags)
         self.set_allCam_flag('allcam' in flags)
         self.set_tiff_flag('headers' in flags)
@@ -639,11 +646,6 @@ cdef class ControlParams:
         if pixel_size is not None:
             self.set_pixel_size(pixel_size)
         
-        self._multimedia_params = MultimediaParams(
-            n1=cam_side_n, n2=wall_ns, d=wall_thicks, n3=object_side_n)
-        free(self._control_par[0].mm)
-        self._control_par[0].mm = self._multimedia_params._mm_np
-        
     # Getters and setters
     def get_num_cams(self):
         return self._control_par[0].num_cams
-- 
2.43.0

