From 107cbce2d8472aa60360f4d9d6a8f38ffebb8f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 001/115] fix: normalise queue wait deadlines so timeouts that
 are not whole seconds work

---
 src/libqdb/qdb.c | 6 +++++-
 src/pctldb.c     | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 87690b5..ed8576b 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -213,8 +213,8 @@ int nbspqt_rcv(nbspqtable_t *qtable, int type,
     if(status == ETIMEDOUT)
       status = 1;
     else{
-      status = -1;
       *dberror = status;
+      status = -1;
     }
   }else
     status = qdb_rcv(nbspq, data, data_size, dberror);
@@ -552,4 +552,8 @@ static void queue_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+  if(timeout->tv_nsec >= 1000000000L){
+    ++timeout->tv_sec;
+    timeout->tv_nsec -= 1000000000L;
+  }
 }
diff --git a/src/pctldb.c b/src/pctldb.c
index c3da7e1..6e494c7 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -466,4 +466,8 @@ static void pctldb_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+  if(timeout->tv_nsec >= 1000000000L){
+    ++timeout->tv_sec;
+    timeout->tv_nsec -= 1000000000L;
+  }
 }
-- 
2.43.0


From 9ed03f42e9999ad70244f9845a61a597c916bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 002/115] fix: record the open product as missed when another
 product's end arrives in its channel

---
 src/framep.c |  9 +++++++++
 src/pctl.c   | 11 +++++++++++
 src/pctl.h   |  1 +
 3 files changed, 21 insertions(+)

diff --git a/src/framep.c b/src/framep.c
index d768fa8..15e7f21 100644
--- a/src/framep.c
+++ b/src/framep.c
@@ -491,6 +491,15 @@ static int e_end_activepce(struct sbn_frame *sbnf){
   if(status == 1){
     log_verbose(3, "END: %u not active on %d.", sbnf->pdh.product_seq_number,
 		sbnf->np_channel_index);
+    /*
+     * If another product is still open in this channel then its last frames
+     * (and the first ones of this product) were missed.
+     */
+    if(pctl_activepce_isopen(g.pctl, sbnf->np_channel_index)){
+      update_stats_products_missed();
+      if(esend_pctl_activepce(g.pctl, sbnf->np_channel_index) != 0)
+	log_errx("Could not add element to processor queue.");
+    }
   }else{
     if(status == 0)
 	update_stats_products_completed();
diff --git a/src/pctl.c b/src/pctl.c
index ada77c0..bd32ca0 100644
--- a/src/pctl.c
+++ b/src/pctl.c
@@ -293,6 +293,17 @@ struct pctl_element_st *open_pctl_activepce(struct pctl_st *pctl,
   return(pctl->activepce[channel_index]);
 }
 
+int pctl_activepce_isopen(struct pctl_st *pctl, int channel_index){
+  /*
+   * Returns 1 if there is an unfinished product in the channel, 0 otherwise.
+   */
+  assert((channel_index >= 0) && (channel_index < pctl->num_activechannels));
+  if((channel_index < 0) || (channel_index >= pctl->num_activechannels))
+    return(0);
+
+  return((pctl->activepce[channel_index])->seq_number != 0);
+}
+
 void close_pctl_activepce(struct pctl_st *pctl, int channel_index){
 
   assert((channel_index >= 0) && (channel_index < pctl->num_activechannels));
diff --git a/src/pctl.h b/src/pctl.h
index 0b7af1e..53bf811 100644
--- a/src/pctl.h
+++ b/src/pctl.h
@@ -114,6 +114,7 @@ struct memfile_st *reopen_pctl_outputmf(struct pctl_st *pctl);
 
 struct pctl_element_st *open_pctl_activepce(struct pctl_st *pctl,
 					    int channel_index);
+int pctl_activepce_isopen(struct pctl_st *pctl, int channel_index);
 void close_pctl_activepce(struct pctl_st *pctl, int channel_index);
 int esend_pctl_activepce(struct pctl_st *pctl, int channel_index);
 struct pctl_element_st *get_pctl_activepce(struct pctl_st *pctl,
-- 
2.43.0


From a490af945d285c4d212e09add33cc99d120c8651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 003/115] fix: reject frames whose control header is larger
 than their data block

---
 src/sbn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sbn.c b/src/sbn.c
index 01e48f4..337ca75 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -204,6 +204,10 @@ int sbn_unpack_frame(struct sbn_frame *sbnf){
        */
       return(2);
     }
+
+    /* the ctrlhdr is part of the data block */
+    if(sbnf->ctrlhdr_size > sbnf->pdh.data_block_size)
+      return(2);
   }
 
   blkdata_offset += sbnf->ctrlhdr_size;
-- 
2.43.0


From 20e9454aa83fe3173ea0c2ee06d5d4112077ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 004/115] fix: do not abort on a frame with a control header
 longer than expected

---
 src/sbn.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sbn.c b/src/sbn.c
index 337ca75..05863cd 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -340,11 +340,9 @@ int copy_ctrlheader(char *ctrlheader, int *ctrlheader_size,
   if(sbnf->ctrlhdr_size > allocatedsize){
     /*
      * If the actual size is larger than the allocated size passed to
-     * the function, we treat it is a non existent, although this is a bug
-     * in the allocation of the size of the buffer.
+     * the function, we treat it is a non existent. (The size comes from the
+     * transmission.)
      */
-    assert(allocatedsize >= sbnf->ctrlhdr_size);
-
     return(1);
   }
 
-- 
2.43.0


From d3e7c5cf05140aa8989878521c9d8e5868b7512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 005/115] fix: strip the communications control block also in
 the database spools

---
 src/nbsp.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 057c86e..094612d 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -863,15 +863,19 @@ static int pce_savembdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
   size_t size;
+  char *p;
 
+  p = mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
     else
       size -= CCB_SIZE;
+
+    p += CCB_SIZE;
   }
-  status = nbsp_mspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_mspoolbdb_insert(pce->fpath, p, size);
   
   return(status);
 }
@@ -880,15 +884,19 @@ static int pce_savecbdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
   size_t size;
+  char *p;
 
+  p = mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
     else
       size -= CCB_SIZE;
+
+    p += CCB_SIZE;
   }
-  status = nbsp_cspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_cspoolbdb_insert(pce->fpath, p, size);
   
   return(status);
 }
-- 
2.43.0


From 5a5737bd92f757db9a9d7188d6de366ab20f9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 006/115] fix: initialise the control block flag of products
 received by nbs1 slaves

---
 src/slavenbs/framep.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index eef245e..c355a80 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -135,6 +135,7 @@ static int estart_activepce(struct nbs1_packet_st *nbs){
 
   pce->ctrlhdr[0] = '\0';
   pce->ctrlhdr_size = 0;
+  pce->f_has_ccb = 0;
 
   strncpy(pce->fbasename, nbs->fbasename, FBASENAME_SIZE + 1);
   pce->fbasename[FBASENAME_SIZE] = '\0';
-- 
2.43.0


From 5280bfec88ebd872385f93e9367af8558c870a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 007/115] fix: do not take binary data as the awips id in
 product names

---
 src/sbn.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/sbn.c b/src/sbn.c
index 05863cd..1b2f005 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -26,6 +26,7 @@ static void unpack_ps_header(struct product_spec_header *psh,
 static int count_char(char *s, int n, unsigned char c);
 static int validate_wmo(char *wmo_id, char *wmo_station, char *wmo_time,
 			char *wmo_bbb);
+static int validate_awips(char *wmo_awips);
 
 static int unpack_fl_header(struct frame_level_header *flh, 
 			    unsigned char *data){
@@ -486,9 +487,11 @@ int split_wmo_header(struct sbn_frame *sbnf,
 
   n = data_size - (i + 1);
   if((wmo[8] == '\n') && (n >= 9)){
-    if(sscanf(wmo, "%6s", wmo_awips) != 1)
+    if((sscanf(wmo, "%6s", wmo_awips) != 1) || (validate_awips(wmo_awips) != 0))
       wmo_awips[0] = '\0';
-  }else{
+  }
+
+  if(wmo_awips[0] == '\0'){
     b = 0;
     while((b < WMO_NOTAWIPS_SIZE) && (b < n)){
       wmo_notawips[b] = wmo[b];
@@ -602,3 +605,25 @@ static int validate_wmo(char *wmo_id, char *wmo_station, char *wmo_time,
 
   return(0);
 }
+
+static int validate_awips(char *wmo_awips) {
+  /*
+   * The awips is part of the file name, so it must not have any other
+   * characters (e.g., when the second line is really binary data).
+   *
+   * Returns:
+   * 0 => valid
+   * 1 => invalid
+   */
+  char *p;
+
+  p = wmo_awips;
+  while(*p != '\0'){
+    if(isalnum((unsigned char)*p) == 0)
+      return(1);
+
+    ++p;
+  }
+
+  return(0);
+}
-- 
2.43.0


From 76ad1349bf2d1d1a89eb76c30597696fb2209456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 008/115] fix: do not read past the received data when parsing
 the product headers

---
 src/sbn.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/sbn.c b/src/sbn.c
index 1b2f005..92238ca 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -14,6 +14,9 @@
 #include "sbn.h"
 #include "const.h"
 
+/* The most that is scanned of the data to find the wmo header */
+#define WMO_COPY_SIZE	128
+
 static int unpack_sbn_headers(struct sbn_frame *sbnf);
 static int unpack_fl_header(struct frame_level_header *flh, 
 			    unsigned char *data);
@@ -298,7 +301,7 @@ int sbn_unpack_frame(struct sbn_frame *sbnf){
       pdata_size = sbnf->frdata_size;
     }
 
-    if(isalpha(pdata[0])){
+    if((pdata_size > 0) && isalpha(pdata[0])){
       sbnf->ccb = NULL;
       sbnf->ccb_size = 0;
     }else{
@@ -384,6 +387,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
    */
   char *wmo;
   char wmobbb[WMO_BBB_SIZE + 1];	/* 6 + 1 */
+  char wmocopy[WMO_COPY_SIZE + 1];
   int count_blanks;
   int i;
   int b;
@@ -422,14 +426,22 @@ int split_wmo_header(struct sbn_frame *sbnf,
   memset(wmo_awips, '\0', WMO_AWIPS_SIZE + 1);
   memset(wmo_notawips, '\0', WMO_NOTAWIPS_SIZE + 1);
 
+  /*
+   * Scan a copy because the data is not a null-terminated string.
+   */
+  for(i = 0; (i < data_size) && (i < WMO_COPY_SIZE); ++i)
+    wmocopy[i] = wmo[i];
+
+  wmocopy[i] = '\0';
+
   /* Count how many parts the wmo header has */
   count_blanks = count_char(wmo, data_size, ' ');
   if(count_blanks == 3) {
-    if(sscanf(wmo, "%6s %4s %6s %6s",
+    if(sscanf(wmocopy, "%6s %4s %6s %6s",
 	      wmo_id, wmo_station, wmo_time, wmobbb) < 4)
       return(1);
   } else if(count_blanks == 2) {
-    if(sscanf(wmo, "%6s %4s %6s",
+    if(sscanf(wmocopy, "%6s %4s %6s",
 	      wmo_id, wmo_station, wmo_time) < 3)
       return(1);
   } else
@@ -442,7 +454,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
    * start of the awips line, if any
    */
   i = 0;
-  while((*wmo != '\n') && (i < data_size)){
+  while((i < data_size) && (*wmo != '\n')){
      ++wmo;
      ++i;
   }
@@ -486,7 +498,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
   }
 
   n = data_size - (i + 1);
-  if((wmo[8] == '\n') && (n >= 9)){
+  if((n >= 9) && (wmo[8] == '\n')){
     if((sscanf(wmo, "%6s", wmo_awips) != 1) || (validate_awips(wmo_awips) != 0))
       wmo_awips[0] = '\0';
   }
-- 
2.43.0


From d435096c7c9f6adef8c75eca0296937c2f2af00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 009/115] fix: wake another waiter when opening a memory spool
 slot fails

---
 src/libspoolbdb/spoolslots.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libspoolbdb/spoolslots.c b/src/libspoolbdb/spoolslots.c
index b1b98ec..afc2a64 100644
--- a/src/libspoolbdb/spoolslots.c
+++ b/src/libspoolbdb/spoolslots.c
@@ -133,6 +133,13 @@ int spoolbuf_slots_open(struct spoolbuf_slots_st *spoolslots,
    */
   status = _spoolbuf_slots_open_unlocked(spoolslots, spooldb, fkey, sd, 0);
 
+  /*
+   * If the slot was not used (e.g., the key was not found) and there is
+   * another thread waiting for a slot, then that one can use it.
+   */
+  if(status != 0)
+    pthread_cond_signal(&spoolslots->cond);
+
   status1 = pthread_mutex_unlock(&spoolslots->mutex);
   if(status == 0)
     status = status1;
-- 
2.43.0


From d423a19377c356d09d05c15760bfaf04e38043b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 010/115] fix: enforce the pctl hard limit also when more
 elements are already queued

---
 src/pctldb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index 6e494c7..a447b02 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -424,7 +424,7 @@ static int pctldb_hard_limit(struct pctldb_st *pctldb, uint32_t mf_size){
   }
 
   if(pctldb->hardlimit > 0){
-    if(pctldb->n == pctldb->hardlimit)
+    if(pctldb->n >= pctldb->hardlimit)
       return(1);
   }
 
-- 
2.43.0


From 59e0ce72d5eaba52caf7509f273046bde3995be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 011/115] fix: check the size of an NBS1 packet before reading
 it

The sum of the transmitted size and the envelope size could wrap around,
and then the read went past the end of the packet buffer. A packet shorter
than its header was unpacked from whatever was left in the buffer, and
the file name was not always terminated.
---
 src/nbs1r.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nbs1r.c b/src/nbs1r.c
index b832b64..b330b84 100644
--- a/src/nbs1r.c
+++ b/src/nbs1r.c
@@ -62,6 +62,7 @@ int unpack_nbs1_header(struct nbs1_packet_st *nbs){
   nbs->np_channel_index = p[7];
   p += 8;
   strncpy(nbs->fbasename, (char*)p, FBASENAME_SIZE + 1);
+  nbs->fbasename[FBASENAME_SIZE] = '\0';
   p += FBASENAME_SIZE + 1;
   nbs->f_zip = p[0];
   nbs->num_blocks = unpack_uint16(p, 1);  
@@ -121,7 +122,8 @@ int recv_nbs_packet(int fd, struct nbs1_packet_st *nbs,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= NBS1_PACKET_MAXSIZE); */
-  if(data_size + NBS_ENVELOPE_SIZE > NBS1_PACKET_MAXSIZE)
+  if((data_size < NBS1_HEADER_SIZE) ||
+     (data_size > NBS1_PACKET_MAXSIZE - NBS_ENVELOPE_SIZE))
     return(1);
 
   n = readn(fd, &nbs->packet[NBS_ENVELOPE_SIZE], data_size, timeout_s, retry);
-- 
2.43.0


From 67bdc8942165aaeb167b7b074b526e8847839ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:37 +0000
Subject: [PATCH 012/115] fix: product codes above 127 unpacked as negative
 from an fpath packet

The bytes of the packet were read through a (signed) char pointer.
---
 src/packfpu.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packfpu.c b/src/packfpu.c
index 2dcd37c..7f0842e 100644
--- a/src/packfpu.c
+++ b/src/packfpu.c
@@ -66,10 +66,10 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
 
   packetinfo->seq_number = unpack_uint32(p, 0);
-  packetinfo->psh_product_type = p[4];
-  packetinfo->psh_product_category = p[5];
-  packetinfo->psh_product_code = p[6];
-  packetinfo->np_channel_index = p[7];
+  packetinfo->psh_product_type = (unsigned char)p[4];
+  packetinfo->psh_product_category = (unsigned char)p[5];
+  packetinfo->psh_product_code = (unsigned char)p[6];
+  packetinfo->np_channel_index = (unsigned char)p[7];
 
   p += 8;
   packetinfo->fname = p;
-- 
2.43.0


From 296031d34dc90064c09aadeac722bd551eb181b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:38 +0000
Subject: [PATCH 013/115] fix: check and pad the fpath packets received from a
 master

The sum of the transmitted size and the envelope size could wrap around,
and then the read went past the end of the packet buffer; a packet without
terminated names was accepted; and a packet shorter than the local ones was
queued with whatever was left in the buffer after it, so that the nbs2
clients and the filters lost the packet boundaries.
---
 src/packfp.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/packfp.c b/src/packfp.c
index f5bc322..a1eacec 100644
--- a/src/packfp.c
+++ b/src/packfp.c
@@ -167,6 +167,7 @@ int recv_fp_packet(int fd, struct packet_info_st *packetinfo,
   ssize_t n = 0;
   unsigned char *p;
   uint32_t data_size;
+  uint32_t full_size;
   uint32_t dataid;
   /* uint32_t transmitted_checksum; */
 
@@ -193,7 +194,8 @@ int recv_fp_packet(int fd, struct packet_info_st *packetinfo,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= packetinfo->packet_size); */
-  if(data_size + NBS_ENVELOPE_SIZE > packetinfo->packet_size)
+  if((data_size <= NBSFP_PINFO_SIZE) ||
+     (data_size > packetinfo->packet_size - NBS_ENVELOPE_SIZE))
     return(1);
 
   p += NBS_ENVELOPE_SIZE;
@@ -210,5 +212,19 @@ int recv_fp_packet(int fd, struct packet_info_st *packetinfo,
   if(status != 0)
     return(2);
 
+  if((memchr(packetinfo->fname, '\0', FNAME_SIZE + 1) == NULL) ||
+     (memchr(packetinfo->fpath, '\0', data_size - NBSFP_PINFO_SIZE) == NULL))
+    return(2);
+
+  /*
+   * The packet is queued with its full size; if the master used a shorter
+   * one pad it (and fix the envelope accordingly).
+   */
+  full_size = packetinfo->packet_size - NBS_ENVELOPE_SIZE;
+  if(data_size < full_size){
+    memset(p + data_size, 0, full_size - data_size);
+    status = nbs_pack_envelope(packetinfo->packet, PACKID_FPATH, full_size);
+  }
+
   return(status);
 }
-- 
2.43.0


From d129cc48b67603d2d0e226843eddd9dfa6df8eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 014/115] fix: fname of a packet packed from the input fifo was
 not set

nbsfp_pack_fpath() left the fname of the packet info uninitialized, and
slaveinproc() uses it to match the filter and server queue patterns.
---
 src/packfp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/packfp.c b/src/packfp.c
index a1eacec..abc952a 100644
--- a/src/packfp.c
+++ b/src/packfp.c
@@ -68,6 +68,7 @@ int nbsfp_pack_fpath(struct packet_info_st *packetinfo,
 
   packetp = (char*)packetinfo->packet;
   data = &(packetp[NBS_ENVELOPE_SIZE]);
+  packetinfo->fname = &(data[8]);
   packetinfo->fpath = &(data[NBSFP_PINFO_SIZE]);
 
   packetinfo->seq_number = pce->seq_number;
-- 
2.43.0


From ea9fa383ce0de7fdf6a515283e57c67447c46702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:59 +0000
Subject: [PATCH 015/115] fix: bound the size of the messages read from the
 input fifo

A size of 2^31-1 or larger overflowed (or was negative), and the message
was then read or terminated out of the bounds of the buffer.
---
 src/slavein/reader.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/slavein/reader.c b/src/slavein/reader.c
index 38541ce..b21767e 100644
--- a/src/slavein/reader.c
+++ b/src/slavein/reader.c
@@ -21,6 +21,11 @@
 #include "slavein.h"
 #include "framep.h"
 
+/*
+ * The largest file information string accepted.
+ */
+#define FINFO_MAXSIZE	65535
+
 /*
  * private thread info (stored in the info field of the slave_element_st)
  */
@@ -189,6 +194,7 @@ static int recv_in_packet(struct slave_element_st *slave){
    * the size of that string, not including the final '\n'.
    */
   int status = 0;
+  uint32_t u32;
   int finfo_size;
   unsigned char finfo_size_buf[4];
   int n;
@@ -215,7 +221,11 @@ static int recv_in_packet(struct slave_element_st *slave){
   if(status != 0)
     return(status);
 
-  finfo_size = unpack_uint32(finfo_size_buf, 0);
+  u32 = unpack_uint32(finfo_size_buf, 0);
+  if(u32 > FINFO_MAXSIZE)
+    return(2);
+
+  finfo_size = u32;
   if(slavein_info->buffer_size < finfo_size + 1){
     if(slavein_info->buffer != NULL)
       free(slavein_info->buffer);
-- 
2.43.0


From 4e048d56dbe5e9c6f3105f8ed66bda95bd35b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:11 +0000
Subject: [PATCH 016/115] fix: numbers out of range were truncated instead of
 refused

strto_int() and strto_uint() stored the result of strtol() and strtoul()
in an int before checking it.
---
 filters/filterlib/c/util.c | 10 ++++++----
 src/stoi.c                 | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/filters/filterlib/c/util.c b/filters/filterlib/c/util.c
index 06cfee6..c3ede59 100644
--- a/filters/filterlib/c/util.c
+++ b/filters/filterlib/c/util.c
@@ -17,14 +17,15 @@ int strto_int(char *s, int *val){
 
   char *end;
   int status = 0;
-  int v;
+  long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtol(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v < INT_MIN) || (v > INT_MAX))
     status = 1;
   
   if(status == 0)
@@ -39,14 +40,15 @@ int strto_uint(char *s, unsigned int *val){
 
   char *end;
   int status = 0;
-  unsigned int v;
+  unsigned long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtoul(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v > UINT_MAX))
     status = 1;
   
   if(status == 0)
diff --git a/src/stoi.c b/src/stoi.c
index 8ea8124..06616e3 100644
--- a/src/stoi.c
+++ b/src/stoi.c
@@ -17,14 +17,15 @@ int strto_int(char *s, int *val){
 
   char *end;
   int status = 0;
-  int v;
+  long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtol(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v < INT_MIN) || (v > INT_MAX))
     status = 1;
   
   if(status == 0)
@@ -39,14 +40,15 @@ int strto_uint(char *s, unsigned int *val){
 
   char *end;
   int status = 0;
-  unsigned int v;
+  unsigned long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtoul(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v > UINT_MAX))
     status = 1;
   
   if(status == 0)
-- 
2.43.0


From fd11d61dd8e2635b4d0207b129a7b7166c664508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:11 +0000
Subject: [PATCH 017/115] fix: nbspinsert -i left the end of an existing longer
 file

---
 tools/nbspinsert/nbspinsert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/nbspinsert/nbspinsert.c b/tools/nbspinsert/nbspinsert.c
index 048a795..a758484 100644
--- a/tools/nbspinsert/nbspinsert.c
+++ b/tools/nbspinsert/nbspinsert.c
@@ -500,7 +500,7 @@ static int save_fpath(void) {
    char input_buffer[FPATH_INPUT_BUFFER_SIZE];
    size_t input_buffer_size = FPATH_INPUT_BUFFER_SIZE;
      
-   fd = open(g.fpath, O_WRONLY | O_CREAT, FPATH_MODE);
+   fd = open(g.fpath, O_WRONLY | O_CREAT | O_TRUNC, FPATH_MODE);
    if(fd == -1){
      log_err(0, "%s %s", "Error opening", g.fpath);
 
-- 
2.43.0


From 86b83804ebd5b13734731774594a46c220f9fcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:53 +0000
Subject: [PATCH 018/115] fix: save all the received frames of an uncompressed
 product

When the header announced fewer frames than were transmitted, the rest was
dropped from the file if the frames were uncompressed (but not otherwise).
---
 src/nbsp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 094612d..5601c7b 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -580,7 +580,11 @@ static int pce_mcat_frames(struct pctl_element_st *pce,
   int pdata_size;
   int f_compressed;
 
-  numfragments = pce->num_fragments;
+  /*
+   * All the frames received are saved (as when they are not uncompressed);
+   * a complete product has at least num_fragments.
+   */
+  numfragments = pce->recv_fragments;
 
   for(i = 0; i < numfragments; ++i){
     pdata_size = get_memframe(pce->mf, &pdata, &f_compressed);
-- 
2.43.0


From 2ab744bdd8be49e1a28d916b5e8d7dae7abb1ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:53 +0000
Subject: [PATCH 019/115] fix: an empty frame made an uncompressed product
 unreadable

A frame without data was taken as an error and the product was lost.
---
 src/nbsp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 5601c7b..39ee522 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -588,7 +588,7 @@ static int pce_mcat_frames(struct pctl_element_st *pce,
 
   for(i = 0; i < numfragments; ++i){
     pdata_size = get_memframe(pce->mf, &pdata, &f_compressed);
-    if(pdata_size <= 0){
+    if(pdata_size < 0){
       log_errx("Error reading frame %d from memfile %u.", i, pce->seq_number);
       status = 2;
       break;
-- 
2.43.0


From 924e2f65191b08d5cd3df0357e633ee5664aa358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:40 +0000
Subject: [PATCH 020/115] fix: close the file being sent when a client thread
 is canceled

---
 src/serverc.c | 58 ++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/serverc.c b/src/serverc.c
index 9071a87..8a9ca01 100644
--- a/src/serverc.c
+++ b/src/serverc.c
@@ -46,6 +46,9 @@ static int emwin_retransmit_packet(struct conn_element_st *ce,
 static int nbs_retransmit_packet(struct conn_element_st *ce,
 				 struct nbs1_packet_st *nbs);
 
+static void cleanup_emwin_packet(void *arg);
+static void cleanup_nbs_packet(void *arg);
+
 static int send_client(struct conn_element_st *ce,
 		       void *data, uint32_t data_size);
 static int send_client1(struct conn_element_st *ce,
@@ -284,20 +287,31 @@ static int send_emwin_client(struct conn_element_st *ce,
                              uint32_t eqinfo_size __attribute__((unused))){
   int status = 0;
   struct emwin_packet_st ep;
+  int cancel_state;
   int i;
 
   /*
    * assert(eqinfo_size == emwin_queue_info_get_size());
    */
 
+  (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state);
   status = init_emwin_packet_st(&ep, eqinfo->fpathout, eqinfo->emwinfname);
   if(status == -1)
     log_err2("Could not initialize emwin packet", eqinfo->fpathout); 
   else if(status != 0)
     log_errx("Error from init_emwin_packet() for %s.", eqinfo->fpathout); 
 
-  if(status != 0)
+  if(status != 0){
+    (void)pthread_setcancelstate(cancel_state, &cancel_state);
     return(status);
+  }
+
+  /*
+   * The main thread cancels this thread when the client disconnects;
+   * the file must be closed also in that case.
+   */
+  pthread_cleanup_push(cleanup_emwin_packet, &ep);
+  (void)pthread_setcancelstate(cancel_state, &cancel_state);
 
   for(i = 1; i <= ep.parts_total; ++i){
     status = build_emwin_packet(&ep);
@@ -313,11 +327,22 @@ static int send_emwin_client(struct conn_element_st *ce,
       break;
   }
 
-  free_emwin_packet_st(&ep);
+  pthread_cleanup_pop(1);	/* free_emwin_packet_st(&ep) */
 
   return(status);
 }
 
+static void cleanup_emwin_packet(void *arg){
+  /*
+   * close() is a cancellation point too.
+   */
+  int cancel_state;
+
+  (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state);
+  free_emwin_packet_st((struct emwin_packet_st*)arg);
+  (void)pthread_setcancelstate(cancel_state, &cancel_state);
+}
+
 static int emwin_retransmit_packet(struct conn_element_st *ce,
 				   struct emwin_packet_st *ep){
   int fd;
@@ -371,6 +396,7 @@ static int send_nbs1_client(struct conn_element_st *ce,
   int status = 0;
   struct nbs1_packet_st nbs;
   struct packet_info_st packetinfo;
+  int cancel_state;
   int i;
 
   packetinfo.packet_size = (size_t)packet_size;
@@ -387,6 +413,7 @@ static int send_nbs1_client(struct conn_element_st *ce,
    *   packetinfo.fpath, packetinfo.seq_number);
    */
 
+  (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state);
   status = init_nbs_packet_st(&nbs, packetinfo.fpath,
 			      packetinfo.seq_number, 
 			      packetinfo.psh_product_type,
@@ -396,20 +423,30 @@ static int send_nbs1_client(struct conn_element_st *ce,
 			      packetinfo.fname);
   if(status == -1){
     log_err2("Could not initialize nbs packet", packetinfo.fpath); 
-    return(status);
   }else if(status == -2){
     log_errx("Could not initialize nbs packet. %s not found in mspoolbdb.",
 	     packetinfo.fpath);
-    return(status);
   }else if(status != 0){
     /*
      * This is a bug in which init_nbs_packet was called with an invalid
      * value for the spooltype (which should have been checked in conf.c.in).
      */
     log_errx("BUG: init_nbs_packet() called with invalid spooltype");
+  }
+
+  if(status != 0){
+    (void)pthread_setcancelstate(cancel_state, &cancel_state);
     return(status);
   }
 
+  /*
+   * The main thread cancels this thread when the client disconnects;
+   * the file (or the slot of the memory spool) must be closed also
+   * in that case.
+   */
+  pthread_cleanup_push(cleanup_nbs_packet, &nbs);
+  (void)pthread_setcancelstate(cancel_state, &cancel_state);
+
   for(i = 1; i <= nbs.num_blocks; ++i){
     status = build_nbs_packet(&nbs);
     if(status == -1)
@@ -428,11 +465,22 @@ static int send_nbs1_client(struct conn_element_st *ce,
       break;
   }
 
-  free_nbs_packet_st(&nbs);
+  pthread_cleanup_pop(1);	/* free_nbs_packet_st(&nbs) */
 
   return(status);
 }
 
+static void cleanup_nbs_packet(void *arg){
+  /*
+   * close() is a cancellation point too.
+   */
+  int cancel_state;
+
+  (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state);
+  free_nbs_packet_st((struct nbs1_packet_st*)arg);
+  (void)pthread_setcancelstate(cancel_state, &cancel_state);
+}
+
 static int nbs_retransmit_packet(struct conn_element_st *ce,
 				 struct nbs1_packet_st *nbs){
   int fd;
-- 
2.43.0


From 4844c58c08a1c8c2c11017253c0880dd3306326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:40 +0000
Subject: [PATCH 021/115] fix: do not leave stderr locked when a thread is
 canceled while logging

---
 src/err.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/err.c b/src/err.c
index b4f5cce..1bb5a10 100644
--- a/src/err.c
+++ b/src/err.c
@@ -7,6 +7,7 @@
  */
 #include <unistd.h>
 #include <syslog.h>
+#include <pthread.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>	/* exit() for log_assert() */
@@ -17,6 +18,26 @@ static int f_daemon = 0;
 static int f_verbose = 0;
 static int f_debug = 0;
 
+static void log_warn(char *fmt, ...);
+
+static void log_warn(char *fmt, ...){
+  /*
+   * vwarn() keeps stderr locked if the thread is canceled inside it
+   * (as the client threads of the server are), and then the other
+   * threads would block in their next message.
+   */
+  va_list ap;
+  int cancel_state;
+
+  (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state);
+
+  va_start(ap, fmt);
+  vwarn(fmt, ap);
+  va_end(ap);
+
+  (void)pthread_setcancelstate(cancel_state, &cancel_state);
+}
+
 void set_log_daemon(void){
 
   f_daemon = 1;
@@ -101,7 +122,7 @@ void log_err(char *s){
   if(f_daemon == 1)
     syslog(LOG_ERR, "%s %m", s);
   else
-    warn("%s", s);
+    log_warn("%s", s);
 }
 
 void log_err2(char *s1, char *s2){
@@ -109,7 +130,7 @@ void log_err2(char *s1, char *s2){
   if(f_daemon == 1)
     syslog(LOG_ERR, "%s %s. %m", s1, s2);
   else
-    warn("%s %s.", s1, s2);
+    log_warn("%s %s.", s1, s2);
 }
 
 void log_err2u(char *s1, unsigned int u){
@@ -117,7 +138,7 @@ void log_err2u(char *s1, unsigned int u){
   if(f_daemon == 1)
     syslog(LOG_ERR, "%s %u. %m", s1, u);
   else
-    warn("%s %u.", s1, u);
+    log_warn("%s %u.", s1, u);
 }
 
 void log_verbose(int level, char *fmt, ...){
-- 
2.43.0


From 59e6739cb7fd9c2f223498c45e6a709ddd4c8931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:10 +0000
Subject: [PATCH 022/115] fix: an emwin filter that does not answer in time is
 an error

pfilter_read() took the timeout (-2) for a complete read, so that the
server used whatever was in the buffer as the answer of the filter and
went on using the filter, out of step.
---
 src/pfilter.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pfilter.c b/src/pfilter.c
index 5b7beab..6836d21 100644
--- a/src/pfilter.c
+++ b/src/pfilter.c
@@ -75,14 +75,15 @@ void pfilter_close(struct pfilter_st *filterp){
 int pfilter_read(struct pfilter_st *filterp,
 		 void *buffer, size_t size){
   /*
-   * Reading is done from the fifo.
+   * Reading is done from the fifo. The function readn_fifo() returns -2
+   * if it timed out before anything could be read.
    */
   ssize_t n = 0;
 
   n = readn_fifo(filterp->fifofd, buffer, size, filterp->secs);
   if(n == -1)
     return(-1);
-  else if((size_t)n < size)
+  else if((n < 0) || ((size_t)n < size))
     return(1);
 
   return(0);
-- 
2.43.0


From a1411cfa5a47e24b04607258313b770baeb2f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:23 +0000
Subject: [PATCH 023/115] fix: do not serve EMWIN to unidentified clients when
 it is not enabled

A client that does not identify itself within the time limit is assumed to
be an EMWIN client; like any other client it must be disconnected if that
protocol is not being served (there is no emwin filter then, and the
server aborted when it tried to use it).
---
 src/serverm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serverm.c b/src/serverm.c
index 6d01453..c5f5180 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -628,6 +628,10 @@ static void process_unidentified_connections(void){
 	log_err2("Could not set protocol for", nameorip);
 	poll_kill_client_connection(g.ct, i);
 	numentries = conn_table_get_numentries(g.ct);
+      }else if(match_client_protocol(g.ct, i) != 0){
+	log_errx("Client %s protocol is not being served.", nameorip);
+	poll_kill_client_connection(g.ct, i);
+	numentries = conn_table_get_numentries(g.ct);
       }
     }
   }
-- 
2.43.0


From d7d78f84037bc4544e4321ae53b209a108980136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 024/115] fix: read the options of a client from its own line
 only

The entry of a client was looked up with strstr(), so that 10.0.0.1 took
the options of 10.0.0.10, and the options that its line does not give were
taken from the lines that follow it instead of from the defaults.
---
 src/serverm.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/serverm.c b/src/serverm.c
index c5f5180..c4153e2 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -6,6 +6,7 @@
  * $Id$
  */
 #include <assert.h>
+#include <ctype.h>
 #include <sys/types.h>
 #include <unistd.h>
 #include <stdlib.h>
@@ -1284,6 +1285,8 @@ static void lookup_client_options(struct conn_element_st *ce,
    */
   char *nameorip;
   char *p;
+  char *end;	/* end of the line of the client */
+  size_t n;
   int val;
   int a[5];
   int Na = 5;	/* size of a[] */
@@ -1291,11 +1294,27 @@ static void lookup_client_options(struct conn_element_st *ce,
 
   assert(clientoptions != NULL);
 
+  /*
+   * There is one line for each client. The name must match entirely
+   * (10.0.0.1 is also found in 10.0.0.10 and in 110.0.0.1).
+   */
   nameorip = conn_element_get_nameorip(ce);
+  n = strlen(nameorip);
   p = strstr(clientoptions, nameorip);
+  while(p != NULL){
+    if(((p == clientoptions) || isspace((unsigned char)p[-1])) &&
+       ((p[n] == CLIENTOPTION_SEP_CHAR) || isspace((unsigned char)p[n]) ||
+	(p[n] == '\0')))
+      break;
+
+    p = strstr(p + 1, nameorip);
+  }
+
   if(p == NULL)
     return;
 
+  end = p + strcspn(p, "\n");
+
   /*
    * Client found.
    */
@@ -1315,10 +1334,11 @@ static void lookup_client_options(struct conn_element_st *ce,
     /*
      * Find the separating character and point to the next parameter.
      */
-    p = strchr(p, CLIENTOPTION_SEP_CHAR);
+    p = memchr(p, CLIENTOPTION_SEP_CHAR, end - p);
     if(p != NULL){
       ++p;
-      if(sscanf(p, "%d", &val) == 1){
+      p += strspn(p, " \t\r");	/* sscanf would also skip the end of the line */
+      if((p < end) && (sscanf(p, "%d", &val) == 1)){
 	if(val > 0)
 	  a[count] = val;
       }
-- 
2.43.0


From c8b9f725a6dac43cf1ceb0c244d9012ea3dc249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 025/115] fix: apply nbs1acceptpatt and nbs2acceptpatt

The configuration file documents that they control what products the
server distributes to the NBS1 and NBS2 clients, but they were not used.
---
 src/serverm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serverm.c b/src/serverm.c
index c4153e2..421667a 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -869,10 +869,14 @@ static int server_send_client_queues(struct packet_info_st *packetinfo){
 		  i, nameorip);
     }
 
+    status = 0;
     if((protocol == PROTOCOL_EMWIN) && (status1 == 0)){
       status = connqueue_snd(g.ct->ce[i].cq,
 			     &emwinqueueinfo, emwinqueueinfo_size, &dberror);
-    } else if((protocol == PROTOCOL_NBS1) || (protocol == PROTOCOL_NBS2)){
+    } else if(((protocol == PROTOCOL_NBS1) &&
+	       (nbs1_regex_match(packetinfo->fname) == 0)) ||
+	      ((protocol == PROTOCOL_NBS2) &&
+	       (nbs2_regex_match(packetinfo->fname) == 0))){
       status = connqueue_snd(g.ct->ce[i].cq,
 			     packetinfo->packet, packetinfo->packet_size,
 			     &dberror);
-- 
2.43.0


From daf9ab6e03b3db82dd62f41168fa6d5925bfad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:16 +0000
Subject: [PATCH 026/115] fix: do not crash reporting an invalid infifo entry
 of masterservers

The arguments of the message were swapped, the status printed as a string.
---
 src/slavet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slavet.c b/src/slavet.c
index d750e64..ba3d9b7 100644
--- a/src/slavet.c
+++ b/src/slavet.c
@@ -97,7 +97,7 @@ static int slave_element_configure(struct slave_element_st *slave,
 
     if(status != 0){
       log_errx("Invalid configuration [%d] string for SLAVETYPE_INFIFO: %s",
-	       s, status);
+	       status, s);
       status = 1;
       goto End;
     }
-- 
2.43.0


From 973e79c49550a0cad36eda0060f79d275535a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:57 +0000
Subject: [PATCH 027/115] fix: take the default port for "type,host," in
 masterservers

nbspd.conf documents that the default is used when the port is omitted or empty.
---
 src/slavet.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/slavet.c b/src/slavet.c
index ba3d9b7..61f050b 100644
--- a/src/slavet.c
+++ b/src/slavet.c
@@ -112,10 +112,12 @@ static int slave_element_configure(struct slave_element_st *slave,
       mastername = ssplit->argv[1];
     else if(ssplit->argc == 3){
       /*
-       * In this case both the host and port are given.
+       * In this case both the host and port are given. As below, an empty
+       * port leaves the default.
        */
       mastername = ssplit->argv[1];
-      masterport = ssplit->argv[2];
+      if(valid_str(ssplit->argv[2]))
+	masterport = ssplit->argv[2];
     } else if((ssplit->argc > 3) && (ssplit->argc <= SLAVE_NET_STRING_FIELDS)){
       /*
        * In this case the port can be empty, and in that case
-- 
2.43.0


From 03010ec49d78825ce542585ed6116a3c2da89745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 028/115] fix: do not accept negative log periods

The options are linked to an int, and setoptval() only writes that much of a
time_t: -1 became 4294967295 and passed the validation.
---
 src/conf.c.in | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/conf.c.in b/src/conf.c.in
index e0a909b..53f254e 100644
--- a/src/conf.c.in
+++ b/src/conf.c.in
@@ -613,6 +613,7 @@ static struct confoption_st confoptions[] = {
 
 static void fprintf_str(FILE *f, char *fmt,
 			char *name, char *value);
+static void setopttime(time_t *var, struct confoption_st *optable, int id);
 
 int configure(void){
 
@@ -659,7 +660,7 @@ int configure(void){
 	CONFOPT_MSPOOLBDB_MAXSIZE_PER128);
   setoptval(&g.mspoolbdb_dbstats_logfile, confoptions,
 	CONFOPT_MSPOOLBDB_DBSTATS_LOGFILE);
-  setoptval(&g.mspoolbdb_dbstats_logperiod_secs, confoptions,
+  setopttime(&g.mspoolbdb_dbstats_logperiod_secs, confoptions,
 	CONFOPT_MSPOOLBDB_DBSTATS_LOGPERIOD_SECS);
   setoptval(&g.mspoolbdb_panicfile, confoptions, CONFOPT_MSPOOLBDB_PANICFILE);
   setoptval(&g.mspoolbdb_panicfile_mode, confoptions,
@@ -694,15 +695,15 @@ int configure(void){
   setoptval(&g.product_mode, confoptions, CONFOPT_PRODUCTMODE);
   setoptval(&g.subdir_product_mode, confoptions, CONFOPT_SUBDIRMODE);
   setoptval(&g.spoolsavefmt, confoptions, CONFOPT_SPOOLSAVEFMT);
-  setoptval(&g.nbspstats_logperiod_secs, confoptions,
+  setopttime(&g.nbspstats_logperiod_secs, confoptions,
 	CONFOPT_STATS_LOGPERIOD_SECS);
-  setoptval(&g.qstate_logperiod_secs, confoptions,
+  setopttime(&g.qstate_logperiod_secs, confoptions,
 	CONFOPT_QSTATE_LOGPERIOD_SECS);
-  setoptval(&g.serverstate_logperiod_secs, confoptions,
+  setopttime(&g.serverstate_logperiod_secs, confoptions,
 	CONFOPT_SERVERSTATE_LOGPERIOD_SECS);
   setoptval(&g.serverthreads_logperiod_packets, confoptions,
 	CONFOPT_SERVERTHREADS_LOGPERIOD_PACKETS);
-  setoptval(&g.serverthreads_logperiod_secs, confoptions,
+  setopttime(&g.serverthreads_logperiod_secs, confoptions,
 	CONFOPT_SERVERTHREADS_LOGPERIOD_SECS);
   setoptval(&g.servertype, confoptions, CONFOPT_SERVERTYPE);
   setoptval(&g.servername, confoptions, CONFOPT_SERVERNAME);
@@ -808,6 +809,16 @@ int configure(void){
   return(status);
 }
 
+static void setopttime(time_t *var, struct confoption_st *optable, int id){
+  /*
+   * setoptval() writes an int, which is smaller than a time_t.
+   */
+  int v;
+
+  setoptval(&v, optable, id);
+  *var = v;
+}
+
 void release_confoptions(void){
   
   kill_confopt_table(confoptions);
-- 
2.43.0


From 5ce071718eddb6a044aca7e8be495793be006565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 029/115] fix: validate multicastport

---
 src/conf.c.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.c.in b/src/conf.c.in
index 53f254e..a2ad35e 100644
--- a/src/conf.c.in
+++ b/src/conf.c.in
@@ -1008,7 +1008,7 @@ int validate_configuration(void){
   /* char* user, group, home can be NULL or empty */
   /* mode_t umask	type */
   VALIDATE_STR(g.multicastip, "multicastip");
-  VALIDATE_STR(g.multicastip, "multicastport");
+  VALIDATE_STR(g.multicastport, "multicastport");
   /* char* ifname, ifip  can be NULL or empty */
   VALIDATE_PARAM_L(g.udprcvsize, -1, "udprcvsize");
   /* char* startscript, stopscript  can be NULL or empty. */
-- 
2.43.0


From b97fa120fa19f35f372bd5614805871207a5a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:39 +0000
Subject: [PATCH 030/115] fix: a dangling link in the filter directory must not
 stop nbspd

---
 src/filters.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/filters.c b/src/filters.c
index 2a4fb32..4af4c31 100644
--- a/src/filters.c
+++ b/src/filters.c
@@ -756,8 +756,14 @@ static int process_dir_entry(char *dir, char *name){
     }else if(S_ISREG(sb.st_mode) && ((sb.st_mode & S_IXUSR) != 0)){
       status = add_filter_entry(path, FILTER_TYPE_PIPE);
     }
-  }else
+  }else{
+    /*
+     * It is not a filter (e.g., a link that points nowhere, or a file that
+     * has just been removed); the others have to be installed anyway.
+     */
     log_err2("Could not get info for", path);
+    status = 0;
+  }
 
   free(path);
 
-- 
2.43.0


From d8cf3607a480235ab0b717579de2c866f2d6f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:57 +0000
Subject: [PATCH 031/115] fix: strsplit_recreate() reused the fields of the
 previous string

---
 filters/ldmfilter/nbsp2ldm/src/strsplit.c | 16 +++++++++-------
 src/strsplit.c                            | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/filters/ldmfilter/nbsp2ldm/src/strsplit.c b/filters/ldmfilter/nbsp2ldm/src/strsplit.c
index 6d56441..6c85d89 100644
--- a/filters/ldmfilter/nbsp2ldm/src/strsplit.c
+++ b/filters/ldmfilter/nbsp2ldm/src/strsplit.c
@@ -52,14 +52,16 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
   if((b != 0) || (flags == STRSPLIT_FLAG_INCEMPTY))
     ++n;
 
-  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s)))
-    new_strp = strp;
-  else{
-    if(strp != NULL)
-      strsplit_delete(strp);
+  /*
+   * strsplit() modifies the copy of the string and the number of fields
+   * is that of this string, so what is in strp cannot be used again.
+   */
+  if(strp != NULL)
+    strsplit_delete(strp);
 
-    new_strp = strsplit_init(n, s);
-  }
+  new_strp = strsplit_init(n, s);
+  if(new_strp == NULL)
+    return(NULL);
 
   strsplit(new_strp, delim, flags);
 
diff --git a/src/strsplit.c b/src/strsplit.c
index ec1017b..f74f112 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -52,14 +52,16 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
   if((b != 0) || (flags == STRSPLIT_FLAG_INCEMPTY))
     ++n;
 
-  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s)))
-    new_strp = strp;
-  else{
-    if(strp != NULL)
-      strsplit_delete(strp);
+  /*
+   * strsplit() modifies the copy of the string and the number of fields
+   * is that of this string, so what is in strp cannot be used again.
+   */
+  if(strp != NULL)
+    strsplit_delete(strp);
 
-    new_strp = strsplit_init(n, s);
-  }
+  new_strp = strsplit_init(n, s);
+  if(new_strp == NULL)
+    return(NULL);
 
   strsplit(new_strp, delim, flags);
 
-- 
2.43.0


From 63db0c5d49680030634a95e4859cedbbfd812de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:57 +0000
Subject: [PATCH 032/115] fix: nbspcat crashed on a blank line

---
 filters/filterlib/c/nbspcat.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index a494022..22d49dc 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -112,6 +112,9 @@ static void process_input(void){
       break;
     }
     line[line_size - 1] = '\0';
+    if(line[strspn(line, " ")] == '\0')
+      continue;		/* blank line */
+
     g.strp = strsplit_recreate(line, " ", STRSPLIT_FLAG_IGNEMPTY, g.strp);
     if(g.strp == NULL)
       log_err(1, "Error in strplit_create()");
@@ -201,7 +204,8 @@ static void process_cmd(int argc, char **argv){
 static void cleanup(void){
 
   close_files();
-  strsplit_delete(g.strp);
+  if(g.strp != NULL)
+    strsplit_delete(g.strp);
 }
 
 static void close_files(void){
-- 
2.43.0


From 9dd9342b53864f6dee1245c54cb22b0d850b3853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:57 +0000
Subject: [PATCH 033/115] fix: nbspz did not write anything

---
 filters/filterlib/c/nbspz.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/filters/filterlib/c/nbspz.c b/filters/filterlib/c/nbspz.c
index 3bbb598..c17cd0e 100644
--- a/filters/filterlib/c/nbspz.c
+++ b/filters/filterlib/c/nbspz.c
@@ -142,8 +142,12 @@ static int write_cpage(FILE *fp, char *page, int page_size){
 static int process_file(void){
 
   int status = 0;
+  int n;
 
   g.buffer_size = filesize(g.opt_input_fname);
+  if(g.buffer_size == -1)
+    log_err(1, "Cannot process %s", g.opt_input_fname);
+
   g.buffer = malloc(g.buffer_size);
   if(g.buffer == NULL)
     log_err(1, "Cannot process %s", g.opt_input_fname);
@@ -160,13 +164,21 @@ static int process_file(void){
   if(g.output_fp == NULL)
     log_err_open(g.opt_output_fname);
   
-  status = read_page(g.input_fp, g.buffer, g.buffer_size);
+  /*
+   * The following return the number of bytes, or -1.
+   */
+  n = read_page(g.input_fp, g.buffer, g.buffer_size);
+  if(n != g.buffer_size)
+    status = 1;
 
   if(status == 0){
     if(g.opt_compress_level > 0)
-	status = write_cpage(g.output_fp, g.buffer, g.buffer_size);
+      n = write_cpage(g.output_fp, g.buffer, g.buffer_size);
     else
-      status = write_page(g.output_fp, g.buffer, g.buffer_size);
+      n = write_page(g.output_fp, g.buffer, g.buffer_size);
+
+    if(n == -1)
+      status = 1;
   }
 
   return(status);
-- 
2.43.0


From effb986e46c5347f0e4b2663c34356d1a31235e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:29 +0000
Subject: [PATCH 034/115] fix: nbspunz lost what did not fit in one output
 buffer and read past the end of its input

---
 filters/filterlib/c/nbspunz.c | 41 +++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/filters/filterlib/c/nbspunz.c b/filters/filterlib/c/nbspunz.c
index d04c950..5d4ec62 100644
--- a/filters/filterlib/c/nbspunz.c
+++ b/filters/filterlib/c/nbspunz.c
@@ -231,7 +231,8 @@ static int process_frame(struct memfile_st *mf, z_stream *zs, int *zstatus){
   if((gframenumber == 0) && (opt_skipcount > 0))
     skip = opt_skipcount;
 
-  if((zs->next_in[0] != ZBYTE0) || (zs->next_in[1] != ZBYTE1)){
+  if((zs->avail_in < 2) ||
+     (zs->next_in[0] != ZBYTE0) || (zs->next_in[1] != ZBYTE1)){
     if((n = write_memfile(mf, zs->next_in, zs->avail_in)) == -1)
       status = -1;
     else
@@ -240,21 +241,29 @@ static int process_frame(struct memfile_st *mf, z_stream *zs, int *zstatus){
     return(status);
   }
 
-  zs->next_out = outbuf;
-  zs->avail_out = outlen;    
-  *zstatus = inflate(zs, Z_SYNC_FLUSH);
-
-  if((*zstatus == Z_OK) || (*zstatus == Z_STREAM_END)){
-    write_out = outlen - zs->avail_out;
-    if(skip >= write_out)
-      log_errx(1, "Skip count too large.");
-    else
-      write_out -= skip;
-
-    if((n = write_memfile(mf, outbuf + skip, write_out)) == -1)
-      status = -1;
-  }else 
-    status = 1;
+  /*
+   * The frames in noaaport fit in the output buffer, but others (nbspz,
+   * nbspfile -p) may need it several times.
+   */
+  do {
+    zs->next_out = outbuf;
+    zs->avail_out = outlen;    
+    *zstatus = inflate(zs, Z_SYNC_FLUSH);
+
+    if((*zstatus == Z_OK) || (*zstatus == Z_STREAM_END)){
+      write_out = outlen - zs->avail_out;
+      if((skip > 0) && (skip >= write_out))
+	log_errx(1, "Skip count too large.");
+      else
+	write_out -= skip;
+
+      if((n = write_memfile(mf, outbuf + skip, write_out)) == -1)
+	status = -1;
+
+      skip = 0;
+    }else 
+      status = 1;
+  } while((status == 0) && (*zstatus == Z_OK) && (zs->avail_out == 0));
 
   return(status);
 }
-- 
2.43.0


From 29ef99ecbdbe28cf51783982a11895982884fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:38 +0000
Subject: [PATCH 035/115] fix: a file that cannot be opened ended a whole
 nbspcat session

---
 filters/filterlib/c/io.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/filters/filterlib/c/io.c b/filters/filterlib/c/io.c
index e496c3a..814c4de 100644
--- a/filters/filterlib/c/io.c
+++ b/filters/filterlib/c/io.c
@@ -22,10 +22,8 @@ FILE *fopen_input(char *path){
     return(stdin);
 
   f = fopen(path, "r");
-  if(f == NULL){
-    log_err_open(path);
-    return(NULL);
-  }
+  if(f == NULL)
+    return(NULL);	/* the caller reports it */
 
   s_input_filename = path;
 
@@ -60,10 +58,8 @@ FILE *fopen_output(char *path, char *mode){
     }
   }
 
-  if(fd == -1){
-    log_err_open(path);
-    return(NULL);
-  }
+  if(fd == -1)
+    return(NULL);	/* the caller reports it */
 
   f = fdopen(fd, mode);
   if(f == NULL){
-- 
2.43.0


From cf3c2b80d9411a50a0138cd05c4671e76cad5363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:22 +0000
Subject: [PATCH 036/115] fix: nbspfile took a directory name for the name of
 the product

---
 filters/filterlib/c/nbspfile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/filterlib/c/nbspfile.c b/filters/filterlib/c/nbspfile.c
index 3ddd86d..2757b44 100644
--- a/filters/filterlib/c/nbspfile.c
+++ b/filters/filterlib/c/nbspfile.c
@@ -433,6 +433,11 @@ static int has_awips_line(char *fname){
 
   char *s;
 
+  /* Only the name of the file counts, not that of its directory */
+  s = strrchr(fname, '/');
+  if(s != NULL)
+    fname = s + 1;
+
   s = strchr(fname, FNAME_AWIPS_SEP_CHAR);
   if(s != NULL)
     return(1);
-- 
2.43.0


From e702e1d28e951f8a11b0c1c76fc42731ae6d4475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:22 +0000
Subject: [PATCH 037/115] fix: nbspcat went on parsing the previous command
 after an invalid option

---
 filters/filterlib/c/nbspcat.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index 22d49dc..b48e829 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -141,9 +141,15 @@ static void process_cmd(int argc, char **argv){
   g.opt_header = 0;
   g.opt_ccbsize = CCB_SIZE;
 
-  optind = 1;
+  /*
+   * A new argv; getopt() must not continue with what may remain of the
+   * previous one.
+   */
 #ifdef HAVE_OPTRESET
+  optind = 1;
   optreset = 1;
+#else
+  optind = 0;
 #endif
 
   while((status == 0) && ((c = getopt(argc, argv, optstr)) != -1)){
-- 
2.43.0


From e20c98c2f9000d04444d53cf98438297df5cb3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:13 +0000
Subject: [PATCH 038/115] fix: nbspgrib2 trusted the length of a section

---
 filters/filterlib/c/nbspgrib2.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/nbspgrib2.c b/filters/filterlib/c/nbspgrib2.c
index d1d62db..2ac1366 100644
--- a/filters/filterlib/c/nbspgrib2.c
+++ b/filters/filterlib/c/nbspgrib2.c
@@ -37,6 +37,10 @@
 #define GRIB2_SECTION_HEADER_SIZE	5
 #define GRIB2_SECTION_INIT_SIZE		(GRIB2_SECTION_HEADER_SIZE + 27)
 
+/* What is used of these sections */
+#define GRIB2_SECTION1_MINSIZE		18
+#define GRIB2_SECTION4_MINSIZE		22
+
 struct grib2_section_st {
   void *buffer;
   int buffer_size;
@@ -230,7 +234,7 @@ static int process_file(void){
     }else if(grb->secnum == 4){
       model = ids[13];
       ftu = ids[17];
-      p1 = (ids[18] << 24) + (ids[19] << 16) + (ids[20] << 8) + ids[21];
+      p1 = ((unsigned int)ids[18] << 24) + (ids[19] << 16) + (ids[20] << 8) + ids[21];
       break;
     }
   }
@@ -310,8 +314,15 @@ static int read_grib2_section(FILE *fp, struct grib2_section_st* grb){
     return(1);
   }
 
-  size = (p[0] << 24) + (p[1] << 16) + (p[2] << 8) + p[3];
+  size = (int)(((unsigned int)p[0] << 24) + (p[1] << 16) + (p[2] << 8) + p[3]);
   secnum = p[4];
+
+  if((size < GRIB2_SECTION_HEADER_SIZE) ||
+     ((secnum == 1) && (size < GRIB2_SECTION1_MINSIZE)) ||
+     ((secnum == 4) && (size < GRIB2_SECTION4_MINSIZE))){
+    log_errx(1, "Corrupt section header.");
+    return(1);
+  }
   
   if((size > grb->buffer_size) && (grow_grib2_section(grb, size) != 0))
     return(-1);
-- 
2.43.0


From 10b125fc9c105a7cf1fb17a415a09b8ca13907ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:23 +0000
Subject: [PATCH 039/115] fix: nbsprad2info took a short read of a pipe for a
 complete one

---
 filters/filterlib/c/nbsprad2info.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/nbsprad2info.c b/filters/filterlib/c/nbsprad2info.c
index 5a5729a..ac47138 100644
--- a/filters/filterlib/c/nbsprad2info.c
+++ b/filters/filterlib/c/nbsprad2info.c
@@ -13,6 +13,7 @@
 #include <libgen.h>
 #include <ctype.h>
 #include "err.h"
+#include "io.h"
 #include "util.h"
 
 /*
@@ -143,14 +144,17 @@ int process_file(void){
       if((size_t)nleft > dummy_size)
 	ndummy_read = dummy_size;
 
-      if(read(fd, dummy, ndummy_read) == -1)
+      n = readf(fd, dummy, ndummy_read);
+      if(n == -1)
 	log_err(1, "Error from read()");
+      else if((size_t)n < ndummy_read)
+	log_errx(1, "Corrupt file.");
 
       nleft -= ndummy_read;
     }
   }
 
-  n = read(fd, b, L2_HEADER_SIZE);
+  n = readf(fd, b, L2_HEADER_SIZE);
   if(n == -1)
     log_err(1, "Error from read()");
   else if(n < L2_HEADER_SIZE)
-- 
2.43.0


From 66598f57cc377d64f6b47920b0df8e18ac4d1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:24 +0000
Subject: [PATCH 040/115] fix: nbspradinfo and nbspradgis took a short read of
 a pipe for a short file

---
 filters/filterlib/c/dcnids/dcnids_header.c | 3 ++-
 filters/filterlib/c/misc.c                 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_header.c b/filters/filterlib/c/dcnids/dcnids_header.c
index cdf7e51..ed17940 100644
--- a/filters/filterlib/c/dcnids/dcnids_header.c
+++ b/filters/filterlib/c/dcnids/dcnids_header.c
@@ -10,6 +10,7 @@
 #include <unistd.h>
 #include <string.h>
 #include "const.h"
+#include "io.h"
 #include "misc.h"
 #include "util.h"
 #include "dcnids_extract.h"
@@ -61,7 +62,7 @@ int dcnids_read_header(int fd, int skipcount,
     --b_size;
   }
 
-  n = read(fd, b, b_size);
+  n = readf(fd, b, b_size);
   if(n == -1)
     return(-1);
   else if(n < b_size)
diff --git a/filters/filterlib/c/misc.c b/filters/filterlib/c/misc.c
index 399ea81..73f288f 100644
--- a/filters/filterlib/c/misc.c
+++ b/filters/filterlib/c/misc.c
@@ -6,6 +6,7 @@
  * $Id$
  */
 #include <unistd.h>
+#include "io.h"
 #include "misc.h"
 
 int read_skip_count(int fd, size_t count, char *buffer, size_t buffer_size){
@@ -21,7 +22,7 @@ int read_skip_count(int fd, size_t count, char *buffer, size_t buffer_size){
     else
       ntry = nleft;
 
-    nread = read(fd, buffer, ntry);
+    nread = readf(fd, buffer, ntry);
     if(nread == -1)
       return(-1);
     else if((size_t)nread != ntry)
-- 
2.43.0


From 88c0075b7c791a40cf78b3344fb9790fccdeda97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:24 +0000
Subject: [PATCH 041/115] fix: the northern limit of the bounding box of a
 radar product was not initialized

---
 filters/filterlib/c/dcnids/dcnids_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_transform.c b/filters/filterlib/c/dcnids/dcnids_transform.c
index 834797d..faaab5e 100644
--- a/filters/filterlib/c/dcnids/dcnids_transform.c
+++ b/filters/filterlib/c/dcnids/dcnids_transform.c
@@ -77,7 +77,7 @@ void dcnids_polygonmap_bb(struct dcnids_polygon_map_st *pm){
   pm->lon_min = 180.0;
   pm->lon_max = -180.0;
   pm->lat_min = 180.0;
-  pm->lon_max = -180.0;
+  pm->lat_max = -180.0;
   
   for(j = 0; j < pm->numpolygons; ++j){
     for(i = 0; i < 4; ++i){
-- 
2.43.0


From cc8f6133236be1b08fd1500fc06baebf5e06d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:24 +0000
Subject: [PATCH 042/115] fix: the sectors of a radar product were up to a
 degree off

---
 filters/filterlib/c/dcnids/dcnids_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_transform.c b/filters/filterlib/c/dcnids/dcnids_transform.c
index faaab5e..cce2780 100644
--- a/filters/filterlib/c/dcnids/dcnids_transform.c
+++ b/filters/filterlib/c/dcnids/dcnids_transform.c
@@ -9,7 +9,7 @@
 #include "dcnids.h"
 
 #define KM_PER_DEG	111.111		/* R_E * pi/180 */
-#define RAD_PER_DEG	0.0174		/* pi/180 */
+#define RAD_PER_DEG	(M_PI/180.0)
 
 void dcnids_sine_cosine(double theta_deg,
 			double *sin_theta, double *cos_theta){
-- 
2.43.0


From ad19fa4b6f4fa169336ebd864858059de216792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:48 +0000
Subject: [PATCH 043/115] fix: nbspradgis trusted the lengths in the radials

---
 filters/filterlib/c/dcnids/dcnids_decode.h             |  6 ++++++
 .../c/dcnids/dcnids_decode_digital_radials_16.c        | 10 +++++++++-
 .../filterlib/c/dcnids/dcnids_decode_radials_af1f.c    | 10 +++++++++-
 filters/filterlib/c/dcnids/nbspradgis.c                |  6 ++++++
 4 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_decode.h b/filters/filterlib/c/dcnids/dcnids_decode.h
index 6149594..e3b1706 100644
--- a/filters/filterlib/c/dcnids/dcnids_decode.h
+++ b/filters/filterlib/c/dcnids/dcnids_decode.h
@@ -57,6 +57,12 @@
  */
 #define NIDS_PACKET_RADIALS_START_RUNS		30
 
+/*
+ * More polygons than any real product has, and few enough for the size of
+ * the output files.
+ */
+#define NIDS_MAX_POLYGONS	10000000
+
 struct nids_product_symbol_block_st {
   int blockid;		/* should be 1 */
   unsigned int blocklength;
diff --git a/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c b/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
index c0285bd..363b207 100644
--- a/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
+++ b/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
@@ -385,6 +385,7 @@ static void nids_decode_digital_radials_16_grided(struct nids_data_st *nd){
 static void nids_count_polygons_radials_16(struct nids_data_st *nd){
 
   unsigned char *b = nd->data;
+  unsigned char *bend = nd->data + nd->data_size;
   struct nids_digital_radial_packet_st radial_packet;
   int i, j;
   int run_code, run_bins, total_bins;
@@ -408,11 +409,17 @@ static void nids_count_polygons_radials_16(struct nids_data_st *nd){
   numpolygons = 0;
 
   for(i = 0; i < nd->radial_packet_header.numradials; ++i){
+    if(bend - b < 6)
+      log_errx(1, "Corrupt file (short)");
+
     radial_packet.num_bytes = extract_uint16(b, 1);
     radial_packet.angle_start = extract_int16(b, 2);
     radial_packet.angle_delta = extract_uint16(b, 3);
     b += 6;
 
+    if(bend - b < radial_packet.num_bytes)
+      log_errx(1, "Corrupt file (short)");
+
     radial_packet.angle_start_deg = (double)radial_packet.angle_start/10.0;
     radial_packet.angle_delta_deg = (double)radial_packet.angle_delta/10.0;
 
@@ -447,7 +454,8 @@ static void nids_count_polygons_radials_16(struct nids_data_st *nd){
 	if(theta2p > theta2)
 	  theta2p = theta2;
 
-	++numpolygons;
+	if(++numpolygons > NIDS_MAX_POLYGONS)
+	  log_errx(1, "Corrupt file (too many polygons)");
 
 	/* theta1p = theta2p; */
       }
diff --git a/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c b/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
index 2f5336f..abf8b55 100644
--- a/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
+++ b/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
@@ -442,6 +442,7 @@ static void nids_decode_radials_af1f_grided(struct nids_data_st *nd){
 static void nids_count_polygons_radials_af1f(struct nids_data_st *nd){
 
   unsigned char *b = nd->data;
+  unsigned char *bend = nd->data + nd->data_size;
   struct nids_radial_packet_st radial_packet;
   int i, j;
   /* int run_code, run_bins, total_bins; */
@@ -467,11 +468,17 @@ static void nids_count_polygons_radials_af1f(struct nids_data_st *nd){
 
   numpolygons = 0;
   for(i = 0; i < nd->radial_packet_header.numradials; ++i){
+    if(bend - b < 6)
+      log_errx(1, "Corrupt file (short)");
+
     radial_packet.num_rle_halfwords = extract_uint16(b, 1);
     radial_packet.angle_start = extract_int16(b, 2);
     radial_packet.angle_delta = extract_uint16(b, 3);
     b += 6;
 
+    if(bend - b < radial_packet.num_rle_halfwords * 2)
+      log_errx(1, "Corrupt file (short)");
+
     radial_packet.angle_start_deg = (double)radial_packet.angle_start/10.0;
     radial_packet.angle_delta_deg = (double)radial_packet.angle_delta/10.0;
 
@@ -516,7 +523,8 @@ static void nids_count_polygons_radials_af1f(struct nids_data_st *nd){
 	  if(theta > theta2)
 	    theta = theta2;
 
-	  ++numpolygons;
+	  if(++numpolygons > NIDS_MAX_POLYGONS)
+	    log_errx(1, "Corrupt file (too many polygons)");
 	}
       }
     }
diff --git a/filters/filterlib/c/dcnids/nbspradgis.c b/filters/filterlib/c/dcnids/nbspradgis.c
index 24e18e9..4c80a0f 100644
--- a/filters/filterlib/c/dcnids/nbspradgis.c
+++ b/filters/filterlib/c/dcnids/nbspradgis.c
@@ -369,6 +369,9 @@ static void nids_decode_data(struct nids_data_st *nd){
    * In the first case we continue, but if the divider is not -1
    * we assume it is a new product and try to send it to libbz2.
    */
+  if(nd->data_size < NIDS_PACKET_RADIALS_START_RUNS)
+    log_errx(1, "Corrupt file.");
+
   divider = (int)extract_int16(b, 1);
   if(divider != -1){
     status = dcnids_bunz(&nd->data, &nd->data_size, &bzerror);
@@ -379,6 +382,9 @@ static void nids_decode_data(struct nids_data_st *nd){
 
     /* repoint b */
     b = nd->data;
+
+    if(nd->data_size < NIDS_PACKET_RADIALS_START_RUNS)
+      log_errx(1, "Corrupt file.");
   }
 
   divider = (int)extract_int16(b, 1);
-- 
2.43.0


From 959e1fd94283039a13156e433309380723faf47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:48 +0000
Subject: [PATCH 044/115] fix: nbspradgis ignored -M and -N when only one was
 given or they were equal

---
 filters/filterlib/c/dcnids/nbspradgis.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcnids/nbspradgis.c b/filters/filterlib/c/dcnids/nbspradgis.c
index 4c80a0f..8672c8d 100644
--- a/filters/filterlib/c/dcnids/nbspradgis.c
+++ b/filters/filterlib/c/dcnids/nbspradgis.c
@@ -483,10 +483,11 @@ static void nids_decode_data(struct nids_data_st *nd){
     /*
      * If the user specified min and max the use them.
      */
-    if(g.level_min != g.level_max){
+    if(g.opt_levelmin != NULL)
       nd->polygon_map.level_min = g.level_min;
+
+    if(g.opt_levelmax != NULL)
       nd->polygon_map.level_max = g.level_max;
-    }
   }
 
   /* 
-- 
2.43.0


From 2a9350f459770062c546971c0ad58ff50102933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:03 +0000
Subject: [PATCH 045/115] fix: nbspradgis crashed when the csv file cannot be
 written

---
 filters/filterlib/c/dcnids/nbspradgis.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filters/filterlib/c/dcnids/nbspradgis.c b/filters/filterlib/c/dcnids/nbspradgis.c
index 8672c8d..3a96773 100644
--- a/filters/filterlib/c/dcnids/nbspradgis.c
+++ b/filters/filterlib/c/dcnids/nbspradgis.c
@@ -540,6 +540,9 @@ static void nids_csv_write(struct nids_data_st *nd){
   else
     fp = fopen(csvfile, "w");
 
+  if(fp == NULL)
+    log_err_open(csvfile);
+
   if(dcnids_csv_write(fp, pm) != 0)
     log_errx(1, "Cannot write to csv file.");
 
-- 
2.43.0


From eb86958ed7caee4cf1e618d10b31377f62babbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:21 +0000
Subject: [PATCH 046/115] fix: the lengths in the index of a radar shapefile
 included the record headers

---
 filters/filterlib/c/dcnids/dcnids_shp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_shp.c b/filters/filterlib/c/dcnids/dcnids_shp.c
index 31a07be..d3d53d3 100644
--- a/filters/filterlib/c/dcnids/dcnids_shp.c
+++ b/filters/filterlib/c/dcnids/dcnids_shp.c
@@ -330,7 +330,8 @@ void dcnids_shx_insert_content(unsigned char *p,
   record_offset_words = SHAPEFILE_HEADER_SIZE_WORDS;
   for(i = 0; i < pm->numpolygons; ++i){
     dcnids_shp_insert_uint32_big(b, 0, record_offset_words);
-    dcnids_shp_insert_uint32_big(b, 4, record_size_words);
+    /* the content length, which excludes the record header (4 words) */
+    dcnids_shp_insert_uint32_big(b, 4, record_size_words - 4);
     b += 8;
     record_offset_words += record_size_words;
   }
-- 
2.43.0


From 693105bae7719aae014c8b57dfa25b5598f3820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:33 +0000
Subject: [PATCH 047/115] fix: the points of a satellite image were displaced
 by up to half a degree

---
 filters/filterlib/c/dcgini/dcgini_const.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_const.h b/filters/filterlib/c/dcgini/dcgini_const.h
index 3f516d1..1fe1725 100644
--- a/filters/filterlib/c/dcgini/dcgini_const.h
+++ b/filters/filterlib/c/dcgini/dcgini_const.h
@@ -8,8 +8,10 @@
 #ifndef DCGINI_CONST_H
 #define DCGINI_CONST_H
 
-#define RAD_PER_DEG     0.0174          /* pi/180 */
-#define DEG_PER_RAD	57.2958		/* 180/pi */
+#include <math.h>
+
+#define RAD_PER_DEG     (M_PI/180.0)
+#define DEG_PER_RAD	(180.0/M_PI)
 #define RE_METERS	6371200		/* Eart radius */
 
 #endif
-- 
2.43.0


From f837e11bb02130d6679a7037bdcd34dd1f098db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:33 +0000
Subject: [PATCH 048/115] fix: the northern limit of the bounding box of a
 satellite image was not initialized

---
 filters/filterlib/c/dcgini/dcgini_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_transform.c b/filters/filterlib/c/dcgini/dcgini_transform.c
index 8cbc6f1..f3af058 100644
--- a/filters/filterlib/c/dcgini/dcgini_transform.c
+++ b/filters/filterlib/c/dcgini/dcgini_transform.c
@@ -130,7 +130,7 @@ static void dcgini_pointmap_bb(struct dcgini_point_map_st *pm){
   pm->lon_min = 180.0;
   pm->lon_max = -180.0;
   pm->lat_min = 180.0;
-  pm->lon_max = -180.0;
+  pm->lat_max = -180.0;
 
   pm->lon_ll = pm->lon_min;
   pm->lat_ll = pm->lat_min;
-- 
2.43.0


From b01e52f19e800900620aac813566b47617014c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:33 +0000
Subject: [PATCH 049/115] fix: nbspsatinfo read past the header of a compressed
 image

---
 filters/filterlib/c/dcgini/dcgini_pdb.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_pdb.c b/filters/filterlib/c/dcgini/dcgini_pdb.c
index 7530706..fb9f41f 100644
--- a/filters/filterlib/c/dcgini/dcgini_pdb.c
+++ b/filters/filterlib/c/dcgini/dcgini_pdb.c
@@ -74,9 +74,11 @@ int read_nesdis_pdb_compressed(int fd, struct nesdis_pdb_st *npdb){
   /* Initialize */
   npdb->buffer_size = NESDIS_WMO_HEADER_SIZE + NESDIS_PDB_SIZE;
 
-  n = read(fd, buffer, buffer_size);
+  n = readf(fd, buffer, buffer_size);
   if(n == -1)
     return(-1);
+  else if(n < NESDIS_WMO_HEADER_SIZE + 2)
+    return(1);	/* file too short */
 
   p = &buffer[NESDIS_WMO_HEADER_SIZE];
   if((p[0] == ZBYTE0) && (p[1] == ZBYTE1)){
@@ -88,9 +90,11 @@ int read_nesdis_pdb_compressed(int fd, struct nesdis_pdb_st *npdb){
     status = Z_DATA_ERROR;
     while(i < n){
       ++i;
-      if((p[i] == ZBYTE0) && (p[i + 1] == ZBYTE1)){
+      if((i == n) ||
+	 ((i + 1 < n) && (p[i] == ZBYTE0) && (p[i + 1] == ZBYTE1))){
 	/*
-	 * This should be the start of the next frame. Try to decompress
+	 * This should be the start of the next frame (or the end of the
+	 * file). Try to decompress
 	 * what we have. If we get an error, try appending more data
 	 * until the next marker and keep trying until we get to the end
 	 * of the available data.
@@ -104,6 +108,9 @@ int read_nesdis_pdb_compressed(int fd, struct nesdis_pdb_st *npdb){
     if(status != Z_OK){
       return(3);	/* zlib error */
     }
+
+    if(npdb->buffer_size != NESDIS_WMO_HEADER_SIZE + NESDIS_PDB_SIZE)
+      return(1);	/* file too short */
   }else{
     /*
      * The frame is uncompressed.
-- 
2.43.0


From 51618bc190aa6a2df6ad0ff40a48ead7f392526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:33 +0000
Subject: [PATCH 050/115] fix: nbspsat -g could not read from a pipe

---
 filters/filterlib/c/dcgini/nbspsat.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/filters/filterlib/c/dcgini/nbspsat.c b/filters/filterlib/c/dcgini/nbspsat.c
index f9f47a7..01adcdd 100644
--- a/filters/filterlib/c/dcgini/nbspsat.c
+++ b/filters/filterlib/c/dcgini/nbspsat.c
@@ -396,8 +396,7 @@ static int write_gempak(int gempak_fd, int fd,
   int level = 9;
   int n;
 
-  if(lseek(fd, npdb->buffer_size, SEEK_SET) == -1)
-    return(-1);
+  /* The file position is already at the end of the npdb buffer */
 
   if(write(gempak_fd, npdb->buffer, NESDIS_WMO_HEADER_SIZE) == -1)
     return(-1);
@@ -419,7 +418,7 @@ static int write_gempak(int gempak_fd, int fd,
   if(block == NULL)
     return(-1);
 
-  while((n = read(fd, block, block_size)) > 0){
+  while((n = readf(fd, block, block_size)) > 0){
     *zstatus = zip(&zblock, &zblock_size, block, n, level);
     if(*zstatus != 0){
       status = 1;
-- 
2.43.0


From 51059ceb93980911254e9580cd8907b42157a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:33 +0000
Subject: [PATCH 051/115] fix: nbspsat ignored its -p option

---
 filters/filterlib/c/dcgini/nbspsat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcgini/nbspsat.c b/filters/filterlib/c/dcgini/nbspsat.c
index 01adcdd..af06d11 100644
--- a/filters/filterlib/c/dcgini/nbspsat.c
+++ b/filters/filterlib/c/dcgini/nbspsat.c
@@ -262,7 +262,7 @@ static int process_file(void){
   }
 
   if(g.opt_output_fname == NULL){
-    fname = dcgini_default_name(&npdb, NULL, DCGINI_PNGEXT);
+    fname = dcgini_default_name(&npdb, g.opt_fname_prefix, DCGINI_PNGEXT);
     if(fname == NULL)
       log_err(1, "malloc()");
   }else{
-- 
2.43.0


From 7844dd47d561671f7052c37e98becfa1f0758673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:50 +0000
Subject: [PATCH 052/115] fix: the lengths in the index of a satellite
 shapefile included the record headers

---
 filters/filterlib/c/dcgini/dcgini_shp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_shp.c b/filters/filterlib/c/dcgini/dcgini_shp.c
index c763cfa..08ae0c6 100644
--- a/filters/filterlib/c/dcgini/dcgini_shp.c
+++ b/filters/filterlib/c/dcgini/dcgini_shp.c
@@ -241,7 +241,8 @@ void dcgini_shx_insert_content(unsigned char *p,
   record_offset_words = SHAPEFILE_HEADER_SIZE_WORDS;
   for(i = 0; i < pm->numpoints; ++i){
     dcgini_shp_insert_uint32_big(b, 0, record_offset_words);
-    dcgini_shp_insert_uint32_big(b, 4, record_size_words);
+    /* the content length, which excludes the record header (4 words) */
+    dcgini_shp_insert_uint32_big(b, 4, record_size_words - 4);
     b += 8;
     record_offset_words += record_size_words;
   }
-- 
2.43.0


From 83d6e10e6950d65cd9a3469f2628521faa342ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:50 +0000
Subject: [PATCH 053/115] fix: nbspsatgis -A overran its grid when the
 rectangle is empty

---
 filters/filterlib/c/dcgini/dcgini_transform.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filters/filterlib/c/dcgini/dcgini_transform.c b/filters/filterlib/c/dcgini/dcgini_transform.c
index f3af058..830b796 100644
--- a/filters/filterlib/c/dcgini/dcgini_transform.c
+++ b/filters/filterlib/c/dcgini/dcgini_transform.c
@@ -321,6 +321,14 @@ int dcgini_regrid_data_asc(struct dcgini_st *dcg,
     }
   }
 
+  /* An empty rectangle, e.g., when all the data is background */
+  if(!(cellsize > 0.0) ||
+     !(dcg->gridmap.lon1_deg <= dcg->gridmap.lon2_deg) ||
+     !(dcg->gridmap.lat1_deg <= dcg->gridmap.lat2_deg)){
+    log_warnx("There are no points in the enclosing rectangle");
+    return(1);
+  }
+
   dcg->gridmap.nlon =
     (dcg->gridmap.lon2_deg - dcg->gridmap.lon1_deg)/cellsize + 1.0;
   dcg->gridmap.nlat =
-- 
2.43.0


From 03ff3b5b6b9dd6b00d52224b7ba5cd31a8245cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:57 +0000
Subject: [PATCH 054/115] fix: nbspsatgis -A found no data in a south polar
 projection

The inverse transformation omitted the sign that the direct one applies to
the j coordinate.
---
 filters/filterlib/c/dcgini/dcgini_transform.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_transform.c b/filters/filterlib/c/dcgini/dcgini_transform.c
index 830b796..4b77483 100644
--- a/filters/filterlib/c/dcgini/dcgini_transform.c
+++ b/filters/filterlib/c/dcgini/dcgini_transform.c
@@ -467,7 +467,7 @@ void nesdis_proj_str_lonlat_ij(struct nesdis_proj_str_st *pstr,
   y = -pstr->s * r * cos(lon_rad - pstr->lov_rad);
 
   *ii = (x - pstr->x1)/pstr->dx;
-  *jj = (y - pstr->y1)/pstr->dy;
+  *jj = pstr->s * (y - pstr->y1)/pstr->dy;
 }
 
 void nesdis_proj_llc_init(struct nesdis_pdb_st *npdb,
@@ -561,7 +561,7 @@ void nesdis_proj_llc_lonlat_ij(struct nesdis_proj_llc_st *pllc,
   y = -pllc->s * pllc->r_E * a * cos(b);
 
   *ii = (x - pllc->x1)/pllc->dx;
-  *jj = (y - pllc->y1)/pllc->dy;
+  *jj = pllc->s * (y - pllc->y1)/pllc->dy;
 }
 
 void nesdis_proj_mer_init(struct nesdis_pdb_st *npdb,
-- 
2.43.0


From c4a0336f89f0edf2f7b32dc637d8046dcf456f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:57 +0000
Subject: [PATCH 055/115] fix: nbspsatgis displaced the points of mercator
 images

The transverse mercator projection was used, which agrees with the
images only at the corners (see GMERLM and GCYLLM in dev-notes/sat/gini).
---
 filters/filterlib/c/dcgini/dcgini_transform.c | 38 ++++++-------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_transform.c b/filters/filterlib/c/dcgini/dcgini_transform.c
index 4b77483..ccec5e1 100644
--- a/filters/filterlib/c/dcgini/dcgini_transform.c
+++ b/filters/filterlib/c/dcgini/dcgini_transform.c
@@ -566,27 +566,19 @@ void nesdis_proj_llc_lonlat_ij(struct nesdis_proj_llc_st *pllc,
 
 void nesdis_proj_mer_init(struct nesdis_pdb_st *npdb,
 			  struct nesdis_proj_mer_st *pmer){
-
-  double r1, r2;
-  double b, d;
+  /*
+   * The (normal) mercator projection: x is the longitude and
+   * y = log(tan(pi/4 + lat/2)) = asinh(tan(lat)).
+   */
   double n;
 
-  /* center longitude ? */
   pmer->lon0_rad = 0.5 * (npdb->lon1_rad + npdb->lon2_rad);
 
-  d = npdb->lon1_rad - pmer->lon0_rad;
-  r1 = tan(npdb->lat1_rad);
-  r2 = cos(d);
-  b = cos(npdb->lat1_rad) * sin(d);  
-  pmer->x1 = 0.5 * log((1.0 + b)/(1.0 - b));
-  pmer->y1 = atan2(r1, r2);
+  pmer->x1 = npdb->lon1_rad - pmer->lon0_rad;
+  pmer->y1 = asinh(tan(npdb->lat1_rad));
 
-  d = npdb->lon2_rad - pmer->lon0_rad;
-  r1 = tan(npdb->lat2_rad);
-  r2 = cos(d);
-  b = cos(npdb->lat2_rad) * sin(d);
-  pmer->x2 = 0.5 * log((1.0 + b)/(1.0 - b));
-  pmer->y2 = atan2(r1, r2);
+  pmer->x2 = npdb->lon2_rad - pmer->lon0_rad;
+  pmer->y2 = asinh(tan(npdb->lat2_rad));
 
   n = (double)npdb->nx - 1.0;
   pmer->dx = (pmer->x2 - pmer->x1)/n;
@@ -605,8 +597,8 @@ void nesdis_proj_mer_ij_lonlat(struct nesdis_proj_mer_st *pmer,
   x = pmer->x1 + (double)i * pmer->dx;
   y = pmer->y1 + (double)j * pmer->dy;
 
-  lon_rad = pmer->lon0_rad + atan2(sinh(x), cos(y));
-  lat_rad = asin(sin(y)/cosh(x));
+  lon_rad = pmer->lon0_rad + x;
+  lat_rad = atan(sinh(y));
 
   *lon_deg = lon_rad * DEG_PER_RAD;
   *lat_deg = lat_rad * DEG_PER_RAD;
@@ -618,19 +610,13 @@ void nesdis_proj_mer_lonlat_ij(struct nesdis_proj_mer_st *pmer,
 			       double *ii,
 			       double *jj){
   double lon_rad, lat_rad;
-  double r1, r2;
-  double b, d;
   double x, y;
 
   lon_rad = lon_deg * RAD_PER_DEG;
   lat_rad = lat_deg * RAD_PER_DEG;
 
-  d = lon_rad - pmer->lon0_rad;
-  r1 = tan(lat_rad);
-  r2 = cos(d);
-  b = cos(lat_rad) * sin(d);  
-  x = 0.5 * log((1.0 + b)/(1.0 - b));
-  y = atan2(r1, r2);
+  x = lon_rad - pmer->lon0_rad;
+  y = asinh(tan(lat_rad));
 
   *ii = (x - pmer->x1)/pmer->dx;
   *jj = (y - pmer->y1)/pmer->dy;
-- 
2.43.0


From 0d960282ffa09543bb4a76e7c521c76c90db9f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:20 +0000
Subject: [PATCH 056/115] fix: nbspmcast -s number did not send the (first)
 file as that number

---
 tools/nbspmcast/nbspmcast.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/nbspmcast/nbspmcast.c b/tools/nbspmcast/nbspmcast.c
index 3074b04..2e2879e 100644
--- a/tools/nbspmcast/nbspmcast.c
+++ b/tools/nbspmcast/nbspmcast.c
@@ -284,11 +284,11 @@ int main(int argc, char **argv){
   } else {
     while(optind <= argc - 1) {
       g.opt_fpath = argv[optind++];
-      ++g.opt_prod_seq_num;
       if(process_file() != 0) {
 	status = 1;
 	log_errx(0, "%s", "Error processing", g.opt_fpath);
       }
+      ++g.opt_prod_seq_num;
     }
   }
   
@@ -318,12 +318,13 @@ static int process_stdin(void)  {
       continue;
 
     g.opt_fpath = g.stdin_fpath;
-    ++g.opt_prod_seq_num;
 
     if(process_file() != 0) {
       status = 1;
       log_err(0, "%s: %s", "Error processing", g.opt_fpath);
     }
+
+    ++g.opt_prod_seq_num;
   }
 
   if(fpath_len == -1) {
-- 
2.43.0


From feeb0441d2f6f1bd7436e285f7e9ad828eecb23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:20 +0000
Subject: [PATCH 057/115] fix: nbspmcast numbered the frames of every file from
 the same number

---
 tools/nbspmcast/nbspmcast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/nbspmcast/nbspmcast.c b/tools/nbspmcast/nbspmcast.c
index 2e2879e..5795cef 100644
--- a/tools/nbspmcast/nbspmcast.c
+++ b/tools/nbspmcast/nbspmcast.c
@@ -354,6 +354,9 @@ static int process_file(void){
     if(status != 0) {
       log_err(0, "%s", "Error from sendto_sbnpack");
     }
+
+    /* the frames of the next file follow those of this one */
+    g.opt_sbn_seq_num += g.sbnpack->nframes;
   }
   
   return(status);
-- 
2.43.0


From d9e24ca092ae394e48cb43c41f6e6faa79702ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:47 +0000
Subject: [PATCH 058/115] fix: nbspgoesrgis wrote garbage for the coordinates
 of the shapefile

The coordinates of a shapefile are 8-byte doubles, but since the data
are floats the function that inserts them copied 8 bytes from a 4-byte
float.
---
 filters/filterlib/c/dcgoesr/dcgoesr_shp.c | 2 +-
 filters/filterlib/c/dcgoesr/dcgoesr_shp.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgoesr/dcgoesr_shp.c b/filters/filterlib/c/dcgoesr/dcgoesr_shp.c
index bae8987..4055024 100644
--- a/filters/filterlib/c/dcgoesr/dcgoesr_shp.c
+++ b/filters/filterlib/c/dcgoesr/dcgoesr_shp.c
@@ -92,7 +92,7 @@ void dcgoesr_shp_insert_uint32_little(unsigned char *p, int pos, uint32_t u){
   b[3] = (u >> 24) & 0xff;
 }
 
-void dcgoesr_shp_insert_float_little(unsigned char *p, int pos, float r){
+void dcgoesr_shp_insert_float_little(unsigned char *p, int pos, double r){
 
   unsigned char *b = p;
   unsigned char *rp;
diff --git a/filters/filterlib/c/dcgoesr/dcgoesr_shp.h b/filters/filterlib/c/dcgoesr/dcgoesr_shp.h
index 55b0c02..0e548c6 100644
--- a/filters/filterlib/c/dcgoesr/dcgoesr_shp.h
+++ b/filters/filterlib/c/dcgoesr/dcgoesr_shp.h
@@ -25,7 +25,7 @@ struct dcgoesr_shp_st {
 
 void dcgoesr_shp_insert_uint32_big(unsigned char *p, int pos, uint32_t u);
 void dcgoesr_shp_insert_uint32_little(unsigned char *p, int pos, uint32_t u);
-void dcgoesr_shp_insert_float_little(unsigned char *p, int pos, float r);
+void dcgoesr_shp_insert_float_little(unsigned char *p, int pos, double r);
 
 void dcgoesr_shp_insert_header(unsigned char *p,
 			      int numpoints,
-- 
2.43.0


From bc2e2d9e385e48bc03684ffcac68ed9b58ebc631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:48 +0000
Subject: [PATCH 059/115] fix: the bounding box of a goesr image of the
 southern hemisphere

The largest latitude was not initialized below every latitude (it was
left at zero), so it was 0 for the images that lie south of the equator.
---
 filters/filterlib/c/dcgoesr/dcgoesr_nc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcgoesr/dcgoesr_nc.c b/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
index 741c097..805274d 100644
--- a/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
+++ b/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
@@ -229,7 +229,7 @@ static void calc_boundingbox(struct goesr_st *gp) {
   pm->lon_min = 180.0;
   pm->lon_max = -180.0;
   pm->lat_min = 180.0;
-  pm->lon_max = -180.0;
+  pm->lat_max = -180.0;
 
   pm->lon_ll = pm->lon_min;
   pm->lat_ll = pm->lat_min;
-- 
2.43.0


From e614a544dd902dafe9f490cc5357a85f5da8b1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:48 +0000
Subject: [PATCH 060/115] fix: goesr variables without add_offset and
 scale_factor were all read as 1

The defaults of the offset and the scale were swapped.
---
 filters/filterlib/c/dcgoesr/dcgoesr_nc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgoesr/dcgoesr_nc.c b/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
index 805274d..1f5f1fa 100644
--- a/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
+++ b/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
@@ -81,8 +81,8 @@ static int get_offset_scale(int ncid, int varid,
    */
 
   if(status == NC_ENOTATT){
-    *offset = 1.0;
-    *scale = 0.0;
+    *offset = 0.0;
+    *scale = 1.0;
     status = 0;
   }
 
-- 
2.43.0


From afa7c72d1ade96ac2362b949c95e24944aeb8a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:48 +0000
Subject: [PATCH 061/115] fix: the levels of a goesr image with negative or
 constant data

The maximum was taken as zero when all the values are negative, and a
constant image gave a division by zero.
---
 filters/filterlib/c/dcgoesr/dcgoesr_nc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgoesr/dcgoesr_nc.c b/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
index 1f5f1fa..fa12476 100644
--- a/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
+++ b/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
@@ -192,7 +192,7 @@ static void cmilevel(struct goesr_st *gp) {
   int Npoints = gp->Npoints;
 
   /* determine the max and min */
-  cmi_max = 0.0;
+  cmi_max = -FLT_MAX;
   cmi_min = FLT_MAX;
     
   for(k = 0; k < Npoints; ++k) {
@@ -204,7 +204,10 @@ static void cmilevel(struct goesr_st *gp) {
   }
 
   /* determine the normalized values */
-  norm = 255.0/(cmi_max - cmi_min);
+  if(cmi_max > cmi_min)
+    norm = 255.0/(cmi_max - cmi_min);
+  else
+    norm = 0.0;
   
   for(k = 0; k < Npoints; ++k) {
     cmi_normalized = (cmi[k] - cmi_min) * norm;
-- 
2.43.0


From f558eb4555e41260a40f8b3c444a6b640bade128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:10 +0000
Subject: [PATCH 062/115] fix: nbspgoesrgis -A gave the points behind the limb
 the level of the nadir

They were given x = y = 0, which is the point below the satellite,
instead of nodata.
---
 filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c | 5 ++++-
 filters/filterlib/c/dcgoesr/dcgoesr_xy2lonlat.c  | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c b/filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c
index 864f729..0ae07ea 100644
--- a/filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c
+++ b/filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c
@@ -9,6 +9,7 @@
 #include <stdlib.h>
 #include <stdio.h>	/* only for debuging */
 #include <string.h>
+#include <math.h>		/* isnan */
 #include "err.h"
 #include "dcgoesr_xy2lonlat.h"		/* lonlat2xy */
 #include "dcgoesr_regrid_asc.h"		/* includes dcgoesr.h */
@@ -177,7 +178,9 @@ int dcgoesr_regrid_data_asc(struct dcgoesr_point_map_st *pmap,
       ix = (1.0/pmap->dx) * (x - pmap->x_min);
       jy = (1.0/pmap->dy) * (pmap->y_max - y);
 
-      if((ix < 0.0) || (ix > (float)pmap->nx - 1.0))
+      if(isnan(ix) || isnan(jy))	/* not visible from the satellite */
+	*datap = DCGOESR_GRID_MAP_NODATA;
+      else if((ix < 0.0) || (ix > (float)pmap->nx - 1.0))
 	*datap = DCGOESR_GRID_MAP_NODATA;
       else if((jy < 0.0) || (jy > (float)pmap->ny - 1.0))
 	*datap = DCGOESR_GRID_MAP_NODATA;      
diff --git a/filters/filterlib/c/dcgoesr/dcgoesr_xy2lonlat.c b/filters/filterlib/c/dcgoesr/dcgoesr_xy2lonlat.c
index 6753780..48d03b5 100644
--- a/filters/filterlib/c/dcgoesr/dcgoesr_xy2lonlat.c
+++ b/filters/filterlib/c/dcgoesr/dcgoesr_xy2lonlat.c
@@ -75,8 +75,8 @@ void lonlat2xy(float lon, float lat, float *x, float *y,
     /*
      * the location is not visible from the satellite
      */
-    *x = 0.0;
-    *y = 0.0;
+    *x = NAN;
+    *y = NAN;
   } else {  
     *x = asin(-sy/sqrt(pow(sx, 2.0) + pow(sy, 2.0) + pow(sz, 2.0)));
     *y = atan(sz/sx);
-- 
2.43.0


From 2c1785409fd3eaeb73a1d6345b33aff62f3bbf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:10 +0000
Subject: [PATCH 063/115] fix: nbspgoesrgis -A with an empty rectangle wrote
 outside its memory

When the limits were reversed (or the image has only background) the
number of points of each side was a negative number converted to size_t.
---
 filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c b/filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c
index 0ae07ea..d004e2f 100644
--- a/filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c
+++ b/filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c
@@ -113,6 +113,11 @@ int dcgoesr_regrid_data_asc(struct dcgoesr_point_map_st *pmap,
     }
   }
 
+  if((gmap->lon_max < gmap->lon_min) || (gmap->lat_max < gmap->lat_min)){
+    log_errx(0, "Invalid limits of the enclosing rectangle");
+    return(1);
+  }
+
   /*
    * Since we (may) have redefined the limits, and redefined the cellsize
    * we have to redetermine the number of points.
-- 
2.43.0


From b8d33765f146b9e223e69dc547845bc0040016da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:34 +0000
Subject: [PATCH 064/115] fix: nbspgoesrasc read beyond the data when the box
 reaches the edge

With the right or lower edge of the box at that of the grid the last
index was one more than the number of columns or rows.
---
 filters/filterlib/c/dcgoesr/nbspgoesrasc.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/filters/filterlib/c/dcgoesr/nbspgoesrasc.c b/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
index 2f9511d..7b43ab3 100644
--- a/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
+++ b/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
@@ -370,6 +370,19 @@ static int process_input(int index) {
   g.ca->i2 = (int)((g.ca->xmax - g.ca->xll)/g.ca->cellsize);
   g.ca->j2 = (int)((yur - g.ca->ymin)/g.ca->cellsize);
 
+  /* the edges of the box can be those of the grid */
+  if(g.ca->i1 > g.ca->nx - 1)
+    g.ca->i1 = g.ca->nx - 1;
+
+  if(g.ca->j1 > g.ca->ny - 1)
+    g.ca->j1 = g.ca->ny - 1;
+
+  if(g.ca->i2 > g.ca->nx - 1)
+    g.ca->i2 = g.ca->nx - 1;
+
+  if(g.ca->j2 > g.ca->ny - 1)
+    g.ca->j2 = g.ca->ny - 1;
+
   g.ca->nnx = g.ca->i2 - g.ca->i1 + 1;
   g.ca->nny = g.ca->j2 - g.ca->j1 + 1;
 
-- 
2.43.0


From d88f9e603b941cdb136056e6785d15ce3b17cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:34 +0000
Subject: [PATCH 065/115] fix: nbspgoesrasc wrote a file with a bogus size for
 a reversed box

---
 filters/filterlib/c/dcgoesr/nbspgoesrasc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgoesr/nbspgoesrasc.c b/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
index 7b43ab3..3beff02 100644
--- a/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
+++ b/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
@@ -349,8 +349,10 @@ static int process_input(int index) {
   if((g.ca->xmin < g.ca->xll) ||
      (g.ca->ymin < g.ca->yll) ||
      (g.ca->xmax > xur) ||
-     (g.ca->ymax > yur)) {
-    log_errx(0, "Box exceeds original: %f,%f,%f,%f",
+     (g.ca->ymax > yur) ||
+     (g.ca->xmin > g.ca->xmax) ||
+     (g.ca->ymin > g.ca->ymax)) {
+    log_errx(0, "Box exceeds original or is empty: %f,%f,%f,%f",
 	     g.ca->xmin, g.ca->ymin, g.ca->xmax, g.ca->ymax);
     return(1);
   }
-- 
2.43.0


From fa776514fd1b72d27c3d53669ac2e4aaf8673a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:34 +0000
Subject: [PATCH 066/115] fix: nbspgoesrasc cut a box from an incomplete input
 string

The string was reported but used anyway, with whatever limits and index
were there.  Also, a negative index aborted the program.
---
 filters/filterlib/c/dcgoesr/nbspgoesrasc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgoesr/nbspgoesrasc.c b/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
index 3beff02..563e2ba 100644
--- a/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
+++ b/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
@@ -327,6 +327,7 @@ static int process_str(char *str) {
   if(sscanf(str, "%f,%f,%f,%f,%d",
 	   &g.ca->xmin, &g.ca->ymin, &g.ca->xmax, &g.ca->ymax, &index) != 5) {
     log_errx(0, "Incomplete input string: %s", str);
+    status = 1;
   }
 
   if(status == 0)
@@ -357,8 +358,9 @@ static int process_input(int index) {
     return(1);
   }
 
-  if(index > DCGOESRASC_MAXINDEX) {
-    log_errx(0, "The zone index %d exceeds %d",  index, DCGOESRASC_MAXINDEX);
+  if((index < 0) || (index > DCGOESRASC_MAXINDEX)) {
+    log_errx(0, "The zone index %d is not between 0 and %d",
+	     index, DCGOESRASC_MAXINDEX);
     return(1);
   }
   
-- 
2.43.0


From aec62e99273512e2fd70b8fe5e8031b147e32d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:34 +0000
Subject: [PATCH 067/115] fix: nbspgoesrasc failed always when the boxes are
 read from stdin

The end of the input was taken as an error.
---
 filters/filterlib/c/dcgoesr/nbspgoesrasc.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/filters/filterlib/c/dcgoesr/nbspgoesrasc.c b/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
index 563e2ba..d9278fc 100644
--- a/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
+++ b/filters/filterlib/c/dcgoesr/nbspgoesrasc.c
@@ -424,7 +424,10 @@ static int process_stdin(void) {
     line_len = getline(&line, &line_size, stdin);
     
     if(line_len == -1) {
-      status = -1;
+      if(ferror(stdin) != 0) {
+	log_err(0, "%s", "Error from getline");
+	status = -1;
+      }
       break;
     }
     
@@ -442,13 +445,9 @@ static int process_stdin(void) {
       continue;
 
     status = process_str(line);
+    if(status != 0)
+      log_errx(0, "Error processing %s", line);
   }
-  
-  if(status != 0) {
-    if(ferror(stdin) != 0)
-      log_err(0, "%s", "Error from getline");
-  } else
-    log_errx(0, "Error procsssing %s", line);
 
   free(line);
   
-- 
2.43.0


From afbcf4d39421932d68f1ecf05202b637dc1f0e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:34 +0000
Subject: [PATCH 068/115] fix: nbspgoesrinfo overran its buffer

The space for the parameters was that of the first one, and any of the
others can be longer.
---
 filters/filterlib/c/dcgoesr/nbspgoesrinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcgoesr/nbspgoesrinfo.c b/filters/filterlib/c/dcgoesr/nbspgoesrinfo.c
index c299f50..fb8f965 100644
--- a/filters/filterlib/c/dcgoesr/nbspgoesrinfo.c
+++ b/filters/filterlib/c/dcgoesr/nbspgoesrinfo.c
@@ -235,7 +235,7 @@ static int init_text_params(int ncid) {
   /* get the largest parameter */
   maxlen = 0;
   for(i = 0; i < NPARAMS; ++i) {
-    status = nc_inq_attlen(ncid, NC_GLOBAL, ginfo.key[0] , &len);
+    status = nc_inq_attlen(ncid, NC_GLOBAL, ginfo.key[i], &len);
     if(status != 0)
       break;
 
-- 
2.43.0


From 1636f50e4e14447c3be667c72827ed1de76c9ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:34 +0000
Subject: [PATCH 069/115] fix: nbspgoesrinfo wrote the times before 10 hours
 with a blank

The hour and minute (hhmm) had a blank instead of the leading zero, in
an output in which the items are separated by a blank.
---
 filters/filterlib/c/dcgoesr/nbspgoesrinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcgoesr/nbspgoesrinfo.c b/filters/filterlib/c/dcgoesr/nbspgoesrinfo.c
index fb8f965..b521cd2 100644
--- a/filters/filterlib/c/dcgoesr/nbspgoesrinfo.c
+++ b/filters/filterlib/c/dcgoesr/nbspgoesrinfo.c
@@ -335,7 +335,7 @@ static int get_ymd_hm(char *start_date_time, time_t *seconds,
 
   n = strftime(ymd, YYYYDDMM_LENTGH + 1, "%Y%m%d", &tm);
   if(n != 0)
-    n = strftime(hm, HHMM_LENTGH + 1, "%k%M", &tm);
+    n = strftime(hm, HHMM_LENTGH + 1, "%H%M", &tm);
 
   return(n != 0? 0 : 1);
 }
-- 
2.43.0


From 41e233f5bc429a20d952044c88bb51d62d4dc84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:55 +0000
Subject: [PATCH 070/115] fix: goesr files with a variable of an unexpected
 size overran the buffer

The data of each variable is read into a space for nx, ny or nx*ny
values whatever its dimensions are.
---
 filters/filterlib/c/dcgoesr/dcgoesr_nc.c | 36 ++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/filters/filterlib/c/dcgoesr/dcgoesr_nc.c b/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
index fa12476..1e2cff6 100644
--- a/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
+++ b/filters/filterlib/c/dcgoesr/dcgoesr_nc.c
@@ -16,6 +16,7 @@
 #include "dcgoesr_xy2lonlat.h"
 
 /* private functions */
+static int check_size(int ncid, int varid, size_t n);
 static int get_offset_scale(int ncid, int varid, float *offset, float *scale);
 static int get_xy(int ncid, int varid, float *v, int nv);
 static int get_cmi(int ncid, int varid, float *cmip, int Npoints);
@@ -89,6 +90,32 @@ static int get_offset_scale(int ncid, int varid,
   return(status);
 }
 
+static int check_size(int ncid, int varid, size_t n) {
+  /*
+   * The variable must have exactly the number of values for which there
+   * is space.
+   */
+  int dimids[NC_MAX_VAR_DIMS];
+  int i, ndims;
+  size_t len;
+  size_t size = 1;
+  int status;
+
+  status = nc_inq_varndims(ncid, varid, &ndims);
+  if(status == 0)
+    status = nc_inq_vardimid(ncid, varid, dimids);
+
+  for(i = 0; (status == 0) && (i < ndims); ++i) {
+    status = nc_inq_dimlen(ncid, dimids[i], &len);
+    size *= len;
+  }
+
+  if((status == 0) && (size != n))
+    status = NC_EDIMSIZE;
+
+  return(status);
+}
+
 static int get_xy(int ncid, int varid, float *v, int nv) {
   /*
    * This function is intended to be used for x or y
@@ -360,6 +387,15 @@ int goesr_create(int ncid, struct goesr_st **goesr) {
   if(status == 0)
     status = get_lonorigin(ncid, &lorigin);
 
+  if(status == 0)
+    status = check_size(ncid, xid, nx);
+
+  if(status == 0)
+    status = check_size(ncid, yid, ny);
+
+  if(status == 0)
+    status = check_size(ncid, cmiid, (size_t)nx*(size_t)ny);
+
   if(status != 0)
     return(status);
 
-- 
2.43.0


From 869dbcd91cd115ae2e0567c06c86be8ab95a8f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:20 +0000
Subject: [PATCH 071/115] fix: the lengths in the index of a goesr shapefile
 included the record headers

---
 filters/filterlib/c/dcgoesr/dcgoesr_shp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcgoesr/dcgoesr_shp.c b/filters/filterlib/c/dcgoesr/dcgoesr_shp.c
index 4055024..b16f963 100644
--- a/filters/filterlib/c/dcgoesr/dcgoesr_shp.c
+++ b/filters/filterlib/c/dcgoesr/dcgoesr_shp.c
@@ -289,7 +289,8 @@ void dcgoesr_shx_insert_content(unsigned char *p,
   record_offset_words = SHAPEFILE_HEADER_SIZE_WORDS;
   for(i = 0; i < pm->numpoints; ++i){
     dcgoesr_shp_insert_uint32_big(b, 0, record_offset_words);
-    dcgoesr_shp_insert_uint32_big(b, 4, record_size_words);
+    /* the content length, which excludes the record header (4 words) */
+    dcgoesr_shp_insert_uint32_big(b, 4, record_size_words - 4);
     b += 8;
     record_offset_words += record_size_words;
   }
-- 
2.43.0


From 9b904c373586ef6a1e4eee0be9a432d27949ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:37 +0000
Subject: [PATCH 072/115] fix: mscheduler: the day and week specifications
 always ended in an error

---
 filters/filterlib/tcl/mscheduler.tcl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filters/filterlib/tcl/mscheduler.tcl b/filters/filterlib/tcl/mscheduler.tcl
index 75ea687..60b3a43 100644
--- a/filters/filterlib/tcl/mscheduler.tcl
+++ b/filters/filterlib/tcl/mscheduler.tcl
@@ -161,10 +161,10 @@ proc nbsp::mscheduler::match_dayspec {dayspec} {
     variable option;
 
     set seconds [clock seconds];
-    set ddhhmm [clock format $seconds -format "%d%H%M" $option(gmt)];
-    set hhmm [clock format $seconds -format "%H%M" $option(gmt)];
+    set ddhhmm [eval clock format $seconds -format "%d%H%M" $option(gmt)];
+    set hhmm [eval clock format $seconds -format "%H%M" $option(gmt)];
     set  Dhhmm "D$hhmm"; 
-    set day [clock format $seconds -format "%e" $option(gmt)];
+    set day [eval clock format $seconds -format "%e" $option(gmt)];
 
     set match 0;
     switch -glob $dayspec {
@@ -196,9 +196,9 @@ proc nbsp::mscheduler::match_wdayspec {wdayspec} {
     variable option;
 
     set seconds [clock seconds];
-    set wdayhhmm [clock format $seconds -format "%w%H%M" $option(gmt)];
-    set hhmm [clock format $seconds -format "%H%M" $option(gmt)];
-    set wday [clock format $seconds -format "%w" $option(gmt)];
+    set wdayhhmm [eval clock format $seconds -format "%w%H%M" $option(gmt)];
+    set hhmm [eval clock format $seconds -format "%H%M" $option(gmt)];
+    set wday [eval clock format $seconds -format "%w" $option(gmt)];
     set Whhmm "W$hhmm";
 
     set match 0;
-- 
2.43.0


From 753d53a51d809986646290868d857e91a9815b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:37 +0000
Subject: [PATCH 073/115] fix: periodic: the hourly and daily commands ran up
 to a minute late

---
 filters/filterlib/tcl/periodic.tcl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/tcl/periodic.tcl b/filters/filterlib/tcl/periodic.tcl
index 5f1560d..2eb9218 100644
--- a/filters/filterlib/tcl/periodic.tcl
+++ b/filters/filterlib/tcl/periodic.tcl
@@ -213,8 +213,9 @@ proc nbsp::periodic::_hourly_run_time_reset {now} {
 # now is the result of "clock seconds".
 #
     scan [clock format $now -format "%M"] "%d" current_minute;
+    scan [clock format $now -format "%S"] "%d" current_second;
 
-    return [expr $now - ($current_minute * 60) + 3600];
+    return [expr $now - ($current_minute * 60) - $current_second + 3600];
 }
 
 proc nbsp::periodic::_daily_run_time_reset {now} {
@@ -224,9 +225,10 @@ proc nbsp::periodic::_daily_run_time_reset {now} {
 #
     scan [clock format $now -format "%H"] "%d" current_hour;
     scan [clock format $now -format "%M"] "%d" current_minute;
+    scan [clock format $now -format "%S"] "%d" current_second;
     set current_minutes [expr ($current_hour * 60) + $current_minute];
 
-    return [expr $now - ($current_minutes * 60) + 24 * 3600];
+    return [expr $now - ($current_minutes * 60) - $current_second + 24 * 3600];
 }
 
 proc nbsp::periodic::_run_time_reset {now run_period} {
-- 
2.43.0


From cd8f055cf612ded83f71619957990ecdcaec3338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:37 +0000
Subject: [PATCH 074/115] fix: nbspscheduler: define the -M variables before
 reading the schedule that uses them

---
 filters/scheduler/tcl/nbspscheduler.tcl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/scheduler/tcl/nbspscheduler.tcl b/filters/scheduler/tcl/nbspscheduler.tcl
index d4eda8d..b5d0880 100755
--- a/filters/scheduler/tcl/nbspscheduler.tcl
+++ b/filters/scheduler/tcl/nbspscheduler.tcl
@@ -108,11 +108,11 @@ if {[file exists $rcfile] == 0} {
     ::nbsp::syslog::err "$rcfile not found.";
 }
 
+configure_defines $option(M);
+
 set g(cmdlist) [list];
 source_rcfile $rcfile;
 
-configure_defines $option(M);
-
 foreach cmd $g(cmdlist) {
     if {$option(v) == 1} {
 	::nbsp::syslog::msg "Executing $cmd";
-- 
2.43.0


From 66b1f87911a377930c3e08b007715b68d2db5270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:12 +0000
Subject: [PATCH 075/115] fix: nbspinvrm: delete the inventory itself also when
 it is not in the current directory

---
 utils/nbspinvrm/nbspinvrm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/nbspinvrm/nbspinvrm.c b/utils/nbspinvrm/nbspinvrm.c
index 24b5a86..ca25cdb 100644
--- a/utils/nbspinvrm/nbspinvrm.c
+++ b/utils/nbspinvrm/nbspinvrm.c
@@ -162,7 +162,10 @@ static void process_file(char *input_file){
   status = fchdir(g.cwdfd);
   if(status == 0){
     if(g.opt_test == 0){
-      status = e_unlink(input_file);
+      /* Unlike the files in the inventory, this one need not be in the cwd */
+      status = unlink(input_file);
+      if(status != 0)
+	write_err("Cannot unlink", input_file);
     }
   }
 
-- 
2.43.0


From acabee0ce4393b4bacd6388813146674248253b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:12 +0000
Subject: [PATCH 076/115] fix: nbspinvrm: an inventory with null characters was
 read before the start of the buffer

---
 utils/nbspinvrm/nbspinvrm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/nbspinvrm/nbspinvrm.c b/utils/nbspinvrm/nbspinvrm.c
index ca25cdb..57d17c3 100644
--- a/utils/nbspinvrm/nbspinvrm.c
+++ b/utils/nbspinvrm/nbspinvrm.c
@@ -117,7 +117,7 @@ static void process_file(char *input_file){
 
   while(fgets(fpath, FPATH_BUFFER_SIZE, g.fp) != NULL){
     size = strlen(fpath);
-    if(fpath[size - 1] == '\n'){
+    if((size > 0) && (fpath[size - 1] == '\n')){
       fpath[size - 1] = '\0';
       --size;
     }
-- 
2.43.0


From b0519d719abfcab125f48b1a8c6bda5fd212311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:19 +0000
Subject: [PATCH 077/115] fix: nbspmtrcsv: a report ended by a separate "="
 kept a trailing blank

---
 filters/metarfilter/tcl/nbspmtrcsv.tcl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/metarfilter/tcl/nbspmtrcsv.tcl b/filters/metarfilter/tcl/nbspmtrcsv.tcl
index 4115a7a..c07a18b 100755
--- a/filters/metarfilter/tcl/nbspmtrcsv.tcl
+++ b/filters/metarfilter/tcl/nbspmtrcsv.tcl
@@ -83,7 +83,8 @@ proc obdata_end {} {
 
     set record(_open) 0;
 
-    set record(obdata) [string trimright $record(obdata) "="];
+    # The "=" can be separated from the rest, as in "RMK AO2 ="
+    set record(obdata) [string trimright $record(obdata) "= "];
 
     if {$g(OFS) == ""} {
 	puts $record(obdata);
-- 
2.43.0


From c45280fe506f311e40ccf9e740d49b028c955a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:15 +0000
Subject: [PATCH 078/115] fix: nbspmtrcsv: a report without "=" got the type of
 the next one

---
 filters/metarfilter/tcl/nbspmtrcsv.tcl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/filters/metarfilter/tcl/nbspmtrcsv.tcl b/filters/metarfilter/tcl/nbspmtrcsv.tcl
index c07a18b..21d3f9e 100755
--- a/filters/metarfilter/tcl/nbspmtrcsv.tcl
+++ b/filters/metarfilter/tcl/nbspmtrcsv.tcl
@@ -15,6 +15,7 @@ set mtrspecstart_regexp {^(METAR|SPECI) [[:alnum:]]{4} \d{6}};
 set stationstart_regexp {^[[:alnum:]]{4} \d{6}};
 set continuation_regexp {^[[:blank:][:graph:]]+$};
 set g(OFS) "";
+set g(obtype) "";
 
 proc match_mtrspecstart str {
 
@@ -52,8 +53,10 @@ proc match_continuation str {
 proc obdata_init data {
 
     global record;
+    global g;
 
     set record(obdata) $data;
+    set record(obtype) $g(obtype);
     set record(rcvtime) [clock seconds];
     set record(_open) 1;
 
@@ -186,11 +189,12 @@ while {[gets $f line] >= 0 } {
     }
 
     # Records are saved with the flag of the keyword in the entire file,
-    # or at the beginning of each record. 
+    # or at the beginning of each record. A record that is still open
+    # keeps its own flag.
     if {[regexp {^METAR} $s]} {
-	set record(obtype) M;
+	set g(obtype) M;
     } elseif {[regexp {^SPECI} $s]} {
-	set record(obtype)  S;
+	set g(obtype) S;
     }
 
     # Each line is handled according to how it starts, and whether
-- 
2.43.0


From 42addc359da913ff256e19fa0e9882473cc86ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:07 +0000
Subject: [PATCH 079/115] fix: tclmetar: the pressures below 1000 mb stopped
 the decoding with an error

---
 tclmetar/tclmetar/src/lib/decode.tcl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tclmetar/tclmetar/src/lib/decode.tcl b/tclmetar/tclmetar/src/lib/decode.tcl
index ae7d890..7b401c8 100755
--- a/tclmetar/tclmetar/src/lib/decode.tcl
+++ b/tclmetar/tclmetar/src/lib/decode.tcl
@@ -262,7 +262,8 @@ proc metar::decode {line} {
 	if {[regexp {^Q([[:digit:]]{4})} $tok match s1]} {
 	    set metar(flag,alt_Q) 1;
 	    set metar(obs,ALT) $tok;
-	    set metar(param,alt_mb) $s1;
+	    # A leading zero, as in Q0998, would make it an octal number
+	    scan $s1 "%d" metar(param,alt_mb);
 	    set metar(param,alt_hg) \
 		[format "%.2f" [expr $metar(param,alt_mb) / 33.8639]];
 	    continue;
-- 
2.43.0


From f45ca317d20def9fb6b1c910cad3ccac99df666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:07 +0000
Subject: [PATCH 080/115] fix: tclmetar: of mixed precipitation only the last
 type was decoded, without its intensity

---
 tclmetar/tclmetar/src/lib/decode.tcl | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tclmetar/tclmetar/src/lib/decode.tcl b/tclmetar/tclmetar/src/lib/decode.tcl
index 7b401c8..068910e 100755
--- a/tclmetar/tclmetar/src/lib/decode.tcl
+++ b/tclmetar/tclmetar/src/lib/decode.tcl
@@ -132,9 +132,10 @@ proc metar::decode {line} {
 	# Weather
 	#
 	set _pat "";
+	append _pat {^};
 	append _pat "($metar(pat,weather.intensity))?";
 	append _pat "($metar(pat,weather.descriptor))?";
-	append _pat "($metar(pat,weather.precipitation))?";
+	append _pat "((?:$metar(pat,weather.precipitation))*)";
 	append _pat "($metar(pat,weather.obscuration))?";
 	append _pat "($metar(pat,weather.other))?";
 	append _pat {$};
@@ -163,8 +164,9 @@ proc metar::decode {line} {
 		append _weather " " $metar(text,weather.$s2);
 	    }
 
-	    if {$s3 ne ""} {
-		append _weather " " $metar(text,weather.$s3);
+	    # There can be several types of precipitation, as in -RASN
+	    foreach {_c1 _c2} [split $s3 ""] {
+		append _weather " " $metar(text,weather.${_c1}${_c2});
 	    }
 
 	    if {$s4 ne ""} {
-- 
2.43.0


From a0b812c92930b24751fce7111ee5431f1bbe148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:07 +0000
Subject: [PATCH 081/115] fix: tclmetar: a visibility such as 1 1/2SM lost its
 whole miles

---
 tclmetar/tclmetar/src/lib/decode.tcl | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tclmetar/tclmetar/src/lib/decode.tcl b/tclmetar/tclmetar/src/lib/decode.tcl
index 068910e..865d1e3 100755
--- a/tclmetar/tclmetar/src/lib/decode.tcl
+++ b/tclmetar/tclmetar/src/lib/decode.tcl
@@ -111,12 +111,22 @@ proc metar::decode {line} {
 	#
 	# Visibility (statute miles)
 	#
+	# The whole miles are a token of their own in, e.g., "1 1/2SM".
+	if {[regexp {^\d$} $tok] && ($metar(obs,VISIBILITY) eq "")} {
+	    set _miles $tok;
+	    continue;
+	}
+
 	if {[regexp {(M?)(.+)SM$} $tok match s1 s2]} {
 	    set metar(obs,VISIBILITY) $tok;
 	    if {$s1 ne ""} {
 		set metar(flag,visibility_Mflag) 1;
 	    }
 	    set metar(param,visibility) $s2;
+	    if {[info exists _miles] && [regexp {/} $s2]} {
+		set metar(obs,VISIBILITY) "${_miles} $tok";
+		set metar(param,visibility) "${_miles} $s2";
+	    }
 	    continue;
 	}
 
-- 
2.43.0


From c970a040536bcfab4737470fe676834f8288ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:07 +0000
Subject: [PATCH 082/115] fix: metardc: a wind of variable direction was
 printed without direction

---
 tclmetar/tclmetar/src/dc/dc.tcl    | 13 +++++++++++--
 tclmetar/tclmetar/src/lib/init.tcl |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/tclmetar/tclmetar/src/dc/dc.tcl b/tclmetar/tclmetar/src/dc/dc.tcl
index 9d592ce..43bc076 100755
--- a/tclmetar/tclmetar/src/dc/dc.tcl
+++ b/tclmetar/tclmetar/src/dc/dc.tcl
@@ -42,6 +42,15 @@ set conflict_e 0;
 set conflict_ht 0;
 set inputfile "";
 
+proc wind_dir {} {
+
+    if {$::metar::metar(flag,wind_dir_variable) == 1} {
+	return $::metar::metar(text,wind_dir_variable);
+    }
+
+    return $::metar::metar(param,wind.dir);
+}
+
 proc print_report {fout line} {
 
     global option;
@@ -61,7 +70,7 @@ proc print_report {fout line} {
     } elseif {$::metar::metar(param,wind.speed_mph) ne ""} {
 	puts $fout [format "Wind: %s Mph at %s" \
 			$::metar::metar(param,wind.speed_mph) \
-			$::metar::metar(param,wind.dir)];
+			[wind_dir]];
     }
 
     if {$::metar::metar(param,wind.gust_mph) ne ""} {
@@ -187,7 +196,7 @@ proc print_report_html {fout line} {
 	append result [format $fmt "Wind" $::metar::metar(text,wind_calm)];
     } elseif {$::metar::metar(param,wind.speed_mph) ne ""} {
         append result [format $fmt "Wind" \
-       "$::metar::metar(param,wind.speed_mph) Mph at $::metar::metar(param,wind.dir)"];
+       "$::metar::metar(param,wind.speed_mph) Mph at [wind_dir]"];
     }
 
     if {$::metar::metar(param,wind.gust_mph) ne ""} {
diff --git a/tclmetar/tclmetar/src/lib/init.tcl b/tclmetar/tclmetar/src/lib/init.tcl
index 709af42..7102b06 100644
--- a/tclmetar/tclmetar/src/lib/init.tcl
+++ b/tclmetar/tclmetar/src/lib/init.tcl
@@ -128,6 +128,7 @@ proc metar::init_data {} {
 
     set metar(obs,WIND) "";
     set metar(flag,wind_calm) 0;
+    set metar(flag,wind_dir_variable) 0;
     set metar(param,wind.dir) "";
     set metar(param,wind.speed_kt) "";
     set metar(param,wind.speed_mph) "";
-- 
2.43.0


From bbdc0f172a74729e15ae4a0d775289db565e4102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:07 +0000
Subject: [PATCH 083/115] fix: metardc: a visibility below the least value, as
 in M1/4SM, was printed as that value

---
 tclmetar/tclmetar/src/dc/dc.tcl | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tclmetar/tclmetar/src/dc/dc.tcl b/tclmetar/tclmetar/src/dc/dc.tcl
index 43bc076..8b7b26b 100755
--- a/tclmetar/tclmetar/src/dc/dc.tcl
+++ b/tclmetar/tclmetar/src/dc/dc.tcl
@@ -51,6 +51,16 @@ proc wind_dir {} {
     return $::metar::metar(param,wind.dir);
 }
 
+proc visibility {} {
+
+    set r "";
+    if {$::metar::metar(flag,visibility_Mflag) == 1} {
+	append r $::metar::metar(text,visibility_Mflag) " ";
+    }
+
+    return [append r $::metar::metar(param,visibility)];
+}
+
 proc print_report {fout line} {
 
     global option;
@@ -104,8 +114,7 @@ proc print_report {fout line} {
     }
 
     if {$::metar::metar(param,visibility) ne ""} {
-	puts $fout [format "Visibility: %s Statute Miles" \
-			$::metar::metar(param,visibility)];
+	puts $fout [format "Visibility: %s Statute Miles" [visibility]];
     }
 
     if {[llength $::metar::metar(param,weather)] != 0} {
@@ -223,7 +232,7 @@ proc print_report_html {fout line} {
 
     if {$::metar::metar(param,visibility) ne ""} {
 	append result [format $fmt "Visibility" \
-			"$::metar::metar(param,visibility) Statute Miles"];
+			"[visibility] Statute Miles"];
     }
 
     if {[llength $::metar::metar(param,weather)] != 0} {
-- 
2.43.0


From 3e5b266774ebbce4a004852121ff56a262fefbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:07 +0000
Subject: [PATCH 084/115] fix: metardc: the words of the weather were printed
 as a list

---
 tclmetar/tclmetar/src/dc/dc.tcl | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tclmetar/tclmetar/src/dc/dc.tcl b/tclmetar/tclmetar/src/dc/dc.tcl
index 8b7b26b..4f2dab3 100755
--- a/tclmetar/tclmetar/src/dc/dc.tcl
+++ b/tclmetar/tclmetar/src/dc/dc.tcl
@@ -117,9 +117,8 @@ proc print_report {fout line} {
 	puts $fout [format "Visibility: %s Statute Miles" [visibility]];
     }
 
-    if {[llength $::metar::metar(param,weather)] != 0} {
-	puts $fout [format "Weather: %s" \
-			[join $::metar::metar(param,weather) ", "]];
+    if {$::metar::metar(param,weather) ne ""} {
+	puts $fout [format "Weather: %s" $::metar::metar(param,weather)];
     }
     
     if {$::metar::metar(param,sky) ne ""} {
@@ -235,9 +234,8 @@ proc print_report_html {fout line} {
 			"[visibility] Statute Miles"];
     }
 
-    if {[llength $::metar::metar(param,weather)] != 0} {
-	append result [format $fmt "Weather" \
-			[join $::metar::metar(param,weather) ", "]];
+    if {$::metar::metar(param,weather) ne ""} {
+	append result [format $fmt "Weather" $::metar::metar(param,weather)];
     }
     
     if {$::metar::metar(param,sky) ne ""} {
-- 
2.43.0


From 20c4328fc20c742c405b901afbb9222dcafd88e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:07 +0000
Subject: [PATCH 085/115] fix: tclmetar: drifting snow, dust or sand was
 decoded as drizzle

---
 tclmetar/tclmetar/src/lib/init.tcl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tclmetar/tclmetar/src/lib/init.tcl b/tclmetar/tclmetar/src/lib/init.tcl
index 7102b06..103ea52 100644
--- a/tclmetar/tclmetar/src/lib/init.tcl
+++ b/tclmetar/tclmetar/src/lib/init.tcl
@@ -34,7 +34,7 @@ namespace eval metar {
     set metar(text,weather.MI) "shallow";
     set metar(text,weather.PI) "partial";
     set metar(text,weather.BC) "patches";
-    set metar(text,weather.DR) "drizzle";
+    set metar(text,weather.DR) "low drifting";
     set metar(text,weather.BL) "blowing";
     set metar(text,weather.SH) "showers";
     set metar(text,weather.TS) "thunderstorm";
-- 
2.43.0


From 162b61d0ad46ed347564f668b31fbf9e53a98d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:14 +0000
Subject: [PATCH 086/115] fix: metardc: with -o the record separators went to
 the standard output

---
 tclmetar/tclmetar/src/dc/dc.tcl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tclmetar/tclmetar/src/dc/dc.tcl b/tclmetar/tclmetar/src/dc/dc.tcl
index 4f2dab3..1ee367d 100755
--- a/tclmetar/tclmetar/src/dc/dc.tcl
+++ b/tclmetar/tclmetar/src/dc/dc.tcl
@@ -143,7 +143,7 @@ proc print_report {fout line} {
     }
 
     if {$option(s) ne ""} {
-	puts $option(s);
+	puts $fout $option(s);
     }
 }
 
-- 
2.43.0


From e516c7c9696e9987146f554ca351f3ffb10e1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:53 +0000
Subject: [PATCH 087/115] fix: nbspcleanup evaluated the names of the inventory
 directories as Tcl

---
 scripts/nbspcleanup.tcl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/nbspcleanup.tcl b/scripts/nbspcleanup.tcl
index 6a2f08f..5ebb7d6 100755
--- a/scripts/nbspcleanup.tcl
+++ b/scripts/nbspcleanup.tcl
@@ -210,8 +210,8 @@ proc process_dir_byinv {dir expression} {
 
     foreach invdir $invlist {
 	set status [catch {
-	    set output [eval exec find $invdir -type f \
-			    -exec nbspinvrm -s -v {\{\}} {+}];
+	    set output [exec find $invdir -type f \
+			    -exec nbspinvrm -s -v "{}" +];
 	    if {$output ne ""} {
 		puts $output;
 	    }
-- 
2.43.0


From a702e78007171c72dd2ab5f92f2281653bb92f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:23 +0000
Subject: [PATCH 088/115] fix: masterfilter with three arguments always failed

---
 filters/masterfilter/tcl/masterfilter.tcl.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/masterfilter/tcl/masterfilter.tcl.in b/filters/masterfilter/tcl/masterfilter.tcl.in
index d2e9cc2..d61e4e5 100755
--- a/filters/masterfilter/tcl/masterfilter.tcl.in
+++ b/filters/masterfilter/tcl/masterfilter.tcl.in
@@ -136,7 +136,7 @@ proc once {argc argv} {
     } elseif {$argc == 2} {
 	# fname fpath - insert 0 five times in front
 	set finfo [join [linsert $argv 0 0 0 0 0 0] " "];
-    } elseif {argc == 3} {
+    } elseif {$argc == 3} {
 	# seq fname fpath - insert 0 four times after seq
 	set finfo [join [linsert $argv 1 0 0 0 0] " "];
     }
-- 
2.43.0


From a4b42bd6f017be1911895c1083e69415d96c10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:23 +0000
Subject: [PATCH 089/115] fix: masterfilter(gisfilter,enable) had no effect

---
 filters/masterfilter/tcl/masterfilter.tcl.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/masterfilter/tcl/masterfilter.tcl.in b/filters/masterfilter/tcl/masterfilter.tcl.in
index d61e4e5..4a15643 100755
--- a/filters/masterfilter/tcl/masterfilter.tcl.in
+++ b/filters/masterfilter/tcl/masterfilter.tcl.in
@@ -61,7 +61,7 @@ if {[llength $masterfilter(filterlist)] == 0} {
         lappend masterfilter(filterlist) "inventory";
     }
     foreach k \
-	[list spool rst da metar ua ws grib pan msg track nntp gp ldm nbsp] {
+	[list spool rst da metar ua ws gis grib pan msg track nntp gp ldm nbsp] {
         if {[info exists masterfilter(${k}filter,enable)] && \
 	    ($masterfilter(${k}filter,enable) != 0)} {
             lappend masterfilter(filterlist) "${k}filter";
-- 
2.43.0


From c5af68af58b67aa8a2ca46983c47f123a8b38d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:23 +0000
Subject: [PATCH 090/115] fix: clusterfilter ended when a filter could not be
 opened

---
 filters/clusterfilter/tcl/clusterfilter.tcl.in | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/filters/clusterfilter/tcl/clusterfilter.tcl.in b/filters/clusterfilter/tcl/clusterfilter.tcl.in
index 5ee3e63..4e791bc 100755
--- a/filters/clusterfilter/tcl/clusterfilter.tcl.in
+++ b/filters/clusterfilter/tcl/clusterfilter.tcl.in
@@ -125,20 +125,12 @@ proc clusterfilter_remove_filter {node filter_name} {
 
     global clusterfilter;
 
-    set filter_path $clusterfilter(filter_path,$node,$filter_name);
-
     set i [lsearch -exact $clusterfilter(filter_listn,$node) $filter_name];
     if {$i != -1} {
-	set $clusterfilter(filter_listn,$node) \
+	set clusterfilter(filter_listn,$node) \
 	    [lreplace $clusterfilter(filter_listn,$node) $i $i];
     }
 
-    set i [lsearch -exact $clusterfilter(filter_listp,$node) $filter_path];
-    if {$i != -1} {
-	set $clusterfilter(filter_listp,$node) \
-	    [lreplace $clusterfilter(filter_listp,$node) $i $i];
-    }
-
     set clusterfilter(masterlist) [list];
     foreach node $clusterfilter(nodes) {
 	foreach filter_name $clusterfilter(filter_listn,$node) {
@@ -160,7 +152,7 @@ proc clusterfilter_open_all_filters {} {
 	set filter_path $clusterfilter(filter_path,$node,$filter_name);
 	set status [clusterfilter_open_filter $node $filter_name];
 	if {$status != 0} {
-	    clusterfilter_remove_filter $node $filter_path;
+	    clusterfilter_remove_filter $node $filter_name;
 	    log_msg "Removed $node:$filter_name";
 	}
     }
-- 
2.43.0


From af35b58e3f95e3fc0a01271ac1e4f0b4d29c7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:23 +0000
Subject: [PATCH 091/115] fix: clusterfilter did not start with a node without
 enabled filters

---
 filters/clusterfilter/tcl/clusterfilter.init | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filters/clusterfilter/tcl/clusterfilter.init b/filters/clusterfilter/tcl/clusterfilter.init
index 7f9f80a..4c482ef 100755
--- a/filters/clusterfilter/tcl/clusterfilter.init
+++ b/filters/clusterfilter/tcl/clusterfilter.init
@@ -63,6 +63,7 @@ if {[file exists $clusterfilter(conf)] == 1} {
 #
 foreach node $clusterfilter(nodes) {
     set flist [list];
+    set clusterfilter(filter_listn,$node) [list];
 
     foreach k [array names clusterfilter "enable,$node,*"] {
 	set filter_name [lindex [split $k ","] 2];
-- 
2.43.0


From 4dc2ca28668f3aaebcb4ec28926479571d56ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:23 +0000
Subject: [PATCH 092/115] fix: clusterfilter ignored the parameters of the
 filters in work-crew mode

---
 filters/clusterfilter/tcl/clusterfilter.init | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/filters/clusterfilter/tcl/clusterfilter.init b/filters/clusterfilter/tcl/clusterfilter.init
index 4c482ef..83e1be7 100755
--- a/filters/clusterfilter/tcl/clusterfilter.init
+++ b/filters/clusterfilter/tcl/clusterfilter.init
@@ -66,11 +66,20 @@ foreach node $clusterfilter(nodes) {
     set clusterfilter(filter_listn,$node) [list];
 
     foreach k [array names clusterfilter "enable,$node,*"] {
-	set filter_name [lindex [split $k ","] 2];
+	set name [lindex [split $k ","] 2];
+	set filter_name $name;
 	if {$clusterfilter($k) == 0} {
 	    continue;
 	} elseif {$clusterfilter($k) == 2} {
 	    append filter_name "-manager";
+	    # The parameters are configured with the name of the filter
+	    foreach key [list filter_path sshopts fname_uregex] {
+		if {[info exists clusterfilter($key,$node,$name)] && \
+		    ![info exists clusterfilter($key,$node,$filter_name)]} {
+		    set clusterfilter($key,$node,$filter_name) \
+			$clusterfilter($key,$node,$name);
+		}
+	    }
 	}
 	lappend clusterfilter(filter_listn,$node) $filter_name;
     }
-- 
2.43.0


From e3ea42bfaeada19082ab589f85e81e077ab6c0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:48 +0000
Subject: [PATCH 093/115] fix: filters.lib executes nbsprad2info to get the
 time and site of the level 2 files

---
 filters/filterlib/tcl/filters.lib | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/tcl/filters.lib b/filters/filterlib/tcl/filters.lib
index 276eab1..3323427 100644
--- a/filters/filterlib/tcl/filters.lib
+++ b/filters/filterlib/tcl/filters.lib
@@ -397,7 +397,7 @@ proc filterlib_get_rcvars {rc_name finfo args} {
 
     if {[regexp {^level2} $rc(wmoid)] && ($dorad == 1)} {
 	set rad2info_status [catch {
-	    set rad2info [split [nbsprad2info -b -t $rc(fpath)]];
+	    set rad2info [split [exec nbsprad2info -b -t $rc(fpath)]];
 	} errmsg];
 
 	if {$rad2info_status == 0} {
-- 
2.43.0


From d690db4ffec7c278307bb874ffbd00ebcef2c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:01 +0000
Subject: [PATCH 094/115] fix: nbspstats divided by zero when no products were
 transmitted

---
 filters/inventory/tcl/nbspstats.tcl | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/filters/inventory/tcl/nbspstats.tcl b/filters/inventory/tcl/nbspstats.tcl
index b0261e4..65b0247 100755
--- a/filters/inventory/tcl/nbspstats.tcl
+++ b/filters/inventory/tcl/nbspstats.tcl
@@ -72,8 +72,17 @@ proc proc_set_stats_awk_script {} {
 
 	END {
 
-	  prod_missed_fraction = prod_missed/prod_total;
-	  prod_rtx_fraction = prod_rtx/prod_total;
+	  if(NR == 0){
+	      print "no data";
+	      exit;
+	  }
+
+	  prod_missed_fraction = 0;
+	  prod_rtx_fraction = 0;
+	  if(prod_total != 0){
+	      prod_missed_fraction = prod_missed/prod_total;
+	      prod_rtx_fraction = prod_rtx/prod_total;
+	  }
 
 	  printf("%29s\t\t%s\t%s\n", "total", "per minute", "last minute");
 	  printf(fmt, "products trasmitted", prod_total, prod_total/NR,
-- 
2.43.0


From 586033607ec3bb530445012bd9442de8cba6db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:01 +0000
Subject: [PATCH 095/115] fix: nbspstatcounters gave the values to other
 keywords when a file was missing

---
 filters/inventory/tcl/nbspstatcounters.tcl | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/filters/inventory/tcl/nbspstatcounters.tcl b/filters/inventory/tcl/nbspstatcounters.tcl
index 9665f92..002bb26 100755
--- a/filters/inventory/tcl/nbspstatcounters.tcl
+++ b/filters/inventory/tcl/nbspstatcounters.tcl
@@ -163,6 +163,16 @@ if {[file exists $chstatsfile]} {
     set chvalues [split [exec tail -n 1 $chstatsfile]];
 }
 
+# If any of the files is missing its values are left empty, so that the
+# others stay with their keywords.
+foreach {name n} {svalues 17 qvalues 4 chvalues 20} {
+    set list_ [lrange [set $name] 0 [expr $n - 1]];
+    while {[llength $list_] < $n} {
+	lappend list_ "";
+    }
+    set $name $list_;
+}
+
 set values [concat $values $svalues $qvalues $chvalues];
 
 if {$fmt eq "yaml" } {
-- 
2.43.0


From 8d0c5a750e80de67e835f9eb53d7731f673bdd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:01 +0000
Subject: [PATCH 096/115] fix: nbspstatcounters reported the data of the day
 before in the first minutes of each hour

---
 filters/inventory/tcl/nbspstatcounters.tcl | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/filters/inventory/tcl/nbspstatcounters.tcl b/filters/inventory/tcl/nbspstatcounters.tcl
index 002bb26..3a0ada4 100755
--- a/filters/inventory/tcl/nbspstatcounters.tcl
+++ b/filters/inventory/tcl/nbspstatcounters.tcl
@@ -59,7 +59,18 @@ set fmt $option(f);
 set pidfile $nbspd(pidfile);
 set qstatefile $nbspd(qstatelogfile);
 set statusfile $nbspd(statusfile);
+#
+# The inventory filter writes to the file of the hour in which the minute
+# that it reports started, so that the last entry can be in the file of the
+# previous hour. In that case the file of the current hour does not exist, or
+# it is the one of the day before.
 set chstatsfile [inventory_mk_chstats_fpath [clock seconds]];
+set chstatsfile_prev [inventory_mk_chstats_fpath [expr [clock seconds] - 3600]];
+if {[file exists $chstatsfile_prev] && \
+    (([file exists $chstatsfile] == 0) || \
+     ([file mtime $chstatsfile] < [file mtime $chstatsfile_prev]))} {
+    set chstatsfile $chstatsfile_prev;
+}
 
 #
 set nbspstats_logperiod_secs $nbspd(nbspstats_logperiod_secs);
-- 
2.43.0


From 58af6924cd9c2005c7dfac65546589cd27733bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:01 +0000
Subject: [PATCH 097/115] fix: nbspstatmonitor ended in an error when there
 were no data

---
 filters/inventory/tcl/nbspstatmonitor.tcl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filters/inventory/tcl/nbspstatmonitor.tcl b/filters/inventory/tcl/nbspstatmonitor.tcl
index 3f1b155..d734bdd 100755
--- a/filters/inventory/tcl/nbspstatmonitor.tcl
+++ b/filters/inventory/tcl/nbspstatmonitor.tcl
@@ -53,12 +53,19 @@ proc monitor {rawoutput} {
     set err_chstats_time 2;
     set err_chstats_data 3;
 
+    # The values are empty if the data is missing
+    set stats_time 0;
+    set chstats_time 0;
     set total_files 0;
     set total_bytes 0;
 
     set output [split $rawoutput ","];
 
     foreach entry $output {
+	if {[string trim [lindex [split $entry "="] 1]] eq ""} {
+	    continue;
+	}
+
 	if {[regexp {chstats_files} $entry]} {
 	    set val [string trim [lindex [split $entry "="] 1]];
 	    incr total_files $val;
-- 
2.43.0


From 717ef9073b87bab371d90abcf768f79b80559014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:01 +0000
Subject: [PATCH 098/115] fix: nbspstatplotdata found no data for the days 8
 and 9

---
 filters/inventory/tcl/nbspstatplotdata.tcl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filters/inventory/tcl/nbspstatplotdata.tcl b/filters/inventory/tcl/nbspstatplotdata.tcl
index 10becd4..b99182c 100755
--- a/filters/inventory/tcl/nbspstatplotdata.tcl
+++ b/filters/inventory/tcl/nbspstatplotdata.tcl
@@ -78,6 +78,9 @@ if {$option(D) eq ""} {
     set mday [clock format $seconds -format "%d"];
 } else {
     set mday $option(D);
+    if {[string length $mday] == 1} {
+	set mday "0${mday}";
+    }
 }
 
 if {[regexp {^-} $option(h)]} {
-- 
2.43.0


From 967f5a70f855ac4d2684bdc2473979a0e63f7a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:01 +0000
Subject: [PATCH 099/115] fix: nbsprecover did not find the name of the missing
 log file

---
 filters/recover/tcl/nbsprecover.tcl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/recover/tcl/nbsprecover.tcl b/filters/recover/tcl/nbsprecover.tcl
index 1d6039d..bda838f 100755
--- a/filters/recover/tcl/nbsprecover.tcl
+++ b/filters/recover/tcl/nbsprecover.tcl
@@ -56,7 +56,7 @@ array set option [::cmdline::getoptions argv $optlist $usage];
 set argc [llength $argv];
 
 if {$option(f) eq ""} {
-    set missingfile $nbspd(missingfile);
+    set missingfile $nbspd(missinglogfile);
 } else {
     set missingfile $option(f);
 }
-- 
2.43.0


From 82d1d5386728b7e734b7a6a5f562ff01f46b528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:07 +0000
Subject: [PATCH 100/115] fix: spoolfilter added a newline to the files without
 the ccb

---
 filters/spoolfilter/tcl/spoolfilter.tcl.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/spoolfilter/tcl/spoolfilter.tcl.in b/filters/spoolfilter/tcl/spoolfilter.tcl.in
index 0cdb581..48b4d72 100644
--- a/filters/spoolfilter/tcl/spoolfilter.tcl.in
+++ b/filters/spoolfilter/tcl/spoolfilter.tcl.in
@@ -102,7 +102,7 @@ proc process {finfo} {
 	    fconfigure $fin -translation binary -encoding binary;
 	    fconfigure $fout -translation binary -encoding binary;
 	    read $fin $spoolfilter(ccbsize);	# discarded
-	    puts $fout [read $fin];
+	    puts -nonewline $fout [read $fin];
 	} errmsg];
 	if {[info exists fin]} {
 	    close $fin;
-- 
2.43.0


From f648173831082dcae57134cd112dbb8b1c106fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:45 +0000
Subject: [PATCH 101/115] fix: nbspbatch listed the files that could not be
 downloaded

---
 filters/inventory/tcl/nbspbatch.tcl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/inventory/tcl/nbspbatch.tcl b/filters/inventory/tcl/nbspbatch.tcl
index 35a0265..31c77ed 100755
--- a/filters/inventory/tcl/nbspbatch.tcl
+++ b/filters/inventory/tcl/nbspbatch.tcl
@@ -357,7 +357,7 @@ proc proc_curl {local_path url_path curl_timeout curl_retries quiet} {
     }
 
     if {$status != 0} {
-	puts stderr $errmsg;
+	return -code error $errmsg;
     }
 
     return $status;
-- 
2.43.0


From 500d6339c2e542c8ae7d5ab5a172820297199d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:46 +0000
Subject: [PATCH 102/115] fix: nbspbatch failed with more products in one
 minute than fit in one argument

---
 filters/inventory/tcl/nbspbatch.tcl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/inventory/tcl/nbspbatch.tcl b/filters/inventory/tcl/nbspbatch.tcl
index 31c77ed..1515bcf 100755
--- a/filters/inventory/tcl/nbspbatch.tcl
+++ b/filters/inventory/tcl/nbspbatch.tcl
@@ -151,7 +151,7 @@ proc proc_get {} {
     # Write the local inventory file
     file mkdir [file dirname $local_logfile];
     if {[llength $local_flist] != 0} {
-	exec echo [join $local_flist "\n"] > $local_logfile;
+	::fileutil::writeFile $local_logfile "[join $local_flist "\n"]\n";
     } else {
 	exec touch $local_logfile;
     }
@@ -322,7 +322,7 @@ proc proc_filter_logfile {hhmm} {
 	set filterpath $option(p);
 	if {$filterpath ne ""} {
 	    set status [catch {
-		exec echo [join $batch_flist "\n"] | $filterpath;
+		exec $filterpath << "[join $batch_flist "\n"]\n";
 	    } errmsg];
 	    if {$status != 0} {
 		set errfile [file rootname $local_logfile];
-- 
2.43.0


From 637acbcbf0e0577ad4ae831fb05886fb61c57920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:46 +0000
Subject: [PATCH 103/115] fix: nbspbatch did not reject the patterns with a
 space before the !

---
 filters/inventory/tcl/nbspbatch.tcl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/inventory/tcl/nbspbatch.tcl b/filters/inventory/tcl/nbspbatch.tcl
index 1515bcf..ce3c8ef 100755
--- a/filters/inventory/tcl/nbspbatch.tcl
+++ b/filters/inventory/tcl/nbspbatch.tcl
@@ -384,9 +384,9 @@ proc uwildmat {uwildregex str ifempty} {
     foreach p $pattlist {
 	set v 1;
 	set regex [string trim $p];
-	if {[string range $p 0 0] eq "!"} {
+	if {[string range $regex 0 0] eq "!"} {
 	    set v 0;
-	    set regex [string range $p 1 end];
+	    set regex [string range $regex 1 end];
 	}
 	if {[regexp -- $regex $str]} {
 	    set status $v;
-- 
2.43.0


From 6a1e1ab90aba505491d397b0e998ce5476202587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:26 +0000
Subject: [PATCH 104/115] fix: recover replaced the recovered product with the
 rest of its own input

---
 filters/recover/tcl/recover.tcl.in | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filters/recover/tcl/recover.tcl.in b/filters/recover/tcl/recover.tcl.in
index 0249103..66f7356 100755
--- a/filters/recover/tcl/recover.tcl.in
+++ b/filters/recover/tcl/recover.tcl.in
@@ -130,9 +130,11 @@ proc process {missingfinfo} {
 
     # nbspinsert knows where to look for the nbs infeed fifo, but
     # passing it here with [-f] option prevents nbspinsert from having
-    # to read the nbsp configuration files.
+    # to read the nbsp configuration files. The data is already in the
+    # spool (nbspinsert [-i] would replace it with what it reads from stdin,
+    # which is the rest of the list of missing files).
     set status [catch {
-	exec nbspinsert -i -f $recover(_infeedfifo) \
+	exec nbspinsert -f $recover(_infeedfifo) \
 		$rc(seq) $rc(type) $rc(cat) $rc(code) $rc(npchidx) \
 		$rc(fname) $local_path;
     } errmsg];
-- 
2.43.0


From e7440edaacd95ef4ceceb8da40288395d862c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:26 +0000
Subject: [PATCH 105/115] fix: nbspinsert did not take the list of files that
 nbspbatch sends to it

---
 tools/nbspinsert/nbspinsert.c | 60 ++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/tools/nbspinsert/nbspinsert.c b/tools/nbspinsert/nbspinsert.c
index a758484..db5e911 100644
--- a/tools/nbspinsert/nbspinsert.c
+++ b/tools/nbspinsert/nbspinsert.c
@@ -7,7 +7,7 @@
  *
  * Usage: nbspinsert -i [-f nbspinfifo] finfo < file
  *        nbspinsert [-f nbspinfifo] finfo
- *        nbspinsert [-f nbspinfifo] < file_with_finfolist (not implemented)
+ *        nbspinsert [-f nbspinfifo] < file_with_finfolist
  * where
  *
  * finfo = seq type cat code npchidx fname fpath
@@ -23,17 +23,8 @@
  * The third form is like the second one, but it takes a list of finfo
  * on stdin (like a filter does). In all cases, the fpath should be a
  * "spool file" path, that is, a path to a file in the spool directory with
- * the usual convention used by nbsp.
- * The third form is not implemented in this C version of the program.
- * It can be easily implemented with a script following this snipet:
- *
- * while {[gets stdin finfo] >= 0} {
- *   # check finfo if desired; e.g.
- *   if {$finfo eq ""} {
- *     continue;
- *   }
- *   eval exec ./nbspinsert <options> [split $finfo " "]
- * }
+ * the usual convention used by nbsp. In the third form (used by nbspbatch)
+ * the blank lines are ignored.
  *
  * If [-f] is not given to specify the location of the nbspd.infifo file,
  * then the default nbsp is used (as set in defaults.h.in).
@@ -104,6 +95,7 @@ static void check_options(void);
 static int validate_input(void);
 static int open_nbsp_infifo(void);
 static void close_nbsp_infifo(void);
+static int process_list(void);
 static int process_file(void);
 static int create_finfo(void);
 static void delete_finfo(void);
@@ -154,6 +146,9 @@ int main(int argc, char **argv){
   if(g.opt_background == 1)
     set_usesyslog();
 
+  if((optind == argc) && (g.opt_i == 0))
+    return(process_list());
+
   if(optind != argc - 7)
     log_errx(1, "%s %s", "Not enough arguments.", usage);
 
@@ -342,6 +337,47 @@ static void close_nbsp_infifo(void) {
     log_err(0, "Error closing infeed fifo: %s\n", g.opt_nbsp_infifo_fpath);
 }
 
+static int process_list(void) {
+  /*
+   * Process the list of finfo (one in each line) in stdin.
+   */
+  char *line = NULL;
+  size_t line_size = 0;
+  char **field[] = {&g.seq, &g.type, &g.cat, &g.code, &g.npchidx,
+		    &g.fname, &g.fpath};
+  int n = sizeof(field)/sizeof(field[0]);
+  int i;
+  char *p;
+  int status = 0;
+
+  while((status == 0) && (getline(&line, &line_size, stdin) != -1)){
+    p = strtok(line, " \t\r\n");
+    if(p == NULL)
+      continue;
+
+    for(i = 0; (i < n) && (p != NULL); ++i){
+      *field[i] = p;
+      p = strtok(NULL, " \t\r\n");
+    }
+
+    if((i != n) || (p != NULL))
+      log_errx(1, "%s", "Invalid line in the list of files.");
+
+    status = validate_input();
+    if(status == 0)
+      status = open_nbsp_infifo();
+
+    if(status == 0)
+      status = process_file();
+
+    close_nbsp_infifo();
+  }
+
+  free(line);
+
+  return(status != 0 ? 1 : 0);
+}
+
 static int process_file(void) {
 
   int status = 0;
-- 
2.43.0


From 42a88942a2bf78126a15470b97d94cec71a74446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:05 +0000
Subject: [PATCH 106/115] fix: the stop script was not run because the
 configuration was released before the end

---
 src/init.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/init.c b/src/init.c
index b26dd42..79b83ba 100644
--- a/src/init.c
+++ b/src/init.c
@@ -289,7 +289,6 @@ void cleanup(void){
   close_queues();
   close_mspool();
 
-  release_confoptions();
   free_nbsp_regex();
 
   cleanup_files();
@@ -298,6 +297,9 @@ void cleanup(void){
 
   log_info("Stopped.");
   (void)exec_stopscript();
+
+  /* The configuration strings are used by all the functions above. */
+  release_confoptions();
 }
 
 void cleanup_files(void){
-- 
2.43.0


From 6918f5dd5e59e1f05215973b6e88ffd9ae8444be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:05 +0000
Subject: [PATCH 107/115] fix: a second nbspd removed the queue state fifo of
 the one that is running

---
 src/qstate.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qstate.c b/src/qstate.c
index c5bad6c..53fcc46 100644
--- a/src/qstate.c
+++ b/src/qstate.c
@@ -47,10 +47,15 @@ int init_qstate_fifo(void){
 
 void kill_qstate_fifo(void){
 
-  if(g.qstatefifo_buffer != NULL){
-    free(g.qstatefifo_buffer);
-    g.qstatefifo_buffer = NULL;
-  }
+  /*
+   * If it was not created by this process, then it belongs to another
+   * one that is running.
+   */
+  if(g.qstatefifo_buffer == NULL)
+    return;
+
+  free(g.qstatefifo_buffer);
+  g.qstatefifo_buffer = NULL;
 
   e_close_qstate_fifo();
 
-- 
2.43.0


From ad71fe23c03fc3a4d43390d042a30ac261c68046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:44 +0000
Subject: [PATCH 108/115] fix: heights above 10 km at 300 and 250 mb were
 decoded 9 km too low

---
 tclupperair/tclupperair/src/lib/fm35.tcl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tclupperair/tclupperair/src/lib/fm35.tcl b/tclupperair/tclupperair/src/lib/fm35.tcl
index 1fb1636..54a6ad2 100755
--- a/tclupperair/tclupperair/src/lib/fm35.tcl
+++ b/tclupperair/tclupperair/src/lib/fm35.tcl
@@ -220,7 +220,7 @@ proc upperair::fm35::_decode_height_ttaa {pphhh} {
 	set h [expr $h * 10];
     } elseif {($pp == 30) || ($pp == 25)} {
 	if {$h < 500} {
-	    set h [expr $h * 10 + 1000];
+	    set h [expr $h * 10 + 10000];
 	} else {
 	    set h [expr $h * 10];
 	}
-- 
2.43.0


From b0c4f110e192d163b6c2a47d2ff22a7e7b16a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:44 +0000
Subject: [PATCH 109/115] fix: winds of 100 kt and more were decoded with the
 hundreds added to the direction

---
 tclupperair/tclupperair/src/lib/fm35.tcl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tclupperair/tclupperair/src/lib/fm35.tcl b/tclupperair/tclupperair/src/lib/fm35.tcl
index 54a6ad2..ace57fd 100755
--- a/tclupperair/tclupperair/src/lib/fm35.tcl
+++ b/tclupperair/tclupperair/src/lib/fm35.tcl
@@ -182,7 +182,7 @@ proc upperair::fm35::_decode_wind {dddff} {
 	set ws_kt [expr $speed + 200];
 	set wd_deg 5;
     } else {
-	set wd_deg $dir;
+	set wd_deg [expr $dir - ($dir % 5)];
 	set ws_kt [expr ($dir % 5)*100 + $speed];
     }
 
-- 
2.43.0


From 2091359b08012e745309283038d7bfb76f64fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:44 +0000
Subject: [PATCH 110/115] fix: the maximum wind of a sounding was read but
 never decoded

---
 tclupperair/tclupperair/src/lib/fm35.tcl | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tclupperair/tclupperair/src/lib/fm35.tcl b/tclupperair/tclupperair/src/lib/fm35.tcl
index ace57fd..88f732a 100755
--- a/tclupperair/tclupperair/src/lib/fm35.tcl
+++ b/tclupperair/tclupperair/src/lib/fm35.tcl
@@ -311,12 +311,12 @@ proc upperair::fm35::_decode_windmax {data} {
 # $p_mb $ws_kt $wd_deg
 #
     set ppppp [lindex $data 0];
-    set dddff [lindex $data 2];
+    set dddff [lindex $data 1];
     
     #
     # pressure
     #
-    if {[regexp {77(\d{3})} $ppppp match level p] == 0} {
+    if {[regexp {77(\d{3})} $ppppp match p] == 0} {
 	return -code error "Invalid 77ppp: $ppppp.";
     }
     set p_mb [_strip_zeros $p];
@@ -437,7 +437,7 @@ proc upperair::fm35::decode {body} {
 		if {[string range $d 2 5] eq "999"} {
 		    break;
 		}
-		set level "maxwind";
+		set level "windmax";
 		set count 2;	# This only has two elements
 		set quit 1;     # Don't read anymore after this level
 	    } else {
@@ -475,6 +475,11 @@ proc upperair::fm35::decode {body} {
 	    [_decode_surface_tropopause $fm35_raw_data(tropopause)];
     }
 
+    if {[info exists fm35_raw_data(windmax)]} {
+	set fm35_decoded_data(windmax) \
+	    [_decode_windmax $fm35_raw_data(windmax)];
+    }
+
     foreach k [lsort -dictionary -decreasing \
 		   [array names fm35_raw_data "level,*"]] {
 	set fm35_decoded_data($k) \
@@ -506,8 +511,8 @@ proc upperair::fm35::get_levels {} {
 	lappend r "tropopause";
     }
 
-    if {[info exists fm35_decoded_data(maxwind)]} {
-	lappend r "maxwind";
+    if {[info exists fm35_decoded_data(windmax)]} {
+	lappend r "windmax";
     }
 
     return $r;
-- 
2.43.0


From 36ac9b66d5af2a4a8b198614ba8b07509d3c05d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:44 +0000
Subject: [PATCH 111/115] fix: the time of a sounding of the first nine days of
 a month lost its leading zero

---
 tclupperair/tclupperair/src/dc/fm35dc.tcl | 2 +-
 tclupperair/tclupperair/src/lib/fm35.tcl  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tclupperair/tclupperair/src/dc/fm35dc.tcl b/tclupperair/tclupperair/src/dc/fm35dc.tcl
index 78f0a15..b53f0cf 100755
--- a/tclupperair/tclupperair/src/dc/fm35dc.tcl
+++ b/tclupperair/tclupperair/src/dc/fm35dc.tcl
@@ -167,7 +167,7 @@ proc obdata_init {data} {
     
     if {[regexp {(\d{2})(\d{2})(\d)} $ddhhi match dd hh i]} {
 	if {$dd > 50} {
-	    set dd [expr $dd - 50];
+	    set dd [format "%02d" [expr $dd - 50]];
 	}
 	set record(obtime) ${dd}${hh};
     } else {
diff --git a/tclupperair/tclupperair/src/lib/fm35.tcl b/tclupperair/tclupperair/src/lib/fm35.tcl
index 88f732a..b0fcb7a 100755
--- a/tclupperair/tclupperair/src/lib/fm35.tcl
+++ b/tclupperair/tclupperair/src/lib/fm35.tcl
@@ -407,7 +407,7 @@ proc upperair::fm35::decode {body} {
 	return -code error "Invalid day/hour: $ddhhi.";
     }
     if {$dd > 50} {
-	set dd [expr $dd - 50];
+	set dd [format "%02d" [expr $dd - 50]];
 	set wind_knots_flag 1;
     } else {
 	set wind_knots_flag 0;
-- 
2.43.0


From b1ae10a7e04aa93cc689b0c81e1c3b622f36ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:44 +0000
Subject: [PATCH 112/115] fix: the temperature of a level was lost when its dew
 point was missing

---
 tclupperair/tclupperair/src/lib/fm35.tcl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tclupperair/tclupperair/src/lib/fm35.tcl b/tclupperair/tclupperair/src/lib/fm35.tcl
index b0fcb7a..e27e487 100755
--- a/tclupperair/tclupperair/src/lib/fm35.tcl
+++ b/tclupperair/tclupperair/src/lib/fm35.tcl
@@ -110,11 +110,11 @@ proc upperair::fm35::_decode_temp_dewp {tttdd} {
     # NOTE: While the raw data contains the "dewp depression"
     # this function returns the dewp temperature.
 
-    if {[regexp {/} $tttdd]} {
+    if {[regexp {/} [string range $tttdd 0 2]]} {
 	return [list [get_na] [get_na]];
     }
 
-    if {[regexp {(\d{2})(\d)(\d{2})} $tttdd match tt tt_tenth dd] == 0} {
+    if {[regexp {(\d{2})(\d)(\d{2}|//)} $tttdd match tt tt_tenth dd] == 0} {
 	return -code error "Invalid tttdd.";
     }
     set t "";
@@ -124,6 +124,10 @@ proc upperair::fm35::_decode_temp_dewp {tttdd} {
     }
     set temp_c $t;
 
+    if {$dd eq "//"} {
+	return [list $temp_c [get_na]];
+    }
+
     set d [_strip_zeros $dd];
     if {$d <= 50} {
 	set d [expr $d / 10.0];
-- 
2.43.0


From b0efd11e7494a47e1ef3f242362b8f6289c6de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:44 +0000
Subject: [PATCH 113/115] fix: the pressures of the tropopause and maximum wind
 above 100 mb are in tenths

---
 tclupperair/tclupperair/src/lib/fm35.tcl | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/tclupperair/tclupperair/src/lib/fm35.tcl b/tclupperair/tclupperair/src/lib/fm35.tcl
index e27e487..1991758 100755
--- a/tclupperair/tclupperair/src/lib/fm35.tcl
+++ b/tclupperair/tclupperair/src/lib/fm35.tcl
@@ -272,9 +272,9 @@ proc upperair::fm35::_decode_height_ttcc {pphhh} {
     return $h;
 }
 
-proc upperair::fm35::_decode_surface_tropopause {data} {
+proc upperair::fm35::_decode_surface_tropopause {part data} {
 #
-# Here "data" is a list with the three elements, for the surface or
+# Here "part" is "ttaa" or "ttcc" and "data" is a list with the three elements, for the surface or
 # tropopause levels. The decoded data is returned in the order
 #
 # $p_mb $temp_c $dewp_c $ws_kt $wd_deg
@@ -296,6 +296,9 @@ proc upperair::fm35::_decode_surface_tropopause {data} {
 	}
     } elseif {$level != 88}  {
 	return -code error "Invalid 99ppp of 88ppp: $ppppp.";
+    } elseif {$part eq "ttcc"} {
+	# above 100 mb it is reported in tenths
+	set p [format "%.1f" [expr $p / 10.0]];
     }
     set p_mb $p;
 
@@ -307,9 +310,9 @@ proc upperair::fm35::_decode_surface_tropopause {data} {
     return [list $p_mb $temp_c $dewp_c $ws_kt $wd_deg];
 }
 
-proc upperair::fm35::_decode_windmax {data} {
+proc upperair::fm35::_decode_windmax {part data} {
 #
-# Here "data" is a list with _two_ elements.
+# Here "part" is "ttaa" or "ttcc" and "data" is a list with _two_ elements.
 # The decoded data is returned in the order
 #
 # $p_mb $ws_kt $wd_deg
@@ -324,6 +327,10 @@ proc upperair::fm35::_decode_windmax {data} {
 	return -code error "Invalid 77ppp: $ppppp.";
     }
     set p_mb [_strip_zeros $p];
+    if {$part eq "ttcc"} {
+	# above 100 mb it is reported in tenths
+	set p_mb [format "%.1f" [expr $p_mb / 10.0]];
+    }
 
     set ws_kt [lindex [_decode_wind $dddff] 0];
     set wd_deg [lindex [_decode_wind $dddff] 1];
@@ -471,17 +478,17 @@ proc upperair::fm35::decode {body} {
 
     if {[info exists fm35_raw_data(surface)]} {
 	set fm35_decoded_data(surface) \
-	    [_decode_surface_tropopause $fm35_raw_data(surface)];
+	    [_decode_surface_tropopause $part $fm35_raw_data(surface)];
     }
 
     if {[info exists fm35_raw_data(tropopause)]} {
 	set fm35_decoded_data(tropopause) \
-	    [_decode_surface_tropopause $fm35_raw_data(tropopause)];
+	    [_decode_surface_tropopause $part $fm35_raw_data(tropopause)];
     }
 
     if {[info exists fm35_raw_data(windmax)]} {
 	set fm35_decoded_data(windmax) \
-	    [_decode_windmax $fm35_raw_data(windmax)];
+	    [_decode_windmax $part $fm35_raw_data(windmax)];
     }
 
     foreach k [lsort -dictionary -decreasing \
-- 
2.43.0


From daa1a94b9625da8fd8ffdbe600707f4a1bb6eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:44 +0000
Subject: [PATCH 114/115] fix: a sounding without an end mark got the header of
 the next product

---
 tclupperair/tclupperair/src/dc/fm35dc.tcl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tclupperair/tclupperair/src/dc/fm35dc.tcl b/tclupperair/tclupperair/src/dc/fm35dc.tcl
index b53f0cf..c4cf66b 100755
--- a/tclupperair/tclupperair/src/dc/fm35dc.tcl
+++ b/tclupperair/tclupperair/src/dc/fm35dc.tcl
@@ -298,6 +298,10 @@ proc process_raw_file {} {
 	# not start a line).
 
 	if {[regexp $g(wmoheader_regexp) $line match]} {
+	    # A report that is still open belongs to the previous header.
+	    if {$record(_open) == 1} {
+		obdata_end;
+	    }
 	    # split and get the wmo_time and wmo_station
 	    set wmo [::textutil::split::splitx $match];
 	    set record(wmoid) [lindex $wmo 0];
-- 
2.43.0


From b9dc18f59964f50b28af6d1a00659f74c5a52d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:07 +0000
Subject: [PATCH 115/115] fix: a surface pressure of 999 mb was taken for a
 missing level

---
 tclupperair/tclupperair/src/lib/fm35.tcl | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tclupperair/tclupperair/src/lib/fm35.tcl b/tclupperair/tclupperair/src/lib/fm35.tcl
index 1991758..e8d9c82 100755
--- a/tclupperair/tclupperair/src/lib/fm35.tcl
+++ b/tclupperair/tclupperair/src/lib/fm35.tcl
@@ -435,9 +435,6 @@ proc upperair::fm35::decode {body} {
 	if {$j == 0} {
 	    set level_index [string range $d 0 1];
 	    if {$level_index eq "99"} {
-		if {[string range $d 2 5] eq "999"} {
-		    continue;
-		}
 		set level "surface";
 	    } elseif {$level_index eq "88"} {
 		if {[string range $d 2 5] eq "999"} {
-- 
2.43.0

