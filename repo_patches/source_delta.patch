From 1db92bafc400738d5fd27954e489ce6ffaadab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 01/30] fix: deliver messages by what was sent and report their
 size in the status

An Isend without a waiting receive did not record its count and datatype,
so the receive that matched it later copied with its own (reading past the
send buffer, or in the wrong layout), and a receive posted first died on
any shorter message.  The status count was the receiver's, and only Recv
set it.
---
 copy.c     | 84 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 getcount.c | 43 ++++++++++++++++++++++++++--
 mpiP.h     |  4 +++
 probe.c    |  3 ++
 recv.c     |  7 ++---
 req.c      |  2 ++
 send.c     |  9 ++++--
 7 files changed, 144 insertions(+), 8 deletions(-)

diff --git a/copy.c b/copy.c
index f231600..0e0d1a5 100644
--- a/copy.c
+++ b/copy.c
@@ -88,5 +88,89 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
 }
 
 
+/*
+ * copy_message
+ *
+ * Deliver a point-to-point message: the data sent, in the order of the
+ * sender's typemap, fills the receiver's typemap in order.  The shorter of
+ * the two ends the copy: a message may fill part of the receive buffer.
+ *
+ * Returns the number of bytes delivered.
+ */
+
+long copy_message(void *source, int src_count, MPI_Datatype src_type,
+                  void *dest, int dest_count, MPI_Datatype dest_type)
+{
+  Datatype st = *(Datatype*) mpi_handle_to_datatype(src_type);
+  Datatype dt = *(Datatype*) mpi_handle_to_datatype(dest_type);
+  MPI_Aint src_extent, dest_extent;
+  char *sptr, *dptr;
+  long bytes = 0;
+  int si = 0, di = 0;         /* element number within the typemap */
+  int sdone = 0, ddone = 0;   /* bytes of that element already copied */
+  int slen, dlen, n;
+
+  if (!(st->committed && dt->committed))
+  {
+    fprintf(stderr, "Type not committed\n");
+    exit(-1);
+  }
+
+  if (st->count == 0 || dt->count == 0)
+    return 0;
+
+  Type_extent(st, &src_extent);
+  Type_extent(dt, &dest_extent);
+
+  sptr = source;
+  dptr = dest;
+
+  while (src_count > 0 && dest_count > 0)
+  {
+#ifdef TYPE_CHECKING
+    if (st->pairs[si].type != dt->pairs[di].type)
+    {
+      printf("copy_data: Types don't match.\n");
+      exit(1);
+    }
+#endif
+
+    slen = Simpletype_length(st->pairs[si].type);
+    dlen = Simpletype_length(dt->pairs[di].type);
+
+    n = slen - sdone;
+    if (n > dlen - ddone)
+      n = dlen - ddone;
+
+    memcpy(dptr + dt->pairs[di].disp + ddone,
+           sptr + st->pairs[si].disp + sdone, n);
 
+    bytes += n;
+    sdone += n;
+    ddone += n;
 
+    if (sdone == slen)
+    {
+      sdone = 0;
+      if (++si == st->count)
+      {
+        si = 0;
+        src_count--;
+        sptr += (long) src_extent;
+      }
+    }
+
+    if (ddone == dlen)
+    {
+      ddone = 0;
+      if (++di == dt->count)
+      {
+        di = 0;
+        dest_count--;
+        dptr += (long) dest_extent;
+      }
+    }
+  }
+
+  return bytes;
+}
diff --git a/getcount.c b/getcount.c
index 565f107..f5932a8 100644
--- a/getcount.c
+++ b/getcount.c
@@ -18,7 +18,19 @@ int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
 
 int MPI_Get_count(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  *count = status->get_count;
+  int size;
+
+  /* the status holds the number of data bytes of the message */
+
+  MPI_Type_size(datatype, &size);
+
+  if (size==0)
+    *count = (status->get_count==0) ? 0 : MPI_UNDEFINED;
+  else if (status->get_count % size != 0)
+    *count = MPI_UNDEFINED;
+  else
+    *count = status->get_count / size;
+
   return(MPI_SUCCESS);
 }
 
@@ -37,7 +49,34 @@ int FC_FUNC( mpi_get_elements , MPI_GET_ELEMENTS )
 int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
   Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
-  *count = status->get_count * dt_ptr->count;
+  long left = status->get_count;
+  int size, len, i;
+
+  MPI_Type_size(datatype, &size);
+
+  if (size==0)
+  {
+    *count = (left==0) ? 0 : MPI_UNDEFINED;
+    return(MPI_SUCCESS);
+  }
+
+  *count = (left / size) * dt_ptr->count;
+  left = left % size;
+
+  /* basic elements of the last, incomplete, item */
+
+  for (i = 0; i < dt_ptr->count && left > 0; i++)
+  {
+    len = Simpletype_length(dt_ptr->pairs[i].type);
+    if (left < len)
+    {
+      *count = MPI_UNDEFINED;   /* part of a basic element */
+      break;
+    }
+    left -= len;
+    (*count)++;
+  }
+
   return(MPI_SUCCESS);
 }
 
diff --git a/mpiP.h b/mpiP.h
index b03794f..3bb41d7 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -100,6 +100,7 @@ typedef struct
   int complete;
   int count;
   MPI_Datatype type;  /* needed for test_simple_bindexed2 */
+  long bytes;         /* data bytes delivered, for the status */
 } Req;
 
 
@@ -109,6 +110,9 @@ typedef struct
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
 
+extern long copy_message(void * source, int src_count, MPI_Datatype src_type,
+                         void * dest, int dest_count, MPI_Datatype dest_type);
+
 extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
 
diff --git a/probe.c b/probe.c
index 8b66042..25a69ac 100644
--- a/probe.c
+++ b/probe.c
@@ -25,6 +25,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
   pListitem match;
   Comm *mycomm;
   Req *sreq;
+  int size;
 
   mycomm=mpi_handle_to_ptr(comm);         /* mycomm=(Comm *)comm; */
 
@@ -53,6 +54,8 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
+	  MPI_Type_size(sreq->type,&size);
+	  status->get_count= (long) size * sreq->count;
 	}
     }
 
diff --git a/recv.c b/recv.c
index 37aa2c4..943eef5 100644
--- a/recv.c
+++ b/recv.c
@@ -62,6 +62,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
   mpi_alloc_handle(request,(void **)&rreq);
   rreq->type = datatype;
   rreq->count = count;
+  rreq->bytes = 0;
   if (source==MPI_PROC_NULL)
     {
       rreq->complete=1;
@@ -78,7 +79,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_data2(sreq->buf, count, datatype, buf, count, datatype);
+      rreq->bytes=copy_message(sreq->buf, sreq->count, sreq->type,
+                               buf, count, datatype);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
@@ -134,9 +136,6 @@ int MPI_Recv(void *buf, int count, MPI_Datatype datatype, int source,
   MPI_Irecv(buf,count,datatype,source,tag,comm,&request);
   MPI_Wait(&request,status);
 
-  if (status!=MPI_STATUS_IGNORE)
-    status->get_count = count;   // rml: shouldn't this depend on send?
-
   return(MPI_SUCCESS);
 }
 
diff --git a/req.c b/req.c
index 6049663..6975304 100644
--- a/req.c
+++ b/req.c
@@ -26,6 +26,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_TAG= MPI_ANY_TAG;
 	  status->MPI_SOURCE= MPI_ANY_SOURCE;
+	  status->get_count= 0;
 	}
       *flag=1;
       return(MPI_SUCCESS);
@@ -42,6 +43,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
+	  status->get_count= req->bytes;
 	}
 
       mpi_free_handle(*request);
diff --git a/send.c b/send.c
index b2a0475..13100f9 100644
--- a/send.c
+++ b/send.c
@@ -55,6 +55,11 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **) &sreq);
+  sreq->source=0;
+  sreq->tag=tag;
+  sreq->type=datatype;
+  sreq->count=count;
+  sreq->bytes=0;
 
 
   if (dest==MPI_PROC_NULL)
@@ -67,7 +72,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      copy_data2(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
+      rreq->bytes=copy_message(buf, count, datatype,
+                               rreq->buf, rreq->count, rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
@@ -83,7 +89,6 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   sreq->buf=buf;
-  sreq->tag=tag;
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
 
-- 
2.43.0


From 0835f9a8f87159c933c7a181593fc24926f803f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 02/30] fix: accept MPI_STATUSES_IGNORE in the array completion
 calls

Element i of the null array is not MPI_STATUS_IGNORE for i>0; any call with
two or more requests wrote through it.
---
 req.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/req.c b/req.c
index 6975304..ed36b45 100644
--- a/req.c
+++ b/req.c
@@ -6,6 +6,17 @@
  */
 
 
+/* element i of an array of statuses, which may be MPI_STATUSES_IGNORE */
+
+static MPI_Status *status_element(MPI_Status *array_of_statuses, int i)
+{
+  if (array_of_statuses==MPI_STATUSES_IGNORE)
+    return(MPI_STATUS_IGNORE);
+
+  return(&array_of_statuses[i]);
+}
+
+
 
 int FC_FUNC( mpi_test , MPI_TEST)(int *request, int *flag, int *status,
                                 int *ierror)
@@ -167,7 +178,8 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
 
   for (i=0; i<count && flag; i++)
   {
-      MPI_Test(&array_of_requests[i],&iflag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&iflag,
+               status_element(array_of_statuses,i));
 
       if (!iflag)
         *flag=0;
@@ -200,7 +212,8 @@ int MPI_Waitall(int count, MPI_Request *array_of_requests,
 
   for (i=0; i<count; i++)
     {
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&flag,
+               status_element(array_of_statuses,i));
 
       if (!flag)
         {
@@ -235,7 +248,8 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
   for (i=0; i<incount; i++)
   {
       flag=0;
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&flag,
+               status_element(array_of_statuses,i));
       
       if (flag)
 	  (*outcount)++;
-- 
2.43.0


From 935199f977905fc943b48622b10a1f81c9c0ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 03/30] fix: make MPI_Testall all or nothing

It completed (and nulled) the finished requests although it reported that
not all were complete; the loop tested the pointer, not the flag.
---
 req.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/req.c b/req.c
index ed36b45..c6466a8 100644
--- a/req.c
+++ b/req.c
@@ -174,9 +174,23 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
   int i;
   int iflag;
 
+  Req *req;
+
   *flag = 1;
 
-  for (i=0; i<count && flag; i++)
+  /* all of them have to be complete before any is completed */
+
+  for (i=0; i<count; i++)
+  {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      req=mpi_handle_to_ptr(array_of_requests[i]);
+      if (!req->complete)
+        *flag=0;
+  }
+
+  for (i=0; i<count && *flag; i++)
   {
       MPI_Test(&array_of_requests[i],&iflag,
                status_element(array_of_statuses,i));
-- 
2.43.0


From 542e839b3c30b3c056f3b4fde4bf0e50e8e08306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 04/30] fix: return the index from MPI_Testany and MPI_Waitany

The index was never set, and a null request in the array counted as the
completed one.
---
 req.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/req.c b/req.c
index c6466a8..289c20e 100644
--- a/req.c
+++ b/req.c
@@ -98,6 +98,8 @@ int FC_FUNC( mpi_waitany , MPI_WAITANY )(int *count, int *requests,
 {
 
   *ierror=MPI_Waitany(*count, (void *)requests,index,mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                   /* counts from 1 in fortran */
   return MPI_SUCCESS;
 }
 
@@ -133,6 +135,8 @@ int FC_FUNC(mpi_testany, MPI_TESTANY)
 {
   *ierr = MPI_Testany(*count, array_of_requests, index,
                       flag, mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                   /* counts from 1 in fortran */
   return MPI_SUCCESS;
 }
 
@@ -140,15 +144,29 @@ int MPI_Testany(int count,  MPI_Request *array_of_requests,
                 int *index, int *flag, MPI_Status *status)
 {
   int i;
+  int active=0;
+  MPI_Request none=MPI_REQUEST_NULL;
+
+  *index=MPI_UNDEFINED;
 
   for (i=0; i<count; i++)
     {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
       MPI_Test(&array_of_requests[i],flag,status);
 
       if (*flag)
-        return(MPI_SUCCESS);
+        {
+          *index=i;
+          return(MPI_SUCCESS);
+        }
     }
 
+  if (!active)
+    return(MPI_Test(&none,flag,status));   /* flag=1 and an empty status */
+
   /* none are completed */
 
   *flag=0;
-- 
2.43.0


From fe27dc34d336744b454bdf303c9f193220103d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 05/30] fix: return the indices from MPI_Testsome and
 MPI_Waitsome

The indices were never set, the statuses were left at the position of their
request, null requests were counted as completed, and Waitsome tested the
pointer instead of the count, so it returned with nothing complete.
---
 req.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/req.c b/req.c
index 289c20e..e296978 100644
--- a/req.c
+++ b/req.c
@@ -265,8 +265,13 @@ int FC_FUNC(mpi_testsome, MPI_TESTSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int * array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Testsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;        /* counts from 1 in fortran */
+
   return MPI_SUCCESS;
 }
 
@@ -275,18 +280,29 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
 {
   int i;
   int flag;
+  int active=0;
 
   *outcount = 0;
   for (i=0; i<incount; i++)
   {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
       flag=0;
       MPI_Test(&array_of_requests[i],&flag,
-               status_element(array_of_statuses,i));
+               status_element(array_of_statuses,*outcount));
       
       if (flag)
+        {
+          array_of_indices[*outcount]=i;
 	  (*outcount)++;
+        }
   }
 
+  if (!active)
+    *outcount=MPI_UNDEFINED;
+
   return(MPI_SUCCESS);
 
 }
@@ -299,8 +315,13 @@ int FC_FUNC(mpi_waitsome, MPI_WAITSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int *array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Waitsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;        /* counts from 1 in fortran */
+
   return MPI_SUCCESS;
 }
 
@@ -310,7 +331,7 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
   MPI_Testsome(incount, array_of_requests, outcount,
                array_of_indices, array_of_statuses);
 
-  if (!outcount)
+  if (!*outcount)
   {
     fprintf(stderr,"Waitsome: No requests complete, deadlock\n");
     abort();
-- 
2.43.0


From 0e5898e33d604b0ab557b310fec3cf641e57334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 06/30] fix: keep a pending operation alive after
 MPI_Request_free

The handle went back to the free list while the operation stayed in the
matching lists, so the next handle allocated overwrote a live request.
---
 mpiP.h |  4 ++++
 recv.c |  4 +++-
 req.c  | 19 ++++++++++++++++++-
 send.c |  4 +++-
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/mpiP.h b/mpiP.h
index 3bb41d7..095f897 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -101,6 +101,8 @@ typedef struct
   int count;
   MPI_Datatype type;  /* needed for test_simple_bindexed2 */
   long bytes;         /* data bytes delivered, for the status */
+  int handle;         /* own handle, and whether the user gave it up */
+  int freed;          /* with MPI_Request_free before completion */
 } Req;
 
 
@@ -123,6 +125,8 @@ extern void mpi_alloc_handle(int *handle, void **data);
 extern void *mpi_handle_to_ptr(int handle);
 extern void mpi_free_handle(int handle);
 
+extern void mpi_complete_req(Req *req);
+
 extern void FC_FUNC(mpi_get_fort_pointers,MPI_GET_FORT_POINTERS)(void);
 
 extern MPI_Status *mpi_c_status(int *status);
diff --git a/recv.c b/recv.c
index 943eef5..0758dc2 100644
--- a/recv.c
+++ b/recv.c
@@ -63,6 +63,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
   rreq->type = datatype;
   rreq->count = count;
   rreq->bytes = 0;
+  rreq->handle = *request;
+  rreq->freed = 0;
   if (source==MPI_PROC_NULL)
     {
       rreq->complete=1;
@@ -85,7 +87,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
 
-      sreq->complete=1;
+      mpi_complete_req(sreq);
 
 #ifdef DEBUG
       printf("Completion(recv) value=%d tag=%d\n",
diff --git a/req.c b/req.c
index e296978..200c59d 100644
--- a/req.c
+++ b/req.c
@@ -342,8 +342,17 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
 
 /***********************/
 /* Request_free:  Frees the handle and request
+ * (once the operation is complete)
  */
 
+void mpi_complete_req(Req *req)
+{
+  req->complete=1;
+
+  if (req->freed)
+    mpi_free_handle(req->handle);
+}
+
 int FC_FUNC(mpi_request_free, MPI_REQUEST_FREE)
          (int * request, int * ierr)
 {
@@ -353,7 +362,15 @@ int FC_FUNC(mpi_request_free, MPI_REQUEST_FREE)
 
 int MPI_Request_free(MPI_Request * req)
 {
-  mpi_free_handle(*req);
+  Req *myreq = mpi_handle_to_ptr(*req);
+
+  /* a pending operation still needs its Req until it has completed */
+
+  if (myreq && !myreq->complete)
+    myreq->freed = 1;
+  else
+    mpi_free_handle(*req);
+
   *req = MPI_REQUEST_NULL;
   return (MPI_SUCCESS);
 }
diff --git a/send.c b/send.c
index 13100f9..ed920f0 100644
--- a/send.c
+++ b/send.c
@@ -60,6 +60,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
   sreq->type=datatype;
   sreq->count=count;
   sreq->bytes=0;
+  sreq->handle=*request;
+  sreq->freed=0;
 
 
   if (dest==MPI_PROC_NULL)
@@ -74,9 +76,9 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
 
       rreq->bytes=copy_message(buf, count, datatype,
                                rreq->buf, rreq->count, rreq->type);
-      rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
+      mpi_complete_req(rreq);
 
       sreq->complete=1;
 
-- 
2.43.0


From 146e90355e79a38a0c08f7e621b711546d24154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 07/30] fix: report a failed allocation of a datatype

The result of malloc was used unchecked.
---
 type.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/type.c b/type.c
index 4e7d661..5a08b58 100644
--- a/type.c
+++ b/type.c
@@ -311,6 +311,13 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   temp = malloc(sizeof(Typestruct) +
                ((simpletype_count-1) * sizeof(typepair)));
 
+  if (!temp)
+  {
+    fprintf(stderr, "Type_struct: failed to allocate %d type pairs\n",
+            simpletype_count);
+    abort();
+  }
+
   temp->count = simpletype_count;
 
   i = 0;         //old type's index
-- 
2.43.0


From 4a72925cea72a60828f52c3db7205eb648f3c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:31 +0000
Subject: [PATCH 08/30] fix: define the bounds of every constructed datatype

The override flags were left uninitialised, so the extent of a new type
depended on what malloc returned; a type without entries had arbitrary
bounds, as had one whose only entry with overridden bounds is empty, and
displacements beyond the range of int were cut off.
---
 type.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/type.c b/type.c
index 5a08b58..617ff0c 100644
--- a/type.c
+++ b/type.c
@@ -147,9 +147,12 @@ int Simpletype_length(Simpletype t)
 long calc_lb(Datatype type)
 {
   int i;
-  int min_disp = INT_MAX;
+  long min_disp = LONG_MAX;
   typepair * tp;
 
+  if (type->count == 0)
+    return 0;
+
   for(i =0; i < type->count; i++)
   {
     tp =  type->pairs+i;
@@ -168,9 +171,12 @@ long calc_lb(Datatype type)
 long calc_ub(Datatype type)
 {
   int i;
-  long max_disp = INT_MIN;
+  long max_disp = LONG_MIN;
   typepair * tp;
 
+  if (type->count == 0)
+    return 0;
+
   for(i = 0; i < type->count; i++)
   {
     tp = type->pairs+i;
@@ -250,6 +256,14 @@ int Copy_type(typepair *source, typepair *dest)
 
 }
 
+/* is_marker: whether a type is MPI_LB (SIMPLE_LOWER) or MPI_UB
+ * (SIMPLE_UPPER).  A type without entries is neither.
+ */
+static int is_marker(Datatype type, Simpletype marker)
+{
+  return type->count > 0 && type->pairs[0].type == marker;
+}
+
 /*******************************************************/
 /* MPI_Type_struct is the most general type constructor that
  * does the common work other constructors.
@@ -277,14 +291,14 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
     // cases and will be skipped over
 
     temp2 = oldtypes_ptr[i];
-    if (temp2->pairs[0].type == SIMPLE_LOWER)
+    if (is_marker(temp2, SIMPLE_LOWER))
     {
       //found MPI_LB.  This is a candidate for the actual lb
       if (new_lb > displacements[i])
         new_lb = displacements[i];
       override_lower = 1;
     }
-    else if (temp2->pairs[0].type == SIMPLE_UPPER)
+    else if (is_marker(temp2, SIMPLE_UPPER))
     {
       //same as above, but ub
       if (new_ub < displacements[i])
@@ -297,11 +311,11 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
       //However it may still have overriding bounds
       //Test for these and add its size to the typemap.
 
-      if (temp2->o_lb)
+      if (temp2->o_lb && blocklens[i] > 0)
         // this type's lb has been overridden.
         // ONLY an overriding lb can be the actual lb now.
         override_lower = 1;
-      if (temp2->o_ub)
+      if (temp2->o_ub && blocklens[i] > 0)
         //same as above, but ub
         override_upper = 1;
 
@@ -331,8 +345,8 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     //test for previous MPI_LB or MPI_UB in one of the comprising types.
     //If found, skip over.
-    if (!((temp2->pairs[0].type == SIMPLE_LOWER) ||
-          (temp2->pairs[0].type == SIMPLE_UPPER)))
+    if (!(is_marker(temp2, SIMPLE_LOWER) ||
+          is_marker(temp2, SIMPLE_UPPER)))
     {
       for (j = 0; j < blocklens[i]; j++)
       {
@@ -365,6 +379,8 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   }
   //type is NOT committed
   temp->committed = 0;
+  temp->o_lb = 0;
+  temp->o_ub = 0;
 
   //assign upper and lower bounds here
   if (override_lower)
-- 
2.43.0


From bba96f4808b2a3be69cdedb8cec2192a0090505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 09/30] fix: compare overridden datatype bounds as signed
 values

MPI_Aint is unsigned here, so no displacement was ever above the initial
LONG_MIN: MPI_UB had no effect, and a negative MPI_LB was ignored.
---
 type.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/type.c b/type.c
index 617ff0c..be6bf03 100644
--- a/type.c
+++ b/type.c
@@ -278,7 +278,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   int newcount;
   char override_lower = 0, //whether to override
        override_upper = 0;
-  MPI_Aint  new_lb = LONG_MAX,
+  long new_lb = LONG_MAX,     //signed: bounds may be negative
       new_ub = LONG_MIN;
   int simpletype_count = 0; //total additional blocks for malloc
   MPI_Aint tmp_offset;      //for contiguous blocks of type
@@ -294,14 +294,14 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
     if (is_marker(temp2, SIMPLE_LOWER))
     {
       //found MPI_LB.  This is a candidate for the actual lb
-      if (new_lb > displacements[i])
+      if (new_lb > (long) displacements[i])
         new_lb = displacements[i];
       override_lower = 1;
     }
     else if (is_marker(temp2, SIMPLE_UPPER))
     {
       //same as above, but ub
-      if (new_ub < displacements[i])
+      if (new_ub < (long) displacements[i])
 	new_ub = displacements[i];
       override_upper = 1;
     }
@@ -356,9 +356,9 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
         tmp_offset = j * extent;
 
-        if (temp2->o_lb && temp2->lb+displacements[i]+tmp_offset < new_lb)
+        if (temp2->o_lb && (long) (temp2->lb+displacements[i]+tmp_offset) < new_lb)
           new_lb = temp2->lb+displacements[i]+tmp_offset;
-        if (temp2->o_ub && temp2->ub+displacements[i]+tmp_offset > new_ub)
+        if (temp2->o_ub && (long) (temp2->ub+displacements[i]+tmp_offset) > new_ub)
         {
           new_ub = temp2->ub+displacements[i]+tmp_offset;
         }
-- 
2.43.0


From 059a1f3da11d76468f70d33da4edda4861bdedec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 10/30] fix: compute copy offsets in the width of an address

Offsets beyond the range of int were cut off in the collectives and in the
copy loop.
---
 collective.c | 10 +++++-----
 copy.c       |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/collective.c b/collective.c
index 39c5361..607fd66 100644
--- a/collective.c
+++ b/collective.c
@@ -108,7 +108,7 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		void* recvbuf, int *recvcounts, int *displs,
 		MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -186,7 +186,7 @@ int MPI_Allgatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		   void* recvbuf, int *recvcounts, int *displs,
                    MPI_Datatype recvtype, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -266,7 +266,7 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
 		 MPI_Datatype sendtype, void* recvbuf, int recvcount,
 		 MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint st_extent;
 
   if (recvbuf==MPI_IN_PLACE)
@@ -449,8 +449,8 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
-  int send_offset;
-  int recv_offset;
+  MPI_Aint send_offset;
+  MPI_Aint recv_offset;
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
diff --git a/copy.c b/copy.c
index 0e0d1a5..29d16b6 100644
--- a/copy.c
+++ b/copy.c
@@ -43,7 +43,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
   int i;
-  int soffset, doffset;
+  MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
   //commit checking here, since if any datatype is used in this function
@@ -58,7 +58,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
   // A receive of less elements than sent
   // is valid, but the reverse is a violation
 
-  if (src_type->count * src_count < dest_type->count * dest_count)
+  if ((long) src_type->count * src_count < (long) dest_type->count * dest_count)
   {
     printf("copy_data: Trying to over-receive\n");
     exit(1);
-- 
2.43.0


From dc9f01d11c65f52e112c17e8c6d3d4f2f4a6fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 11/30] fix: complete the table of predefined datatypes

MPI_SIGNED_CHAR and MPI_WCHAR are declared but had no entry (null pointer),
and MPI_INTEGER16 had no length (any use ended the program).
---
 type.c       |  6 ++++++
 type.h       |  3 +++
 type_const.c | 10 +++++++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index be6bf03..0701e3f 100644
--- a/type.c
+++ b/type.c
@@ -115,6 +115,8 @@ int Simpletype_length(Simpletype t)
       return 4; break;
     case SIMPLE_FINTEGER8:
       return 8; break;
+    case SIMPLE_FINTEGER16:
+      return 16; break;
     case SIMPLE_FREAL4:
       return 4; break;
     case SIMPLE_FREAL8:
@@ -133,6 +135,10 @@ int Simpletype_length(Simpletype t)
       return sizeof(unsigned long long); break;
     case SIMPLE_OFFSET:
       return sizeof(MPI_Offset); break;
+    case SIMPLE_SCHAR:
+      return sizeof(signed char); break;
+    case SIMPLE_WCHAR:
+      return sizeof(wchar_t); break;
 
     default:
       printf("Invalid simple type\n");
diff --git a/type.h b/type.h
index f495289..069b9a2 100644
--- a/type.h
+++ b/type.h
@@ -79,6 +79,9 @@ typedef Typestruct* Datatype;
 
 #define SIMPLE_OFFSET      34
 
+#define SIMPLE_SCHAR       35
+#define SIMPLE_WCHAR       36
+
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
diff --git a/type_const.c b/type_const.c
index 6afa7f0..ca86921 100644
--- a/type_const.c
+++ b/type_const.c
@@ -161,6 +161,14 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                             .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
 			    {.disp = 0,   .type = (Simpletype) SIMPLE_OFFSET }};
 
+Typestruct TSschar = {.count=1,     .lb=0,   .ub=sizeof(signed char),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_SCHAR }};
+
+Typestruct TSwchar = {.count=1,     .lb=0,   .ub=sizeof(wchar_t),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_WCHAR }};
+
 
 
  /* RML NOTE: the order and numbering of the elements of simpletypes[] MUST match
@@ -180,7 +188,7 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                        &TSinteger2, &TSinteger4  , &TSinteger8   , &TSinteger16,  //32
                        &TSreal4	  , &TSreal8	 , &TSreal16     , &TScomplex8,   //36
                        &TScomplex16, &TScomplex32, &TSlonglong   , &TSulonglong,  //40
-                       &TSoffset
+                       &TSoffset   , &TSschar    , &TSwchar
                        };
 
 
-- 
2.43.0


From 3f6efe1276838f5902bef13e0a17a66aab124e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 12/30] fix: make MPI_Type_dup usable

It is declared in mpi.h but had no definition, and the internal Type_dup
allocated the size of a pointer and did not copy the element count.
---
 type.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 0701e3f..4bfb54a 100644
--- a/type.c
+++ b/type.c
@@ -698,7 +698,16 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
 {
   int i;
   //create a deep copy of given Datatype
-  *newtype = malloc(sizeof(oldtype));
+  *newtype = malloc(sizeof(Typestruct) +
+                    ((oldtype->count-1) * sizeof(typepair)));
+  if (!*newtype)
+  {
+    fprintf(stderr, "Type_dup: failed to allocate %d type pairs\n",
+            oldtype->count);
+    abort();
+  }
+
+  (*newtype)->count = oldtype->count;
   (*newtype)->committed = oldtype->committed;
   (*newtype)->lb = oldtype->lb;
   (*newtype)->ub = oldtype->ub;
@@ -713,6 +722,22 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
   return MPI_SUCCESS;
 }
 
+int FC_FUNC( mpi_type_dup, MPI_TYPE_DUP )(int * oldtype, int * newtype, int * ierr)
+{
+  *ierr = MPI_Type_dup(*oldtype, newtype);
+  return MPI_SUCCESS;
+}
+
+int MPI_Type_dup(MPI_Datatype oldtype, MPI_Datatype *newtype)
+{
+  Datatype old_ptr = *(Datatype*) mpi_handle_to_datatype(oldtype);
+  Datatype * new_ptr;
+
+  mpi_alloc_handle(newtype, (void**) &new_ptr);
+
+  return Type_dup(old_ptr, new_ptr);
+}
+
 /* MPI_Type_size:  Returns the sum of the lengths of each simple
  * type that makes up the data type argument
  */
-- 
2.43.0


From 28043a8af871acac297f4697689ec3ba231b5276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 13/30] fix: keep the temporary arrays of the type constructors
 off the stack

A datatype of some hundred thousand entries overran the stack.
---
 type.c | 80 +++++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/type.c b/type.c
index 4bfb54a..f87ab8b 100644
--- a/type.c
+++ b/type.c
@@ -38,6 +38,24 @@ Datatype* mpi_handle_to_datatype(int handle)
     return (Datatype*) mpi_handle_to_ptr(handle);
 }
 
+/*
+ * Temporary array of count elements.  Allocated, as the number of entries
+ * of a datatype is not limited by the size of the stack.
+ */
+static void *temp_array(int count, size_t size)
+{
+  void *ret = malloc(count > 0 ? count * size : size);
+
+  if (!ret)
+  {
+    fprintf(stderr, "mpi-serial: failed to allocate an array of %d elements\n",
+            count);
+    abort();
+  }
+
+  return ret;
+}
+
 /*
  * Calculate the epsilon value of typemap
  * using the largest element in the typemap
@@ -432,8 +450,8 @@ int FC_FUNC( mpi_type_struct, MPI_TYPE_STRUCT )
 int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                     MPI_Datatype *oldtypes,     MPI_Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes_ptr[count];
+    int i, ret;
+    Datatype * oldtypes_ptr = temp_array(count, sizeof(Datatype));
     Datatype * newtype_ptr;
 
     for (i = 0; i < count; i++)
@@ -443,8 +461,10 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     mpi_alloc_handle(newtype, (void**) &newtype_ptr);
 
-    return Type_struct(count, blocklens, displacements,
-                       oldtypes_ptr, newtype_ptr);
+    ret = Type_struct(count, blocklens, displacements,
+                      oldtypes_ptr, newtype_ptr);
+    free(oldtypes_ptr);
+    return ret;
 }
 
 /*******************************************************/
@@ -455,10 +475,10 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
 int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int i, ret;
+    int * blocklengths = temp_array(count, sizeof(int));
+    Datatype * oldtypes = temp_array(count, sizeof(Datatype));
+    MPI_Aint * offsets = temp_array(count, sizeof(MPI_Aint));
     MPI_Aint extent;
 
     //each copy is strided by the extent of the datatype.
@@ -470,7 +490,11 @@ int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
         offsets[i] = extent * i;
         oldtypes[i] = oldtype;
     }
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    free(blocklengths);
+    free(oldtypes);
+    free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_contiguous, MPI_TYPE_CONTIGUOUS )
@@ -495,10 +519,10 @@ int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype * new)
 int Type_hvector(int count, int blocklen, MPI_Aint stride,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int i, ret;
+    int * blocklengths = temp_array(count, sizeof(int));
+    Datatype * oldtypes = temp_array(count, sizeof(Datatype));
+    MPI_Aint * offsets = temp_array(count, sizeof(MPI_Aint));
     MPI_Aint extent;
 
     Type_extent(oldtype, &extent);
@@ -509,7 +533,11 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    free(blocklengths);
+    free(oldtypes);
+    free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
@@ -591,15 +619,17 @@ int MPI_Type_vector(int count, int blocklen, int stride,
 int Type_hindexed(int count, int *blocklens, MPI_Aint *displacements,
                   Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes[count];
+    int i, ret;
+    Datatype * oldtypes = temp_array(count, sizeof(Datatype));
 
     for (i = 0; i < count; i++)
     {
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    ret = Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    free(oldtypes);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hindexed, MPI_TYPE_HINDEXED )
@@ -627,9 +657,9 @@ int MPI_Type_hindexed(int count, int *blocklens, MPI_Aint * disps,
 int Type_indexed(int count, int *blocklens, int *displacements,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
+    int i, ret;
     MPI_Aint extent;
-    MPI_Aint bdisps[count];
+    MPI_Aint * bdisps = temp_array(count, sizeof(MPI_Aint));
 
     for (i = 0; i < count; i++)
     {
@@ -637,7 +667,9 @@ int Type_indexed(int count, int *blocklens, int *displacements,
         bdisps[i] = displacements[i] * extent;
     }
 
-    return Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    ret = Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    free(bdisps);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_indexed, MPI_TYPE_INDEXED )
@@ -664,13 +696,15 @@ int MPI_Type_indexed(int count, int *blocklens, int *displacements,
 int Type_create_indexed_block(int count, int blocklen, int *displacements,
 			      Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklens[count];
+    int i, ret;
+    int * blocklens = temp_array(count, sizeof(int));
 
     for (i = 0; i < count; i++)
         blocklens[i] = blocklen;
 
-    return Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    ret = Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    free(blocklens);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_create_indexed_block, MPI_TYPE_CREATE_INDEXED_BLOCK )
-- 
2.43.0


From 80d0a1c466ef6da30fb53d1de4f44211692c45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 14/30] fix: use INTEGER arguments in two fortran bindings

mpi_type_hvector and mpi_type_create_hvector read an INTEGER block length
as a long, and mpi_pack_size stored a long into an INTEGER.
---
 pack.c | 7 +++++--
 type.c | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pack.c b/pack.c
index e7efba2..6f8bbee 100644
--- a/pack.c
+++ b/pack.c
@@ -75,9 +75,12 @@ int Pack_size(int incount, Datatype datatype,
 }
 
 int FC_FUNC( mpi_pack_size, MPI_PACK_SIZE )(int * incount, int * datatype,
-                                          int * comm, MPI_Aint * size, int *ierr)
+                                          int * comm, int * size, int *ierr)
 {
-  *ierr = MPI_Pack_size(*incount, *datatype, *comm, size);
+  MPI_Aint my_size;
+
+  *ierr = MPI_Pack_size(*incount, *datatype, *comm, &my_size);
+  *size = my_size;
   return MPI_SUCCESS;
 }
 
diff --git a/type.c b/type.c
index f87ab8b..82f12be 100644
--- a/type.c
+++ b/type.c
@@ -541,7 +541,7 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, long * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_hvector(*count, *blocklen, *stride, *oldtype, newtype);
@@ -559,7 +559,7 @@ int MPI_Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_create_hvector, MPI_TYPE_CREATE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, long * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_create_hvector(*count, *blocklen, *stride, *oldtype, newtype);
-- 
2.43.0


From fc78f812d72a3546fda0a3c699182330d1f1482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:56 +0000
Subject: [PATCH 15/30] fix: keep a datatype until the operations that use it
 are complete

Pending requests remembered the handle only, so MPI_Type_free before their
completion left them with freed memory, or with whatever type got that
handle next.  MPI_Type_free also sets the handle to MPI_DATATYPE_NULL now.
---
 copy.c  |  8 ++++----
 mpiP.h  |  6 +++---
 probe.c |  3 ++-
 recv.c  |  6 ++++--
 req.c   |  2 ++
 send.c  |  8 ++++++--
 type.c  | 20 +++++++++++++++++++-
 type.h  |  5 +++++
 8 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/copy.c b/copy.c
index 29d16b6..7b33988 100644
--- a/copy.c
+++ b/copy.c
@@ -98,11 +98,11 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
  * Returns the number of bytes delivered.
  */
 
-long copy_message(void *source, int src_count, MPI_Datatype src_type,
-                  void *dest, int dest_count, MPI_Datatype dest_type)
+long copy_message(void *source, int src_count, void *src_type,
+                  void *dest, int dest_count, void *dest_type)
 {
-  Datatype st = *(Datatype*) mpi_handle_to_datatype(src_type);
-  Datatype dt = *(Datatype*) mpi_handle_to_datatype(dest_type);
+  Datatype st = src_type;
+  Datatype dt = dest_type;
   MPI_Aint src_extent, dest_extent;
   char *sptr, *dptr;
   long bytes = 0;
diff --git a/mpiP.h b/mpiP.h
index 095f897..4f96565 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -99,7 +99,7 @@ typedef struct
   int tag;
   int complete;
   int count;
-  MPI_Datatype type;  /* needed for test_simple_bindexed2 */
+  void *type;         /* Datatype (see type.h), held while pending */
   long bytes;         /* data bytes delivered, for the status */
   int handle;         /* own handle, and whether the user gave it up */
   int freed;          /* with MPI_Request_free before completion */
@@ -112,8 +112,8 @@ typedef struct
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
 
-extern long copy_message(void * source, int src_count, MPI_Datatype src_type,
-                         void * dest, int dest_count, MPI_Datatype dest_type);
+extern long copy_message(void * source, int src_count, void * src_type,
+                         void * dest, int dest_count, void * dest_type);
 
 extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
diff --git a/probe.c b/probe.c
index 25a69ac..95873d0 100644
--- a/probe.c
+++ b/probe.c
@@ -1,5 +1,6 @@
 //probe.c
 #include "mpiP.h"
+#include "type.h"
 
 static int mpi_match_send(void *r, void *tag)
 {
@@ -54,7 +55,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
-	  MPI_Type_size(sreq->type,&size);
+	  Type_size(sreq->type,&size);
 	  status->get_count= (long) size * sreq->count;
 	}
     }
diff --git a/recv.c b/recv.c
index 0758dc2..43f5c80 100644
--- a/recv.c
+++ b/recv.c
@@ -1,5 +1,6 @@
 
 #include "mpiP.h"
+#include "type.h"
 
 
 
@@ -60,7 +61,6 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **)&rreq);
-  rreq->type = datatype;
   rreq->count = count;
   rreq->bytes = 0;
   rreq->handle = *request;
@@ -74,6 +74,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       return(MPI_SUCCESS);
     }
 
+  rreq->type = *mpi_handle_to_datatype(datatype);
 
   if (( match=AP_list_search_func(mycomm->sendlist,mpi_match_send,&tag) ))
     {
@@ -82,7 +83,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
 
 //      memcpy(buf,sreq->buf,count * datatype);
       rreq->bytes=copy_message(sreq->buf, sreq->count, sreq->type,
-                               buf, count, datatype);
+                               buf, count, rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
@@ -100,6 +101,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
   rreq->buf=buf;
   rreq->tag=tag;
   rreq->complete=0;
+  Type_hold(rreq->type);
   rreq->listitem=AP_list_append(mycomm->recvlist,rreq);
 
 #ifdef INFO
diff --git a/req.c b/req.c
index 200c59d..71f020c 100644
--- a/req.c
+++ b/req.c
@@ -1,4 +1,5 @@
 #include "mpiP.h"
+#include "type.h"
 
 
 /*
@@ -348,6 +349,7 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
 void mpi_complete_req(Req *req)
 {
   req->complete=1;
+  Type_release(req->type);
 
   if (req->freed)
     mpi_free_handle(req->handle);
diff --git a/send.c b/send.c
index ed920f0..d8938ae 100644
--- a/send.c
+++ b/send.c
@@ -1,4 +1,5 @@
 #include "mpiP.h"
+#include "type.h"
 
 
 /*
@@ -57,7 +58,6 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
   mpi_alloc_handle(request,(void **) &sreq);
   sreq->source=0;
   sreq->tag=tag;
-  sreq->type=datatype;
   sreq->count=count;
   sreq->bytes=0;
   sreq->handle=*request;
@@ -69,12 +69,15 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       sreq->complete=1;
       return(MPI_SUCCESS);
     }
+
+  sreq->type=*mpi_handle_to_datatype(datatype);
+
   if (( match=AP_list_search_func(mycomm->recvlist,mpi_match_recv,&tag)))
     {
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      rreq->bytes=copy_message(buf, count, datatype,
+      rreq->bytes=copy_message(buf, count, sreq->type,
                                rreq->buf, rreq->count, rreq->type);
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
@@ -92,6 +95,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
 
   sreq->buf=buf;
   sreq->complete=0;
+  Type_hold(sreq->type);
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
 
 #ifdef INFO
diff --git a/type.c b/type.c
index 82f12be..8933aa3 100644
--- a/type.c
+++ b/type.c
@@ -405,6 +405,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   temp->committed = 0;
   temp->o_lb = 0;
   temp->o_ub = 0;
+  temp->refs = 1;
 
   //assign upper and lower bounds here
   if (override_lower)
@@ -741,6 +742,7 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
     abort();
   }
 
+  (*newtype)->refs = 1;
   (*newtype)->count = oldtype->count;
   (*newtype)->committed = oldtype->committed;
   (*newtype)->lb = oldtype->lb;
@@ -892,6 +894,21 @@ int MPI_Type_commit(MPI_Datatype * datatype)
   return MPI_SUCCESS;
 }
 
+/* Type_hold, Type_release: a pending operation keeps its datatype until it
+ * completes, even if the user frees the handle before.
+ */
+void Type_hold(Datatype datatype)
+{
+  if (datatype->refs > 0)
+    datatype->refs++;
+}
+
+void Type_release(Datatype datatype)
+{
+  if (datatype->refs > 0 && --datatype->refs == 0)
+    free(datatype);
+}
+
 /**********************/
 int FC_FUNC( mpi_type_free, MPI_TYPE_FREE )(int * datatype, int * ierr)
 {
@@ -902,10 +919,11 @@ int FC_FUNC( mpi_type_free, MPI_TYPE_FREE )(int * datatype, int * ierr)
 int MPI_Type_free(MPI_Datatype * datatype)
 {
   Datatype type_ptr = *(Datatype*) mpi_handle_to_datatype(*datatype);
-  free(type_ptr);
+  Type_release(type_ptr);
   type_ptr = MPI_DATATYPE_NULL;
 
   mpi_free_handle(*datatype);
+  *datatype = MPI_DATATYPE_NULL;
 
   return MPI_SUCCESS;
 }
diff --git a/type.h b/type.h
index 069b9a2..69ad9e2 100644
--- a/type.h
+++ b/type.h
@@ -28,6 +28,7 @@ typedef struct
   int committed; //type has been committed
   int o_lb; //overridden lower/upper bound
   int o_ub; // "
+  int refs; //handle + pending operations (0: predefined, never freed)
   /* pairs[] is size 2 because of predefined types
    * such as MPI_2INT that have 2 typemap entries
    * upon initialization.
@@ -85,6 +86,7 @@ typedef Typestruct* Datatype;
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
+int Type_size(Datatype type, int * size);
 
 //testing only
 int print_typemap(MPI_Datatype in);
@@ -121,6 +123,9 @@ int print_typemap(MPI_Datatype in);
 const extern Datatype simpletypes[];
 Datatype* mpi_handle_to_datatype(int handle);
 
+extern void Type_hold(Datatype datatype);
+extern void Type_release(Datatype datatype);
+
 extern int Unpack(void * inbuf, int insize, int * position, void *outbuf,
                   int outcount, Datatype type, Comm* comm);
 extern int Pack(void *inbuf, int incount, Datatype type,
-- 
2.43.0


From 3c7b50c4087755b105d55e2d250a66dd8c7f56d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:03 +0000
Subject: [PATCH 16/30] fix: do not print a debug line in MPI_Pack_size

---
 pack.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pack.c b/pack.c
index 6f8bbee..74b1543 100644
--- a/pack.c
+++ b/pack.c
@@ -70,7 +70,6 @@ int Pack_size(int incount, Datatype datatype,
         *size += Simpletype_length(datatype->pairs[i].type);
     }
     *size *= incount;
-    printf("Size = %d\n", *size);
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 42aec230aa7fbcbd61fe3f453713c1c16c9c2fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:10 +0000
Subject: [PATCH 17/30] fix: honour MPI_IN_PLACE in every collective that
 allows it

Reduce, Reduce_scatter, Scan and the Alltoall family took it for an address,
and their fortran bindings (and Allreduce's) did not recognise it.
---
 collective.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/collective.c b/collective.c
index 607fd66..ef0e338 100644
--- a/collective.c
+++ b/collective.c
@@ -300,7 +300,7 @@ int FC_FUNC( mpi_reduce , MPI_REDUCE )
 			 int *datatype, int *op, int *root, int *comm,
 			 int *ierror)
 {
-  *ierror=MPI_Reduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Reduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 		     *datatype, *op, *root, *comm);
   return MPI_SUCCESS;
 }
@@ -317,6 +317,9 @@ int MPI_Reduce(void* sendbuf, void* recvbuf, int count,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 //  memcpy(recvbuf,sendbuf,count * datatype);
 
@@ -331,7 +334,7 @@ int FC_FUNC( mpi_allreduce , MPI_ALLREDUCE )
                           ( void *sendbuf, void *recvbuf, int *count,
 			    int *datatype, int *op, int *comm, int *ierror)
 {
-  *ierror=MPI_Allreduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Allreduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 			*datatype, *op, *comm);
   return MPI_SUCCESS;
 
@@ -364,7 +367,8 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
                 (void * sendbuf, void * recvbuf, int *recvcounts,
                  int *datatype, int *op, int *comm, int *ierr)
 {
-  *ierr = MPI_Reduce_scatter(sendbuf, recvbuf, recvcounts, *datatype, *op, *comm);
+  *ierr = MPI_Reduce_scatter(mpi_c_in_place(sendbuf), recvbuf,
+                             recvcounts, *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
 
@@ -372,6 +376,9 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
 int MPI_Reduce_scatter(void* sendbuf, void* recvbuf, int *recvcounts,
                          MPI_Datatype datatype, MPI_Op op, MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, recvcounts[0], datatype, recvbuf, recvcounts[0], datatype);
   return MPI_SUCCESS;
 }
@@ -385,7 +392,7 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
                          int *datatype, int *op, int *comm,
                          int *ierror)
 {
-  *ierror=MPI_Scan( sendbuf, recvbuf, *count,
+  *ierror=MPI_Scan( mpi_c_in_place(sendbuf), recvbuf, *count,
                     *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
@@ -395,6 +402,9 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
 int MPI_Scan(void* sendbuf, void* recvbuf, int count,
              MPI_Datatype datatype, MPI_Op op, MPI_Comm comm )
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
     copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 
     return(MPI_SUCCESS);
@@ -408,7 +418,7 @@ int FC_FUNC( mpi_alltoall , MPI_ALLTOALL )
 			  void *recvbuf, int *recvcount, int *recvtype,
                           int *comm, int *ierror )
 {
-  *ierror=MPI_Alltoall(sendbuf, *sendcount, *sendtype,
+  *ierror=MPI_Alltoall(mpi_c_in_place(sendbuf), *sendcount, *sendtype,
 		       recvbuf, *recvcount, *recvtype,
 		       *comm);
   return MPI_SUCCESS;
@@ -419,6 +429,9 @@ int MPI_Alltoall(void *sendbuf, int sendcount, MPI_Datatype sendtype,
 		 void *recvbuf, int recvcount, MPI_Datatype recvtype,
 		 MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype, recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount * sendtype);
 
@@ -435,7 +448,7 @@ int FC_FUNC( mpi_alltoallv , MPI_ALLTOALLV )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallv(sendbuf, sendcounts, sdispls, *sendtype,
+  *ierror=MPI_Alltoallv(mpi_c_in_place(sendbuf), sendcounts, sdispls, *sendtype,
 			recvbuf, recvcounts, rdispls, *recvtype,
 			*comm);
 
@@ -454,6 +467,9 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   MPI_Type_extent(recvtype, &rt_extent);
 
@@ -480,7 +496,7 @@ int FC_FUNC( mpi_alltoallw , MPI_ALLTOALLW )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallw(sendbuf, sendcounts, sdispls, sendtypes,
+  *ierror=MPI_Alltoallw(mpi_c_in_place(sendbuf), sendcounts, sdispls, sendtypes,
 			recvbuf, recvcounts, rdispls, recvtypes,
 			*comm);
 
@@ -496,6 +512,9 @@ int MPI_Alltoallw(void *sendbuf, int *sendcounts,
 
 {
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2((char*)sendbuf+sdispls[0], sendcounts[0], sendtypes[0],
              (char*)recvbuf+rdispls[0], recvcounts[0], recvtypes[0]);
 
-- 
2.43.0


From 95d402ced64b0831e2387fa6e7f7f1897d8830c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 18/30] fix: return a communicator from MPI_Intercomm_merge

The output argument was never set.
---
 ic_merge.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ic_merge.c b/ic_merge.c
index e6465c1..1c3dcbc 100644
--- a/ic_merge.c
+++ b/ic_merge.c
@@ -4,12 +4,11 @@
 /*
  * MPI_Intercomm_merge - Creates an intracommunicator from an intercommunicator
  * This is just a stub for now to support mpi function calls even in Serial
- * applications. In the case of a serial program, this function is a no-op and
- * only ever returns MPI_SUCCESS
+ * applications. In the case of a serial program, the merged communicator is a
+ * duplicate of the one given.
  */
 
 int MPI_Intercomm_merge( MPI_Comm intercomm, int high, MPI_Comm *newintracomm )
 {
-  newintracomm =  &intercomm;
-  return(MPI_SUCCESS);
+  return(MPI_Comm_dup(intercomm, newintracomm));
 }
-- 
2.43.0


From 14fd711eece909e5eaad8a6d9ac77e4d0d5984b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:57 +0000
Subject: [PATCH 19/30] fix: do not grant MPI_THREAD_MULTIPLE

MPI_Init_thread returned whatever was asked for, but nothing in the library
is protected against concurrent calls.
---
 fort.F90 | 2 +-
 mpi.c    | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/fort.F90 b/fort.F90
index d8da36b..b58ebfd 100644
--- a/fort.F90
+++ b/fort.F90
@@ -2,7 +2,7 @@
           implicit none
           integer, intent(in) :: required
           integer, intent(out) :: provided, ierror
-          provided = required
+          provided = min(required, 2)     ! MPI_THREAD_SERIALIZED
           call mpi_init(ierror)
           return
         end subroutine mpi_init_thread
diff --git a/mpi.c b/mpi.c
index 08417cf..d9f86c4 100644
--- a/mpi.c
+++ b/mpi.c
@@ -158,6 +158,8 @@ int FC_FUNC( mpi_init_fort , MPI_INIT_FORT)
 int MPI_Init_thread(int *argc, char **argv[], int required, int *provided)
 {
     *provided = required;
+    if (required > MPI_THREAD_SERIALIZED)    /* nothing here is locked */
+        *provided = MPI_THREAD_SERIALIZED;
     return MPI_Init(argc, argv);
 }
 
-- 
2.43.0


From e9a508b10945323c02be6da38e583d98957bd8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 20/30] fix: let MPI_Probe and MPI_Iprobe accept MPI_PROC_NULL

They ended the program; the other point-to-point calls accept it.  Also
make the INFO trace line of MPI_Iprobe compile.
---
 probe.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/probe.c b/probe.c
index 95873d0..d3dc885 100644
--- a/probe.c
+++ b/probe.c
@@ -32,11 +32,22 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 
 #ifdef INFO
   fflush(stdout);
-  fprintf(stderr,"MPI_IProbev: Comm=%d  tag=%d  count=%d type=%d\n",
-         mycomm->num,tag,count,datatype);
+  fprintf(stderr,"MPI_IProbev: Comm=%d  tag=%d\n",mycomm->num,tag);
 #endif
 
 
+  if (source==MPI_PROC_NULL)
+    {
+      *flag=1;
+      if (status!=MPI_STATUS_IGNORE)
+	{
+	  status->MPI_SOURCE= MPI_PROC_NULL;
+	  status->MPI_TAG= MPI_ANY_TAG;
+	  status->get_count= 0;
+	}
+      return(MPI_SUCCESS);
+    }
+
   if (source!=0 && source!=MPI_ANY_SOURCE)
     {
       fprintf(stderr,"MPI_Irecv: bad source %d\n",source);
-- 
2.43.0


From 6bea393758c12db7d1ee27075df03cc29e51dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 21/30] fix: write the fatal messages of the topology calls to
 stderr

They were buffered on stdout and lost in the abort that follows.
---
 cart.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cart.c b/cart.c
index ee8ea0b..37a91d2 100644
--- a/cart.c
+++ b/cart.c
@@ -24,7 +24,7 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
   for (i = 0; i < ndims; i++)
     if (dims[i] > 1)
     {
-      printf("MPI_Cart_create: Greater dimension than no. of procs\n");
+      fprintf(stderr,"MPI_Cart_create: Greater dimension than no. of procs\n");
       abort();
     }
 
@@ -90,7 +90,7 @@ int MPI_Cart_coords(MPI_Comm comm, int rank, int maxdims, int *coords)
 
   if (rank != 0)
   {
-    printf("MPI_Cart_coords: Rank != 0\n");
+    fprintf(stderr,"MPI_Cart_coords: Rank != 0\n");
     abort();
   }
 
@@ -122,7 +122,7 @@ int MPI_Dims_create(int nnodes, int ndims, int *dims)
 
   if (nnodes > 1)
   {
-    printf("MPI_Dims_create: More nodes than procs specified.\n");
+    fprintf(stderr,"MPI_Dims_create: More nodes than procs specified.\n");
     abort();
   }
 
-- 
2.43.0


From 7272e405e50705121bf4967fb48fd3bced2d796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 22/30] fix: return the periods from MPI_Cart_get

They were left unset; remember them with the communicator.
---
 cart.c | 15 ++++++++++++++-
 comm.c | 15 +++++++++++++++
 mpiP.h |  3 +++
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/cart.c b/cart.c
index 37a91d2..2898d64 100644
--- a/cart.c
+++ b/cart.c
@@ -21,6 +21,8 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
                      int reorder, MPI_Comm *comm_cart)
 {
   int i;
+  Comm *cptr;
+
   for (i = 0; i < ndims; i++)
     if (dims[i] > 1)
     {
@@ -28,7 +30,15 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
       abort();
     }
 
-  MPI_Comm_dup(comm_old, comm_cart);
+  *comm_cart=mpi_comm_new();
+
+  if (ndims > 0)
+  {
+    cptr=mpi_handle_to_ptr(*comm_cart);
+    cptr->periods=mpi_malloc(ndims * sizeof(int));
+    memcpy(cptr->periods, periods, ndims * sizeof(int));
+    cptr->ndims=ndims;
+  }
 
   return MPI_SUCCESS;
 }
@@ -58,9 +68,12 @@ int MPI_Cart_get(MPI_Comm comm, int maxdims, int *dims,
                  int *periods, int *coords)
 {
   int i;
+  Comm *cptr=mpi_handle_to_ptr(comm);
+
   for (i=0;i<maxdims;i++)
   {
     dims[i]=1;
+    periods[i]= (cptr && i < cptr->ndims) ? cptr->periods[i] : 0;
     coords[i]=0;
   }
   return(MPI_SUCCESS);
diff --git a/comm.c b/comm.c
index c9c1ecb..cec3a2a 100644
--- a/comm.c
+++ b/comm.c
@@ -23,6 +23,9 @@ MPI_Comm mpi_comm_new(void)
 
   cptr->num=num++;
 
+  cptr->ndims=0;
+  cptr->periods=NULL;
+
   return(chandle);
 }
 
@@ -71,6 +74,7 @@ int MPI_Comm_free(MPI_Comm *comm)
 	    size);
   AP_list_free(recvlist);
 
+  mpi_free(mycomm->periods);
   mpi_free_handle(*comm);            /* free(mycomm); */
   *comm=MPI_COMM_NULL;
 
@@ -131,8 +135,19 @@ int FC_FUNC( mpi_comm_dup , MPI_COMM_DUP )(int *comm, int *newcomm, int *ierror)
 
 int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *newcomm)
 {
+  Comm *old, *new;
+
   *newcomm= mpi_comm_new();
 
+  old=mpi_handle_to_ptr(comm);
+  if (old && old->ndims>0)
+    {
+      new=mpi_handle_to_ptr(*newcomm);
+      new->periods=mpi_malloc(old->ndims * sizeof(int));
+      memcpy(new->periods, old->periods, old->ndims * sizeof(int));
+      new->ndims=old->ndims;
+    }
+
 #ifdef INFO
   fflush(stdout);
   fprintf(stderr,"MPI_Comm_dup: new comm handle=%d\n",*newcomm);
diff --git a/mpiP.h b/mpiP.h
index 4f96565..6d06ccc 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -86,6 +86,9 @@ typedef struct
 
   int num;
 
+  int ndims;        /* cartesian topology, if any */
+  int *periods;
+
 } Comm;
 
 
-- 
2.43.0


From 3cdc70f723b9337eac15c424cb002a74025d5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:55 +0000
Subject: [PATCH 23/30] fix: report the size of messages beyond 2 GiB in the
 status

---
 getcount.c | 46 +++++++++++++++++++++++++++++++++++++---------
 mpi.h      |  3 ++-
 mpiP.h     |  2 ++
 mpif.h     |  4 ++--
 probe.c    |  4 ++--
 req.c      |  4 ++--
 6 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/getcount.c b/getcount.c
index f5932a8..1d0ad49 100644
--- a/getcount.c
+++ b/getcount.c
@@ -4,10 +4,36 @@
  * Functions for count information regarding MPI_Status
  */
 
+#include <limits.h>
 #include "type.h"
 #include "mpiP.h"
 
 
+/* The status holds the number of data bytes of the message, which may
+ * be more than an int can hold.
+ */
+
+void mpi_status_set_bytes(MPI_Status *status, long bytes)
+{
+  status->get_count = bytes & 0x7fffffff;
+  status->get_count_hi = bytes >> 31;
+}
+
+
+static long status_bytes(MPI_Status *status)
+{
+  return(((long) status->get_count_hi << 31) + status->get_count);
+}
+
+
+/* result of a count query: MPI_UNDEFINED if it does not fit */
+
+static int count_result(long count)
+{
+  return(count > INT_MAX ? MPI_UNDEFINED : count);
+}
+
+
 int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
 	 (int *status, int *datatype, int *count, int *ierr)
 {
@@ -18,18 +44,17 @@ int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
 
 int MPI_Get_count(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
+  long bytes = status_bytes(status);
   int size;
 
-  /* the status holds the number of data bytes of the message */
-
   MPI_Type_size(datatype, &size);
 
   if (size==0)
-    *count = (status->get_count==0) ? 0 : MPI_UNDEFINED;
-  else if (status->get_count % size != 0)
+    *count = (bytes==0) ? 0 : MPI_UNDEFINED;
+  else if (bytes % size != 0)
     *count = MPI_UNDEFINED;
   else
-    *count = status->get_count / size;
+    *count = count_result(bytes / size);
 
   return(MPI_SUCCESS);
 }
@@ -49,7 +74,8 @@ int FC_FUNC( mpi_get_elements , MPI_GET_ELEMENTS )
 int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
   Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
-  long left = status->get_count;
+  long left = status_bytes(status);
+  long elements;
   int size, len, i;
 
   MPI_Type_size(datatype, &size);
@@ -60,7 +86,7 @@ int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
     return(MPI_SUCCESS);
   }
 
-  *count = (left / size) * dt_ptr->count;
+  elements = (left / size) * dt_ptr->count;
   left = left % size;
 
   /* basic elements of the last, incomplete, item */
@@ -71,12 +97,14 @@ int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
     if (left < len)
     {
       *count = MPI_UNDEFINED;   /* part of a basic element */
-      break;
+      return(MPI_SUCCESS);
     }
     left -= len;
-    (*count)++;
+    elements++;
   }
 
+  *count = count_result(elements);
+
   return(MPI_SUCCESS);
 }
 
diff --git a/mpi.h b/mpi.h
index 82cff25..80f34a7 100644
--- a/mpi.h
+++ b/mpi.h
@@ -185,7 +185,8 @@ typedef struct                  /* Fortran: INTEGER status(MPI_STATUS_SIZE) */
   MPI_Status_int MPI_SOURCE;    /* Fortran: status(MPI_SOURCE) */
   MPI_Status_int MPI_TAG;       /* Fortran: status(MPI_TAG) */
   MPI_Status_int MPI_ERROR;     /* Fortran: status(MPI_ERROR) */
-  int            get_count;     /* Number specified for send */
+  int            get_count;     /* Number of bytes: lower 31 bits, */
+  int            get_count_hi;  /*   and the bits above */
 
 } MPI_Status;
 
diff --git a/mpiP.h b/mpiP.h
index 6d06ccc..4922cb3 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -132,6 +132,8 @@ extern void mpi_complete_req(Req *req);
 
 extern void FC_FUNC(mpi_get_fort_pointers,MPI_GET_FORT_POINTERS)(void);
 
+extern void mpi_status_set_bytes(MPI_Status *status, long bytes);
+
 extern MPI_Status *mpi_c_status(int *status);
 extern MPI_Status *mpi_c_statuses(int *statuses);
 extern void *mpi_c_in_place(void *buffer);
diff --git a/mpif.h b/mpif.h
index aa0009c..a003d5d 100644
--- a/mpif.h
+++ b/mpif.h
@@ -132,11 +132,11 @@ parameter (MPI_BOTTOM=0)
 
 
   INTEGER MPI_STATUS_SIZE
-  PARAMETER (MPI_STATUS_SIZE=4)
+  PARAMETER (MPI_STATUS_SIZE=5)
 
   INTEGER MPI_SOURCE, MPI_TAG, MPI_ERROR
   PARAMETER(MPI_SOURCE=1, MPI_TAG=2, MPI_ERROR=3)
-  ! There is a 4th value only used internally
+  ! There are a 4th and a 5th value only used internally
 
   INTEGER MPI_STATUS_IGNORE(MPI_STATUS_SIZE)
   INTEGER MPI_STATUSES_IGNORE(MPI_STATUS_SIZE,1)
diff --git a/probe.c b/probe.c
index d3dc885..15668f4 100644
--- a/probe.c
+++ b/probe.c
@@ -43,7 +43,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE= MPI_PROC_NULL;
 	  status->MPI_TAG= MPI_ANY_TAG;
-	  status->get_count= 0;
+	  mpi_status_set_bytes(status,0);
 	}
       return(MPI_SUCCESS);
     }
@@ -67,7 +67,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
 	  Type_size(sreq->type,&size);
-	  status->get_count= (long) size * sreq->count;
+	  mpi_status_set_bytes(status,(long) size * sreq->count);
 	}
     }
 
diff --git a/req.c b/req.c
index 71f020c..1bbe8e1 100644
--- a/req.c
+++ b/req.c
@@ -38,7 +38,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_TAG= MPI_ANY_TAG;
 	  status->MPI_SOURCE= MPI_ANY_SOURCE;
-	  status->get_count= 0;
+	  mpi_status_set_bytes(status,0);
 	}
       *flag=1;
       return(MPI_SUCCESS);
@@ -55,7 +55,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
-	  status->get_count= req->bytes;
+	  mpi_status_set_bytes(status,req->bytes);
 	}
 
       mpi_free_handle(*request);
-- 
2.43.0


From 3f5079a7eff70cccd06ba7d4238deb06ea6bf2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:55 +0000
Subject: [PATCH 24/30] fix: count the elements of a collective copy in a long

---
 copy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copy.c b/copy.c
index 7b33988..df6f816 100644
--- a/copy.c
+++ b/copy.c
@@ -42,7 +42,7 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
 int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
-  int i;
+  long i;
   MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
@@ -67,7 +67,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
   Type_extent(src_type, &src_extent);
   Type_extent(dest_type, &dest_extent);
 
-  for (i = 0; i < dest_count * dest_type->count; i++)
+  for (i = 0; i < (long) dest_count * dest_type->count; i++)
   {
 
 #ifdef TYPE_CHECKING
-- 
2.43.0


From c359fdbc88494ef8914642c4422143806e6d8082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:55 +0000
Subject: [PATCH 25/30] fix: check the pack buffer bounds without overflowing
 an int

---
 pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack.c b/pack.c
index 74b1543..d2feba0 100644
--- a/pack.c
+++ b/pack.c
@@ -46,7 +46,7 @@ int Pack(void *inbuf, int incount, Datatype type,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > outsize)
+      if (Simpletype_length(type->pairs[j].type) > outsize - (*position))
       {
         printf("MPI_Pack: data exceeds buffer size\n");
         exit(1);
@@ -137,7 +137,7 @@ int Unpack(void * inbuf, int insize, int * position, void *outbuf,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > insize)
+      if (Simpletype_length(type->pairs[j].type) > insize - (*position))
       {
         printf("MPI_Unpack: Data exceeds buffer size\n");
 	exit(1);
-- 
2.43.0


From 0a9c53982306ff92124310eb8490997d85c497b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 26/30] fix: check the root of in-place rooted collectives

---
 collective.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/collective.c b/collective.c
index ef0e338..e22dcef 100644
--- a/collective.c
+++ b/collective.c
@@ -69,9 +69,6 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 	       void* recvbuf, int recvcount, MPI_Datatype recvtype,
 	       int root, MPI_Comm comm)
 {
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -81,6 +78,9 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount*sendtype);
@@ -111,9 +111,6 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
   MPI_Aint offset;
   MPI_Aint rt_extent;
 
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -123,6 +120,9 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(recvtype, &rt_extent);
   offset=displs[0]*rt_extent;
 
@@ -226,9 +226,6 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
 		void * recvbuf, int recvcount, MPI_Datatype recvtype,
 		int root, MPI_Comm comm)
 {
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -238,6 +235,9 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 
@@ -269,9 +269,6 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
   MPI_Aint offset;
   MPI_Aint st_extent;
 
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -280,6 +277,10 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
       fprintf(stderr,"MPI_Scatterv: bad root = %d\n",root);
       abort();
     }
+
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   offset=displs[0]*st_extent;
 
-- 
2.43.0


From af314d0b3cb3b14347abb23eff058d73044c1c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 27/30] fix: diagnose a typemap too long for an int

---
 type.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/type.c b/type.c
index 8933aa3..32e6137 100644
--- a/type.c
+++ b/type.c
@@ -304,7 +304,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
        override_upper = 0;
   long new_lb = LONG_MAX,     //signed: bounds may be negative
       new_ub = LONG_MIN;
-  int simpletype_count = 0; //total additional blocks for malloc
+  long simpletype_count = 0; //total additional blocks for malloc
   MPI_Aint tmp_offset;      //for contiguous blocks of type
   MPI_Aint extent;
 
@@ -343,7 +343,14 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
         //same as above, but ub
         override_upper = 1;
 
-      simpletype_count += blocklens[i] * oldtypes_ptr[i]->count;
+      simpletype_count += (long) blocklens[i] * oldtypes_ptr[i]->count;
+
+      if (simpletype_count > INT_MAX)
+      {
+        fprintf(stderr, "Type_struct: too many type pairs (%ld)\n",
+                simpletype_count);
+        abort();
+      }
     }
   }
   temp = malloc(sizeof(Typestruct) +
@@ -351,7 +358,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
   if (!temp)
   {
-    fprintf(stderr, "Type_struct: failed to allocate %d type pairs\n",
+    fprintf(stderr, "Type_struct: failed to allocate %ld type pairs\n",
             simpletype_count);
     abort();
   }
-- 
2.43.0


From c9e2a6d70feca68d7a6f23f0a902cb7d066e88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 28/30] fix: let a packed message match any type when built
 with type checking

---
 copy.c       | 5 ++++-
 type.c       | 2 ++
 type.h       | 2 ++
 type_const.c | 2 +-
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/copy.c b/copy.c
index df6f816..d539083 100644
--- a/copy.c
+++ b/copy.c
@@ -128,7 +128,10 @@ long copy_message(void *source, int src_count, void *src_type,
   while (src_count > 0 && dest_count > 0)
   {
 #ifdef TYPE_CHECKING
-    if (st->pairs[si].type != dt->pairs[di].type)
+    /* a packed message matches any type, on either side */
+    if (st->pairs[si].type != dt->pairs[di].type &&
+        st->pairs[si].type != SIMPLE_PACKED &&
+        dt->pairs[di].type != SIMPLE_PACKED)
     {
       printf("copy_data: Types don't match.\n");
       exit(1);
diff --git a/type.c b/type.c
index 32e6137..a6d2e55 100644
--- a/type.c
+++ b/type.c
@@ -111,6 +111,8 @@ int Simpletype_length(Simpletype t)
       return sizeof(long double); break;
     case SIMPLE_BYTE:
       return sizeof(char); break;
+    case SIMPLE_PACKED:
+      return sizeof(char); break;
     case SIMPLE_FINTEGER:
       return FSIZE_INTEGER; break;
     case SIMPLE_FREAL:
diff --git a/type.h b/type.h
index 69ad9e2..e15af73 100644
--- a/type.h
+++ b/type.h
@@ -83,6 +83,8 @@ typedef Typestruct* Datatype;
 #define SIMPLE_SCHAR       35
 #define SIMPLE_WCHAR       36
 
+#define SIMPLE_PACKED      37
+
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
diff --git a/type_const.c b/type_const.c
index ca86921..78237a5 100644
--- a/type_const.c
+++ b/type_const.c
@@ -42,7 +42,7 @@
   Typestruct TSbyte = { .count = 1, .lb = 0, .ub = sizeof(char), .committed = 1,
    .o_lb = 0, .o_ub = 0, .pairs[0] = { .disp = 0, .type = (Simpletype) SIMPLE_BYTE } };
   Typestruct TSpacked = { .count = 1, .lb = 0, .ub = sizeof(char), .committed = 1,
-   .o_lb = 0, .o_ub = 0, .pairs[0] = { .disp = 0, .type = (Simpletype) SIMPLE_BYTE } };
+   .o_lb = 0, .o_ub = 0, .pairs[0] = { .disp = 0, .type = (Simpletype) SIMPLE_PACKED } };
   Typestruct TSlower = { .count = 1, .lb = 0, .ub = 0, .committed = 1,
    .o_lb = 0, .o_ub = 0, .pairs[0] = { .disp = 0, .type = (Simpletype) SIMPLE_LOWER } };
   Typestruct TSupper = { .count = 1, .lb = 0, .ub = 0, .committed = 1,
-- 
2.43.0


From ed684b4d28da2044d9759885c6b234ab672d2fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 29/30] fix: ignore MPI_LB and MPI_UB in an empty block of
 MPI_Type_struct

---
 type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/type.c b/type.c
index a6d2e55..22155e3 100644
--- a/type.c
+++ b/type.c
@@ -316,6 +316,9 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
     //check for MPI_UB or MPI_LB.  These types are special
     // cases and will be skipped over
 
+    if (blocklens[i] == 0)
+      continue;         //an empty block adds nothing, not even a bound
+
     temp2 = oldtypes_ptr[i];
     if (is_marker(temp2, SIMPLE_LOWER))
     {
-- 
2.43.0


From 416d928a126b50e44cbc898180b2a621e7eae159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 30/30] fix: let Fortran receive MPI_WTIME as the C double it
 is, whatever DOUBLE PRECISION means

---
 mpif.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpif.h b/mpif.h
index a003d5d..f7418b4 100644
--- a/mpif.h
+++ b/mpif.h
@@ -299,7 +299,7 @@ parameter (MPI_BOTTOM=0)
   ! MPI_Wtime
   !
 
-  DOUBLE PRECISION MPI_WTIME
+  REAL(KIND=selected_real_kind(13)) MPI_WTIME   ! a C double
   EXTERNAL MPI_WTIME
 
 
-- 
2.43.0

