From f9ce1535ae93f355fb274f6cc425f3ad6ed33e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:45 +0000
Subject: [PATCH 001/107] fix: do not invert ASCII PGM and PPM images with a
 maxval of 1

---
 src/input-pnm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 6d34a83..ac0f77d 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -253,12 +253,15 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
           pnmscanner_gettoken(scan, (unsigned char *)buf, BUFLEN);
         else
           pnmscanner_getsmalltoken(scan, (unsigned char *)buf);
-        switch (info->maxval) {
+        switch (info->np ? info->maxval : 1) {
         case 255:
           d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
           break;
         case 1:
-          d[b] = (*buf == '0') ? 0xff : 0x00;
+          if (info->np)
+            d[b] = (*buf == '0') ? 0x00 : 0xff;
+          else                  /* in a bitmap 1 is black */
+            d[b] = (*buf == '0') ? 0xff : 0x00;
           break;
         default:
           d[b] = (unsigned char)(255.0 * (((double)(isdigit(*buf) ? atoi(buf) : 0))
-- 
2.43.0


From 11ac4290d822eb13885c2887b5a635ceabfa2467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:45 +0000
Subject: [PATCH 002/107] fix: keep the last character of an ASCII PNM file
 without a final newline

---
 src/input-pnm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index ac0f77d..d942454 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -414,14 +414,14 @@ static void pnmscanner_getsmalltoken(PNMScanner * s, unsigned char *buf)
 static void pnmscanner_getchar(PNMScanner * s)
 {
   if (s->inbuf) {
-    s->cur = s->inbuf[s->inbufpos++];
     if (s->inbufpos >= s->inbufvalidsize) {
-      if (s->inbufsize > s->inbufvalidsize)
-        s->eof = 1;
-      else
-        s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
+      s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
       s->inbufpos = 0;
     }
+    if (s->inbufvalidsize <= 0)
+      s->eof = 1;
+    else
+      s->cur = s->inbuf[s->inbufpos++];
   } else
     s->eof = !fread(&(s->cur), 1, 1, s->fd);
 }
-- 
2.43.0


From 745849ed591c401048bbee36cb4a9bd0faa0ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:45 +0000
Subject: [PATCH 003/107] fix: keep long PNM header tokens inside the token
 buffer

---
 src/input-pnm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index d942454..bd96267 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -389,7 +389,7 @@ static void pnmscanner_gettoken(PNMScanner * s, unsigned char *buf, unsigned int
   unsigned int ctr = 0;
 
   pnmscanner_eatwhitespace(s);
-  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr < bufsize)) {
+  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr < bufsize - 1)) {
     buf[ctr++] = s->cur;
     pnmscanner_getchar(s);
   }
-- 
2.43.0


From 052730b755ed2a42e5c144f3c7572333589adf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:45 +0000
Subject: [PATCH 004/107] fix: report an unknown PNM magic number instead of
 calling a random loader

---
 src/input-pnm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index bd96267..5cac432 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -130,6 +130,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   /* allocate the necessary structures */
   pnminfo = (PNMInfo *) malloc(sizeof(PNMInfo));
 
+  pnminfo->loader = NULL;
   scan = NULL;
   /* set error handling */
 
-- 
2.43.0


From 14ad7a3c5367fa80b3e50e765aa7751925e00e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:45 +0000
Subject: [PATCH 005/107] fix: refuse PNM images larger than a bitmap can hold

---
 src/input-pnm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 5cac432..ef4273b 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -206,6 +206,12 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     }
   }
 
+  if (pnminfo->xres > 65535 || pnminfo->yres > 65535) {
+    LOG("pnm filter: image is too large\n");
+    at_exception_fatal(&excep, "pnm filter: image is too large");
+    goto cleanup;
+  }
+
   bitmap = at_bitmap_init(NULL, (unsigned short)pnminfo->xres, (unsigned short)pnminfo->yres, (pnminfo->np) ? (pnminfo->np) : 1);
   pnminfo->loader(scan, pnminfo, AT_BITMAP_BITS(&bitmap), &excep);
 
-- 
2.43.0


From 8081dd58819641a1f704971948d8e3fe31ca3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:45 +0000
Subject: [PATCH 006/107] fix: report an ASCII PNM file whose last sample is
 missing

---
 src/input-pnm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index ef4273b..e7dbb14 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -260,6 +260,11 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
           pnmscanner_gettoken(scan, (unsigned char *)buf, BUFLEN);
         else
           pnmscanner_getsmalltoken(scan, (unsigned char *)buf);
+        if (*buf == '\0') {
+          LOG("pnm filter: premature end of file\n");
+          at_exception_fatal(excep, "pnm filter: premature end of file");
+          return;
+        }
         switch (info->np ? info->maxval : 1) {
         case 255:
           d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
@@ -408,6 +413,7 @@ static void pnmscanner_gettoken(PNMScanner * s, unsigned char *buf, unsigned int
  */
 static void pnmscanner_getsmalltoken(PNMScanner * s, unsigned char *buf)
 {
+  *buf = '\0';
   pnmscanner_eatwhitespace(s);
   if (!(s->eof) && !isspace(s->cur) && (s->cur != '#')) {
     *buf = s->cur;
-- 
2.43.0


From 71dbdbd241ec668368a199a82ac2455ba96f8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 007/107] fix: read BMP files with a palette instead of
 returning an empty image

---
 src/input-bmp.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index f48a6fb..97aee68 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -482,7 +482,7 @@ static int ReadColorMap(FILE * fd, unsigned char buffer[256][3], int number, int
     if (!ReadOK(fd, rgb, size)) {
       LOG("Bad colormap\n");
       at_exception_fatal(exp, "Bad colormap");
-      goto cleanup;
+      return 0;
     }
 
     /* Bitmap save the colors in another order! But change only once! */
@@ -492,8 +492,7 @@ static int ReadColorMap(FILE * fd, unsigned char buffer[256][3], int number, int
     buffer[i][2] = rgb[0];
     *grey = ((*grey) && (rgb[0] == rgb[1]) && (rgb[1] == rgb[2]));
   }
-cleanup:
-  return 0;
+  return 1;
 }
 
 static int
-- 
2.43.0


From 69737cbeb925e874a9a02fca2b2692f4b48a3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 008/107] fix: look up gray BMP palettes once, not twice

---
 src/input-bmp.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 97aee68..301b306 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -671,8 +671,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 		  {
 			temp = image + (ypos * rowstride) + (xpos * channels);
 			*temp = (v & (((1 << bpp) - 1) << (8 - (i*bpp)))) >> (8 - (i*bpp));
-			if (Grey)
-				*temp = cmap[*temp][0];
 		}
 
 		if (xpos == width)
@@ -719,8 +717,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			          {
 			            temp = dest + (ypos * rowstride) + (xpos * channels);
 			            *temp = (unsigned char) ((row_buf[1] & (((1<<bpp)-1) << (8 - (i * bpp)))) >> (8 - (i * bpp)));
-				        if (Grey)
-					      *temp = cmap[*temp][0];
 			          }
 		      }
 		  }
@@ -755,8 +751,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 					temp =
 						dest + (ypos * rowstride) + (xpos * channels);
 					*temp = (v >> (8 - (i*bpp))) & ((1 << bpp) - 1);
-					if (Grey)
-						*temp = cmap[*temp][0];
 					i++;
 					xpos++;
 				}
-- 
2.43.0


From 786c73092c1aafb0953bc0d7d378c4f6c9158b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 009/107] fix: return the decoded pixels of run-length encoded
 BMP files

---
 src/input-bmp.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 301b306..da0ff08 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -542,7 +542,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   int xpos = 0;
   int ypos = 0;
   unsigned char * image;
-  unsigned char *dest, *temp, *row_buf;
+  unsigned char *temp, *row_buf;
   long rowstride, channels;
   unsigned short rgb;
   int i, i_max, j;
@@ -561,9 +561,12 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   }
 
 
+  /* use XCALLOC to initialize the image so that unspecified
+	 pixels in RLE bitmaps show up as the zeroth element in the palette.
+  */
   if (bpp >= 16) /* color image */
     {
-      XMALLOC (image, width * height * 3 * sizeof (unsigned char));
+      XCALLOC (image, width * height * 3 * sizeof (unsigned char));
 	  if (masks[3].mask != 0)
 	  {
 		  channels = 4;
@@ -575,19 +578,15 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   }
   else if (Grey) /* Grey image */
     {
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
+      XCALLOC (image, width * height * 1 * sizeof (unsigned char));
 	  channels = 1;
 	}
   else /* indexed image */
 	{
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
+      XCALLOC (image, width * height * 1 * sizeof (unsigned char));
 	  channels = 1;
 	}
 
-  /* use XCALLOC to initialize the dest row_buf so that unspecified
-	 pixels in RLE bitmaps show up as the zeroth element in the palette.
-  */
-  XCALLOC(dest, width * height * channels);
   XMALLOC (row_buf, rowbytes); 
   rowstride = width * channels;
 
@@ -715,7 +714,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			             ((unsigned char) j < (unsigned char) row_buf[0]));
 			             i++, xpos++, j++)
 			          {
-			            temp = dest + (ypos * rowstride) + (xpos * channels);
+			            temp = image + (ypos * rowstride) + (xpos * channels);
 			            *temp = (unsigned char) ((row_buf[1] & (((1<<bpp)-1) << (8 - (i * bpp)))) >> (8 - (i * bpp)));
 			          }
 		      }
@@ -749,7 +748,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				while ((i <= i_max) && (xpos < width))
 				{
 					temp =
-						dest + (ypos * rowstride) + (xpos * channels);
+						image + (ypos * rowstride) + (xpos * channels);
 					*temp = (v >> (8 - (i*bpp))) & ((1 << bpp) - 1);
 					i++;
 					xpos++;
@@ -816,7 +815,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   }
 
   free (row_buf);
-  free(dest);
   return image;
 }
 
-- 
2.43.0


From f3d3f5469df676abf42c3bfa07d17c7f02122388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 010/107] fix: store BMP pixels with an alpha mask in three
 channels

---
 src/input-bmp.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index da0ff08..858c06e 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -567,14 +567,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   if (bpp >= 16) /* color image */
     {
       XCALLOC (image, width * height * 3 * sizeof (unsigned char));
-	  if (masks[3].mask != 0)
-	  {
-		  channels = 4;
-	  }
-	  else
-	  {
-		  channels = 3;
-	  }
+	  channels = 3;             /* alpha is ignored */
   }
   else if (Grey) /* Grey image */
     {
-- 
2.43.0


From 60fabd7c23a7b6572c91155e499912dd48625f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 011/107] fix: stop reading a 24 bit BMP after the top row

---
 src/input-bmp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 858c06e..acdf93c 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -622,6 +622,9 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
                *(temp++)= row_buf[xpos * 3 + 1];
                *(temp++)= row_buf[xpos * 3];
             }
+          if (ypos == 0)
+            break;
+
           --ypos; /* next line */
         }
 	}
-- 
2.43.0


From 73706a98adddc6e396cf30e9e681a13e1d93bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 012/107] fix: make room for version 4 and 5 BMP headers

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index acdf93c..2fc141a 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -136,7 +136,7 @@ static unsigned char *ReadImage(FILE *, int, int, unsigned char[256][3], int, in
 at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_func msg_func, void * msg_data, void * user_data)
 {
   FILE *fd;
-  unsigned char buffer[64];
+  unsigned char buffer[124];
   int ColormapSize, rowbytes, Maps, Grey;
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
-- 
2.43.0


From e18b0abc85023ffeb9af872a3dafe151d9e7023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 013/107] fix: read 12 bytes of BMP channel masks, not 24

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 2fc141a..a10301e 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -259,7 +259,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
     memset(masks, 0, sizeof(masks));
     if (Bitmap_Head.biCompr == BI_BITFIELDS)
     {
-      if (!ReadOK(fd, buffer, 3 * sizeof(unsigned long)))
+      if (!ReadOK(fd, buffer, 12))
       {
         LOG("Error reading BMP file header\n");
         at_exception_fatal(&exp, "Error reading BMP file header");
-- 
2.43.0


From efe45d617691d195cbf7323cfe691c85cfac2c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 014/107] fix: use the default channel masks for uncompressed
 BMP files of every header size

---
 src/input-bmp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index a10301e..fde10fe 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -231,6 +231,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
     Bitmap_Head.masks[3] = 0;
 
     memset(masks, 0, sizeof(masks));
+    setMasksDefault(Bitmap_Head.biBitCnt, masks);
     Maps = 3;
   } else if (Bitmap_File_Head.biSize == 40) { /* Windows 3.x */
     if (!ReadOK(fd, buffer, 36))
@@ -313,7 +314,11 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  Bitmap_Head.masks[3] = ToL(&buffer[0x30]);        /* 42 */
 
 	  Maps = 4;
-	  ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
+	  memset(masks, 0, sizeof(masks));
+	  if (Bitmap_Head.biCompr == BI_BITFIELDS)
+	    ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
+	  else if (Bitmap_Head.biCompr == BI_RGB)
+	    setMasksDefault(Bitmap_Head.biBitCnt, masks);
 	}
   else if (Bitmap_File_Head.biSize == 108 ||
   Bitmap_File_Head.biSize == 124)
@@ -343,6 +348,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	Bitmap_Head.masks[3] = ToL(&buffer[0x30]);
 
 	Maps = 4;
+	memset(masks, 0, sizeof(masks));
 
 	if (Bitmap_Head.biCompr == BI_BITFIELDS)
 	{
-- 
2.43.0


From faa07b457652d65b6502e29005d085be41a73e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 015/107] fix: accept BMP channel masks with no or with all
 bits set

---
 src/input-bmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index fde10fe..e6d039d 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -530,8 +530,8 @@ ReadChannelMasks(unsigned long       *tmp,
 			mask = mask >> 1;
 		}
 
-		masks[i].shiftin = offset;
-		masks[i].max_value = (float)((1 << nbits) - 1);
+		masks[i].shiftin = (nbits > 0) ? offset : 0;
+		masks[i].max_value = (nbits > 0) ? (float)((1UL << nbits) - 1) : (float)1.0;
 
 #ifdef _DEBUG
 		LOG("Channel %d mask %08x in %d max_val %d\n",
-- 
2.43.0


From 5c4e5a9cf45cefd4902de9728119a8701d676ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 016/107] fix: decode BMP files with two bits per pixel

---
 src/input-bmp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index e6d039d..0d33871 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -662,6 +662,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 
   case 8:
   case 4:
+  case 2:
   case 1:
     {
       if (compression == 0)
-- 
2.43.0


From 52ae1c74c9c09f14732989dc51c19e5522a005d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 017/107] fix: initialise the gray flag and the palette of the
 BMP reader

---
 src/input-bmp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 0d33871..d87dd39 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -137,7 +137,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 {
   FILE *fd;
   unsigned char buffer[124];
-  int ColormapSize, rowbytes, Maps, Grey;
+  int ColormapSize, rowbytes, Maps, Grey = 0;
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *image_storage;
@@ -145,6 +145,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   char magick[2];
   Bitmap_Channel masks[4];
 
+  memset(ColorMap, 0, sizeof(ColorMap));
+
   fd = fopen(filename, "rb");
 
   if (!fd) {
-- 
2.43.0


From 354adf3cca993eb9ea72e4fc297476f8d9e9aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 018/107] fix: OS/2 BMP dimensions are unsigned

---
 src/input-bmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index d87dd39..a89993e 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -219,8 +219,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
       goto cleanup;
     }
 
-    Bitmap_Head.biWidth = ToS(&buffer[0x00]);   /* 12 */
-    Bitmap_Head.biHeight = ToS(&buffer[0x02]);  /* 14 */
+    Bitmap_Head.biWidth = (unsigned short)ToS(&buffer[0x00]);   /* 12 */
+    Bitmap_Head.biHeight = (unsigned short)ToS(&buffer[0x02]);  /* 14 */
     Bitmap_Head.biPlanes = ToS(&buffer[0x04]);  /* 16 */
     Bitmap_Head.biBitCnt = ToS(&buffer[0x06]);  /* 18 */
     Bitmap_Head.biCompr = 0;
-- 
2.43.0


From 5378d7244b71029d96f65ac9d993911f8802d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 019/107] fix: refuse BMP images larger than a bitmap can hold

---
 src/input-bmp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index a89993e..f2dc764 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -448,6 +448,13 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  goto cleanup;
   }
 
+  if (Bitmap_Head.biWidth > 65535 || labs((long)Bitmap_Head.biHeight) > 65535)
+  {
+	  LOG("%s is too large", filename);
+	  at_exception_fatal(&exp, "bmp: image is too large");
+	  goto cleanup;
+  }
+
   /* Windows and OS/2 declare filler so that rows are a multiple of
    * word length (32 bits == 4 bytes)
    */
-- 
2.43.0


From cad56ffc3854cc894d0961e383370075acddeae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 020/107] fix: read BMP files whose rows run from top to bottom

---
 src/input-bmp.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index f2dc764..9fca653 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -141,6 +141,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *image_storage;
+  int topdown = 0;
   at_exception_type exp = at_exception_new(msg_func, msg_data);
   char magick[2];
   Bitmap_Channel masks[4];
@@ -455,6 +456,12 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  goto cleanup;
   }
 
+  if ((long)Bitmap_Head.biHeight < 0)
+  {
+	  topdown = 1;
+	  Bitmap_Head.biHeight = -(long)Bitmap_Head.biHeight;
+  }
+
   /* Windows and OS/2 declare filler so that rows are a multiple of
    * word length (32 bits == 4 bytes)
    */
@@ -482,6 +489,21 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   /* Get the Image and return the ID or -1 on error */
   image_storage = ReadImage(fd, Bitmap_Head.biWidth, Bitmap_Head.biHeight, ColorMap, Bitmap_Head.biClrUsed, Bitmap_Head.biBitCnt, Bitmap_Head.biCompr, rowbytes, Grey, masks, &exp);
   image = at_bitmap_init(image_storage, (unsigned short)Bitmap_Head.biWidth, (unsigned short)Bitmap_Head.biHeight, Grey ? 1 : 3);
+
+  if (topdown && image_storage)
+  {
+	  /* the rows were stored from top to bottom */
+	  unsigned int stride = AT_BITMAP_WIDTH(&image) * AT_BITMAP_PLANES(&image);
+	  unsigned int top = 0, bottom = AT_BITMAP_HEIGHT(&image) - 1, n;
+
+	  for (; top < bottom; top++, bottom--)
+		  for (n = 0; n < stride; n++)
+		  {
+			  unsigned char swap = image_storage[top * stride + n];
+			  image_storage[top * stride + n] = image_storage[bottom * stride + n];
+			  image_storage[bottom * stride + n] = swap;
+		  }
+  }
 cleanup:
   fclose(fd);
   return (image);
-- 
2.43.0


From 6df2696fbf127cf587b082ee4af2b166d596b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:50 +0000
Subject: [PATCH 021/107] fix: do not read BMP palette entries from the gap
 before the pixels

---
 src/input-bmp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 9fca653..73c08b5 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -400,6 +400,13 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  ColormapSize = Bitmap_Head.biClrUsed = 1 << Bitmap_Head.biBitCnt;
   }
 
+  /* there may be a gap between the palette and the pixels */
+  if ((Bitmap_Head.biBitCnt <= 8) &&
+	  (ColormapSize > (long)Bitmap_Head.biClrUsed))
+  {
+	  ColormapSize = Bitmap_Head.biClrUsed;
+  }
+
   if (ColormapSize > 256)
 	  ColormapSize = 256;
 
-- 
2.43.0


From dc5b569163090fe8a493251ddeb207b4eeb89d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:50 +0000
Subject: [PATCH 022/107] fix: report BMP files that end before the last row

---
 src/input-bmp.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 73c08b5..57b11a6 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -592,6 +592,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   int i, i_max, j;
   int total_bytes_read;
   unsigned int px32;
+  int truncated = 0;
 
   if (!(compression == BI_RGB ||
 	  (bpp == 8 && compression == BI_RLE8) ||
@@ -647,10 +648,9 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				  *(temp++) = ((px32 & masks[3].mask) >> masks[3].shiftin) * 255.0 / masks[3].max_value + 0.5;*/
 		  }
 
-		  if (ypos == 0)
-			  break;
-
 		  --ypos; /* next line */
+		  if (ypos < 0)
+			  break;
         }
     }
 	break;
@@ -666,10 +666,9 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
                *(temp++)= row_buf[xpos * 3 + 1];
                *(temp++)= row_buf[xpos * 3];
             }
-          if (ypos == 0)
-            break;
-
           --ypos; /* next line */
+          if (ypos < 0)
+            break;
         }
 	}
     break;
@@ -690,10 +689,9 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				  *(temp++) = ((rgb & masks[3].mask) >> masks[3].shiftin) * 255.0 / masks[3].max_value + 0.5;*/
 		  }
 
-		  if (ypos == 0)
-			  break;
-
 		  --ypos; /* next line */
+		  if (ypos < 0)
+			  break;
         }
     }
 	break;
@@ -734,6 +732,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			if (!ReadOK(fd, row_buf, 2))
 			{
 				LOG("The bitmap ends unexpectedly.");
+				truncated = 1;
 				break;
 			}
 
@@ -773,6 +772,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				if (!ReadOK(fd, &v, 1))
 				{
 					LOG("The bitmap ends unexpectedly.");
+					truncated = 1;
 					break;
 				} 
 
@@ -817,6 +817,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			if (!ReadOK(fd, row_buf, 2))
 			  {
 				LOG("The bitmap ends unexpectedly.");
+				truncated = 1;
 				break;
 			  }
 			xpos += (unsigned char) row_buf[0];
@@ -832,6 +833,12 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 	break;
   }
 
+  if (truncated || (ypos >= 0 && (compression == BI_RGB || compression == BI_BITFIELDS)))
+    {
+      LOG("bmp: premature end of file\n");
+      at_exception_fatal(exp, "bmp: premature end of file");
+    }
+
   if (bpp <= 8)
     {
       unsigned char *temp2, *temp3;
-- 
2.43.0


From 605195996ca5a8f69b46e748a44dd591b07e4be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:33 +0000
Subject: [PATCH 023/107] fix: stop after a TGA file could not be opened

---
 src/input-tga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index 865897b..2593127 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -117,6 +117,7 @@ input_tga_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   if (!fp) {
     LOG("TGA: can't open \"%s\"\n", filename);
     at_exception_fatal(&exp, "Cannot open input tga file");
+    return image;
   }
 
   /* Check the footer. */
-- 
2.43.0


From f462785ce16a0642a0282ad6190ba2e589d9dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:33 +0000
Subject: [PATCH 024/107] fix: read TGA files shorter than a TGA footer

---
 src/input-tga.c | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 2593127..1b85b69 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -93,15 +93,6 @@ struct tga_header {
   unsigned char descriptor;
 };
 
-static struct {
-  unsigned int extensionAreaOffset;
-  unsigned int developerDirectoryOffset;
-#define TGA_SIGNATURE "trueVISION-XFILE"
-  char signature[16];
-  char dot;
-  char null;
-} tga_footer;
-
 static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type * exp);
 
 at_bitmap
@@ -120,17 +111,8 @@ input_tga_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     return image;
   }
 
-  /* Check the footer. */
-  if (fseek(fp, 0L - (sizeof(tga_footer)), SEEK_END)
-      || fread(&tga_footer, sizeof(tga_footer), 1, fp) != 1) {
-    LOG("TGA: Cannot read footer from \"%s\"\n", filename);
-    at_exception_fatal(&exp, "TGA: Cannot read footer");
-    goto cleanup;
-  }
-
-  /* Check the signature. */
-
-  if (fseek(fp, 0, SEEK_SET) || fread(&hdr, sizeof(hdr), 1, fp) != 1) {
+  /* The footer is optional and not needed, start with the header. */
+  if (fread(&hdr, sizeof(hdr), 1, fp) != 1) {
     LOG("TGA: Cannot read header from \"%s\"\n", filename);
     at_exception_fatal(&exp, "TGA: Cannot read header");
     goto cleanup;
-- 
2.43.0


From 86ec3c17a317f970397b288ebf8767af20c54d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:33 +0000
Subject: [PATCH 025/107] fix: start decoding each run-length encoded TGA image
 from a clean state

---
 src/input-tga.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 1b85b69..06d6b85 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -142,9 +142,9 @@ static int std_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 /* Decode a bufferful of file. */
 static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 {
-  static unsigned char *statebuf = 0;
-  static int statelen = 0;
-  static int laststate = 0;
+  unsigned char *statebuf = 0;
+  int statelen = 0;
+  int laststate = 0;
 
   int j, k;
   int buflen, count, bytes;
@@ -176,6 +176,7 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
     /* Decode the next packet. */
     count = fgetc(fp);
     if (count == EOF) {
+      free(statebuf);
       return j / datasize;
     }
 
@@ -195,7 +196,8 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
     if (count & RLE_PACKETSIZE) {
       /* Fill the buffer with the next value. */
       if (fread(p, datasize, 1, fp) != 1) {
-        return j / datasize;
+        free(statebuf);
+      return j / datasize;
       }
 
       /* Optimized case for single-byte encoded data. */
@@ -207,7 +209,8 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
     } else {
       /* Read in the buffer. */
       if (fread(p, bytes, 1, fp) != 1) {
-        return j / datasize;
+        free(statebuf);
+      return j / datasize;
       }
     }
 
@@ -218,6 +221,7 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
       j += bytes;
   }
 
+  free(statebuf);
   return nelems;
 }
 
-- 
2.43.0


From 216ceabc05585ce5d0f9a5e821cc679c828151eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:33 +0000
Subject: [PATCH 026/107] fix: drop the alpha channel of TGA images instead of
 writing past the bitmap

---
 src/input-tga.c | 41 ++++++++++-------------------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 06d6b85..ef1e8ff 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -229,9 +229,9 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 {
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *buffer = NULL;
-  unsigned char *alphas = NULL;
+  unsigned char *raw;
 
-  unsigned short width, height, bpp, abpp, pbpp, nalphas;
+  unsigned short width, height, bpp, abpp, pbpp;
   int j, k;
   int pelbytes, wbytes, bsize, npels, pels;
   int rle, badread;
@@ -354,7 +354,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     return image;
   }
 
-  nalphas = 0;
   if (hdr->colorMapType == 1) {
     /* We need to read in the colormap. */
     int index, colors;
@@ -383,11 +382,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
       return image;
     }
 
-    /* If we have an alpha channel, then create a mapping to the alpha
-       values. */
-    if (pelbytes > 3)
-      alphas = (unsigned char *)malloc(colors);
-
     k = 0;
     for (j = 0; j < colors * pelbytes; j += pelbytes) {
       /* Swap from BGR to RGB. */
@@ -395,17 +389,8 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
       cmap[k++] = cmap[j + 2];
       cmap[k++] = cmap[j + 1];
       cmap[k++] = tmp;
-
-      /* Take the alpha values out of the colormap. */
-      if (alphas)
-        alphas[nalphas++] = cmap[j + 3];
     }
 
-    /* If the last color was transparent, then omit it from the
-       mapping. */
-    if (nalphas && alphas[nalphas - 1] == 0)
-      colors--;
-
     /* Now pretend as if we only have 8 bpp. */
     abpp = 0;
     pbpp = 8;
@@ -430,13 +415,14 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   badread = 0;
 
   npels = width * height;
+  raw = (unsigned char *)malloc(npels * bpp);
   bsize = wbytes * height;
 
   /* Suck in the data one height at a time. */
   if (badread)
     pels = 0;
   else
-    pels = (*myfread) (image.bitmap, bpp, npels, fp);
+    pels = (*myfread) (raw, bpp, npels, fp);
 
   if (pels != npels) {
     if (!badread) {
@@ -447,19 +433,14 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     }
 
     /* Fill the rest of this tile with zeros. */
-    memset(image.bitmap + (pels * bpp), 0, ((npels - pels) * bpp));
-  }
-  /* If we have indexed alphas, then set them. */
-  if (nalphas) {
-    /* Start at the end of the buffer, and work backwards. */
-    k = (npels - 1) * bpp;
-    for (j = bsize - pelbytes; j >= 0; j -= pelbytes) {
-      /* Find the alpha for this index. */
-      image.bitmap[j + 1] = alphas[image.bitmap[k]];
-      image.bitmap[j] = image.bitmap[k--];
-    }
+    memset(raw + (pels * bpp), 0, ((npels - pels) * bpp));
   }
 
+  /* Keep the color bytes of each pixel and drop the alpha byte. */
+  for (j = 0; j < npels; j++)
+    memcpy(image.bitmap + j * (pbpp / 8), raw + j * bpp, pbpp / 8);
+  free(raw);
+
   if (itype == GRAY)
     for (j = bsize / 3 - 1; j >= 0; j -= 1) {
       /* Find the alpha for this index. */
@@ -527,7 +508,5 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     free(cmap);
   }
 
-  free(alphas);
-
   return image;
 }                               /* read_image */
-- 
2.43.0


From 434d7ef18c6179599ac067a731cb3b478c889540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:33 +0000
Subject: [PATCH 027/107] fix: mirror TGA images both ways when both directions
 are reversed

---
 src/input-tga.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index ef1e8ff..d05bf14 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -460,11 +460,11 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
   if (horzrev || vertrev) {
     unsigned char *tmp;
-    if (vertrev) {
+    if (vertrev && !horzrev) {
       /* We need to mirror only vertically. */
       for (j = 0; j < bsize; j += wbytes)
         memcpy(buffer + j, image.bitmap + bsize - (j + wbytes), wbytes);
-    } else if (horzrev) {
+    } else if (horzrev && !vertrev) {
       /* We need to mirror only horizontally. */
       for (j = 0; j < bsize; j += wbytes)
         for (k = 0; k < wbytes; k += pelbytes)
-- 
2.43.0


From 02fbaf061eca99fa2718a19acbde751e8d6af9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:33 +0000
Subject: [PATCH 028/107] fix: keep TGA pixel indices inside the color map

---
 src/input-tga.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index d05bf14..034e36d 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -370,15 +370,14 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
     pelbytes = ROUNDUP_DIVIDE(hdr->colorMapSize, 8);
     colors = length + index;
-    cmap = (unsigned char *)malloc(colors * pelbytes);
-
-    /* Zero the entries up to the beginning of the map. */
-    memset(cmap, 0, index * pelbytes);
+    /* Zero the entries outside of the map, pixels may refer to any of 256. */
+    cmap = (unsigned char *)calloc(MAX(colors, 256), pelbytes);
 
     /* Read in the rest of the colormap. */
     if (fread(cmap + (index * pelbytes), pelbytes, length, fp) != length) {
       LOG("TGA: error reading colormap (ftell == %ld)\n", ftell(fp));
       at_exception_fatal(exp, "TGA: error reading colormap");
+      free(cmap);
       return image;
     }
 
-- 
2.43.0


From 84cca9a0c585cea61a0e6f6d2b3be0a805daf052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:01 +0000
Subject: [PATCH 029/107] fix: report PNG errors instead of aborting the
 process

---
 src/input-png.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/input-png.c b/src/input-png.c
index 6671bb6..0de5c10 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -53,7 +53,8 @@ static void handle_error(png_structp png, const char * message)
   at_exception_fatal((at_exception_type *) png_get_error_ptr(png), message);
   /* at_exception_fatal((at_exception_type *)at_png->error_ptr,
      "PNG error"); */
-
+  /* libpng aborts the process if an error handler returns */
+  longjmp(png_jmpbuf(png), 1);
 }
 
 static void finalize_structs(png_structp png, png_infop info, png_infop end_info)
@@ -98,6 +99,11 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
   if (!init_structs(&png, &info, &end_info, exp))
     return 0;
 
+  if (setjmp(png_jmpbuf(png))) {
+    finalize_structs(png, info, end_info);
+    return 0;
+  }
+
   png_init_io(png, stream);
   CHECK_ERROR();
 
-- 
2.43.0


From 6ad44910a0ec11b8c169ffa24376a507be1ec580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:01 +0000
Subject: [PATCH 030/107] fix: strip the alpha channel of PNG images before
 copying the pixels

---
 src/input-png.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-png.c b/src/input-png.c
index 0de5c10..cee1cba 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -107,7 +107,7 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
   png_init_io(png, stream);
   CHECK_ERROR();
 
-  png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND, 0);
+  png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND | PNG_TRANSFORM_STRIP_ALPHA, 0);
   rows = png_get_rows(png, info);
   
   width = (unsigned short)png_get_image_width(png, info);
-- 
2.43.0


From 78a5cc7d23b76dd656ca20c7ca33f6427c085d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:01 +0000
Subject: [PATCH 031/107] fix: refuse PNG images larger than a bitmap can hold

---
 src/input-png.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/input-png.c b/src/input-png.c
index cee1cba..31102db 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -109,7 +109,13 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
 
   png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND | PNG_TRANSFORM_STRIP_ALPHA, 0);
   rows = png_get_rows(png, info);
-  
+
+  if (png_get_image_width(png, info) > 65535 || png_get_image_height(png, info) > 65535) {
+    LOG("PNG image is too large\n");
+    at_exception_fatal(exp, "PNG image is too large");
+  }
+  CHECK_ERROR();
+
   width = (unsigned short)png_get_image_width(png, info);
   height = (unsigned short)png_get_image_height(png, info);
   if (png_get_color_type(png, info) == PNG_COLOR_TYPE_GRAY) {
-- 
2.43.0


From 33359867210c4d1784269376d8dbed2044f69148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:18 +0000
Subject: [PATCH 032/107] fix: update the size of a GF character after removing
 blank borders

---
 src/input-gf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index 41c018f..f6b605a 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -458,6 +458,8 @@ static void deblank(gf_char_t * sym)
       sym->bbox_max_row -= white_on_top;
       sym->bbox_min_col += white_on_left;
       sym->bbox_max_col -= white_on_right;
+      sym->width = condensed.width;
+      sym->height = condensed.height;
     }
     free(sym->bitmap);
     sym->bitmap = condensed.bitmap;
-- 
2.43.0


From 4c24b4b4d9d1bfcf8a2764621fd03db37b2c6852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:18 +0000
Subject: [PATCH 033/107] fix: skip specials inside GF characters from their
 opcode on

---
 src/input-gf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index f6b605a..155aecf 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -199,9 +199,14 @@ static void skip_specials(gf_font_t * font)
     case XXX3:
       move_relative(font, get_three(font));
       continue;
+    case XXX4:
+      move_relative(font, get_four(font));
+      continue;
     case YYY:
       (void)get_four(font);
       continue;
+    case NO_OP:
+      continue;
     default:
       move_relative(font, -1);
       return;
@@ -361,6 +366,7 @@ static void get_character_bitmap(gf_char_t * sym)
       /* do nothing */
 
     } else if ((XXX1 <= c && c <= XXX4) || c == YYY) {
+      move_relative(sym->font, -1);
       skip_specials(sym->font);
 
     } else {
-- 
2.43.0


From 492cd2f1160a59f073d7a8475bdcedb95f696f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:18 +0000
Subject: [PATCH 034/107] fix: do not paint GF pixels outside of the character

---
 src/input-gf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index 155aecf..a6cde4d 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -321,6 +321,8 @@ static void get_character_bitmap(gf_char_t * sym)
         for (; length != 0; length--) {
           matrix_x = cur_x - sym->bbox_min_col;
 
+          if (matrix_y >= sym->height || matrix_x >= sym->width)
+            break;
           PIXEL(sym, matrix_y, matrix_x) = 255;
           cur_x++;
         }
-- 
2.43.0


From 720105222427821e6d65329e5963f6cd95ba8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:18 +0000
Subject: [PATCH 035/107] fix: report damaged GF files to the caller instead of
 leaving the process

---
 src/input-gf.c | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index a6cde4d..1baadc1 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -81,6 +81,7 @@ typedef struct _gf_char_t {
 typedef struct _gf_font_t {
   char *input_filename;
   FILE *input_file;
+  int error;                    /* set when the file could not be read */
   double design_size;
   unsigned long checksum;
   double h_pixels_per_point, v_pixels_per_point;
@@ -115,7 +116,8 @@ static unsigned char get_byte(gf_font_t * font)
 
   if (fread(&b, 1, 1, font->input_file) != 1) {
     fprintf(stderr, "%s: read error\n", font->input_filename);
-    exit(-1);
+    font->error = 1;
+    return EOC;
   }
   return b;
 }
@@ -158,7 +160,7 @@ static void move_relative(gf_font_t * font, long count)
 {
   if (fseek(font->input_file, count, SEEK_CUR) < 0) {
     fprintf(stderr, "%s: seek error\n", font->input_filename);
-    exit(-1);
+    font->error = 1;
   }
 }
 
@@ -188,7 +190,7 @@ static unsigned long get_previous_four(gf_font_t * font)
  */
 static void skip_specials(gf_font_t * font)
 {
-  for (;;) {
+  while (!font->error) {
     switch (get_byte(font)) {
     case XXX1:
       move_relative(font, get_byte(font));
@@ -265,7 +267,7 @@ static void get_character_bitmap(gf_char_t * sym)
       continue;                 /* do nothing */
     if (c != EOC) {
       fprintf(stderr, "%s: expected eoc (for a blank character), found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      sym->font->error = 1;
     }
     return;
   }
@@ -275,10 +277,13 @@ static void get_character_bitmap(gf_char_t * sym)
   sym->bitmap = calloc(width, height);
   if (!sym->bitmap) {
     fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-    exit(-1);
+    sym->font->error = 1;
+    sym->height = 0;
+    sym->width = 0;
+    return;
   }
 
-  for (;;) {
+  while (!sym->font->error) {
     c = get_byte(sym->font);
     if (c == EOC)
       break;
@@ -307,7 +312,8 @@ static void get_character_bitmap(gf_char_t * sym)
           break;
         default:
           fprintf(stderr, "%s: invalid painting command %u\n", sym->font->input_filename, c);
-          exit(-1);
+          sym->font->error = 1;
+          return;
         }
       }
 
@@ -351,7 +357,8 @@ static void get_character_bitmap(gf_char_t * sym)
         break;
       default:
         fprintf(stderr, "%s: invalid skip command %u\n", sym->font->input_filename, c);
-        exit(-1);
+        sym->font->error = 1;
+        return;
       }
       cur_y -= rows_to_skip + 1;
       cur_x = sym->bbox_min_col;
@@ -373,7 +380,8 @@ static void get_character_bitmap(gf_char_t * sym)
 
     } else {
       fprintf(stderr, "%s: expected paint or skip or new_row, found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      sym->font->error = 1;
+      return;
     }
   }
 }
@@ -456,7 +464,8 @@ static void deblank(gf_char_t * sym)
       condensed.bitmap = calloc(condensed.width, condensed.height);
       if (!condensed.bitmap) {
         fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-        exit(-1);
+        sym->font->error = 1;
+        return;
       }
       for (r = 0; r < condensed.height; r++)
         for (c = 0; c < condensed.width; c++) {
@@ -479,6 +488,7 @@ static int gf_open(gf_font_t * font, char *filename)
   unsigned char b, c;
   unsigned long post_ptr;
 
+  font->error = 0;
   font->input_filename = filename;
   font->input_file = fopen(filename, "r");
   if (!font->input_file) {
@@ -499,7 +509,7 @@ static int gf_open(gf_font_t * font, char *filename)
 
   do
     b = get_previous_byte(font);
-  while (b == GF_SIGNATURE);
+  while (b == GF_SIGNATURE && !font->error);
   if (b != GF_ID) {
     fprintf(stderr, "%s: invalid signature (expected %u, found %u)\n", font->input_filename, GF_ID, b);
     return 0;
@@ -561,7 +571,7 @@ static int gf_open(gf_font_t * font, char *filename)
     font->char_loc[c].tfm_width = get_four(font);
     font->char_loc[c].char_pointer = get_four(font);
   }
-  return 1;
+  return !font->error;
 }
 
 /*
@@ -640,9 +650,15 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
     fprintf(stderr, "%s: warning: character code mismatch, %d != %d\n", font->input_filename, sym->charcode, charcode);
   }
 
-  get_character_bitmap(sym);
-
-  deblank(sym);
+  sym->bitmap = NULL;
+  if (!font->error)
+    get_character_bitmap(sym);
+  if (!font->error)
+    deblank(sym);
+  if (font->error) {
+    free(sym->bitmap);
+    return 0;
+  }
   return 1;
 }
 
-- 
2.43.0


From 93efc10ec6ebdfb1e55e07f10472f9562c1831fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:18 +0000
Subject: [PATCH 036/107] fix: close GF files that are refused

---
 src/input-gf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index 1baadc1..08789d3 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -672,6 +672,8 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   unsigned int i, j, ptr;
 
   if (!gf_open(font, filename)) {
+    if (font->input_file)
+      fclose(font->input_file);
     at_exception_fatal(&exp, "Cannot open input GF file");
     return bitmap;
   }
@@ -681,6 +683,7 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
       if (font->char_loc[i].char_pointer != -1)
         break;
     if (i >= 256) {
+      fclose(font->input_file);
       at_exception_fatal(&exp, "No characters in input GF file");
       return bitmap;
     }
-- 
2.43.0


From 2a7bf8adbcdd53a72e59e9008937e3610c43c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:18 +0000
Subject: [PATCH 037/107] fix: leave the GF character code of the caller
 unchanged

---
 src/input-gf.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 08789d3..2503caf 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -669,7 +669,7 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   at_bitmap bitmap = at_bitmap_init(NULL, 0, 0, 0);
   gf_font_t fontdata, *font = &fontdata;
   gf_char_t chardata, *sym = &chardata;
-  unsigned int i, j, ptr;
+  unsigned int i, j, ptr, charcode;
 
   if (!gf_open(font, filename)) {
     if (font->input_file)
@@ -677,7 +677,8 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     at_exception_fatal(&exp, "Cannot open input GF file");
     return bitmap;
   }
-  if (opts->charcode == 0) {
+  charcode = opts->charcode;
+  if (charcode == 0) {
     /* Find a first character in font file. */
     for (i = 0; i < 256; ++i)
       if (font->char_loc[i].char_pointer != -1)
@@ -687,16 +688,16 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
       at_exception_fatal(&exp, "No characters in input GF file");
       return bitmap;
     }
-    opts->charcode = i;
+    charcode = i;
   }
-  if (!gf_get_char(font, sym, (unsigned char)opts->charcode)) {
+  if (!gf_get_char(font, sym, (unsigned char)charcode)) {
     fclose(font->input_file);
     at_exception_fatal(&exp, "Error reading character from GF file");
     return bitmap;
   }
 
   ugs_design_pixels = font->design_size * font->v_pixels_per_point + 0.5;
-  ugs_charcode = opts->charcode;
+  ugs_charcode = charcode;
   ugs_advance_width = sym->h_escapement;
   ugs_left_bearing = sym->bbox_min_col;
   ugs_descend = sym->bbox_min_row;
-- 
2.43.0


From 70029ff7093506ff1188f99825de6439cc91d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:18 +0000
Subject: [PATCH 038/107] fix: read four byte numbers of GF files as signed

---
 src/input-gf.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 2503caf..eda8c67 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -145,15 +145,15 @@ static unsigned long get_three(gf_font_t * font)
   return b;
 }
 
-static unsigned long get_four(gf_font_t * font)
+static long get_four(gf_font_t * font)
 {
-  unsigned long b;
+  unsigned int b;
 
-  b = (unsigned long)get_byte(font) << 24;
-  b |= (unsigned long)get_byte(font) << 16;
-  b |= (unsigned long)get_byte(font) << 8;
+  b = (unsigned int)get_byte(font) << 24;
+  b |= (unsigned int)get_byte(font) << 16;
+  b |= (unsigned int)get_byte(font) << 8;
   b |= get_byte(font);
-  return b;
+  return (int)b;                /* four byte numbers are signed */
 }
 
 static void move_relative(gf_font_t * font, long count)
-- 
2.43.0


From e74c3271e0f5b2525d599d80e082191a055108f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:18 +0000
Subject: [PATCH 039/107] fix: refuse GF characters larger than a bitmap can
 hold

---
 src/input-gf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index eda8c67..c14c170 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -272,6 +272,12 @@ static void get_character_bitmap(gf_char_t * sym)
     return;
   }
 
+  if (width > 65535 || height > 65535) {
+    fprintf(stderr, "%s: character is too large\n", sym->font->input_filename);
+    sym->font->error = 1;
+    return;
+  }
+
   sym->height = height;
   sym->width = width;
   sym->bitmap = calloc(width, height);
-- 
2.43.0


From 150f5f1a0b53e911942501a13d740dcb3f91f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:27 +0000
Subject: [PATCH 040/107] fix: never skip backwards over a long GF special

---
 src/input-gf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index c14c170..df8012b 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -202,7 +202,7 @@ static void skip_specials(gf_font_t * font)
       move_relative(font, get_three(font));
       continue;
     case XXX4:
-      move_relative(font, get_four(font));
+      move_relative(font, get_four(font) & 0xffffffffL);
       continue;
     case YYY:
       (void)get_four(font);
-- 
2.43.0


From e91bfd25d9a31ec262b28181f3c2a99a4965269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:11 +0000
Subject: [PATCH 041/107] fix: report TGA images without pixels

---
 src/input-tga.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index 034e36d..1cf24cb 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -250,6 +250,12 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   width = (hdr->widthHi << 8) | hdr->widthLo;
   height = (hdr->heightHi << 8) | hdr->heightLo;
 
+  if (width == 0 || height == 0) {
+    LOG("TGA: image has no pixels\n");
+    at_exception_fatal(exp, "TGA: image has no pixels");
+    return image;
+  }
+
   bpp = hdr->bpp;
   abpp = hdr->descriptor & TGA_DESC_ABITS;
 
-- 
2.43.0


From db7a4a18c72058ad838eb91a9da950a53ecf8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:11 +0000
Subject: [PATCH 042/107] fix: refuse TGA images whose size does not fit an int

---
 src/input-tga.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index 1cf24cb..7577575 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -24,6 +24,7 @@
 #endif /* Def: HAVE_CONFIG_H */
 
 #include <stdio.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/param.h>
@@ -255,6 +256,11 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     at_exception_fatal(exp, "TGA: image has no pixels");
     return image;
   }
+  if (width > INT_MAX / 4 / height) {
+    LOG("TGA: image is too large\n");
+    at_exception_fatal(exp, "TGA: image is too large");
+    return image;
+  }
 
   bpp = hdr->bpp;
   abpp = hdr->descriptor & TGA_DESC_ABITS;
-- 
2.43.0


From edd657c547b4baa42e242cf9faf5fe017545c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:57 +0000
Subject: [PATCH 043/107] fix: keep the outline of a hole next to the outline
 around it

---
 src/pxl-outline.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 2482b10..d5532ef 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -57,6 +57,7 @@ static pixel_outline_type
 find_one_outline(at_bitmap *, edge_type, unsigned short, unsigned short, at_bitmap *, bool, bool, at_exception_type *);
 static pixel_outline_type find_one_centerline(at_bitmap *, direction_type, unsigned short, unsigned short, at_bitmap *);
 static void append_pixel_outline(pixel_outline_list_type *, pixel_outline_type);
+static void append_hole(pixel_outline_list_type *, pixel_outline_type, int, int);
 static pixel_outline_type new_pixel_outline(void);
 static void free_pixel_outline(pixel_outline_type *);
 static void concat_pixel_outline(pixel_outline_type *, const pixel_outline_type *);
@@ -151,7 +152,7 @@ find_outline_pixels(at_bitmap *bitmap, at_color *bg_color, at_progress_func noti
             CHECK_FATAL();      /* FREE(DONE) outline_list */
 
             O_CLOCKWISE(outline) = true;
-            append_pixel_outline(&outline_list, outline);
+            append_hole(&outline_list, outline, col, AT_BITMAP_HEIGHT(bitmap) - row);
 
             LOG(" [%u].\n", O_LENGTH(outline));
           } else {
@@ -424,6 +425,41 @@ static void append_pixel_outline(pixel_outline_list_type * outline_list, pixel_o
   O_LIST_OUTLINE(*outline_list, O_LIST_LENGTH(*outline_list) - 1) = outline;
 }
 
+/* Add the outline of a hole to an outline list, directly behind the outline it
+   is a hole of.  The output writers join neighbouring outlines of the same
+   color into one path; with an outline of another color in between, the hole
+   would be painted as a shape of its own.  X and Y are the lower left corner
+   of the pixel above the hole, which belongs to the outline around it.  */
+
+static void append_hole(pixel_outline_list_type * outline_list, pixel_outline_type hole, int x, int y)
+{
+  unsigned i = O_LIST_LENGTH(*outline_list), j, p;
+
+  /* The innermost outline around the pixel was found last.  */
+  for (j = i; j > 0; j--) {
+    pixel_outline_type o = O_LIST_OUTLINE(*outline_list, j - 1);
+    bool inside = false;
+
+    if (O_CLOCKWISE(o) || !at_color_equal(&o.color, &hole.color))
+      continue;
+
+    for (p = 0; p < O_LENGTH(o); p++) {
+      at_coord from = O_COORDINATE(o, p), to = O_COORDINATE(o, O_NEXT(o, p));
+      if (from.x == to.x && from.x <= x && (from.y < to.y ? from.y : to.y) == y)
+        inside = (bool) !inside;
+    }
+    if (inside) {
+      i = j;
+      break;
+    }
+  }
+
+  append_pixel_outline(outline_list, hole);
+  for (j = O_LIST_LENGTH(*outline_list) - 1; j > i; j--)
+    O_LIST_OUTLINE(*outline_list, j) = O_LIST_OUTLINE(*outline_list, j - 1);
+  O_LIST_OUTLINE(*outline_list, i) = hole;
+}
+
 /* Free the list of outline lists. */
 
 void free_pixel_outline_list(pixel_outline_list_type * outline_list)
-- 
2.43.0


From 414dd1f2dfa043d914426e9c30eba3cdabbbc639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:31 +0000
Subject: [PATCH 044/107] fix: leave background inside of a shape unpainted
 when other colors touch it

---
 src/pxl-outline.c | 62 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index d5532ef..87dd23d 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -58,6 +58,7 @@ find_one_outline(at_bitmap *, edge_type, unsigned short, unsigned short, at_bitm
 static pixel_outline_type find_one_centerline(at_bitmap *, direction_type, unsigned short, unsigned short, at_bitmap *);
 static void append_pixel_outline(pixel_outline_list_type *, pixel_outline_type);
 static void append_hole(pixel_outline_list_type *, pixel_outline_type, int, int);
+static bool encloses_color(at_bitmap *, const pixel_outline_type *, const at_color *);
 static pixel_outline_type new_pixel_outline(void);
 static void free_pixel_outline(pixel_outline_type *);
 static void concat_pixel_outline(pixel_outline_type *, const pixel_outline_type *);
@@ -156,8 +157,18 @@ find_outline_pixels(at_bitmap *bitmap, at_color *bg_color, at_progress_func noti
 
             LOG(" [%u].\n", O_LENGTH(outline));
           } else {
-            outline = find_one_outline(bitmap, edge, row - 1, col, marked, true, true, exp);
+            /* Shapes of other colors are painted over this one later, but
+               background inside of it stays visible only through a hole.  */
+            outline = find_one_outline(bitmap, edge, row - 1, col, marked, true, (bool) !bg_color, exp);
             CHECK_FATAL();      /* FREE(DONE) outline_list */
+
+            if (bg_color) {
+              O_CLOCKWISE(outline) = true;
+              if (encloses_color(bitmap, &outline, bg_color))
+                append_hole(&outline_list, outline, col, AT_BITMAP_HEIGHT(bitmap) - row);
+              else
+                free_pixel_outline(&outline);
+            }
           }
         } else
           CHECK_FATAL();        /* FREE(DONE) outline_list */
@@ -460,6 +471,55 @@ static void append_hole(pixel_outline_list_type * outline_list, pixel_outline_ty
   O_LIST_OUTLINE(*outline_list, i) = hole;
 }
 
+/* Is there a pixel of color COLOR inside of the closed OUTLINE?  */
+
+static bool encloses_color(at_bitmap * bitmap, const pixel_outline_type * outline, const at_color * color)
+{
+  int left = AT_BITMAP_WIDTH(bitmap), right = 0, top = AT_BITMAP_HEIGHT(bitmap), bottom = 0;
+  unsigned char *crossed;
+  unsigned p;
+  int row, col;
+  bool found = false;
+
+  for (p = 0; p < O_LENGTH(*outline); p++) {
+    at_coord c = O_COORDINATE(*outline, p);
+    int r = AT_BITMAP_HEIGHT(bitmap) - c.y;
+
+    if (c.x < left)
+      left = c.x;
+    if (c.x > right)
+      right = c.x;
+    if (r < top)
+      top = r;
+    if (r > bottom)
+      bottom = r;
+  }
+
+  /* Mark the vertical edges; a pixel with an odd number of them to its
+     left is inside.  */
+  XCALLOC(crossed, (size_t)(right - left + 1) * (bottom - top + 1));
+  for (p = 0; p < O_LENGTH(*outline); p++) {
+    at_coord from = O_COORDINATE(*outline, p), to = O_COORDINATE(*outline, O_NEXT(*outline, p));
+    int r = AT_BITMAP_HEIGHT(bitmap) - (from.y > to.y ? from.y : to.y);
+
+    if (from.x == to.x)
+      crossed[(size_t)(r - top) * (right - left + 1) + from.x - left] ^= 1;
+  }
+
+  for (row = top; row < bottom && !found; row++) {
+    bool inside = false;
+
+    for (col = left; col < right && !found; col++) {
+      if (crossed[(size_t)(row - top) * (right - left + 1) + col - left])
+        inside = (bool) !inside;
+      found = (bool) (inside && at_bitmap_equal_color(bitmap, row, col, (at_color *) color));
+    }
+  }
+
+  free(crossed);
+  return found;
+}
+
 /* Free the list of outline lists. */
 
 void free_pixel_outline_list(pixel_outline_list_type * outline_list)
-- 
2.43.0


From 8d719b1bb922845253a423b37424446cde1f15fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:10 +0000
Subject: [PATCH 045/107] fix: do not subdivide a curve at its endpoints

---
 src/fit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fit.c b/src/fit.c
index 6b9f36a..7f8d57b 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -944,7 +944,8 @@ static spline_list_type *fit_with_least_squares(curve_type curve, fitting_opts_t
   spline = best_spline;
   error = best_error;
 
-  if (error < fitting_opts->error_threshold && CURVE_CYCLIC(curve) == false) {
+  /* There is nothing to subdivide if no point between the endpoints is off.  */
+  if ((error < fitting_opts->error_threshold || worst_point == 0 || worst_point >= CURVE_LENGTH(curve) - 1) && CURVE_CYCLIC(curve) == false) {
     /* The points were fitted with a
        spline.  We end up here whenever a fit is accepted.  We have
        one more job: see if the ``curve'' that was fit should really
-- 
2.43.0


From 3b0030d01934c65a4724a215d85fdbf5d5337d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:02 +0000
Subject: [PATCH 046/107] fix: do not look at pixels outside of the bitmap when
 following a centerline

---
 src/pxl-outline.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 87dd23d..0d14cf9 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -230,12 +230,13 @@ bool is_valid_dir(unsigned short row, unsigned short col, direction_type dir, at
 
   at_color c;
 
-  if ((COMPUTE_DELTA(ROW, dir) + row < 0) || (COMPUTE_DELTA(COL, dir) + col < 0))
-	return false;	// Must not call at_bitmap_get_color() with negative row or col.
+  if ((COMPUTE_DELTA(ROW, dir) + row < 0) || (COMPUTE_DELTA(COL, dir) + col < 0)
+      || !AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col))
+	return false;	// Must not call at_bitmap_get_color() with row or col outside of the bitmap.
 
   at_bitmap_get_color(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col, &c);
   return ((bool) (!is_marked_dir(row, col, dir, marked)
-                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0 && AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col)
+                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0
                   && at_bitmap_equal_color(bitmap, row, col, &c)));
 }
 
-- 
2.43.0


From 75fa253c376c235a237a05dc9e66dc72dfcb2328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:02 +0000
Subject: [PATCH 047/107] fix: follow centerlines in the top row and the left
 column

---
 src/pxl-outline.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 0d14cf9..6315d31 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -236,7 +236,6 @@ bool is_valid_dir(unsigned short row, unsigned short col, direction_type dir, at
 
   at_bitmap_get_color(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col, &c);
   return ((bool) (!is_marked_dir(row, col, dir, marked)
-                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0
                   && at_bitmap_equal_color(bitmap, row, col, &c)));
 }
 
-- 
2.43.0


From 9b97c8efbbd8c89a0f635ec1ac04b3c84c67893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:47 +0000
Subject: [PATCH 048/107] fix: do not thin with the background color of an
 earlier call

---
 src/thin-image.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thin-image.c b/src/thin-image.c
index 2e220ec..f3b91e1 100644
--- a/src/thin-image.c
+++ b/src/thin-image.c
@@ -114,6 +114,8 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
 
   if (bg)
     background = *bg;
+  else
+    at_color_set(&background, 0xff, 0xff, 0xff);
 
   bm.height = image->height;
   bm.width = image->width;
-- 
2.43.0


From 18e322d9ebb2824c0692be364e18e978012d586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:47 +0000
Subject: [PATCH 049/107] fix: do not follow thinned away pixels of a gray
 bitmap with a colored background

---
 src/autotrace.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/autotrace.c b/src/autotrace.c
index f91a18f..97acf9b 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -290,6 +290,13 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
     if (opts->background_color)
       background_color = *opts->background_color;
 
+    /* Thinning a gray bitmap leaves the gray of the background color. */
+    if (at_bitmap_get_planes(bitmap) == 1
+        && !(background_color.r == background_color.g && background_color.g == background_color.b)) {
+      unsigned char gray = at_color_luminance(&background_color);
+      at_color_set(&background_color, gray, gray, gray);
+    }
+
     pixels = find_centerline_pixels(bitmap, background_color, notify_progress, progress_data, test_cancel, testcancel_data, &exp);
   } else
     pixels = find_outline_pixels(bitmap, opts->background_color, notify_progress, progress_data, test_cancel, testcancel_data, &exp);
-- 
2.43.0


From beab6bf4727d81581554190856f9275f3287ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:52 +0000
Subject: [PATCH 050/107] fix: trace the centerlines of bitmaps wider or higher
 than 32767 pixels

---
 src/pxl-outline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 6315d31..06f4f72 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -244,7 +244,7 @@ find_centerline_pixels(at_bitmap *bitmap, at_color bg_color, at_progress_func no
                        at_testcancel_func test_cancel, void *testcancel_data, at_exception_type *exp)
 {
   pixel_outline_list_type outline_list;
-  signed short row, col;
+  unsigned short row, col;
   at_bitmap *marked = at_bitmap_new(AT_BITMAP_WIDTH(bitmap), AT_BITMAP_HEIGHT(bitmap), 1);
   unsigned int max_progress = AT_BITMAP_HEIGHT(bitmap) * AT_BITMAP_WIDTH(bitmap);
 
-- 
2.43.0


From 14f85ec51231d0bfd608a0b74b36789f2b7651da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:59 +0000
Subject: [PATCH 051/107] fix: do not write behind the colormap when more than
 256 colors are asked for

---
 src/median.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/median.c b/src/median.c
index 1abf911..d43aa70 100644
--- a/src/median.c
+++ b/src/median.c
@@ -821,7 +821,8 @@ static QuantizeObj *initialize_median_cut(int num_colors)
   XMALLOC(quantobj, sizeof(QuantizeObj));
 
   XMALLOC(quantobj->histogram, sizeof(ColorFreq) * HIST_R_ELEMS * HIST_G_ELEMS * HIST_B_ELEMS);
-  quantobj->desired_number_of_colors = num_colors;
+  /* The colormap has no room for more colors.  */
+  quantobj->desired_number_of_colors = num_colors < MAXNUMCOLORS ? num_colors : MAXNUMCOLORS;
 
   return quantobj;
 }
-- 
2.43.0


From 54cdea4ce6fca4666f808a610cfecd9d4177957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:59 +0000
Subject: [PATCH 052/107] fix: do not divide by zero when reducing the colors
 of an all background bitmap

---
 src/median.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/median.c b/src/median.c
index d43aa70..714c286 100644
--- a/src/median.c
+++ b/src/median.c
@@ -346,6 +346,8 @@ static void compute_color_rgb(QuantizeObj * quantobj, Histogram histogram, boxpt
       }
     }
 
+  if (total == 0)
+    total = 1;
   quantobj->cmap[icolor].r = (unsigned char)((Rtotal + (total >> 1)) / total);
   quantobj->cmap[icolor].g = (unsigned char)((Gtotal + (total >> 1)) / total);
   quantobj->cmap[icolor].b = (unsigned char)((Btotal + (total >> 1)) / total);
@@ -373,6 +375,9 @@ static void select_colors_rgb(QuantizeObj * quantobj, Histogram histogram)
   boxlist[0].Bmax = (1 << PRECISION_B) - 1;
   /* Shrink it to actually-used volume and set its statistics */
   update_box_rgb(histogram, boxlist);
+  /* All pixels have the background color, there is nothing to split */
+  if (boxlist[0].colorcount == 0)
+    desired = 1;
   /* Perform median-cut to produce final box list */
   numboxes = median_cut_rgb(histogram, boxlist, numboxes, desired);
   quantobj->actual_number_of_colors = numboxes;
-- 
2.43.0


From a18115f0791a5ca4471eb53a943b9e75235e3e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:32 +0000
Subject: [PATCH 053/107] fix: despeckle bitmaps wider or higher than 32767
 pixels

---
 src/despeckle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/despeckle.c b/src/despeckle.c
index f726f7b..d59da60 100644
--- a/src/despeckle.c
+++ b/src/despeckle.c
@@ -681,7 +681,7 @@ void despeckle( /* in/out */ at_bitmap * bitmap,
                /* exception handling */ at_exception_type * excep)
 {
   int i, planes, max_level;
-  short width, height;
+  int width, height;
   unsigned char *bits;
   double noise_max, adaptive_tightness;
 
-- 
2.43.0


From 7cb4245cdbf0d72439b5247600938fdabe399d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:05 +0000
Subject: [PATCH 054/107] fix: do not overflow the stack when despeckling large
 areas

---
 src/despeckle.c | 145 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 96 insertions(+), 49 deletions(-)

diff --git a/src/despeckle.c b/src/despeckle.c
index d59da60..7089313 100644
--- a/src/despeckle.c
+++ b/src/despeckle.c
@@ -31,6 +31,57 @@
 #include "bitmap.h"
 #include "despeckle.h"
 
+/* Positions that are still to be visited while traversing a blob.  A blob can be
+ * as large as the image, visiting it recursively would need too much stack.
+ */
+typedef struct {
+  int *data;                    /* x and y of each position */
+  size_t length;
+  size_t size;
+} position_stack;
+
+static void push_position(position_stack * stack, int x, int y)
+{
+  if (stack->length + 2 > stack->size) {
+    stack->size = stack->size ? 2 * stack->size : 128;
+    XREALLOC(stack->data, stack->size * sizeof(int));
+  }
+  stack->data[stack->length++] = x;
+  stack->data[stack->length++] = y;
+}
+
+static bool pop_position(position_stack * stack, int *x, int *y)
+{
+  if (stack->length == 0)
+    return false;
+  *y = stack->data[--stack->length];
+  *x = stack->data[--stack->length];
+  return true;
+}
+
+/* Visit the pixels above and below the pixels X1 to X2 of row Y next, from left
+ * to right.
+ */
+static void push_neighbors(position_stack * stack, int x1, int x2, int y)
+{
+  int x;
+
+  for (x = x2; x >= x1; x--) {
+    push_position(stack, x, y + 1);
+    push_position(stack, x, y - 1);
+  }
+}
+
+/* Evaluate VISIT for the position (x, y), then with x and y set to each of the
+ * positions it pushes on the position stack.  The x and y of the caller remain.
+ */
+#define TRAVERSE(visit) \
+  do { \
+    push_position(stack, x, y); \
+    for (int x, y; pop_position(stack, &x, &y);) \
+      visit; \
+  } while (0)
+
 /* Calculate Error - compute the error between two colors
  *
  *   Input parameters:
@@ -92,7 +143,8 @@ static int find_size( /* in */ unsigned char *index,
                      /* in */ int width,
                      /* in */ int height,
                      /* in */ unsigned char *bitmap,
-                     /* in/out */ unsigned char *mask)
+                     /* in/out */ unsigned char *mask,
+                     /* in/out */ position_stack *stack)
 {
   int count;
   int x1, x2;
@@ -110,10 +162,7 @@ static int find_size( /* in */ unsigned char *index,
   for (x = x1; x <= x2; x++)
     mask[y * width + x] = 1;
 
-  for (x = x1; x <= x2; x++) {
-    count += find_size(index, x, y - 1, width, height, bitmap, mask);
-    count += find_size(index, x, y + 1, width, height, bitmap, mask);
-  }
+  push_neighbors(stack, x1, x2, y);
 
   return count;
 }
@@ -137,7 +186,8 @@ static int find_size_8( /* in */ unsigned char *index,
                        /* in */ int width,
                        /* in */ int height,
                        /* in */ unsigned char *bitmap,
-                       /* in/out */ unsigned char *mask)
+                       /* in/out */ unsigned char *mask,
+                       /* in/out */ position_stack *stack)
 {
   int count;
   int x1, x2;
@@ -155,10 +205,7 @@ static int find_size_8( /* in */ unsigned char *index,
   for (x = x1; x <= x2; x++)
     mask[y * width + x] = 1;
 
-  for (x = x1; x <= x2; x++) {
-    count += find_size_8(index, x, y - 1, width, height, bitmap, mask);
-    count += find_size_8(index, x, y + 1, width, height, bitmap, mask);
-  }
+  push_neighbors(stack, x1, x2, y);
 
   return count;
 }
@@ -187,7 +234,8 @@ static void find_most_similar_neighbor( /* in */ unsigned char *index,
                                        /* in */ int width,
                                        /* in */ int height,
                                        /* in */ unsigned char *bitmap,
-                                       /* in/out */ unsigned char *mask)
+                                       /* in/out */ unsigned char *mask,
+                                       /* in/out */ position_stack *stack)
 {
   int x1, x2;
   int temp_error;
@@ -238,10 +286,7 @@ static void find_most_similar_neighbor( /* in */ unsigned char *index,
   for (x = x1; x <= x2; x++)
     mask[y * width + x] = 2;
 
-  for (x = x1; x <= x2; x++) {
-    find_most_similar_neighbor(index, closest_index, error_amt, x, y - 1, width, height, bitmap, mask);
-    find_most_similar_neighbor(index, closest_index, error_amt, x, y + 1, width, height, bitmap, mask);
-  }
+  push_neighbors(stack, x1, x2, y);
 }
 
 /* Find Most Similar Neighbor - Given a position in an 8 bit bitmap and a color
@@ -268,7 +313,8 @@ static void find_most_similar_neighbor_8( /* in */ unsigned char *index,
                                          /* in */ int width,
                                          /* in */ int height,
                                          /* in */ unsigned char *bitmap,
-                                         /* in/out */ unsigned char *mask)
+                                         /* in/out */ unsigned char *mask,
+                                         /* in/out */ position_stack *stack)
 {
   int x1, x2;
   int temp_error;
@@ -319,10 +365,7 @@ static void find_most_similar_neighbor_8( /* in */ unsigned char *index,
   for (x = x1; x <= x2; x++)
     mask[y * width + x] = 2;
 
-  for (x = x1; x <= x2; x++) {
-    find_most_similar_neighbor_8(index, closest_index, error_amt, x, y - 1, width, height, bitmap, mask);
-    find_most_similar_neighbor_8(index, closest_index, error_amt, x, y + 1, width, height, bitmap, mask);
-  }
+  push_neighbors(stack, x1, x2, y);
 }
 
 /* Fill - change the color of a blob
@@ -340,7 +383,8 @@ static void fill( /* in */ unsigned char *to_index,
                  /* in */ int width,
                  /* in */ int height,
                  /* in/out */ unsigned char *bitmap,
-                 /* in/out */ unsigned char *mask)
+                 /* in/out */ unsigned char *mask,
+                 /* in/out */ position_stack *stack)
 {
   int x1, x2;
 
@@ -361,10 +405,7 @@ static void fill( /* in */ unsigned char *to_index,
     mask[y * width + x] = 3;
   }
 
-  for (x = x1; x <= x2; x++) {
-    fill(to_index, x, y - 1, width, height, bitmap, mask);
-    fill(to_index, x, y + 1, width, height, bitmap, mask);
-  }
+  push_neighbors(stack, x1, x2, y);
 }
 
 /* Fill - change the color of a blob
@@ -382,7 +423,8 @@ static void fill_8( /* in */ unsigned char *to_index,
                    /* in */ int width,
                    /* in */ int height,
                    /* in/out */ unsigned char *bitmap,
-                   /* in/out */ unsigned char *mask)
+                   /* in/out */ unsigned char *mask,
+                   /* in/out */ position_stack *stack)
 {
   int x1, x2;
 
@@ -401,10 +443,7 @@ static void fill_8( /* in */ unsigned char *to_index,
     mask[y * width + x] = 3;
   }
 
-  for (x = x1; x <= x2; x++) {
-    fill_8(to_index, x, y - 1, width, height, bitmap, mask);
-    fill_8(to_index, x, y + 1, width, height, bitmap, mask);
-  }
+  push_neighbors(stack, x1, x2, y);
 }
 
 /* Ignore - blob is big enough, mask it off
@@ -417,7 +456,8 @@ static void ignore( /* in */ int x,
                    /* in */ int y,
                    /* in */ int width,
                    /* in */ int height,
-                   /* in/out */ unsigned char *mask)
+                   /* in/out */ unsigned char *mask,
+                   /* in/out */ position_stack *stack)
 {
   int x1, x2;
 
@@ -434,10 +474,7 @@ static void ignore( /* in */ int x,
   for (x = x1; x <= x2; x++)
     mask[y * width + x] = 3;
 
-  for (x = x1; x <= x2; x++) {
-    ignore(x, y - 1, width, height, mask);
-    ignore(x, y + 1, width, height, mask);
-  }
+  push_neighbors(stack, x1, x2, y);
 }
 
 /* Recolor - conditionally change a feature's color to the closest color of all
@@ -464,7 +501,8 @@ static bool recolor( /* in */ double adaptive_tightness,
                         /* in */ int width,
                         /* in */ int height,
                         /* in/out */ unsigned char *bitmap,
-                        /* in/out */ unsigned char *mask)
+                        /* in/out */ unsigned char *mask,
+                        /* in/out */ position_stack *stack)
 {
   unsigned char *index, *to_index;
   int error_amt, max_error;
@@ -474,7 +512,7 @@ static bool recolor( /* in */ double adaptive_tightness,
   error_amt = 0;
   max_error = (int)(3.0 * adaptive_tightness * adaptive_tightness);
 
-  find_most_similar_neighbor(index, &to_index, &error_amt, x, y, width, height, bitmap, mask);
+  TRAVERSE(find_most_similar_neighbor(index, &to_index, &error_amt, x, y, width, height, bitmap, mask, stack));
 
   /* This condition only fails if the bitmap is all the same color */
   if (to_index != NULL) {
@@ -485,9 +523,9 @@ static bool recolor( /* in */ double adaptive_tightness,
      */
 
     if (calc_error(index, to_index) > max_error)
-      fill(index, x, y, width, height, bitmap, mask);
+      TRAVERSE(fill(index, x, y, width, height, bitmap, mask, stack));
     else {
-      fill(to_index, x, y, width, height, bitmap, mask);
+      TRAVERSE(fill(to_index, x, y, width, height, bitmap, mask, stack));
 
       return true;
     }
@@ -520,7 +558,8 @@ static bool recolor_8( /* in */ double adaptive_tightness,
                           /* in */ int width,
                           /* in */ int height,
                           /* in/out */ unsigned char *bitmap,
-                          /* in/out */ unsigned char *mask)
+                          /* in/out */ unsigned char *mask,
+                          /* in/out */ position_stack *stack)
 {
   unsigned char *index, *to_index;
   int error_amt;
@@ -529,7 +568,7 @@ static bool recolor_8( /* in */ double adaptive_tightness,
   to_index = NULL;
   error_amt = 0;
 
-  find_most_similar_neighbor_8(index, &to_index, &error_amt, x, y, width, height, bitmap, mask);
+  TRAVERSE(find_most_similar_neighbor_8(index, &to_index, &error_amt, x, y, width, height, bitmap, mask, stack));
 
   /* This condition only fails if the bitmap is all the same color */
   if (to_index != NULL) {
@@ -540,9 +579,9 @@ static bool recolor_8( /* in */ double adaptive_tightness,
      */
 
     if (calc_error_8(index, to_index) > adaptive_tightness)
-      fill_8(index, x, y, width, height, bitmap, mask);
+      TRAVERSE(fill_8(index, x, y, width, height, bitmap, mask, stack));
     else {
-      fill_8(to_index, x, y, width, height, bitmap, mask);
+      TRAVERSE(fill_8(to_index, x, y, width, height, bitmap, mask, stack));
 
       return true;
     }
@@ -573,6 +612,7 @@ static void despeckle_iteration( /* in */ int level,
   int x, y;
   int current_size;
   int tightness;
+  position_stack positions = { NULL, 0, 0 }, *stack = &positions;
 
   /* Size doubles each iteration level, so current_size = 2^level */
   current_size = 1 << level;
@@ -583,20 +623,23 @@ static void despeckle_iteration( /* in */ int level,
     for (x = 0; x < width; x++) {
       if (mask[y * width + x] == 0) {
         int size;
+        unsigned char *index = &bitmap[3 * (y * width + x)];
 
-        size = find_size(&bitmap[3 * (y * width + x)], x, y, width, height, bitmap, mask);
+        size = 0;
+        TRAVERSE(size += find_size(index, x, y, width, height, bitmap, mask, stack));
 
         assert(size > 0);
 
         if (size < current_size) {
-          if (recolor(tightness, x, y, width, height, bitmap, mask))
+          if (recolor(tightness, x, y, width, height, bitmap, mask, stack))
             x--;
         } else
-          ignore(x, y, width, height, mask);
+          TRAVERSE(ignore(x, y, width, height, mask, stack));
       }
     }
   }
 
+  free(positions.data);
   free(mask);
 }
 
@@ -622,6 +665,7 @@ static void despeckle_iteration_8( /* in */ int level,
   int x, y;
   int current_size;
   int tightness;
+  position_stack positions = { NULL, 0, 0 }, *stack = &positions;
 
   /* Size doubles each iteration level, so current_size = 2^level */
   current_size = 1 << level;
@@ -632,20 +676,23 @@ static void despeckle_iteration_8( /* in */ int level,
     for (x = 0; x < width; x++) {
       if (mask[y * width + x] == 0) {
         int size;
+        unsigned char *index = &bitmap[(y * width + x)];
 
-        size = find_size_8(&bitmap[(y * width + x)], x, y, width, height, bitmap, mask);
+        size = 0;
+        TRAVERSE(size += find_size_8(index, x, y, width, height, bitmap, mask, stack));
 
         assert(size > 0);
 
         if (size < current_size) {
-          if (recolor_8(tightness, x, y, width, height, bitmap, mask))
+          if (recolor_8(tightness, x, y, width, height, bitmap, mask, stack))
             x--;
         } else
-          ignore(x, y, width, height, mask);
+          TRAVERSE(ignore(x, y, width, height, mask, stack));
       }
     }
   }
 
+  free(positions.data);
   free(mask);
 }
 
-- 
2.43.0


From 83139aa0b0f2444290c71118e06e73ed0ecf3acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:05 +0000
Subject: [PATCH 055/107] fix: free the outlines when tracing is canceled after
 they are found

---
 src/autotrace.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index 97acf9b..74437ab 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -300,8 +300,8 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
     pixels = find_centerline_pixels(bitmap, background_color, notify_progress, progress_data, test_cancel, testcancel_data, &exp);
   } else
     pixels = find_outline_pixels(bitmap, opts->background_color, notify_progress, progress_data, test_cancel, testcancel_data, &exp);
-  FATAL_THEN_CLEANUP_DIST();
-  CANCEL_THEN_CLEANUP_DIST();
+  FATAL_THEN_CLEANUP_PIXELS();
+  CANCEL_THEN_CLEANUP_PIXELS();
 
   XMALLOC(splines, sizeof(at_splines_type));
   *splines = fitted_splines(pixels, opts, dist, image_header.width, image_header.height, &exp, notify_progress, progress_data, test_cancel, testcancel_data);
-- 
2.43.0


From 2cf7b4c6b17d9ca845db363bc19bec1085d625be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:05 +0000
Subject: [PATCH 056/107] fix: return NULL when the cancel function returns
 true only once

---
 src/autotrace.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/autotrace.c b/src/autotrace.c
index 74437ab..dd17893 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -229,6 +229,23 @@ at_splines_type *at_splines_new(at_bitmap * bitmap, at_fitting_opts_type * opts,
   return at_splines_new_full(bitmap, opts, msg_func, msg_data, NULL, NULL, NULL, NULL);
 }
 
+/* Once TEST_CANCEL returned true the execution is canceled, whatever it
+   returns later. */
+typedef struct {
+  at_testcancel_func test_cancel;
+  void *data;
+  bool canceled;
+} cancel_state;
+
+static bool test_cancel_state(void *data)
+{
+  cancel_state *state = (cancel_state *) data;
+
+  if (!state->canceled && state->test_cancel(state->data))
+    state->canceled = true;
+  return state->canceled;
+}
+
 /* at_splines_new_full modify its argument: BITMAP
    when despeckle, quantize and/or thin_image are invoked. */
 at_splines_type *
@@ -242,6 +259,12 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
   QuantizeObj *myQuant = NULL;  /* curently not used */
   at_exception_type exp = at_exception_new(msg_func, msg_data);
   at_distance_map dist_map, *dist = NULL;
+  cancel_state cancel = { test_cancel, testcancel_data, false };
+
+  if (test_cancel) {
+    test_cancel = test_cancel_state;
+    testcancel_data = &cancel;
+  }
 
 #define CANCELP (test_cancel && test_cancel(testcancel_data))
 #define FATALP  (at_exception_got_fatal(&exp))
-- 
2.43.0


From 6db18e1a50121e065be4bb2951775b0b0fd47b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:17 +0000
Subject: [PATCH 057/107] fix: free the array of spline lists with the splines

---
 src/spline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spline.c b/src/spline.c
index 191caa3..cfb2c00 100644
--- a/src/spline.c
+++ b/src/spline.c
@@ -147,6 +147,7 @@ void free_spline_list_array(spline_list_array_type * spline_list_array)
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(*spline_list_array); this_list++)
     free_spline_list(SPLINE_LIST_ARRAY_ELT(*spline_list_array, this_list));
 
+  free(SPLINE_LIST_ARRAY_DATA(*spline_list_array));
 }
 
 /* Append the spline S to the list SPLINE_LIST_ARRAY.  */
-- 
2.43.0


From 068b81ddcfcf4860562965498fbc14d4fb688f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:32 +0000
Subject: [PATCH 058/107] fix: do not report a progress lower than before

---
 src/curve.c | 2 +-
 src/fit.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve.c b/src/curve.c
index 7828c6a..2f3b131 100644
--- a/src/curve.c
+++ b/src/curve.c
@@ -224,7 +224,7 @@ void free_curve_list_array(curve_list_array_type *curve_list_array, at_progress_
 
   for (this_list = 0; this_list < CURVE_LIST_ARRAY_LENGTH(*curve_list_array); this_list++) {
     if (notify_progress)
-      notify_progress(((float) this_list) / (CURVE_LIST_ARRAY_LENGTH(*curve_list_array) * (float) 3.0) + (float) 0.666,
+      notify_progress(((float) this_list) / (CURVE_LIST_ARRAY_LENGTH(*curve_list_array) * (float) 3.0) + (float) (2.0 / 3.0),
                       client_data);
     free_curve_list(&CURVE_LIST_ARRAY_ELT(*curve_list_array, this_list));
   }
diff --git a/src/fit.c b/src/fit.c
index 7f8d57b..59ef0fd 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -141,7 +141,7 @@ spline_list_array_type fitted_splines(pixel_outline_list_type pixel_outline_list
     curve_list_type curves = CURVE_LIST_ARRAY_ELT(curve_array, this_list);
 
     if (notify_progress)
-      notify_progress((((float) this_list) / ((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) 0.333), progress_data);
+      notify_progress((((float) this_list) / ((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) (1.0 / 3.0)), progress_data);
     if (test_cancel && test_cancel(testcancel_data))
       goto cleanup;
 
-- 
2.43.0


From fa44aa9987b97377f1c79c34765bbf637538c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:33 +0000
Subject: [PATCH 059/107] fix: do not close a path in an SVG file without paths

---
 src/output-svg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/output-svg.c b/src/output-svg.c
index f1d7780..857a112 100644
--- a/src/output-svg.c
+++ b/src/output-svg.c
@@ -58,10 +58,11 @@ static void out_splines(FILE * file, spline_list_array_type shape, int height)
       last_color = list.color;
     }
   }
-  if (!(shape.centerline || list.open))
-    fputs("z", file);
-  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0)
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (!(shape.centerline || list.open))
+      fputs("z", file);
     fputs("\"/>\n", file);
+  }
 }
 
 int output_svg_writer(FILE * file, char * name, int llx, int lly, int urx, int ury, at_output_opts_type * opts, spline_list_array_type shape, at_msg_func msg_func, void * msg_data, void * user_data)
-- 
2.43.0


From f1051a64cabffe48d5ccb711f3fdf2e704293c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:33 +0000
Subject: [PATCH 060/107] fix: keep all shapes of one color in the p2e output

---
 src/output-p2e.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-p2e.c b/src/output-p2e.c
index 9ce7875..0ee7597 100644
--- a/src/output-p2e.c
+++ b/src/output-p2e.c
@@ -170,10 +170,10 @@ static void out_splines(FILE * ps_file, spline_list_array_type shape)
       y -= k;
       OUT("%.3f %.3f %.3f %.3f %s\n", (double)c / 255.0, (double)m / 255.0, (double)y / 255.0, (double)k / 255.0, "setcmykcolor");
 #endif
+      OUT_LINE("newpath");
       last_color = list.color;
     }
 
-    OUT_LINE("newpath");
     OUT_COMMAND2(START_POINT(first).x, START_POINT(first).y, "moveto");
 
     for (this_spline = 0; this_spline < SPLINE_LIST_LENGTH(list); this_spline++) {
-- 
2.43.0


From 82aa5a3aef216fe67c0600d3973118297a80515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:33 +0000
Subject: [PATCH 061/107] fix: do not fill the holes in the sk output

---
 src/output-sk.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/output-sk.c b/src/output-sk.c
index 480865a..81466b0 100644
--- a/src/output-sk.c
+++ b/src/output-sk.c
@@ -22,12 +22,14 @@
 #endif /* Def: HAVE_CONFIG_H */
 
 #include "spline.h"
+#include "color.h"
 #include "output-sk.h"
 
 static void out_splines(FILE * file, spline_list_array_type shape)
 {
   unsigned this_list;
   spline_list_type list;
+  at_color last_color = { 0, 0, 0 };
 
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     unsigned this_spline;
@@ -40,13 +42,18 @@ static void out_splines(FILE * file, spline_list_array_type shape)
 
     stroke = shape.centerline || list.open;
 
-    /* If stroke, set outline color and no fill, otherwise set fill
-     * color and no outline */
-    fprintf(file, "%s((%g,%g,%g))\n", stroke ? "lp" : "fp", list.color.r / 255.0, list.color.g / 255.0, list.color.b / 255.0);
-    fputs(stroke ? "fe()\n" : "le()\n", file);
-
-    /* Start a bezier object */
-    fputs("b()\n", file);
+    if (this_list == 0 || !at_color_equal(&list.color, &last_color)) {
+      /* If stroke, set outline color and no fill, otherwise set fill
+       * color and no outline */
+      fprintf(file, "%s((%g,%g,%g))\n", stroke ? "lp" : "fp", list.color.r / 255.0, list.color.g / 255.0, list.color.b / 255.0);
+      fputs(stroke ? "fe()\n" : "le()\n", file);
+
+      /* Start a bezier object */
+      fputs("b()\n", file);
+      last_color = list.color;
+    } else
+      /* Shapes of one color, holes among them, belong to one object */
+      fputs("bn()\n", file);
 
     /* Move to the start point */
     fprintf(file, "bs(%g,%g,0)\n", START_POINT(first).x, START_POINT(first).y);
-- 
2.43.0


From bfe492d156a947df4013d704ea7ea4ec5c312f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:33 +0000
Subject: [PATCH 062/107] fix: report the unsupported POV centerline output
 instead of exiting

---
 src/output-pov.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/output-pov.c b/src/output-pov.c
index daa3ddf..0d2fa0f 100644
--- a/src/output-pov.c
+++ b/src/output-pov.c
@@ -26,6 +26,7 @@
 #include "color.h"
 #include "output-pov.h"
 #include "logreport.h"
+#include "exception.h"
 #include "autotrace.h"
 #include <string.h>
 #include <math.h>
@@ -107,8 +108,11 @@ static void out_splines(FILE * pov_file, spline_list_array_type shape)
 
 int output_pov_writer(FILE *pov_file, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *opts,
                       spline_list_array_type shape, at_msg_func msg_func, void *msg_data, void *user_data) {
-  if (shape.centerline == true)
-    FATAL("Povray output currently not supported for centerline method");
+  if (shape.centerline == true) {
+    at_exception_type exp = at_exception_new(msg_func, msg_data);
+    at_exception_fatal(&exp, "Povray output currently not supported for centerline method");
+    return -1;
+  }
 
   out_splines(pov_file, shape);
 
-- 
2.43.0


From e6a33dda9b0eb0fd3403c0324a99f627f3091921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 063/107] fix: start each FIG file with an empty palette and
 bounding box

---
 src/output-fig.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-fig.c b/src/output-fig.c
index 38d777d..564049a 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -155,6 +155,8 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
 
   /* Preload the big 8 */
   fig_col_init();
+  LAST_FIG_COLOUR = 32;
+  glo_bbox_flag = loc_bbox_flag = 0;
 
   /*  Load the colours from the splines */
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
-- 
2.43.0


From 81b7542277593738293f44097ad9e16c1cf89616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 064/107] fix: do not write past the FIG palette when there are
 too many colors

---
 src/output-fig.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/output-fig.c b/src/output-fig.c
index 564049a..6c32a0f 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -436,16 +436,16 @@ static int get_fig_colour(at_color this_colour, at_exception_type * exp)
   }
 
   if (fig_hash[hash].colour == 0) {
+    if (LAST_FIG_COLOUR > MAX_FIG_COLOUR) {
+      LOG("Output-Fig: too many colours: %d", LAST_FIG_COLOUR);
+      at_exception_fatal(exp, "Output-Fig: too many colours");
+      return 0;
+    }
     fig_hash[hash].colour = LAST_FIG_COLOUR;
     fig_colour_map[LAST_FIG_COLOUR].c.r = this_colour.r;
     fig_colour_map[LAST_FIG_COLOUR].c.g = this_colour.g;
     fig_colour_map[LAST_FIG_COLOUR].c.b = this_colour.b;
     LAST_FIG_COLOUR++;
-    if (LAST_FIG_COLOUR >= MAX_FIG_COLOUR) {
-      LOG("Output-Fig: too many colours: %d", LAST_FIG_COLOUR);
-      at_exception_fatal(exp, "Output-Fig: too many colours");
-      return 0;
-    }
     return (fig_hash[hash].colour);
   } else {
     i = 0;
@@ -457,16 +457,16 @@ figcolloop:
     }
     /* If next colour zero - set it, return */
     if (fig_colour_map[this_ind].alternate == 0) {
+      if (LAST_FIG_COLOUR > MAX_FIG_COLOUR) {
+        LOG("Output-Fig: too many colours: %d", LAST_FIG_COLOUR);
+        at_exception_fatal(exp, "Output-Fig: too many colours");
+        return 0;
+      }
       fig_colour_map[this_ind].alternate = LAST_FIG_COLOUR;
       fig_colour_map[LAST_FIG_COLOUR].c.r = this_colour.r;
       fig_colour_map[LAST_FIG_COLOUR].c.g = this_colour.g;
       fig_colour_map[LAST_FIG_COLOUR].c.b = this_colour.b;
       LAST_FIG_COLOUR++;
-      if (LAST_FIG_COLOUR >= MAX_FIG_COLOUR) {
-        LOG("Output-Fig: too many colours: %d", LAST_FIG_COLOUR);
-        at_exception_fatal(exp, "Output-Fig: too many colours");
-        return 0;
-      }
       return (fig_colour_map[this_ind].alternate);
     }
     /* Else get next colour */
-- 
2.43.0


From 93c95a2db17fe5b9568e1a95d632ea752bcc674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 065/107] fix: paint holes in the background color in the FIG
 output

---
 src/output-fig.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/output-fig.c b/src/output-fig.c
index 6c32a0f..403ae78 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -190,11 +190,7 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
     XMALLOC(pointy, maxlength * sizeof(int));
     XMALLOC(contrl, maxlength * sizeof(float));
 
-    if (list.clockwise) {
-      fig_colour = FIG_WHITE;
-    } else {
-      fig_colour = spline_colours[this_list];
-    }
+    fig_colour = spline_colours[this_list];
 
     fig_spline_close = 5;
 
-- 
2.43.0


From 2228a7f813b8ad489b76d56e6abb50acba58fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 066/107] fix: include the end of a line in its FIG bounding
 box

---
 src/output-fig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-fig.c b/src/output-fig.c
index 403ae78..71453d6 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -210,7 +210,7 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
         pointx[pointcount] = FIG_X(END_POINT(s).x);
         pointy[pointcount] = FIG_Y(END_POINT(s).y);
         contrl[pointcount] = (float) 0.0;
-        fig_addtobbox(START_POINT(s).x, START_POINT(s).y);
+        fig_addtobbox(END_POINT(s).x, END_POINT(s).y);
         pointcount++;
       } else {                  /* Assume Bezier like spline */
 
-- 
2.43.0


From af52d81571a6c9c79f083f6183d73d49b4c240f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 067/107] fix: give each MIF shape its own color

---
 src/output-mif.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index 76f4d43..c292ddd 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -158,6 +158,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
 
+    curr_color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
     for (i = 0; i < n_ctbl; i++)
       if (at_color_equal(&curr_color, &col_tbl[i].c))
         break;
-- 
2.43.0


From 0a8a9d0f9d8f0bc7ab8161e9ccae3504dbf478a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 068/107] fix: write the end point of curves in the MIF output

---
 src/output-mif.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index c292ddd..71edf4f 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -180,6 +180,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
         for (temp = dt; fabs(temp - (float) 1.0) > dt; temp += dt) {
           print_coord(ps_file, bezpnt(temp, START_POINT(s).x, CONTROL1(s).x, CONTROL2(s).x, END_POINT(s).x), bezpnt(temp, START_POINT(s).y, CONTROL1(s).y, CONTROL2(s).y, END_POINT(s).y));
         }
+        print_coord(ps_file, END_POINT(s).x, END_POINT(s).y);
       }
     }
     fprintf(ps_file, "  <Smoothed %s>\n", smooth ? "Yes" : "No");
-- 
2.43.0


From ad5baba103585a4b82b98346071d93cc2b79d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 069/107] fix: place MIF shapes inside their frame

---
 src/output-mif.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-mif.c b/src/output-mif.c
index 71edf4f..fd86491 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -96,7 +96,7 @@ static float bezpnt(float t, float z1, float z2, float z3, float z4) {
 ===========================================================================*/
 static void print_coord(FILE *f, float x, float y)
 {
-  fprintf(f, "  <Point %.2f %.2f>\n", x * 72.0 / cbox.dpi, (cbox.ury - y + 1) * 72.0 / cbox.dpi);
+  fprintf(f, "  <Point %.2f %.2f>\n", x * 72.0 / cbox.dpi, (cbox.ury - y) * 72.0 / cbox.dpi);
 }
 
 /*===========================================================================
-- 
2.43.0


From 1117fe111e044572c9de7c84675f04343204fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 070/107] fix: allow any number of colors in the MIF output and
 free them

---
 src/output-mif.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/output-mif.c b/src/output-mif.c
index fd86491..94837fe 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -107,10 +107,12 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
 {
   unsigned this_list;
   int i;
-  ColorT col_tbl[256];
+  ColorT *col_tbl;
   int n_ctbl = 0;
   at_color curr_color = { 0, 0, 0 };
 
+  XMALLOC(col_tbl, (SPLINE_LIST_ARRAY_LENGTH(shape) + 1) * sizeof(ColorT));
+
   cbox.llx = llx;
   cbox.lly = lly;
   cbox.urx = urx;
@@ -187,5 +189,9 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
     fprintf(ps_file, " >\n");
   }
   fprintf(ps_file, ">\n");
+
+  for (i = 0; i < n_ctbl; i++)
+    free(col_tbl[i].tag);
+  free(col_tbl);
   return 0;
 }
-- 
2.43.0


From dac8875fe50623ec8cd18ee5d06dc2069406e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 071/107] fix: put black shapes on their own DXF layer

---
 src/output-dxf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index 6e77b03..e74c70b 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -581,11 +581,11 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
   xypnt pnt, pnt_old = { 0, 0 };
   char fin, new_layer = 0, layerstr[10];
   int i, first_seg = 1, idx;
+  at_color last_color = { 0, 0, 0 };
 
   strcpy(layerstr, "C1");
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     unsigned this_spline;
-    at_color last_color = { 0, 0, 0 };
 
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
-- 
2.43.0


From e0fa40692d4187f4da753720065c3cefcbe49a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 072/107] fix: do not begin the first DXF polyline twice

---
 src/output-dxf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index e74c70b..b1bb3d3 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -612,6 +612,7 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
         pnt_old.yp = lround(starty * RESOLUTION);
       }
     } else {
+      new_layer = 0;
       fprintf(dxf_file, "  0\nPOLYLINE\n  8\n%s\n  66\n1\n  10\n%f\n  20\n%f\n", layerstr, startx, starty);
       fprintf(dxf_file, "  0\nVERTEX\n  8\n%s\n  10\n%f\n  20\n%f\n", layerstr, startx, starty);
       pnt_old.xp = lround(startx * RESOLUTION);
-- 
2.43.0


From 8cd195615611b448198f4020680cda22915d5c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 073/107] fix: do not end a DXF polyline that never began

---
 src/output-dxf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index b1bb3d3..1d3d28f 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -691,7 +691,8 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
     last_color = curr_color;
   }
 
-  fprintf(dxf_file, "  0\nSEQEND\n  8\n0\n");
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0)
+    fprintf(dxf_file, "  0\nSEQEND\n  8\n0\n");
 
 }
 
-- 
2.43.0


From 6469a53001f8420fb6b16cbfab79e851de17c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 074/107] fix: do not interrupt DXF polylines at very short
 curves

---
 src/output-dxf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index 1d3d28f..0ecf175 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -529,6 +529,8 @@ int bspline_to_lines(xypnt_head_rec * vtx_list /*  */ ,
     total_length = get_total_length(vtx_list);
     r = (spline_resolution == 0) ? sqrt(total_length) : total_length / spline_resolution;
     number_of_segments = lround(r);
+    if (number_of_segments < 1)
+      number_of_segments = 1;
     spline_step = ((double)knot[vtx_count + spline_order - 1]) / number_of_segments;
     for (knot_index = spline_order - 1; knot_index < vtx_count; knot_index++) {
       for (i = 0; i <= vtx_count + spline_order - 2; i++)
-- 
2.43.0


From 7ebb967333c61df8f88209e23f068e6bae281b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 075/107] fix: start each ILDA file with a new frame and free
 it

---
 src/output-ild.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/output-ild.c b/src/output-ild.c
index de5c28e..b8542d2 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -951,6 +951,26 @@ void drawCubicBezier(double x1, double y1, double cx1, double cy1, double cx2, d
 
 }
 
+/** frees all frames and gets ready for the next file */
+static void freeLaserSequence(void)
+{
+  LaserFrame *f = drawsequence->frame_first, *fn;
+  LaserPoint *p, *pn;
+
+  for (; f; f = fn) {
+    fn = f->next;
+    for (p = f->point_first; p; p = pn) {
+      pn = p->next;
+      free(p);
+    }
+    free(f);
+  }
+  free(drawsequence);
+  drawsequence = NULL;
+  drawframe = NULL;
+  inserted_anchor_points = 0;
+}
+
 /* Parses the spline data and writes out ILDA (*.ILD) formatted file */
 static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_list_array_type shape)
 {
@@ -1030,8 +1050,10 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   /* Output ILDA */
   OutputILDA(file, llx, lly, urx, ury, shape);
 
-  if (file == stdout)
+  if (file == stdout) {
+    freeLaserSequence();
     return 0;
+  }
 
   printf("Wrote %d frame with %d points (%d anchors", sequence_frame_count(drawsequence), frame_point_count(drawframe), inserted_anchor_points);
   if (trueColorWrite)
@@ -1039,5 +1061,6 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   if (writeTable)
     printf(", Color Table");
   printf(").\n");
+  freeLaserSequence();
   return 0;
 }
-- 
2.43.0


From bfb91f28c3dea29faf9ec9a367fd856faad38bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 076/107] fix: end open ER shapes with a straight line where
 the last piece is one

---
 src/output-er.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/output-er.c b/src/output-er.c
index 2d2eab9..d9f3c5f 100644
--- a/src/output-er.c
+++ b/src/output-er.c
@@ -114,10 +114,10 @@ static void out_splines(FILE * er_file, spline_list_array_type shape, unsigned w
     }
 
     if (list.open || length == 1) {
-      x0 = CONTROL2(prev).x;
-      y0 = CONTROL2(prev).y;
       x2 = x1 = END_POINT(prev).x;
       y2 = y1 = END_POINT(prev).y;
+      x0 = SPLINE_DEGREE(prev) == CUBICTYPE ? CONTROL2(prev).x : x1;
+      y0 = SPLINE_DEGREE(prev) == CUBICTYPE ? CONTROL2(prev).y : y1;
 
       fprintf(er_file, "\t\t\t(%f, %f), (%f, %f), (%f, %f),\n", x0 / width, y0 / height, x1 / width, y1 / height, x2 / width, y2 / height);
     }
@@ -156,8 +156,8 @@ static void out_splines(FILE * er_file, spline_list_array_type shape, unsigned w
         prev = s;
       }
       if (list.open || length == 1) {
-        x0 = CONTROL2(prev).z;
         x2 = x1 = END_POINT(prev).z;
+        x0 = SPLINE_DEGREE(prev) == CUBICTYPE ? CONTROL2(prev).z : x1;
         fprintf(er_file, "\t\t\t%g, %g, %g,\n", x0 * w, x1 * w, x2 * w);
       }
       /* Close PointList and enclosing WeightKey. */
-- 
2.43.0


From 66847d67288bbc73ebdadd777ced119986303acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:42 +0000
Subject: [PATCH 077/107] fix: report an ILDA frame with too many points
 instead of writing a wrong count

---
 src/output-ild.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/output-ild.c b/src/output-ild.c
index b8542d2..5cbe752 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -34,6 +34,7 @@
 
 #include "spline.h"
 #include "xstd.h"
+#include "exception.h"
 
 #ifdef MAX
 #undef MAX
@@ -972,7 +973,7 @@ static void freeLaserSequence(void)
 }
 
 /* Parses the spline data and writes out ILDA (*.ILD) formatted file */
-static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_list_array_type shape)
+static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_list_array_type shape, at_exception_type * exp)
 {
   unsigned int this_list, this_spline;
   spline_list_type curr_list;
@@ -1023,12 +1024,18 @@ static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_l
   }
 
   frameDrawFinish();
+  /* The frame header has 16 bits for the number of points. */
+  if (frame_point_count(drawframe) > 65535) {
+    at_exception_fatal(exp, "Output-ILDA: too many points for one frame");
+    return;
+  }
   writeILDA(fdes, drawsequence);
 }
 
 int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *opts,
                       at_spline_list_array_type shape, at_msg_func msg_func, void *msg_data, void *user_data)
 {
+  at_exception_type exp = at_exception_new(msg_func, msg_data);
 
 #ifdef _WINDOWS
   if (file == stdout) {
@@ -1048,7 +1055,12 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   anchor_thresh = 40;
 
   /* Output ILDA */
-  OutputILDA(file, llx, lly, urx, ury, shape);
+  OutputILDA(file, llx, lly, urx, ury, shape, &exp);
+
+  if (at_exception_got_fatal(&exp)) {
+    freeLaserSequence();
+    return -1;
+  }
 
   if (file == stdout) {
     freeLaserSequence();
-- 
2.43.0


From 4d4c2d8a2503fe060eb914824d8c2fdfd2d24e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:18 +0000
Subject: [PATCH 078/107] fix: do not delete objects that an empty EMF file
 never created

---
 src/output-emf.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index 8cc13ee..0c69318 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -843,14 +843,16 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   }
 
   // cleanup Pen and Brush
-  if (shape.centerline) {
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline) {
+      nrecords++;
+      filesize += WriteDeleteObject(NULL, 0);
+    }
+
     nrecords++;
     filesize += WriteDeleteObject(NULL, 0);
   }
 
-  nrecords++;
-  filesize += WriteDeleteObject(NULL, 0);
-
   // emf stats :: header + footer
   nrecords += 2;
   filesize += WriteEndOfMetafile(NULL) + WriteHeader(NULL, name, 0, 0, 0, 0, 0);
@@ -962,9 +964,11 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
   }
 
   //cleanup DC
-  if (shape.centerline)
-    WriteDeleteObject(fdes, MK_PEN(last_index));
-  WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline)
+      WriteDeleteObject(fdes, MK_PEN(last_index));
+    WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  }
 
   //output EndOfMetafile
   WriteEndOfMetafile(fdes);
-- 
2.43.0


From 0f9298d2b30bba3bc9ed395e8a6affdf3da0b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:18 +0000
Subject: [PATCH 079/107] fix: paint holes in the background color in the EMF
 output

---
 src/output-emf.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index 0c69318..1933b63 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -752,6 +752,14 @@ static void OutputEmf(FILE* fdes, EMFStats *stats, char* name, int width, int he
 
 */
 
+/* holes are painted in the background color */
+static uint32_t ListColor(spline_list_array_type shape, spline_list_type list)
+{
+  at_color color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
+
+  return MAKE_COLREF(color.r, color.g, color.b);
+}
+
 static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shape)
 {
   unsigned int this_list, this_spline;
@@ -768,7 +776,7 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   // visit each spline-list
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     curr_list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
-    curr_color = MAKE_COLREF(curr_list.color.r, curr_list.color.g, curr_list.color.b);
+    curr_color = ListColor(shape, curr_list);
     if (this_list == 0 || curr_color != last_color) {
       ncolorchng++;
       if (!SearchColor(color_list, curr_color)) {
@@ -894,7 +902,7 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
     curr_list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
 
     // output pen & brush selection
-    curr_color = MAKE_COLREF(curr_list.color.r, curr_list.color.g, curr_list.color.b);
+    curr_color = ListColor(shape, curr_list);
     if (this_list == 0 || curr_color != last_color) {
 
       color_index = ColorLookUp(curr_color, color_table, stats->ncolors);
-- 
2.43.0


From ff9a05c64bbf8715b68524bd51c8c890337d7eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:18 +0000
Subject: [PATCH 080/107] fix: write the corners of the CGM extent as x, y
 pairs

---
 src/output-cgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index 3f85672..c257ca4 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -161,8 +161,8 @@ int output_cgm_writer(FILE *cgm_file, char *name, int llx, int lly, int urx, int
 
   write16(cgm_file, 0x20C8);    /* vdc extend */
   write16(cgm_file, (uint16_t) llx /*0x0000 */ );
-  write16(cgm_file, (uint16_t) urx /*0x7FFF */ );
   write16(cgm_file, (uint16_t) ury /*0x7FFF */ );
+  write16(cgm_file, (uint16_t) urx /*0x7FFF */ );
   write16(cgm_file, (uint16_t) lly /*0x0000 */ );
 
   write16(cgm_file, 0x0080);    /* begin picture body */
-- 
2.43.0


From 3598886281bdedbd5c1bea0ef4f56841b9da15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:25 +0000
Subject: [PATCH 081/107] fix: do not write an edge thickness of 0 in the DR2D
 output

---
 src/output-dr2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index 2c20eb6..24e2dac 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -605,7 +605,7 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
     XFactor = YFactor;
   }
 
-  LineThickness = (float)1.0 / opts->dpi;
+  LineThickness = ((float)1.0 / opts->dpi) * (1 << FIXOFFS);
 
   DRHDChunk = BuildDRHD(llx, lly, urx, ury);
   PPRFChunk = BuildPPRF("Inch", Portrait, "A4", 1.0);
-- 
2.43.0


From 130bffba8e18224c51a87e351f4f91c9b0ec5600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:32 +0000
Subject: [PATCH 082/107] fix: flip the start point in the DR2D bounding boxes

---
 src/output-dr2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index 24e2dac..ec6bf76 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -186,9 +186,9 @@ static struct Chunk *BuildBBOX(spline_list_type list, int height)
   s = SPLINE_LIST_ELT(list, 0);
 
   x1 = START_POINT(s).x;
-  y1 = START_POINT(s).y;
+  y1 = height - START_POINT(s).y;
   x2 = START_POINT(s).x;
-  y2 = START_POINT(s).y;
+  y2 = height - START_POINT(s).y;
 
   this_spline_length = SPLINE_LIST_LENGTH(list);
   for (this_spline = 0; this_spline < this_spline_length; this_spline++) {
-- 
2.43.0


From 143b1fa52e42a49e30fd6a55fb32efc6c2c0599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:32 +0000
Subject: [PATCH 083/107] fix: free the list of DR2D chunks

---
 src/output-dr2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index ec6bf76..9aa8ec2 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -635,6 +635,7 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
   FreeChunk(CMAPChunk);
   WriteChunks(file, ChunkList, NumSplines);
   FreeChunks(ChunkList, NumSplines);
+  free(ChunkList);
 
   return 0;
 }
-- 
2.43.0


From 21298ca15a798c8e988e896da14b4012ccfcc979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:46 +0000
Subject: [PATCH 084/107] fix: write CGM file names of 255 and more characters

---
 src/output-cgm.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index c257ca4..00cfdc5 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -62,15 +62,21 @@ static bool write8(FILE *fdes, uint8_t data)
 static bool output_beginmetafilename(FILE *fdes, const char *string)
 {
   size_t len = strlen(string);
+  bool is_long = len >= 255; /* the length of a long string takes three bytes */
+  size_t size = len + (is_long ? 3 : 1);
 
-  if (len + 1 < 0x001F)
-    write16(fdes, (uint16_t) (CGM_BEGINMETAFILE + len + 1));
+  if (size < 0x001F)
+    write16(fdes, (uint16_t) (CGM_BEGINMETAFILE + size));
   else {
     write16(fdes, CGM_BEGINMETAFILE + 0x001F);
-    write16(fdes, (uint16_t) (len + 1));
+    write16(fdes, (uint16_t) size);
   }
 
-  write8(fdes, (uint8_t) len);
+  if (is_long) {
+    write8(fdes, 255);
+    write16(fdes, (uint16_t) len);
+  } else
+    write8(fdes, (uint8_t) len);
 
   while (*string != '\0') {
     write8(fdes, *string);
-- 
2.43.0


From 4f30b52daa03d4536f361aabcfe138118594acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:43 +0000
Subject: [PATCH 085/107] fix: restore the number locale after writing splines

---
 src/autotrace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autotrace.c b/src/autotrace.c
index dd17893..a3f6b1c 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -356,6 +356,7 @@ void at_splines_write(at_spline_writer *writer, FILE *writeto, char *file_name,
                       at_splines_type *splines, at_msg_func msg_func, void *msg_data) {
   bool new_opts = false;
   int llx, lly, urx, ury;
+  char *locale;
   llx = 0;
   lly = 0;
   urx = splines->width;
@@ -369,8 +370,11 @@ void at_splines_write(at_spline_writer *writer, FILE *writeto, char *file_name,
     opts = at_output_opts_new();
   }
 
+  locale = strdup(setlocale(LC_NUMERIC, NULL));
   setlocale(LC_NUMERIC, "C");
   (*writer->func)(writeto, file_name, llx, lly, urx, ury, opts, *splines, msg_func, msg_data, NULL);
+  setlocale(LC_NUMERIC, locale);
+  free(locale);
   if (new_opts)
     at_output_opts_free(opts);
 }
-- 
2.43.0


From 434d01a311e7b86f6a1ea4b0102e509e3c438534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:19 +0000
Subject: [PATCH 086/107] fix: accept file names without a dot when looking up
 a handler

---
 src/input.cpp  | 3 ++-
 src/output.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index af0ac19..85742c3 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -68,9 +68,10 @@ int at_input_add_handler_full(const char *suffix, const char *description, at_in
 
 at_bitmap_reader *at_input_get_handler(char *filename) {
   char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
   if (dot_pos == nullptr)
     dot_pos = const_cast<char *>("");
+  else
+    dot_pos++;
 
   return at_input_get_handler_by_suffix(dot_pos);
 }
diff --git a/src/output.cpp b/src/output.cpp
index 76435ae..9ca21a8 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -66,9 +66,10 @@ int at_output_add_handler(const char *suffix, const char *description, at_output
 
 at_spline_writer *at_output_get_handler(char *filename) {
   char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
   if (dot_pos == nullptr)
     dot_pos = const_cast<char *>("");
+  else
+    dot_pos++;
 
   return at_output_get_handler_by_suffix(dot_pos);
 }
-- 
2.43.0


From f9a0373b97a3a010ff7735e194067f9754193379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:19 +0000
Subject: [PATCH 087/107] fix: honour the -preserve-width option

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 811d213..7cd4674 100644
--- a/src/main.c
+++ b/src/main.c
@@ -402,7 +402,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       output_writer = at_output_get_handler_by_suffix(optarg);
       if (output_writer == NULL)
         FATAL(_("Output format %s is not supported"), optarg);
-    } else if (ARGUMENT_IS("preserve_width"))
+    } else if (ARGUMENT_IS("preserve-width"))
       fitting_opts->preserve_width = true;
 
     else if (ARGUMENT_IS("remove-adjacent-corners"))
-- 
2.43.0


From 6da787659f2fba5ed01e902206972d6240cea6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:19 +0000
Subject: [PATCH 088/107] fix: do not free uninitialized pointers in -help

---
 src/main.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7cd4674..ad5315a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -363,12 +363,9 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       fitting_opts->filter_iterations = atou(optarg);
 
     else if (ARGUMENT_IS("help")) {
-      char *ishortlist, *oshortlist;
       fprintf(stderr, _("Usage: %s [options] <input_file_name>.\n"), argv[0]);
       fprintf(stderr, USAGE1);
       /*fprintf(stderr, USAGE2, ishortlist = at_input_shortlist(), oshortlist = at_output_shortlist());*/
-      free(ishortlist);
-      free(oshortlist);
       fprintf(stderr, _("\nYou can get the source code of autotrace from \n%s\n"), at_home_site());
       exit(0);
     }
-- 
2.43.0


From 2254163cb82221ab57b733bb347c4d7e16ced662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:19 +0000
Subject: [PATCH 089/107] fix: do not let getopt store an int in a bool

---
 src/main.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index ad5315a..9b7db08 100644
--- a/src/main.c
+++ b/src/main.c
@@ -41,13 +41,13 @@ static char *output_name = (char *)"";
 static at_spline_writer *output_writer = NULL;
 
 /* Whether to print version information */
-static bool printed_version;
+static int printed_version;
 
 /* Whether to dump a bitmap file */
-static bool dumping_bitmap = false;
+static int dumping_bitmap = false;
 
 /* Report tracing status in real time (--report-progress) */
-static bool report_progress = false;
+static int report_progress = false;
 #define dot_printer_max_column 50
 #define dot_printer_char '|'
 static void dot_printer(float percentage, void *client_data);
@@ -264,7 +264,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   = { {"align-threshold", 1, 0, 0},
   {"background-color", 1, 0, 0},
   {"debug-arch", 0, 0, 0},
-  {"debug-bitmap", 0, (int *)&dumping_bitmap, 1},
+  {"debug-bitmap", 0, &dumping_bitmap, 1},
   {"centerline", 0, 0, 0},
   {"charcode", 1, 0, 0},
   {"color-count", 1, 0, 0},
@@ -282,7 +282,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"line-threshold", 1, 0, 0},
   {"list-output-formats", 0, 0, 0},
   {"list-input-formats", 0, 0, 0},
-  {"log", 0, (int *)&logging, 1},
+  {"log", 0, 0, 0},
   {"noise-removal", 1, 0, 0},
   {"output-file", 1, 0, 0},
   {"output-format", 1, 0, 0},
@@ -291,8 +291,8 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"remove-adjacent-corners", 0, 0, 0},
   {"remove-knees",    0, 0, 0 },
   {"tangent-surround", 1, 0, 0},
-  {"report-progress", 0, (int *)&report_progress, 1},
-  {"version", 0, (int *)&printed_version, 1},
+  {"report-progress", 0, &report_progress, 1},
+  {"version", 0, &printed_version, 1},
   {"width-weight-factor", 1, 0, 0},
   {0, 0, 0, 0}
   };
@@ -392,6 +392,9 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       exit(0);
     }
 
+    else if (ARGUMENT_IS("log"))
+      logging = true;
+
     else if (ARGUMENT_IS("output-file"))
       output_name = optarg;
 
-- 
2.43.0


From b7aafd9305754860a778a03de4e7d645b4d394ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:19 +0000
Subject: [PATCH 090/107] fix: keep the old output file when the input cannot
 be read

---
 src/main.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index 9b7db08..3f8a4b3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -133,6 +133,14 @@ int main(int argc, char *argv[])
       FATAL(_("Default format %s is not supported"), DEFAULT_FORMAT);
   }
 
+  /* Open the main input file.  */
+  if (input_reader != NULL) {
+    bitmap = at_bitmap_read(input_reader, input_name, input_opts, exception_handler, NULL);
+
+    at_input_opts_free(input_opts);
+  } else
+    FATAL(_("Unsupported input format"));
+
   /* Open output file */
   if (!strcmp(output_name, ""))
     output_file = stdout;
@@ -144,14 +152,6 @@ int main(int argc, char *argv[])
     }
   }
 
-  /* Open the main input file.  */
-  if (input_reader != NULL) {
-    bitmap = at_bitmap_read(input_reader, input_name, input_opts, exception_handler, NULL);
-
-    at_input_opts_free(input_opts);
-  } else
-    FATAL(_("Unsupported input format"));
-
   if (report_progress) {
     progress_reporter = dot_printer;
     fprintf(stderr, "%-15s", input_name);
-- 
2.43.0


From 44e863df9e7ae82b95700c2e7de6df52c045f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:19 +0000
Subject: [PATCH 091/107] fix: report an output that could not be written
 completely

---
 src/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 3f8a4b3..51eb988 100644
--- a/src/main.c
+++ b/src/main.c
@@ -184,8 +184,10 @@ int main(int argc, char *argv[])
   at_splines_write(output_writer, output_file, output_name, output_opts, splines, exception_handler, NULL);
   at_output_opts_free(output_opts);
 
-  if (output_file != stdout)
-    fclose(output_file);
+  if (fflush(output_file) != 0 || ferror(output_file))
+    FATAL(_("Could not write all of the output"));
+  if (output_file != stdout && fclose(output_file) != 0)
+    FATAL(_("Could not write all of the output"));
 
   at_splines_free(splines);
   at_bitmap_free(bitmap);
-- 
2.43.0


From 02c2c3e16b5cbcf417162606f601094d0b5f0b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:19 +0000
Subject: [PATCH 092/107] fix: do not print color errors into the output

---
 src/color.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color.c b/src/color.c
index 2fb539d..9022314 100644
--- a/src/color.c
+++ b/src/color.c
@@ -55,7 +55,7 @@ at_color *at_color_parse(const char *string, struct GError **err) {
   else if (string[0] == '\0')
     return NULL;
   else if (strlen(string) != 6) {
-    printf("color string is too short: %s", string);
+    fprintf(stderr, "color string is not 6 digits long: %s\n", string);
     return NULL;
   }
 
@@ -151,7 +151,7 @@ static unsigned int hctoi(char c, struct GError **err)
   else if (c == 'F')
     return (15);
   else {
-    printf("wrong char in color string: %c", c);
+    fprintf(stderr, "wrong char in color string: %c\n", c);
     return (unsigned int)-1;
   }
 }
-- 
2.43.0


From 2a30217f10ef6128c9ddaca450d1a054e4925899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:27 +0000
Subject: [PATCH 093/107] fix: reject color strings with wrong digits

---
 src/color.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/color.c b/src/color.c
index 9022314..bf8ab47 100644
--- a/src/color.c
+++ b/src/color.c
@@ -67,6 +67,8 @@ at_color *at_color_parse(const char *string, struct GError **err) {
       }
       return NULL;
     }
+    if (c[i] > 15)
+      return NULL;
   }
   return at_color_new((unsigned char)(16 * c[0] + c[1]), (unsigned char)(16 * c[2] + c[3]), (unsigned char)(16 * c[4] + c[5]));
 }
-- 
2.43.0


From 5481a42198b05a7845632d156bc33419edf63d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:50 +0000
Subject: [PATCH 094/107] fix: compute the size of large bitmaps without
 overflow

---
 src/autotrace.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index a3f6b1c..bdd723e 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -154,7 +154,7 @@ at_bitmap *at_bitmap_copy(const at_bitmap * src)
   planes = at_bitmap_get_planes(src);
 
   dist = at_bitmap_new(width, height, planes);
-  memcpy(dist->bitmap, src->bitmap, width * height * planes * sizeof(unsigned char));
+  memcpy(dist->bitmap, src->bitmap, (size_t)width * height * planes * sizeof(unsigned char));
   return dist;
 }
 
@@ -165,10 +165,10 @@ at_bitmap at_bitmap_init(unsigned char *area, unsigned short width, unsigned sho
   if (area)
     bitmap.bitmap = area;
   else {
-    if (0 == (width * height))
+    if (width == 0 || height == 0)
       bitmap.bitmap = NULL;
     else
-      XCALLOC(bitmap.bitmap, width * height * planes * sizeof(unsigned char));
+      XCALLOC(bitmap.bitmap, (size_t)width * height * planes * sizeof(unsigned char));
   }
 
   bitmap.width = width;
-- 
2.43.0


From 496f3bf1ad20ddad3617a86b726f83d66530d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:47 +0000
Subject: [PATCH 095/107] fix: accept exactly the JSON colors with parts from 0
 to 255

---
 src/wrapper/Json/JsonHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/Json/JsonHelper.cpp b/src/wrapper/Json/JsonHelper.cpp
index 81817c0..3566671 100644
--- a/src/wrapper/Json/JsonHelper.cpp
+++ b/src/wrapper/Json/JsonHelper.cpp
@@ -56,9 +56,9 @@ std::optional<at_color> JsonHelper::getColor(Json::object jsonObject, std::strin
       return std::nullopt;
     }
 
-    const auto colorsInRange = [](const auto colorValue){ return colorValue > 0 && colorValue < 255; };
+    const auto colorsInRange = [](const auto colorValue){ return colorValue >= 0 && colorValue <= 255; };
 
-    if(!colorsInRange(*maybeRed) && !colorsInRange(maybeGreen) && !colorsInRange(maybeBlue)) {
+    if(!colorsInRange(*maybeRed) || !colorsInRange(*maybeGreen) || !colorsInRange(*maybeBlue)) {
       return std::nullopt;
     }
 
-- 
2.43.0


From 2b538c2c411532621755d37cf6e96e5b23105b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:47 +0000
Subject: [PATCH 096/107] fix: do not leak the color that an
 InputOptionsBuilder replaces

---
 src/wrapper/InputOptionsBuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wrapper/InputOptionsBuilder.cpp b/src/wrapper/InputOptionsBuilder.cpp
index d3ceeca..c8d5cbb 100644
--- a/src/wrapper/InputOptionsBuilder.cpp
+++ b/src/wrapper/InputOptionsBuilder.cpp
@@ -13,7 +13,9 @@ InputOptions InputOptionsBuilder::build() {
 }
 
 InputOptionsBuilder &InputOptionsBuilder::setBackgroudColor(_at_color color) {
-  inputOptions.background_color = at_color_copy(&color);
+  inputOptions.background_color->r = color.r;
+  inputOptions.background_color->g = color.g;
+  inputOptions.background_color->b = color.b;
   return *this;
 }
 
-- 
2.43.0


From 7918229f6381402f9159f54222822c72e40d01f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:47 +0000
Subject: [PATCH 097/107] fix: do not share the background color between
 assigned options

---
 src/wrapper/FittingOptions.cpp | 9 +++++++++
 src/wrapper/FittingOptions.h   | 2 +-
 src/wrapper/InputOptions.cpp   | 9 +++++++++
 src/wrapper/InputOptions.h     | 2 +-
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/FittingOptions.cpp b/src/wrapper/FittingOptions.cpp
index 80e41fd..c4f41dd 100644
--- a/src/wrapper/FittingOptions.cpp
+++ b/src/wrapper/FittingOptions.cpp
@@ -137,3 +137,12 @@ FittingOptions::FittingOptions(const FittingOptions &other) : _at_fitting_opts_t
   preserve_width = other.preserve_width;
   width_weight_factor = other.width_weight_factor;
 }
+
+FittingOptions &FittingOptions::operator=(const FittingOptions &other) {
+  at_color *color = background_color;
+
+  *color = *other.background_color;
+  _at_fitting_opts_type::operator=(other);
+  background_color = color;
+  return *this;
+}
diff --git a/src/wrapper/FittingOptions.h b/src/wrapper/FittingOptions.h
index fdea75b..6de740d 100644
--- a/src/wrapper/FittingOptions.h
+++ b/src/wrapper/FittingOptions.h
@@ -13,7 +13,7 @@ public:
   virtual ~FittingOptions();
 
   FittingOptions(const FittingOptions& other);
-  FittingOptions& operator=(const FittingOptions& other) = default;
+  FittingOptions& operator=(const FittingOptions& other);
 
   explicit FittingOptions(json11::Json fittingOptionsJson);
 
diff --git a/src/wrapper/InputOptions.cpp b/src/wrapper/InputOptions.cpp
index d3d245e..7ea42a8 100644
--- a/src/wrapper/InputOptions.cpp
+++ b/src/wrapper/InputOptions.cpp
@@ -55,3 +55,12 @@ InputOptions::InputOptions(const InputOptions &other) : _at_input_opts_type(othe
 
   charcode = other.charcode;
 }
+
+InputOptions &InputOptions::operator=(const InputOptions &other) {
+  at_color *color = background_color;
+
+  *color = *other.background_color;
+  _at_input_opts_type::operator=(other);
+  background_color = color;
+  return *this;
+}
diff --git a/src/wrapper/InputOptions.h b/src/wrapper/InputOptions.h
index 45c2abb..73c10fc 100644
--- a/src/wrapper/InputOptions.h
+++ b/src/wrapper/InputOptions.h
@@ -14,7 +14,7 @@ public:
   virtual ~InputOptions();
 
   InputOptions(const InputOptions &other);
-  InputOptions& operator=(const InputOptions& other) = default;
+  InputOptions& operator=(const InputOptions& other);
 
   explicit InputOptions(json11::Json inputOptionsJson);
 
-- 
2.43.0


From 29848976f8d93a3b5165d33cd011b7d111ee77c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:02 +0000
Subject: [PATCH 098/107] fix: report the errors of the library from the C++
 wrapper

---
 src/wrapper/autotrace.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/wrapper/autotrace.cpp b/src/wrapper/autotrace.cpp
index 57c9b89..ac37304 100644
--- a/src/wrapper/autotrace.cpp
+++ b/src/wrapper/autotrace.cpp
@@ -9,7 +9,14 @@ Autotrace::Autotrace(const std::string &inputFile, const std::string &outputFile
   autotrace_init();
 }
 
+static void keepFatal(const char *msg, at_msg_type type, void *data) {
+  if (type == AT_MSG_FATAL) {
+    *static_cast<std::string *>(data) = msg;
+  }
+}
+
 nonstd::expected<void, std::string> Autotrace::produceOutput() {
+  std::string fatal;
   const auto inputReader = at_input_get_handler(const_cast<char *>(inputFile.c_str()));
   if (inputReader == nullptr) {
     return nonstd::make_unexpected("Input reader could not be found for " + inputFile);
@@ -26,23 +33,33 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
   }
 
   const auto bitmap = at_bitmap_read(inputReader, const_cast<char *>(inputFile.c_str()),
-                                     const_cast<at_input_opts_type *>(&options.inputOptions), nullptr, nullptr);
+                                     const_cast<at_input_opts_type *>(&options.inputOptions), keepFatal, &fatal);
 
-    if (bitmap->bitmap == nullptr) {
-        return nonstd::make_unexpected("Unable to open file " + inputFile);
-    }
+  if (bitmap->bitmap == nullptr || !fatal.empty()) {
+    at_bitmap_free(bitmap);
+    fclose(outputFile);
+    return nonstd::make_unexpected("Unable to open file " + inputFile + " " + fatal);
+  }
 
-  const auto splines = at_splines_new_full(bitmap, const_cast<at_fitting_opts_type *>(&options.fittingOptions), nullptr,
-                                           nullptr, nullptr, nullptr, nullptr, nullptr);
+  const auto splines = at_splines_new_full(bitmap, const_cast<at_fitting_opts_type *>(&options.fittingOptions),
+                                           keepFatal, &fatal, nullptr, nullptr, nullptr, nullptr);
+  if (splines == nullptr) {
+    at_bitmap_free(bitmap);
+    fclose(outputFile);
+    return nonstd::make_unexpected("Unable to trace " + inputFile + " " + fatal);
+  }
 
   at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
-                   const_cast<at_output_opts_type *>(&options.outputOptions), splines, nullptr, nullptr);
+                   const_cast<at_output_opts_type *>(&options.outputOptions), splines, keepFatal, &fatal);
 
   fclose(outputFile);
 
   at_splines_free(splines);
   at_bitmap_free(bitmap);
 
+  if (!fatal.empty()) {
+    return nonstd::make_unexpected("Unable to write " + outputFilePath + " " + fatal);
+  }
   return nonstd::expected<void, std::string>();
 }
 
-- 
2.43.0


From 6c954342b330e495b6ed869fb1a3c6b401455ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:02 +0000
Subject: [PATCH 099/107] fix: keep the old output file when the C++ wrapper
 cannot read the input

---
 src/wrapper/autotrace.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/wrapper/autotrace.cpp b/src/wrapper/autotrace.cpp
index ac37304..ff25fe0 100644
--- a/src/wrapper/autotrace.cpp
+++ b/src/wrapper/autotrace.cpp
@@ -27,17 +27,11 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
     return nonstd::make_unexpected("Output writer cannot be determined for " + outputFilePath);
   }
 
-  const auto outputFile = fopen(outputFilePath.c_str(), "wb");
-  if (outputFile == nullptr) {
-    return nonstd::make_unexpected("Unable to open file " + outputFilePath);
-  }
-
   const auto bitmap = at_bitmap_read(inputReader, const_cast<char *>(inputFile.c_str()),
                                      const_cast<at_input_opts_type *>(&options.inputOptions), keepFatal, &fatal);
 
   if (bitmap->bitmap == nullptr || !fatal.empty()) {
     at_bitmap_free(bitmap);
-    fclose(outputFile);
     return nonstd::make_unexpected("Unable to open file " + inputFile + " " + fatal);
   }
 
@@ -45,10 +39,16 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
                                            keepFatal, &fatal, nullptr, nullptr, nullptr, nullptr);
   if (splines == nullptr) {
     at_bitmap_free(bitmap);
-    fclose(outputFile);
     return nonstd::make_unexpected("Unable to trace " + inputFile + " " + fatal);
   }
 
+  const auto outputFile = fopen(outputFilePath.c_str(), "wb");
+  if (outputFile == nullptr) {
+    at_splines_free(splines);
+    at_bitmap_free(bitmap);
+    return nonstd::make_unexpected("Unable to open file " + outputFilePath);
+  }
+
   at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
                    const_cast<at_output_opts_type *>(&options.outputOptions), splines, keepFatal, &fatal);
 
-- 
2.43.0


From e9035e635839902838be61c7bf77bb489fd2e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:02 +0000
Subject: [PATCH 100/107] fix: report output that the C++ wrapper could not
 write completely

---
 src/wrapper/autotrace.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wrapper/autotrace.cpp b/src/wrapper/autotrace.cpp
index ff25fe0..6230aac 100644
--- a/src/wrapper/autotrace.cpp
+++ b/src/wrapper/autotrace.cpp
@@ -52,7 +52,10 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
   at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
                    const_cast<at_output_opts_type *>(&options.outputOptions), splines, keepFatal, &fatal);
 
-  fclose(outputFile);
+  const bool failed = ferror(outputFile) != 0;
+  if ((fclose(outputFile) != 0 || failed) && fatal.empty()) {
+    fatal = "write error";
+  }
 
   at_splines_free(splines);
   at_bitmap_free(bitmap);
-- 
2.43.0


From d006728a05273ba0bf35cd6af30a3bb5f0923b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:07 +0000
Subject: [PATCH 101/107] fix: read samples with leading zeros in ASCII PGM and
 PPM files with a maxval of 1

---
 src/input-pnm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index e7dbb14..7043554 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -271,7 +271,7 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
           break;
         case 1:
           if (info->np)
-            d[b] = (*buf == '0') ? 0x00 : 0xff;
+            d[b] = (*buf == '0' && atoi(buf) == 0) ? 0x00 : 0xff;
           else                  /* in a bitmap 1 is black */
             d[b] = (*buf == '0') ? 0xff : 0x00;
           break;
-- 
2.43.0


From 967ef99121ae672de92539c543755d01d983b11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:23 +0000
Subject: [PATCH 102/107] fix: do not take GF character codes modulo 256

---
 src/input-gf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index df8012b..1c7831b 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -696,7 +696,7 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     }
     charcode = i;
   }
-  if (!gf_get_char(font, sym, (unsigned char)charcode)) {
+  if (charcode > 255 || !gf_get_char(font, sym, (unsigned char)charcode)) {
     fclose(font->input_file);
     at_exception_fatal(&exp, "Error reading character from GF file");
     return bitmap;
-- 
2.43.0


From 45e0cbcd82818d3218cf8068051ffce96742bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:22 +0000
Subject: [PATCH 103/107] fix: compute the right bearing of UGS symbols from
 their right edge

---
 src/output-ugs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-ugs.c b/src/output-ugs.c
index a477825..2a40a64 100644
--- a/src/output-ugs.c
+++ b/src/output-ugs.c
@@ -287,7 +287,7 @@ int output_ugs_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   fprintf(file, "symbol %#lx design-size %ld\n", ugs_charcode, ugs_design_pixels);
   fprintf(file, "\tadvance-width %ld\n", ugs_advance_width);
 
-  upperx = ugs_advance_width - ugs_max_col - 1;
+  upperx = ugs_max_col;
   uppery = ugs_max_row;
 
   lowerx = ugs_left_bearing;
-- 
2.43.0


From 4a297282ee81aa05deb811b2d9d4f3d5d72ae82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:05 +0000
Subject: [PATCH 104/107] fix: find the tangent of curves that turn back on
 themselves

---
 src/fit.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fit.c b/src/fit.c
index 59ef0fd..856abab 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -1182,7 +1182,16 @@ static void find_tangent(curve_type curve, bool to_start_point, bool cross_curve
   LOG("  tangent to %s: ", (to_start_point == true) ? "start" : "end");
 
   if (*curve_tangent == NULL) {
+    unsigned longest = CURVE_LENGTH(curve);
+
     XMALLOC(*curve_tangent, sizeof(vector_type));
+
+    /* Looking at more points than there are makes no difference.  */
+    if (cross_curve && CURVE_LENGTH(to_start_point ? PREVIOUS_CURVE(curve) : NEXT_CURVE(curve)) > longest)
+      longest = CURVE_LENGTH(to_start_point ? PREVIOUS_CURVE(curve) : NEXT_CURVE(curve));
+    if (tangent_surround == 0 || tangent_surround > longest)
+      tangent_surround = longest;
+
     do {
       tangent = find_half_tangent(curve, to_start_point, &n_points, tangent_surround);
 
@@ -1198,7 +1207,11 @@ static void find_tangent(curve_type curve, bool to_start_point, bool cross_curve
       tangent_surround--;
 
     }
-    while (tangent.dx == 0.0 && tangent.dy == 0.0);
+    while (tangent.dx == 0.0 && tangent.dy == 0.0 && tangent_surround > 0);
+
+    /* If the curve turns back on itself, both sides may cancel out.  */
+    if (tangent.dx == 0.0 && tangent.dy == 0.0)
+      tangent = find_half_tangent(curve, to_start_point, &n_points, 1);
 
     assert(n_points > 0);
     **curve_tangent = Vmult_scalar(tangent, (float) (1.0 / n_points));
-- 
2.43.0


From 6eda6558480e999eb63f71d7ce91b8e224365bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:31 +0000
Subject: [PATCH 105/107] fix: keep adjacent corners at the start of an outline
 unless their removal is asked for

---
 src/fit.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fit.c b/src/fit.c
index 856abab..a55f246 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -667,10 +667,11 @@ static void remove_adjacent_corners(index_list_type * list, unsigned last_index,
     append_index(&new_list, current);
   }
 
-  /* Don't append the last element if it is 1) adjacent to the previous
-     one; or 2) adjacent to the very first one.  */
+  /* If adjacent corners are removed, don't append the last element if it
+     is 1) adjacent to the previous one; or 2) adjacent to the very first
+     one.  */
   last = GET_LAST_INDEX(*list);
-  if (INDEX_LIST_LENGTH(new_list) == 0 || !(last == GET_LAST_INDEX(new_list) + 1 || (last == last_index && GET_INDEX(*list, 0) == 0)))
+  if (!remove_adj_corners || INDEX_LIST_LENGTH(new_list) == 0 || !(last == GET_LAST_INDEX(new_list) + 1 || (last == last_index && GET_INDEX(*list, 0) == 0)))
     append_index(&new_list, last);
 
   free_index_list(list);
-- 
2.43.0


From 567595e5360b5fb6f558ca42afb411fc218a968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:21:59 +0000
Subject: [PATCH 106/107] fix: report shapes with more points than a DR2D
 polygon can hold

---
 src/output-dr2d.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index 9aa8ec2..039efd9 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -26,6 +26,7 @@
 
 #include "spline.h"
 #include "color.h"
+#include "exception.h"
 #include "output-dr2d.h"
 
 /* Globals: Values are set by output_dr2d_writer() */
@@ -585,6 +586,7 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
 {
   int width = urx - llx;
   int height = ury - lly;
+  unsigned this_list;
   int NumSplines, FORMSize;
   int Portrait;
   struct Chunk *DRHDChunk;
@@ -595,6 +597,14 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
   struct Chunk **ChunkList;
   unsigned char SizeBytes[4];
 
+  /* the number of points of a polygon is stored in 16 bits */
+  for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++)
+    if (CountSplines(SPLINE_LIST_ARRAY_ELT(shape, this_list)) > 0xFFFF) {
+      at_exception_type exp = at_exception_new(msg_func, msg_data);
+      at_exception_fatal(&exp, "dr2d: too many points in a shape");
+      return -1;
+    }
+
   Portrait = width < height;
 
   if (Portrait) {
-- 
2.43.0


From dbe554a24b3b363902bdb8cf563e29dfa9e6be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:21:59 +0000
Subject: [PATCH 107/107] fix: do not overwrite the input file under another of
 its names

---
 src/main.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 51eb988..3f147b0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -17,6 +17,8 @@
 #include <assert.h>
 #include <math.h>
 #include <errno.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 
 #undef N_
 #include "intl.h"
@@ -61,6 +63,19 @@ static void output_list_formats(FILE * file);
 
 static void exception_handler(const char * msg, at_msg_type type, void * data);
 
+/* Whether both names denote one regular file, by way of links for example. */
+static bool same_file(const char *name1, const char *name2)
+{
+#ifndef _WIN32
+  struct stat s1, s2;
+
+  return stat(name1, &s1) == 0 && stat(name2, &s2) == 0 && S_ISREG(s1.st_mode)
+      && s1.st_dev == s2.st_dev && s1.st_ino == s2.st_ino;
+#else
+  return false;
+#endif
+}
+
 static char* itoa(int val, int base) {
 
 	static char buf[32] = { 0 };
@@ -105,7 +120,7 @@ int main(int argc, char *argv[])
 
   input_name = read_command_line(argc, argv, fitting_opts, input_opts, output_opts);
 
-  if (output_name != NULL && input_name != NULL && 0 == strcasecmp(output_name, input_name))
+  if (output_name != NULL && input_name != NULL && (0 == strcasecmp(output_name, input_name) || same_file(output_name, input_name)))
     FATAL(_("Input and output file may not be the same\n"));
 
   if ((input_rootname = remove_suffix(get_basename(input_name))) == NULL)
-- 
2.43.0

