From 1dc5b4183da00ff37db3230c73110dfd54e6f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:20 +0000
Subject: [PATCH 01/71] fix: report write errors detected only by fclose() in
 nx_fclose/nx_xfclose

---
 src/nx_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 45c6161..864b5fe 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -50,7 +50,8 @@ void nx_xfclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                  NX_IO_FATAL(NX_LOG_TAG, "Error detected before closing stream %s",
@@ -78,7 +79,8 @@ NXResult nx_fclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error detected before closing stream %s",
-- 
2.43.0


From 7dd51224ad091564078a18fde8a4de9e6ce06f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:35 +0000
Subject: [PATCH 02/71] fix: do not dereference NULL in the fatal handler when
 backtrace_symbols() runs out of memory

---
 src/nx_log_c_impl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nx_log_c_impl.c b/src/nx_log_c_impl.c
index 87910ce..47574cb 100644
--- a/src/nx_log_c_impl.c
+++ b/src/nx_log_c_impl.c
@@ -57,6 +57,8 @@ static inline void print_call_stack()
     int bt_sz = backtrace(bt_buffer, bt_buffer_sz);
 
     char **bt_symbols = backtrace_symbols(bt_buffer, bt_sz);
+    if (!bt_symbols)
+        return;
 
     fprintf(LOG_STREAM, "Call stack:\n");
     for (int i = 0; i < bt_sz; ++i) {
-- 
2.43.0


From 6a337708827b9627a4b9fe91ab2d61fba7c34623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:14 +0000
Subject: [PATCH 03/71] fix: nx_image_load_pnm accepts header comments and a
 non-newline separator before the pixels

---
 src/nx_image_io_pnm.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index b2b66ad..927da17 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -258,6 +258,24 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 pnm_type = NX_IMAGE_RGBA;
         }
 
+        int c = fgetc(pnm);
+        while (c == ' ' || c == '\n' || c == '\t') {
+                c = fgetc(pnm);
+        }
+
+        while (c == '#') {
+                while (c != '\n') {
+                        c = fgetc(pnm);
+                        if (c == EOF) {
+                                NX_IO_ERROR(NX_LOG_TAG, "%s does not contain image data", filename);
+                                fclose(pnm);
+                                return NX_FAIL;
+                        }
+                }
+                c = fgetc(pnm);
+        }
+        ungetc(c, pnm);
+
         int pnm_width;
         int pnm_height;
         int pnm_levels;
@@ -268,9 +286,8 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 return NX_FAIL;
         }
 
-        // Skip a new line
-        char buffer[256];
-        if (fgets(buffer, sizeof(buffer), pnm) == NULL) {
+        // Skip the single white space character before pixel data
+        if (fgetc(pnm) == EOF) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error reading from %s", filename);
                 fclose(pnm);
                 return NX_FAIL;
-- 
2.43.0


From a55efa3e5ece49c3d267a9c781cbe8ce7897f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:32 +0000
Subject: [PATCH 04/71] fix: PNG loads in RGBA mode add the missing alpha
 channel and gray loads never write an expanded tRNS alpha past the row

---
 src/nx_image_io_png.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 3b25082..66dae59 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -169,12 +169,16 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         png_set_gray_to_rgb(png_ptr);
+                }
+
+                if (color_type != PNG_COLOR_TYPE_RGBA) {
                         png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
                 }
         } else {
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         output_type = NX_IMAGE_GRAYSCALE;
+                        png_set_strip_alpha(png_ptr); /* also drops alpha expanded from tRNS */
                 }
 
                 if(color_type == PNG_COLOR_TYPE_RGB ||
-- 
2.43.0


From c0cdcf2d739c9dab89dbf66cdffcd3848a710023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:43 +0000
Subject: [PATCH 05/71] fix: report truncated JPEG files as load errors instead
 of returning a partly made-up image

---
 src/nx_image_io_jpeg.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index becd4ad..413dc2d 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -30,6 +30,7 @@
 #include <setjmp.h>
 
 #include <jpeglib.h>
+#include <jerror.h>
 
 #include "virg/nexus/nx_alloc.h"
 #include "virg/nexus/nx_log.h"
@@ -40,6 +41,7 @@
 typedef struct _my_error_mgr {
         struct jpeg_error_mgr pub;
         jmp_buf setjmp_buffer;
+        void (*std_emit_message)(j_common_ptr cinfo, int msg_level);
 } my_error_mgr;
 
 typedef my_error_mgr* my_error_ptr;
@@ -51,6 +53,16 @@ METHODDEF(void) my_error_exit (j_common_ptr cinfo)
         longjmp(myerr->setjmp_buffer, 1);
 }
 
+/* A prematurely ending file is only a warning for libjpeg, which fills in the
+ * missing part of the image. Report it as an error instead. */
+METHODDEF(void) my_emit_message (j_common_ptr cinfo, int msg_level)
+{
+        my_error_ptr myerr = (my_error_ptr) cinfo->err;
+        if (msg_level < 0 && cinfo->err->msg_code == JWRN_JPEG_EOF)
+                my_error_exit(cinfo);
+        (*myerr->std_emit_message) (cinfo, msg_level);
+}
+
 static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
 {
         NX_ASSERT_PTR(img);
@@ -160,6 +172,8 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
 
         cinfo.err = jpeg_std_error(&jerr.pub);
         jerr.pub.error_exit = my_error_exit;
+        jerr.std_emit_message = jerr.pub.emit_message;
+        jerr.pub.emit_message = my_emit_message;
 
         if (setjmp(jerr.setjmp_buffer)) {
                 jpeg_destroy_decompress(&cinfo);
-- 
2.43.0


From 1b09585ebec3509967f791cfbbb945c4165cdaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 06/71] fix: nx_data_frame_load_csv with strings_as_factors no
 longer loops forever

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 7238772..9e1f6ac 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -636,7 +636,7 @@ struct NXDataFrame *nx_data_frame_load_csv_stream(FILE *stream,
         struct NXDataFrame *df = nx_csv_parser_parse(cp);
 
         if (strings_as_factors) {
-                for (int col_id = 0; col_id < df->columns->size; ++i) {
+                for (int col_id = 0; col_id < df->columns->size; ++col_id) {
                         if (nx_data_frame_column(df, col_id)->type == NX_DCT_STRING)
                                 nx_data_frame_make_factor(df, col_id);
                 }
-- 
2.43.0


From ac1da8236f3bc2551b75e42862277efc2fe9d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 07/71] fix: the lexer does not mistake byte 0xFF for the end
 of the text

---
 src/nx_lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_lexer.c b/src/nx_lexer.c
index 6df82be..4661758 100644
--- a/src/nx_lexer.c
+++ b/src/nx_lexer.c
@@ -143,7 +143,7 @@ int nx_lexer_consume(struct NXLexer *lex)
         if (lex->c == EOF)
                 return lex->c;
 
-        lex->c = lex->text[++lex->pos];
+        lex->c = (unsigned char)lex->text[++lex->pos];
         if (lex->c == '\0')
                 lex->c = EOF;
 
@@ -171,7 +171,7 @@ NXBool nx_lexer_match(struct NXLexer *lex, const char *s)
 
         int n = strlen(s);
         while (n--) {
-                if (lex->c == *s) {
+                if (lex->c == (unsigned char)*s) {
                         nx_lexer_consume(lex);
                 } else {
                         load_lexer_state(lex, &start_state);
-- 
2.43.0


From 3412fb03c7c4275136fe4de041f60e635869d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 08/71] fix: write data frame labels with the quoting the CSV
 reader understands

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 9e1f6ac..56d81a4 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -522,7 +522,7 @@ NXBool nx_data_frame_fprintf(const struct NXDataFrame *df, FILE *stream,
         int nc = nx_data_frame_n_columns(df);
         for (int i = 0; i < nc; ++i) {
                 const struct NXDataColumn *dc = nx_data_frame_column(df, i);
-                if (EOF == nx_fputs_readable(nx_data_column_label(dc), stream)) {
+                if (EOF == nx_fputs_double_quoted(nx_data_column_label(dc), stream)) {
                         NX_ERROR(NX_LOG_TAG, "Error printing label of data frame for column %d", i);
                         return NX_FALSE;
                 }
-- 
2.43.0


From 95a582b623ddfb77626eb6ae28a1810ec1ceba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 09/71] fix: load N/A rows of single column CSV files instead
 of failing

---
 src/nx_csv_parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 0631856..915669f 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -308,7 +308,10 @@ static struct NXCSVRecord *nx_csv_parser_parse_record(struct NXCSVParser *cp, st
 {
         struct NXCSVRecord *r = nx_csv_record_new(data);
 
-        if (cp->token->type == NX_CTT_EOR) {
+        if (cp->token->type == NX_CTT_EOR && data->n_columns == 1) {
+                // an empty line is the N/A element of a single column
+                nx_csv_record_add_field_from_token(r, NULL);
+        } else if (cp->token->type == NX_CTT_EOR) {
                 NX_FATAL(NX_LOG_TAG, "Empty record %d while parsing CSV", data->size);
         } else if (cp->token->type == NX_CTT_COMMA) {
                 nx_csv_record_add_field_from_token(r, NULL);
-- 
2.43.0


From c990dfcdfbeaf51b11e0572e3e8f8cd8ccd0cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 10/71] fix: CSV integers are decimal as converted by atoi and
 subnormal numbers stay doubles

---
 src/nx_csv_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 915669f..eeabd9f 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -41,13 +41,13 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_BOOL;
 
         char *endptr;
-        long lv = strtol(text, &endptr, 0);
+        long lv = strtol(text, &endptr, 10);
         if (*endptr == '\0' && lv <= INT_MAX && lv >= INT_MIN)
                 return NX_DCT_INT;
 
         errno = 0;
-        strtod(text, &endptr);
-        if (errno != ERANGE && *endptr == '\0')
+        double dv = strtod(text, &endptr);
+        if ((errno != ERANGE || (dv > -1.0 && dv < 1.0)) && *endptr == '\0')
                 return NX_DCT_DOUBLE;
 
         return NX_DCT_STRING;
-- 
2.43.0


From bf495f1f3e5f74eb543b3ae3193d3bc9b84ff7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 11/71] fix: JSON false and null nodes are not created as true

---
 src/nx_json_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 669c302..5003dd6 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -186,12 +186,12 @@ struct NXJSONNode *nx_json_node_new_true()
 
 struct NXJSONNode *nx_json_node_new_false()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_FALSE);
 }
 
 struct NXJSONNode *nx_json_node_new_null()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_NULL);
 }
 
 void nx_json_tree_free(struct NXJSONNode *root)
-- 
2.43.0


From fd96e039ea27999b390cb0fea0bab11c80f9c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 12/71] fix: bundle floating point values into JSON without
 losing precision

---
 src/nx_json_bundle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index bcf151d..281646d 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -71,7 +71,7 @@ struct NXJSONNode *nx_json_bundle_float(float f)
 
 struct NXJSONNode *nx_json_bundle_double(double d)
 {
-        char *s = nx_fstr("%e", d);
+        char *s = nx_fstr("%.16e", d);
         struct NXJSONNode *n = nx_json_node_new_fpnumber(s);
         nx_free(s);
         return n;
-- 
2.43.0


From 5e2a557f7bcaee9a6bd438ff646cd366db1d85a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 13/71] fix: bundle 64-bit keypoint ids and sizes into JSON
 without truncation

---
 src/nx_json_bundle.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index 281646d..c904038 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -58,7 +58,7 @@ struct NXJSONNode *nx_json_bundle_int(int i)
 
 struct NXJSONNode *nx_json_bundle_size_t(size_t z)
 {
-        char *s = nx_fstr("%zd", z);
+        char *s = nx_fstr("%zu", z);
         struct NXJSONNode *n = nx_json_node_new_integer(s);
         nx_free(s);
         return n;
@@ -126,7 +126,7 @@ struct NXJSONNode *nx_json_bundle_keypoint(const struct NXKeypoint* key)
         nx_json_object_add(jkey, "sigma", nx_json_bundle_double(key->sigma));
         nx_json_object_add(jkey, "score", nx_json_bundle_double(key->score));
         nx_json_object_add(jkey, "ori", nx_json_bundle_double(key->ori));
-        nx_json_object_add(jkey, "id", nx_json_bundle_int(key->id));
+        nx_json_object_add(jkey, "id", nx_json_bundle_size_t(key->id));
 
         return jkey;
 }
@@ -178,7 +178,7 @@ size_t nx_json_unbundle_size_t(struct NXJSONNode *node)
         NX_ASSERT_PTR(node);
         NX_ASSERT(nx_json_node_is_a(node, NX_JNT_INTEGER));
 
-        return (size_t)atol(nx_json_node_text(node));
+        return (size_t)strtoull(nx_json_node_text(node), NULL, 10);
 }
 
 float nx_json_unbundle_float(struct NXJSONNode *node)
@@ -282,7 +282,7 @@ struct NXKeypoint nx_json_unbundle_keypoint(struct NXJSONNode* node)
         key.sigma = nx_json_unbundle_double(nx_json_object_fget(node, "sigma",  NX_JNT_FPNUMBER));
         key.score = nx_json_unbundle_double(nx_json_object_fget(node, "score",  NX_JNT_FPNUMBER));
         key.ori = nx_json_unbundle_double(nx_json_object_fget(node, "ori",  NX_JNT_FPNUMBER));
-        key.id = nx_json_unbundle_int(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
+        key.id = nx_json_unbundle_size_t(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
 
         return key;
 }
-- 
2.43.0


From 668fc8917ddd1f7374f4fe66f7a7462c51e015bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 14/71] fix: JSON strings may contain the escape \/ accepted by
 the lexer

---
 src/nx_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index a3acffc..c769556 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -168,6 +168,7 @@ char *nx_xstr_from_readable(size_t size, const char *readable)
                         case 'f': *(p++) = '\f'; break;
                         case 'b': *(p++) = '\b'; break;
                         case '"': *(p++) = '"'; break;
+                        case '/': *(p++) = '/'; break;
                         default:
                                 NX_FATAL(NX_LOG_TAG, "Unexpected control character '%c' in readable string!", *readable);
                         }
-- 
2.43.0


From 441d066beee8fd8d8cd3929749ad5dbcbb16c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 15/71] fix: freeing a JSON tree with many siblings does not
 overflow the stack

---
 src/nx_json_tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 5003dd6..c742f71 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -196,11 +196,12 @@ struct NXJSONNode *nx_json_node_new_null()
 
 void nx_json_tree_free(struct NXJSONNode *root)
 {
-        if (root != NULL) {
+        while (root != NULL) {
+                struct NXJSONNode *right = root->right;
                 nx_json_tree_free(root->down);
-                nx_json_tree_free(root->right);
                 nx_free(root->text);
                 nx_free(root);
+                root = right;
         }
 }
 
-- 
2.43.0


From 6f8b3e1834aa1ad96e8d2ad70d6e8768314bd7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:03 +0000
Subject: [PATCH 16/71] fix: nx_brief_extractor_read restores the stored radius
 and number of octets

---
 src/nx_brief_extractor.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index ed3a74b..f079278 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -373,15 +373,24 @@ NXResult nx_brief_extractor_read(struct NXBriefExtractor *be, FILE *stream)
         if (fread(&n_octets, sizeof(n_octets), 1, stream) != 1)
                 return NX_FAIL;
 
-        nx_brief_extractor_resize(be, radius, n_octets);
-
-        int n_offsets = be->n_octets*4*8;
-        if (fread(be->offsets, sizeof(*be->offsets), n_offsets, stream) != (size_t)n_offsets)
+        if (radius <= 0 || n_octets <= 0 || n_octets > INT_MAX / (4*8))
                 return NX_FAIL;
-        nx_brief_extractor_update_limits(be);
 
-        if (fread(&be->pyr_level_offset, sizeof(be->pyr_level_offset), 1, stream) != 1)
+        int n_offsets = n_octets*4*8;
+        int *offsets = NX_NEW_I(n_offsets);
+        int pyr_level_offset;
+        if (fread(offsets, sizeof(*offsets), n_offsets, stream) != (size_t)n_offsets
+            || fread(&pyr_level_offset, sizeof(pyr_level_offset), 1, stream) != 1) {
+                nx_free(offsets);
                 return NX_FAIL;
+        }
+
+        nx_free(be->offsets);
+        be->offsets = offsets;
+        be->radius = radius;
+        be->n_octets = n_octets;
+        be->pyr_level_offset = pyr_level_offset;
+        nx_brief_extractor_update_limits(be);
 
         return NX_OK;
 }
-- 
2.43.0


From 43a5f878b4c8773edb106a21ae674c48d68624f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:03 +0000
Subject: [PATCH 17/71] fix: nx_getline returns -1 at the end of the stream

---
 src/nx_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 864b5fe..b81ee51 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -199,9 +199,10 @@ ssize_t nx_getline(char **line, size_t *n, FILE *stream)
                 NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,c);
         }
 
+        NXBool is_at_end = (idx == 0);
         NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,0);
 
-        if (idx == 0) {
+        if (is_at_end) {
                 return -1;
         } else {
                 return idx - 1;
-- 
2.43.0


From 3d4fbe7ced28a4c69a39734cc4ef2db5860f4a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:03 +0000
Subject: [PATCH 18/71] fix: nx_dmat_xread and nx_dmat_xwrite stop on stream
 errors instead of returning a truncated matrix

---
 src/nx_mat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_mat.c b/src/nx_mat.c
index 31ba763..b6ec9be 100644
--- a/src/nx_mat.c
+++ b/src/nx_mat.c
@@ -46,6 +46,9 @@ void nx_dmat_xwrite(FILE *stream, int m, int n, const double *A)
                                 fprintf(stream, " ");
                 }
         }
+
+        if (ferror(stream))
+                NX_IO_FATAL(NX_LOG_TAG, "Error writing matrix to stream");
 }
 
 double *nx_dmat_xread(FILE *stream, int *m, int *n)
@@ -98,6 +101,9 @@ double *nx_dmat_xread(FILE *stream, int *m, int *n)
         }
         free(line);
 
+        if (ferror(stream))
+                NX_IO_FATAL(NX_LOG_TAG, "Error reading matrix from stream");
+
         if (*m == 0 || *n == 0) {
                 *m = 0;
                 *n = 0;
-- 
2.43.0


From e015a15929d3f99619f18aaf2ff781839a1ee460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:17 +0000
Subject: [PATCH 19/71] fix: KITTI sequences without a pose file have no ground
 truth instead of crashing

---
 src/nx_kitti_slam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_kitti_slam.c b/src/nx_kitti_slam.c
index d4c840f..6b0667a 100644
--- a/src/nx_kitti_slam.c
+++ b/src/nx_kitti_slam.c
@@ -139,7 +139,7 @@ struct NXKittiSLAMSequence *nx_kitti_slam_sequence_new(struct NXKittiSLAM *datas
         char *pose_file = nx_fstr(NX_KITTI_SLAM_POSE_FILE_FORMAT,
                                   dataset->base_dir, seq_id);
         FILE *pose_in = nx_fopen(pose_file, "r");
-        seq->is_gt_available = (pose_file != NULL);
+        seq->is_gt_available = (pose_in != NULL);
         if (seq->is_gt_available) {
                 seq->poses = nx_read_poses_from_pose_file(pose_in, &seq->length);
                 nx_fclose(pose_in, "pose_in");
-- 
2.43.0


From 64eed1c291e1944453472c4623cf4d52c4643c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:17 +0000
Subject: [PATCH 20/71] fix: stop on read errors in KITTI pose files instead of
 keeping a partly read pose

---
 src/nx_kitti_slam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_kitti_slam.c b/src/nx_kitti_slam.c
index 6b0667a..b6fde60 100644
--- a/src/nx_kitti_slam.c
+++ b/src/nx_kitti_slam.c
@@ -142,7 +142,7 @@ struct NXKittiSLAMSequence *nx_kitti_slam_sequence_new(struct NXKittiSLAM *datas
         seq->is_gt_available = (pose_in != NULL);
         if (seq->is_gt_available) {
                 seq->poses = nx_read_poses_from_pose_file(pose_in, &seq->length);
-                nx_fclose(pose_in, "pose_in");
+                nx_xfclose(pose_in, "pose_in");
         } else {
                 seq->poses = NULL;
         }
-- 
2.43.0


From 48bbc7050c46d004cefc573793c7c97d4a2d2a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:27 +0000
Subject: [PATCH 21/71] fix: SIFT key buffers grow from a capacity of zero or
 one

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index f6e186c..6248211 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -151,7 +151,7 @@ struct NXSIFTKeyStore {
 int nx_sift_key_store_append(struct NXSIFTKeyStore *store)
 {
         if (store->n >= store->cap) {
-                int new_cap = (int)(store->cap * 1.6f);
+                int new_cap = nx_max_i(16, (int)(store->cap * 1.6f));
                 store->keys = (struct NXKeypoint *)nx_xrealloc(store->keys,
                                                                new_cap*sizeof(struct NXKeypoint));
                 store->desc = (uchar *)nx_xrealloc(store->desc,
-- 
2.43.0


From 6784407788d77587cdb4c2edfa0a1ecf8b677bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:27 +0000
Subject: [PATCH 22/71] fix: SIFT peak search stops before the right border
 instead of reading past the row

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 6248211..35f55a1 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -527,7 +527,7 @@ void nx_sift_process_dog(struct NXSIFTDetector *det,
                 const float *dogp_rowm  = dogp->data.f32 + (y-1) * dogp->row_stride;
                 const float *dogp_row   = dogp_rowm + dogp->row_stride;
                 const float *dogp_rowp  = dogp_row  + dogp->row_stride;
-                for (int x = B; x < dog->width + B; ++x) {
+                for (int x = B; x < dog->width - B; ++x) {
                         float dval = dog_row[x];
                         if (fabs(dval) > 0.8 * peak_thr
                             && ((dval > 0 && dval > dog_row[x-1]   && dval > dog_row[x+1]
-- 
2.43.0


From fc43b8cc8f9a224d80ed1808c8fd78f6c0d2e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:27 +0000
Subject: [PATCH 23/71] fix: nx_memncpy_multi does not read past the source
 lengths once all sources are copied

---
 src/nx_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index c769556..b80996c 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -219,7 +219,7 @@ size_t nx_memncpy_multi(void *dest, int n_src, const void * const *src,
         NX_ASSERT_PTR(src_offset);
         NX_ASSERT_PTR(offset);
 
-        if (*offset > l_src[*src_offset]) {
+        if (*src_offset < n_src && *offset > l_src[*src_offset]) {
                 *offset = 0;
                 *src_offset += 1;
         }
-- 
2.43.0


From b58c92024a5f2eac1b43a8736f84710682d65f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:27 +0000
Subject: [PATCH 24/71] fix: nx_ensure_dir succeeds when another process
 creates the directory first

---
 src/nx_filesystem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_filesystem.c b/src/nx_filesystem.c
index 53cc81b..ea6c6a2 100644
--- a/src/nx_filesystem.c
+++ b/src/nx_filesystem.c
@@ -89,7 +89,8 @@ void nx_ensure_dir(const char *path)
         if (nx_check_dir(path))
                 return;
 
-        if (0 != mkdir(path, 0700)) {
+        // another process may create the directory after the check above
+        if (0 != mkdir(path, 0700) && !nx_check_dir(path)) {
                 NX_FATAL(NX_LOG_TAG, "Could not create directory %s", path);
         }
 }
-- 
2.43.0


From d080960a1ea8cedb814e9c04a1edf0cd6c0b709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:27 +0000
Subject: [PATCH 25/71] fix: SIFT cache keys cover float images, image size and
 type, and key counts

---
 src/nx_sift_detector.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 35f55a1..02716fc 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -673,18 +673,21 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 cache_dir = NX_DEFAULT_CACHE_DIRECTORY;
 
         int n_rows = image->height;
-        int n_msgs = n_rows + 1;
+        int n_msgs = n_rows + 2;
+        const int image_info[3] = { image->width, image->height, image->dtype };
         uint8_t **msgs = NX_NEW(n_msgs, uint8_t *);
         size_t *lmsg = NX_NEW_Z(n_msgs);
         for (int i = 0; i < n_rows; ++i) {
                 if (image->dtype == NX_IMAGE_UCHAR) {
                         msgs[i] = (uint8_t *)(image->data.uc + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(uchar);
-                } else if (image->dtype == NX_IMAGE_UCHAR) {
+                } else {
                         msgs[i] = (uint8_t *)(image->data.f32 + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(float);
                 }
         }
+        msgs[n_msgs - 2] = (uint8_t *)(&image_info[0]);
+        lmsg[n_msgs - 2] = sizeof(image_info);
         msgs[n_msgs - 1] = (uint8_t *)(&detector->param);
         lmsg[n_msgs - 1] = sizeof(detector->param);
         uint8_t hash[32];
@@ -836,7 +839,8 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
         if (!cache_dir)
                 cache_dir = NX_DEFAULT_CACHE_DIRECTORY;
 
-        int n_msgs = 5;
+        int n_msgs = 6;
+        const int n_keys[2] = { n, np };
         uint8_t **msgs = NX_NEW(n_msgs, uint8_t *);
         size_t *lmsg = NX_NEW_Z(n_msgs);
         msgs[0] = (uint8_t *)(keys);
@@ -852,6 +856,9 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
         msgs[4] = (uint8_t *)(&dist_ratio_thr);
         lmsg[4] = sizeof(dist_ratio_thr);
 
+        msgs[5] = (uint8_t *)(&n_keys[0]);
+        lmsg[5] = sizeof(n_keys);
+
         uint8_t hash[32];
         nx_sha256_multi(&hash[0], n_msgs, (const uint8_t *const *)msgs, lmsg);
 
-- 
2.43.0


From a8cb4e7f85e5a38b9f3829e5b0bd846593fce5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:17 +0000
Subject: [PATCH 26/71] fix: interrupted or concurrent writers leave no partial
 SIFT cache file and incomplete ones are recomputed

---
 src/nx_sift_detector.c | 85 +++++++++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 18 deletions(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 02716fc..4b29c0e 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -34,6 +34,7 @@
  */
 #include "virg/nexus/nx_sift_detector.h"
 
+#include <errno.h>
 #include <math.h>
 
 #include "virg/nexus/nx_alloc.h"
@@ -656,6 +657,57 @@ int nx_sift_detector_compute(struct NXSIFTDetector *det,
         return store.n;
 }
 
+/**
+ * Opens the cache file and reads the number of records stored in it. Returns
+ * NULL if there is no such file or its size does not match that of a completely
+ * written one, e.g. since the process writing it was interrupted.
+ */
+static FILE *nx_sift_cache_open(const char *path, size_t record_size, int *n)
+{
+        FILE *fin = fopen(path, "rb");
+        if (!fin)
+                return NULL;
+
+        if (1 == fread(n, sizeof(*n), 1, fin) && *n >= 0
+            && 0 == fseek(fin, 0, SEEK_END)
+            && ftell(fin) == (long)(sizeof(*n) + *n * record_size)
+            && 0 == fseek(fin, sizeof(*n), SEEK_SET))
+                return fin;
+
+        fclose(fin);
+        return NULL;
+}
+
+/**
+ * Writes cache contents to a temporary file and moves it in place only when it
+ * is complete so that other processes never see a partial cache file.
+ */
+static void nx_sift_cache_write(const char *cache_dir, const char *path, int n,
+                                const void *r0, size_t size0,
+                                const void *r1, size_t size1)
+{
+        nx_ensure_dir(cache_dir);
+
+        char *tmp_path = NULL;
+        FILE *fout = NULL;
+        for (int i = 0; !fout; ++i) {
+                nx_free(tmp_path);
+                tmp_path = nx_fstr("%s.%d.tmp", path, i);
+                fout = fopen(tmp_path, "wbx");
+                if (!fout && errno != EEXIST)
+                        NX_IO_FATAL(NX_LOG_TAG, "Could not create cache file %s", tmp_path);
+        }
+
+        nx_xfwrite(&n, sizeof(n), 1, fout);
+        nx_xfwrite(r0, size0, n, fout);
+        if (r1)
+                nx_xfwrite(r1, size1, n, fout);
+        nx_xfclose(fout, tmp_path);
+        if (0 != rename(tmp_path, path))
+                NX_IO_FATAL(NX_LOG_TAG, "Could not move cache file %s to %s", tmp_path, path);
+        nx_free(tmp_path);
+}
+
 int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                                         struct NXImage *image,
                                         int *max_n_keys,
@@ -696,11 +748,10 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
         int n_keys = 0;
         char *hash_str = nx_hash_to_str(32, &hash[0]);
         char *cachefilepath = nx_fstr("%s/%s.sift", cache_dir, hash_str);
-        if (nx_check_file(cachefilepath)) {
+        FILE *fin = nx_sift_cache_open(cachefilepath, sizeof(struct NXKeypoint)
+                                       + NX_SIFT_DESC_DIM * sizeof(uchar), &n_keys);
+        if (fin) {
                 // read from cache file
-                FILE *fin = nx_xfopen(cachefilepath, "rb");
-                nx_xfread(&n_keys, sizeof(n_keys), 1, fin);
-
                 if (*max_n_keys < n_keys) {
                         *keys = (struct NXKeypoint *)nx_xrealloc(*keys, n_keys * sizeof(struct NXKeypoint));
                         *desc = (uchar *)nx_xrealloc(*desc, n_keys * NX_SIFT_DESC_DIM * sizeof(uchar));
@@ -716,12 +767,9 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                                                   max_n_keys, keys, desc);
 
                 // cache keys and descriptors
-                nx_ensure_dir(cache_dir);
-                FILE *fout = nx_xfopen(cachefilepath, "wb");
-                nx_xfwrite(&n_keys, sizeof(n_keys), 1, fout);
-                nx_xfwrite(*keys, sizeof(struct NXKeypoint), n_keys, fout);
-                nx_xfwrite(*desc, sizeof(uchar), n_keys * NX_SIFT_DESC_DIM, fout);
-                nx_fclose(fout, cachefilepath);
+                nx_sift_cache_write(cache_dir, cachefilepath, n_keys,
+                                    *keys, sizeof(struct NXKeypoint),
+                                    *desc, NX_SIFT_DESC_DIM * sizeof(uchar));
                 NX_LOG(NX_LOG_TAG, "Cached %d SIFT keypoints and descriptors to %s",
                        n_keys, cachefilepath);
         }
@@ -865,10 +913,13 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
         int n_corr = 0;
         char *hash_str = nx_hash_to_str(32, &hash[0]);
         char *cachefilepath = nx_fstr("%s/%s.sift_matches", cache_dir, hash_str);
-        if (nx_check_file(cachefilepath)) {
+        FILE *fin = nx_sift_cache_open(cachefilepath, sizeof(struct NXPointMatch2D), &n_corr);
+        if (fin && n_corr > n) {
+                nx_fclose(fin, cachefilepath);
+                fin = NULL;
+        }
+        if (fin) {
                 // read from cache file
-                FILE *fin = nx_xfopen(cachefilepath, "rb");
-                nx_xfread(&n_corr, sizeof(n_corr), 1, fin);
                 nx_xfread(corr, sizeof(struct NXPointMatch2D), n_corr, fin);
                 nx_fclose(fin, cachefilepath);
                 NX_LOG(NX_LOG_TAG, "Read %d SIFT matches from cache file %s",
@@ -878,11 +929,9 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
                                                    np, keyps, descp,
                                                    corr, dist_ratio_thr);
                 // cache keys and descriptors
-                nx_ensure_dir(cache_dir);
-                FILE *fout = nx_xfopen(cachefilepath, "wb");
-                nx_xfwrite(&n_corr, sizeof(n_corr), 1, fout);
-                nx_xfwrite(corr, sizeof(struct NXPointMatch2D), n_corr, fout);
-                nx_fclose(fout, cachefilepath);
+                nx_sift_cache_write(cache_dir, cachefilepath, n_corr,
+                                    corr, sizeof(struct NXPointMatch2D),
+                                    NULL, 0);
                 NX_LOG(NX_LOG_TAG, "Cached %d SIFT matches to %s",
                        n_corr, cachefilepath);
         }
-- 
2.43.0


From c1ca3c124541a0dbcf526122e1b334597948d54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:17 +0000
Subject: [PATCH 27/71] fix: SIFT cache functions free their hash message lists

---
 src/nx_sift_detector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 4b29c0e..49def89 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -774,6 +774,8 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                        n_keys, cachefilepath);
         }
 
+        nx_free(msgs);
+        nx_free(lmsg);
         nx_free(hash_str);
         nx_free(cachefilepath);
 
@@ -936,6 +938,8 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
                        n_corr, cachefilepath);
         }
 
+        nx_free(msgs);
+        nx_free(lmsg);
         nx_free(hash_str);
         nx_free(cachefilepath);
 
-- 
2.43.0


From 20b47df528714f8ac16c253753a032ca86e00f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:36 +0000
Subject: [PATCH 28/71] fix: nx_image_deriv_y uses the source row stride for
 the last row

---
 src/nx_image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index ba7cca4..64ab815 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1248,8 +1248,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                         }                                               \
                 }                                                       \
                 for (int x = 0; x < dest->width; ++x) {                 \
-                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*dest->row_stride] \
-                                                                                       - src->data.F[x + (src->height-2)*dest->row_stride])/S; \
+                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*src->row_stride] \
+                                                                                       - src->data.F[x + (src->height-2)*src->row_stride])/S; \
                 }                                                       \
         }
 
-- 
2.43.0


From 40472c84be45b280d97e38646058f7ad19ca18ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:36 +0000
Subject: [PATCH 29/71] fix: SIFT descriptor does not index before its first
 bin when a sample has the key orientation

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 49def89..171ed14 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -229,7 +229,7 @@ void nx_sift_compute_fdescriptor(struct NXSIFTDetector *det,
                                 float h  = N_ORI_BINS * (sample_ori / (2.0 * NX_PI));
                                 int pxi = px > 0.0f ? (int)px : (int)(px - 1.0f); // floor
                                 int pyi = py > 0.0f ? (int)py : (int)(py - 1.0f); // floor
-                                int hi  = h  > 0.0f ? (int)h  : (int)(h  - 1.0f); // floor
+                                int hi  = h >= 0.0f ? (int)h  : (int)(h  - 1.0f); // floor
                                 int hi0 = (hi >= N_ORI_BINS) ? 0 : hi;
                                 int hi1 = ((hi0 + 1) >= N_ORI_BINS) ? 0 : hi0 + 1;
                                 float xeps = px - pxi;
-- 
2.43.0


From 17b341ef2c0fedec601b62c4553a6a8a9f6d3f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:35 +0000
Subject: [PATCH 30/71] fix: PNM loaders reject non-positive or overflowing
 image sizes

---
 src/nx_image_io_pnm.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index 927da17..f404ca6 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_image_io_pnm.h"
 
+#include <limits.h>
 #include <stdlib.h>
 
 #include "virg/nexus/nx_log.h"
@@ -98,6 +99,11 @@ NXResult nx_image_save_pnm(const struct NXImage *img, const char *filename)
         return res;
 }
 
+static NXBool is_valid_pnm_size(int width, int height)
+{
+        return width > 0 && height > 0 && width <= INT_MAX / 4 / height;
+}
+
 static NXResult read_pnm_data(struct NXImage *img, enum NXImageType img_type,
                               FILE *pnm, int pnm_width, int pnm_height, enum NXImageType pnm_type)
 {
@@ -204,6 +210,11 @@ void nx_image_xload_pnm(struct NXImage *img, const char *filename,
         if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
                 NX_IO_FATAL(NX_LOG_TAG, "Could not read image attributes from %s", filename);
         }
+
+        if (!is_valid_pnm_size(pnm_width, pnm_height)) {
+                NX_FATAL(NX_LOG_TAG, "Invalid image size %d x %d in %s",
+                         pnm_width, pnm_height, filename);
+        }
         c = fgetc(pnm);
 
         enum NXImageType img_type;
@@ -286,6 +297,13 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 return NX_FAIL;
         }
 
+        if (!is_valid_pnm_size(pnm_width, pnm_height)) {
+                NX_ERROR(NX_LOG_TAG, "Invalid image size %d x %d in %s",
+                         pnm_width, pnm_height, filename);
+                fclose(pnm);
+                return NX_FAIL;
+        }
+
         // Skip the single white space character before pixel data
         if (fgetc(pnm) == EOF) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error reading from %s", filename);
-- 
2.43.0


From c1a290fd146b1eee0edc62185660a26c4ab558c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:35 +0000
Subject: [PATCH 31/71] fix: nx_image_resize computes the buffer size without
 int overflow

---
 src/nx_image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 64ab815..c2fa30b 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -135,7 +135,7 @@ void nx_image_resize(struct NXImage *img, int width, int height, int row_stride,
         if (row_stride < rs)
                 row_stride = rs;
 
-        size_t length = row_stride * height;
+        size_t length = (size_t)row_stride * height;
         size_t n_bytes = nx_image_bytes_per_channel(dtype);
         nx_mem_block_resize(img->mem, length*n_bytes);
 
-- 
2.43.0


From d57bf12eab871101e078f0f78344969b8eb28677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:35 +0000
Subject: [PATCH 32/71] fix: nx_string_array_read rejects a negative array
 length

---
 src/nx_string_array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 68fff42..2ee2497 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -222,6 +222,11 @@ int nx_string_array_read(struct NXStringArray *sa, FILE *stream)
                 return -1;
         }
 
+        if (size < 0) {
+                NX_ERROR(NX_LOG_TAG, "Invalid string array length %d in stream", size);
+                return -1;
+        }
+
         nx_string_array_resize(sa, size);
         for (int i = 0; i < sa->size; ++i)
                 if (nx_strread(&sa->elems[i], 0, stream) != 0) {
-- 
2.43.0


From 3e9e61716566dc47b3b667f808fb2c20d4504f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:41 +0000
Subject: [PATCH 33/71] fix: nx_strread rejects a string length that can not be
 allocated

---
 src/nx_string.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index b80996c..08ccfe5 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_string.h"
 
+#include <stdint.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -120,6 +121,9 @@ int nx_strread(char **s, size_t size, FILE *stream)
         if (fread(&ls, sizeof(ls), 1, stream) != 1)
                 return 1;
 
+        if (ls == SIZE_MAX)
+                return 1;
+
         if (ls >= size)
                 *s = nx_xrealloc(*s, (ls+1)*sizeof(**s));
 
-- 
2.43.0


From 6a98774cfc8d72be030d257a31ed87fe10027886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:43 +0000
Subject: [PATCH 34/71] fix: JSON parser stops on excessive nesting instead of
 exhausting the stack

---
 src/nx_json_parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nx_json_parser.c b/src/nx_json_parser.c
index 01eabb9..e1b740f 100644
--- a/src/nx_json_parser.c
+++ b/src/nx_json_parser.c
@@ -28,6 +28,8 @@
 #include "virg/nexus/nx_alloc.h"
 #include "virg/nexus/nx_log.h"
 
+#define NX_JSON_PARSER_MAX_DEPTH 10000
+
 struct NXJSONParser
 {
         struct NXJSONLexer *jlex;
@@ -35,6 +37,7 @@ struct NXJSONParser
 
         struct NXJSONNode *root;
         struct NXJSONNode *current_node;
+        int depth;
 };
 
 static void nx_json_parser_consume(struct NXJSONParser *jp)
@@ -116,6 +119,9 @@ static void nx_json_parser_parse_number(struct NXJSONParser *jp)
 
 static void nx_json_parser_parse_value(struct NXJSONParser *jp)
 {
+        if (++jp->depth > NX_JSON_PARSER_MAX_DEPTH)
+                NX_FATAL(NX_LOG_TAG, "JSON nested deeper than %d levels", NX_JSON_PARSER_MAX_DEPTH);
+
         switch (jp->jtoken->type) {
         case NX_JTT_STRING: nx_json_parser_match(jp, NX_JTT_STRING); break;
         case NX_JTT_INTEGER:
@@ -129,6 +135,8 @@ static void nx_json_parser_parse_value(struct NXJSONParser *jp)
                 NX_FATAL(NX_LOG_TAG, "Expecting number, string, true, false, null, object or array, found %s",
                          nx_json_token_to_string(jp->jtoken));
         }
+
+        jp->depth--;
 }
 
 static void nx_json_parser_parse_elements(struct NXJSONParser *jp)
@@ -224,6 +232,7 @@ struct NXJSONNode *nx_json_parser_parse(struct NXJSONParser *jp)
 {
         jp->root = NULL;
         jp->current_node = NULL;
+        jp->depth = 0;
         nx_json_parser_parse_json(jp);
         return jp->root;
 }
-- 
2.43.0


From b3c3973d9188aa92fd8c40ee17bcabce342b4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:03 +0000
Subject: [PATCH 35/71] fix: USAC homography sampling draws four distinct
 correspondences

---
 src/nx_usac_homography.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index 6f6f96c..b5b3f2f 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -61,7 +61,7 @@ void nx_usac_homography_sampling(int *sample_ids, void *data)
 
         do {
             sample_ids[3] = (int)(NX_UNIFORM_SAMPLE_S * hdata->n_top_hypo);
-        } while(sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
+        } while(sample_ids[3]==sample_ids[2] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
 }
 
 NXBool nx_usac_check_homography_sample(const int *sample_ids,
-- 
2.43.0


From 832ec169b71e6eb380ec56037ff82007262547bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:03 +0000
Subject: [PATCH 36/71] fix: Gaussian sampler rejects the zero radius that
 yields NaN

---
 src/nx_gaussian_sampler.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nx_gaussian_sampler.c b/src/nx_gaussian_sampler.c
index 0acab6b..24120e1 100644
--- a/src/nx_gaussian_sampler.c
+++ b/src/nx_gaussian_sampler.c
@@ -129,7 +129,7 @@ void nx_gaussian_sampler_sample_s(struct NXGaussianSampler *sampler,
                         v2 = 2.0f * u2 - 1.0f;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0f);
+                } while(s >= 1.0f || s == 0.0f);
 
                 common = sigma * sqrtf(-2.0f * logf(s) / s);
                 *s_ptr = common * v1 + mean;
@@ -147,7 +147,7 @@ void nx_gaussian_sampler_sample_s(struct NXGaussianSampler *sampler,
                         v2 = 2.0f * u2 - 1.0f;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0f);
+                } while(s >= 1.0f || s == 0.0f);
 
                 *s_ptr = sigma * sqrtf(-2.0f * logf(s) / s) * v1 + mean;
         }
@@ -174,7 +174,7 @@ void nx_gaussian_sampler_sample_d(struct NXGaussianSampler *sampler,
                         v2 = 2.0 * u2 - 1.0;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0);
+                } while(s >= 1.0 || s == 0.0);
 
                 common = sigma * sqrt(-2.0 * log(s) / s);
                 *s_ptr = common * v1 + mean;
@@ -192,7 +192,7 @@ void nx_gaussian_sampler_sample_d(struct NXGaussianSampler *sampler,
                         v2 = 2.0 * u2 - 1.0;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0);
+                } while(s >= 1.0 || s == 0.0);
 
                 *s_ptr = sigma * sqrt(-2.0 * log(s) / s) * v1 + mean;
         }
-- 
2.43.0


From 5407137559d7e726f60e2605458eb0a54016baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:03 +0000
Subject: [PATCH 37/71] fix: single precision uniform samples stay below 1.0

---
 src/nx_uniform_sampler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_uniform_sampler.c b/src/nx_uniform_sampler.c
index fa94b8f..1faa502 100644
--- a/src/nx_uniform_sampler.c
+++ b/src/nx_uniform_sampler.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_uniform_sampler.h"
 
+#include <float.h>
 #include <stdlib.h>
 #include <time.h>
 
@@ -113,7 +114,9 @@ void nx_uniform_sampler_fill64(struct NXUniformSampler *sampler, int n, uint64_t
 
 float nx_uniform_sampler_sample_s(struct NXUniformSampler *sampler)
 {
-        return sfmt_genrand_real2(&sampler->state);
+        // values close to 1.0 round up to 1.0f when converted to float
+        float u = sfmt_genrand_real2(&sampler->state);
+        return u < 1.0f ? u : 1.0f - FLT_EPSILON / 2.0f;
 }
 
 double nx_uniform_sampler_sample_d(struct NXUniformSampler *sampler)
-- 
2.43.0


From 3b083cc2b449f68dd9feb7ff890cf86e859a59ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:03 +0000
Subject: [PATCH 38/71] fix: nx_gnuplot_set_xlabel/ylabel send the axis label
 command

---
 src/nx_gnuplot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_gnuplot.c b/src/nx_gnuplot.c
index c26cea2..3b847c1 100644
--- a/src/nx_gnuplot.c
+++ b/src/nx_gnuplot.c
@@ -202,7 +202,7 @@ void nx_gnuplot_set_xlabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title xlabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set xlabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
@@ -211,7 +211,7 @@ void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title ylabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set ylabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_title_and_labels(struct NXGNUPlot *gnuplot, const char *title,
-- 
2.43.0


From 5302ea7fcbb23551e174fab5d66888dc3a61de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:19 +0000
Subject: [PATCH 39/71] fix: fundamental matrix RANSAC draws eight distinct
 correspondences

---
 src/nx_epipolar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 1273bb1..d7af88e 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -195,7 +195,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[8])
         corr_ids[0] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
         for (int i = 1; i < 8; ++i) {
                 corr_ids[i] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-                for (int j = i-1; j > 0; --j)
+                for (int j = i-1; j >= 0; --j)
                         if (corr_ids[i] == corr_ids[j]) {
                                 --i;
                                 break;
-- 
2.43.0


From aacc6e2729d4b7a7bb34c80dcefbe2a94c965ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:19 +0000
Subject: [PATCH 40/71] fix: fundamental matrix RANSAC returns a defined matrix
 when no model has an inlier

---
 src/nx_epipolar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index d7af88e..cc2ac2e 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -210,7 +210,7 @@ int nx_fundamental_estimate_ransac(double *F, int n_corr,
         NX_ASSERT_PTR(F);
         NX_ASSERT_PTR(corr_list);
 
-        double F_best[9];
+        double F_best[9] = { 0.0 };
         int n_inliers_best = 0;
         int n_inliers = 0;
         int corr_ids[8];
-- 
2.43.0


From 3455d6acf96b3ebb3f6f48e6b897ac91bffcd224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:19 +0000
Subject: [PATCH 41/71] fix: homography RANSAC draws four distinct
 correspondences

---
 src/nx_homography.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index eb8d915..46c6195 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -270,7 +270,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[4])
 
         do {
             corr_ids[3] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-        } while(corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
+        } while(corr_ids[3]==corr_ids[2] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
 }
 
 int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *corr_list, double inlier_tolerance, int max_n_iter)
-- 
2.43.0


From 9d3feaa87a1653c0b97798f84c64cce72ab5e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:19 +0000
Subject: [PATCH 42/71] fix: homography RANSAC does not score an unset
 homography

---
 src/nx_homography.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 46c6195..cc87a06 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -277,7 +277,7 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
 {
         double min_angle = 15.0 * NX_PI / 180.0;
         double max_abs_cos = fabs(cos(min_angle));
-        double h_best[9];
+        double h_best[9] = { 0.0 };
         int n_inliers_best = 0;
         int n_inliers = 0;
         int corr_ids[4];
@@ -307,9 +307,12 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
             do {
                 nx_select_prosac_candidates(n_top_hypo, corr_ids);
                 det = nx_homography_estimate_4pt(h, corr_ids, corr_list);
-            } while ((det == 0.0) && --tries && !nx_homography_check(h, max_abs_cos));
+            } while ((det == 0.0) && --tries);
 
-            n_inliers = nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
+            // h is not set for degenerate samples
+            n_inliers = 0;
+            if (det != 0.0)
+                n_inliers = nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
 
             // update if we got sth. better than current best
             if (n_inliers > n_inliers_best) {
-- 
2.43.0


From 9a5ad0966f89446d8bdec0328d23f1fdff808ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:19 +0000
Subject: [PATCH 43/71] fix: normalizing coincident point matches does not turn
 them into NaN

---
 src/nx_point_match_2d_stats.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_point_match_2d_stats.c b/src/nx_point_match_2d_stats.c
index 624ba6f..8722d7f 100644
--- a/src/nx_point_match_2d_stats.c
+++ b/src/nx_point_match_2d_stats.c
@@ -85,6 +85,12 @@ void nx_point_match_2d_stats_normalize_matches(struct NXPointMatch2DStats *stats
         stats->d /= n_corr;
         stats->dp /= n_corr;
 
+        // coincident points have no spread to normalize
+        if (stats->d == 0.0)
+                stats->d = 1.0;
+        if (stats->dp == 0.0)
+                stats->dp = 1.0;
+
         for (int i = 0; i < n_corr; ++i) {
                 struct NXPointMatch2D *corr = corr_list + i;
                 corr->x[0]     /= stats->d;
-- 
2.43.0


From 0cdaafde7038316a04556c5e1e528efd789fb638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:53 +0000
Subject: [PATCH 44/71] fix: homography shape check normalizes the diagonals by
 their length

---
 src/nx_homography.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index cc87a06..07844f5 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -74,7 +74,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double l_AC[3];
         line_eqn_2d(&A[0], &C[0], &l_AC[0]);
 
-        double n_inv = 1.0 / (l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
+        double n_inv = 1.0 / sqrt(l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
         l_AC[0] *= n_inv;
         l_AC[1] *= n_inv;
         l_AC[2] *= n_inv;
@@ -87,7 +87,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double AC[2] = { -l_AC[1], l_AC[0] };
         double BD[2] = { B[0] - D[0], B[1] - D[1] };
 
-        n_inv = 1.0 / (BD[0]*BD[0] + BD[1]*BD[1]);
+        n_inv = 1.0 / sqrt(BD[0]*BD[0] + BD[1]*BD[1]);
         BD[0] *= n_inv;
         BD[1] *= n_inv;
 
-- 
2.43.0


From a7c6946dfac9b992d24e8e8ccc3de59ff1a9c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:22 +0000
Subject: [PATCH 45/71] fix: JPEG loader does not overrun its row buffer for
 CMYK and other color spaces

---
 src/nx_image_io_jpeg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index 413dc2d..900be45 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -192,6 +192,9 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                 cinfo.output_components = 3;
                 cinfo.out_color_components = 3;
                 cinfo.out_color_space = JCS_RGB;
+        } else if (cinfo.out_color_space != JCS_GRAYSCALE) {
+                /* other color spaces, e.g. CMYK, are reported as errors */
+                cinfo.out_color_space = JCS_RGB;
         }
 
         jpeg_start_decompress(&cinfo);
-- 
2.43.0


From ae75f450a6f9b7030a7eff4f359fbcc61f373cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:17 +0000
Subject: [PATCH 46/71] fix: PNG save and load free their row pointers when
 libpng reports an error

---
 src/nx_image_io_png.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 66dae59..8332454 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -64,9 +64,11 @@ static NXResult save_as_png(const struct NXImage *img, FILE *fout)
                 return NX_FAIL;
         }
 
+        png_bytepp volatile row_pointers = NULL;
         if (setjmp(png_jmpbuf(png_ptr))) {
                 NX_ERROR(NX_LOG_TAG, "Error creating jump for PNG pointer");
                 png_destroy_write_struct(&png_ptr, &info_ptr);
+                nx_free(row_pointers);
                 return NX_FAIL;
         }
 
@@ -90,7 +92,7 @@ static NXResult save_as_png(const struct NXImage *img, FILE *fout)
 
         NX_ASSERT((unsigned int)img->height <= PNG_UINT_32_MAX/sizeof(png_bytep));
 
-        png_bytepp row_pointers = NX_NEW(img->height, png_bytep);
+        row_pointers = NX_NEW(img->height, png_bytep);
         if (!row_pointers) {
                 NX_ERROR(NX_LOG_TAG, "Error creating PNG row pointers");
                 png_destroy_write_struct(&png_ptr, &info_ptr);
@@ -132,9 +134,11 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 return NX_FAIL;
         }
 
+        png_bytepp volatile row_pointers = NULL;
         if (setjmp(png_jmpbuf(png_ptr))) {
                 NX_ERROR(NX_LOG_TAG, "Could not set jump point for reading PNG file");
                 png_destroy_read_struct(&png_ptr, &info_ptr, png_infopp_NULL);
+                nx_free(row_pointers);
                 return NX_FAIL;
         }
 
@@ -195,7 +199,7 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                                 NX_IMAGE_UCHAR);
         }
 
-        png_bytepp row_pointers = NX_NEW(img->height, png_bytep);
+        row_pointers = NX_NEW(img->height, png_bytep);
         for (int row = 0; row < img->height; row++) {
                 row_pointers[row] = img->data.uc + row * img->row_stride;
         }
-- 
2.43.0


From ea316b54dbf205e41021b22039d0b04f6d15a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:17 +0000
Subject: [PATCH 47/71] fix: JPEG save and load free their row buffer when
 libjpeg reports an error

---
 src/nx_image_io_jpeg.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index 900be45..e54330d 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -76,8 +76,10 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
         cinfo.err = jpeg_std_error(&jerr.pub);
         jerr.pub.error_exit = my_error_exit;
 
+        uchar* volatile row_buffer = NULL;
         if (setjmp(jerr.setjmp_buffer)) {
                 jpeg_destroy_compress(&cinfo);
+                nx_free(row_buffer);
                 return NX_FAIL;
         }
 
@@ -102,6 +104,7 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
         } else if (img->type == NX_IMAGE_RGBA) {
                 int x;
                 uchar* buffer = NX_NEW_UC(3*img->width);
+                row_buffer = buffer;
                 JSAMPROW row_pointer = (JSAMPROW)(buffer);
                 while (cinfo.next_scanline < cinfo.image_height) {
                         const unsigned char* read_row = img->data.uc + cinfo.next_scanline * img->row_stride;
@@ -112,8 +115,10 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
                         }
                         jpeg_write_scanlines(&cinfo, &row_pointer, 1);
                 }
+                row_buffer = NULL;
                 nx_free(buffer);
         } else {
+                jpeg_destroy_compress(&cinfo);
                 return NX_FAIL;
         }
 
@@ -175,8 +180,10 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
         jerr.std_emit_message = jerr.pub.emit_message;
         jerr.pub.emit_message = my_emit_message;
 
+        uchar* volatile row_buffer = NULL;
         if (setjmp(jerr.setjmp_buffer)) {
                 jpeg_destroy_decompress(&cinfo);
+                nx_free(row_buffer);
                 return NX_FAIL;
         }
 
@@ -209,6 +216,7 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
         } else {
                 int x;
                 uchar* buffer = NX_NEW_UC(3*img->width);
+                row_buffer = buffer;
                 JSAMPROW row_pointer = (JSAMPROW)(buffer);
                 while (cinfo.output_scanline < cinfo.output_height) {
                         uchar* write_row = img->data.uc + cinfo.output_scanline * img->row_stride;
@@ -220,6 +228,7 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                                 write_row[4*x + 3] = 255;
                         }
                 }
+                row_buffer = NULL;
                 nx_free(buffer);
         }
 
-- 
2.43.0


From 8db8ac10bb073fffa6e996e33677d14d7ac663ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:29 +0000
Subject: [PATCH 48/71] fix: nx_calloc fails when the requested length
 overflows

---
 src/nx_alloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_alloc.c b/src/nx_alloc.c
index 19efc90..a2f6bac 100644
--- a/src/nx_alloc.c
+++ b/src/nx_alloc.c
@@ -26,6 +26,7 @@
 #include "virg/nexus/nx_alloc.h"
 
 #include <string.h>
+#include <stdint.h>
 #include <stdalign.h>
 
 #include "virg/nexus/nx_log.h"
@@ -72,6 +73,11 @@ void *nx_malloc(size_t sz)
 
 void *nx_calloc(size_t n_memb, size_t sz)
 {
+        if (sz != 0 && n_memb > SIZE_MAX / sz) {
+                NX_ERROR(NX_LOG_TAG, "Error allocating %zd items of %zd bytes, out of memory!", n_memb, sz);
+                return NULL;
+        }
+
         const size_t length = n_memb * sz;
         void *ptr = nx_malloc(length);
         if (ptr) {
-- 
2.43.0


From 901e9a90804ef8a58d66234ef7190f2aea907937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:29 +0000
Subject: [PATCH 49/71] fix: nx_image_scale does not sample beyond the last row
 and column

---
 src/nx_image.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index c2fa30b..3343568 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -552,20 +552,23 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
+                int ystep = (ypi + 1 < src->height) ? src->row_stride : 0;
+
                 const uchar *sample_row = src->data.uc + ypi * src->row_stride;
 
                 for (int x = 0; x < dest->width; ++x) {
                         float xp = x * inv_scale;
                         int xpi = (int)xp;
                         float dx = xp - xpi;
+                        int xstep = (xpi + 1 < src->width) ? 1 : 0;
 
                         const uchar *sample = sample_row + xpi;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[xstep];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[ystep];
+                        float Iy1 = sample[ystep + xstep];
 
                         short interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
@@ -638,20 +641,23 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
+                int ystep = (ypi + 1 < src->height) ? src->row_stride : 0;
+
                 const float *sample_row = src->data.f32 + ypi * src->row_stride;
 
                 for (int x = 0; x < dest->width; ++x) {
                         float xp = x * inv_scale;
                         int xpi = (int)xp;
                         float dx = xp - xpi;
+                        int xstep = (xpi + 1 < src->width) ? 1 : 0;
 
                         const float *sample = sample_row + xpi;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[xstep];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[ystep];
+                        float Iy1 = sample[ystep + xstep];
 
                         float interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
-- 
2.43.0


From 1bb6ef51d1a71604219f4aa21f1b45db312eb7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:29 +0000
Subject: [PATCH 50/71] fix: converting float images to 8 bit clamps to the
 range instead of returning black

---
 src/nx_image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 3343568..f6e4074 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -410,7 +410,7 @@ static void nx_image_convert_f32_to_uc(struct NXImage* dest, const struct NXImag
                 uchar *rdest = dest->data.uc + y * dest->row_stride;
                 for (int x = 0; x < dest->width; ++x) {
                         int value = rsrc[x] * 255.0f;
-                        value = nx_min_i(0, nx_max_i(255, value));
+                        value = nx_max_i(0, nx_min_i(255, value));
                         rdest[x] = value;
                 }
         }
-- 
2.43.0


From 212f6fa9dfbbc7c8b74d72606d3fa01d811da9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:29 +0000
Subject: [PATCH 51/71] fix: nx_image_normalize_to_zero_one finds the maximum
 of decreasing images

---
 src/nx_image.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index f6e4074..7b0e731 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -212,11 +212,12 @@ void nx_image_normalize_to_zero_one(struct NXImage *img, NXBool symmetric_around
         for (int y = 0; y < img->height; ++y) {
                 float *row = img->data.f32 + y*img->row_stride;
                 for (int x = 0; x < img->width; ++x) {
-                        for (int c = 0; c < nc; ++c)
+                        for (int c = 0; c < nc; ++c) {
                                 if (row[nc*x+c] < vmin)
                                         vmin = row[nc*x+c];
-                                else if (row[nc*x+c] > vmax)
+                                if (row[nc*x+c] > vmax)
                                         vmax = row[nc*x+c];
+                        }
                 }
         }
         /* NX_LOG("D", "min and max values are %.12f and %.12f", vmin, vmax); */
-- 
2.43.0


From dd66c418cc44c9e226a14499f612a5badcf8ad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:29 +0000
Subject: [PATCH 52/71] fix: image pyramids of images with padded rows keep the
 rows of level zero in place

---
 src/nx_image_pyr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_image_pyr.c b/src/nx_image_pyr.c
index d3762bf..0b021cc 100644
--- a/src/nx_image_pyr.c
+++ b/src/nx_image_pyr.c
@@ -88,7 +88,10 @@ void nx_image_pyr_create_level(struct NXImagePyr *pyr, int level_id, int width,
 
         struct NXImagePyrLevel *level = pyr->levels + level_id;
 
-        nx_image_resize(level->img, width, height, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
+        // Keep the stride of an image that has the right size already so that its
+        // pixels stay in place
+        int row_stride = (level->img->width == width) ? level->img->row_stride : NX_IMAGE_STRIDE_DEFAULT;
+        nx_image_resize(level->img, width, height, row_stride, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
 
         level->scale = scale;
         level->sigma = sigma;
-- 
2.43.0


From 2a18e70a16b676549055be0f1a14901970cc87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:17 +0000
Subject: [PATCH 53/71] fix: FAST non-maximum suppression stops instead of
 crashing when out of memory

---
 src/fast/fast_nonmax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fast/fast_nonmax.c b/src/fast/fast_nonmax.c
index a9c74a7..2f72799 100644
--- a/src/fast/fast_nonmax.c
+++ b/src/fast/fast_nonmax.c
@@ -28,6 +28,7 @@
  */
 #include "stdlib.h"
 
+#include "virg/nexus/nx_alloc.h"
 #include "virg/nexus/nx_keypoint.h"
 
 #define Compare(X, Y) ((X)>=(Y))
@@ -57,7 +58,7 @@ void fast_nonmax_suppression(int *ret_num_nonmax, struct NXKeypoint *ret_nonmax,
 	   (the corners are output in raster scan order). A beginning of -1 signifies
 	   that there are no corners on that row. */
 	last_row = corners[num_corners-1].y;
-	row_start = (int*)malloc((last_row+1)*sizeof(int));
+	row_start = (int*)nx_xmalloc((last_row+1)*sizeof(int));
 
 	for(i=0; i < last_row+1; i++)
 		row_start[i] = -1;
-- 
2.43.0


From 56811316c78e12b8e9bb644fdfef8a19663533d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:57 +0000
Subject: [PATCH 54/71] fix: nx_graph_insert_adj_lst counts the edges it adds

---
 src/nx_graph.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_graph.c b/src/nx_graph.c
index 777811d..c1b2b9a 100644
--- a/src/nx_graph.c
+++ b/src/nx_graph.c
@@ -152,8 +152,10 @@ void nx_graph_insert_adj_lst(struct NXGraphAdjLst *g,
         struct NXGraphEdge *e = nx_graph_edge_list_seach(g->edges[v], w);
         if (e)
                 e->weight = weight;
-        else
+        else {
                 g->edges[v] = nx_graph_edge_new(w, weight, g->edges[v]);
+                g->n_e++;
+        }
 
         e = nx_graph_edge_list_seach(g->edges[w], v);
         if (e)
-- 
2.43.0


From 477168d9b90bcb24e4a13a92c55c385ac234e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:57 +0000
Subject: [PATCH 55/71] fix: nx_string_array_find skips unset elements

---
 src/nx_string_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 2ee2497..65c0e57 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -179,7 +179,7 @@ int nx_string_array_find(const struct NXStringArray *sa, const char *s)
         NX_ASSERT_PTR(s);
 
         for (int i = 0; i < sa->size; ++i)
-                if (strcmp(s, sa->elems[i]) == 0)
+                if (sa->elems[i] && strcmp(s, sa->elems[i]) == 0)
                         return i;
 
         return -1;
-- 
2.43.0


From b974a8089515f8255e308af3598d1236f010bde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:57 +0000
Subject: [PATCH 56/71] fix: strings can be replaced by text derived from the
 string itself

---
 src/nx_data_frame.c   | 3 ++-
 src/nx_string.c       | 8 +++-----
 src/nx_string_array.c | 3 ++-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 56d81a4..86071e9 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -445,8 +445,9 @@ void nx_data_frame_set_string(struct NXDataFrame *df, int row_id, int col_id,
 
         struct NXDataColumn *dc = df->columns->elems[col_id];
         CHECK_DATA_COLUMN_TYPE(dc,NX_DCT_STRING);
+        char *elem_ptr = nx_strdup(value);
         NA_DATA_FRAME_ELEMENT(dc,row_id);
-        dc->elems[row_id] = nx_strdup(value);
+        dc->elems[row_id] = (void *)elem_ptr;
 }
 
 void nx_data_frame_set_int(struct NXDataFrame *df, int row_id, int col_id,
diff --git a/src/nx_string.c b/src/nx_string.c
index 08ccfe5..b8d7f78 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -50,12 +50,10 @@ char *nx_strdup(const char *s)
 
 void nx_strredup(char **dest, const char *src)
 {
-        nx_free(*dest);
+        char *cpy = src ? nx_strdup(src) : NULL;
 
-        if (src == NULL)
-                *dest = NULL;
-        else
-                *dest = nx_strdup(src);
+        nx_free(*dest);
+        *dest = cpy;
 }
 
 char *nx_fstr(const char* format, ...)
diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 65c0e57..44623fe 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -139,8 +139,9 @@ void nx_string_array_vsetf(struct NXStringArray *sa, int id, const char *fmt, va
         NX_ASSERT(id >= 0 && id < sa->size);
         NX_ASSERT_PTR(fmt);
 
+        char *s = nx_vfstr(fmt, args);
         nx_free(sa->elems[id]);
-        sa->elems[id] = nx_vfstr(fmt, args);
+        sa->elems[id] = s;
 }
 
 int nx_string_array_append(struct NXStringArray *sa, const char *s)
-- 
2.43.0


From e5bde5f182270838412ad3757bbe4374edda14fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:19 +0000
Subject: [PATCH 57/71] fix: affine warps are not turned black by a blur with
 zero sigma

---
 src/nx_affine_warp_processor.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nx_affine_warp_processor.c b/src/nx_affine_warp_processor.c
index a58eb29..6dc91ec 100644
--- a/src/nx_affine_warp_processor.c
+++ b/src/nx_affine_warp_processor.c
@@ -672,13 +672,15 @@ static void warp_processor_blur(struct NXImage *image,
         int nk_sym = nk_max / 2 + 1;
         float *kernel = NX_NEW_S(nk_sym);
 
-        // Smooth in x-direction
+        // Smooth in x-direction, there is nothing to do for zero sigma
         int nk = nkx / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_x);
+        const int n_rows = (sigma_x > 0.0f) ? image->height : 0;
+        if (n_rows > 0)
+                nx_kernel_sym_gaussian(nk, kernel, sigma_x);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int y = 0; y < image->height; ++y) {
+        for (int y = 0; y < n_rows; ++y) {
                 float *buffer = buffers[omp_get_thread_num()];
                 uchar *image_row = image->data.uc + y * image->row_stride;
                 nx_filter_copy_to_buffer1_uc(image->width, buffer, image_row, nkx / 2, NX_BORDER_MIRROR);
@@ -687,13 +689,15 @@ static void warp_processor_blur(struct NXImage *image,
                         image_row[x] = (uchar)buffer[x];
         }
 
-        // Smooth in y-direction
+        // Smooth in y-direction, there is nothing to do for zero sigma
         nk = nky / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_y);
+        const int n_cols = (sigma_y > 0.0f) ? image->width : 0;
+        if (n_cols > 0)
+                nx_kernel_sym_gaussian(nk, kernel, sigma_y);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int x = 0; x < image->width; ++x) {
+        for (int x = 0; x < n_cols; ++x) {
                 float *buffer = buffers[omp_get_thread_num()];
                 uchar *image_col = image->data.uc + x;
                 nx_filter_copy_to_buffer_uc(image->height, buffer, image_col, image->row_stride, nky / 2, NX_BORDER_MIRROR);
-- 
2.43.0


From 454062b941fbf876be4b41d910d2c629e0fe0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:19 +0000
Subject: [PATCH 58/71] fix: mirrored filter borders wider than the data do not
 read unset values

---
 src/nx_filter.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nx_filter.c b/src/nx_filter.c
index 3ba3332..d5c70f3 100644
--- a/src/nx_filter.c
+++ b/src/nx_filter.c
@@ -130,6 +130,14 @@ void nx_convolve_box(int n, float *data, int n_r)
                 data[i] /= (2*n_r+1);
 }
 
+// Mirrors i >= 0 around the ends of [0, n) as often as necessary
+static inline int mirrored_index(int i, int n)
+{
+        const int period = nx_max_i(1, 2*(n-1));
+        i %= period;
+        return i < n ? i : period - i;
+}
+
 void fill_buffer_border(int n, float *buffer, int n_border, enum NXBorderMode mode)
 {
         float buffer_b;
@@ -147,10 +155,10 @@ void fill_buffer_border(int n, float *buffer, int n_border, enum NXBorderMode mo
                         buffer[n_border+n+i] = buffer_b;
                 break;
         case NX_BORDER_MIRROR:
-                for (int i = 0; i < n_border; ++i)
-                        buffer[i] = buffer[2*n_border-i];
-                for (int i = 0; i < n_border; ++i)
-                        buffer[n_border+n+i] = buffer[n_border+n-i-2];
+                for (int i = 0; i < n_border; ++i) {
+                        buffer[i] = buffer[n_border + mirrored_index(n_border-i, n)];
+                        buffer[n_border+n+i] = buffer[n_border + mirrored_index(n+i, n)];
+                }
                 break;
         default:
                 NX_FATAL(NX_LOG_TAG, "Unhandled switch case for border mode.");
-- 
2.43.0


From 94296697581f1b6f97b6ed98cc896f17c0d1a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:19 +0000
Subject: [PATCH 59/71] fix: derivatives of images with a single row or column
 stay inside the image

---
 src/nx_image.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_image.c b/src/nx_image.c
index 7b0e731..fc74caf 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1205,6 +1205,10 @@ void nx_image_filter_box(struct NXImage *dest, const struct NXImage *src,
                 for (int y = 0; y < src->height; ++y) {                 \
                         const T *src_row = src->data.F + y*src->row_stride; \
                         float *dest_row = dest->data.f32 + y*dest->row_stride; \
+                        if (src->width < 2) {                           \
+                                memset(dest_row, 0, dest->width*sizeof(float)); \
+                                continue;                               \
+                        }                                               \
                         dest_row[0] = 2.0f * (src_row[1]-src_row[0])/S; \
                         for (int x = 1; x < dest->width-1; ++x) {       \
                                 dest_row[x] = (src_row[x+1]-src_row[x-1])/S; \
@@ -1241,6 +1245,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                 nx_image_resize(dest, src->width, src->height, NX_IMAGE_STRIDE_DEFAULT, \
                                 src->type, NX_IMAGE_FLOAT32);           \
                 nx_image_set_zero(dest);                                \
+                if (src->height < 2)                                    \
+                        return;                                         \
                                                                         \
                 for (int x = 0; x < dest->width; ++x) {                 \
                         dest->data.f32[x] = 2.0f * (src->data.F[x + src->row_stride] \
-- 
2.43.0


From a57c802785d30d86fe1d3a7297cecc7153a9a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:51 +0000
Subject: [PATCH 60/71] fix: anti-aliased downsampling of very small images
 stays inside the images

---
 src/nx_image.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index fc74caf..d0f09a6 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -838,8 +838,13 @@ void nx_image_upsample(struct NXImage *dest, const struct NXImage *src)
                 for (int y = 0; y < dest->height; ++y) {                \
                         const T *src_row = src->data.F + y * src->row_stride; \
                         T *dest_row = dest->data.F + y * dest->row_stride; \
-                        dest_row[0] = (2*src_row[2] + 12*src_row[1]     \
+                        if (dest->width < 1)                            \
+                                break;                                  \
+                        dest_row[0] = (2*src_row[src->width > 2 ? 2 : 0] \
+                                       + 12*src_row[1]                  \
                                        + 11 * src_row[0]) * norm_f;     \
+                        if (dest->width < 2)                            \
+                                continue;                               \
                         for (int x = 1; x < dest->width-1; ++x) {       \
                                 float sum = src_row[2*x-2] + src_row[2*x+2] \
                                         + 6 * (src_row[2*x-1] + src_row[2*x+1]) \
@@ -894,8 +899,13 @@ void nx_image_downsample_aa_x(struct NXImage *dest, const struct NXImage *src)
                 for (int x = 0; x < dest->width; ++x) {                 \
                         const T *src_col = src->data.F + x;        \
                         T *dest_col = dest->data.F + x;            \
-                        dest_col[0] = (2*src_col[2*ss] + 12 * src_col[ss] \
+                        if (dest->height < 1)                           \
+                                break;                                  \
+                        dest_col[0] = (2*src_col[src->height > 2 ? 2*ss : 0] \
+                                       + 12 * src_col[ss]               \
                                        + 11 * src_col[0]) * norm_f;     \
+                        if (dest->height < 2)                           \
+                                continue;                               \
                         for (int y = 1; y < dest->height-1; ++y) {      \
                                 int yds = y*dest->row_stride;           \
                                 float sum = src_col[(2*y-2)*ss] + src_col[(2*y+2)*ss] \
-- 
2.43.0


From dd091cb20748b80865b93f17a00b88bc70940ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:51 +0000
Subject: [PATCH 61/71] fix: mirrored image warps far outside of the image do
 not read outside of it

---
 src/nx_image_warp.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index f33cfde..a79822b 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -32,6 +32,14 @@
 #include "virg/nexus/nx_log.h"
 #include "virg/nexus/nx_uniform_sampler.h"
 
+// Mirrors i around the ends of [0, n) as often as necessary
+static inline int mirrored_index(int i, int n)
+{
+        const int period = n > 1 ? 2*n - 2 : 1;
+        i = (i < 0 ? -i : i) % period;
+        return i < n ? i : period - i;
+}
+
 void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest_stride,
                                    int src_w, int src_h, const uchar *src, int src_stride,
                                    const float *t_dest2src, enum NXImageWarpBackgroundMode bg_mode)
@@ -42,8 +50,6 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
 
         const int LAST_X = src_w - 1;
         const int LAST_Y = src_h - 1;
-        const int W2 = src_w * 2 - 2;
-        const int H2 = src_h * 2 - 2;
 
         uchar bg_fixed = 0;
         if (bg_mode == NX_IMAGE_WARP_WHITE)
@@ -108,20 +114,9 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                 }
                                 break;
                         case NX_IMAGE_WARP_MIRROR:
-                                if (idx[0] < 0) {
-                                        if (idx[0] < 0) idx[0] =  -idx[0] - W2 * (-idx[0] / W2);
-                                        if (idx[1] < 0) idx[1] =  -idx[1] - W2 * (-idx[1] / W2);
-                                } else if (idx[0] >= LAST_X) {
-                                        if (idx[0] >= src_w) idx[0] = W2 - idx[0] - W2 * (idx[0] / W2);
-                                        if (idx[1] >= src_w) idx[1] = W2 - idx[1] - W2 * (idx[1] / W2);
-                                }
-
-                                if (idy[0] < 0) {
-                                        if (idy[0] < 0) idy[0] =  -idy[0] - H2 * (-idy[0] / H2);
-                                        if (idy[1] < 0) idy[1] =  -idy[1] - H2 * (-idy[1] / H2);
-                                } else if (idy[0] >= LAST_Y) {
-                                        if (idy[0] >= src_h) idy[0] = H2 - idy[0] - H2 * (idy[0] / H2);
-                                        if (idy[1] >= src_h) idy[1] = H2 - idy[1] - H2 * (idy[1] / H2);
+                                for (int i = 0; i < 2; ++i) {
+                                        idx[i] = mirrored_index(idx[i], src_w);
+                                        idy[i] = mirrored_index(idy[i], src_h);
                                 }
                                 break;
                         }
-- 
2.43.0


From 61dbcf037ed66bc634b200ff6e492daa5b5b0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:51 +0000
Subject: [PATCH 62/71] fix: color maps clamp values outside of [0, 1] instead
 of reading outside of their tables

---
 src/nx_colorspace.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nx_colorspace.c b/src/nx_colorspace.c
index cf94c13..2f0d2a8 100644
--- a/src/nx_colorspace.c
+++ b/src/nx_colorspace.c
@@ -121,6 +121,13 @@ void nx_color_map_apply(uchar* red, uchar* green, uchar* blue,
                         float value, enum NXColorMap map)
 {
         float rgb[3];
+
+        // The color maps are defined on [0, 1]
+        if (!(value > 0.0f))
+                value = 0.0f;
+        else if (value > 1.0f)
+                value = 1.0f;
+
         switch (map) {
         case NX_COLOR_MAP_VIRIDIS:
                 interpolate_color_map_data(&rgb[0], value,
-- 
2.43.0


From 6afdbf2d881c088b583fe860c791e855a8f2b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:51 +0000
Subject: [PATCH 63/71] fix: rotating float images by 45 degrees keeps
 fractional values

---
 src/nx_image_warp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index a79822b..a2bce8d 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -225,7 +225,7 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                         }
                         const float *p0 = src->data.f32 + idy[0]*src->row_stride;
                         const float *p1 = src->data.f32 + idy[1]*src->row_stride;
-                        int I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
+                        float I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
                                 + v*(up*p1[idx[0]] + u*p1[idx[1]]);
 
                         drow[x] = I;
-- 
2.43.0


From 87ac348cec253d82a48eb54fe23a200fbfc99697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:06 +0000
Subject: [PATCH 64/71] fix: image warps do not extrapolate into the pixel left
 of and above the image

---
 src/nx_image_warp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index a2bce8d..6780300 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -68,8 +68,8 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                          /* x, y, xp, yp); */
                         /* } */
 
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -156,8 +156,8 @@ static void nx_image_rotate45_uc(struct NXImage *dest, struct NXImage *src, NXBo
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -207,8 +207,8 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
-- 
2.43.0


From bff05d42b70ebbfe149096056e9491ddf4c0ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:45 +0000
Subject: [PATCH 65/71] fix: tools fail when their standard output could not be
 written

---
 tools/nx_fit_homography_main.c  | 4 ++++
 tools/nx_harris_detector_main.c | 6 ++++++
 tools/nx_sift_benchmark_main.c  | 4 ++++
 tools/nx_sift_detector_main.c   | 8 ++++++++
 tools/vg_stereo_matcher_main.cc | 4 ++++
 5 files changed, 26 insertions(+)

diff --git a/tools/nx_fit_homography_main.c b/tools/nx_fit_homography_main.c
index 9ec9b63..0a658a3 100644
--- a/tools/nx_fit_homography_main.c
+++ b/tools/nx_fit_homography_main.c
@@ -138,6 +138,10 @@ int main(int argc, char **argv)
                 }
         }
 
+        // the output is complete only if all of it could be written
+        if (ferror(stdout) || fflush(stdout) != 0)
+                NX_FATAL(NX_LOG_TAG, "Could not write to the standard output!");
+
         nx_free(h_l2r);
         nx_free(h_r2l);
         nx_free(vpts);
diff --git a/tools/nx_harris_detector_main.c b/tools/nx_harris_detector_main.c
index d93ccaa..c760004 100644
--- a/tools/nx_harris_detector_main.c
+++ b/tools/nx_harris_detector_main.c
@@ -23,11 +23,13 @@
  * Contact mustafaozuysal@iyte.edu.tr for comments and bug reports.
  *
  */
+#include <stdio.h>
 #include <stdlib.h>
 #include <math.h>
 #include <string.h>
 
 #include "virg/nexus/nx_options.h"
+#include "virg/nexus/nx_log.h"
 #include "virg/nexus/nx_alloc.h"
 #include "virg/nexus/nx_image.h"
 #include "virg/nexus/nx_image_warp.h"
@@ -168,6 +170,10 @@ int main(int argc, char** argv)
                 nx_image_free(debug_img);
         }
 
+        // the output is complete only if all of it could be written
+        if (ferror(stdout) || fflush(stdout) != 0)
+                NX_FATAL(NX_LOG_TAG, "Could not write to the standard output!");
+
         nx_free(keys);
         nx_image_free(simg);
         for (int i = 0; i < 3; ++i)
diff --git a/tools/nx_sift_benchmark_main.c b/tools/nx_sift_benchmark_main.c
index a29c87a..1669419 100644
--- a/tools/nx_sift_benchmark_main.c
+++ b/tools/nx_sift_benchmark_main.c
@@ -80,6 +80,10 @@ int main(int argc, char **argv)
 
         run_vgg_benchmark(bopt, detector);
 
+        // the output is complete only if all of it could be written
+        if (ferror(stdout) || fflush(stdout) != 0)
+                NX_FATAL(NX_LOG_TAG, "Could not write to the standard output!");
+
         nx_sift_detector_free(detector);
         nx_free(bopt->vgg_base);
         nx_free(bopt);
diff --git a/tools/nx_sift_detector_main.c b/tools/nx_sift_detector_main.c
index 1800a80..59bd992 100644
--- a/tools/nx_sift_detector_main.c
+++ b/tools/nx_sift_detector_main.c
@@ -23,7 +23,11 @@
  * Contact mustafaozuysal@iyte.edu.tr for comments and bug reports.
  *
  */
+#include <stdio.h>
+#include <stdlib.h>
+
 #include "virg/nexus/nx_options.h"
+#include "virg/nexus/nx_log.h"
 #include "virg/nexus/nx_alloc.h"
 #include "virg/nexus/nx_image.h"
 #include "virg/nexus/nx_image_io.h"
@@ -76,6 +80,10 @@ int main(int argc, char **argv)
         }
         nx_sift_xsave(output_name, n_keys, keys, desc);
 
+        // the output is complete only if all of it could be written
+        if (ferror(stdout) || fflush(stdout) != 0)
+                NX_FATAL(NX_LOG_TAG, "Could not write to the standard output!");
+
         nx_free(desc);
         nx_free(keys);
         nx_sift_detector_free(sift_detector);
diff --git a/tools/vg_stereo_matcher_main.cc b/tools/vg_stereo_matcher_main.cc
index 43c71f4..a150aa8 100644
--- a/tools/vg_stereo_matcher_main.cc
+++ b/tools/vg_stereo_matcher_main.cc
@@ -491,6 +491,10 @@ int main(int argc, char** argv)
         }
 
 
+        // the output is complete only if all of it could be written
+        if (ferror(stdout) || fflush(stdout) != 0)
+                NX_FATAL(LOG_TAG, "Could not write to the standard output!");
+
         // int n_inliers_f = estimate_initial_fundamental_matrix(sf, is_verbose);
         // if (n_inliers_f >= 30) {
         //         double E[9];
-- 
2.43.0


From e9f5004f3073d1f1e44e6c988fec81a8c95c1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:45 +0000
Subject: [PATCH 66/71] fix: nx-stitch stops with a message when images cannot
 be connected

---
 tools/nx_panorama_builder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/nx_panorama_builder.c b/tools/nx_panorama_builder.c
index 0558cb3..92d0178 100644
--- a/tools/nx_panorama_builder.c
+++ b/tools/nx_panorama_builder.c
@@ -261,6 +261,10 @@ int *nx_panorama_builder_find_shortest_paths(int n, double* weights, int source)
                         }
                 }
 
+                if (current < 0)
+                        NX_FATAL(NX_LOG_TAG, "Not all of the images can be connected to image %d!",
+                                 source);
+
                 visited[current] = NX_TRUE;
                 n_not_visited--;
 
@@ -279,6 +283,7 @@ int *nx_panorama_builder_find_shortest_paths(int n, double* weights, int source)
                 }
         }
 
+        nx_free(visited);
         nx_free(node_val);
 
         return next_node;
-- 
2.43.0


From 711f360291487faa440fe0d996f0f53e2f9b9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:35 +0000
Subject: [PATCH 67/71] fix: USAC homography estimation sets the homography
 when there are too few correspondences

---
 src/nx_usac_homography.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index b5b3f2f..f3bdadc 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -191,8 +191,11 @@ int nx_usac_estimate_homography(double *h, int n_corr,
 {
         const int PROSAC_START = 10;
 
-        if (n_corr < 4)
+        if (n_corr < 4) {
+            // same as when no model is found
+            nx_dvec_set_zero(9, h);
             return 0;
+        }
 
         qsort((void *)corr_list, n_corr, sizeof(struct NXPointMatch2D),
               nx_point_match_2d_cmp_match_cost);
-- 
2.43.0


From c3fd5c305cac9ff84fe72758f29fd336b365d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:12 +0000
Subject: [PATCH 68/71] fix: SIFT matching to an image without keypoints
 returns no matches

---
 src/nx_sift_detector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 171ed14..b403880 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -799,6 +799,10 @@ int nx_sift_match_brute_force(int n,  const struct NXKeypoint *keys,
 
         const float SIFT_LOCALIZATION_STD_DEV = 0.3f;
 
+        // nothing to match to
+        if (np == 0)
+                return 0;
+
         NXBool check_dist_ratio = dist_ratio_thr > 0.0f && dist_ratio_thr < 1.0f;
 
         if (check_dist_ratio) {
-- 
2.43.0


From a3c6123cd76a687737a2a6257b776839916248fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:03 +0000
Subject: [PATCH 69/71] fix: vg-stereo-matcher does not search an empty set of
 descriptors

---
 tools/vg_stereo_matcher_main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/vg_stereo_matcher_main.cc b/tools/vg_stereo_matcher_main.cc
index a150aa8..e98d646 100644
--- a/tools/vg_stereo_matcher_main.cc
+++ b/tools/vg_stereo_matcher_main.cc
@@ -122,7 +122,8 @@ static void build_frame(Frame& frm, string label, VGImage& img, bool is_verbose)
 static void match_frames(StereoFrame& stereo, bool is_verbose)
 {
         stereo.hcorr.clear();
-        int n_left = stereo.left.dmap.size();
+        // there is nothing to match to in an image without keypoints
+        int n_left = stereo.right.dmap.size() > 0 ? stereo.left.dmap.size() : 0;
         for (int i = 0; i < n_left; ++i) {
                 const uchar* dleft = stereo.left.dmap.get_descriptor(i);
                 uint64_t id_left = stereo.left.dmap.get_id(i);
-- 
2.43.0


From 0677addd775181946def4e2a30c1b063e39889c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:42 +0000
Subject: [PATCH 70/71] fix: PNM files with more than 8 bits per sample are
 refused instead of misread

---
 src/nx_image_io_pnm.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index f404ca6..1b25c4e 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -104,6 +104,12 @@ static NXBool is_valid_pnm_size(int width, int height)
         return width > 0 && height > 0 && width <= INT_MAX / 4 / height;
 }
 
+// Larger values are stored as two bytes per channel
+static NXBool is_valid_pnm_levels(int levels)
+{
+        return levels > 0 && levels <= 255;
+}
+
 static NXResult read_pnm_data(struct NXImage *img, enum NXImageType img_type,
                               FILE *pnm, int pnm_width, int pnm_height, enum NXImageType pnm_type)
 {
@@ -215,6 +221,11 @@ void nx_image_xload_pnm(struct NXImage *img, const char *filename,
                 NX_FATAL(NX_LOG_TAG, "Invalid image size %d x %d in %s",
                          pnm_width, pnm_height, filename);
         }
+
+        if (!is_valid_pnm_levels(pnm_levels)) {
+                NX_FATAL(NX_LOG_TAG, "Unsupported maximum pixel value %d in %s",
+                         pnm_levels, filename);
+        }
         c = fgetc(pnm);
 
         enum NXImageType img_type;
@@ -304,6 +315,13 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 return NX_FAIL;
         }
 
+        if (!is_valid_pnm_levels(pnm_levels)) {
+                NX_ERROR(NX_LOG_TAG, "Unsupported maximum pixel value %d in %s",
+                         pnm_levels, filename);
+                fclose(pnm);
+                return NX_FAIL;
+        }
+
         // Skip the single white space character before pixel data
         if (fgetc(pnm) == EOF) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error reading from %s", filename);
-- 
2.43.0


From 8ccfc6db32362a538d93341754c1170a808215f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:05 +0000
Subject: [PATCH 71/71] fix: descriptors of the map itself can be added again

---
 src/vg_descriptor_map.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vg_descriptor_map.cc b/src/vg_descriptor_map.cc
index 2f930d5..decb671 100644
--- a/src/vg_descriptor_map.cc
+++ b/src/vg_descriptor_map.cc
@@ -54,12 +54,14 @@ void VGDescriptorMap::reserve(int n_descriptors)
 
 int VGDescriptorMap::add(uint64_t id, const uchar* desc)
 {
+        // desc may point into m_descriptor_data, which resize can move
+        const vector<uchar> d(desc, desc + m_n_octets);
         int i = static_cast<int>(m_ids.size());
         m_ids.push_back(id);
 
         m_descriptor_data.resize(m_descriptor_data.size() + m_n_octets);
         uchar* desc_i = m_descriptor_data.data() + i*m_n_octets;
-        memcpy(desc_i, desc, m_n_octets*sizeof(*desc));
+        memcpy(desc_i, d.data(), m_n_octets*sizeof(*desc));
 
         return static_cast<int>(m_ids.size());
 }
-- 
2.43.0

