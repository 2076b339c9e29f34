From 7d150bfd8888258dd79ab10f8e1d99aefc7b07a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:37 +0000
Subject: [PATCH 01/28] fix: return option structure to the small allocator
 when the option value cannot be allocated

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index af1c50d..051712c 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -206,7 +206,7 @@ static coap_msg_op_t *coap_msg_op_new(unsigned num, unsigned len, const char *va
     op->val = (char *)coap_mem_medium_alloc(len);
     if (op->val == NULL)
     {
-        coap_mem_medium_free(op);
+        coap_mem_small_free(op);
         return NULL;
     }
     memcpy(op->val, val, len);
-- 
2.43.0


From 06545a82dd8bc7b5f933faa98d1c7bb458a3868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:37 +0000
Subject: [PATCH 02/28] fix: treat the extended option delta byte as unsigned
 when parsing

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 051712c..655bebb 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -566,7 +566,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_delta += p[0];
+        op_delta += (unsigned char)p[0];
         p++;
         len--;
     }
-- 
2.43.0


From 8fa0e7b29333286952401f2e0c72fd15eb71eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:37 +0000
Subject: [PATCH 03/28] fix: treat the extended option length byte as unsigned
 when parsing

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 655bebb..15a0fc1 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -586,7 +586,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_len += p[0];
+        op_len += (unsigned char)p[0];
         p++;
         len--;
     }
-- 
2.43.0


From 5ad8f165cdc1c4da21bda769f24e43f77a1b1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:37 +0000
Subject: [PATCH 04/28] fix: do not read past the end of a message with no
 payload marker

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 15a0fc1..16d51ea 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -640,7 +640,7 @@ static ssize_t coap_msg_parse_ops(coap_msg_t *msg, char *buf, size_t len)
 
     while (1)
     {
-        if (((p[0] & 0xff) == 0xff) || (len == 0))
+        if ((len == 0) || ((p[0] & 0xff) == 0xff))
         {
             break;
         }
-- 
2.43.0


From b8185b0c0d3dc1c188e20c31fe99b795f1553998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:37 +0000
Subject: [PATCH 05/28] fix: base the size of the extended option length on the
 option length when formatting

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 16d51ea..3b06442 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -931,7 +931,7 @@ static ssize_t coap_msg_format_op(coap_msg_op_t *op, unsigned prev_num, char *bu
     {
         num += 2;
     }
-    else if (op->num >= 13)
+    else if (op->len >= 13)
     {
         num += 1;
     }
-- 
2.43.0


From 5550ddf4274c38f3b4212d12e24c6768abc351e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:37 +0000
Subject: [PATCH 06/28] fix: parse a zero-length block option value without
 reading it

---
 lib/src/coap_msg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 3b06442..919b3fc 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -109,6 +109,11 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
 {
     switch (len)
     {
+    case 0:
+        *size = 1 << 4;
+        *more = 0;
+        *num = 0;
+        break;
     case 1:
         *size = 1 << ((val[0] & 0x07) + 4);
         *more = !!(val[0] & 0x08);
-- 
2.43.0


From 2b62e6907e26d5cd4613571d92327dec2e2541c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:37 +0000
Subject: [PATCH 07/28] fix: reject block option values that are too long

---
 lib/src/coap_msg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 919b3fc..7e0ef16 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -125,12 +125,15 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
         *num = ((unsigned)(unsigned char)val[0] << 4)
              | (((unsigned)(unsigned char)val[1] & 0x000000f0) >> 4);
         break;
-    default:
+    case 3:
         *size = 1 << ((val[2] & 0x07) + 4);
         *more = !!(val[2] & 0x08);
         *num = ((unsigned)(unsigned char)val[0] << 12)
              | ((unsigned)(unsigned char)val[1] << 4)
              | (((unsigned)(unsigned char)val[2] & 0x000000f0) >> 4);
+        break;
+    default:
+        return -EINVAL;
     }
     if (*size > COAP_MSG_OP_MAX_BLOCK_SIZE)
     {
-- 
2.43.0


From 5db9f6dd8857202953545d8507b3b8179a848b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:37 +0000
Subject: [PATCH 08/28] fix: reject block numbers that do not fit in the block
 option value

---
 lib/src/coap_msg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 7e0ef16..a44315d 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -157,7 +157,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
     switch (len)
     {
     case 1:
-        if (num > (1 << 4))
+        if (num >= (1 << 4))
         {
             return -EINVAL;
         }
@@ -166,7 +166,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[0] |= szx;
         return 1;
     case 2:
-        if (num > (1 << 12))
+        if (num >= (1 << 12))
         {
             return -EINVAL;
         }
@@ -176,7 +176,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[1] |= szx;
         return 2;
     case 3:
-        if (num > (1 << 20))
+        if (num >= (1 << 20))
         {
             return -EINVAL;
         }
-- 
2.43.0


From 741821f71854a2f4553ca7b7f65f2409268018bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:31 +0000
Subject: [PATCH 09/28] fix: server treated the first request with message ID 0
 from a new client as a duplicate

---
 lib/src/coap_server.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 30f0bc0..3b29891 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1364,8 +1364,7 @@ static int coap_server_trans_create(coap_server_trans_t *trans, coap_server_t *s
         memset(trans, 0, sizeof(coap_server_trans_t));
         return -errno;
     }
-    coap_msg_create(&trans->req);
-    coap_msg_create(&trans->resp);
+    /* the req and resp members remain zeroed (version number 0) until a request and its response are recorded */
     trans->server = server;
 #ifdef COAP_DTLS_EN
     ret = coap_server_trans_dtls_create(trans);
-- 
2.43.0


From f76462d0a7603a39ece47c1af87a4e785e4b7dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:31 +0000
Subject: [PATCH 10/28] fix: server passed an empty confirmable message (ping)
 to the handler instead of rejecting it

---
 lib/src/coap_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 3b29891..dd1d34d 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2373,7 +2373,8 @@ static int coap_server_exchange(coap_server_t *server)
     /* check for a valid request */
     if ((coap_msg_get_type(&recv_msg) == COAP_MSG_ACK)
      || (coap_msg_get_type(&recv_msg) == COAP_MSG_RST)
-     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ))
+     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ)
+     || (coap_msg_is_empty(&recv_msg)))
     {
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-- 
2.43.0


From 7026281620e94e6522de427df116c225abf37215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:31 +0000
Subject: [PATCH 11/28] fix: server retransmitted a piggy-backed or
 non-confirmable response when a new request replaced an unacknowledged
 separate response

---
 lib/src/coap_server.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index dd1d34d..54b2917 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2394,6 +2394,13 @@ static int coap_server_exchange(coap_server_t *server)
     /* clear details of the previous request/response */
     coap_server_trans_clear_req(trans);
     coap_server_trans_clear_resp(trans);
+    ret = coap_server_trans_stop_ack_timer(trans);
+    if (ret < 0)
+    {
+        coap_server_trans_destroy(trans);
+        coap_msg_destroy(&recv_msg);
+        return ret;
+    }
 
     /* determine response type */
     if (coap_msg_get_type(&recv_msg) == COAP_MSG_CON)
-- 
2.43.0


From 30c99a60832225d076f58d9563d8191892c40786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:31 +0000
Subject: [PATCH 12/28] fix: server lost the error when a response could not be
 sent again for a duplicate request

---
 lib/src/coap_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 54b2917..210559b 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2322,7 +2322,7 @@ static int coap_server_exchange(coap_server_t *server)
                 if (num < 0)
                 {
                     coap_server_trans_destroy(trans);
-                    return ret;
+                    return num;
                 }
             }
             return 0;
-- 
2.43.0


From 7c49b7b38d39c06c2078f39b1e891126c51f20f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:00 +0000
Subject: [PATCH 13/28] fix: client lost the partly copied request when a
 block-wise transfer ran out of memory

---
 lib/src/coap_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 812d1cd..8f4d5fe 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1690,6 +1690,7 @@ static ssize_t coap_client_exchange_blockwise1(coap_client_t *client,
         ret = coap_msg_copy(&msg, req);
         if (ret < 0)
         {
+            coap_msg_destroy(&msg);
             return ret;
         }
         block1_more = 1;
@@ -1851,6 +1852,7 @@ static ssize_t coap_client_exchange_blockwise2(coap_client_t *client,
             ret = coap_msg_copy(&msg, req);
             if (ret < 0)
             {
+                coap_msg_destroy(&msg);
                 return ret;
             }
             block2_more = 0;  /* more must be zero for this use case */
-- 
2.43.0


From 623f2c6b0c730aeacd9f056f549c0dd5cacc97f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 14/28] fix: uri_copy refused to copy a URI without a scheme
 and missed failed allocations

---
 proxy/common/src/uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 48dcba4..d580b10 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -748,7 +748,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->host != NULL)
     {
         dest->host = strdup(src->host);
-        if (dest->scheme == NULL)
+        if (dest->host == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
@@ -757,7 +757,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->port != NULL)
     {
         dest->port = strdup(src->port);
-        if (dest->scheme == NULL)
+        if (dest->port == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
-- 
2.43.0


From fbb27921a131c7ecbc2a6a3a26917553d19a258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 15/28] fix: HTTP parser read and wrote out of bounds for a
 negative chunk size

---
 proxy/common/src/http_msg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index f8afeee..9df897a 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -436,6 +436,10 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
                 {
                     return -EBADMSG;
                 }
+                if (chunk_len < 0)
+                {
+                    return -EBADMSG;
+                }
                 if (chunk_len == 0)
                 {
                     break;
-- 
2.43.0


From cb4469b69fe4e4ae35f78edaba29191137247e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 16/28] fix: http_msg_generate wrote past a buffer of length
 zero

---
 proxy/common/src/http_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 9df897a..1f5e13d 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -645,7 +645,7 @@ size_t http_msg_generate(http_msg_t *msg, char *buf, size_t len)
         {
             memcpy(buf + str_len, msg->body, msg->body_len);  /* full copy */
         }
-        else if (str_len < (len - 1))  /* if there is space for one byte not including the '\0' */
+        else if (str_len + 1 < len)  /* if there is space for one byte not including the '\0' */
         {
             memcpy(buf + str_len, msg->body, (len - 1) - str_len);  /* partial copy */
         }
-- 
2.43.0


From 3b0d4f1510b09f40d4c6f4f157fb66b3c316638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 17/28] fix: http_msg_generate_chunk wrote past a buffer that
 only holds the size line

---
 proxy/common/src/http_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 1f5e13d..b1c7b66 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -669,7 +669,7 @@ size_t http_msg_generate_chunk(char *out, size_t out_len, const char *in, size_t
     num += target;
 
     target = in_len;
-    actual = (target <= (out_len - 1)) ? target : (out_len - 1);
+    actual = (target < out_len) ? target : ((out_len > 0) ? out_len - 1 : 0);
     memcpy(out, in, actual);
     out += actual;
     out_len -= actual;
-- 
2.43.0


From 0f16d437ec2d76774dab5d94eabfe6070c7c363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 18/28] fix: http_msg_set_start leaked the previous start line

---
 proxy/common/src/http_msg.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index b1c7b66..f161dd7 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -578,6 +578,13 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
 
 int http_msg_set_start(http_msg_t *msg, const char *start1, const char *start2, const char *start3)
 {
+    int i = 0;
+
+    for (i = 0; i < HTTP_MSG_NUM_START; i++)
+    {
+        free(msg->start[i]);
+        msg->start[i] = NULL;
+    }
     msg->start[0] = strdup(start1);
     if (msg->start[0] == NULL)
     {
-- 
2.43.0


From ea56d9c9959004bf08517b03fa8725d5d7dae721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 19/28] fix: http_msg_set_body leaked the previous body

---
 proxy/common/src/http_msg.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index f161dd7..1a699b0 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -610,12 +610,16 @@ int http_msg_set_header(http_msg_t *msg, const char *name, const char *value)
 
 int http_msg_set_body(http_msg_t *msg, const char *buf, size_t len)
 {
-    msg->body = calloc(len + 1, 1);  /* allocate space for a terminating null character */
-    if (msg->body == NULL)           /* even if the body carries binary data */
+    char *body = NULL;
+
+    body = calloc(len + 1, 1);  /* allocate space for a terminating null character */
+    if (body == NULL)           /* even if the body carries binary data */
     {
         return -ENOMEM;
     }
-    memcpy(msg->body, buf, len);
+    memcpy(body, buf, len);
+    free(msg->body);
+    msg->body = body;
     msg->body_len = len;
     return 0;
 }
-- 
2.43.0


From cf12a11b8153e62799e3afecf4fac9d6f0931ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 20/28] fix: configuration parser read past the end of text
 whose last line is not terminated

---
 proxy/common/src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index d5fe226..5b28e47 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -270,7 +270,7 @@ static int config_parser_next(config_parser_t *p)
 
     p->prev_line = p->line;
     p->prev_col = p->col;
-    if (p->in_idx == p->in_len)
+    if (p->in_idx >= p->in_len)
     {
         c = '\0';
     }
-- 
2.43.0


From f034ba134192d721145eb82f79cdc5c4c8634b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 21/28] fix: config_strerr described lexical and syntax errors
 wrongly

---
 proxy/common/src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index 5b28e47..03b9bf4 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -37,7 +37,7 @@
 #include <ctype.h>
 #include "config.h"
 
-#define CONFIG_NUM_STR  6
+#define CONFIG_NUM_STR  5
 
 #define CONFIG_PARSER_DEF_TAB_WIDTH   4
 #define CONFIG_PARSER_INIT_STR_LEN   64
@@ -106,7 +106,6 @@ static const char *config_str[CONFIG_NUM_STR + 1] =
     "ok",
     "invalid argument",
     "out of memory",
-    "input/output error",
     "lexical error",
     "syntax error",
     "unknown"
-- 
2.43.0


From 0bf210d8bcfeda0d50948a9d1df8cb36ad860545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 22/28] fix: config_set lost the previous value when it ran out
 of memory

---
 proxy/common/src/config.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index 03b9bf4..80d7942 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -895,6 +895,7 @@ int config_set(config_t *config, const char *section_name, const char *entry_nam
 {
     config_section_t *section = NULL;
     config_entry_t *entry = NULL;
+    char *value = NULL;
     int ret = 0;
 
     section = config_find_section(config, section_name);
@@ -910,12 +911,13 @@ int config_set(config_t *config, const char *section_name, const char *entry_nam
     if (entry != NULL)
     {
         /* replace existing value */
-        free(entry->value);
-        entry->value = strdup(entry_value);
-        if (entry->value == NULL)
+        value = strdup(entry_value);
+        if (value == NULL)
         {
             return CONFIG_ENOMEM;
         }
+        free(entry->value);
+        entry->value = value;
     }
     else
     {
-- 
2.43.0


From 3583e108defb2fe18339d79a2f1dce2b5da2fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:51 +0000
Subject: [PATCH 23/28] fix: proxy reported some unknown CoAP success codes as
 HTTP client errors

---
 proxy/common/src/cross.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index ab86497..a48592a 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -145,6 +145,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_CONTENT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "200", "OK");
         }
+        break;
     case COAP_MSG_CLIENT_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
@@ -170,6 +171,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_UNSUP_CONT_FMT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "415", "Unsupported Media Type");
         }
+        break;
     case COAP_MSG_SERVER_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
-- 
2.43.0


From 759ec63effa638c25d0ce521585c83c1354f8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:51 +0000
Subject: [PATCH 24/28] fix: cross_uri_coap_to_http reported success for a
 buffer of length zero

---
 proxy/common/src/cross.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index a48592a..c778a5b 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -491,7 +491,7 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     /* generate URI */
     num = uri_generate(&uri, buf, len);
     uri_destroy(&uri);
-    if (num > len - 1)
+    if (num >= len)
     {
         return -ENOSPC;
     }
-- 
2.43.0


From fb0b9894a7afd225c7e286b2045ce35f7add34b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:09 +0000
Subject: [PATCH 25/28] fix: proxy truncated a response that exactly fills the
 send buffer

---
 proxy/http_coap/src/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index b730fd8..bd20d12 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -290,7 +290,7 @@ static int connection_send(connection_t *con, http_msg_t *msg)
     while (1)
     {
         len = http_msg_generate(msg, data_buf_get_data(&con->send_buf), data_buf_get_space(&con->send_buf));
-        if (len <= data_buf_get_space(&con->send_buf))
+        if (len < data_buf_get_space(&con->send_buf))  /* the space must also hold the terminating '\0' */
         {
             break;
         }
-- 
2.43.0


From 28a96e07dba1d68a3ed7b782127a74b643f56b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:09 +0000
Subject: [PATCH 26/28] fix: proxy echoed a long GET request body as the
 response body

---
 proxy/http_coap/src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index bd20d12..6159c00 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -367,6 +367,7 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
 
     if (coap_msg_get_code_detail(req_msg) == COAP_MSG_GET)
     {
+        con->body_end = 0;  /* discard the body of the request */
         /* execute regular exchange */
         coap_log_info("[%u] <%u> %s Sending GET request to CoAP server host %s and port %s",
                       con->listener_index, con->con_index, con->addr,
-- 
2.43.0


From 0d4e0b6c89b728e6ef830763ba600230f65586fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:09 +0000
Subject: [PATCH 27/28] fix: proxy did not forward DELETE requests to the CoAP
 server

---
 proxy/http_coap/src/connection.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 6159c00..315b325 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -512,6 +512,15 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
             con->body_end = num;
         }
     }
+    else if (coap_msg_get_code_detail(req_msg) == COAP_MSG_DELETE)
+    {
+        con->body_end = 0;  /* discard the body of the request */
+        /* execute regular exchange */
+        coap_log_info("[%u] <%u> %s Sending DELETE request to CoAP server host %s and port %s",
+                      con->listener_index, con->con_index, con->addr,
+                      con->coap_client_host, con->coap_client_port);
+        return coap_client_exchange(&con->coap_client, req_msg, resp_msg);
+    }
     return 0;
 }
 
-- 
2.43.0


From 06928f5ba41e393c81a0d6da8ada6dd08ad73eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:09 +0000
Subject: [PATCH 28/28] fix: proxy crashed on a request URI without a host or a
 port

---
 proxy/http_coap/src/connection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 315b325..7143ba8 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -554,6 +554,14 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         coap_msg_destroy(&coap_req_msg);
         return ret;
     }
+    if ((uri_get_host(&uri) == NULL) || (uri_get_port(&uri) == NULL))
+    {
+        coap_log_error("[%u] <%u> %s Missing host or port in request URI in request message from HTTP client",
+                       con->listener_index, con->con_index, con->addr);
+        uri_destroy(&uri);
+        coap_msg_destroy(&coap_req_msg);
+        return connection_gen_error_resp(con, resp_msg, 400);
+    }
     if (!con->coap_client_active)
     {
         /* first exchange with a CoAP server */
-- 
2.43.0

