From 83da61c03bfc10df8b7c89b746a608be96501a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 01/50] fix: size of xml output is an int in debug message

---
 src/main/c/xmq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 8691d85..e8df19e 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2699,7 +2699,7 @@ void xmq_print_xml(XMQDoc *doq, XMQOutputSettings *output_settings)
                     (char*)buffer,
                     size);
 
-    debug("xmq=", "xmq_print_xml wrote %zu bytes", size);
+    debug("xmq=", "xmq_print_xml wrote %d bytes", size);
 }
 
 void xmq_print_html(XMQDoc *doq, XMQOutputSettings *output_settings)
-- 
2.43.0


From 764d59fb2aa50a24acbc79411bfe70dabdfb26e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 02/50] fix: print the document error verbatim instead of using
 it as a printf format

---
 src/main/c/xmq-cli.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 9f2f889..a77f825 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1114,7 +1114,7 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
             if (!ok)
             {
                 const char *error = xmqDocError(doq);
-                fprintf(stderr, error, command->in);
+                if (error) fprintf(stderr, "%s", error);
                 xmqFreeDoc(doq);
                 return false;
             }
@@ -1168,7 +1168,7 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
             if (!ok)
             {
                 const char *error = xmqDocError(doq);
-                fprintf(stderr, error, command->in);
+                if (error) fprintf(stderr, "%s", error);
                 xmqFreeDoc(doq);
                 return false;
             }
@@ -1913,7 +1913,7 @@ bool cmd_load(XMQCliCommand *command)
         {
             const char *error = xmqDocError(command->env->doc);
             if (error) {
-                fprintf(stderr, error, command->in);
+                fprintf(stderr, "%s", error);
             }
             xmqFreeDoc(command->env->doc);
             command->env->doc = NULL;
@@ -2311,7 +2311,7 @@ bool cmd_add(XMQCliCommand *command)
     if (!ok)
     {
         const char *error = xmqDocError(doq);
-        fprintf(stderr, error, command->in);
+        if (error) fprintf(stderr, "%s", error);
         xmqFreeDoc(doq);
         return false;
     }
@@ -3944,7 +3944,7 @@ xmqDocDefaultLoaderFunc(const xmlChar * URI,
     {
         const char *error = xmqDocError(doq);
         if (error) {
-            fprintf(stderr, error, URI);
+            fprintf(stderr, "%s", error);
         }
         xmqFreeDoc(doq);
         return NULL;
-- 
2.43.0


From 755f6e252aed17b4f0f89d5392c9e7047b95324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 03/50] fix: do not reuse a consumed va_list when a log line
 needs a larger buffer

---
 src/main/c/xmq.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index e8df19e..ef68123 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4729,7 +4729,10 @@ char *buf_vsnprintf(const char *format, va_list ap)
 
     for (;;)
     {
-        size_t n = vsnprintf(buf, buf_size, format, ap);
+        va_list aq;
+        va_copy(aq, ap);
+        size_t n = vsnprintf(buf, buf_size, format, aq);
+        va_end(aq);
         if (n < buf_size) break;
         buf_size *= 2;
         free(buf);
@@ -4818,11 +4821,16 @@ char *xmq_line_vprintf_hr(XMQLineConfig *lc, const char *element_name, va_list a
         const char *format = va_arg(ap, const char *);
         for (;;)
         {
-            size_t n = vsnprintf(buf, buf_size, format, ap);
+            va_list aq;
+            va_copy(aq, ap);
+            size_t n = vsnprintf(buf, buf_size, format, aq);
+            va_end(aq);
 
             if (n < buf_size)
             {
                 // The generated output fitted in the allocated buffer.
+                // Print again to move ap past the printed arguments.
+                vsnprintf(buf, buf_size, format, ap);
                 break;
             }
 
@@ -4910,11 +4918,16 @@ char *xmq_line_vprintf_xmq(XMQLineConfig *lc, const char *element_name, va_list
         const char *format = va_arg(ap, const char *);
         for (;;)
         {
-            size_t n = vsnprintf(buf, buf_size, format, ap);
+            va_list aq;
+            va_copy(aq, ap);
+            size_t n = vsnprintf(buf, buf_size, format, aq);
+            va_end(aq);
 
             if (n < buf_size)
             {
                 // The generated output fitted in the allocated buffer.
+                // Print again to move ap past the printed arguments.
+                vsnprintf(buf, buf_size, format, ap);
                 break;
             }
 
-- 
2.43.0


From fa6261315f3c0a7031551ce40575803fccec17ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 04/50] fix: do not read past the end of a truncated utf8 char
 and never encode non code points

---
 src/main/c/parts/text.c          | 16 +++++++++++++++-
 src/main/c/parts/xmq_internals.c |  4 ++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 68ae86f..65b7cc5 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -179,9 +179,20 @@ size_t num_utf8_bytes(char c)
 */
 size_t peek_utf8_char(const char *start, const char *stop, UTF8Char *uc)
 {
+    uc->bytes[0] = 0;
+    uc->bytes[1] = 0;
+    uc->bytes[2] = 0;
+    uc->bytes[3] = 0;
+    uc->bytes[4] = 0;
+
+    if (stop && start >= stop) return 0;
+
     char a = *start;
     size_t n = num_utf8_bytes(a);
 
+    // Not the start of an utf8 char or a truncated utf8 char at the end of the buffer.
+    if (n == 0 || (stop && n > (size_t)(stop-start))) return 0;
+
     if (n == 1)
     {
         uc->bytes[0] = a;
@@ -257,6 +268,10 @@ size_t encode_utf8(int uc, UTF8Char *utf8)
     utf8->bytes[1] = 0;
     utf8->bytes[2] = 0;
     utf8->bytes[3] = 0;
+    utf8->bytes[4] = 0;
+
+    // Not a unicode code point, use the replacement character.
+    if (uc < 0 || uc > 0x10ffff) uc = 0xfffd;
 
     if (uc <= 0x7f)
     {
@@ -276,7 +291,6 @@ size_t encode_utf8(int uc, UTF8Char *utf8)
         utf8->bytes[2] = (0x80 | (uc & 0x3f));
         return 3;
     }
-    assert (uc <= 0x10ffff);
     utf8->bytes[0] = (0xf0 | ((uc >> 18) & 0x07));
     utf8->bytes[1] = (0x80 | ((uc >> 12) & 0x3f));
     utf8->bytes[2] = (0x80 | ((uc >> 6) & 0x3f));
diff --git a/src/main/c/parts/xmq_internals.c b/src/main/c/parts/xmq_internals.c
index 2e7f78f..eb108c1 100644
--- a/src/main/c/parts/xmq_internals.c
+++ b/src/main/c/parts/xmq_internals.c
@@ -92,10 +92,10 @@ void generate_state_error_message(XMQParseState *state, XMQParseError error_nr,
     {
         UTF8Char utf8_char;
         peek_utf8_char(statei, stop, &utf8_char);
-        char utf8_codepoint[8];
+        char utf8_codepoint[16];
         utf8_char_to_codepoint_string(&utf8_char, utf8_codepoint);
 
-        snprintf(buf, 32, " \"%s\" %s", utf8_char.bytes, utf8_codepoint);
+        snprintf(buf, 32, " \"%.4s\" %s", utf8_char.bytes, utf8_codepoint);
         char_error = buf;
     }
 
-- 
2.43.0


From a2a19ab2f20636ba2d2f12b0530fff87c1594c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 05/50] fix: release memory, files and documents on error paths
 and never continue in the child after a failed exec

---
 src/main/c/parts/ixml.c |  1 +
 src/main/c/parts/json.c |  2 ++
 src/main/c/parts/text.c | 12 ++++++++++--
 src/main/c/xmq-cli.c    |  4 ++++
 src/main/c/xmq.c        | 22 ++++++++++++++++++----
 5 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index cb02efe..0700b27 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -1258,6 +1258,7 @@ void parse_ixml_string(XMQParseState *state, int **content)
     {
         if (is_ixml_eob(state))
         {
+            free_membuffer_and_free_content(buf);
             state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
             state->error_info = "string not terminated";
             longjmp(state->error_handler, 1);
diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index cf03fa3..0ead595 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -158,6 +158,7 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
                     }
                 }
             }
+            free_membuffer_and_free_content(buf);
             state->error_nr = XMQ_ERROR_JSON_INVALID_ESCAPE;
             longjmp(state->error_handler, 1);
         }
@@ -1082,6 +1083,7 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
         }
         else
         {
+            free(new_key_start);
             state->error_nr = XMQ_ERROR_JSON_INVALID_CHAR;
             longjmp(state->error_handler, 1);
         }
diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 65b7cc5..85f9b42 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -575,7 +575,11 @@ char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes)
     if (remove_quotes)
     {
         for (; i < stop && is_xml_whitespace(*i); ++i);
-        if (*i != '"') return strdup("[Not a valid C escaped string]");
+        if (*i != '"')
+        {
+            free(buf);
+            return strdup("[Not a valid C escaped string]");
+        }
         i++;
     }
 
@@ -603,7 +607,11 @@ char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes)
     }
     if (remove_quotes)
     {
-        if (*i != '"') return strdup("[Not a valid C escaped string]");
+        if (*i != '"')
+        {
+            free(buf);
+            return strdup("[Not a valid C escaped string]");
+        }
     }
     real++;
     *o = 0;
diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index a77f825..657b142 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1084,6 +1084,7 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
                 if (sq && dq)
                 {
                     fprintf(stderr, "Invalid: %s\nA string param cannot contain both single and double quotes.\n", arg);
+                    free(key);
                     return false;
                 }
                 char q = sq?'"':'\'';
@@ -2178,6 +2179,7 @@ bool cmd_validate(XMQCliCommand *command)
     if (ok != 0)
     {
         printf("xmq: Document failed validation agains %s\n", command->in);
+        xmlSchemaFreeValidCtxt(validation_ctxt);
         return false;
     }
 
@@ -3415,6 +3417,8 @@ void invoke_shell(xmlNode *n, const char *shell_command)
 #endif
         perror("Execvp failed:");
         //error_("(shell) invoking %s failed!\n", program.c_str());
+        // Never continue executing the remaining xmq commands in the child.
+        _exit(127);
     } else {
         if (pid == -1) {
             perror("(shell) could not fork!\n");
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index ef68123..ffa1cc5 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1003,7 +1003,7 @@ bool xmqTokenizeFile(XMQParseState *state, const char *file)
         xmqSetDocSourceName(doq, "-");
         rc = load_stdin(doq, &fsize, &buffer);
     }
-    if (!rc) return false;
+    if (!rc) goto exit;
 
     xmqSetStateSourceName(state, file);
 
@@ -1915,7 +1915,6 @@ bool xmqParseFile(XMQDoc *doq, const char *file, const char *implicit_root, int
         doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
         goto exit;
     }
-    fclose(f);
     buffer[fsize] = 0;
 
     content = xmqDetectContentType(buffer, buffer+fsize);
@@ -1930,6 +1929,7 @@ bool xmqParseFile(XMQDoc *doq, const char *file, const char *implicit_root, int
 
     exit:
 
+    if (f) fclose(f);
     free(buffer);
 
     return ok;
@@ -2180,8 +2180,10 @@ void do_element_value_quote(XMQParseState *state,
         memcpy(buf+10+tn, "><foo></foo>", 12);
         buf[n-1] = 0;
         xmlDtdPtr dtd = parse_doctype_raw(state->doq, buf, buf+n-1);
+        free(buf);
         if (!dtd)
         {
+            free(trimmed);
             state->error_nr = XMQ_ERROR_BAD_DOCTYPE;
             longjmp(state->error_handler, 1);
         }
@@ -2199,7 +2201,6 @@ void do_element_value_quote(XMQParseState *state,
         }
         state->parsing_doctype = false;
         state->doctype_found = true;
-        free(buf);
     }
     else
     {
@@ -3393,6 +3394,8 @@ void fixup_comments(XMQDoc *doq, xmlNode *node, int depth)
                 char *from = xmq_quote_as_c((const char*)node->content, NULL, false);
                 char *to = xmq_quote_as_c(content_needed_escaping, NULL, false);
                 debug("xmq=", "fix comment \"%s\" to \"%s\"", from, to);
+                free(from);
+                free(to);
             }
 
             xmlNodePtr new_node = xmlNewComment((const xmlChar*)content_needed_escaping);
@@ -4153,6 +4156,8 @@ bool load_stdin(XMQDoc *doq, size_t *out_fsize, const char **out_buffer)
             }
             PRINT_ERROR("Could not read stdin errno=%d\n", errno);
             close(fd);
+            free_membuffer_and_free_content(mb);
+            doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
 
             return false;
         }
@@ -4215,12 +4220,19 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
         doq->error_ = build_error_message("xmq: %s: Cannot read file\n", file);
         goto exit;
     }
-    fclose(f);
     buffer[fsize] = 0;
     rc = true;
 
 exit:
 
+    fclose(f);
+    if (!rc)
+    {
+        free(buffer);
+        buffer = NULL;
+        fsize = 0;
+    }
+
     *out_fsize = fsize;
     *out_buffer = buffer;
     return rc;
@@ -4275,6 +4287,7 @@ xmlDtdPtr parse_doctype_raw(XMQDoc *doq, const char *start, const char *stop)
     xmlFreeParserCtxt(ctxt);
 
     if (!rc) {
+        xmlFreeDoc(doc);
         return NULL;
     }
 
@@ -4883,6 +4896,7 @@ char *xmq_line_vprintf_xmq(XMQLineConfig *lc, const char *element_name, va_list
         char *q = xmqCompactQuote(buf);
         free(buf);
         membuffer_append(mb, q);
+        free(q);
         membuffer_append_null(mb);
         return free_membuffer_but_return_trimmed_content(mb);
     }
-- 
2.43.0


From f1fd6d15a5dc7bee6e0ea950bd2aaee8549ed503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 06/50] fix: free names remembered by an aborted parse and
 replaced source names

---
 src/main/c/xmq.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index ffa1cc5..4d1918e 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1690,6 +1690,7 @@ void xmqSetDocSourceName(XMQDoc *doq, const char *source_name)
     {
         char *buf = (char*)malloc(strlen(source_name)+1);
         strcpy(buf, source_name);
+        free((void*)doq->source_name_);
         doq->source_name_ = buf;
     }
 }
@@ -1734,6 +1735,15 @@ void xmqFreeParseState(XMQParseState *state)
     }
     stack_free(state->element_stack);
     state->element_stack = NULL;
+
+    // These are still set if the parse was aborted by an error.
+    free((void*)state->pi_name);
+    state->pi_name = NULL;
+    free(state->element_namespace);
+    state->element_namespace = NULL;
+    free(state->attribute_namespace);
+    state->attribute_namespace = NULL;
+
     // Settings are not freed here.
     state->output_settings = NULL;
 
@@ -3448,8 +3458,10 @@ void xmqSetStateSourceName(XMQParseState *state, const char *source_name)
     if (source_name)
     {
         size_t l = strlen(source_name);
-        state->source_name = (char*)malloc(l+1);
-        strcpy(state->source_name, source_name);
+        char *buf = (char*)malloc(l+1);
+        strcpy(buf, source_name);
+        free(state->source_name);
+        state->source_name = buf;
     }
 }
 
-- 
2.43.0


From ade09fc05c2a17337e1d39c05fe369c9ed576f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 07/50] fix: do not longjmp to the finished grammar parse when
 the generated yaep grammar is refused

---
 src/main/c/xmq.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 4d1918e..22314a0 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1763,6 +1763,9 @@ void xmqFreeParseState(XMQParseState *state)
     if (state->ixml_non_terminals) vector_free_and_values(state->ixml_non_terminals, (FreeFuncPtr)free_ixml_nonterminal);
     state->ixml_non_terminals = NULL;
 
+    if (state->ixml_tmp_terminals) vector_free(state->ixml_tmp_terminals);
+    state->ixml_tmp_terminals = NULL;
+
     if (state->ixml_rule_stack) stack_free(state->ixml_rule_stack);
     state->ixml_rule_stack = NULL;
 
@@ -4634,13 +4637,16 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
                                xmq_get_yaep_grammar(ixml_grammar),
                                0, ixml_to_yaep_read_terminal, ixml_to_yaep_read_rule);
     hashmap_free_iterator(state->yaep_i_);
+    state->yaep_i_ = NULL;
 
     if (rc != 0)
     {
         state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
         state->error_info = "internal error, yaep did not accept generated yaep grammar";
         printf("xmq: could not parse input using ixml grammar: %s\n", yaep_error_message(xmq_get_yaep_grammar(ixml_grammar)));
-        longjmp(state->error_handler, 1);
+        // The error handler of the grammar parse is gone since long, do not longjmp to it.
+        doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        return false;
     }
 
     yaep_set_one_parse_flag(xmq_get_yaep_grammar(ixml_grammar),
-- 
2.43.0


From 3defb23b5e7f65f625bd2af7cc80d6d1e03cbb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 08/50] fix: printing again with the same memory settings must
 not use the handed over buffer

---
 src/main/c/xmq.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 22314a0..b29bbeb 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -859,6 +859,7 @@ void xmqSetupPrintMemory(XMQOutputSettings *os, char **start, char **stop)
 {
     os->output_buffer_start = start;
     os->output_buffer_stop = stop;
+    if (os->output_buffer) free_membuffer_and_free_content(os->output_buffer);
     os->output_buffer = new_membuffer();
     os->content.writer_state = os->output_buffer;
     os->content.write = (XMQWrite)(void*)membuffer_append_region;
@@ -866,6 +867,15 @@ void xmqSetupPrintMemory(XMQOutputSettings *os, char **start, char **stop)
     os->error.write = (XMQWrite)(void*)membuffer_append_region;
 }
 
+// The buffer was handed over to the caller when the previous print finished, start over with a new buffer.
+void renew_print_memory(XMQOutputSettings *os)
+{
+    if (!os->output_buffer && os->content.write == (XMQWrite)(void*)membuffer_append_region)
+    {
+        xmqSetupPrintMemory(os, os->output_buffer_start, os->output_buffer_stop);
+    }
+}
+
 void xmqSetupPrintSkip(XMQOutputSettings *os, size_t *skip)
 {
     os->output_skip = skip;
@@ -937,6 +947,7 @@ bool xmqTokenizeBuffer(XMQParseState *state, const char *start, const char *stop
     if (state->parse->init) state->parse->init(state);
 
     XMQOutputSettings *output_settings = state->output_settings;
+    renew_print_memory(output_settings);
     XMQWrite write = output_settings->content.write;
     void *writer_state = output_settings->content.writer_state;
 
@@ -977,6 +988,7 @@ bool xmqTokenizeBuffer(XMQParseState *state, const char *start, const char *stop
     {
         size_t size = membuffer_used(output_settings->output_buffer);
         char *buffer = free_membuffer_but_return_trimmed_content(output_settings->output_buffer);
+        output_settings->output_buffer = NULL;
         *output_settings->output_buffer_start = buffer;
         *output_settings->output_buffer_stop = buffer+size;
     }
@@ -2971,6 +2983,8 @@ void xmq_print_xmq(XMQDoc *doq, XMQOutputSettings *os)
 
 void xmqPrint(XMQDoc *doq, XMQOutputSettings *output_settings)
 {
+    renew_print_memory(output_settings);
+
     if (output_settings->output_format == XMQ_CONTENT_XML)
     {
         xmq_print_xml(doq, output_settings);
@@ -3002,6 +3016,7 @@ void xmqPrint(XMQDoc *doq, XMQOutputSettings *output_settings)
     {
         size_t size = membuffer_used(output_settings->output_buffer);
         char *buffer = free_membuffer_but_return_trimmed_content(output_settings->output_buffer);
+        output_settings->output_buffer = NULL;
         *output_settings->output_buffer_start = buffer;
         *output_settings->output_buffer_stop = buffer+size;
         if (output_settings->output_skip)
@@ -4680,6 +4695,7 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
     generate_dom_from_yaep_node(doc->docptr_.xml, NULL, run->root, 0, 0);
 
     if (run->root) yaepFreeTree(run->root, NULL, NULL);
+    run->root = NULL;
 
     return true;
 }
-- 
2.43.0


From 89cc541bf9b0ddb8f697aff0e51bcaf018d1021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 09/50] fix: json output uses only escapes that are valid in
 json, namespace hrefs are escaped

---
 src/main/c/parts/json.c | 64 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 0ead595..8ba4fa4 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -34,6 +34,7 @@ void parse_json_number(XMQParseState *state, const char *key_start, const char *
 void parse_json_object(XMQParseState *state, const char *key_start, const char *key_stop);
 void parse_json_quote(XMQParseState *state, const char *key_start, const char *key_stop);
 
+char *quote_as_json(const char *start, const char *stop, bool add_quotes);
 bool has_number_ended(char c);
 bool has_attr_other_than_AS_(xmlNode *node);
 const char *is_jnumber(const char *start, const char *stop);
@@ -1102,6 +1103,53 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
     DO_CALLBACK_SIM(brace_right, state, state->line, state->col, rightbrace, rightbrace+1, rightbrace+1);
 }
 
+/**
+    quote_as_json:
+
+    Escape quotes, backslashes and control characters using only the escapes
+    permitted in a json string. The \a \v and \xNN c-escapes are not valid json.
+*/
+char *quote_as_json(const char *start, const char *stop, bool add_quotes)
+{
+    MemBuffer *buf = new_membuffer();
+
+    if (add_quotes) membuffer_append_char(buf, '"');
+
+    const char *i = start;
+    while (i < stop && *i != 0)
+    {
+        UTF8Char uc;
+        size_t n = peek_utf8_char(i, stop, &uc);
+        if (n > 1)
+        {
+            membuffer_append_region(buf, i, i+n);
+            i += n;
+            continue;
+        }
+        char c = *i;
+        i++;
+        if (c == '"') membuffer_append(buf, "\\\"");
+        else if (c == '\\') membuffer_append(buf, "\\\\");
+        else if (c == '\b') membuffer_append(buf, "\\b");
+        else if (c == '\t') membuffer_append(buf, "\\t");
+        else if (c == '\n') membuffer_append(buf, "\\n");
+        else if (c == '\f') membuffer_append(buf, "\\f");
+        else if (c == '\r') membuffer_append(buf, "\\r");
+        else if (c >= ' ' && c <= 126) membuffer_append_char(buf, c);
+        else
+        {
+            membuffer_append(buf, "\\u00");
+            membuffer_append_char(buf, to_hex((c>>4)&0xf));
+            membuffer_append_char(buf, to_hex(c&0xf));
+        }
+    }
+
+    if (add_quotes) membuffer_append_char(buf, '"');
+    membuffer_append_null(buf);
+
+    return free_membuffer_but_return_trimmed_content(buf);
+}
+
 void json_print_value(XMQPrintState *ps, xmlNode *from, xmlNode *to, Level level, bool force_string)
 {
     XMQOutputSettings *output_settings = ps->output_settings;
@@ -1149,7 +1197,7 @@ void json_print_value(XMQPrintState *ps, xmlNode *from, xmlNode *to, Level level
                     const char *value = xml_element_content(node);
                     if (value)
                     {
-                        char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+                        char *quoted_value = quote_as_json(value, value+strlen(value), false);
                         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
                         free(quoted_value);
                     }
@@ -1218,7 +1266,7 @@ void json_print_attribute(XMQPrintState *ps, xmlAttr *a)
 
     json_check_comma(ps);
 
-    char *quoted_key = xmq_quote_as_c(key, key+strlen(key), false);
+    char *quoted_key = quote_as_json(key, key+strlen(key), false);
     print_utf8(ps, COLOR_none, 1, "\"_", NULL);
     if (prefix)
     {
@@ -1231,7 +1279,7 @@ void json_print_attribute(XMQPrintState *ps, xmlAttr *a)
     if (a->children != NULL)
     {
         char *value = (char*)xmlNodeListGetString(a->doc, a->children, 1);
-        char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
+        char *quoted_value = quote_as_json(value, value+strlen(value), true);
         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
         free(quoted_value);
         xmlFree(value);
@@ -1264,7 +1312,9 @@ void json_print_namespace_declaration(XMQPrintState *ps, xmlNs *ns)
 
     if (v != NULL)
     {
-        print_utf8(ps, COLOR_none, 3, "\"", NULL, v, NULL, "\"", NULL);
+        char *quoted_value = quote_as_json(v, v+strlen(v), true);
+        print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
+        free(quoted_value);
     }
     else
     {
@@ -1406,7 +1456,7 @@ void json_print_element_name(XMQPrintState *ps, xmlNode *container, xmlNode *nod
             // The key was stored inside the attribute because it could not
             // be used as the element name.
             char *value = (char*)xmlNodeListGetString(node->doc, a->children, 1);
-            char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+            char *quoted_value = quote_as_json(value, value+strlen(value), false);
             print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
             free(quoted_value);
             xmlFree(value);
@@ -1504,7 +1554,7 @@ void json_print_doctype_node(XMQPrintState *ps, xmlNodePtr node)
     xmlBuffer *buffer = xmlBufferCreate();
     xmlNodeDump(buffer, (xmlDocPtr)ps->doq->docptr_.xml, node, 0, 0);
     char *c = (char*)xmlBufferContent(buffer);
-    char *quoted_value = xmq_quote_as_c(c+10, c+strlen(c)-1, true);
+    char *quoted_value = quote_as_json(c+10, c+strlen(c)-1, true);
     print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
     free(quoted_value);
     xmlBufferFree(buffer);
@@ -1525,7 +1575,7 @@ void json_print_standalone_quote(XMQPrintState *ps, xmlNodePtr container, xmlNod
 {
     json_check_comma(ps);
     const char *value = xml_element_content(node);
-    char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+    char *quoted_value = quote_as_json(value, value+strlen(value), false);
     if (total == 1)
     {
         print_utf8(ps, COLOR_none, 3, "\"|\":\"", NULL, quoted_value, NULL, "\"", NULL);
-- 
2.43.0


From 8d2bd4bf9ef75948ad453c69b11d9259a5d7615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 10/50] fix: json numbers are recognised exactly as in the json
 grammar

---
 src/main/c/parts/json.c | 92 +++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 59 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 8ba4fa4..19da7ea 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -502,76 +502,50 @@ void parse_json_null(XMQParseState *state, const char *key_start, const char *ke
 
 bool has_number_ended(char c)
 {
-    return c == ' ' || c == '\n' || c == ',' || c == '}' || c == ']';
+    return is_json_whitespace(c) || c == ',' || c == '}' || c == ']';
 }
 
+static const char *skip_digits(const char *i, const char *stop)
+{
+    while (i < stop && *i >= '0' && *i <= '9') i++;
+    return i;
+}
+
+/**
+    is_jnumber:
+
+    If there is a json number at start, then return a pointer to its end, otherwise NULL.
+    number = [-] (0 | [1-9][0-9]*) [. [0-9]+] [(e|E) [+|-] [0-9]+]
+    The number must be followed by whitespace, comma, a closing brace/bracket or the end.
+*/
 const char *is_jnumber(const char *start, const char *stop)
 {
     if (stop == NULL) stop = start+strlen(start);
-    if (start == stop) return NULL;
 
-    bool found_e = false;
-    bool found_e_sign = false;
-    bool leading_zero = false;
-    bool last_is_digit = false;
-    bool found_dot = false;
-
-    const char *i;
-    for (i = start; i < stop; ++i)
-    {
-        char c = *i;
+    const char *i = start;
+    if (i < stop && *i == '-') i++;
 
-        last_is_digit = false;
-        bool current_is_not_digit = (c < '0' || c > '9');
+    const char *digits = i;
+    i = skip_digits(i, stop);
+    if (i == digits) return NULL;
+    if (*digits == '0' && i > digits+1) return NULL; // No leading zeroes.
 
-        if (i == start)
-        {
-            if (current_is_not_digit && c != '-' ) return NULL;
-            if (c == '0') leading_zero = true;
-            if (c != '-') last_is_digit = true;
-            continue;
-        }
+    if (i < stop && *i == '.')
+    {
+        digits = i+1;
+        i = skip_digits(digits, stop);
+        if (i == digits) return NULL;
+    }
 
-        if (leading_zero)
-        {
-            leading_zero = false;
-            if (has_number_ended(c)) return i;
-            if (c != '.') return NULL;
-            found_dot = true;
-        }
-        else if (c == '.')
-        {
-            if (found_dot) return NULL;
-            found_dot = true;
-        }
-        else if (c == 'e' || c == 'E')
-        {
-            if (found_e) return NULL;
-            found_e = true;
-        }
-        else if (found_e && !found_e_sign)
-        {
-            if (has_number_ended(c)) return i;
-            if (current_is_not_digit && c != '-' && c != '+') return NULL;
-            if (c == '+' || c == '-')
-            {
-                found_e_sign = true;
-            }
-            else
-            {
-                last_is_digit = true;
-            }
-        }
-        else
-        {
-            found_e_sign = false;
-            if (has_number_ended(c)) return i;
-            if (current_is_not_digit) return NULL;
-            last_is_digit = true;
-        }
+    if (i < stop && (*i == 'e' || *i == 'E'))
+    {
+        digits = i+1;
+        if (digits < stop && (*digits == '+' || *digits == '-')) digits++;
+        i = skip_digits(digits, stop);
+        if (i == digits) return NULL;
     }
 
-    if (last_is_digit == false) return NULL;
+    if (i < stop && !has_number_ended(*i)) return NULL;
 
     return i;
 }
-- 
2.43.0


From 8367653154fab245674b797be453fb4992367ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 11/50] fix: malformed json is reported as an error instead of
 aborting or reading past the end, decode surrogate pairs

---
 src/main/c/parts/json.c | 100 +++++++++++++++++++++++++++-------------
 1 file changed, 68 insertions(+), 32 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 19da7ea..ef97c5e 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -90,6 +90,35 @@ bool is_json_quote_start(char c)
     return c == '"';
 }
 
+// Decode four hex digits, return false if there are not four hex digits before stop.
+static bool hex4_value(const char *i, const char *stop, int *value)
+{
+    int v = 0;
+    for (size_t n = 0; n < 4; ++n)
+    {
+        if (i+n >= stop || !is_hex(*(i+n))) return false;
+        v = (v<<4) | hex_value(*(i+n));
+    }
+    *value = v;
+    return true;
+}
+
+// Return the current char or zero if we are at the end of the buffer.
+static char json_peek(XMQParseState *state)
+{
+    return state->i < state->buffer_stop ? *(state->i) : 0;
+}
+
+static void json_expect_closing(XMQParseState *state, char closing)
+{
+    if (json_peek(state) != closing)
+    {
+        state->error_nr = XMQ_ERROR_JSON_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
+    increment(closing, 1, &state->i, &state->line, &state->col);
+}
+
 void eat_json_quote(XMQParseState *state, char **content_start, char **content_stop)
 {
     const char *start = state->i;
@@ -103,18 +132,20 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
 
     increment('"', 1, &i, &line, &col);
 
+    bool found_end = false;
     while (i < stop)
     {
         char c = *i;
         if (c == '"')
         {
             increment(c, 1, &i, &line, &col);
+            found_end = true;
             break;
         }
         if (c == '\\')
         {
             increment(c, 1, &i, &line, &col);
-            c = *i;
+            c = i < stop ? *i : 0;
             if (c == '"' || c == '\\' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')
             {
                 increment(c, 1, &i, &line, &col);
@@ -132,22 +163,23 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
             else if (c == 'u')
             {
                 increment(c, 1, &i, &line, &col);
-                c = *i;
-                if (i+3 < stop)
+                int uc = 0;
+                if (hex4_value(i, stop, &uc))
                 {
-                    // Woot? Json can only escape unicode up to 0xffff ? What about 10000 up to 10ffff?
-                    if (is_hex(*(i+0)) && is_hex(*(i+1)) && is_hex(*(i+2)) && is_hex(*(i+3)))
+                    size_t num_hex = 4;
+                    int low = 0;
+                    if (uc >= 0xd800 && uc <= 0xdbff &&
+                        stop-i >= 10 && *(i+4) == '\\' && *(i+5) == 'u' &&
+                        hex4_value(i+6, stop, &low) && low >= 0xdc00 && low <= 0xdfff)
+                    {
+                        // Unicode above 0xffff is escaped as a surrogate pair.
+                        uc = 0x10000 + ((uc-0xd800)<<10) + (low-0xdc00);
+                        num_hex = 10;
+                    }
+                    if (uc < 0xd800 || uc > 0xdfff)
                     {
-                        unsigned char c1 = hex_value(*(i+0));
-                        unsigned char c2 = hex_value(*(i+1));
-                        unsigned char c3 = hex_value(*(i+2));
-                        unsigned char c4 = hex_value(*(i+3));
-                        increment(c, 1, &i, &line, &col);
-                        increment(c, 1, &i, &line, &col);
-                        increment(c, 1, &i, &line, &col);
-                        increment(c, 1, &i, &line, &col);
-
-                        int uc = (c1<<12)|(c2<<8)|(c3<<4)|c4;
+                        while (num_hex-- > 0) increment(*i, 1, &i, &line, &col);
+
                         UTF8Char utf8;
                         size_t n = encode_utf8(uc, &utf8);
 
@@ -157,6 +189,7 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
                         }
                         continue;
                     }
+                    // A lone surrogate is not a unicode character.
                 }
             }
             free_membuffer_and_free_content(buf);
@@ -166,6 +199,16 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
         membuffer_append_char(buf, c);
         increment(c, 1, &i, &line, &col);
     }
+    if (!found_end)
+    {
+        free_membuffer_and_free_content(buf);
+        state->last_quote_start = state->i;
+        state->last_quote_start_line = state->line;
+        state->last_quote_start_col = state->col;
+        state->error_nr = XMQ_ERROR_QUOTE_NOT_CLOSED;
+        longjmp(state->error_handler, 1);
+    }
+
     // Add a zero termination to the string which is not used except for
     // guaranteeing that there is at least one allocated byte for empty strings.
     membuffer_append_null(buf);
@@ -789,23 +832,20 @@ void parse_json_array(XMQParseState *state, const char *key_start, const char *k
 
     DO_CALLBACK_SIM(brace_left, state, state->line, state->col, leftbrace, leftbrace+1, leftbrace+1);
 
-    const char *stop = state->buffer_stop;
-
     c = ',';
 
-    while (state->i < stop && c == ',')
+    while (c == ',')
     {
         eat_xml_whitespace(state, NULL, NULL);
-        c = *(state->i);
+        c = json_peek(state);
         if (c == ']') break;
 
         parse_json(state, NULL, NULL);
-        c = *state->i;
+        c = json_peek(state);
         if (c == ',') increment(c, 1, &state->i, &state->line, &state->col);
     }
 
-    assert(c == ']');
-    increment(c, 1, &state->i, &state->line, &state->col);
+    json_expect_closing(state, ']');
 
     DO_CALLBACK_SIM(brace_right, state, state->line, state->col, rightbrace, rightbrace+1, rightbrace+1);
 }
@@ -814,7 +854,7 @@ void parse_json(XMQParseState *state, const char *key_start, const char *key_sto
 {
     eat_xml_whitespace(state, NULL, NULL);
 
-    char c = *(state->i);
+    char c = json_peek(state);
 
     if (is_json_quote_start(c)) parse_json_quote(state, key_start, key_stop);
     else if (is_json_boolean(state)) parse_json_boolean(state, key_start, key_stop);
@@ -1028,14 +1068,12 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
 
     DO_CALLBACK_SIM(brace_left, state, state->line, state->col, leftbrace, leftbrace+1, leftbrace+1);
 
-    const char *stop = state->buffer_stop;
-
     c = ',';
 
-    while (state->i < stop && c == ',')
+    while (c == ',')
     {
         eat_xml_whitespace(state, NULL, NULL);
-        c = *(state->i);
+        c = json_peek(state);
         if (c == '}') break;
 
         if (!is_json_quote_start(c))
@@ -1050,7 +1088,7 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
         eat_json_quote(state, &new_key_start, &new_key_stop);
 
         eat_xml_whitespace(state, NULL, NULL);
-        c = *(state->i);
+        c = json_peek(state);
 
         if (c == ':')
         {
@@ -1066,13 +1104,11 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
         parse_json(state, new_key_start, new_key_stop);
         free(new_key_start);
 
-        c = *state->i;
+        c = json_peek(state);
         if (c == ',') increment(c, 1, &state->i, &state->line, &state->col);
     }
-    while (c == ',');
 
-    assert(c == '}');
-    increment(c, 1, &state->i, &state->line, &state->col);
+    json_expect_closing(state, '}');
 
     DO_CALLBACK_SIM(brace_right, state, state->line, state->col, rightbrace, rightbrace+1, rightbrace+1);
 }
-- 
2.43.0


From 09b76accc29239155ecf6bac6957daff450fea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 12/50] fix: an underscore leaf inside a json object is printed
 with a key

---
 src/main/c/parts/json.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index ef97c5e..d36cc5a 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -1630,11 +1630,8 @@ void json_print_leaf_node(XMQPrintState *ps,
 
     if (name)
     {
-        if (!(name[0] == '_' && name[1] == 0))
-        {
-            json_print_element_name(ps, container, node, total, used);
-            write(writer_state, ":", NULL);
-        }
+        json_print_element_name(ps, container, node, total, used);
+        write(writer_state, ":", NULL);
     }
 
     if (xml_get_attribute(node, "A"))
-- 
2.43.0


From 03d219cd4de8dc948a344010835bf8743a355b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 13/50] fix: nul terminated text is grouped into utf8 chars and
 the stop position is not read

---
 src/main/c/parts/utf8.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/utf8.c b/src/main/c/parts/utf8.c
index 25da69f..ea7b8d7 100644
--- a/src/main/c/parts/utf8.c
+++ b/src/main/c/parts/utf8.c
@@ -18,7 +18,7 @@ size_t print_utf8_char(XMQPrintState *ps, const char *start, const char *stop)
 
     // Find next utf8 char....
     const char *j = i+1;
-    while (j < stop && (*j & 0xc0) == 0x80) j++;
+    while ((!stop || j < stop) && (*j & 0xc0) == 0x80) j++;
 
     // Is the utf8 char a unicode whitespace and not space,tab,cr,nl?
     bool uw = is_unicode_whitespace(i, j);
@@ -75,11 +75,11 @@ size_t print_utf8_internal(XMQPrintState *ps, const char *start, const char *sto
     size_t u_len = 0;
 
     const char *i = start;
-    while (*i && (!stop || i < stop))
+    while ((!stop || i < stop) && *i)
     {
         // Find next utf8 char....
         const char *j = i+1;
-        while (j < stop && (*j & 0xc0) == 0x80) j++;
+        while ((!stop || j < stop) && (*j & 0xc0) == 0x80) j++;
 
         // Is the utf8 char a unicode whitespace and not space,tab,cr,nl?
         bool uw = is_unicode_whitespace(i, j);
-- 
2.43.0


From e3f44759b09aa5984169e5054de4d91a4acaddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 14/50] fix: escape every tex special when rendering to tex,
 bad utf8 marker is escaped

---
 src/main/c/parts/xmq_internals.c | 6 +++++-
 src/main/c/parts/xmq_printer.c   | 2 +-
 src/main/c/xmq.c                 | 8 ++------
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/c/parts/xmq_internals.c b/src/main/c/parts/xmq_internals.c
index eb108c1..5760764 100644
--- a/src/main/c/parts/xmq_internals.c
+++ b/src/main/c/parts/xmq_internals.c
@@ -291,7 +291,11 @@ const char *needs_escape(XMQRenderFormat f, const char *start, const char *stop)
     else if (f == XMQ_RENDER_TEX)
     {
         char c = *start;
-        if (c == '\\') return "\\backslash;";
+        if (c == '\\') return "\\textbackslash{}";
+        if (c == '$') return "\\$";
+        if (c == '%') return "\\%";
+        if (c == '^') return "\\textasciicircum{}";
+        if (c == '~') return "\\textasciitilde{}";
         if (c == '&') return "\\&";
         if (c == '#') return "\\#";
         if (c == '{') return "\\{";
diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 5d86065..2b644b5 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -665,7 +665,7 @@ size_t print_char_entity(XMQPrintState *ps, XMQColor color, const char *start, c
     else
     {
         if (pre) write(writer_state, pre, NULL);
-        write(writer_state, "&badutf8;", NULL);
+        print_utf8(ps, COLOR_none, 1, "&badutf8;", NULL);
         if (post) write(writer_state, post, NULL);
     }
 
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index b29bbeb..6897078 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -837,12 +837,8 @@ void write_safe_tex(XMQWrite write, void *writer_state, const char *start, const
 {
     for (const char *i = start; i < stop; ++i)
     {
-        const char *amp = "\\&";
-        const char *bs = "\\\\";
-        const char *us = "\\_";
-        if (*i == '&') write(writer_state, amp, amp+2);
-        else if (*i == '\\') write(writer_state, bs, bs+2);
-        else if (*i == '_') write(writer_state, us, us+2);
+        const char *e = needs_escape(XMQ_RENDER_TEX, i, i+1);
+        if (e) write(writer_state, e, NULL);
         else write(writer_state, i, i+1);
     }
 }
-- 
2.43.0


From 75125f5025e904dddbc8a0365e1ed37c57fdf1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 15/50] fix: files are read without trusting their size, every
 failed parse reports an error

---
 src/main/c/xmq.c | 136 ++++++++++++++++++++---------------------------
 1 file changed, 57 insertions(+), 79 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 6897078..3be348c 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1011,7 +1011,13 @@ bool xmqTokenizeFile(XMQParseState *state, const char *file)
         xmqSetDocSourceName(doq, "-");
         rc = load_stdin(doq, &fsize, &buffer);
     }
-    if (!rc) goto exit;
+    if (!rc)
+    {
+        state->error_nr = xmqDocErrno(doq);
+        free(state->generated_error_msg);
+        state->generated_error_msg = xmqDocError(doq) ? strdup(xmqDocError(doq)) : NULL;
+        goto exit;
+    }
 
     xmqSetStateSourceName(state, file);
 
@@ -1887,56 +1893,14 @@ bool xmqParseBuffer(XMQDoc *doq, const char *start, const char *stop, const char
 bool xmqParseFile(XMQDoc *doq, const char *file, const char *implicit_root, int flags)
 {
     bool ok = true;
-    char *buffer = NULL;
+    const char *buffer = NULL;
     size_t fsize = 0;
     XMQContentType content = XMQ_CONTENT_XMQ;
-    size_t block_size = 0;
-    size_t n = 0;
 
     xmqSetDocSourceName(doq, file);
 
-    FILE *f = fopen(file, "rb");
-    if (!f) {
-        doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-        doq->error_ = build_error_message("xmq: %s: No such file or directory\n", file);
-        ok = false;
-        goto exit;
-    }
-
-    fseek(f, 0, SEEK_END);
-    fsize = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    buffer = (char*)malloc(fsize + 1);
-    if (!buffer)
-    {
-        doq->errno_ = XMQ_ERROR_OOM;
-        doq->error_ = build_error_message("xmq: %s: File too big, out of memory\n", file);
-        ok = false;
-        goto exit;
-    }
-
-    block_size = fsize;
-    if (block_size > 10000) block_size = 10000;
-    n = 0;
-    do {
-        // We need to read smaller blocks because of a bug in Windows C-library..... blech.
-        if (n + block_size > fsize) block_size = fsize - n;
-        size_t r = fread(buffer+n, 1, block_size, f);
-        debug("xmq=", "read %zu bytes total %zu", r, n);
-        if (!r) break;
-        n += r;
-    } while (n < fsize);
-
-    debug("xmq=", "read total %zu bytes", n);
-
-    if (n != fsize)
-    {
-        ok = false;
-        doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-        goto exit;
-    }
-    buffer[fsize] = 0;
+    ok = load_file(doq, file, &fsize, &buffer);
+    if (!ok) return false;
 
     content = xmqDetectContentType(buffer, buffer+fsize);
     if (content != XMQ_CONTENT_XMQ)
@@ -1950,8 +1914,7 @@ bool xmqParseFile(XMQDoc *doq, const char *file, const char *implicit_root, int
 
     exit:
 
-    if (f) fclose(f);
-    free(buffer);
+    free((char*)buffer);
 
     return ok;
 }
@@ -4015,6 +3978,7 @@ bool xmq_parse_buffer_html(XMQDoc *doq, const char *start, const char *stop, int
     {
         PRINT_ERROR("empty document\n");
         xmlFreeDoc(doc);
+        doq->errno_ = XMQ_ERROR_PARSING_HTML;
         return 0;
     }
 
@@ -4089,7 +4053,12 @@ bool xmqParseBufferWithType(XMQDoc *doq,
 
     // Unicode files might lead with a byte ordering mark.
     start = skip_any_potential_bom(start, stop);
-    if (!start) return false;
+    if (!start)
+    {
+        doq->errno_ = XMQ_ERROR_INVALID_CHAR;
+        doq->error_ = build_error_message("xmq: cannot handle utf-16 content\n");
+        return false;
+    }
 
     XMQContentType detected_ct = XMQ_CONTENT_UNKNOWN;
     if (ct != XMQ_CONTENT_IXML) detected_ct = xmqDetectContentType(start, stop);
@@ -4116,7 +4085,7 @@ bool xmqParseBufferWithType(XMQDoc *doq,
                 case XMQ_CONTENT_XML: doq->errno_ = XMQ_ERROR_EXPECTED_XML; break;
                 case XMQ_CONTENT_HTML: doq->errno_ = XMQ_ERROR_EXPECTED_HTML; break;
                 case XMQ_CONTENT_JSON: doq->errno_ = XMQ_ERROR_EXPECTED_JSON; break;
-                default: break;
+                default: doq->errno_ = XMQ_ERROR_NOT_XMQ; break;
                 }
                 ok = false;
                 goto exit;
@@ -4203,8 +4172,9 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
 {
     bool rc = false;
     char *buffer = NULL;
-    size_t block_size = 0;
-    size_t n = 0;
+    size_t fsize = 0;
+    size_t capacity = 0;
+    size_t block_size = 10000;
 
     FILE *f = fopen(file, "rb");
     if (!f) {
@@ -4213,35 +4183,30 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
         return false;
     }
 
-    fseek(f, 0, SEEK_END);
-    size_t fsize = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    debug("xmq=", "file size %zu", fsize);
-
-    buffer = (char*)malloc(fsize + 1);
-    if (!buffer)
+    // Do not ask for the file size up front, a pipe has no size and a file can grow.
+    for (;;)
     {
-        doq->errno_ = XMQ_ERROR_OOM;
-        doq->error_ = build_error_message("xmq: %s: File too big, out of memory\n", file);
-        goto exit;
-    }
-
-    block_size = fsize;
-    if (block_size > 10000) block_size = 10000;
-    n = 0;
-    do {
-        if (n + block_size > fsize) block_size = fsize - n;
-        size_t r = fread(buffer+n, 1, block_size, f);
-        debug("xmq=", "read %zu bytes total %zu", r, n);
+        // Always leave room for the terminating zero byte.
+        if (capacity < fsize + block_size + 1)
+        {
+            capacity = capacity*2 + block_size + 1;
+            char *bigger = (char*)realloc(buffer, capacity);
+            if (!bigger)
+            {
+                doq->errno_ = XMQ_ERROR_OOM;
+                doq->error_ = build_error_message("xmq: %s: File too big, out of memory\n", file);
+                goto exit;
+            }
+            buffer = bigger;
+        }
+        // We need to read smaller blocks because of a bug in Windows C-library..... blech.
+        size_t r = fread(buffer+fsize, 1, block_size, f);
+        debug("xmq=", "read %zu bytes total %zu", r, fsize);
         if (!r) break;
-        n += r;
-    } while (n < fsize);
-
-    debug("xmq=", "read total %zu bytes fsize %zu bytes", n, fsize);
+        fsize += r;
+    }
 
-    if (n != fsize) {
-        rc = false;
+    if (ferror(f)) {
         doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
         doq->error_ = build_error_message("xmq: %s: Cannot read file\n", file);
         goto exit;
@@ -4632,7 +4597,12 @@ void generate_dom_from_yaep_node(xmlDocPtr doc, xmlNodePtr node, YaepTreeNode *n
 
 bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XMQDoc *ixml_grammar, int flags)
 {
-    if (!doc || !start || !ixml_grammar) return false;
+    if (!doc) return false;
+    if (!start || !ixml_grammar)
+    {
+        doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        return false;
+    }
     if (!stop) stop = start+strlen(start);
 
     XMQParseState *state = xmq_get_yaep_parse_state(ixml_grammar);
@@ -4680,6 +4650,14 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
     if (rc)
     {
         printf("xmq: could not parse input using ixml grammar: %s\n", yaep_error_message(xmq_get_yaep_grammar(ixml_grammar)));
+        doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        return false;
+    }
+
+    if (!run->root)
+    {
+        // The input does not match the grammar, the syntax error has already been printed.
+        doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
         return false;
     }
 
-- 
2.43.0


From c9a12a47e6f09f68bee9e7984098a52804e288ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 16/50] fix: no crash when an unexpected char follows an equals
 inside a comment

---
 src/main/c/parts/xmq_parser.c | 5 ++++-
 src/main/c/xmq.c              | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 3131a1a..3da5022 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -976,8 +976,11 @@ bool possibly_lost_content_after_equals(XMQParseState *state)
     // Not {(= then not lost content, probably.
     if (!(c == '{' || c == '(' || c == '=')) return false;
 
-    const char *i = state->i-1;
     const char *start = state->buffer_start;
+    // No equals has been parsed yet, for example an equals inside a comment, then no content was lost.
+    if (state->i == start || !state->last_equals_start) return false;
+
+    const char *i = state->i-1;
 
     // Scan backwards for newline accepting only texts and xml whitespace.
     while (i > start && *i != '\n' && (is_xmq_text_name(*i) || is_xml_whitespace(*i))) i--;
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 3be348c..28e0993 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -939,6 +939,13 @@ bool xmqTokenizeBuffer(XMQParseState *state, const char *start, const char *stop
     state->line = 1;
     state->col = 1;
     state->error_nr = XMQ_ERROR_NONE;
+    // The state can be reused, do not remember locations inside a previous buffer.
+    state->last_body_start = NULL;
+    state->last_attr_start = NULL;
+    state->last_quote_start = NULL;
+    state->last_compound_start = NULL;
+    state->last_equals_start = NULL;
+    state->last_suspicios_quote_end = NULL;
 
     if (state->parse->init) state->parse->init(state);
 
-- 
2.43.0


From 4f482bd3df679808c28a3b36633e5277a2126a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 17/50] fix: release the wrapper of documents loaded by a
 stylesheet

---
 src/main/c/xmq-cli.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 657b142..5ffe0c8 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -3956,7 +3956,12 @@ xmqDocDefaultLoaderFunc(const xmlChar * URI,
 
     verbose_("xmq=", "xsl-document-load %zu bytes from %s", xmqGetOriginalSize(doq), URI);
 
-    return xmqGetImplementationDoc(doq);
+    // The implementation doc is handed over to libxslt, but the doq itself is not needed anymore.
+    xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(doq);
+    xmqSetImplementationDoc(doq, NULL);
+    xmqFreeDoc(doq);
+
+    return doc;
 
     /*
     xmlParserCtxtPtr pctxt;
-- 
2.43.0


From 8264b8176bbaf87a3ddb599deef5f3165a4730ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 18/50] fix: entity commands handle all top level nodes and
 documents without a root element

---
 src/main/c/xmq-cli.c | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 5ffe0c8..446bdac 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -349,6 +349,7 @@ const char *render_format_to_string(XMQRenderFormat rt);
 xmlNodePtr replace_entity(xmlDoc *doc, xmlNodePtr node, const char *entity, const char *content, xmlNodePtr node_content);
 void replace_entities(xmlDoc *doc, const char *entity, const char *content, xmlNodePtr node_content);
 void substitute_entity(xmlDoc *doc, xmlNodePtr node, const char *entity, bool only_chars);
+void substitute_entities(xmlDoc *doc, const char *entity, bool only_chars);
 bool query_xterm_bgcolor();
 XMQRenderStyle terminal_render_theme(bool *use_color, bool *bg_dark_mode);
 void restoreStdinTerminal();
@@ -1128,10 +1129,8 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
             {
                 // We want to be able to use char entities in the xslq by default.
                 // So we replace any explicit &#10; with actual newlines etc.
-                xmlNodePtr root = xmlDocGetRootElement(xslt);
-                while (root->prev) root = root->prev;
                 // Replace all char entities! I.e. &#10; is replaced with a newline.
-                substitute_entity(xslt, root, NULL, true);
+                substitute_entities(xslt, NULL, true);
             }
             command->xslt_doq = doq;
             command->xslt = xsltParseStylesheetDoc(xslt);
@@ -2535,9 +2534,9 @@ void delete_all_entities(XMQDoc *doq, xmlNode *node, const char *entity)
 void delete_entities(XMQDoc *doq, const char *entity)
 {
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(doq);
-    xmlNodePtr i = doc->children;
-    if (!doq || !i) return;
+    if (!doc) return;
 
+    xmlNodePtr i = doc->children;
     while (i)
     {
         xmlNode *next = i->next; // i might be freed in delete_all_entities
@@ -2659,23 +2658,19 @@ xmlNode *replace_entity(xmlDoc *doc, xmlNode *node, const char *entity, const ch
 
 void replace_entities(xmlDoc *doc, const char *entity, const char *content, xmlNodePtr node_content)
 {
-    xmlNodePtr i = doc->children;
-    if (!doc || !i) return;
+    if (!doc) return;
 
+    xmlNodePtr i = doc->children;
     while (i)
     {
-        replace_entity(doc, i, entity, content, node_content);
-        i = i->next;
+        // i might be freed in replace_entity
+        i = replace_entity(doc, i, entity, content, node_content);
     }
 }
 
 bool cmd_replace(XMQCliCommand *command)
 {
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(command->env->doc);
-    xmlNodePtr root = xmlDocGetRootElement(doc);
-
-    while (root->prev) root = root->prev;
-    assert(root != NULL);
 
     if (command->xpath)
     {
@@ -2739,25 +2734,35 @@ void substitute_entity(xmlDoc *doc, xmlNode *node, const char *entity, bool only
     }
 }
 
+void substitute_entities(xmlDoc *doc, const char *entity, bool only_chars)
+{
+    if (!doc) return;
+
+    // There can be comments before and after the root element, or no root element at all.
+    xmlNodePtr i = doc->children;
+    while (i)
+    {
+        xmlNodePtr next = i->next; // i might be freed in substitute_entity
+        substitute_entity(doc, i, entity, only_chars);
+        i = next;
+    }
+}
+
 bool cmd_substitute(XMQCliCommand *command)
 {
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(command->env->doc);
-    xmlNodePtr root = xmlDocGetRootElement(doc);
-
-    while (root->prev) root = root->prev;
-    assert(root != NULL);
 
     if (command->cmd == XMQ_CLI_CMD_SUBSTITUTE_ENTITY)
     {
         verbose_("xmq=", "substituting entity %s", command->entity);
 
-        substitute_entity(doc, root, command->entity, false);
+        substitute_entities(doc, command->entity, false);
     }
     if (command->cmd == XMQ_CLI_CMD_SUBSTITUTE_CHAR_ENTITIES)
     {
         verbose_("xmq=", "substituting all char entities");
 
-        substitute_entity(doc, root, NULL, true);
+        substitute_entities(doc, NULL, true);
     }
 
     return true;
-- 
2.43.0


From f2dded2a049d02fb4095b28d49b68b4f8e110474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 19/50] fix: xpath commands cope with duplicate matches,
 namespaces and the document node

---
 src/main/c/parts/xml.c |  1 +
 src/main/c/xmq-cli.c   | 55 ++++++++++++++++++++++++++++++++----------
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index 8a0be51..eec1711 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -288,6 +288,7 @@ int decode_entity_ref(const char *name)
 
 void xml_add_root_child(xmlDoc *doc, xmlNode *node)
 {
+    node->parent = (xmlNode*)doc;
     if (doc->children == NULL)
     {
         doc->children = node;
diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 446bdac..85400ac 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2229,6 +2229,8 @@ bool cmd_select(XMQCliCommand *command)
 
     xmlNodeSetPtr nodes = objects->nodesetval;
     int size = (nodes) ? nodes->nodeNr : 0;
+    xmlNode **selected = (xmlNode**)calloc(size+1, sizeof(xmlNode*));
+    int num_selected = 0;
 
     // Copy and unlink in reverse order which means copy unlink deeper nodes first.
     for(int i = size-1; i >= 0; i--)
@@ -2236,21 +2238,34 @@ bool cmd_select(XMQCliCommand *command)
         assert(nodes->nodeTab[i]);
         xmlNode *n = nodes->nodeTab[i];
 
+        if (n->type == XML_NAMESPACE_DECL)
+        {
+            // A namespace is not a real node, its next pointer is the element it was found in.
+            n = (xmlNode*)((xmlNs*)n)->next;
+        }
+
         while (n && !is_element_node(n) && !is_content_node(n))
         {
             // We found an attribute move to parent.
             n = n->parent;
         }
+        // There is no parent above the document and an already selected node has been unlinked.
+        if (!n || !n->parent) continue;
+
         xmlNodePtr new_node = xmlCopyNode(n, 1);
         xml_add_root_child(new_doc, new_node);
 
         xmlUnlinkNode(n);
-        xmlFreeNode(n);
+        selected[num_selected++] = n;
     }
 
     xmlXPathFreeObject(objects);
     xmlXPathFreeContext(ctx);
 
+    // The nodes can be found several times, do not free any of them before all are handled.
+    for (int i = 0; i < num_selected; i++) xmlFreeNode(selected[i]);
+    free(selected);
+
     xmlFreeDoc(doc);
     xmqSetImplementationDoc(command->env->doc, new_doc);
 
@@ -2282,15 +2297,19 @@ bool cmd_for_each(XMQCliCommand *command)
         assert(nodes->nodeTab[i]);
         xmlNode *n = nodes->nodeTab[i];
 
-        if (n)
+        if (n->type == XML_NAMESPACE_DECL)
         {
-            while (n && !is_element_node(n))
-            {
-                // We found an attribute move to parent.
-                n = n->parent;
-            }
-            invoke_shell(n, command->content);
+            // A namespace is not a real node, its next pointer is the element it was found in.
+            n = (xmlNode*)((xmlNs*)n)->next;
+        }
+
+        while (n && !is_element_node(n))
+        {
+            // We found an attribute move to parent.
+            n = n->parent;
         }
+        // There is no element for nodes outside of the root element.
+        if (n) invoke_shell(n, command->content);
     }
 
     xmlXPathFreeObject(objects);
@@ -2565,26 +2584,36 @@ bool delete_xpath(XMQCliCommand *command)
 
     if (objects == NULL)
     {
-        verbose_("xmq=", "no nodes deleted");
+        fprintf(stderr, "xmq: cannot evaluate xpath %s\n", command->xpath);
         xmlXPathFreeContext(ctx);
-        return true;
+        return false;
     }
 
     xmlNodeSetPtr nodes = objects->nodesetval;
     int size = (nodes) ? nodes->nodeNr : 0;
+    xmlNode **unlinked = (xmlNode**)calloc(size+1, sizeof(xmlNode*));
+    int num_unlinked = 0;
 
     // Unlink in reverse order which means unlink deeper nodes first.
     for(int i = size-1; i >= 0; i--)
     {
         assert(nodes->nodeTab[i]);
+        xmlNode *n = nodes->nodeTab[i];
+
+        // Namespaces are not real nodes and the document itself cannot be deleted.
+        if (n->type == XML_NAMESPACE_DECL || !n->parent) continue;
 
-        xmlUnlinkNode(nodes->nodeTab[i]);
-        xmlFreeNode(nodes->nodeTab[i]);
+        xmlUnlinkNode(n);
+        unlinked[num_unlinked++] = n;
     }
 
     xmlXPathFreeObject(objects);
     xmlXPathFreeContext(ctx);
 
+    // The xpath object refers to the nodes, therefore free them when it is gone.
+    for (int i = 0; i < num_unlinked; i++) xmlFreeNode(unlinked[i]);
+    free(unlinked);
+
     return true;
 }
 
@@ -3337,7 +3366,7 @@ char *grab_content(xmlNode *n, const char *name)
         xmlNode *i = n->children;
         while (i)
         {
-            if (!strcmp((char*)i->name, name))
+            if (i->name && !strcmp((char*)i->name, name))
             {
                 xmlNode *j = i->children;
                 while (j)
-- 
2.43.0


From 0e353e85085ec6daa3e15fec625a472cdb7e4df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 20/50] fix: report output that could not be written and start
 the browser without a shell

---
 src/main/c/xmq-cli.c | 78 +++++++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 27 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 85400ac..cc066ed 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -334,15 +334,15 @@ bool handle_global_option(const char *arg, XMQCliCommand *command);
 bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command);
 void invoke_shell(xmlNode *n, const char *cmd);
 void page(const char *start, const char *stop);
-void browse(XMQCliCommand *c);
-void open_browser(const char *file);
+bool browse(XMQCliCommand *c);
+bool open_browser(const char *file);
 bool perform_command(XMQCliCommand *c);
 void prepare_command(XMQCliCommand *c, XMQCliCommand *load_command);
 void print_version_and_exit();
 void print_license_and_exit();
 int get_char();
 void put_char(int c);
-void console_write(const char *start, const char *stop);
+bool console_write(const char *start, const char *stop);
 void print_command_help(XMQCliCmd c);
 KEY read_key(int *c);
 const char *render_format_to_string(XMQRenderFormat rt);
@@ -1994,9 +1994,10 @@ bool cmd_output(XMQCliCommand *command)
     if (command->cmd == XMQ_CLI_CMD_PRINT)
     {
         verbose_("xmq=", "cmd-print output");
-        console_write(command->env->out_start + command->env->out_skip, command->env->out_stop);
+        bool ok = console_write(command->env->out_start + command->env->out_skip, command->env->out_stop);
+        if (!ok) fprintf(stderr, "xmq: Failed to write all output\n");
         free(command->env->out_start);
-        return true;
+        return ok;
     }
     if (command->cmd == XMQ_CLI_CMD_PAGER)
     {
@@ -2008,9 +2009,9 @@ bool cmd_output(XMQCliCommand *command)
     if (command->cmd == XMQ_CLI_CMD_BROWSER)
     {
         verbose_("xmq=", "cmd-browser output");
-        browse(command);
+        bool ok = browse(command);
         free(command->env->out_start);
-        return true;
+        return ok;
     }
     if (command->cmd == XMQ_CLI_CMD_SAVE_TO)
     {
@@ -2028,13 +2029,15 @@ bool cmd_output(XMQCliCommand *command)
             return false;
         }
         size_t wrote = fwrite(command->env->out_start + command->env->out_skip, 1, len, f);
-        if (wrote != len)
+        free(command->env->out_start);
+        // The last bytes are written when the file is closed.
+        bool closed = fclose(f) == 0;
+        if (wrote != len || !closed)
         {
             fprintf(stderr, "xmq: Failed to write all bytes to %s wrote %zu but expected %zu\n",
                     command->save_file, wrote, len);
+            return false;
         }
-        free(command->env->out_start);
-        fclose(f);
 
         return true;
     }
@@ -3117,30 +3120,41 @@ void put_char(int c)
 #endif
 }
 
-void console_write(const char *start, const char *stop)
+bool console_write(const char *start, const char *stop)
 {
 #ifndef PLATFORM_WINAPI
-    printf("%.*s", (int)(stop-start), start);
+    size_t len = stop-start;
+    size_t wrote = fwrite(start, 1, len, stdout);
+    return fflush(stdout) == 0 && wrote == len;
 #else
 	HANDLE out = GetStdHandle(STD_OUTPUT_HANDLE);
     DWORD wrote = 0;
-	WriteConsole(out, start, stop-start, &wrote, NULL);
+	return WriteConsole(out, start, stop-start, &wrote, NULL) != 0;
 #endif
 }
 
-void open_browser(const char *file)
+bool open_browser(const char *file)
 {
 #ifdef PLATFORM_WINAPI
     ShellExecute(NULL, "open", file, NULL, NULL, SW_SHOWNORMAL);
+    return true;
 #else
-    char buf[2049];
-    memset(buf, 0, 2049);
-    snprintf(buf, 2048, "open %s", file);
-    int rc = system(buf);
-    if (rc != 0)
+    // Do not use a shell to start the browser, the file name can contain any characters.
+    int status = 0;
+    fflush(stdout);
+    pid_t pid = fork();
+    if (pid == 0)
     {
-        fprintf(stderr, "xmq: command failed rc=%d:\n%s\n", rc, buf);
+        execlp("open", "open", file, (char*)NULL);
+        perror("xmq: open");
+        _exit(127);
     }
+    if (pid == -1 || waitpid(pid, &status, 0) == -1 || status != 0)
+    {
+        fprintf(stderr, "xmq: command failed rc=%d:\nopen %s\n", status, file);
+        return false;
+    }
+    return true;
 #endif
 }
 
@@ -3232,7 +3246,7 @@ KEY read_key(int *c)
 }
 
 
-void browse(XMQCliCommand *c)
+bool browse(XMQCliCommand *c)
 {
     const char *file;
 
@@ -3262,18 +3276,28 @@ void browse(XMQCliCommand *c)
     // since such a link could trick you into overwriting something else.
     int fd = open(tmpfile, O_CREAT | O_TRUNC | O_NOFOLLOW | O_RDWR, 0666);
 #endif
-    size_t len = c->env->out_stop - c->env->out_start - c->env->out_skip;
-    size_t wrote = write(fd, c->env->out_start, len);
-    close(fd);
+    if (fd == -1)
+    {
+        fprintf(stderr, "xmq: %s: Cannot open file for writing\n", tmpfile);
+        return false;
+    }
 
-    if (wrote == len)
+    const char *start = c->env->out_start + c->env->out_skip;
+    while (start < c->env->out_stop)
     {
-        open_browser(tmpfile);
+        ssize_t wrote = write(fd, start, c->env->out_stop - start);
+        if (wrote <= 0) break;
+        start += wrote;
     }
-    else
+    bool closed = close(fd) == 0;
+
+    if (start < c->env->out_stop || !closed)
     {
         fprintf(stderr, "xmq: Failed to write content to %s\n", tmpfile);
+        return false;
     }
+
+    return open_browser(tmpfile);
 }
 
 bool shell_safe(char *i)
-- 
2.43.0


From 2a4e2d1eb1d5faca055252dca0b990ad9e7398c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 21/50] fix: refuse commands with missing arguments, failed
 stylesheets and schemas

---
 src/main/c/xmq-cli.c | 58 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index cc066ed..676d7aa 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1189,7 +1189,7 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
             command->xsd = xmlSchemaParse(ctxt);
 
             xmlSchemaFreeParserCtxt(ctxt);
-            if (!command->xsd) return true;
+            if (!command->xsd) return false;
 
             /*fprintf(stderr, "-------------------------\n");
             xmlSchemaDump(stdout, command->xsd);
@@ -2056,6 +2056,12 @@ bool cmd_transform(XMQCliCommand *command)
     HashMapIterator *i;
     size_t j = 0;
 
+    if (!command->xslt)
+    {
+        fprintf(stderr, "xmq: transform command missing stylesheet\n");
+        return false;
+    }
+
     if (command->xslt_params)
     {
         size_t n = hashmap_size(command->xslt_params);
@@ -2081,6 +2087,12 @@ bool cmd_transform(XMQCliCommand *command)
         hashmap_free_iterator(i);
         free(params);
     }
+    if (!new_doc)
+    {
+        fprintf(stderr, "xmq: transform failed\n");
+        return false;
+    }
+
     xmlFreeDoc(doc);
     xmqSetImplementationDoc(command->env->doc, new_doc);
 
@@ -2153,6 +2165,12 @@ bool cmd_validate(XMQCliCommand *command)
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(command->env->doc);
     verbose_("xmq=", "validating");
 
+    if (!command->xsd)
+    {
+        fprintf(stderr, "xmq: validate command missing schema\n");
+        return false;
+    }
+
     xmlSchemaValidCtxtPtr validation_ctxt = xmlSchemaNewValidCtxt(command->xsd);
 
     if (!command->silent)
@@ -2208,6 +2226,7 @@ bool cmd_delete(XMQCliCommand *command)
         return delete_entity(command);
     }
 
+    fprintf(stderr, "xmq: delete command missing xpath or entity\n");
     return false;
 }
 
@@ -2216,6 +2235,12 @@ bool cmd_select(XMQCliCommand *command)
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(command->env->doc);
     verbose_("xmq=", "selecting");
 
+    if (!command->xpath)
+    {
+        fprintf(stderr, "xmq: select command missing xpath\n");
+        return false;
+    }
+
     xmlXPathContextPtr ctx = xmlXPathNewContext(doc);
     assert(ctx);
 
@@ -2280,6 +2305,12 @@ bool cmd_for_each(XMQCliCommand *command)
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(command->env->doc);
     verbose_("xmq=", "for each");
 
+    if (!command->xpath || !command->content)
+    {
+        fprintf(stderr, "xmq: for-each command missing xpath or --shell=command\n");
+        return false;
+    }
+
     xmlXPathContextPtr ctx = xmlXPathNewContext(doc);
     assert(ctx);
 
@@ -2324,6 +2355,13 @@ bool cmd_for_each(XMQCliCommand *command)
 bool cmd_add(XMQCliCommand *command)
 {
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(command->env->doc);
+
+    if (!command->add_xmq)
+    {
+        fprintf(stderr, "xmq: add command missing xmq to add\n");
+        return false;
+    }
+
     verbose_("xmq=", "adding xmq >%s<", command->add_xmq);
 
     XMQDoc *doq = xmqNewDoc();
@@ -2365,6 +2403,12 @@ bool cmd_add_root(XMQCliCommand *command)
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(command->env->doc);
     verbose_("xmq=", "adding root");
 
+    if (!command->xpath)
+    {
+        fprintf(stderr, "xmq: add-root command missing name of root\n");
+        return false;
+    }
+
     xmlDocPtr new_doc = xmlNewDoc((xmlChar*)"1.0");
 
     xmlNodePtr root = xmlNewDocNode(new_doc, NULL, (const xmlChar*)command->xpath, NULL);
@@ -2711,6 +2755,12 @@ bool cmd_replace(XMQCliCommand *command)
 
     if (command->entity)
     {
+        if (!command->content && !command->node_content)
+        {
+            fprintf(stderr, "xmq: replace-entity command missing content\n");
+            return false;
+        }
+
         verbose_("xmq=", "replacing entity %s", command->entity);
 
         replace_entities(doc, command->entity, command->content, command->node_content);
@@ -2786,6 +2836,12 @@ bool cmd_substitute(XMQCliCommand *command)
 
     if (command->cmd == XMQ_CLI_CMD_SUBSTITUTE_ENTITY)
     {
+        if (!command->entity)
+        {
+            fprintf(stderr, "xmq: substitute-entity command missing entity\n");
+            return false;
+        }
+
         verbose_("xmq=", "substituting entity %s", command->entity);
 
         substitute_entities(doc, command->entity, false);
-- 
2.43.0


From ad7b50f4a47f1c8dcd9c2b9f5bca7b93b5e4b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 22/50] fix: files that cannot be read and unknown tokenize
 types are errors

---
 src/main/c/xmq-cli.c | 50 ++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 676d7aa..5824be4 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1020,20 +1020,8 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
         {
             const char *file = arg+17;
             verbose_("xmq=", "reading text file %s", file);
-            FILE *f = fopen(file, "rb");
-            if (!f)
-            {
-                error_("xmq.err=", "%s: No such file or directory", file);
-                return false;
-            }
-            fseek(f, 0L, SEEK_END);
-            size_t sz = ftell(f);
-            fseek(f, 0L, SEEK_SET);
-            char *buf = (char*)malloc(sz+1);
-            size_t n = fread(buf, 1, sz, f);
-            buf[sz] = 0;
-            if (n != sz) printf("ARRRRRGGGG\n");
-            fclose(f);
+            char *buf = load_file_into_buffer(file);
+            if (!buf) return false;
             command->content = buf;
             return true;
         }
@@ -1783,7 +1771,10 @@ bool cmd_tokenize(XMQCliCommand *command)
         xmqSetupParseCallbacksDebugContent(callbacks);
         break;
     default:
-        fprintf(stderr, "Internal error.\n");
+        fprintf(stderr, "xmq: tokenize type not supported\n");
+        xmqFreeParseCallbacks(callbacks);
+        xmqFreeOutputSettings(output_settings);
+        return false;
     }
 
     XMQParseState *state = xmqNewParseState(callbacks, output_settings);
@@ -4218,15 +4209,28 @@ char *load_file_into_buffer(const char *file)
         fprintf(stderr, "xmq: %s: No such file or directory\n", file);
         return NULL;
     }
-    fseek(f, 0L, SEEK_END);
-    size_t sz = ftell(f);
-    fseek(f, 0L, SEEK_SET);
-    char *buf = (char*)malloc(sz+1);
-    size_t n = fread(buf, 1, sz, f);
-    buf[sz] = 0;
-    if (n != sz) printf("ARRRRRGGGG\n");
+
+    // Do not ask for the file size up front, a pipe has no size.
+    MemBuffer *buf = new_membuffer();
+    char block[4096];
+    for (;;)
+    {
+        size_t n = fread(block, 1, sizeof(block), f);
+        if (n == 0) break;
+        membuffer_append_region(buf, block, block+n);
+    }
+    bool failed = ferror(f);
     fclose(f);
-    return buf;
+
+    if (failed)
+    {
+        fprintf(stderr, "xmq: %s: Cannot read file\n", file);
+        free_membuffer_and_free_content(buf);
+        return NULL;
+    }
+
+    membuffer_append_null(buf);
+    return free_membuffer_but_return_trimmed_content(buf);
 }
 
 bool check_file_exists(const char *file)
-- 
2.43.0


From 5c5bb365f021f09dcf7143fdda9be5a7a0876d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 23/50] fix: quote-c and unquote-c need a text

---
 src/main/c/xmq-cli.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 5824be4..48290f5 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2105,6 +2105,11 @@ bool cmd_quote_unquote(XMQCliCommand *command)
     if (command->cmd == XMQ_CLI_CMD_QUOTE_C)
     {
         char *value = (char*)xmlNodeListGetString(doc, doc->children, 1);
+        if (!value)
+        {
+            fprintf(stderr, "xmq: there is no text to quote\n");
+            return false;
+        }
         char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
         xmlFree(value);
 
@@ -2133,6 +2138,11 @@ bool cmd_quote_unquote(XMQCliCommand *command)
     if (command->cmd == XMQ_CLI_CMD_UNQUOTE_C)
     {
         char *value = (char*)xmlNodeListGetString(doc, doc->children, 1);
+        if (!value)
+        {
+            fprintf(stderr, "xmq: there is no text to unquote\n");
+            return false;
+        }
         char *unquoted_value = xmq_unquote_as_c(value, value+strlen(value), true);
         xmlFree(value);
 
-- 
2.43.0


From c3a5d213b0ee8f012061c740122c32d863ae0073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:38 +0000
Subject: [PATCH 24/50] fix: null attribute values, text in json arrays and
 entity declarations when printing json and clines

---
 src/main/c/parts/json.c | 12 +++++++++---
 src/main/c/xmq.c        |  9 +++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index d36cc5a..836e910 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -931,7 +931,12 @@ void json_print_array_nodes(XMQPrintState *ps, xmlNode *container, xmlNode *from
         bool is_number = xml_element_content(i) && json_is_number(xml_element_content(i));
         bool is_keyword = xml_element_content(i) && json_is_keyword(xml_element_content(i));
 
-        if (force_string || is_number || is_keyword)
+        if (is_content_node(i))
+        {
+            // There are no keys in an array, print the text itself.
+            json_print_value(ps, i, i, LEVEL_ELEMENT_VALUE, true);
+        }
+        else if (xml_first_child(i) && (force_string || is_number || is_keyword))
         {
             json_print_value(ps, xml_first_child(i), xml_last_child(i), LEVEL_ELEMENT_VALUE, force_string);
         }
@@ -1288,8 +1293,9 @@ void json_print_attribute(XMQPrintState *ps, xmlAttr *a)
 
     if (a->children != NULL)
     {
+        // Null if the value is nothing but references to unknown entities.
         char *value = (char*)xmlNodeListGetString(a->doc, a->children, 1);
-        char *quoted_value = quote_as_json(value, value+strlen(value), true);
+        char *quoted_value = value ? quote_as_json(value, value+strlen(value), true) : strdup("\"\"");
         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
         free(quoted_value);
         xmlFree(value);
@@ -1466,7 +1472,7 @@ void json_print_element_name(XMQPrintState *ps, xmlNode *container, xmlNode *nod
             // The key was stored inside the attribute because it could not
             // be used as the element name.
             char *value = (char*)xmlNodeListGetString(node->doc, a->children, 1);
-            char *quoted_value = quote_as_json(value, value+strlen(value), false);
+            char *quoted_value = value ? quote_as_json(value, value+strlen(value), false) : strdup("");
             print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
             free(quoted_value);
             xmlFree(value);
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 28e0993..8656c80 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2818,6 +2818,10 @@ void cline_print_node(XMQPrintState *ps, xmlNode *node)
     XMQWrite write = output_settings->content.write;
     void *writer_state = output_settings->content.writer_state;
 
+    // An entity reference has the entity declaration as its child and a doctype has
+    // declarations, neither have any lines to print.
+    if (is_entity_node(node) || is_doctype_node(node)) return;
+
     if (has_attributes(node))
     {
         cline_print_attributes(ps, node);
@@ -2843,9 +2847,6 @@ void cline_print_node(XMQPrintState *ps, xmlNode *node)
         cline_print_xpath(ps, node);
         write(writer_state, "=\"\"\n", NULL);
     }
-    else if (is_entity_node(node))
-    {
-    }
 }
 
 void cline_print_nodes(XMQPrintState *ps, xmlNode *from)
@@ -2889,7 +2890,7 @@ void cline_print_attr(XMQPrintState *ps, xmlAttr *a)
     if (a->children != NULL)
     {
         char *value = (char*)xmlNodeListGetString(a->doc, a->children, 1);
-        char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
+        char *quoted_value = xmq_quote_as_c(value ? value : "", NULL, true);
         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
         free(quoted_value);
         xmlFree(value);
-- 
2.43.0


From d68f0532a91196a7d0fd8398deb360aeb77d4472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 25/50] fix: option -i without content dereferenced null

---
 src/main/c/xmq-cli.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 48290f5..94fc4a9 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1778,7 +1778,7 @@ bool cmd_tokenize(XMQCliCommand *command)
     }
 
     XMQParseState *state = xmqNewParseState(callbacks, output_settings);
-    if (command->in_is_content)
+    if (command->in_is_content && command->in)
     {
         xmqTokenizeBuffer(state, command->in, NULL);
     }
@@ -1814,7 +1814,14 @@ bool cmd_load(XMQCliCommand *command)
         return true;
     }
 
+    if (command->in_is_content && !command->in)
+    {
+        fprintf(stderr, "xmq: option -i needs the content to parse as an argument\n");
+        return false;
+    }
+
     if (command->in &&
+        !command->in_is_content &&
         command->in[0] == '-' &&
         command->in[1] == 0)
     {
-- 
2.43.0


From a22c6275cd2cd2538352c6e86de8495b22b953b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 26/50] fix: doctypes, declarations and namespaces were used as
 if they were elements

---
 src/main/c/parts/json.c | 11 +++++++++--
 src/main/c/xmq-cli.c    |  6 ++++++
 src/main/c/xmq.c        | 37 ++++++++++++++++++++++++-------------
 3 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 836e910..4668085 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -931,9 +931,9 @@ void json_print_array_nodes(XMQPrintState *ps, xmlNode *container, xmlNode *from
         bool is_number = xml_element_content(i) && json_is_number(xml_element_content(i));
         bool is_keyword = xml_element_content(i) && json_is_keyword(xml_element_content(i));
 
-        if (is_content_node(i))
+        if (is_content_node(i) || is_entity_node(i))
         {
-            // There are no keys in an array, print the text itself.
+            // There are no keys in an array, print the text or the entity itself.
             json_print_value(ps, i, i, LEVEL_ELEMENT_VALUE, true);
         }
         else if (xml_first_child(i) && (force_string || is_number || is_keyword))
@@ -972,6 +972,13 @@ void json_print_node(XMQPrintState *ps, xmlNode *container, xmlNode *node, size_
         return;
     }
 
+    // A doctype is neither an element nor a leaf.
+    if (is_doctype_node(node))
+    {
+        json_print_doctype_node(ps, node);
+        return;
+    }
+
     // Standalone quote must be quoted: 'word' 'some words'
     if (is_content_node(node))
     {
diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 94fc4a9..73c5ead 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2717,6 +2717,9 @@ xmlNode *replace_entity(xmlDoc *doc, xmlNode *node, const char *entity, const ch
         return next;
     }
 
+    // Only elements have attributes and children to search, a doctype has neither.
+    if (!is_element_node(node)) return next;
+
     xmlAttr *a = xml_first_attribute(node);
     while (a)
     {
@@ -2815,6 +2818,9 @@ void substitute_entity(xmlDoc *doc, xmlNode *node, const char *entity, bool only
         return;
     }
 
+    // Only elements have children to search, the entities declared in a doctype are not part of the content.
+    if (!is_element_node(node)) return;
+
     xmlNode *i = node->children;
     while (i)
     {
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 8656c80..4b6e356 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -3801,33 +3801,44 @@ const char *xmqGetName(XMQNode *node)
     xmlNodePtr p = node->node;
     if (p)
     {
+        // A namespace is not a real node.
+        if (p->type == XML_NAMESPACE_DECL) return (const char*)((xmlNsPtr)p)->prefix;
         return (const char*)p->name;
     }
     return NULL;
 }
 
-const char *xmqGetContent(XMQNode *node)
+/** The content of the first child. */
+static const char *single_content(xmlNodePtr p)
 {
-    xmlNodePtr p = node->node;
-    if (p && p->children)
+    if (!p) return NULL;
+    // A namespace is not a real node and has no children.
+    if (p->type == XML_NAMESPACE_DECL) return (const char*)((xmlNsPtr)p)->href;
+    if (!p->children) return NULL;
+
+    switch (p->children->type)
     {
+    case XML_TEXT_NODE:
+    case XML_CDATA_SECTION_NODE:
+    case XML_ENTITY_REF_NODE:
+    case XML_PI_NODE:
+    case XML_COMMENT_NODE:
         return (const char*)p->children->content;
+    default:
+        // The other nodes, a doctype for example, have no content.
+        return NULL;
     }
-    return NULL;
+}
+
+const char *xmqGetContent(XMQNode *node)
+{
+    return single_content(node->node);
 }
 
 XMQProceed catch_single_content(XMQDoc *doc, XMQNode *node, void *user_data)
 {
     const char **out = (const char **)user_data;
-    xmlNodePtr n = node->node;
-    if (n && n->children)
-    {
-        *out = (const char*)n->children->content;
-    }
-    else
-    {
-        *out = NULL;
-    }
+    *out = single_content(node->node);
     return XMQ_STOP;
 }
 
-- 
2.43.0


From 890d3b88f78eb138514ec5f596929a5bf26127c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 27/50] fix: xmq help <command> returned failure for known and
 success for unknown commands

---
 src/main/c/xmq-cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 73c5ead..2fdacca 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -4189,7 +4189,7 @@ int main(int argc, const char **argv)
     if (load_command->print_help) cmd_help(NULL);
     if (load_command->next && load_command->next->cmd == XMQ_CLI_CMD_HELP)
     {
-        return cmd_help(load_command->next);
+        return cmd_help(load_command->next) ? 0 : 1;
     }
 
     XMQCliCommand *c = load_command;
-- 
2.43.0


From a7a094baa7f541df4bb882903ec9bc62aee4f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 28/50] fix: for-each reported success when the shell could not
 be started

---
 src/main/c/xmq-cli.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 2fdacca..c0dc405 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -332,7 +332,7 @@ bool has_debug(int argc, const char **argv);
 bool has_verbose(int argc, const char **argv);
 bool handle_global_option(const char *arg, XMQCliCommand *command);
 bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command);
-void invoke_shell(xmlNode *n, const char *cmd);
+bool invoke_shell(xmlNode *n, const char *cmd);
 void page(const char *start, const char *stop);
 bool browse(XMQCliCommand *c);
 bool open_browser(const char *file);
@@ -2333,8 +2333,9 @@ bool cmd_for_each(XMQCliCommand *command)
 
     xmlNodeSetPtr nodes = objects->nodesetval;
     int size = (nodes) ? nodes->nodeNr : 0;
+    bool ok = true;
 
-    for(int i = 0; i < size; ++i)
+    for(int i = 0; i < size && ok; ++i)
     {
         assert(nodes->nodeTab[i]);
         xmlNode *n = nodes->nodeTab[i];
@@ -2351,13 +2352,13 @@ bool cmd_for_each(XMQCliCommand *command)
             n = n->parent;
         }
         // There is no element for nodes outside of the root element.
-        if (n) invoke_shell(n, command->content);
+        if (n) ok = invoke_shell(n, command->content);
     }
 
     xmlXPathFreeObject(objects);
     xmlXPathFreeContext(ctx);
 
-    return true;
+    return ok;
 }
 
 bool cmd_add(XMQCliCommand *command)
@@ -3483,8 +3484,9 @@ char *grab_content(xmlNode *n, const char *name)
 // (On some systems this is also declared in unistd.h)
 extern char **environ;
 
-void invoke_shell(xmlNode *n, const char *shell_command)
+bool invoke_shell(xmlNode *n, const char *shell_command)
 {
+    bool ok = true;
 #ifndef PLATFORM_WINAPI
     char *cmd = strdup(shell_command);
     char **argv = malloc(sizeof(char*)*4);
@@ -3550,6 +3552,7 @@ void invoke_shell(xmlNode *n, const char *shell_command)
     } else {
         if (pid == -1) {
             perror("(shell) could not fork!\n");
+            ok = false;
         }
         debug_("shell=", "waiting for child %d to complete.", pid);
         // Wait for the child to finish!
@@ -3575,6 +3578,7 @@ void invoke_shell(xmlNode *n, const char *shell_command)
     }
     free(cmd);
 #endif
+    return ok;
 }
 
 void page(const char *start, const char *stop)
-- 
2.43.0


From 8ffc355dc3fc6a6635f09703caf25752a696bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 29/50] fix: an entity as the last element of a json array
 crashed, text after an entity was lost

---
 src/main/c/parts/json.c | 53 ++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 4668085..615ab6c 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -1179,18 +1179,20 @@ void json_print_value(XMQPrintState *ps, xmlNode *from, xmlNode *to, Level level
     void *writer_state = output_settings->content.writer_state;
 
     xmlNode *node = from;
-    const char *content = xml_element_content(node);
+    // An entity reference has no content of its own, it is printed by name.
+    const char *content = is_entity_node(node) ? NULL : xml_element_content(node);
 
-    if (!xml_next_sibling(node) &&
+    if (content &&
+        !xml_next_sibling(node) &&
         !force_string &&
-        (json_is_number(xml_element_content(node))
-         || json_is_keyword(xml_element_content(node))))
+        (json_is_number(content)
+         || json_is_keyword(content)))
     {
         // This is a number or a keyword. E.g. 123 true false null
         write(writer_state, content, NULL);
         ps->last_char = content[strlen(content)-1];
     }
-    else if (!xml_next_sibling(node) && content[0] == 0)
+    else if (content && !xml_next_sibling(node) && content[0] == 0)
     {
         write(writer_state, "\"\"", NULL);
         ps->last_char = '"';
@@ -1199,35 +1201,26 @@ void json_print_value(XMQPrintState *ps, xmlNode *from, xmlNode *to, Level level
     {
         print_utf8(ps, COLOR_none, 1, "\"", NULL);
 
-        if (is_entity_node(node))
+        do
         {
-            write(writer_state, "&", NULL);
-            write(writer_state, (const char*)node->name, NULL);
-            write(writer_state, ";", NULL);
-        }
-        else
-        {
-            do
+            if (is_entity_node(node))
             {
-                if (is_entity_node(node))
-                {
-                    const char *name = xml_element_name(node);
-                    print_utf8(ps, COLOR_none, 3, "&", NULL, name, NULL, ";", NULL);
-                }
-                else
+                const char *name = xml_element_name(node);
+                print_utf8(ps, COLOR_none, 3, "&", NULL, name, NULL, ";", NULL);
+            }
+            else
+            {
+                const char *value = xml_element_content(node);
+                if (value)
                 {
-                    const char *value = xml_element_content(node);
-                    if (value)
-                    {
-                        char *quoted_value = quote_as_json(value, value+strlen(value), false);
-                        print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
-                        free(quoted_value);
-                    }
+                    char *quoted_value = quote_as_json(value, value+strlen(value), false);
+                    print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
+                    free(quoted_value);
                 }
-                if (node == to) break;
-                node = xml_next_sibling(node);
-            } while (node);
-        }
+            }
+            if (node == to) break;
+            node = xml_next_sibling(node);
+        } while (node);
 
         print_utf8(ps, COLOR_none, 1, "\"", NULL);
         ps->last_char = '"';
-- 
2.43.0


From 6322bceb869c14a5349d1eddf373b203f74bd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 30/50] fix: hexadecimal and unknown entities truncated the
 text when converted to json

---
 src/main/c/parts/xml.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index eec1711..ad43b22 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -231,6 +231,8 @@ char *xml_collapse_text(xmlNode *node)
         }
         else
         {
+            // An entity that does not stand for a known character has to be kept.
+            if (decode_entity_ref((const char*)i->name) == 0) return NULL;
             // &apos;
             len += 2 + strlen((const char*)i->name);
             num_entities++;
@@ -273,6 +275,7 @@ char *xml_collapse_text(xmlNode *node)
 
 int decode_entity_ref(const char *name)
 {
+    if (!strcmp(name, "amp")) return '&';
     if (!strcmp(name, "apos")) return '\'';
     if (!strcmp(name, "gt")) return '>';
     if (!strcmp(name, "lt")) return '<';
@@ -280,7 +283,7 @@ int decode_entity_ref(const char *name)
     if (!strcmp(name, "nbsp")) return 160;
     if (name[0] != '#') return 0;
     if (name[1] == 'x') {
-        long v = strtol((const char*)name, NULL, 16);
+        long v = strtol(name+2, NULL, 16);
         return (int)v;
     }
     return atoi(name+1);
-- 
2.43.0


From 59036e8f654383a61306a9b266be4534517aab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 31/50] fix: a character reference inside an html style was cut
 down to one byte

---
 src/main/c/xmq.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 4b6e356..573fbc6 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -3264,15 +3264,13 @@ void fixup_html(XMQDoc *doq, xmlNode *node, bool inside_cdata_declared)
     else if (is_entity_node(node) && inside_cdata_declared)
     {
         const char *new_content = (const char*)node->content;
-        char buf[2];
+        UTF8Char utf8;
         if (!node->content)
         {
             if (node->name[0] == '#')
             {
-                int v = atoi(((const char*)node->name)+1);
-                buf[0] = v;
-                buf[1] = 0;
-                new_content = buf;
+                encode_utf8(decode_entity_ref((const char*)node->name), &utf8);
+                new_content = utf8.bytes;
             }
         }
         xmlNodePtr new_node = xmlNewDocText(doq->docptr_.xml, (const xmlChar*)new_content);
-- 
2.43.0


From 421859044b719b9b1d96b2a9b95d0c4eb53ae37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 32/50] fix: understand the documented commands and options,
 match --silent and _xmlns as whole words

---
 src/main/c/parts/json.c |  3 ++-
 src/main/c/xmq-cli.c    | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 615ab6c..6d52d05 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -399,7 +399,8 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
     if (*key_start == '_' && key_stop > key_start+1)
     {
         // Check if this is an xmlns ns declaration.
-        if (key_start+6 <= key_stop && !strncmp(key_start, "_xmlns", 6))
+        if (key_start+6 <= key_stop && !strncmp(key_start, "_xmlns", 6) &&
+            (key_start+6 == key_stop || *(key_start+6) == ':'))
         {
             // Declaring the use of a namespace.
             if (colon)
diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index c0dc405..bc1aa98 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -440,6 +440,7 @@ XMQCliCmd cmd_from(const char *s)
     if (!strcmp(s, "add-root")) return XMQ_CLI_CMD_ADD_ROOT;
     if (!strcmp(s, "br")) return XMQ_CLI_CMD_BROWSER;
     if (!strcmp(s, "browse")) return XMQ_CLI_CMD_BROWSER;
+    if (!strcmp(s, "browser")) return XMQ_CLI_CMD_BROWSER;
     if (!strcmp(s, "delete")) return XMQ_CLI_CMD_DELETE;
     if (!strcmp(s, "delete-entity")) return XMQ_CLI_CMD_DELETE_ENTITY;
     if (!strcmp(s, "for-each")) return XMQ_CLI_CMD_FOR_EACH;
@@ -448,6 +449,7 @@ XMQCliCmd cmd_from(const char *s)
     if (!strcmp(s, "no-output")) return XMQ_CLI_CMD_NO_OUTPUT;
     if (!strcmp(s, "pa")) return XMQ_CLI_CMD_PAGER;
     if (!strcmp(s, "page")) return XMQ_CLI_CMD_PAGER;
+    if (!strcmp(s, "pager")) return XMQ_CLI_CMD_PAGER;
     if (!strcmp(s, "print")) return XMQ_CLI_CMD_PRINT;
     if (!strcmp(s, "render-html")) return XMQ_CLI_CMD_RENDER_HTML;
     if (!strcmp(s, "render-raw")) return XMQ_CLI_CMD_RENDER_RAW;
@@ -1143,7 +1145,7 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
 
     if (group == XMQ_CLI_CMD_GROUP_VALIDATE)
     {
-        if (!strncmp(arg, "--silent", 8))
+        if (!strcmp(arg, "--silent"))
         {
             command->silent = true;
             return true;
@@ -1498,6 +1500,11 @@ bool handle_global_option(const char *arg, XMQCliCommand *command)
         command->in_format=XMQ_CONTENT_XMQ;
         return true;
     }
+    if (!strcmp(arg, "--htmq"))
+    {
+        command->in_format=XMQ_CONTENT_HTMQ;
+        return true;
+    }
     if (!strcmp(arg, "--json"))
     {
         command->in_format=XMQ_CONTENT_JSON;
@@ -1558,14 +1565,19 @@ bool handle_global_option(const char *arg, XMQCliCommand *command)
         command->lines = true;
         return true;
     }
-    if (!strcmp(arg, "--no-merge"))
+    if (!strcmp(arg, "--no-merge") ||
+        !strcmp(arg, "--nomerge"))
     {
         command->flags |= XMQ_FLAG_NOMERGE;
         return true;
     }
     if (!strncmp(arg, "--trim=", 7))
     {
-        if (!strcmp(arg+7, "none"))
+        if (!strcmp(arg+7, "default"))
+        {
+            // Heuristic for xml/html and none for xmq/htmq/json.
+        }
+        else if (!strcmp(arg+7, "none"))
         {
             command->flags |= XMQ_FLAG_TRIM_NONE;
         }
@@ -1672,8 +1684,8 @@ bool cmd_help(XMQCliCommand *cmd)
            "  quote-c unquote-c\n"
            "  select\n"
            "  statistics\n"
-           "  substitite-char-entities substitute-entity\n"
-           "  to-html to-htmq to-json to-lines to-text to-xml to-xmq\n"
+           "  substitute-char-entities substitute-entity\n"
+           "  to-clines to-html to-htmq to-json to-text to-xml to-xmq\n"
            "  tokenize\n"
            "  transform\n"
            "  validate\n\n"
@@ -1686,7 +1698,7 @@ bool cmd_help(XMQCliCommand *cmd)
            "                delete //@class \\\n"
            "                add-root Course \\\n"
            "                transform --stringparam=title=Welcome cols.xslq to-text\n"
-           "  xmq work.xml validate --silent work.xsd noout\n"
+           "  xmq work.xml validate --silent work.xsd no-output\n"
         );
 
     exit(0);
-- 
2.43.0


From 6e548478024481395c0499c774d8f3e70e85aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:24 +0000
Subject: [PATCH 33/50] fix: describe the commands and options in the manual as
 they are

---
 doc/xmq.1 | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/doc/xmq.1 b/doc/xmq.1
index 01bcedc..5c0ff46 100644
--- a/doc/xmq.1
+++ b/doc/xmq.1
@@ -59,7 +59,7 @@ You can parse the input using the supplied invisible xml grammar.
 Create a root node <name> unless the file starts with a node with this <name> already.
 
 .TP
-.BR --trim=[none|default|heuristic}
+.BR --trim=[none|default|heuristic]
 The default setting when reading xml/html content is to trim whitespace using \fBheuristic\fP.
 When reading xmq/htmq/json then default settings is \fBnone\fP since whitespace is explicit in xmq/htmq/json.
 .br
@@ -146,7 +146,7 @@ page up - previous page
 Print on stdout generated output from any of the to/render/tokenize commands.
 
 .TP
-\fIsave\fP <file_name>
+\fIsave-to\fP <file_name>
 Save the generated output from any of the to/render/tokenize commands to the provided file name.
 
 .TP
@@ -162,7 +162,7 @@ Colors can be configured with the XMQ_COLORS environment variable (see below).
 \fB--id=abc\fP When rendering html mark the pre tag with this id.
 
 .br
-\fB--lightbg / --darkbg\fP Use a colorscheme suitable for a light background or a dark background.
+\fB--theme=lightbg / --theme=darkbg\fP Use a colorscheme suitable for a light background or a dark background.
 
 .br
 \fB--nostyle\fP Do not output html/tex preamble/postamble.
@@ -184,10 +184,10 @@ Do not create a DOM tree for the content, just tokenize the input. Each token ca
 Select or delete nodes in the DOM.
 
 .br
-\fB--xpath=<xpath-expression>\fP Select or delete nodes matching this xpath expression.
+\fIselect\fP / \fIdelete\fP <xpath-expression> Select or delete nodes matching this xpath expression.
 
 .br
-\fB--entity=<entity-name>\fP Select or delete entity nodes matching this name.
+\fIdelete-entity\fP <entity-name> Delete entity nodes matching this name.
 
 .TP
 \fIadd\fP <xmq>
@@ -198,23 +198,17 @@ Parse the xmq and append to the DOM.
 Wrap the DOM with a new root node. Useful after a select which to get an XML compliant DOM.
 
 .TP
-\fIreplace\fP\fP
+\fIreplace-entity\fP
 Replace parts of the DOM.
 
 .br
-\fB--xpath=<xpath-expression>\fP Replace nodes matching this xpath expression.
+\fIreplace-entity\fP <entity-name> <text> Replace entity nodes matching this name with this text. The text is safely quoted for insertion into the document.
 
 .br
-\fB--entity=<entity-name>\fP Replace entity nodes matching this name.
+\fB--with-text-file=<file-name>\fP Replace with the text from this file. The text is safely quoted for insertion into the document.
 
 .br
-\fB--text=<text>\fP Replace with this text. The text is safely quoted for insertion into the document.
-
-.br
-\fB--textfile=<file-name>\fP Replace with the text from this file. The text is safely quoted for insertion into the document.
-
-.br
-\fB--file=<file-name>\fP Replace with the content of this file which has to be proper xmq/htmq/xml/html/json.
+\fB--with-file=<file-name>\fP Replace with the content of this file which has to be proper xmq/htmq/xml/html/json.
 
 .TP
 \fItransform\fP\fP
@@ -251,11 +245,11 @@ Pretty print a document as xmq to the terminal using colors.
 Delete nodes and pretty print.
 
 .br
-% xmq input.xml delete --entity=Greeting
+% xmq input.xml delete-entity Greeting
 .br
-% xmq-less input.html delete --xpath=//script to-html
+% xmq-less input.html delete //script to-html
 .br
-% xmq-less input.html delete --xpath=//script render-terminal
+% xmq-less input.html delete //script render-terminal
 
 .TP
 Execute a shell command for each matching node.
@@ -269,11 +263,11 @@ Replace nodes and print.
 .br
 % xmq input.xml \\
 .br
-    replace --entity=Greeting --text='howdy' \\
+    replace-entity Greeting 'howdy' \\
 .br
-    replace --entity=Page --file=pagecontent.xmq
+    replace-entity Page --with-file=pagecontent.xmq
 .br
-% xmq input.xml replace --xpath=//div --file=newdiv.xmq
+% xmq input.xml replace-entity NEWDIV --with-file=newdiv.xmq
 
 .TP
 Select nodes and print.
@@ -285,11 +279,11 @@ Select nodes and print.
 Transform document.
 
 .br
-% xmq input.xmq transform --xslt=toweb.xsltq to-html > index.html
+% xmq input.xmq transform toweb.xsltq to-html > index.html
 .br
-% xmq data.json replace --xpath=//work --textfile=work.txt \\
+% xmq data.json replace-entity WORK --with-text-file=work.txt \\
 .br
-                transform --xslt=restructure.xsltq to-json > work.json
+                transform restructure.xsltq to-json > work.json
 
 .SH AUTHOR
 Written by Fredrik Öhrström.
-- 
2.43.0


From c47996d215ddf15404ccc7e0c047f62d0b275107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:24 +0000
Subject: [PATCH 34/50] fix: a document that could not be parsed always tells
 why, htmq can be requested

---
 src/main/c/xmq.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 573fbc6..60722f5 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1914,6 +1914,7 @@ bool xmqParseFile(XMQDoc *doq, const char *file, const char *implicit_root, int
     {
         ok = false;
         doq->errno_ = XMQ_ERROR_NOT_XMQ;
+        doq->error_ = build_error_message("xmq: %s: %s\n", file, xmqParseErrorToString(doq->errno_));
         goto exit;
     }
 
@@ -4094,6 +4095,10 @@ bool xmqParseBufferWithType(XMQDoc *doq,
                 // This is fine! We might be loading a fragment of html
                 // that is detected as xml.
             }
+            else if (detected_ct == XMQ_CONTENT_XMQ && ct == XMQ_CONTENT_HTMQ)
+            {
+                // This is fine! The syntax of htmq is xmq.
+            }
             else
             {
                 switch (ct) {
@@ -4104,6 +4109,9 @@ bool xmqParseBufferWithType(XMQDoc *doq,
                 case XMQ_CONTENT_JSON: doq->errno_ = XMQ_ERROR_EXPECTED_JSON; break;
                 default: doq->errno_ = XMQ_ERROR_NOT_XMQ; break;
                 }
+                doq->error_ = build_error_message("xmq: %s: %s\n",
+                                                  doq->source_name_ ? doq->source_name_ : "-",
+                                                  xmqParseErrorToString(doq->errno_));
                 ok = false;
                 goto exit;
             }
@@ -4618,6 +4626,7 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
     if (!start || !ixml_grammar)
     {
         doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        doc->error_ = build_error_message("xmq: %s\n", start ? "missing ixml grammar" : "missing input to parse");
         return false;
     }
     if (!stop) stop = start+strlen(start);
-- 
2.43.0


From 7880f0a2ac21414845bedbebee358fbe4ac46ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:52 +0000
Subject: [PATCH 35/50] fix: invalid characters and tabs among attributes and
 in compounds, and unclosed ixml comments, no longer hang the parser

---
 src/main/c/parts/ixml.c       |  8 +++++++-
 src/main/c/parts/xmq_parser.c | 18 ++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index 0700b27..dd37097 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -1645,7 +1645,13 @@ void skip_whitespace(const char **i)
     const char *j = *i;
     while (is_ixml_whitespace_char(*j))
     {
-        if (*j == '{') skip_comment(&j);
+        if (*j == '{')
+        {
+            const char *comment = j;
+            skip_comment(&j);
+            // The comment is not closed.
+            if (j == comment) break;
+        }
         else j++;
     }
     *i = j;
diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 3da5022..7235ba5 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -836,10 +836,18 @@ void parse_xmq_attribute(XMQParseState *state)
 
     int start_line = state->line;
     int start_col = state->col;
+    const char *start = state->i;
 
     eat_xmq_text_name(state, &name_start, &name_stop, &ns_start, &ns_stop);
     const char *stop = state->i;
 
+    if (stop == start)
+    {
+        // Not even the first character can be part of a name.
+        state->error_nr = XMQ_ERROR_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
+
     if (!ns_start)
     {
         // No colon found, we have either a normal: key=123
@@ -888,11 +896,11 @@ void parse_xmq_attribute(XMQParseState *state)
 
     if (c == '=')
     {
-        const char *start = state->i;
+        start = state->i;
         start_line = state->line;
         start_col = state->col;
         increment('=', 1, &state->i, &state->line, &state->col);
-        const char *stop = state->i;
+        stop = state->i;
         DO_CALLBACK(equals, state, start_line, start_col, start, stop, stop);
         parse_xmq_value(state, LEVEL_ATTR_VALUE);
         return;
@@ -1069,6 +1077,12 @@ void parse_xmq_whitespace(XMQParseState *state)
     size_t start_col = state->col;
     const char *start;
     const char *stop;
+    if (*state->i == '\t')
+    {
+        // Tabs are not permitted as xmq token whitespace, nothing would be eaten.
+        state->error_nr = XMQ_ERROR_UNEXPECTED_TAB;
+        longjmp(state->error_handler, 1);
+    }
     eat_xmq_token_whitespace(state, &start, &stop);
     DO_CALLBACK(whitespace, state, start_line, start_col, start, stop, stop);
 }
-- 
2.43.0


From 213697063b7e771d2435a7195f6e6380e2d40133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:06 +0000
Subject: [PATCH 36/50] fix: free the old error message of a document when a
 new one is stored

---
 src/main/c/xmq.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 60722f5..15757d0 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1793,6 +1793,13 @@ void xmqFreeParseState(XMQParseState *state)
     free(state);
 }
 
+/** Remember the error message, the message from an earlier failed parse is forgotten. */
+void set_doc_error(XMQDoc *doq, const char *msg)
+{
+    free((void*)doq->error_);
+    doq->error_ = msg;
+}
+
 void xmqFreeDoc(XMQDoc *doq)
 {
     if (!doq) return;
@@ -1887,7 +1894,7 @@ bool xmqParseBuffer(XMQDoc *doq, const char *start, const char *stop, const char
     {
         rc = false;
         doq->errno_ = xmqStateErrno(state);
-        doq->error_ = build_error_message("%s\n", xmqStateErrorMsg(state));
+        set_doc_error(doq, build_error_message("%s\n", xmqStateErrorMsg(state)));
     }
 
     xmqFreeParseState(state);
@@ -1914,7 +1921,7 @@ bool xmqParseFile(XMQDoc *doq, const char *file, const char *implicit_root, int
     {
         ok = false;
         doq->errno_ = XMQ_ERROR_NOT_XMQ;
-        doq->error_ = build_error_message("xmq: %s: %s\n", file, xmqParseErrorToString(doq->errno_));
+        set_doc_error(doq, build_error_message("xmq: %s: %s\n", file, xmqParseErrorToString(doq->errno_)));
         goto exit;
     }
 
@@ -3947,7 +3954,7 @@ bool xmq_parse_buffer_xml(XMQDoc *doq, const char *start, const char *stop, int
     {
         doq->errno_ = XMQ_ERROR_PARSING_XML;
         // Let libxml2 print the error message.
-        doq->error_ = NULL;
+        set_doc_error(doq, NULL);
         return false;
     }
 
@@ -3986,7 +3993,7 @@ bool xmq_parse_buffer_html(XMQDoc *doq, const char *start, const char *stop, int
     {
         doq->errno_ = XMQ_ERROR_PARSING_HTML;
         // Let libxml2 print the error message.
-        doq->error_ = NULL;
+        set_doc_error(doq, NULL);
         return false;
     }
 
@@ -4074,7 +4081,7 @@ bool xmqParseBufferWithType(XMQDoc *doq,
     if (!start)
     {
         doq->errno_ = XMQ_ERROR_INVALID_CHAR;
-        doq->error_ = build_error_message("xmq: cannot handle utf-16 content\n");
+        set_doc_error(doq, build_error_message("xmq: cannot handle utf-16 content\n"));
         return false;
     }
 
@@ -4109,9 +4116,9 @@ bool xmqParseBufferWithType(XMQDoc *doq,
                 case XMQ_CONTENT_JSON: doq->errno_ = XMQ_ERROR_EXPECTED_JSON; break;
                 default: doq->errno_ = XMQ_ERROR_NOT_XMQ; break;
                 }
-                doq->error_ = build_error_message("xmq: %s: %s\n",
+                set_doc_error(doq, build_error_message("xmq: %s: %s\n",
                                                   doq->source_name_ ? doq->source_name_ : "-",
-                                                  xmqParseErrorToString(doq->errno_));
+                                                  xmqParseErrorToString(doq->errno_)));
                 ok = false;
                 goto exit;
             }
@@ -4204,7 +4211,7 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
     FILE *f = fopen(file, "rb");
     if (!f) {
         doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-        doq->error_ = build_error_message("xmq: %s: No such file or directory\n", file);
+        set_doc_error(doq, build_error_message("xmq: %s: No such file or directory\n", file));
         return false;
     }
 
@@ -4219,7 +4226,7 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
             if (!bigger)
             {
                 doq->errno_ = XMQ_ERROR_OOM;
-                doq->error_ = build_error_message("xmq: %s: File too big, out of memory\n", file);
+                set_doc_error(doq, build_error_message("xmq: %s: File too big, out of memory\n", file));
                 goto exit;
             }
             buffer = bigger;
@@ -4233,7 +4240,7 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
 
     if (ferror(f)) {
         doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-        doq->error_ = build_error_message("xmq: %s: Cannot read file\n", file);
+        set_doc_error(doq, build_error_message("xmq: %s: Cannot read file\n", file));
         goto exit;
     }
     buffer[fsize] = 0;
@@ -4345,7 +4352,7 @@ bool xmq_parse_buffer_json(XMQDoc *doq,
     {
         rc = false;
         doq->errno_ = xmqStateErrno(state);
-        doq->error_ = build_error_message("%s\n", xmqStateErrorMsg(state));
+        set_doc_error(doq, build_error_message("%s\n", xmqStateErrorMsg(state)));
     }
 
     xmqFreeParseState(state);
@@ -4397,7 +4404,7 @@ bool xmq_parse_buffer_ixml(XMQDoc *ixml_grammar,
     {
         rc = false;
         ixml_grammar->errno_ = xmqStateErrno(state);
-        ixml_grammar->error_ = build_error_message("%s\n", xmqStateErrorMsg(state));
+        set_doc_error(ixml_grammar, build_error_message("%s\n", xmqStateErrorMsg(state)));
     }
 
     // Do not free the state, it must be kept alive with the doc
@@ -4626,7 +4633,7 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
     if (!start || !ixml_grammar)
     {
         doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
-        doc->error_ = build_error_message("xmq: %s\n", start ? "missing ixml grammar" : "missing input to parse");
+        set_doc_error(doc, build_error_message("xmq: %s\n", start ? "missing ixml grammar" : "missing input to parse"));
         return false;
     }
     if (!stop) stop = start+strlen(start);
-- 
2.43.0


From 8fad8d213ddb1b1b5a0af5468c483465a5be20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:28 +0000
Subject: [PATCH 37/50] fix: do not look before the start of an empty quoted pi

---
 src/main/c/parts/text.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 85f9b42..222edf9 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -622,8 +622,8 @@ char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes)
 char *potentially_add_leading_ending_space(const char *start, const char *stop)
 {
     char *content = NULL;
-    int prefix = *start == '\'' ? 1 : 0;
-    int postfix = *(stop-1) == '\'' ? 1 : 0;
+    int prefix = start < stop && *start == '\'' ? 1 : 0;
+    int postfix = start < stop && *(stop-1) == '\'' ? 1 : 0;
     if (prefix || postfix)
     {
         size_t len = stop-start;
-- 
2.43.0


From b72e6934cc1b713433e57e4249daaa6aec8c853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:28 +0000
Subject: [PATCH 38/50] fix: print a pi without content as a pi without content

---
 src/main/c/parts/xmq_printer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 2b644b5..63eeb41 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -432,7 +432,10 @@ void print_pi_node(XMQPrintState *ps, xmlNode *node)
     {
         n-=2;
     }
-    char *content = potentially_add_leading_ending_space(c+name_len+3, c+n);
+    // The pi has no content at all if there is no space after the name: <?name?>
+    size_t from = name_len+3;
+    if (from > n) from = n;
+    char *content = potentially_add_leading_ending_space(c+from, c+n);
     n = strlen(content);
     char *end = content+n;
 
-- 
2.43.0


From 72f70769ed2844c32490cbd627a677d350bce30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:43 +0000
Subject: [PATCH 39/50] fix: a pi without content does not steal the value of
 the next element

---
 src/main/c/xmq.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 15757d0..de77d9d 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2582,6 +2582,16 @@ void do_element_name(XMQParseState *state,
                      const char *suffix)
 {
     create_node(state, start, stop);
+    if (state->parsing_pi)
+    {
+        // No equals follows the name, this is a pi without content. Do not steal the next value.
+        xmlNodePtr n = (xmlNodePtr)xmlNewPI((xmlChar*)state->pi_name, NULL);
+        xmlNodePtr parent = (xmlNode*)state->element_stack->top->data;
+        xmlAddChild(parent, n);
+        state->parsing_pi = false;
+        free((char*)state->pi_name);
+        state->pi_name = NULL;
+    }
 }
 
 void do_element_key(XMQParseState *state,
-- 
2.43.0


From 7f5887333ebc2188c1fb1436e58ab550cc4f0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:51 +0000
Subject: [PATCH 40/50] fix: declare set_doc_error

---
 src/main/c/xmq.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index de77d9d..fcc3551 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -114,6 +114,7 @@ void handle_yaep_syntax_error(YaepParseRun *pr,
 bool has_leading_ending_quote(const char *start, const char *stop);
 bool is_safe_char(const char *i, const char *stop);
 size_t line_length(const char *start, const char *stop, int *numq, int *lq, int *eq);
+void set_doc_error(XMQDoc *doq, const char *msg);
 bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **out_buffer);
 bool load_stdin(XMQDoc *doq, size_t *out_fsize, const char **out_buffer);
 bool need_separation_before_entity(XMQPrintState *ps);
-- 
2.43.0


From 1a63973ba941ea96b7100bf6b3f46a309002f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:04 +0000
Subject: [PATCH 41/50] fix: setting up colors again releases the strings of
 the earlier colors

---
 src/main/c/xmq.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index fcc3551..af14b01 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -262,6 +262,7 @@ void setup_terminal_coloring(XMQOutputSettings *os, XMQTheme *theme, bool dark_m
     if (!dark_mode) colors = theme->colors_lightbg;
 
     char *commands = (char*)malloc(4096);
+    free(os->free_me);
     os->free_me = commands;
     char *p = commands;
 
@@ -371,6 +372,7 @@ void setup_html_coloring(XMQOutputSettings *os, XMQTheme *theme, bool dark_mode,
         membuffer_append_null(style_pre);
 
         theme->style.pre = free_membuffer_but_return_trimmed_content(style_pre);
+        free(os->free_me);
         os->free_me = (void*)theme->style.pre;
         if (dark_mode)
         {
-- 
2.43.0


From 4260e75fe67423cafc1b1d9ff28c31a5bd86271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:04 +0000
Subject: [PATCH 42/50] fix: free the error message of an earlier failed
 tokenization

---
 src/main/c/xmq.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index af14b01..c3f281a 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -931,6 +931,7 @@ bool xmqTokenizeBuffer(XMQParseState *state, const char *start, const char *stop
     XMQContentType detected_ct = xmqDetectContentType(start, stop);
     if (detected_ct != XMQ_CONTENT_XMQ)
     {
+        free(state->generated_error_msg);
         state->generated_error_msg = strdup("xmq: you can only tokenize the xmq format");
         state->error_nr = XMQ_ERROR_NOT_XMQ;
         return false;
@@ -1034,6 +1035,7 @@ bool xmqTokenizeFile(XMQParseState *state, const char *file)
     content = xmqDetectContentType(buffer, buffer+fsize);
     if (content != XMQ_CONTENT_XMQ)
     {
+        free(state->generated_error_msg);
         state->generated_error_msg = strdup("You can only tokenize xmq!");
         state->error_nr = XMQ_ERROR_NOT_XMQ;
         rc = false;
-- 
2.43.0


From 94e766c24a10a4bdfa0de15604553e4453b5556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:11 +0000
Subject: [PATCH 43/50] fix: parsing another ixml grammar into the same doc
 releases the first one

---
 src/main/c/xmq.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index c3f281a..f4184cf 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -115,6 +115,7 @@ bool has_leading_ending_quote(const char *start, const char *stop);
 bool is_safe_char(const char *i, const char *stop);
 size_t line_length(const char *start, const char *stop, int *numq, int *lq, int *eq);
 void set_doc_error(XMQDoc *doq, const char *msg);
+void free_doc_grammar(XMQDoc *doq);
 bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **out_buffer);
 bool load_stdin(XMQDoc *doq, size_t *out_fsize, const char **out_buffer);
 bool need_separation_before_entity(XMQPrintState *ps);
@@ -1805,6 +1806,20 @@ void set_doc_error(XMQDoc *doq, const char *msg)
     doq->error_ = msg;
 }
 
+/** Release the ixml grammar that was built when the doc was parsed. */
+void free_doc_grammar(XMQDoc *doq)
+{
+    if (doq->yaep_grammar_)
+    {
+        yaepFreeGrammar (doq->yaep_parse_run_, doq->yaep_grammar_);
+        yaepFreeParseRun (doq->yaep_parse_run_);
+        xmqFreeParseState(doq->yaep_parse_state_);
+        doq->yaep_grammar_ = NULL;
+        doq->yaep_parse_run_ = NULL;
+        doq->yaep_parse_state_ = NULL;
+    }
+}
+
 void xmqFreeDoc(XMQDoc *doq)
 {
     if (!doq) return;
@@ -1826,15 +1841,7 @@ void xmqFreeDoc(XMQDoc *doq)
         xmlFreeDoc(doq->docptr_.xml);
         doq->docptr_.xml = NULL;
     }
-    if (doq->yaep_grammar_)
-    {
-        yaepFreeGrammar (doq->yaep_parse_run_, doq->yaep_grammar_);
-        yaepFreeParseRun (doq->yaep_parse_run_);
-        xmqFreeParseState(doq->yaep_parse_state_);
-        doq->yaep_grammar_ = NULL;
-        doq->yaep_parse_run_ = NULL;
-        doq->yaep_parse_state_ = NULL;
-    }
+    free_doc_grammar(doq);
 
     debug("xmq=", "freeing xmq doc");
     free(doq);
@@ -4382,7 +4389,8 @@ bool xmq_parse_buffer_ixml(XMQDoc *ixml_grammar,
                            const char *stop,
                            int flags)
 {
-    assert(ixml_grammar->yaep_grammar_ == NULL);
+    // The doc can already hold a grammar from an earlier parse.
+    free_doc_grammar(ixml_grammar);
 
     bool rc = true;
     if (!stop) stop = start+strlen(start);
-- 
2.43.0


From 60c36e0c455fc16cef2b39852d033224f2d027a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:26 +0000
Subject: [PATCH 44/50] fix: unquote-c understands the escapes that quote-c
 writes for backslash and control characters

---
 src/main/c/parts/text.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 222edf9..4a4ff35 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -591,6 +591,12 @@ char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes)
             if (i >= stop) break;
             c = *i;
             if (c == '"') *o++ = '"';
+            else if (c == '\\') *o++ = '\\';
+            else if (c == 'x' && stop-i > 2 && is_hex(*(i+1)) && is_hex(*(i+2)))
+            {
+                *o++ = (char)((hex_value(*(i+1))<<4) | hex_value(*(i+2)));
+                i += 2;
+            }
             else if (c == 'n') *o++ = '\n';
             else if (c == 'a') *o++ = '\a';
             else if (c == 'b') *o++ = '\b';
-- 
2.43.0


From e6ecc38e1f8cf173e46f8a68802fa6ef4f163857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:26 +0000
Subject: [PATCH 45/50] fix: accept an escaped slash in a json string

---
 src/main/c/parts/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 6d52d05..20f854a 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -146,7 +146,7 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
         {
             increment(c, 1, &i, &line, &col);
             c = i < stop ? *i : 0;
-            if (c == '"' || c == '\\' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')
+            if (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')
             {
                 increment(c, 1, &i, &line, &col);
                 switch(c)
-- 
2.43.0


From d527a9ba8d8ad55258a3c19c9e7c075fab2f3213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:26 +0000
Subject: [PATCH 46/50] fix: separate compact values ending with a slash or
 semicolon from the next token

---
 src/main/c/parts/xmq_printer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 63eeb41..30b65f9 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1241,6 +1241,8 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
     {
         // This is a key_node text value or an attribute text value, ie key = 123 or color=blue, ie no quoting needed.
         print_utf8(ps, level_to_quote_color(level), 1, start, stop);
+        // A value can end with / or ; but this does not separate it from the next token.
+        ps->last_char = 1;
         return;
     }
 
-- 
2.43.0


From e81b0d40e6dc1c0432ac03808ecd5b41b23c6cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:18 +0000
Subject: [PATCH 47/50] fix: a compact comment that contains the end of a
 comment gets more slashes

---
 src/main/c/parts/xmq_printer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 30b65f9..31e2d83 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -265,7 +265,9 @@ void print_comment_node(XMQPrintState *ps, xmlNode *node)
     check_space_before_comment(ps);
 
     bool has_newline = has_newlines(start, stop);
-    if (!has_newline)
+    // A compact comment containing */ needs more slashes.
+    bool needs_slashes = ps->output_settings->compact && count_necessary_slashes(start, stop) > 1;
+    if (!has_newline && !needs_slashes)
     {
         if (ps->output_settings->compact)
         {
-- 
2.43.0


From 9ac81d2187218e62bdc19893c7c8fb4a891678fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:15 +0000
Subject: [PATCH 48/50] fix: values of quotes or mixed white space are put in
 parentheses, white space next to quotes is not lost

---
 src/main/c/parts/xmq_printer.c | 54 ++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 31e2d83..6276d65 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1180,6 +1180,32 @@ const char *find_next_char_that_needs_escape(XMQPrintState *ps, const char *star
     return i; // j+1;
 }
 
+/**
+   quote_loses_whitespace:
+   @start: Content buffer start.
+   @stop: Points to after last buffer byte.
+
+   A text that starts or ends with a quote, or contains at least three quotes in a row,
+   is printed on lines of its own:
+   '''
+   'howdy'
+   '''
+   Then any whitespace leading or ending the text is trimmed when the quote is parsed.
+*/
+bool quote_loses_whitespace(const char *start, const char *stop)
+{
+    if (start >= stop) return false;
+    if (!is_xml_whitespace(*start) && !is_xml_whitespace(*(stop-1))) return false;
+
+    size_t numq = 0;
+    for (const char *i = start; i < stop; ++i)
+    {
+        numq = *i == '\'' ? numq+1 : 0;
+        if (numq >= 3) return true;
+    }
+    return has_leading_ending_quote(start, stop);
+}
+
 void print_value_internal_text(XMQPrintState *ps, const char *start, const char *stop, Level level)
 {
     if (!stop) stop = start+strlen(start);
@@ -1250,6 +1276,13 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
 
     size_t only_prepended_newlines = 0;
     const char *new_start = has_leading_space_nl(start, stop, &only_prepended_newlines);
+    bool loses_whitespace = quote_loses_whitespace(start, stop);
+    if (loses_whitespace)
+    {
+        new_start = start;
+        while (is_xml_whitespace(*new_start)) new_start++;
+        only_prepended_newlines = 0;
+    }
     if (new_start && only_prepended_newlines == 0)
     {
         // We have a leading mix of newlines and whitespace.
@@ -1260,12 +1293,18 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
     size_t only_appended_newlines = 0;
     const char *new_stop = has_ending_nl_space(start, stop, &only_appended_newlines);
     const char *old_stop = stop;
+    if (loses_whitespace)
+    {
+        new_stop = stop;
+        while (is_xml_whitespace(*(new_stop-1))) new_stop--;
+        only_appended_newlines = 0;
+    }
     if (new_stop && only_appended_newlines == 0)
     {
         // We have an ending mix of newlines and whitespace.
         stop = new_stop;
         // Move forward over normal spaces.
-        while (stop < old_stop && *stop == ' ') stop++;
+        while (!loses_whitespace && stop < old_stop && *stop == ' ') stop++;
     }
 
     // Ok, normal content to be quoted. However we might need to split the content
@@ -1297,7 +1336,7 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
             bool add_compound = false;
             bool compact = ps->output_settings->compact;
             count_necessary_quotes(from, to, false, &add_nls, &add_compound);
-            if (!add_compound && (!add_nls || !compact))
+            if (!add_compound && (!add_nls || !compact) && !quote_loses_whitespace(from, to))
             {
                 check_space_before_quote(ps, level);
                 print_safe_leaf_quote(ps, level_to_quote_color(level), from, to);
@@ -1370,6 +1409,17 @@ bool quote_needs_compounded(XMQPrintState *ps, const char *start, const char *st
         if (*start == '\t') return false;
     }
 
+    // More than one single quote and nothing else becomes &apos;&apos;
+    if (has_all_quotes(start, stop)) return stop > start+1;
+
+    // A mix of whitespace becomes &#9;' '
+    bool all_space = false;
+    bool only_newlines = false;
+    if (has_all_whitespace(start, stop, &all_space, &only_newlines) && !all_space && !only_newlines) return true;
+
+    // Whitespace next to quotes is printed as entities.
+    if (quote_loses_whitespace(start, stop)) return true;
+
     size_t only_leading_newlines = 0;
     const char *ls = has_leading_space_nl(start, stop, &only_leading_newlines);
     if (ls != NULL && only_leading_newlines == 0) return true;
-- 
2.43.0


From 5344ddecc7e7c37a2f59ed0d85895dcbef99ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:15 +0000
Subject: [PATCH 49/50] fix: white space at the end of a line of a value is not
 lost

---
 src/main/c/parts/xmq_printer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 6276d65..7780464 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1164,6 +1164,8 @@ const char *find_next_char_that_needs_escape(XMQPrintState *ps, const char *star
         if (non7bit && c > 126) break;
         if (c < 32 && c != '\t' && c != '\n') break;
         if (c == '\t' && escape_tabs) break;
+        // Whitespace at the end of a line is trimmed when the quote is parsed, end the quote here.
+        if (c == '\n' && i > start && (*(i-1) == ' ' || *(i-1) == '\t')) break;
         i++;
     }
 
@@ -1315,6 +1317,11 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
     for (const char *from = start; from < stop; )
     {
         const char *to = find_next_char_that_needs_escape(ps, from, stop);
+        if (*from == '\n' && from > start && (*(from-1) == ' ' || *(from-1) == '\t'))
+        {
+            // The previous quote ended with whitespace before this newline.
+            to = from;
+        }
         if (from == to)
         {
             check_space_before_entity_node(ps);
@@ -1449,6 +1456,7 @@ bool quote_needs_compounded(XMQPrintState *ps, const char *start, const char *st
         if (non7bit && c > 126) return true;
         if (c < 32 && c != '\t' && c != '\n') return true;
         if (c == '\t' && escape_tabs) return true;
+        if ((c == ' ' || c == '\t') && i+1 < stop && *(i+1) == '\n') return true;
     }
     return false;
 }
-- 
2.43.0


From b231291c80b162402d3a6bf8ae9bb2a08fa3f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:15 +0000
Subject: [PATCH 50/50] fix: a value with three quotes stays on one line in
 compact output

---
 src/main/c/parts/xmq_printer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 7780464..2dd25dc 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1071,7 +1071,9 @@ void print_safe_leaf_quote(XMQPrintState *ps,
                     // |    alfa beta '''
                     // |    gamma delta
                     // |    ''''
-                    add_nls = true;
+                    // In compact mode everything stays on a single line: ''''alfa beta ''' gamma''''
+                    if (ps->output_settings->compact) indent += numq;
+                    else add_nls = true;
                 }
             }
         }
-- 
2.43.0

