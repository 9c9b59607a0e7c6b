From 3c42a71e3ab4c64344b2f13d34c866c33e2081d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 01/20] fix: encode the length of fields with several TL-fields
 correctly

The element count of a list does not include the TL-fields, the carry case
(e.g. an octet string of 254 bytes) lost a nibble, and the following TL-fields
were or'ed into whatever the buffer contained before.
---
 sml/src/sml_shared.c | 60 ++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index d7cad9d..a7b7c1e 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -55,49 +55,37 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 }
 
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l) {
-	// set the type
-	buf->buffer[buf->cursor] = type;
-
-	if (type != SML_TYPE_LIST) {
-		l++;
-	}
-
-	if (l > SML_LENGTH_FIELD) {
-
-		// how much shifts are necessary
-		int mask_pos = (sizeof(unsigned int) * 2) - 1;
-
-		// the 4 most significant bits of l (1111 0000 0000 ...)
-		unsigned int mask = 0xF0 << (8 * (sizeof(unsigned int) - 1));
-
-		// select the next 4 most significant bits with a bit set until there
-		// is something
-		while (!(mask & l)) {
-			mask >>= 4;
-			mask_pos--;
+	// every TL-field holds 4 bits of the length
+	int fields = 1;
+	unsigned int rest;
+
+	if (type == SML_TYPE_LIST) {
+		// the length of a list is the number of its elements
+		for (rest = l >> 4; rest; rest >>= 4) {
+			fields++;
 		}
-
-		l += mask_pos; // for every TL-field
-
-		if ((0x0F << (4 * (mask_pos + 1))) & l) {
-			// for the rare case that the addition of the number of TL-fields
-			// result in another TL-field.
-			mask_pos++;
+	} else {
+		// all other lengths include the TL-fields themselves; this addition
+		// might result in another TL-field
+		l++;
+		for (rest = l >> 4; rest; rest = l >> (4 * fields)) {
+			fields++;
 			l++;
+			if (fields == sizeof(l) * 2) {
+				break;
+			}
 		}
+	}
 
-		// copy 4 bits of the number to the buffer
-		while (mask > SML_LENGTH_FIELD) {
+	// set the type, and copy 4 bits of the length to each TL-field
+	while (fields-- > 0) {
+		buf->buffer[buf->cursor] = type | ((l >> (4 * fields)) & SML_LENGTH_FIELD);
+		if (fields > 0) {
 			buf->buffer[buf->cursor] |= SML_ANOTHER_TL;
-			buf->buffer[buf->cursor] |= ((mask & l) >> (4 * mask_pos));
-			mask >>= 4;
-			mask_pos--;
-			buf->cursor++;
 		}
+		type = 0; // the following TL-fields have no type
+		buf->cursor++;
 	}
-
-	buf->buffer[buf->cursor] |= (l & SML_LENGTH_FIELD);
-	buf->cursor++;
 }
 
 int sml_buf_has_errors(sml_buffer *buf) { return buf->error != 0; }
-- 
2.43.0


From 099526b6c456184f1aa1ed34a18f4cb8512b048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 02/20] fix: do not write beyond the end of the buffer

Writing anything larger than the buffer (512 bytes for a new file, the size of
the input for a parsed one) was a heap overflow. It now sets the error of the
buffer, and sml_transport_write() fails.
---
 sml/include/sml/sml_shared.h |  4 ++++
 sml/src/sml_boolean.c        |  3 +++
 sml/src/sml_message.c        |  3 +++
 sml/src/sml_number.c         |  3 +++
 sml/src/sml_octet_string.c   |  3 +++
 sml/src/sml_shared.c         | 15 +++++++++++++++
 sml/src/sml_transport.c      |  9 +++++++++
 7 files changed, 40 insertions(+)

diff --git a/sml/include/sml/sml_shared.h b/sml/include/sml/sml_shared.h
index 86dec36..1236d32 100644
--- a/sml/include/sml/sml_shared.h
+++ b/sml/include/sml/sml_shared.h
@@ -89,6 +89,10 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 // Checks if a error is occured.
 int sml_buf_has_errors(sml_buffer *buf);
 
+// Checks whether there is space left for writing the given number of bytes,
+// and sets the error of the buffer if not.
+int sml_buf_has_space(sml_buffer *buf, size_t bytes);
+
 // Returns the type field of the current byte.
 int sml_buf_get_next_type(sml_buffer *buf);
 
diff --git a/sml/src/sml_boolean.c b/sml/src/sml_boolean.c
index b1a8548..b80b73a 100644
--- a/sml/src/sml_boolean.c
+++ b/sml/src/sml_boolean.c
@@ -62,6 +62,9 @@ void sml_boolean_write(sml_boolean *boolean, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_BOOLEAN, 1);
+	if (!sml_buf_has_space(buf, 1)) {
+		return;
+	}
 	if (*boolean == SML_BOOLEAN_FALSE) {
 		buf->buffer[buf->cursor] = SML_BOOLEAN_FALSE;
 	} else {
diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index de91085..38d4ae6 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -140,6 +140,9 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u16_write(msg->crc, buf);
 
 	// end of message
+	if (!sml_buf_has_space(buf, 1)) {
+		return;
+	}
 	buf->buffer[buf->cursor] = 0x0;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index 706a4c6..fa71f6a 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -135,6 +135,9 @@ void sml_number_write(void *np, unsigned char type, int size, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, type, size);
+	if (!sml_buf_has_space(buf, size)) {
+		return;
+	}
 	memcpy(sml_buf_get_current_buf(buf), np, size);
 
 	if (!(sml_number_endian() == SML_BIG_ENDIAN)) {
diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index f7db408..8e25eab 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -95,6 +95,9 @@ void sml_octet_string_write(octet_string *str, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_OCTET_STRING, (unsigned int)str->len);
+	if (!sml_buf_has_space(buf, str->len)) {
+		return;
+	}
 	memcpy(sml_buf_get_current_buf(buf), str->str, str->len);
 	buf->cursor += str->len;
 }
diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index a7b7c1e..6006213 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -77,6 +77,10 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 		}
 	}
 
+	if (!sml_buf_has_space(buf, fields)) {
+		return;
+	}
+
 	// set the type, and copy 4 bits of the length to each TL-field
 	while (fields-- > 0) {
 		buf->buffer[buf->cursor] = type | ((l >> (4 * fields)) & SML_LENGTH_FIELD);
@@ -90,6 +94,14 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 
 int sml_buf_has_errors(sml_buffer *buf) { return buf->error != 0; }
 
+int sml_buf_has_space(sml_buffer *buf, size_t bytes) {
+	if (buf->cursor > buf->buffer_len || bytes > buf->buffer_len - buf->cursor) {
+		buf->error = 1;
+		return 0;
+	}
+	return 1;
+}
+
 int sml_buf_get_next_type(sml_buffer *buf) {
 	if (buf->cursor >= buf->buffer_len) {
 		buf->error = 1;
@@ -116,6 +128,9 @@ sml_buffer *sml_buffer_init(size_t length) {
 }
 
 void sml_buf_optional_write(sml_buffer *buf) {
+	if (!sml_buf_has_space(buf, 1)) {
+		return;
+	}
 	buf->buffer[buf->cursor] = SML_OPTIONAL_SKIPPED;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 17f868c..47a7267 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -127,8 +127,12 @@ void sml_transport_listen(int fd, void (*sml_transport_receiver)(unsigned char *
 int sml_transport_write(int fd, sml_file *file) {
 	sml_buffer *buf = file->buf;
 	buf->cursor = 0;
+	buf->error = 0;
 
 	// add start sequence
+	if (!sml_buf_has_space(buf, 8)) {
+		return 0;
+	}
 	memcpy(sml_buf_get_current_buf(buf), start_seq, 8);
 	buf->cursor += 8;
 
@@ -137,6 +141,11 @@ int sml_transport_write(int fd, sml_file *file) {
 
 	// add padding bytes
 	int padding = (buf->cursor % 4) ? (4 - buf->cursor % 4) : 0;
+	// there has to be space for the padding bytes and the end sequence
+	if (sml_buf_has_errors(buf) || !sml_buf_has_space(buf, padding + 8)) {
+		fprintf(stderr, "libsml: error: sml_transport_write(): buffer too small!\n");
+		return 0;
+	}
 	if (padding) {
 		// write zeroed bytes
 		memset(sml_buf_get_current_buf(buf), 0, padding);
-- 
2.43.0


From 86cfbc66f9093c64d96543afb4edaee5123a12a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 03/20] fix: write the last entry of the object list of a
 GetProfilePack.Req

---
 sml/src/sml_get_profile_pack_request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_get_profile_pack_request.c b/sml/src/sml_get_profile_pack_request.c
index 6729b08..5020037 100644
--- a/sml/src/sml_get_profile_pack_request.c
+++ b/sml/src/sml_get_profile_pack_request.c
@@ -56,7 +56,7 @@ void sml_get_profile_pack_request_write(sml_get_profile_pack_request *msg, sml_b
 			len++;
 		}
 		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, len);
-		for (l = msg->object_list; l->next; l = l->next) {
+		for (l = msg->object_list; l; l = l->next) {
 			sml_obj_req_entry_write(l->object_list_entry, buf);
 		}
 	} else {
-- 
2.43.0


From fb57a9cf127b37427169ce028379340d839a9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 04/20] fix: write an empty tree path as an empty list

It was left out, which shifted all following fields of the message.
---
 sml/src/sml_tree.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index e54561e..2cc1a54 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -73,13 +73,11 @@ void sml_tree_path_write(sml_tree_path *tree_path, sml_buffer *buf) {
 		return;
 	}
 
-	if (tree_path->path_entries && tree_path->path_entries_len > 0) {
-		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
+	sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
 
-		int i;
-		for (i = 0; i < tree_path->path_entries_len; i++) {
-			sml_octet_string_write(tree_path->path_entries[i], buf);
-		}
+	int i;
+	for (i = 0; i < tree_path->path_entries_len; i++) {
+		sml_octet_string_write(tree_path->path_entries[i], buf);
 	}
 }
 
-- 
2.43.0


From 1dcce8cc05476e82d1df4dd2b3c789d2167adaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 05/20] fix: do not leak the previous checksum when writing a
 message

---
 sml/src/sml_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 38d4ae6..809ca88 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -135,6 +135,7 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u8_write(msg->abort_on_error, buf);
 	sml_message_body_write(msg->message_body, buf);
 
+	sml_number_free(msg->crc); // from parsing or writing it before
 	msg->crc =
 		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), buf->cursor - msg_start));
 	sml_u16_write(msg->crc, buf);
-- 
2.43.0


From 602de93a6a3997e5235d40dfe9366dfe36d79aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 06/20] fix: reject a message body without tag

The message was returned without message body, although everything using
messages relies on it.
---
 sml/src/sml_message.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 809ca88..70732b5 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -170,9 +170,14 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 	}
 
 	msg_body->tag = sml_u32_parse(buf);
-	if (sml_buf_has_errors(buf) || msg_body->tag == NULL)
+	if (sml_buf_has_errors(buf))
 		goto error;
 
+	if (msg_body->tag == NULL) { // the tag is not optional
+		buf->error = 1;
+		goto error;
+	}
+
 	switch (*(msg_body->tag)) {
 	case SML_MESSAGE_OPEN_REQUEST:
 		msg_body->data = sml_open_request_parse(buf);
-- 
2.43.0


From b8232952978f843fbeb727374e37dbd3cc3baa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 07/20] fix: reject a SML_ProcParValue without tag

It was treated as a skipped one without consuming its value, so that the value
was read as the next field.
---
 sml/src/sml_tree.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index 2cc1a54..bcfa1a8 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -229,9 +229,14 @@ sml_proc_par_value *sml_proc_par_value_parse(sml_buffer *buf) {
 	}
 
 	ppv->tag = sml_u8_parse(buf);
-	if (sml_buf_has_errors(buf) || !(ppv->tag))
+	if (sml_buf_has_errors(buf))
 		goto error;
 
+	if (!(ppv->tag)) { // the tag is not optional
+		buf->error = 1;
+		goto error;
+	}
+
 	switch (*(ppv->tag)) {
 	case SML_PROC_PAR_VALUE_TAG_VALUE:
 		ppv->data.value = sml_value_parse(buf);
-- 
2.43.0


From 703a836d63c81086d48c6ed9af7980990642391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 08/20] fix: reject a SML_Time with an unexpected type of its
 value

It was treated as a skipped one without consuming its value, so that the value
was read as the next field.
---
 sml/src/sml_time.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index 6e7beba..1b9012c 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -107,6 +107,7 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 			sml_number_free(t3);
 		break;
 	default:
+		buf->error = 1;
 		goto error;
 	}
 
-- 
2.43.0


From 6405b8345af6bfcfc489c882e670ef1bd3d0d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 09/20] fix: reject numbers with more than 8 bytes as value and
 status

Their size does not fit into the type of the value, which was reported as a
signed number of unknown size, whatever it was.
---
 sml/src/sml_status.c | 5 +++++
 sml/src/sml_value.c  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sml/src/sml_status.c b/sml/src/sml_status.c
index 11939da..a38fc09 100644
--- a/sml/src/sml_status.c
+++ b/sml/src/sml_status.c
@@ -43,6 +43,11 @@ sml_status *sml_status_parse(sml_buffer *buf) {
 			max <<= 1;
 		}
 
+		if (max > (int)SML_TYPE_NUMBER_64) { // there are no numbers with more than 8 bytes
+			buf->error = 1;
+			break;
+		}
+
 		status->data.status8 = sml_number_parse(buf, type, max);
 		status->type |= max;
 		break;
diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index fab9d0e..8f14f5d 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -46,6 +46,11 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 			max <<= 1;
 		}
 
+		if (max > (int)SML_TYPE_NUMBER_64) { // there are no numbers with more than 8 bytes
+			buf->error = 1;
+			break;
+		}
+
 		value->data.uint8 = sml_number_parse(buf, type, max);
 		value->type |= max;
 		break;
-- 
2.43.0


From bc4235f26fd66f9dc7e0dcb6533733d3eae4eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 10/20] fix: do not take the sign of an empty number from the
 following field

---
 sml/src/sml_number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index fa71f6a..d1148f5 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -107,7 +107,7 @@ void *sml_number_parse(sml_buffer *buf, unsigned char type, int max_size) {
 	}
 
 	b = sml_buf_get_current_byte(buf);
-	if (type == SML_TYPE_INTEGER && (b & 128)) {
+	if (type == SML_TYPE_INTEGER && l > 0 && (b & 128)) {
 		negative_int = 1;
 	}
 
-- 
2.43.0


From ac3383b791e97fbbfb99c3ecdf8f8ef015eaf67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 11/20] fix: apply the DZG workaround to integers only

Octet strings and booleans got the type of a number, although their data
remained as it was: reading them got it wrong, and freeing them leaked memory.
---
 sml/src/sml_list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_list.c b/sml/src/sml_list.c
index 3662d38..7400f7a 100644
--- a/sml/src/sml_list.c
+++ b/sml/src/sml_list.c
@@ -251,6 +251,7 @@ sml_list *sml_list_entry_parse(sml_buffer *buf, struct workarounds *workarounds)
 	} else if (workarounds->old_dzg_dvs74 && l->obj_name &&
 			   l->obj_name->len == sizeof(dzg_power_name) &&
 			   memcmp(l->obj_name->str, dzg_power_name, sizeof(dzg_power_name)) == 0 && l->value &&
+			   (l->value->type & SML_TYPE_FIELD) == SML_TYPE_INTEGER &&
 			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {
 		l->value->type &= ~SML_TYPE_FIELD;
 		l->value->type |= SML_TYPE_UNSIGNED;
-- 
2.43.0


From 72e37f207c83550ebef04c5b7d80c138b1fab9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 12/20] fix: do not crash when comparing with a hex string of
 odd length

---
 sml/src/sml_octet_string.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 8e25eab..e1d4578 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -134,6 +134,9 @@ int sml_octet_string_cmp(octet_string *s1, octet_string *s2) {
 
 int sml_octet_string_cmp_with_hex(octet_string *str, char *hex) {
 	octet_string *hstr = sml_octet_string_init_from_hex(hex);
+	if (hstr == NULL) { // not a hex string
+		return -1;
+	}
 	if (str->len != hstr->len) {
 		sml_octet_string_free(hstr);
 		return -1;
-- 
2.43.0


From 252c9245deeac88cf90dcd15466408613d45c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 13/20] fix: find the start sequence of a transmission after a
 stray escape byte

A 0x1b just before the start sequence, e.g. from noise or from a truncated
transmission, dropped the whole transmission.
---
 sml/src/sml_transport.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 47a7267..35dff93 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -79,6 +79,10 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 		if ((buf[len] == 0x1b && len < 4) || (buf[len] == 0x01 && len >= 4)) {
 			len++;
+		} else if (buf[len] == 0x1b) {
+			// one escape byte more than expected: the sequence might start later
+			buf[0] = 0x1b;
+			len = (len == 4) ? 4 : 1;
 		} else {
 			len = 0;
 		}
-- 
2.43.0


From 23ea9bf5526db8f3cf4ef5008ef6c94fe27e408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 14/20] fix: accept a transmission which fills the whole buffer

---
 sml/src/sml_transport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 35dff93..147c2df 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -89,7 +89,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	}
 
 	// found start sequence
-	while ((len + 8) < max_len) {
+	while ((len + 8) <= max_len) {
 		if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
 			return 0;
 		}
-- 
2.43.0


From 505797c77f4b089595bdd78d91756a9332c107e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 15/20] fix: do not overflow the number of messages of a file

The 32768th message made it negative, and the next access crashed.
---
 sml/include/sml/sml_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/include/sml/sml_file.h b/sml/include/sml/sml_file.h
index d864d40..b6cd76f 100644
--- a/sml/include/sml/sml_file.h
+++ b/sml/include/sml/sml_file.h
@@ -30,7 +30,7 @@ extern "C" {
 // a SML file consist of multiple SML messages
 typedef struct {
 	sml_message **messages;
-	short messages_len;
+	int messages_len;
 	sml_buffer *buf;
 } sml_file;
 
-- 
2.43.0


From 2b050254ae41f2b8d1e5d6f0136a929e5ee7a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 16/20] fix: close /dev/urandom after generating a transaction
 id

Every new message leaked a file descriptor.
---
 sml/src/sml_octet_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index e1d4578..38c0d64 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -113,6 +113,7 @@ octet_string *sml_octet_string_generate_uuid() {
 #ifdef __linux__
 	int fd = open("/dev/urandom", O_RDONLY);
 	read(fd, uuid, 16);
+	close(fd);
 #else
 	int i;
 	for (i = 0; i < 16; i++) {
-- 
2.43.0


From 4f63eedc733435f67d21428eecba16e809d4ce8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 17/20] fix: check the size of the passed buffer before using
 it

A size of 0 was used for an array.
---
 sml/src/sml_transport.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 147c2df..9a3162b 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -58,6 +58,12 @@ size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len) {
 
 size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
+	if (max_len < 8) {
+		// prevent buffer overflow
+		fprintf(stderr, "libsml: error: sml_transport_read(): passed buffer too small!\n");
+		return 0;
+	}
+
 	fd_set readfds;
 	FD_ZERO(&readfds);
 	FD_SET(fd, &readfds);
@@ -66,12 +72,6 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	memset(buf, 0, max_len);
 	unsigned int len = 0;
 
-	if (max_len < 8) {
-		// prevent buffer overflow
-		fprintf(stderr, "libsml: error: sml_transport_read(): passed buffer too small!\n");
-		return 0;
-	}
-
 	while (len < 8) {
 		if (sml_read(fd, &readfds, &(buf[len]), 1) == 0) {
 			return 0;
-- 
2.43.0


From 16ceaa2868a25246d3166da10348e80c7ad26880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 18/20] fix: parsing a deeply nested tree exhausted the stack

---
 sml/src/sml_tree.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index bcfa1a8..76c9cca 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -106,11 +106,19 @@ sml_tree *sml_tree_init() {
 	return tree;
 }
 
-sml_tree *sml_tree_parse(sml_buffer *buf) {
+// Trees that are nested deeper than this are rejected, parsing them could exhaust the stack.
+#define SML_TREE_MAX_DEPTH 1000
+
+static sml_tree *sml_tree_parse_nested(sml_buffer *buf, int depth) {
 	if (sml_buf_optional_is_skipped(buf)) {
 		return NULL;
 	}
 
+	if (depth > SML_TREE_MAX_DEPTH) {
+		buf->error = 1;
+		return NULL;
+	}
+
 	sml_tree *tree = sml_tree_init();
 
 	if (sml_buf_get_next_type(buf) != SML_TYPE_LIST) {
@@ -140,7 +148,7 @@ sml_tree *sml_tree_parse(sml_buffer *buf) {
 		sml_tree *c;
 		int elems;
 		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
-			c = sml_tree_parse(buf);
+			c = sml_tree_parse_nested(buf, depth + 1);
 			if (sml_buf_has_errors(buf)) {
 				if (c)
 					sml_tree_free(c);
@@ -159,6 +167,10 @@ error:
 	return NULL;
 }
 
+sml_tree *sml_tree_parse(sml_buffer *buf) {
+	return sml_tree_parse_nested(buf, 1);
+}
+
 void sml_tree_add_tree(sml_tree *base_tree, sml_tree *tree) {
 	base_tree->child_list_len++;
 	base_tree->child_list =
-- 
2.43.0


From e34af4865bb0e1076d2edac77b0107ca6037da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 19/20] fix: reading into a large buffer exhausted the stack

---
 sml/src/sml_transport.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 9a3162b..d192ae3 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -56,20 +56,12 @@ size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len) {
 	return tr;
 }
 
-size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
-
-	if (max_len < 8) {
-		// prevent buffer overflow
-		fprintf(stderr, "libsml: error: sml_transport_read(): passed buffer too small!\n");
-		return 0;
-	}
+static size_t sml_transport_read_frame(int fd, unsigned char *buf, size_t max_len) {
 
 	fd_set readfds;
 	FD_ZERO(&readfds);
 	FD_SET(fd, &readfds);
 
-	unsigned char buf[max_len];
-	memset(buf, 0, max_len);
 	unsigned int len = 0;
 
 	while (len < 8) {
@@ -104,7 +96,6 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 			if (buf[len] == 0x1a) {
 				// found end sequence
 				len += 4;
-				memcpy(buffer, &(buf[0]), len);
 				return len;
 			} else {
 				// don't read other escaped sequences yet
@@ -118,6 +109,26 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	return 0;
 }
 
+size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
+
+	if (max_len < 8) {
+		// prevent buffer overflow
+		fprintf(stderr, "libsml: error: sml_transport_read(): passed buffer too small!\n");
+		return 0;
+	}
+
+	// not on the stack, the passed buffer can be larger than that
+	unsigned char *buf = (unsigned char *)calloc(max_len, 1);
+	if (buf == NULL) {
+		return 0;
+	}
+
+	size_t len = sml_transport_read_frame(fd, buf, max_len);
+	memcpy(buffer, buf, len);
+	free(buf);
+	return len;
+}
+
 void sml_transport_listen(int fd, void (*sml_transport_receiver)(unsigned char *buffer,
 																 size_t buffer_len)) {
 	unsigned char buffer[MC_SML_BUFFER_LEN];
-- 
2.43.0


From 484717138159bc4e104e124974076f2742a16abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 20/20] fix: descriptors outside of the range of select were
 put into an fd_set

---
 sml/src/sml_transport.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index d192ae3..b2a25f2 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -117,6 +117,12 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 		return 0;
 	}
 
+	if (fd < 0 || fd >= FD_SETSIZE) {
+		// prevent an access outside of the fd_set
+		fprintf(stderr, "libsml: error: sml_transport_read(): invalid file descriptor!\n");
+		return 0;
+	}
+
 	// not on the stack, the passed buffer can be larger than that
 	unsigned char *buf = (unsigned char *)calloc(max_len, 1);
 	if (buf == NULL) {
-- 
2.43.0

