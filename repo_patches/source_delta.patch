From e9c0dccc9edcc26ce2e2baf8dc904b0b87c01eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 01/44] fix: cancel_event unlinks an event that is not at the
 head of the list

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 6d186ba..fdd455f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -122,7 +122,7 @@ cancel_event(struct _device *dev, _callback func)
            }
            /* Point previous event next to next */
            if (ptr_event->prev != NULL) {
-               ptr_event->next = ptr_event->next;
+               ptr_event->prev->next = ptr_event->next;
            } else {
                /* No previous, at head of list */
                event_head = ptr_event->next;
-- 
2.43.0


From 922030bf1b5ff69faf47283f74b4517412441f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 02/44] fix: advance takes an event off the list before running
 its callback

---
 src/event.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/event.c b/src/event.c
index fdd455f..ccc6d3b 100644
--- a/src/event.c
+++ b/src/event.c
@@ -150,15 +150,16 @@ advance()
     log_event("Advance event %d\n", ptr_event->time);
     ptr_event->time--;
     while (ptr_event != NULL && ptr_event->time == 0) {
-         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         /* Unlink the event before the callback can change the list */
          event_head = ptr_event->next;
-         free(ptr_event);
-         ptr_event = event_head;
-         if (ptr_event != NULL) {
-             ptr_event->prev = NULL;
+         if (event_head != NULL) {
+             event_head->prev = NULL;
          } else {
              event_tail = NULL;
          }
+         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         free(ptr_event);
+         ptr_event = event_head;
     }
 }
 
-- 
2.43.0


From bd9e996df7d1e0e31324850c86b4381b3afe0662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 03/44] fix: card text bytes above 0x7f are invalid, not an
 index before the table

---
 src/device/card.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 036d5cd..8ef8438 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -440,7 +440,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                     break;
                 default:
                     log_card_c("%c", c);
-                    temp = ascii_to_hol_029[(int)c];
+                    temp = (c & 0x80) ? 0xf000 : ascii_to_hol_029[(int)c];
                     if (temp & 0xf000)
                         temp = 0xfff;
                     (*image)[col++] = temp & 0xfff;
-- 
2.43.0


From 5e3c4791530ef8807c62f402b8688b4f240d4fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 04/44] fix: ascii_to_hol rejects codes above 0x7f instead of
 reading past the table

---
 src/device/card.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/device/card.c b/src/device/card.c
index 8ef8438..d07a462 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -261,6 +261,8 @@ hol_to_ascii(uint16_t hol)
 uint16_t
 ascii_to_hol(uint8_t ascii)
 {
+    if (ascii > 127)
+        return 0xf000;
     return ascii_to_hol_ebcdic[ascii];
 }
 
-- 
2.43.0


From 250fcc3304ee245224d2dbfc9de4748304ce61ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 05/44] fix: a short binary card consumes the rest of the deck

---
 src/device/card.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/card.c b/src/device/card.c
index d07a462..9df5aa1 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -468,6 +468,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         log_card( "bin\n");
         if (buf->len < 160) {
             (*image)[0] = 0xfff;
+            buf->size = buf->len;
             return;
         }
         /* Move data to buffer */
-- 
2.43.0


From c3818d8e1181cb4583c6ce35059f1d83272a94b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 06/44] fix: octal card punched only in column 1 starts with
 ~raw, not ~eoraw

---
 src/device/card.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 9df5aa1..89888f8 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -561,7 +561,8 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
                break;
         }
         /* Check if special card */
-        if (i == 0) {
+        if (i == 0 && ((*image)[0] == 07 || (*image)[0] == 015 ||
+                       (*image)[0] == 017)) {
             out[outp++] = 'e';
             out[outp++] = 'o';
             if ((*image)[0] == 07) {
-- 
2.43.0


From 3cad83d0898ca567e933cc2ec5a383f6deaf28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 07/44] fix: a short ~raw line ends at its newline and leaves
 the other columns blank

---
 src/device/card.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 89888f8..c5edd6a 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -403,8 +403,6 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 if (buf->buffer[i] >= '0' && buf->buffer[i] <= '7') {
                     (*image)[col] = ((*image)[col] << 3) | (buf->buffer[i] - '0');
                     j++;
-                } else if (buf->buffer[i] == '\n' || buf->buffer[i] == '\r') {
-                   (*image)[0] |= 0xfff;
                 } else {
                     break;
                 }
-- 
2.43.0


From 6201e1103c042085f7b93683c84c70fe7860c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 08/44] fix: empty_cards flushes the cards in the hopper, not
 the slot after them

---
 src/device/card.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index c5edd6a..505b82d 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -718,7 +718,7 @@ empty_cards(struct card_context *card_ctx)
     /* Flush any cards in hopper out to file */
     if (card_ctx->file != NULL) {
         while (card_ctx->hopper_pos < card_ctx->hopper_cards) {
-            _punch_card(card_ctx, &(*card_ctx->images)[card_ctx->hopper_cards]);
+            _punch_card(card_ctx, &(*card_ctx->images)[card_ctx->hopper_pos]);
         }
         fflush(card_ctx->file);
     }
-- 
2.43.0


From 493b229875f294e97b253cbd61b2c35981db8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:12 +0000
Subject: [PATCH 09/44] fix: Model 30 store into a protected block leaves no
 storage cycle open

---
 src/model2030/cpu2030.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 06e3cfa..7c17bfe 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1103,8 +1103,13 @@ cycle_2030()
            if (cpu_2030.dead_cycle == 0) {
                switch (sal->CM) {
                case 2:       /* Store */
-                       if (stg_prot_req)
+                       if (stg_prot_req) {
+                           /* Nothing was read out, so nothing is left to write back */
+                           cpu_2030.allow_write = 0;
+                           read_call = 0;
+                           inh_stg_prot = 0;
                            break;
+                       }
                        /* Fall through */
                case 0:       /* Write */
                       /* Do write to memory from this request */
-- 
2.43.0


From 56cd41a9fb061a5cc202d86990613e55d4f4b9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 10/44] fix: Model 50 ASCII mode translates only emitted signs
 and zones, not data digits

---
 src/model2050/cpu2050.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index d92a6af..f07602f 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4035,11 +4035,12 @@ cycle_2050()
                 break;
         case 12: /* W->MMB(E?)  */
                 if ((cpu_2050.AMWP & 0x8) != 0) {
-                    if ((cpu_2050.w_bus & 0xf) == 0xc)
+                    /* Only an emitted sign or zone is translated, never a data digit */
+                    if (sal->ur == 0 && (cpu_2050.w_bus & 0xf) == 0xc)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xa;
-                    if ((cpu_2050.w_bus & 0xf) == 0xd)
+                    if (sal->ur == 0 && (cpu_2050.w_bus & 0xf) == 0xd)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xb;
-                    if ((cpu_2050.w_bus & 0xf0) == 0xf0)
+                    if (sal->ul == 0 && (cpu_2050.w_bus & 0xf0) == 0xf0)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0x0f) | 0x50;
                 }
                 cpu_2050.M_REG &= ~(0xff << (8 * (3-cpu_2050.MB_REG)));
-- 
2.43.0


From 03c43fce47dcdd97ce28a49f062fbfdaf5b2b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 11/44] fix: Model 50 COMPARE DECIMAL checks the first digit of
 every word for validity

---
 src/model2050/ros.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/ros.txt b/src/model2050/ros.txt
index b9449c2..7c7fe5f 100644
--- a/src/model2050/ros.txt
+++ b/src/model2050/ros.txt
@@ -2835,7 +2835,7 @@ add   binary address   sheet  box  mode  binary bit pattern
 0e05  0 1110 0000 0101 qs202  e2   -     1 000 00 111000 0010 011 00011 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 0 0000 000 1  000 0001 000111 11000 0  000000
 0e06  0 1110 0000 0110 qs202  j2   -     1 000 00 111000 0010 011 00011 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 0 1010 000 1  000 0001 000111 11000 0  001010 00 000000
 0e07  0 1110 0000 0111 qs202  n2   -     1 000 00 111000 0010 011 00011 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0010 000 1  000 0001 000111 11000 0  001010 00 000000
-0e08  0 1110 0000 1000 qs202  e3   -     0 111 00 111000 0000 100 00000 0  001 010 0 000 00000 0001 10 0  1  1  111 01 01 1 0001 000 1  000 0001 011010 11001 0  010011 00 000000
+0e08  0 1110 0000 1000 qs202  e3   -     0 111 00 111000 0000 100 00000 0  001 010 0 011 00000 0001 10 0  1  1  111 01 01 1 0001 000 1  000 0001 011010 11001 0  010011 00 000000
 0e09  0 1110 0000 1001 qg900  e8   -     0 000 00 111010 1111 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 0 1000 000 1  000 0001 000001 00000 0  011010 00 000000
 0e0a  0 1110 0000 1010 qs202  a3   -     1 000 00 111000 1101 100 00110 0  010 000 1 000 00000 0000 10 0  0  0  010 01 01 0 0000 110 0  001 0001 000000 00000 0  010011 00 000000
 0e0b  0 1110 0000 1011 qs202  j3   -     0 000 00 111010 0010 100 00111 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 0 0000 000 1  000 0001 011000 00000 0  010011 00 000000
-- 
2.43.0


From 38b0ffd27ac667136f67cadf5d279ad1a3a0ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 12/44] fix: rewinding a tape leaves the end of tape

---
 src/device/tape.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index e51db5a..99df58e 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -993,6 +993,7 @@ tape_start_rewind(struct _tape_buffer *tape)
     tape->pos = 0;
     tape->pos_buff = 0;
     tape->len_buff = 0;
+    tape->format &= ~TAPE_EOT;
     return TAPE_STATUS_OK;
 }
 
-- 
2.43.0


From 68f76e5350d627a98560b72965769d3550c9e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 13/44] fix: a P7B record ends at the end of the tape file

---
 src/device/tape.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index 99df58e..0e529c4 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -770,8 +770,15 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_read_byte(tape, data);
+                       if (r == TAPE_STATUS_FILE_ERROR)
+                           return r;
+                       /* The last record ends with the tape */
+                       if (r != TAPE_STATUS_OK) {
+                           tape->lrecl = 2;
+                           return TAPE_STATUS_EOB;
+                       }
                        if (tape->lrecl == 1 && (*data & IRG_MASK) != 0) {
-                       r = tape_readbk_byte(tape, data);
+                           r = tape_readbk_byte(tape, data);
                            tape->lrecl = 2;
                            return TAPE_STATUS_EOB;
                        }
@@ -784,6 +791,13 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_readbk_byte(tape, data);
+                       if (r == TAPE_STATUS_FILE_ERROR)
+                           return r;
+                       /* The first record starts at load point */
+                       if (r != TAPE_STATUS_OK) {
+                           tape->lrecl = 2;
+                           return TAPE_STATUS_EOB;
+                       }
                        if ((*data & IRG_MASK) != 0) {
                            tape->lrecl = 2;
                        } else {
-- 
2.43.0


From bb13e0abf57f6da08cfb04d8f690f7ffae1dca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 14/44] fix: finishing a tape record stops at the end of the
 file or load point

---
 src/device/tape.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 0e529c4..767056b 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -867,6 +867,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* Make sure we are at end of record. */
                         while (tape->lrecl < tape->orecl) {
                              r = tape_read_frame(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                         }
                         /* If simH style tape, make sure even number of bytes per record */
                         if ((tape->format & TAPE_FMT) == TYPE_TAP && tape->orecl & 1) {
@@ -936,6 +938,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         while (tape->lrecl > 0) {
                              r = tape_read_frame(tape, &lrecl[0]);
                              log_tape(" Tape read bk lrecl=%d\n", tape->lrecl);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                         }
                         /* Read in 4 byte trailing record length logical record length */
                         for (i = 0; i < 4; i++) {
-- 
2.43.0


From 213242ecd61238697f27a71492275110f46652ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 15/44] fix: a P7B record written over a longer one ends where
 it was written

---
 src/device/tape.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 767056b..f81b799 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -964,6 +964,13 @@ tape_finish_rec(struct _tape_buffer *tape)
                    }
                    switch ((tape->format >> FUNC_V) & FUNC_M) {
                    case FUNC_WRITE:
+                        /* If written over a longer record, what is left of it
+                           is not part of this one */
+                        if (tape_peek_byte(tape, &lrecl[0]) == TAPE_STATUS_OK &&
+                            (lrecl[0] & IRG_MASK) == 0) {
+                            tape->buffer[tape->pos_buff] |= IRG_MASK;
+                            tape->dirty = 1;
+                        }
                         break;
                    case FUNC_MARK:
                    case FUNC_REW:
-- 
2.43.0


From 56841018ab460a59ecf4133516635f31231f5ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 16/44] fix: writing after reading up to the end of the tape
 buffer goes to the right place

---
 src/device/tape.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index f81b799..572585e 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -287,9 +287,9 @@ tape_write_byte(struct _tape_buffer *tape, uint8_t data)
                  log_error("Tape write failed %s %d\n", tape->file_name, r);
                  return TAPE_STATUS_FILE_ERROR;
              }
-             tape->pos += tape->len_buff;
              tape->dirty = 0;
          }
+         tape->pos += tape->len_buff;
          tape->len_buff = 0;
          tape->pos_buff = 0;
      }
-- 
2.43.0


From 1c02143fbb8b9996b483cbf47ac4a76d5d464a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 17/44] fix: a failed read of the tape file is a file error,
 not an index before the buffer

---
 src/device/tape.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index 572585e..0ccb477 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -209,7 +209,11 @@ tape_read_byte(struct _tape_buffer *tape, uint8_t *data)
          lseek(tape->fd, tape->pos, SEEK_SET);
          tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
          tape->pos_buff = 0;
-         if (tape->len_buff <= 0) {
+         if (tape->len_buff < 0) {
+             tape->len_buff = 0;
+             return TAPE_STATUS_FILE_ERROR;
+         }
+         if (tape->len_buff == 0) {
              tape->format |= TAPE_EOT;
              log_tape("Tape EOT\n");
              return TAPE_STATUS_EOT;
@@ -254,7 +258,11 @@ tape_peek_byte(struct _tape_buffer *tape, uint8_t *data)
          lseek(tape->fd, tape->pos, SEEK_SET);
          tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
          tape->pos_buff = 0;
-         if (tape->len_buff <= 0) {
+         if (tape->len_buff < 0) {
+             tape->len_buff = 0;
+             return TAPE_STATUS_FILE_ERROR;
+         }
+         if (tape->len_buff == 0) {
              log_tape("Tape EOT\n");
              return TAPE_STATUS_EOT;
          }
@@ -352,6 +360,13 @@ tape_readbk_byte(struct _tape_buffer *tape, uint8_t *data)
              } else {
                  tape->pos_buff = opos;
              }
+             /* Host file could not be read back to where we were */
+             if (tape->len_buff <= 0 || tape->pos_buff > tape->len_buff) {
+                 tape->pos += (opos == -1) ? sizeof(tape->buffer) : opos;
+                 tape->pos_buff = 0;
+                 tape->len_buff = 0;
+                 return TAPE_STATUS_FILE_ERROR;
+             }
          }
          tape->format &= ~TAPE_EOT;
      }
-- 
2.43.0


From 13324b8aab49a49ec095c10b7c0be78630cc5e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 18/44] fix: get_model does not free the option record of its
 caller

---
 src/conf.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 9449ad3..4858753 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -133,7 +133,6 @@ get_model(struct _option *opt)
             len++;
         } else {
             fprintf(stderr, "Invalid character in option\n");
-            free(opt);
             return 0;
         }
         line_ptr++;
-- 
2.43.0


From b95a8981021477bed0b2ea4084b8520e4f2e1055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 19/44] fix: the model letter of one configuration line does
 not carry over to the next

---
 src/conf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 4858753..b2f88e5 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -110,10 +110,13 @@ get_model(struct _option *opt)
     /* If comment or end of line, we got nothing */
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
         return 0;
+    opt->model = '\0';
+    opt->dash_num = 0;
+    opt->slash_num = 0;
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
+    while (len < 19 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
         /* Start of -#, save in temp1 */
         if (*line_ptr == '-' && (flags & 1) == 0) {
            flags |= 1;
-- 
2.43.0


From ad59037ad446259d431ae1939315cc32f202f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 20/44] fix: configuration words and strings stay within their
 buffers and line

---
 src/conf.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index b2f88e5..71d7c52 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -189,9 +189,10 @@ get_addr(struct _option *opt)
         return 0;
     p = &temp1[0];
     len = 0;
-    while (len < 20 && isxdigit(*line_ptr)) {
+    while (len < 19 && isxdigit(*line_ptr)) {
        *p = toupper(*line_ptr);
        p++;
+       len++;
        line_ptr++;
     }
     *p = '\0';
@@ -232,19 +233,19 @@ get_string(struct _option *opt)
         quote = 1;
         line_ptr++;
     }
-    while (len < 1024) {
+    while (len < 1023 && *line_ptr != '\0') {
        if (*line_ptr == '"' && quote) {
            line_ptr++;
            if (*line_ptr == '"') {
-               *p = '"';
+               *p++ = '"';
                line_ptr++;
                len++;
-           } else if (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0') {
+           } else {
                *p = '\0';
                return 1;
            }
        } else {
-           if (quote == 0 && (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0')) {
+           if (quote == 0 && (isspace(*line_ptr) || *line_ptr == ',')) {
                *p = '\0';
                return 1;
            }
@@ -277,7 +278,7 @@ get_option(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-')) {
+    while (len < 19 && (isalnum(*line_ptr) || *line_ptr == '-')) {
        *p = toupper(*line_ptr);
        p++;
        len++;
-- 
2.43.0


From 995a8f852f756faaf64c27813c7f5b0e2693ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 21/44] fix: configuration options may be separated by commas,
 and none is read for ever

---
 src/conf.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 71d7c52..632516e 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -269,8 +269,8 @@ get_option(struct _option *opt)
     opt->opt[0] = '\0';
     opt->string[0] = '\0';
     opt->flags = 0;
-    /* Skip leading space */
-    while(isspace(*line_ptr))
+    /* Skip leading space and separators */
+    while(isspace(*line_ptr) || *line_ptr == ',')
         line_ptr++;
     /* If comment or end of line, we got nothing */
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
@@ -284,6 +284,9 @@ get_option(struct _option *opt)
        len++;
        line_ptr++;
     }
+    /* Pass a character that can't start an option as an option */
+    if (len == 0 && *line_ptr != '=')
+       *p++ = *line_ptr++;
     *p = '\0';
     /* Check if we have equals sign */
     if (*line_ptr == '=') {
-- 
2.43.0


From 697947c3b60c8c851e7614c8c11af38a81e71d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 22/44] fix: Model 50 MULTIPLY DECIMAL checks the low digits of
 the multiplicand for validity

---
 src/model2050/ros.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/ros.txt b/src/model2050/ros.txt
index 7c7fe5f..8982ba3 100644
--- a/src/model2050/ros.txt
+++ b/src/model2050/ros.txt
@@ -2723,7 +2723,7 @@ add   binary address   sheet  box  mode  binary bit pattern
 0d51  0 1101 0101 0001 qs402  a9   -     0 000 00 110100 1101 100 00000 0  001 010 0 000 00000 0000 10 0  0  0  000 01 01 0 1000 000 1  000 0001 000000 00000 0  001010
 0d52  0 1101 0101 0010 qs402  s2   -     1 000 00 110100 0011 100 00000 0  011 110 0 000 00000 0000 10 0  0  0  000 01 01 0 0010 000 1  000 0001 010110 10110 0  000000
 0d53  0 1101 0101 0011 qs402  n2   -     0 000 00 110100 0100 100 00000 0  011 110 0 000 00000 0000 10 0  0  0  000 01 01 1 1010 000 1  000 0001 010110 10110 0  000000
-0d54  0 1101 0101 0100 qs402  s7   -     0 111 00 110101 0100 100 00111 0  011 100 0 000 00000 1101 10 0  0  0  000 11 01 0 0110 000 1  010 0001 000001 00111 0  000000
+0d54  0 1101 0101 0100 qs402  s7   -     0 111 00 110101 0100 100 00111 0  011 100 0 011 00000 1101 10 0  0  0  000 11 01 0 0110 000 1  010 0001 000001 00111 0  000000
 0d55  0 1101 0101 0101 qs402  n1   -     1 111 00 110101 0100 100 00000 0  011 010 1 001 00000 1101 10 0  0  0  000 11 01 1 0011 000 1  000 0001 000001 00111 0  000000
 0d56  0 1101 0101 0110 qs404  n1   -     0 000 00 110110 1001 100 00000 0  011 110 0 000 00000 0000 10 0  0  0  000 01 01 0 0001 000 1  000 0001 000001 00001 0  000000
 0d57  0 1101 0101 0111 qs404  n7   -     1 000 00 110110 1010 100 00000 0  011 010 0 000 00000 0000 10 0  0  0  000 01 01 1 1011 000 1  000 0001 000001 00000 0  000000
-- 
2.43.0


From ed74715ad2a4b7d17ce851f50df4a6f2b5af810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:04 +0000
Subject: [PATCH 23/44] fix: Model 50 EXECUTE recognises a zero base field in
 its subject instruction

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index f07602f..2cb1859 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3301,7 +3301,7 @@ cycle_2050()
             s_update &= ~(BIT0|BIT1);     /* <-- */
             if ((cpu_2050.aob_latch & 0x000f0000) == 0)
                 s_update |= BIT0;     /* <-- */
-            if ((cpu_2050.aob_latch & 0xf0000000) == 0)
+            if ((cpu_2050.aob_latch & 0x0000f000) == 0)
                 s_update |= BIT1;     /* <-- */
             if ((cpu_2050.aob_latch >> 28) <= 3) {
                 cpu_2050.SYLS1 = 1;
-- 
2.43.0


From e95c0b603957c405b66ba52243052cf93cc0158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 24/44] fix: Model 50 floating-point result sign follows the
 sign of the larger operand

---
 src/model2050/cpu2050.c | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 2cb1859..875720a 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3426,17 +3426,7 @@ cycle_2050()
                       But not both. (Add type result minus)
                    If S0 and S1 == 0 and left adder input bit 0 != right adder input
                      bit 0 */
-            if ((s_update & (BIT0|BIT1)) != 0 && t1 && t) {
-                s_update |= BIT4;     /* <-- */
-            }
-
-            if (((s_update & (BIT0)) != 0 && t1 == 0 && t2 == 0 && carry_out) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 == 0 && t2 != 0 && !t && carry_out) ||     /* <-- */
-                ((s_update & (BIT1)) != 0 && t1 == 0 && t2 != 0 && t && carry_out) ||     /* <-- */
-                ((s_update & (BIT0|BIT1)) != 0 && t1 != 0 && t2 == 0 && !t) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 != 0 && t2 == 0 && t && carry_out) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 != 0 && t2 != 0 && !carry_out) ||     /* <-- */
-                ((s_update & (BIT1)) != 0 && t1 != 0 && t2 != 0) ||     /* <-- */
+            if (((s_update & (BIT0|BIT1)) != 0 && (carry_out ? (!t2) ^ ((s_update & BIT1) != 0) : t1)) ||
                 ((s_update & (BIT0|BIT1|BIT3)) == 0 && t1 != t2) ||     /* <-- */
                 ((s_update & (BIT0|BIT1|BIT3)) == BIT3 && t1 == t2))     /* <-- */
                 s_update |= BIT4;     /* <-- */
-- 
2.43.0


From e4e5f45e31259fdf9b9df5833cbff136029c7bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 25/44] fix: Model 50 exponent difference test for less than 16
 takes the carry into account

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 875720a..b30e330 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3404,7 +3404,7 @@ cycle_2050()
                 s_update |= BIT7;
             /* Stat 6 turned on:
                    If abs(ED) < 16. */
-            if ((t & 0x70) == 0 || (t & 0x70) == 0x70) {
+            if ((t & 0x70) == (t1 != 0 ? 0 : 0x70)) {
                 s_update |= BIT6;
             }
             t = (carries & CPOS0) != 0;
-- 
2.43.0


From a269bc6166cddf2c9dce4b89cc99043f018e26bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 26/44] fix: Model 50 unnormalized add tests for a zero result
 before reporting lost significance

---
 src/model2050/ros.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/ros.txt b/src/model2050/ros.txt
index 8982ba3..46ad914 100644
--- a/src/model2050/ros.txt
+++ b/src/model2050/ros.txt
@@ -53,7 +53,7 @@ add   binary address   sheet  box  mode  binary bit pattern
 0020 0 0000 0010 0000  qv104  j1   io    0 000 00 101001 0100 100 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 000001 00001 0  000000
 0021 0 0000 0010 0001  qv540  j3   io    1 100 10 000000 1010 100 00000 0  0  00 111 1 000 00000 000 0  101 00 011 11 11 1 1000 000 1  000 000 0 000001 00001 0  000000
                                          p lu  mv zp     zf   zn  tr    zr ws  sf  p iv  al    wm   up md lb mb dg  ul ur p ce   lx  tc ry  ad   ab     bb    ux ss       92--97
-0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000001 00001 0  000000 00 0000000
+0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000010 00001 0  000000 00 0000000
                                          p lu  mv zp     zf   zn  tr    zr cs sa sf  p ct  al    wl  hc ms  cg mg  ul ur p ce   lx  tc ry  cl    ab     bb    ux ss       92--97
 0023 0 0000 0010 0011  qv110  g2   io    0 001 00 000000 1111 100 00000 0  0  00 111 0 011 00000 000 0  001 11 011 00 00 1 0000 001 1  000 000 0 000000 00000 0  000000
 0024 0 0000 0010 0100  qv105  j1   io    1 000 00 101000 0100 111 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 011100 11010 0  000000
-- 
2.43.0


From 282f9032179d1d063bfdfeddb18a0b1f5c35d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 27/44] fix: Model 30 selector channel reports incorrect length
 on short output

---
 src/model2030/cpu2030.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 7c17bfe..4884be0 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -242,6 +242,17 @@ static char  dis_buffer[1024];
 
 DEV_LIST_STRUCT(2030, CPU_TYPE, CHAR_OPT|NUM_MOD);
 
+/* Device ended before all the bytes of the CCW were transferred. On output the
+ * data register is filled ahead of the device, so a byte that is still there
+ * was not transferred. */
+static int
+sel_length_short(int i)
+{
+    if ((cpu_2030.GG[i] & 1) != 0)
+        return sel_cnt_rdy_not_zero[i] || sel_gr_full[i];
+    return sel_cnt_rdy_not_zero[i] && sel_gr_full[i] == 0;
+}
+
 void
 cycle_2030()
 {
@@ -2676,8 +2687,7 @@ chan_scan:
              } else if (((cpu_2030.SEL_TI[i] & (CHAN_STA_IN|CHAN_SRV_OUT)) == (CHAN_STA_IN)) &&
                    sel_poll_ctrl[i] && (cpu_2030.GF[i] & (BIT0|BIT1)) == (0)) {
                  /* Check if length incomplete */
-                 if (sel_cnt_rdy_not_zero[i] &&
-                      sel_gr_full[i] == 0 && (cpu_2030.GF[i] & BIT2) == 0) {
+                 if (sel_length_short(i) && (cpu_2030.GF[i] & BIT2) == 0) {
                       cpu_2030.GE[i] |= BIT1;
                  }
 
@@ -2753,7 +2763,7 @@ chan_scan:
                    }
                    if ((cpu_2030.GF[i] & (BIT1)) == (0)) {
                         /* Check if length incomplete */
-                        if (sel_cnt_rdy_not_zero[i] && sel_gr_full[i] == 0 && (cpu_2030.GF[i] & BIT2) == 0) {
+                        if (sel_length_short(i) && (cpu_2030.GF[i] & BIT2) == 0) {
                              cpu_2030.GE[i] |= BIT1;
                         }
                         sel_ros_req |= 1 << i;
-- 
2.43.0


From 4a99fc1f477db1f9fec0957b298b9b2c9f70ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:36 +0000
Subject: [PATCH 28/44] fix: Model 30 selector channel accepts a block that
 ends with the last byte of storage

---
 src/model2030/cpu2030.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 4884be0..ba9406b 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -830,7 +830,8 @@ cycle_2030()
                cpu_2030.GHY = (cpu_2030.GC[i] & 0xff);
                if (cpu_2030.GHZ == 0x00)
                    cpu_2030.GHY++;
-               if (cpu_2030.GHY & 0x100) {
+               /* Only an error if there is another byte to transfer */
+               if ((cpu_2030.GHY & 0x100) != 0 && sel_cnt_rdy_not_zero[i]) {
                    cpu_2030.GE[i] |= BIT2;
                    log_trace("Set prog check\n");
                }
-- 
2.43.0


From 57032bffa4f01eadb5cd6cfcf11fc0f575f74d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:36 +0000
Subject: [PATCH 29/44] fix: Model 30 selector channel steps the address back
 for every read backward command

---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index ba9406b..13bbe93 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -819,7 +819,7 @@ cycle_2030()
            sel_read_cycle[i] = 0;
        } else if (sel_write_cycle[i]) {
            /* If moving backwards, address - 1 */
-           if (cpu_2030.GG[cpu_2030.ch_sel] == 0x10c) {
+           if ((cpu_2030.GG[i] & 0xf) == 0xc) {
                cpu_2030.GHZ = (cpu_2030.GD[i] - 1) & 0xff;
                cpu_2030.GHY = (cpu_2030.GC[i] & 0xff);
                if (cpu_2030.GHZ == 0xff)
-- 
2.43.0


From 1b8f2a88ac79b0f2699f03e97f35cbf63d893393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:36 +0000
Subject: [PATCH 30/44] fix: Model 30 selector channel does not chain after
 unusual ending status

---
 src/model2030/cpu2030.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 13bbe93..a63fba3 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2673,7 +2673,7 @@ chan_scan:
                  }
 
                  /* If there are errors, set interrupt */
-                 if ((cpu_2030.GI[i] & 0xf3) != 0) {
+                 if ((cpu_2030.GI[i] & 0xb3) != 0) {
                      sel_ros_req |= 1 << i;
                  }
 
@@ -2753,7 +2753,10 @@ chan_scan:
                  cpu_2030.SEL_TI[i] == (CHAN_OPR_OUT|CHAN_HLD_OUT|CHAN_OPR_IN|CHAN_STA_IN|CHAN_SUP_OUT))) {
                   /* Command chaining */
                    if ((cpu_2030.GF[i] & (BIT1)) != (0)) {
-                        if ((cpu_2030.GI[i] & SNS_DEVEND) != 0) {
+                        if ((cpu_2030.GI[i] & 0xb3) != 0) {
+                             sel_ros_req |= 1 << i;
+                             log_selchn("Status error interrupt\n");
+                        } else if ((cpu_2030.GI[i] & SNS_DEVEND) != 0) {
                              sel_chain_req[i] = 1;
                              sel_ros_req |= 1 << i;
                              log_selchn("Status chain interrupt\n");
-- 
2.43.0


From 106cffb5f4ac40e1e568a235f219d7a9683ab588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:57 +0000
Subject: [PATCH 31/44] fix: Model 30 selector channel address carry indexes
 past the parity table

---
 src/model2030/cpu2030.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index a63fba3..0999656 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -805,7 +805,7 @@ cycle_2030()
            cpu_2030.GC[i] = cpu_2030.GU[i];
            cpu_2030.GD[i] = cpu_2030.GV[i];
            cpu_2030.GV[i] = cpu_2030.GHZ | odd_parity[cpu_2030.GHZ];
-           cpu_2030.GU[i] = cpu_2030.GHY | odd_parity[cpu_2030.GHY];
+           cpu_2030.GU[i] = (cpu_2030.GHY & 0xff) | odd_parity[cpu_2030.GHY & 0xff];
            /* If output and GR empty */
            if (sel_cnt_rdy_zero[i] == 0 && (cpu_2030.GG[i] & 1) == 1 && sel_gr_full[i] == 0) {
                cpu_2030.GR[i] = M[cpu_2030.MN_REG];
@@ -840,7 +840,7 @@ cycle_2030()
            cpu_2030.GC[i] = cpu_2030.GU[i];
            cpu_2030.GD[i] = cpu_2030.GV[i];
            cpu_2030.GV[i] = cpu_2030.GHZ| odd_parity[cpu_2030.GHZ];
-           cpu_2030.GU[i] = cpu_2030.GHY| odd_parity[cpu_2030.GHY];
+           cpu_2030.GU[i] = (cpu_2030.GHY & 0xff) | odd_parity[cpu_2030.GHY & 0xff];
            sel_write_cycle[i] = 0;
 
            /* Check if input */
-- 
2.43.0


From 8822c8605c0d6bdd3dce003713595538865cba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 32/44] fix: device table has no room for channels 6 and 7

---
 src/device/device.c | 2 +-
 src/device/device.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/device/device.c b/src/device/device.c
index 0d6f7d7..c96e648 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -41,7 +41,7 @@ static char *state_tags[] = {
 
 
 struct _disk *disk = NULL;       /* Disk controllers */
-struct _device *chan[6];         /* Channels */
+struct _device *chan[8];         /* Channels */
 uint32_t      *M;
 uint32_t      mem_max;
 
diff --git a/src/device/device.h b/src/device/device.h
index 6d2abac..ca616e0 100644
--- a/src/device/device.h
+++ b/src/device/device.h
@@ -162,7 +162,7 @@ struct _control {
     unsigned int    magic;
 };
 
-extern device_t       *chan[6];         /* Channels */
+extern device_t       *chan[8];         /* Channels */
 extern struct _disk   *disk;            /* Disk controller that need to be run */
 
 void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out);
-- 
2.43.0


From 5e562ef03092c6cc6ec2cadb4023565c144d7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 33/44] fix: heads 16 to 19 of a 2314 cannot be selected

---
 src/device/dasd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index d75a1d0..a4d7e00 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -384,7 +384,7 @@ dasd_settags(struct _dasd_t *dasd, uint8_t ft, uint8_t fc)
     if (ft & BIT2) {    /* Set Head and sign */
         if (dasd->type == 3) {    /* 2314 */
             dasd->dir = (fc & BIT0) != 0;
-            dasd->head = (fc & 0xf);
+            dasd->head = (fc & 0x1f);
         } else {                  /* 2311 */
             if ((dasd->flags & 2) == 0) {
                dasd->head = (fc & 0xf);
-- 
2.43.0


From b1e5ff56653fcb2ebf2fd657bf121a26d077704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 34/44] fix: check bytes of keys and data of odd length are
 swapped

---
 src/device/dasd.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index a4d7e00..bb8e365 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1108,10 +1108,10 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
          } else {
            switch (count - dasd->klen) {
            case 0:
-                  *data = dasd->ck_sum[0];
+                  *data = dasd->ck_sum[count & 1];
                   break;
            case 1:
-                  *data = dasd->ck_sum[1];
+                  *data = dasd->ck_sum[count & 1];
                   if (disk_type[type].dev_type != 0x14) {
                       dasd->state = DK_POS_GAP3;
                       dasd->count = 0;
@@ -1161,10 +1161,10 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
          } else {
            switch (count - dasd->dlen) {
            case 0:
-                  *data = dasd->ck_sum[0];
+                  *data = dasd->ck_sum[count & 1];
                   break;
            case 1:
-                  *data = dasd->ck_sum[1];
+                  *data = dasd->ck_sum[count & 1];
                   dasd->rpos = dasd->tpos;
                   if (disk_type[type].dev_type != 0x14) {
                       dasd->state = DK_POS_AM;
-- 
2.43.0


From c339d5d4cea0b78256e66825dc6b110d7986086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 35/44] fix: writing to a disk depends on an uninitialized
 address mark flag

---
 src/model2841/model2841.c | 3 ++-
 src/model2844/model2844.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model2841/model2841.c b/src/model2841/model2841.c
index 8f37963..dd53008 100644
--- a/src/model2841/model2841.c
+++ b/src/model2841/model2841.c
@@ -105,7 +105,8 @@ step_2841(void *data)
         if (ctx->disk[i] == NULL)
             continue;
         if ((ctx->UR_REG & (0x80 >> i)) != 0 && (ctx->FT & 0x81) == 0x81 && (ctx->FC & 0x04) != 0) {
-            uint8_t   data, am;
+            uint8_t   data;
+            uint8_t   am = 0;
             ix = 0;
             data = 0;
             if ((ctx->FC & 0x40) != 0) {
diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 3d402ec..c7d35c7 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -130,7 +130,8 @@ step_2844(void *data)
         if (ctx->disk[i] == NULL)
             continue;
         if ((ctx->UR_REG & 0xf) == i && (ctx->FT & 0x81) == 0x81 && (ctx->FC & 0x04) != 0) {
-            uint8_t   data, am;
+            uint8_t   data;
+            uint8_t   am = 0;
             ix = 0;
             if ((ctx->FC & 0x40) != 0) {
                 if (dasd_read_byte(ctx->disk[i], &data, &am, &ix)) {
-- 
2.43.0


From 9f99a1a43bf095a980a8294d41c84098b7c6ed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 36/44] fix: writing the data of a record without key
 overwrites record zero

---
 src/device/dasd.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index bb8e365..9bb0dda 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1544,17 +1544,6 @@ log_disk("Sync 2\n");
          if (*data == 0xff) {
              dasd->count--;
          }
-         if (dasd->count >= disk_type[type].g2) {
-log_disk("Overrun\n");
-             dasd->tpos = dasd->rpos = 5;
-             rec = &dasd->cbuf[dasd->rpos + dasd->tstart];
-             dasd->count = 0;
-             dasd->state = DK_POS_END;
-             dasd->ck_sum[0] = 0xff;
-             dasd->ck_sum[1] = 0xff;
-             for (i = 0; i < 8; i++)
-                  rec[i] = 0xff;
-         }
          if (disk_type[type].dev_type != 0x14) {
              if (*data == 0xe /*&& dasd->count >= disk_type[type].g1*/) {
 log_disk("Sync 3\n");
@@ -1576,6 +1565,17 @@ log_disk("Sync 3\n");
                  log_disk("GAP3 sync\n");
                }
          }
+         if (dasd->count >= disk_type[type].g2) {
+log_disk("Overrun\n");
+             dasd->tpos = dasd->rpos = 5;
+             rec = &dasd->cbuf[dasd->rpos + dasd->tstart];
+             dasd->count = 0;
+             dasd->state = DK_POS_END;
+             dasd->ck_sum[0] = 0xff;
+             dasd->ck_sum[1] = 0xff;
+             for (i = 0; i < 8; i++)
+                  rec[i] = 0xff;
+         }
 #if 0
          if (*data == 0xcc) {
              dasd->count = 0;
-- 
2.43.0


From 5852db2800c6952a23d1a1c3df86fcc130be0fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:56 +0000
Subject: [PATCH 37/44] fix: devices index the parity table with the parity bit
 of the data received

---
 src/model1052/model1052.c | 2 +-
 src/model1442/model1442.c | 2 +-
 src/model2415/model2415.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index b71378f..221a553 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -671,7 +671,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out;
+                          ctx->data = bus_out & 0xff;
                           add_event(unit, &send_callback, 5000, NULL, 0);
                       }
                  }
diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index b0cc740..495826b 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -724,7 +724,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out; /* Grab data */
+                          ctx->data = bus_out & 0xff; /* Grab data */
                       }
                  }
                  ctx->state = STATE_OPR;   /* Go to process this data */
diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 5f2ff55..e336a1e 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1316,7 +1316,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out; /* Grab data */
+                          ctx->data = bus_out & 0xff; /* Grab data */
                       }
                  }
                  ctx->state = STATE_OPR;   /* Go to process this data */
-- 
2.43.0


From cae2d60eba67a7b5bd28d97e7b4ad14dbf11c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 38/44] fix: 1442 stops the punch when a byte from the channel
 has bad parity

---
 src/model1442/model1442.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 495826b..c8f785a 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -717,6 +717,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((ctx->cmd & 1) != 0) { /* Write command */
                       /* Device selected */
                       if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
+                          cancel_event(unit, &write_callback);
                           ctx->sense |= SENSE_BUSCHK;
                           ctx->status |= (SNS_UNITCHK);
                           ctx->data_end = 1;
-- 
2.43.0


From 9c880952508470d9e52899d4a06179f33a2f6c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 39/44] fix: 1443 spacing past the end of the page, skips and
 long lines

---
 src/model1443/model1443.c | 44 +++++++++++++--------------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 3096da5..825b54a 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -981,7 +981,7 @@ print_line(struct _1443_context *ctx)
     if (l < 4) {
         while(l != 0) {
             fwrite("\r\n", 1, 2, ctx->file);
-            memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+            memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
             memset(&ctx->output[14][0], 0, 120);
             r++;
             f = 0;
@@ -993,18 +993,12 @@ print_line(struct _1443_context *ctx)
                 ch12 = 1;
             }
             ctx->row++;
-            if (ctx->row > ctx->lpp)
-                break;
+            if (ctx->row >= ctx->lpp) {
+                fwrite("\f", 1, 1, ctx->file);
+                ctx->row = 0;
+            }
             l--;
         }
-        if (ctx->row > ctx->lpp) {
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-           memset(&ctx->output[14][0], 0, 120);
-           if (f)
-               fwrite("\r\n", 1, 2, ctx->file);
-           fwrite("\f", 1, 1, ctx->file);
-           ctx->row = 0;
-        }
         if (ch9 && (ctx->cmd & 0x3) == 0x1) {
            ctx->sense |= SENSE_CHAN9;
         }
@@ -1017,38 +1011,30 @@ print_line(struct _1443_context *ctx)
     }
 
     mask = 0x1000 >> (l & 0xf);  /* Mask which channel to stop at */
-    f = 0;     /* Indicate if we started new form */
     l = 0;     /* Total lines skipped */
-    r = 0;     /* What row we should be on */
-    for (i = ctx->row + 1; (ctx->fcb[i] & mask) == 0 && ctx->row != i; i++) {
+    r = 0;     /* Lines to skip on this form */
+    i = ctx->row;
+    do {
+         i++;
          l++;
          r++;
-         if (i > ctx->lpp) {
+         if (i >= ctx->lpp) {
              log_device("printer skip2 %d > %d\n", i, ctx->lpp);
              fwrite("\r\n\f", 1, 3, ctx->file);
-             memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+             memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
              memset(&ctx->output[14][0], 0, 120);
-             f = 1;
+             ctx->row = 0;
+             i = 0;
              r = 0;
          }
-    }
-
-    /* If we passed over form, clear row */
-    if (f) {
-       ctx->row = 0;
-    }
+    } while ((ctx->fcb[i] & mask) == 0 && l < ctx->lpp);
 
     if (ctx->fcb[i] & mask) {
         while (r-- > 0) {
            fwrite("\r\n", 1, 2, ctx->file);
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+           memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
            memset(&ctx->output[14][0], 0, 120);
            ctx->row++;
-           if (ctx->row > ctx->lpp) {
-               log_device("printer skip %d > %d\n", ctx->row, ctx->lpp);
-               fwrite("\f", 1, 1, ctx->file);
-               ctx->row = 0;
-           }
         }
     }
     time += 20 + (5 * l);
-- 
2.43.0


From d2a60006466d4f2d5dcbb506a348b2a92ebc795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 40/44] fix: print_tags reads past its table for states without
 a name

---
 src/device/device.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/device/device.c b/src/device/device.c
index c96e648..285f78b 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -57,7 +57,8 @@ print_tags(char *name, int state, uint16_t tags, uint16_t bus_out)
         int i;
 
         sprintf(buffer, "%s state=%s Tags: bus=%03x %04x ", name,
-                         state_tags[state], bus_out, tags);
+                         (state >= 0 && state < (int)(sizeof(state_tags)/sizeof(char *))) ?
+                              state_tags[state] : "", bus_out, tags);
         for (i = 0; i < 16; i++) {
             if (bus_tags[i] != NULL) {
               if ((tags & (0x8000 >> i)) != 0) {
-- 
2.43.0


From d92eda8d65af0ffbd67105bdee749cb31fd5c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 41/44] fix: 1443 does not start a command that came with bad
 parity

---
 src/model1443/model1443.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 825b54a..0cd45d4 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -263,6 +263,13 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                      ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
                      break;
                  }
+                 /* Don't start a command that came with bad parity */
+                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
+                     ctx->cmd = 0;
+                     ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
+                     ctx->sense |= SENSE_BUSCHK;
+                     break;
+                 }
                  switch (ctx->cmd & 07) {
                  case 0: /* Test I/O */
                         break;
@@ -330,11 +337,6 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         ctx->sense = SENSE_CMDREJ;     /* Invalid command */
                         break;
                  }
-                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
-                     ctx->cmd = 0;
-                     ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                     ctx->sense |= SENSE_BUSCHK;
-                 }
              }
              break;
 
-- 
2.43.0


From 92d14ef6003e29ba7fdf2752d3f80bfcfbfd1843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 42/44] fix: 1052 sense command ends

---
 src/model1052/model1052.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 221a553..16ef87c 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -237,7 +237,6 @@ invalid:
     case 0x4:  /* Sense */
            ctx->data = ctx->sense;
            ctx->data_rdy = 1;
-           ctx->data_end = 1;
            ctx->busy = 1;
            log_device("console Sense %02x\n", ctx->sense);
            break;
@@ -608,6 +607,12 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  break;
              }
 
+             /* Sense is over when the byte was sent */
+             if (ctx->cmd == 0x4) {
+                 ctx->data_end = 1;
+                 ctx->cmd_done = 1;
+             }
+
              /* If data end, tell CPU */
              if (ctx->data_end || ctx->cmd_done) {
                  ctx->status |= SNS_CHNEND|SNS_DEVEND;
-- 
2.43.0


From 806d1ac3e4a5006a3d9258f89b91c7a520b469a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 43/44] fix: 1052 drops what was typed beyond the count of a
 read

---
 src/model1052/model1052.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 16ef87c..49adf06 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -628,7 +628,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         break;
 
                  case 0xa: /* Read */
-                        model1052_func(ctx, &out_tags, BIT1|BIT3, NULL);
+                        model1052_func(ctx, &out_tags, BIT7, NULL);
                         break;
                  }
                  ctx->state = STATE_END_STATUS;
-- 
2.43.0


From 925c8a279593baea2591c7e0bd4ff479a6339999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 44/44] fix: 1052 input of characters with the high bit set

---
 src/model1052/model1052.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 49adf06..1c2e524 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -786,7 +786,7 @@ model1052_in(void *data, uint16_t *in_char)
    char   ch;
    if (ctx->in_flg && ctx->in_len > 0) {
        ch = ctx->key_buf[ctx->out_ptr++];
-       *in_char = ascii_to_ebcdic[(ch & 0xff)];
+       *in_char = ascii_to_ebcdic[(ch & 0x7f)];
        *in_char |= odd_parity[*in_char];
        log_console("Recieve %02x\n", ch);
        ctx->out_ptr &= 0xff;
-- 
2.43.0

