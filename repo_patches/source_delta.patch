From 552b24ce08dca87c0d815fcac1652ce2cac0ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 001/101] fix: bit reader loses high-order bits of fields wider
 than 24 bits

---
 decoder/ia_core_coder_bitbuffer.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/decoder/ia_core_coder_bitbuffer.c b/decoder/ia_core_coder_bitbuffer.c
index 6e95ce5..d108ca9 100644
--- a/decoder/ia_core_coder_bitbuffer.c
+++ b/decoder/ia_core_coder_bitbuffer.c
@@ -101,7 +101,7 @@ WORD32 ia_core_coder_skip_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
  */
 WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of_bits)
 {
-  UWORD32 return_val;
+  UWORD64 return_val;
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
 
@@ -116,14 +116,14 @@ WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
             IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES);
   }
   bit_position -= num_of_bits;
-  return_val = (UWORD32)*ptr_read_next;
+  return_val = (UWORD64)*ptr_read_next;
 
   while (bit_position < -1)
   {
     ptr_read_next++;
     return_val <<= 8;
 
-    return_val |= (UWORD32)*ptr_read_next;
+    return_val |= (UWORD64)*ptr_read_next;
     bit_position += 8;
   }
 
@@ -134,9 +134,9 @@ WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
     bit_position += 8;
   }
 
-  return_val = return_val << ((31 - num_of_bits) - bit_position) >> (32 - num_of_bits);
+  return_val = (return_val >> (bit_position + 1)) & (((UWORD64)1 << num_of_bits) - 1);
 
-  return return_val;
+  return (WORD32)(UWORD32)return_val;
 }
 
 /**
@@ -154,7 +154,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
 {
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
-  UWORD32 return_val;
+  UWORD64 return_val;
 
   if (num_of_bits == 0)
   {
@@ -168,7 +168,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
   }
 
   pstr_bit_buff->cnt_bits -= num_of_bits;
-  return_val = (UWORD32)*ptr_read_next;
+  return_val = (UWORD64)*ptr_read_next;
 
   bit_position -= num_of_bits;
   while (bit_position < -1)
@@ -178,7 +178,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
     bit_position += 8;
     return_val <<= 8;
 
-    return_val |= (UWORD32)*ptr_read_next;
+    return_val |= (UWORD64)*ptr_read_next;
   }
 
   if (bit_position == -1)
@@ -189,9 +189,9 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
   }
   pstr_bit_buff->bit_pos = (WORD16)bit_position;
   pstr_bit_buff->ptr_read_next = ptr_read_next;
-  return_val = return_val << ((31 - num_of_bits) - bit_position) >> (32 - num_of_bits);
+  return_val = (return_val >> (bit_position + 1)) & (((UWORD64)1 << num_of_bits) - 1);
 
-  return return_val;
+  return (WORD32)(UWORD32)return_val;
 }
 /**
 *  ia_core_coder_read_bits_buf_32
@@ -206,7 +206,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
 UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *pstr_bit_buff)
 {
   WORD32 num_of_bits = 32;
-  UWORD32 return_val;
+  UWORD64 return_val;
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
 
@@ -217,7 +217,7 @@ UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *pstr_bit_buff)
   }
 
   pstr_bit_buff->cnt_bits -= num_of_bits;
-  return_val = (UWORD32)*ptr_read_next;
+  return_val = (UWORD64)*ptr_read_next;
 
   bit_position -= num_of_bits;
   while (bit_position < -1)
@@ -227,19 +227,20 @@ UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *pstr_bit_buff)
 
     return_val <<= 8;
 
-    return_val |= (UWORD32)*ptr_read_next;
+    return_val |= (UWORD64)*ptr_read_next;
   }
 
   if (bit_position == -1)
   {
     bit_position += 8;
     ptr_read_next++;
+    return_val <<= 8;
   }
 
   pstr_bit_buff->ptr_read_next = ptr_read_next;
   pstr_bit_buff->bit_pos = (WORD16)bit_position;
 
-  return return_val;
+  return (UWORD32)(return_val >> (bit_position + 1));
 }
 
 /**
-- 
2.43.0


From 87bd8a669aef36e220177aed8ac9195667565dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 002/101] fix: check preset conditions against the group they
 refer to

The allow-interactivity flags were taken from the group whose index equals
the preset's index, so valid scenes were rejected and invalid ones accepted.
Also read as many switch group condition flags as the preset has conditions,
and clear them when they are not transmitted.
---
 decoder/impeghd_mhas_parse.c | 73 +++++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 13 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 3a26f06..afbf89b 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -459,6 +459,31 @@ impeghd_mae_asi_switch_group_def(ia_mae_switch_group_def *pstr_switch_group_defi
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
+/**
+ *  impeghd_mae_asi_find_group
+ *
+ *  \brief Finds the definition of the group with a given group ID
+ *
+ *  \param [in] pstr_group_definition Pointer to group definitions
+ *  \param [in] num_grps              Number of groups
+ *  \param [in] group_id              ID of the group looked for
+ *
+ *  \return Pointer to the group definition, NULL if there is none
+ *
+ */
+static ia_mae_group_def *impeghd_mae_asi_find_group(ia_mae_group_def *pstr_group_definition,
+                                                    WORD32 num_grps, WORD32 group_id)
+{
+  for (WORD32 grp = 0; grp < num_grps; grp++)
+  {
+    if (pstr_group_definition[grp].group_id == group_id)
+    {
+      return &pstr_group_definition[grp];
+    }
+  }
+  return NULL;
+}
+
 /**
  *  impeghd_mae_asi_group_presets_def
  *
@@ -468,6 +493,7 @@ impeghd_mae_asi_switch_group_def(ia_mae_switch_group_def *pstr_switch_group_defi
  *  \param [out]   pstr_group_presets_definition  Group preset array
  *  \param [in]    pstr_bit_buf            Bit buffer handle
  *  \param [in]    num_grp_presets        Number of group preset
+ *  \param [in]    num_grps               Number of groups
  *
  *
  *
@@ -475,8 +501,10 @@ impeghd_mae_asi_switch_group_def(ia_mae_switch_group_def *pstr_switch_group_defi
 static IA_ERRORCODE
 impeghd_mae_asi_group_presets_def(ia_mae_group_presets_def *pstr_group_presets_definition,
                                   ia_mae_group_def *pstr_group_definition,
-                                  ia_bit_buf_struct *pstr_bit_buf, WORD32 num_grp_presets)
+                                  ia_bit_buf_struct *pstr_bit_buf, WORD32 num_grp_presets,
+                                  WORD32 num_grps)
 {
+  ia_mae_group_def *pstr_ref_group;
   for (WORD32 grp = 0; grp < num_grp_presets; grp++)
   {
     pstr_group_presets_definition[grp].group_id =
@@ -506,6 +534,10 @@ impeghd_mae_asi_group_presets_def(ia_mae_group_presets_def *pstr_group_presets_d
       pstr_group_presets_definition[grp].reference_id[cnt] =
           (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
 
+      pstr_ref_group = impeghd_mae_asi_find_group(
+          pstr_group_definition, num_grps,
+          pstr_group_presets_definition[grp].reference_id[cnt]);
+
       if ((pstr_group_presets_definition[grp].cond_on_off[cnt] =
                (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
       {
@@ -521,7 +553,7 @@ impeghd_mae_asi_group_presets_def(ia_mae_group_presets_def *pstr_group_presets_d
 
         /*mae_groupPresetGainFlag shall be 0 if mae_allowGainInteractivity of the referenced group
          * is 0*/
-        if ((pstr_group_definition[grp].allow_gain_interact == 0) &&
+        if ((NULL != pstr_ref_group) && (pstr_ref_group->allow_gain_interact == 0) &&
             (pstr_group_presets_definition[grp].gain_flag[cnt] != 0))
         {
           return IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_CONFIG_FAIL;
@@ -545,7 +577,7 @@ impeghd_mae_asi_group_presets_def(ia_mae_group_presets_def *pstr_group_presets_d
 
         /*mae_groupPresetPositionFlag shall be 0 if mae_allowPositionInteractivity of the
         referenced group is 0*/
-        if ((pstr_group_definition[grp].allow_pos_interact == 0) &&
+        if ((NULL != pstr_ref_group) && (pstr_ref_group->allow_pos_interact == 0) &&
             (pstr_group_presets_definition[grp].position_interact[cnt] != 0))
         {
           return IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_CONFIG_FAIL;
@@ -564,27 +596,37 @@ impeghd_mae_asi_group_presets_def(ia_mae_group_presets_def *pstr_group_presets_d
  *  \param [out] pstr_grp_presets_ext_definition Pointer to group presets definition structure
  *  \param [in]  pstr_bit_buf                  Bit buffer handle
  *  \param [in]  num_grp_presets               Number of group presets
- *  \param [in]  num_conditions                 Number of conditions
+ *  \param [in]  num_grps                      Number of groups
+ *  \param [in]  pstr_group_presets_definition Pointer to group presets array
  *
  *
  */
 static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
     ia_mae_group_presets_ext_def *pstr_grp_presets_ext_definition,
     ia_mae_group_def *pstr_group_definition, ia_bit_buf_struct *pstr_bit_buf,
-    WORD32 num_grp_presets, WORD32 num_conditions)
+    WORD32 num_grp_presets, WORD32 num_grps,
+    ia_mae_group_presets_def *pstr_group_presets_definition)
 {
   WORD32 grp, cnt, idx;
+  ia_mae_group_def *pstr_ref_group;
   for (grp = 0; grp < num_grp_presets; grp++)
   {
     if ((pstr_grp_presets_ext_definition->has_switch_group_conditions[grp] =
              ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
     {
-      for (cnt = 0; cnt < num_conditions; cnt++)
+      for (cnt = 0; cnt < pstr_group_presets_definition[grp].num_conditions; cnt++)
       {
         pstr_grp_presets_ext_definition->is_switch_group_condition[grp][cnt] =
             ia_core_coder_read_bits_buf(pstr_bit_buf, 1);
       }
     }
+    else
+    {
+      for (cnt = 0; cnt < MAX_NUM_GROUP_CONDITIONS; cnt++)
+      {
+        pstr_grp_presets_ext_definition->is_switch_group_condition[grp][cnt] = 0;
+      }
+    }
     if ((pstr_grp_presets_ext_definition->has_downmix_id_group_preset_extensions[grp] =
              ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
     {
@@ -614,11 +656,15 @@ static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
           {
             pstr_grp_presets_ext_definition->group_preset_switch_group_id[grp][cnt][idx] =
                 ia_core_coder_read_bits_buf(pstr_bit_buf, 5);
+            pstr_ref_group = NULL;
           }
           else
           {
             pstr_grp_presets_ext_definition->group_preset_group_id[grp][cnt][idx] =
                 ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
+            pstr_ref_group = impeghd_mae_asi_find_group(
+                pstr_group_definition, num_grps,
+                pstr_grp_presets_ext_definition->group_preset_group_id[grp][cnt][idx]);
           }
           if ((pstr_grp_presets_ext_definition->group_preset_condition_on_off[grp][cnt][idx] =
                    ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
@@ -630,7 +676,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
             /*mae_groupPresetDisableGainInteractivity shall be 1 if mae_allowGainInteractivity of
             the
             referenced group is 0*/
-            if ((pstr_group_definition[grp].allow_gain_interact == 0) &&
+            if ((NULL != pstr_ref_group) && (pstr_ref_group->allow_gain_interact == 0) &&
                 (pstr_grp_presets_ext_definition
                      ->group_preset_disable_gain_interactivity[grp][cnt][idx] != 1))
             {
@@ -646,7 +692,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
 
             /*mae_groupPresetGainFlag shall be 0 if mae_allowGainInteractivity of the
             referenced group is 0*/
-            if ((pstr_group_definition[grp].allow_gain_interact == 0) &&
+            if ((NULL != pstr_ref_group) && (pstr_ref_group->allow_gain_interact == 0) &&
                 (pstr_grp_presets_ext_definition->group_preset_gain_flag[grp][cnt][idx] != 0))
             {
               return IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_EXT_CONFIG_FAIL;
@@ -658,7 +704,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
             /*mae_groupPresetDisablePositionInteractivity shall be 1 if
             mae_allowPositionInteractivity of the
             referenced group is 0*/
-            if ((pstr_group_definition[grp].allow_pos_interact == 0) &&
+            if ((NULL != pstr_ref_group) && (pstr_ref_group->allow_pos_interact == 0) &&
                 (pstr_grp_presets_ext_definition
                      ->group_preset_disable_pos_interactiviy[grp][cnt][idx] != 1))
             {
@@ -678,7 +724,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
 
             /*mae_groupPresetPositionFlag shall be 0 if mae_allowPositionInteractivity of the
             referenced group is 0*/
-            if ((pstr_group_definition[grp].allow_pos_interact == 0) &&
+            if ((NULL != pstr_ref_group) && (pstr_ref_group->allow_pos_interact == 0) &&
                 (pstr_grp_presets_ext_definition->group_preset_position_flag[grp][cnt][idx] != 0))
             {
               return IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_EXT_CONFIG_FAIL;
@@ -1004,8 +1050,8 @@ static IA_ERRORCODE impeghd_mae_asi_data_parse(ia_mae_audio_scene_info *pstr_mae
       }
       err_code = impeghd_mae_asi_group_presets_def_ext(
           &pstr_mae_asi->group_presets_ext_definition, &pstr_mae_asi->group_definition[0],
-          pstr_bit_buf, pstr_mae_asi->num_group_presets,
-          pstr_mae_asi->group_presets_definition[0].num_conditions);
+          pstr_bit_buf, pstr_mae_asi->num_group_presets, pstr_mae_asi->num_groups,
+          &pstr_mae_asi->group_presets_definition[0]);
       if (err_code != IA_MPEGH_DEC_NO_ERROR)
       {
         return err_code;
@@ -1169,7 +1215,8 @@ IA_ERRORCODE impeghd_mae_asi_parse(ia_mae_audio_scene_info *pstr_mae_asi,
     }
     err_code = impeghd_mae_asi_group_presets_def(&pstr_mae_asi->group_presets_definition[0],
                                                  &pstr_mae_asi->group_definition[0], pstr_bit_buf,
-                                                 pstr_mae_asi->num_group_presets);
+                                                 pstr_mae_asi->num_group_presets,
+                                                 pstr_mae_asi->num_groups);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
       return err_code;
-- 
2.43.0


From 32c3ac73233c4895f4369d06dadcd4d77ce6d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 003/101] fix: scene information counts and lengths overflow
 their types

128 group members, 256 description bytes and data sets of 32768 bytes or
more wrapped to negative values and left the parser out of step.
---
 decoder/impeghd_mhas_parse.c | 4 ++--
 decoder/impeghd_mhas_parse.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index afbf89b..40c2fc3 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -93,7 +93,7 @@ static IA_ERRORCODE impeghd_mae_parse_description_data(ia_description_data *pstr
       pstr_description_data->descr_language[blk][cnt] =
           ia_core_coder_read_bits_buf(pstr_bit_buf, 24);
       pstr_description_data->descr_data_length[blk][cnt] =
-          (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 8) + 1;
+          (WORD16)ia_core_coder_read_bits_buf(pstr_bit_buf, 8) + 1;
 
       for (WORD32 idx = 0; idx < pstr_description_data->descr_data_length[blk][cnt]; idx++)
       {
@@ -1029,7 +1029,7 @@ static IA_ERRORCODE impeghd_mae_asi_data_parse(ia_mae_audio_scene_info *pstr_mae
     WORD32 cnt_bits = 0;
     pstr_mae_data->data_type[cnt] = (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 4);
     data_len = ia_core_coder_read_bits_buf(pstr_bit_buf, 16);
-    pstr_mae_data->data_length[cnt] = (WORD16)data_len;
+    pstr_mae_data->data_length[cnt] = data_len;
     cnt_bits = pstr_bit_buf->cnt_bits;
     switch (pstr_mae_data->data_type[cnt])
     {
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index e3e4006..02388e4 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -114,7 +114,7 @@ typedef struct
   WORD8 allow_pos_interact;
   WORD8 default_on_off;
   WORD8 group_id;
-  WORD8 group_num_members;
+  UWORD8 group_num_members;
   WORD8 has_conjunct_members;
   WORD8 has_content_language;
   WORD8 max_az_offset;
@@ -205,7 +205,7 @@ typedef struct
 {
   WORD8 num_data_sets;
   WORD8 data_type[MAX_MAE_NUM_DATASETS];
-  WORD16 data_length[MAX_MAE_NUM_DATASETS];
+  WORD32 data_length[MAX_MAE_NUM_DATASETS];
 } ia_mae_data;
 
 typedef struct
@@ -221,7 +221,7 @@ typedef struct
 typedef struct
 {
   UWORD8 num_descr_blks;
-  WORD8 descr_data_length[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
+  WORD16 descr_data_length[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
   WORD8 descr_data[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES][MAX_DESCRIPTON_DATA_LEN];
   WORD32 descr_language[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
   WORD8 grp_id[MAX_NUM_DESCRIPTOIN_BLOCKS];
-- 
2.43.0


From 55358b45fb7b0fcece4368edace5c5bef921a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 004/101] fix: earcon parsing writes past the earcon arrays and
 reuses stale text labels

17 earcons were accepted for arrays of 16, and an earcon without a text
label used the number of languages of an earlier packet.
---
 decoder/impeghd_mhas_parse.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 40c2fc3..9a1ef95 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -943,7 +943,7 @@ IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *pstr_earcon_info,
                                       ia_bit_buf_struct *pstr_bit_buf)
 {
   WORD32 num_earcons = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
-  if (num_earcons > MAX_NUM_EARCONS)
+  if (num_earcons >= MAX_NUM_EARCONS)
   {
     return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_EARCONS;
   }
@@ -985,6 +985,10 @@ IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *pstr_earcon_info,
     {
       pstr_earcon_info->earcon_num_languages[cnt] = ia_core_coder_read_bits_buf(pstr_bit_buf, 4);
     }
+    else
+    {
+      pstr_earcon_info->earcon_num_languages[cnt] = 0;
+    }
 
     for (WORD32 idx = 0; idx < pstr_earcon_info->earcon_num_languages[cnt]; idx++)
     {
-- 
2.43.0


From 9290645eafbb4010090b12520150e07d54f53791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 005/101] fix: PCM data packets overflow the sample buffer

Frame sizes above the buffer's 1024 samples were stored anyway, explicit
sizes were used as a table index, and the parse error was dropped.
---
 decoder/ia_core_coder_decode_main.c |  5 +++--
 decoder/impeghd_mhas_parse.c        | 22 +++++++++++++++++-----
 decoder/impeghd_mhas_parse.h        |  1 +
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 137f834..af78240 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1310,13 +1310,14 @@ static IA_ERRORCODE impeghd_earcon_obj_md_dec_ren_process(ia_dec_data_struct *ps
   ia_oam_dec_state_struct *pstr_obj_md_dec_state = &pstr_obj_ren_dec_state->str_obj_md_dec_state;
 
   num_objects = pstr_obj_md_dec_state->num_objects;
-  ccfl = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+  ccfl = pstr_pcm_data_config->pcm_frame_size;
   ptr_in_buf = &pstr_pcm_data_config->pcm_sample[0][0];
 
   ia_core_coder_memset(ptr_out_buf, (ccfl * pstr_obj_ren_dec_state->num_cicp_speakers));
 
   pstr_obj_md_dec_state->sub_frame_number = 1;
-  pstr_obj_md_dec_state->num_objects = (pstr_pcm_data_config->bs_num_pcm_signals + 1);
+  pstr_obj_md_dec_state->num_objects =
+      (pstr_pcm_data_config->bsnum_pcm_signals_in_frame + 1);
   for (obj = 0; obj < pstr_obj_md_dec_state->num_objects; obj++)
   {
     pstr_obj_md_dec_state->radius[obj] = pstr_earcon_info->earcon_distance[0];
diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 9a1ef95..b3b2790 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -794,6 +794,7 @@ IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *pstr_pcm_data_config,
 {
 
   WORD32 cnt, idx, pcm_fix_frame_size;
+  pstr_pcm_data_config->pcm_frame_size = 0;
   pstr_pcm_data_config->bsnum_pcm_signals_in_frame = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
 
   if (pstr_pcm_data_config->bsnum_pcm_signals_in_frame > (MAX_NUM_CHANNELS - 1))
@@ -823,18 +824,25 @@ IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *pstr_pcm_data_config,
     return IA_MPEGH_DEC_NO_ERROR;
     break;
   case 5:
-    pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_fix_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    pcm_fix_frame_size = pstr_pcm_data_config->pcm_fix_frame_size;
     break;
   case 6:
-    pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_var_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    pcm_fix_frame_size = pstr_pcm_data_config->pcm_var_frame_size;
+    break;
+  case 7:
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_FRAME_LENGTH;
     break;
   default:
     pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
     break;
   }
 
+  if (pcm_fix_frame_size > MAX_NUM_PCM_SAMPLES)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_FRAME_LENGTH;
+  }
+  pstr_pcm_data_config->pcm_frame_size = pcm_fix_frame_size;
+
   WORD32 pcm_sample, temp, temp_num;
   for (cnt = 0; cnt < pcm_fix_frame_size; cnt++)
   {
@@ -1402,7 +1410,11 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
       pstr_mae_asi->pcm_data_config.pcm_packet_type_present = 1;
       pstr_mae_asi->pcm_data_config.pcm_packet_data_present = 1;
       pstr_mae_asi->pcm_data_config.pcm_config_present = 1;
-      impeghd_pcm_data_payload(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      err_code = impeghd_pcm_data_payload(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
       cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
       if (cnt_bits < (pkt_len << 3))
       {
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index 02388e4..75edeb8 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -299,6 +299,7 @@ typedef struct
   WORD32 pcm_config_present;
   WORD32 pcm_fix_frame_size;
   WORD32 pcm_frame_size_idx;
+  WORD32 pcm_frame_size;
   WORD32 pcm_has_attenuation_gain;
   WORD32 pcm_packet_type_present;
   WORD32 pcm_sampling_rate_idx;
-- 
2.43.0


From 302d8c2678928746b3fce327f4a0821a127125d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 006/101] fix: loudness packets are not skipped to their end

The rest of a loudness packet (byte alignment, padding) was taken for the
next packet header.
---
 decoder/impeghd_mhas_parse.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index b3b2790..db660f5 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -1425,9 +1425,20 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
     break;
     case MHAS_PAC_TYP_LOUDNESS:
     {
+      WORD32 cnt_bits = pstr_bit_buf->cnt_bits;
       ia_drc_payload_struct str_drc_payload;
       err_code = impd_drc_mpegh3da_parse_loudness_info_set(&str_drc_payload.str_loud_info,
                                                            pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
+      cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
+      if (cnt_bits < (pkt_len << 3))
+      {
+        WORD32 skip_bits = (pkt_len << 3) - cnt_bits;
+        ia_core_coder_skip_bits_buf(pstr_bit_buf, skip_bits);
+      }
     }
     break;
     default:
-- 
2.43.0


From 77d923ac460a4d2497f7d5c307f3fe3da0bdbbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 007/101] fix: configuration packets longer than the comparison
 buffer overwrite decoder state

The configuration packet that init accepts is remembered every time, so that a
repetition of it in mid-stream is recognised after an earlier failed init.
---
 decoder/ia_core_coder_decode_main.c  | 6 +++++-
 decoder/ia_core_coder_headerdecode.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index af78240..8d0b5d2 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2504,8 +2504,12 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
       }
       if (MHAS_PAC_TYP_MPEGH3DACFG == pac_info.packet_type)
       {
-        WORD32 bytes_consumed;
+        WORD32 bytes_consumed = 0;
         WORD32 flush = 0;
+        if (pac_info.packet_length > MAX_CFG_DATA_LENGTH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
+        }
         if (mpegh_dec_handle->prev_cfg_len)
         {
           WORD32 i = 0;
diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index c34b318..da42192 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -186,7 +186,11 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
     }
     {
       bit_offset = handle_bit_buff->cnt_bits;
-      if (mpeghd_state_struct->prev_cfg_len == 0)
+      if (info.packet_length > MAX_CFG_DATA_LENGTH)
+      {
+        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
+        return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
+      }
       {
         WORD32 i = 0;
         WORD32 bit_pos = handle_bit_buff->bit_pos;
-- 
2.43.0


From e99f2bc4183a83d952b6e4482b6d6ca9f35ed7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 008/101] fix: number of consumed bytes can be stale, zero,
 negative or exceed the input

Failed calls report at least one and at most the supplied number of bytes; a
packet that init cannot use is skipped to its end.  A failed switch to a new
configuration leaves the decoder waiting for init.
---
 decoder/ia_core_coder_headerdecode.c |  9 ++++++---
 decoder/impeghd_api.c                | 25 ++++++++++++++++++-------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index da42192..d40a37e 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -180,7 +180,8 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
       impeghd_mhas_parse(&info, &pstr_asc->str_mae_asi, handle_bit_buff);
       if (MHAS_PAC_TYP_MPEGH3DACFG != info.packet_type)
       {
-        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
+        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed =
+            header_len - (handle_bit_buff->cnt_bits >> 3) + info.packet_length;
         return IA_MPEGH_DEC_INIT_FATAL_3DACONFIG_DATA_NOT_FOUND;
       }
     }
@@ -188,7 +189,8 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
       bit_offset = handle_bit_buff->cnt_bits;
       if (info.packet_length > MAX_CFG_DATA_LENGTH)
       {
-        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
+        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed =
+            header_len - (handle_bit_buff->cnt_bits >> 3) + info.packet_length;
         return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
       }
       {
@@ -208,7 +210,8 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
       err = impegh_3daudio_config_dec(mpeghd_state_struct, bytes_consumed, handle_bit_buff);
       if (err != IA_MPEGH_DEC_NO_ERROR)
       {
-        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
+        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed =
+            header_len - (bit_offset >> 3) + info.packet_length;
         return err;
       }
       if (0 == ui_raw_flag)
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 6414ca8..006f985 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -628,6 +628,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
                                        &pstr_audio_specific_config->str_mae_asi);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
+      pstr_output_config->i_bytes_consumed = 1;
       return err_code;
     }
   }
@@ -828,6 +829,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
                                               &pstr_dec_data->binaural_handle);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
+      pstr_output_config->i_bytes_consumed = 1;
       return err_code;
     }
 
@@ -836,7 +838,11 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   }
 
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
-  if (pstr_output_config->i_bytes_consumed == 0)
+  if (pstr_output_config->i_bytes_consumed > (WORD32)pstr_input_config->num_inp_bytes)
+  {
+    pstr_output_config->i_bytes_consumed = pstr_input_config->num_inp_bytes;
+  }
+  if (pstr_output_config->i_bytes_consumed <= 0)
   {
     pstr_output_config->i_bytes_consumed = 1;
   }
@@ -1035,6 +1041,7 @@ IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOI
       err_code = impeghd_scene_displacement_data(ptr_scene_disp_data);
       if (err_code)
       {
+        pstr_output_config->i_bytes_consumed = 1;
         return err_code;
       }
     }
@@ -1046,13 +1053,15 @@ IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOI
 
   err_code = ia_core_coder_dec_execute(p_obj_mpegh_dec);
 
-  if (err_code != IA_MPEGH_DEC_NO_ERROR)
+  if (p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed >
+      (WORD32)p_obj_mpegh_dec->p_state_mpeghd->ui_in_bytes)
   {
-    if (p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed == 0)
-    {
-      p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = 1;
-    }
-    pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
+    p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed =
+        p_obj_mpegh_dec->p_state_mpeghd->ui_in_bytes;
+  }
+  if (p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed <= 0)
+  {
+    p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = 1;
   }
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
 
@@ -1179,6 +1188,8 @@ ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_obj_mpegh_dec->mpeghd_config.ui_samp_freq = 0;
   p_obj_mpegh_dec->p_state_mpeghd->frame_counter = 0;
   p_obj_mpegh_dec->p_state_mpeghd->decode_create_done = 0;
+  /* set again when the new configuration is accepted */
+  p_obj_mpegh_dec->p_state_mpeghd->ui_init_done = 0;
 
   err = ia_core_coder_dec_init(p_obj_mpegh_dec);
   p_obj_mpegh_dec->p_state_mpeghd->flush = 1;
-- 
2.43.0


From 1d2f9f8c41366da30d7f4c78692798de31a54855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 009/101] fix: flexible loudspeaker descriptions

Reject the descriptions impeghd_spk_description rejects, start each from a clear
state, and look up the azimuth of every CICP loudspeaker index.
---
 decoder/ia_core_coder_init_config.c | 63 +++++++++++++++++------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c32dbc1..3881060 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1078,6 +1078,7 @@ static IA_ERRORCODE impeghd_spk_description(VOID *buf_handle, ia_flex_spk_cfg_st
 {
   WORD32 az_ang_idx_to_deg;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
+  memset(pstr_spk_desc, 0, sizeof(*pstr_spk_desc));
   pstr_spk_desc->is_cicp_spk_idx = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 1);
 
   if (!pstr_spk_desc->is_cicp_spk_idx)
@@ -1143,6 +1144,10 @@ static IA_ERRORCODE impeghd_spk_description(VOID *buf_handle, ia_flex_spk_cfg_st
   else
   {
     pstr_spk_desc->cicp_spk_idx = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 7);
+    if (pstr_spk_desc->cicp_spk_idx > MAX_CICP_SPK_INDEX)
+    {
+      return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX;
+    }
   }
   return IA_MPEGH_DEC_NO_ERROR;
 }
@@ -1163,15 +1168,20 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
                                             ia_flex_spk_data_str *pstr_flex_spk_data,
                                             WORD32 num_spk)
 {
-  WORD32 i = 0, in_num_channels = 0, in_num_lfes = 0, azimuth;
+  IA_ERRORCODE err = IA_MPEGH_DEC_NO_ERROR;
+  WORD32 i = 0, azimuth;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   pstr_flex_spk_data->angular_precision = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 1);
 
   while (i < num_spk)
   {
     azimuth = 0;
-    impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
-                            pstr_flex_spk_data->angular_precision);
+    err = impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
+                                  pstr_flex_spk_data->angular_precision);
+    if (err)
+    {
+      return err;
+    }
 
     if (!(pstr_flex_spk_data->str_flex_spk_descr[i].is_cicp_spk_idx))
     {
@@ -1180,23 +1190,11 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
                                        pstr_flex_spk_data->angular_precision);
       pstr_flex_spk_data->str_flex_spk_descr[i].az_angle_idx = azimuth;
     }
-    else if ((pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx < NUM_LS_CFGS) &&
-             (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx != 0) &&
-             (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx != 8))
+    else
     {
-      const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-
-      ptr_cicp_ls_geometry[i] =
-          &ia_cicp_ls_geo_tbls[pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx];
-      if (!ptr_cicp_ls_geometry[i]->lfe_flag)
-      {
-        in_num_channels++;
-      }
-      else
-      {
-        in_num_lfes++;
-      }
-      azimuth = (WORD32)(ptr_cicp_ls_geometry[i]->ls_azimuth);
+      azimuth =
+          (WORD32)ia_cicp_ls_geo_tbls[pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx]
+              .ls_azimuth;
     }
 
     if ((azimuth != 0) && (azimuth != 180))
@@ -1308,9 +1306,13 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
     }
     if (pstr_audio_specific_config->ref_spk_layout.spk_layout_type == 2)
     {
-      impeghd_flexispk_config(it_bit_buff,
-                              &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
-                              pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      err = impeghd_flexispk_config(it_bit_buff,
+                                    &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
+                                    pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      if (err)
+      {
+        return err;
+      }
       pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx =
           pstr_audio_specific_config->ref_spk_layout.num_speakers;
       if (pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx <= 0 ||
@@ -1438,8 +1440,12 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
           {
           case 2:
           {
-            impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
-                                    speaker_config_3d->num_speakers);
+            err = impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
+                                          speaker_config_3d->num_speakers);
+            if (err)
+            {
+              return err;
+            }
             break;
           }
           case 1:
@@ -1751,8 +1757,13 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     {
     case 2:
     {
-      impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
-                              spk_config_3d->num_speakers);
+      IA_ERRORCODE err =
+          impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
+                                  spk_config_3d->num_speakers);
+      if (err)
+      {
+        return err;
+      }
       break;
     }
     case 1:
-- 
2.43.0


From b25ad7133d2089dd1c461f01f817b8a7edc76ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 010/101] fix: signal group information is coded for
 num_sig_group groups

---
 decoder/ia_core_coder_init_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 3881060..625f4ca 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -693,7 +693,7 @@ static VOID impeghd_sig_group_info(ia_bit_buf_struct *it_bit_buff, ia_signals_3d
 {
   WORD32 grp;
 
-  for (grp = 0; grp <= (WORD32)ptr_signal_3d->num_sig_group; grp++)
+  for (grp = 0; grp < (WORD32)ptr_signal_3d->num_sig_group; grp++)
   {
     ptr_signal_3d->group_priority[grp] = ia_core_coder_read_bits_buf(it_bit_buff, 3);
     ptr_signal_3d->fixed_position[grp] = ia_core_coder_read_bits_buf(it_bit_buff, 1);
-- 
2.43.0


From f999c7d21badd71eb8c498bb0786d80904980af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 011/101] fix: configuration extensions end where their coded
 length says

Rest bytes of compatible profile sets and signal group information are skipped,
and an extension that needs more bits than its coded length is an error.
---
 decoder/ia_core_coder_init_config.c | 64 ++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 625f4ca..721da4f 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -879,6 +879,33 @@ static IA_ERRORCODE impeghd_compatible_profile_level_set(
   return 0;
 }
 
+/**
+ *  impeghd_skip_config_ext_rest
+ *
+ *  \brief Skip to the coded end of a configuration extension
+ *
+ *  \param [in]  it_bit_buff  bit stream buffer
+ *  \param [in]  start_bits   bits that were left in the buffer before the extension
+ *  \param [in]  ext_len      coded length of the extension in bytes
+ *
+ *  \return IA_ERRORCODE
+ *
+ */
+static IA_ERRORCODE impeghd_skip_config_ext_rest(ia_bit_buf_struct *it_bit_buff,
+                                                 WORD32 start_bits, UWORD32 ext_len)
+{
+  WORD32 used_bits = start_bits - it_bit_buff->cnt_bits;
+  if (used_bits > (WORD32)(ext_len << 3))
+  {
+    return IA_MPEGH_DEC_EXE_FATAL_DECODE_FRAME_ERROR;
+  }
+  if (used_bits < (WORD32)(ext_len << 3))
+  {
+    ia_core_coder_skip_bits_buf(it_bit_buff, (WORD32)(ext_len << 3) - used_bits);
+  }
+  return IA_MPEGH_DEC_NO_ERROR;
+}
+
 /**
  *  ia_core_coder_config_extension
  *
@@ -900,7 +927,7 @@ static IA_ERRORCODE ia_core_coder_config_extension(
   IA_ERRORCODE err = IA_MPEGH_DEC_NO_ERROR;
   UWORD8 byte_val;
   UWORD32 i, j, num_config_extensions, usac_config_ext_type, usac_config_ext_len, fill_byte_val;
-  WORD32 cnt_bits, skip_bits;
+  WORD32 cnt_bits;
   ia_mae_audio_scene_info *ptr_mae_asi = (ia_mae_audio_scene_info *)pstr_mae_asi;
 
   ia_core_coder_read_escape_value(it_bit_buff, &(num_config_extensions), 2, 4, 8);
@@ -932,7 +959,11 @@ static IA_ERRORCODE ia_core_coder_config_extension(
     case ID_CONFIG_EXT_COMPATIBLE_PROFILELVL_SET:
     {
       pstr_usac_decoder_config->compat_profile_cfg_present = 1;
+      cnt_bits = it_bit_buff->cnt_bits;
       impeghd_compatible_profile_level_set(it_bit_buff, &pstr_usac_decoder_config->str_compatible_profile_config);
+      err = impeghd_skip_config_ext_rest(it_bit_buff, cnt_bits, usac_config_ext_len);
+      if (err)
+        return err;
       break;
     }
     case ID_CONFIG_EXT_HOA_MATRIX:
@@ -955,12 +986,9 @@ static IA_ERRORCODE ia_core_coder_config_extension(
         return err;
       pstr_usac_decoder_config->usac_cfg_ext_info_present[j] = 1;
       pstr_usac_decoder_config->usac_cfg_ext_info_len[j] = usac_config_ext_len;
-      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
-      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
-      {
-        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
-        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
-      }
+      err = impeghd_skip_config_ext_rest(it_bit_buff, cnt_bits, usac_config_ext_len);
+      if (err)
+        return err;
       break;
     }
     case ID_CONFIG_EXT_DOWNMIX:
@@ -978,12 +1006,9 @@ static IA_ERRORCODE ia_core_coder_config_extension(
       }
       pstr_usac_decoder_config->usac_cfg_ext_info_present[j] = 1;
       pstr_usac_decoder_config->usac_cfg_ext_info_len[j] = usac_config_ext_len;
-      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
-      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
-      {
-        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
-        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
-      }
+      err = impeghd_skip_config_ext_rest(it_bit_buff, cnt_bits, usac_config_ext_len);
+      if (err)
+        return err;
       break;
     }
     case ID_CONFIG_EXT_LOUDNESS_INFO:
@@ -1017,18 +1042,19 @@ static IA_ERRORCODE ia_core_coder_config_extension(
       {
         return err_code;
       }
-      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
-      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
-      {
-        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
-        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
-      }
+      err = impeghd_skip_config_ext_rest(it_bit_buff, cnt_bits, usac_config_ext_len);
+      if (err)
+        return err;
       break;
     }
     case ID_CONFIG_EXT_SIG_GROUP_INFO:
     {
+      cnt_bits = it_bit_buff->cnt_bits;
       impeghd_sig_group_info(it_bit_buff, ptr_signal_3d);
       ptr_signal_3d->signal_grp_info_present = 1;
+      err = impeghd_skip_config_ext_rest(it_bit_buff, cnt_bits, usac_config_ext_len);
+      if (err)
+        return err;
       break;
     }
     case ID_CONFIG_EXT_FILL:
-- 
2.43.0


From 7a873030694b0909ae61d4747f6b53786a2fc021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 012/101] fix: reject downmix matrices that do not fit
 downmix_matrix

---
 decoder/ia_core_coder_init_config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 721da4f..899136f 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -788,6 +788,10 @@ static IA_ERRORCODE impeghd_parse_dmx_ext_config(ia_bit_buf_struct *it_bit_buff,
                 ia_core_coder_read_bits_buf(it_bit_buff, 5);
           }
           ia_core_coder_read_escape_value(it_bit_buff, &temp, 8, 8, 12);
+          if (temp > (ASCPARSER_MAX_DMX_MATRIX_SIZE << 3))
+          {
+            return IA_MPEGH_DEC_EXE_FATAL_MAX_DMX_MATRIX_ELEMENTS_EXCEEDED;
+          }
           ptr_dmx_cfg->dmx_matrix[i].dmx_matrix_len_bits[l] = temp;
 
           byte_count = 0;
-- 
2.43.0


From 214cee880a7ab9992f99261531473599c5635e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:03 +0000
Subject: [PATCH 013/101] fix: object metadata configuration errors

Report the errors impeghd_obj_md_cfg returns, reject more objects than its
arrays hold and forget the screen-relative flag of an earlier configuration.
---
 decoder/ia_core_coder_init_config.c | 10 +++++++++-
 decoder/impeghd_oam_dec.c           |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 899136f..7526d5c 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -305,7 +305,15 @@ IA_ERRORCODE ia_core_coder_ext_element_config(
   {
     *ptr_usac_ext_ele_payload_len = usac_ext_element_config_length;
     cnt_bits = it_bit_buff->cnt_bits;
-    impeghd_obj_md_cfg(p_obj_md_cfg, it_bit_buff, ccfl, num_objects);
+    if (num_objects > MAX_NUM_OAM_OBJS)
+    {
+      return IA_MPEGH_OAM_INIT_FATAL_UNSUPPORTED_NUM_OBJS;
+    }
+    err_code = impeghd_obj_md_cfg(p_obj_md_cfg, it_bit_buff, ccfl, num_objects);
+    if (err_code)
+    {
+      return err_code;
+    }
     cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
     if (cnt_bits > (WORD32)(usac_ext_element_config_length << 3))
     {
diff --git a/decoder/impeghd_oam_dec.c b/decoder/impeghd_oam_dec.c
index ddb2a34..f3e03fc 100644
--- a/decoder/impeghd_oam_dec.c
+++ b/decoder/impeghd_oam_dec.c
@@ -127,9 +127,9 @@ IA_ERRORCODE impeghd_obj_md_cfg(ia_oam_dec_config_struct *p_obj_md_cfg,
     }
   }
   screen_rel_objs_present = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS);
+  p_obj_md_cfg->screen_rel_objs_present = 0;
   if (screen_rel_objs_present)
   {
-    p_obj_md_cfg->screen_rel_objs_present = 0;
     screen_rel_objs_present = 0;
     FLAG *ptr_screen_rel_obj = &p_obj_md_cfg->is_screen_rel_obj[0];
     for (i = num_objects; i > 0; i--)
-- 
2.43.0


From a1be64f700bfbb624b0caa68f2ccb3218d8748b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:03 +0000
Subject: [PATCH 014/101] fix: reject a second DRC extension element

The counter was local to the parse of one element and could not exceed one.
---
 decoder/ia_core_coder_init_config.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 7526d5c..fc05905 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -201,7 +201,7 @@ IA_ERRORCODE ia_core_coder_ext_element_config(
   WORD32 cnt_bits, skip_bits;
   UWORD32 usac_ext_element_type, usac_ext_element_config_length, flag;
   UWORD32 i;
-  UWORD32 num_aud_preroll = 0, num_uni_drc = 0;
+  UWORD32 num_aud_preroll = 0;
   ia_oam_dec_config_struct *p_obj_md_cfg = &pstr_usac_conf->obj_md_cfg;
   ia_hoa_config_struct *pstr_hoa_config = &pstr_usac_conf->str_usac_dec_config.str_hoa_config;
   WORD32 num_objects = pstr_usac_conf->signals_3d.num_audio_obj;
@@ -330,10 +330,15 @@ IA_ERRORCODE ia_core_coder_ext_element_config(
   case ID_MPEGH_EXT_ELE_MCT:
     if (ID_EXT_ELE_UNI_DRC == usac_ext_element_type)
     {
-      num_uni_drc++;
-      if (num_uni_drc > 1)
+      ia_usac_decoder_config_struct *pstr_dec_conf = &pstr_usac_conf->str_usac_dec_config;
+      WORD32 prev;
+      for (prev = 0; prev < elem_idx; prev++)
       {
-        return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_EXT_ELEM_CONFIG;
+        if ((ID_USAC_EXT == pstr_dec_conf->usac_element_type[prev]) &&
+            (ID_EXT_ELE_UNI_DRC == pstr_dec_conf->ia_ext_ele_payload_type[prev]))
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_EXT_ELEM_CONFIG;
+        }
       }
     }
     if (pstr_usac_element_config->usac_ext_elem_pld_frag != 0)
-- 
2.43.0


From 5fb54a3a25d92a8556c9c4e6356155fb3abefe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:03 +0000
Subject: [PATCH 015/101] fix: check elementLengthPresent against the scene
 information being parsed

---
 decoder/ia_core_coder_init_config.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index fc05905..1a6fd8c 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1043,6 +1043,13 @@ static IA_ERRORCODE ia_core_coder_config_extension(
     }
     case ID_CONFIG_EXT_AUDIOSCENE_INFO:
     {
+      cnt_bits = it_bit_buff->cnt_bits;
+      ptr_mae_asi->asi_present = 1;
+      IA_ERRORCODE err_code = impeghd_mae_asi_parse(ptr_mae_asi, it_bit_buff);
+      if (IA_MPEGH_DEC_NO_ERROR != err_code)
+      {
+        return err_code;
+      }
       /*The variable elementLengthPresent shall be 1, if the Configuration Extension type
       ID_CONFIG_EXT_AUDIOSCENE_INFO exists and the value mae_numSwitchGroups in bitstream
       structure mae_AudioSceneInfo() is larger than 0.*/
@@ -1051,14 +1058,6 @@ static IA_ERRORCODE ia_core_coder_config_extension(
       {
         return IA_MPEGH_DEC_INIT_FATAL_ERROR;
       }
-
-      cnt_bits = it_bit_buff->cnt_bits;
-      ptr_mae_asi->asi_present = 1;
-      IA_ERRORCODE err_code = impeghd_mae_asi_parse(ptr_mae_asi, it_bit_buff);
-      if (IA_MPEGH_DEC_NO_ERROR != err_code)
-      {
-        return err_code;
-      }
       err = impeghd_skip_config_ext_rest(it_bit_buff, cnt_bits, usac_config_ext_len);
       if (err)
         return err;
-- 
2.43.0


From 8a394d96bf27941de361abc5fd75e8111aed2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 016/101] fix: a new configuration starts from a clear one even
 when scene information is kept

---
 decoder/ia_core_coder_headerdecode.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index d40a37e..5109a1b 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -94,9 +94,10 @@ impegh_3daudio_config_dec(ia_mpegh_dec_state_struct *mpeghd_state_struct, WORD32
   ia_usac_config_struct *pstr_usac_conf = &(pstr_asc->str_usac_config);
   if (!pstr_asc->str_mae_asi.asi_present)
   {
-    memset(mpeghd_state_struct->ia_audio_specific_config, 0,
-           sizeof(ia_audio_specific_config_struct));
+    memset(&pstr_asc->str_mae_asi, 0, sizeof(pstr_asc->str_mae_asi));
   }
+  memset(&pstr_asc->str_usac_config, 0, sizeof(pstr_asc->str_usac_config));
+  memset(&pstr_asc->ref_spk_layout, 0, sizeof(pstr_asc->ref_spk_layout));
 
   ia_core_coder_conf_default(&(pstr_asc->str_usac_config));
 
-- 
2.43.0


From fc41bec9d4f77a37766e81d0b39ff04a2229e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:52 +0000
Subject: [PATCH 017/101] fix: geometry errors of the format converter are
 ignored

---
 decoder/ia_core_coder_decode_main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 8d0b5d2..b4b5b58 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -683,7 +683,7 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
       const WORD32 *in_channel_names, *out_channel_names;
       ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
       ia_cicp_ls_geo_str *ptr_cicp_out_geometry[CICP_MAX_NUM_LS];
-      impeghd_cicpidx_2_ls_geometry(
+      error_num = impeghd_cicpidx_2_ls_geometry(
           pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx,
           (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[0], &num_speakers_lcl, &num_lfes_lcl,
           (const WORD32 **)&in_channel_names);
@@ -692,7 +692,7 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INIT_FAIL;
       }
 
-      impeghd_cicpidx_2_ls_geometry(
+      error_num = impeghd_cicpidx_2_ls_geometry(
           cicp_idx, (const ia_cicp_ls_geo_str **)&ptr_cicp_out_geometry[0], &num_speakers_out,
           &num_lfes_out, (const WORD32 **)&out_channel_names);
       if (error_num != IA_MPEGH_DEC_NO_ERROR)
-- 
2.43.0


From 7bcd72f58ea68269dbb8fa130a883e8de2f21ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:52 +0000
Subject: [PATCH 018/101] fix: LFE lookup of CICP loudspeaker lists reads the
 layout table

---
 decoder/impeghd_hoa_render_mtrx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_hoa_render_mtrx.c b/decoder/impeghd_hoa_render_mtrx.c
index aa0bfe5..7fbc5ff 100644
--- a/decoder/impeghd_hoa_render_mtrx.c
+++ b/decoder/impeghd_hoa_render_mtrx.c
@@ -389,8 +389,8 @@ impeghd_hoa_ren_mtrx_init_with_spc_pos_param(ia_render_hoa_render_mtrx_str *ren_
 
       for (i = 0; i < loop; i++)
       {
-        speaker_table = ia_cicp_idx_ls_set_map_tbl[ref_spk_layout->cicp_spk_idx[i]];
-        if (1 == ia_cicp_ls_geo_tbls[speaker_table[i]].lfe_flag)
+        if (ref_spk_layout->cicp_spk_idx[i] < CICP_MAX_CH &&
+            1 == ia_cicp_ls_geo_tbls[ref_spk_layout->cicp_spk_idx[i]].lfe_flag)
           ren_handle->spk_idx[i] = 1;
       }
     }
-- 
2.43.0


From 79b14c47300606311f80ad530e44bfb5d3776cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 019/101] fix: LFE lookup of individual CICP loudspeakers reads
 past the speaker descriptions

---
 decoder/impeghd_obj_ren_dec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 3e9d85d..883bc65 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -150,7 +150,7 @@ static IA_ERRORCODE impeghd_flex_spk_2_ls_geometry(ia_cicp_ls_geo_str *array_cic
       pp_cicp_ls_geometry[i]->ls_azimuth_start = ia_cicp_ls_geo_tbls[idx].ls_azimuth_start;
       pp_cicp_ls_geometry[i]->ls_azimuth_end = ia_cicp_ls_geo_tbls[idx].ls_azimuth_end;
       pp_cicp_ls_geometry[i]->lfe_flag = ia_cicp_ls_geo_tbls[idx].lfe_flag;
-      *num_lfe += ptr_flex_spk->str_flex_spk_descr[idx].is_lfe;
+      *num_lfe += ia_cicp_ls_geo_tbls[idx].lfe_flag;
     }
   }
   return 0;
@@ -1061,7 +1061,7 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
 
   WORD32 i, j;
-  WORD32 in_num_channels, in_num_lfes;
+  WORD32 in_num_channels, in_num_lfes = 0;
   WORD32 cicp_idx;
   const WORD32 *in_channel_names;
   WORD32 num_visible_triangles = 0, num_additional_triangles = 0;
-- 
2.43.0


From 9140528f50e7fe69412dea1b404ed911716983e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 020/101] fix: predicted HOA coefficients beyond the number of
 coefficients

---
 decoder/impeghd_hoa_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 96b117d..db2a618 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -401,6 +401,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
           {
             WORD32 pred_id =
                 ia_core_coder_read_bits_buf(ptr_bit_buf, pstr_hoa_config->active_pred_ids_bits);
+            if (pred_id >= (WORD32)pstr_hoa_config->num_coeffs)
+            {
+              return IA_MPEGH_HOA_EXE_FATAL_SPATIAL_PROCESS_FAILED;
+            }
             ptr_frame_data->active_pred[pred_id] = 1;
             i++;
           }
-- 
2.43.0


From 037ec12baf296310b5f3e36ed27bfc43f02575b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:25 +0000
Subject: [PATCH 021/101] fix: sampling rates of the first configuration stay
 in force after a configuration change

---
 decoder/ia_core_coder_struct_def.h |  1 +
 decoder/impeghd_api.c              | 54 ++++++++++++++++++------------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/decoder/ia_core_coder_struct_def.h b/decoder/ia_core_coder_struct_def.h
index cca5e5f..f448573 100644
--- a/decoder/ia_core_coder_struct_def.h
+++ b/decoder/ia_core_coder_struct_def.h
@@ -87,6 +87,7 @@ typedef struct
   WORD32 ui_binaural_flag;
   WORD32 stream_samp_freq;
   UWORD32 out_samp_freq;
+  UWORD32 resamp_freq;
   WORD32 resample_output;
   WORD32 output_framelength;
   WORD32 fac_up;
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 006f985..627968a 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -201,12 +201,42 @@ IA_ERRORCODE impeghd_resampler_get_sampling_ratio(ia_mpegh_dec_config_struct *pt
     ptr_config->fac_down = 1;
     ptr_config->fac_up = 3;
     break;
+  default:
+    return IA_MPEGH_DEC_INIT_NONFATAL_INVALID_RESAMPLE_RATIO;
   }
   ptr_config->output_framelength =
       (AUDIO_CODEC_FRAME_SIZE_MAX * ptr_config->fac_up) / ptr_config->fac_down;
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
+/**
+ *  impeghd_set_sampling_rates
+ *
+ *  \brief Set the output sampling rate of the stream configuration in force. The rate of the
+ *         stream is kept if no other one is requested, or if it can not be converted.
+ *
+ *  \param [in,out] ptr_config Pointer to decoder configuration structure
+ *
+ *
+ */
+static VOID impeghd_set_sampling_rates(ia_mpegh_dec_config_struct *ptr_config)
+{
+  ptr_config->stream_samp_freq = ptr_config->ui_samp_freq;
+  if ((ptr_config->resamp_freq != 0) && (ptr_config->resamp_freq != ptr_config->ui_samp_freq))
+  {
+    ptr_config->out_samp_freq = ptr_config->resamp_freq;
+    if (impeghd_resampler_get_sampling_ratio(ptr_config) == IA_MPEGH_DEC_NO_ERROR)
+    {
+      return;
+    }
+  }
+  ptr_config->out_samp_freq = ptr_config->ui_samp_freq;
+  ptr_config->output_framelength = AUDIO_CODEC_FRAME_SIZE_MAX;
+  ptr_config->fac_down = 1;
+  ptr_config->fac_up = 1;
+  ptr_config->resample_output = 0;
+}
+
 /**
  *  impeghd_set_default_config
  *
@@ -783,28 +813,9 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ptr_mae_audio_scene_info->asi_present = 1;
   }
 
+  p_obj_mpegh_dec->mpeghd_config.resamp_freq =
+      (pstr_input_config->enable_resamp == 1) ? pstr_input_config->out_samp_freq : 0;
   err_code = ia_core_coder_dec_init(p_obj_mpegh_dec);
-  if (pstr_input_config->enable_resamp == 1)
-  {
-    IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
-    if (p_obj_mpegh_dec->mpeghd_config.ui_samp_freq != pstr_input_config->out_samp_freq)
-    {
-      p_obj_mpegh_dec->mpeghd_config.out_samp_freq = pstr_input_config->out_samp_freq;
-      p_obj_mpegh_dec->mpeghd_config.stream_samp_freq =
-          p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-      err_code = impeghd_resampler_get_sampling_ratio(&p_obj_mpegh_dec->mpeghd_config);
-      if (err_code)
-      {
-        pstr_input_config->enable_resamp = 0;
-      }
-    }
-  }
-  else
-  {
-    p_obj_mpegh_dec->mpeghd_config.out_samp_freq = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-    p_obj_mpegh_dec->mpeghd_config.stream_samp_freq =
-        p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-  }
   if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
   {
     ia_binaural_in_stream_cfg_str wav_info;
@@ -1304,6 +1315,7 @@ ia_core_coder_dec_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
           WORD32 out_bytes = 0;
           WORD32 frames_done = p_obj_mpegh_dec->p_state_mpeghd->frame_counter;
           p_obj_mpegh_dec->p_state_mpeghd->flush = 0;
+          impeghd_set_sampling_rates(&p_obj_mpegh_dec->mpeghd_config);
           error_code = ia_core_coder_dec_main(p_obj_mpegh_dec, inbuffer, outbuffer, &out_bytes,
                                               frames_done, pcm_size,
                                               &p_obj_mpegh_dec->p_state_mpeghd->num_of_output_ch);
-- 
2.43.0


From ad879fe0713a6683499aca6f89d2256ad5eaf35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:57 +0000
Subject: [PATCH 022/101] fix: the downmix renderer of the format converter
 works on stale scratch memory

---
 decoder/ia_core_coder_decode_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index b4b5b58..4204bfc 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -663,7 +663,7 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
       ptr_scratch += sizeof(*pstr_obj_renderer);
       ia_oam_dec_config_struct *p_obj_md_cfg = (ia_oam_dec_config_struct *)ptr_scratch;
 
-      memset(&pstr_obj_renderer->str_obj_md_dec_state, 0, sizeof(*p_obj_md_cfg));
+      memset(pstr_obj_renderer, 0, sizeof(*pstr_obj_renderer));
 
       pstr_obj_renderer->str_obj_md_dec_state.p_obj_md_cfg = p_obj_md_cfg;
       pstr_obj_renderer->str_obj_md_dec_state.num_objects = num_out_chn;
-- 
2.43.0


From 6a1c8e61d1faf3d94a6177d70d335585a8217caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 023/101] fix: loudspeaker geometry pointers of the format
 converter uninitialised for layout types 1 and 3

---
 decoder/impeghd_format_conv_init.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/decoder/impeghd_format_conv_init.c b/decoder/impeghd_format_conv_init.c
index 64ad1be..ebb71c3 100644
--- a/decoder/impeghd_format_conv_init.c
+++ b/decoder/impeghd_format_conv_init.c
@@ -511,6 +511,10 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
   ptr_io_gain = params->init_scratch.in_out_gain;
   ptr_io_dst = params->init_scratch.in_out_dst;
   ptr_io_proc = params->init_scratch.in_out_proc;
+  for (i = 0; i < CICP_MAX_CH; i++)
+  {
+    pstr_azi_ele[i] = (ia_cicp_ls_geo_str *)&ia_cicp_ls_geo_tbls[i];
+  }
   if (ref_spk_layout->spk_layout_type == 2)
   {
     for (i = 0; i < USED_CHANNEL; i++)
@@ -654,14 +658,6 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
     }
     ref_spk_layout->spk_layout_type = 0;
   }
-  if (ref_spk_layout->spk_layout_type == 1)
-  {
-    for (i = 0; i < out_chn_num; i++)
-    {
-      pstr_azi_ele[i] =
-          (ia_cicp_ls_geo_str *)&ia_cicp_ls_geo_tbls[ref_spk_layout->cicp_spk_idx[i]];
-    }
-  }
   channel = 0;
   for (i = 0; i < (UWORD32)num_in_ch; i++)
   {
-- 
2.43.0


From 178e45e4f7aa8737a34f8189eae318133d39ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:40 +0000
Subject: [PATCH 024/101] fix: a repeated configuration disturbs the decoder
 state

---
 decoder/ia_core_coder_decode_main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 4204bfc..891dc98 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2529,6 +2529,11 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
                    pac_info.packet_length);
             mpegh_dec_handle->prev_cfg_len = pac_info.packet_length;
           }
+          else if (handle->p_state_mpeghd->frame_counter != 0)
+          {
+            /* the configuration in force is repeated */
+            return IA_MPEGH_DEC_NO_ERROR;
+          }
           pstr_dec_data->dec_bit_buf.bit_pos = bit_pos;
           pstr_dec_data->dec_bit_buf.cnt_bits = cnt_bits;
           pstr_dec_data->dec_bit_buf.ptr_read_next = ptr_read_next;
-- 
2.43.0


From e3d18467ee04615e226f5ed3d6df8845f4dbad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 025/101] fix: loudspeaker names of the input channels can be
 stale

---
 decoder/ia_core_coder_decode_main.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 891dc98..6bb2d7a 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -564,6 +564,7 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
     pstr_fc_state = &p_obj_mpegh_dec->p_state_mpeghd->state_format_conv;
     pstr_format_conv = &pstr_decoder->str_format_converter;
     ptr_chn_in = &pstr_fc_state->format_in_chan[0];
+    memset(pstr_fc_state->format_in_chan, 0, sizeof(pstr_fc_state->format_in_chan));
     for (i = 0; i < (WORD32)pstr_signals_3d->num_sig_group; i++)
     {
 
@@ -571,7 +572,13 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
       {
         WORD32 cicp_idx = pstr_signals_3d->audio_ch_layout[i].cicp_spk_layout_idx;
 
-        if (pstr_signals_3d->differs_from_ref_layout[i] == 1)
+        if (pstr_signals_3d->differs_from_ref_layout[i] == 1 &&
+            pstr_signals_3d->audio_ch_layout[i].spk_layout_type == 1)
+        {
+          num_chnl_in = pstr_signals_3d->audio_ch_layout[i].num_speakers;
+          ptr_chn_in_name = pstr_signals_3d->audio_ch_layout[i].cicp_spk_idx;
+        }
+        else if (pstr_signals_3d->differs_from_ref_layout[i] == 1)
         {
           num_chnl_in = impgehd_cicp_get_num_ls[cicp_idx];
           ptr_chn_in_name = ia_cicp_idx_ls_set_map_tbl[cicp_idx];
-- 
2.43.0


From 03d50d8c783a0d7f403083903e2451bb818fd5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 026/101] fix: user interaction packets change the rendering
 although they are skipped

---
 decoder/impeghd_mhas_parse.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index db660f5..4648fdf 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -1367,7 +1367,6 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
     break;
     case MHAS_PAC_TYP_USERINTERACTION:
     {
-      pstr_mae_asi->ei_present = 1;
       /* Currently these bytes are skipped.*/
       temp = pkt_len << 3;
       ia_core_coder_skip_bits_buf(pstr_bit_buf, temp);
-- 
2.43.0


From f3d0ab6afb15076f563f303c2955ba055c8a2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 027/101] fix: one parameter out of range keeps the parameters
 after it from being used

An out-of-range layout, preset, word size or effect ended the evaluation of the
configuration, so valid word sizes, output rates, effects and target loudness
given with it were ignored. A negative layout, preset or target loudness was
accepted or switched loudness normalisation on, and the target loudness was
rewritten in the caller's structure, so that creating a second decoder from it
used another value.
---
 decoder/impeghd_api.c | 44 ++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 627968a..a734439 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -286,33 +286,37 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
     p_obj_mpegh_dec->mpeghd_config.ui_mhas_flag = ptr_input_config->ui_mhas_flag;
   }
 
-  if ((ptr_input_config->ui_cicp_layout_idx != IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL) &&
+  /* A parameter that is out of range leaves its default in force, the others still apply */
+  if ((ptr_input_config->ui_cicp_layout_idx > IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL) &&
       (ptr_input_config->ui_cicp_layout_idx < NUM_LS_CFGS))
   {
     p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx = ptr_input_config->ui_cicp_layout_idx;
   }
   else if (ptr_input_config->ui_cicp_layout_idx != IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL)
   {
-    return IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_CICP_INDEX;
+    err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_CICP_INDEX;
   }
 
-  if ((ptr_input_config->i_preset_id != IMPEGHD_CONFIG_PARAM_PRESET_ID_DFLT_VAL) &&
+  if ((ptr_input_config->i_preset_id > IMPEGHD_CONFIG_PARAM_PRESET_ID_DFLT_VAL) &&
       (ptr_input_config->i_preset_id < IMPEGHD_CONFIG_PARAM_PRESET_ID_MAX_VAL))
   {
     p_obj_mpegh_dec->mpeghd_config.i_preset_id = ptr_input_config->i_preset_id;
   }
   else if (ptr_input_config->i_preset_id != IMPEGHD_CONFIG_PARAM_PRESET_ID_DFLT_VAL)
   {
-    return IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PRESET_ID;
+    err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PRESET_ID;
   }
 
   if ((ptr_input_config->ui_pcm_wd_sz != 16) && (ptr_input_config->ui_pcm_wd_sz != 24) &&
       (ptr_input_config->ui_pcm_wd_sz != 32))
   {
     p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz = 16;
-    return (IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PCM_WDSZ);
+    err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PCM_WDSZ;
+  }
+  else
+  {
+    p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz = ptr_input_config->ui_pcm_wd_sz;
   }
-  p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz = ptr_input_config->ui_pcm_wd_sz;
 
   if (ptr_input_config->enable_resamp)
   {
@@ -323,30 +327,28 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
   {
     if ((ptr_input_config->ui_effect > 8) || (ptr_input_config->ui_effect < 0))
     {
-      p_obj_mpegh_dec->mpeghd_config.ui_effect_type = 0;
-      p_obj_mpegh_dec->mpeghd_config.drc_apply = 1;
-      return (IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_EFFECT_TYPE);
+      err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_EFFECT_TYPE;
+    }
+    else
+    {
+      p_obj_mpegh_dec->mpeghd_config.ui_effect_type = ptr_input_config->ui_effect;
     }
-    p_obj_mpegh_dec->mpeghd_config.ui_effect_type = ptr_input_config->ui_effect;
   }
 
   if (ptr_input_config->ui_target_loudness[0] == 1)
   {
-    if (ptr_input_config->ui_target_loudness[1] >= 0)
+    WORD32 target_loudness = -(ptr_input_config->ui_target_loudness[1] >> 2);
+    if ((target_loudness > 0) || (target_loudness < -63))
     {
-      p_obj_mpegh_dec->mpeghd_config.ui_loud_norm_flag = 1;
-      p_obj_mpegh_dec->mpeghd_config.drc_apply = 1;
+      err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_TARGET_LOUDNESS;
     }
-    ptr_input_config->ui_target_loudness[1] = -(ptr_input_config->ui_target_loudness[1] >> 2);
-    if (((ptr_input_config->ui_target_loudness[1]) > 0) ||
-        ((ptr_input_config->ui_target_loudness[1]) < -63))
+    else
     {
-      p_obj_mpegh_dec->mpeghd_config.ui_target_loudness = 0;
-      p_obj_mpegh_dec->mpeghd_config.drc_apply = 0;
-      return (IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_TARGET_LOUDNESS);
+      p_obj_mpegh_dec->mpeghd_config.ui_loud_norm_flag = 1;
+      p_obj_mpegh_dec->mpeghd_config.drc_apply = 1;
+      p_obj_mpegh_dec->mpeghd_config.ui_target_loudness = target_loudness;
+      p_obj_mpegh_dec->mpeghd_config.ui_target_loudness_set = 1;
     }
-    p_obj_mpegh_dec->mpeghd_config.ui_target_loudness = ptr_input_config->ui_target_loudness[1];
-    p_obj_mpegh_dec->mpeghd_config.ui_target_loudness_set = 1;
   }
   return err_code;
 }
-- 
2.43.0


From cdae88a1c1ad3432467a9f52f195c653aa6a1c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 028/101] fix: target layout 20 is documented but refused,
 undefined layout 8 accepted

---
 decoder/impeghd_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index a734439..31e3818 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -288,7 +288,8 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
 
   /* A parameter that is out of range leaves its default in force, the others still apply */
   if ((ptr_input_config->ui_cicp_layout_idx > IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL) &&
-      (ptr_input_config->ui_cicp_layout_idx < NUM_LS_CFGS))
+      (ptr_input_config->ui_cicp_layout_idx <= NUM_LS_CFGS) &&
+      (impgehd_cicp_get_num_ls[ptr_input_config->ui_cicp_layout_idx] > 0))
   {
     p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx = ptr_input_config->ui_cicp_layout_idx;
   }
-- 
2.43.0


From 956a77915df59cfcee0469cdee712a640e1b78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 029/101] fix: flexible reference layout with target layout 20
 writes into constant tables

Loudspeakers missing from ia_channel_names kept pointing to the constant
geometry table, which was then written to.
---
 decoder/impeghd_format_conv_init.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_format_conv_init.c b/decoder/impeghd_format_conv_init.c
index ebb71c3..1db2d2d 100644
--- a/decoder/impeghd_format_conv_init.c
+++ b/decoder/impeghd_format_conv_init.c
@@ -517,12 +517,10 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
   }
   if (ref_spk_layout->spk_layout_type == 2)
   {
-    for (i = 0; i < USED_CHANNEL; i++)
+    for (i = 0; i < CICP_MAX_CH; i++)
     {
-      name_chn = ia_channel_names[i];
-      pstr_azi_ele[name_chn] = &pstr_azi_elev_array[name_chn];
-      pstr_azi_ele[name_chn]->ls_azimuth = ia_cicp_ls_geo_tbls[name_chn].ls_azimuth;
-      pstr_azi_ele[name_chn]->ls_elevation = ia_cicp_ls_geo_tbls[name_chn].ls_elevation;
+      pstr_azi_elev_array[i] = ia_cicp_ls_geo_tbls[i];
+      pstr_azi_ele[i] = &pstr_azi_elev_array[i];
     }
     for (i = 0; i < out_chn_num; i++)
     {
-- 
2.43.0


From ea3f054e43590e8a34ef96d599005591f1f8e84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 030/101] fix: loudness normalisation gain missing with
 resampled or binaural output

---
 decoder/ia_core_coder_decode_main.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 6bb2d7a..ab5d35d 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1521,6 +1521,22 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
   {
     ptr_audio_buff[i] = &pstr_dec_data->str_usac_data.time_sample_vector[i][0];
   }
+  if (gain_db_loudness_normalization != 0.0f)
+  {
+    /* The signals of the loudspeakers, ahead of the sampling rate conversion, or those of the
+     * binaural renderer */
+    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
+    for (i = 0; i < *ptr_num_out_chnl; i++)
+    {
+      FLOAT32 *ptr_gain_buff = ptr_config->ui_binaural_flag
+                                   ? pstr_dec_data->ptr_binaural_output[i]
+                                   : ptr_audio_buff[i];
+      for (j = 0; j < frame_length; j++)
+      {
+        ptr_gain_buff[j] = ia_mul_flt(ptr_gain_buff[j], gain);
+      }
+    }
+  }
   if (ptr_config->resample_output)
   {
     FLOAT32 *ptr_resamp_scratch =
@@ -1538,18 +1554,6 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
     pstr_mpegh_dec->ui_out_bytes =
         frame_length * (*ptr_num_out_chnl) * (ptr_config->ui_pcm_wdsz >> 3);
   }
-  if (gain_db_loudness_normalization != 0.0f)
-  {
-
-    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
-    for (i = 0; i < *ptr_num_out_chnl; i++)
-    {
-      for (j = 0; j < frame_length; j++)
-      {
-        ptr_audio_buff[i][j] = ia_mul_flt(ptr_audio_buff[i][j], gain);
-      }
-    }
-  }
   if (peak_lim_flag)
   {
     impegh_dec_peak_limiter(ptr_config, pstr_dec_data, ptr_num_out_chnl, ptr_out_buf,
-- 
2.43.0


From 4f3aa9cec9c34af37c55d034b68be2bf899c1552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 031/101] fix: division by zero with intelligent gap filling at
 a sampling rate of 1 Hz

---
 decoder/ia_core_coder_igf_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_igf_dec.c b/decoder/ia_core_coder_igf_dec.c
index 97c2071..f808ea6 100644
--- a/decoder/ia_core_coder_igf_dec.c
+++ b/decoder/ia_core_coder_igf_dec.c
@@ -597,7 +597,7 @@ static WORD32 ia_core_coder_igf_get_igf_min(WORD32 igf_win_type, WORD32 ccfl, WO
     break;
   }
 
-  igf_min = (WORD32)((bl * 1125) / (fs >> 1));
+  igf_min = (WORD32)((bl * 2250) / fs);
   igf_min += igf_min % 2;
 
   return igf_min;
-- 
2.43.0


From 54bf090762cbb9ef40eff14dee421c0e3d0d90df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 032/101] fix: width of the spread depth in absolute dynamic
 object metadata

---
 decoder/impeghd_oam_dec_ld.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 29e074b..3e4a55d 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -447,7 +447,7 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
         ptr_oam_dec_state->spread_height[obj_idx] =
             ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
         ptr_oam_dec_state->spread_depth[obj_idx] =
-            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
+            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_DEPTH_BITS);
       }
       else
       {
-- 
2.43.0


From 535727f29e502d237ff7b5b6b8f05643b45c5419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 033/101] fix: object priority read when fixed, not when it
 varies

---
 decoder/impeghd_oam_dec_ld.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 3e4a55d..4a76cd8 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -459,11 +459,6 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
     {
       if (!ptr_oam_dec_state->dynamic_obj_priority_fixed)
       {
-        ptr_oam_dec_state->dyn_obj_priority[obj_idx] = 0;
-      }
-      else
-      {
-        ptr_oam_dec_state->dyn_obj_priority[obj_idx] = 0;
         ptr_oam_dec_state->dyn_obj_priority[obj_idx] =
             ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_DYN_OBJ_PRI_BITS);
       }
-- 
2.43.0


From 7b680221e561ca304866ce7085c13c2076dcd6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 034/101] fix: fixed object parameters reset to zero by dynamic
 metadata frames

---
 decoder/impeghd_oam_dec_ld.c | 38 +++++-------------------------------
 1 file changed, 5 insertions(+), 33 deletions(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 4a76cd8..f535a16 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -379,12 +379,6 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
         }
       }
     }
-    else
-    {
-      ptr_oam_dec_state->spread_width[obj_idx] = 0;
-      ptr_oam_dec_state->spread_height[obj_idx] = 0;
-      ptr_oam_dec_state->spread_depth[obj_idx] = 0;
-    }
     if (ptr_oam_dec_state->p_obj_md_cfg->dyn_obj_priority_present)
     {
       if (ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS))
@@ -397,48 +391,26 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
   }
   else
   {
-    if (ptr_oam_dec_state->azimuth_fixed)
-    {
-      ptr_oam_dec_state->azimuth[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->azimuth_fixed)
     {
       ptr_oam_dec_state->azimuth[obj_idx] =
           impeghd_oam_read_sign_param(ptr_bit_buf, OAM_AZIMUTH_BITS);
     }
-    if (ptr_oam_dec_state->elevation_fixed)
-    {
-      ptr_oam_dec_state->elevation[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->elevation_fixed)
     {
       ptr_oam_dec_state->elevation[obj_idx] =
           impeghd_oam_read_sign_param(ptr_bit_buf, OAM_ELEVATION_BITS);
     }
-    if (ptr_oam_dec_state->radius_fixed)
-    {
-      ptr_oam_dec_state->radius[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->radius_fixed)
     {
       ptr_oam_dec_state->radius[obj_idx] =
           ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_RADIUS_BITS);
     }
-    if (ptr_oam_dec_state->gain_fixed)
-    {
-      ptr_oam_dec_state->gain[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->gain_fixed)
     {
       ptr_oam_dec_state->gain[obj_idx] = impeghd_oam_read_sign_param(ptr_bit_buf, OAM_GAIN_BITS);
     }
-    if (ptr_oam_dec_state->spread_fixed)
-    {
-      ptr_oam_dec_state->spread_width[obj_idx] = 0;
-      ptr_oam_dec_state->spread_height[obj_idx] = 0;
-      ptr_oam_dec_state->spread_depth[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->spread_fixed)
     {
       if (!ptr_oam_dec_state->p_obj_md_cfg->uniform_spread_present)
       {
-- 
2.43.0


From ec9eadb679012c5c06d2a6b343b2bb148e1b7f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 035/101] fix: limits and fixed spread of object metadata
 beyond the first sub-frame

---
 decoder/impeghd_oam_dec_ld.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index f535a16..0dcfcbe 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -70,13 +70,14 @@
  */
 static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state)
 {
-  WORD32 n, num_elements;
+  WORD32 n, obj_start_idx, obj_end_idx;
   FLOAT32 minval, maxval;
-  num_elements = ptr_oam_dec_state->num_objects;
+  obj_start_idx = (ptr_oam_dec_state->sub_frame_number - 1) * ptr_oam_dec_state->num_objects;
+  obj_end_idx = ptr_oam_dec_state->sub_frame_number * ptr_oam_dec_state->num_objects;
   /* radius */
   maxval = 16.f;
   minval = 0.5f;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->radius_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->radius_descaled[n], minval), maxval);
@@ -84,7 +85,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* elevation */
   maxval = 90;
   minval = -90;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->elevation_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->elevation_descaled[n], minval), maxval);
@@ -92,7 +93,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* azimuth */
   maxval = 180;
   minval = -180;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->azimuth_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->azimuth_descaled[n], minval), maxval);
@@ -100,7 +101,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* gain */
   maxval = 5.957f;
   minval = 0.004f;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->gain_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->gain_descaled[n], minval), maxval);
@@ -108,7 +109,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* spread */
   maxval = 180;
   minval = 0;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->spread_width_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->spread_width_descaled[n], minval), maxval);
@@ -118,7 +119,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread depth */
     maxval = 15.5f;
     minval = 0.0f;
-    for (n = 0; n < num_elements; n++)
+    for (n = obj_start_idx; n < obj_end_idx; n++)
     {
       ptr_oam_dec_state->spread_depth_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_depth_descaled[n], minval), maxval);
@@ -126,7 +127,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread height */
     maxval = 90;
     minval = 0;
-    for (n = 0; n < num_elements; n++)
+    for (n = obj_start_idx; n < obj_end_idx; n++)
     {
       ptr_oam_dec_state->spread_height_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_height_descaled[n], minval), maxval);
@@ -135,7 +136,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* dynamic object priority */
   maxval = 7.0f;
   minval = 0.0f;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->dyn_obj_priority_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->dyn_obj_priority_descaled[n], minval), maxval);
@@ -597,7 +598,7 @@ static IA_ERRORCODE impeghd_ic_obj_md_ld_dec(ia_oam_dec_state_struct *ptr_oam_de
       if (ptr_oam_dec_state->p_obj_md_cfg->uniform_spread_present)
       {
         param_val = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_WIDTH_BITS);
-        for (i = 0; i < num_objects; i++)
+        for (i = obj_idx_start; i < obj_idx_end; i++)
         {
           ptr_oam_dec_state->spread_width[i] = param_val;
         }
-- 
2.43.0


From ac07474bc305ffd2c8d2f3d17b3e84cfc730bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 036/101] fix: presence of object metadata recorded for the
 first object only

---
 decoder/impeghd_oam_dec_ld.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 0dcfcbe..2e789ff 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -710,7 +710,7 @@ IA_ERRORCODE impeghd_obj_md_low_delay_dec(ia_oam_dec_state_struct *ptr_oam_dec_s
     for (i = obj_start_idx; i < obj_end_idx; i++)
     {
       WORD32 obj_md_present = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS);
-      ptr_oam_dec_state->has_obj_md[obj_start_idx] = obj_md_present;
+      ptr_oam_dec_state->has_obj_md[i] = obj_md_present;
       if (obj_md_present)
       {
         err_code = impeghd_single_dyn_obj_md(ptr_oam_dec_state, ptr_bit_buf, flag_absolute, i);
@@ -723,6 +723,12 @@ IA_ERRORCODE impeghd_obj_md_low_delay_dec(ia_oam_dec_state_struct *ptr_oam_dec_s
   }
   else
   {
+    WORD32 num_objects = ptr_oam_dec_state->num_objects;
+    WORD32 obj_start_idx = (ptr_oam_dec_state->sub_frame_number - 1) * num_objects;
+    for (i = obj_start_idx; i < obj_start_idx + num_objects; i++)
+    {
+      ptr_oam_dec_state->has_obj_md[i] = 1;
+    }
     err_code = impeghd_ic_obj_md_ld_dec(ptr_oam_dec_state, ptr_bit_buf);
   }
 
-- 
2.43.0


From b14deb80ca62ce84d6fdd9c6f04b06b93dd525c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 037/101] fix: object metadata differences relative to the
 wrong sub-frame

---
 decoder/impeghd_oam_dec_ld.c         | 37 +++++++++++++++++++++++++++-
 decoder/impeghd_oam_dec_struct_def.h |  1 +
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 2e789ff..109f298 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -683,6 +683,38 @@ VOID impeghd_descale_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state)
   return;
 }
 
+/**
+ *  impeghd_obj_md_copy_last
+ *
+ *  \brief Start the current sub-frame from the latest object metadata.
+ *
+ *  \param [in,out] ptr_oam_dec_state Object metadata decoder state structure.
+ *
+ */
+static VOID impeghd_obj_md_copy_last(ia_oam_dec_state_struct *ptr_oam_dec_state)
+{
+  WORD32 num_objects = ptr_oam_dec_state->num_objects;
+  WORD32 dst = (ptr_oam_dec_state->sub_frame_number - 1) * num_objects;
+  WORD32 src = (ptr_oam_dec_state->last_sub_frame_number - 1) * num_objects;
+  WORD32 i;
+
+  if (src >= 0)
+  {
+    for (i = 0; i < num_objects; i++)
+    {
+      ptr_oam_dec_state->azimuth[dst + i] = ptr_oam_dec_state->azimuth[src + i];
+      ptr_oam_dec_state->elevation[dst + i] = ptr_oam_dec_state->elevation[src + i];
+      ptr_oam_dec_state->radius[dst + i] = ptr_oam_dec_state->radius[src + i];
+      ptr_oam_dec_state->gain[dst + i] = ptr_oam_dec_state->gain[src + i];
+      ptr_oam_dec_state->spread_width[dst + i] = ptr_oam_dec_state->spread_width[src + i];
+      ptr_oam_dec_state->spread_height[dst + i] = ptr_oam_dec_state->spread_height[src + i];
+      ptr_oam_dec_state->spread_depth[dst + i] = ptr_oam_dec_state->spread_depth[src + i];
+      ptr_oam_dec_state->dyn_obj_priority[dst + i] = ptr_oam_dec_state->dyn_obj_priority[src + i];
+    }
+  }
+  ptr_oam_dec_state->last_sub_frame_number = ptr_oam_dec_state->sub_frame_number;
+}
+
 /**
  *  impeghd_obj_md_low_delay_dec
  *
@@ -699,7 +731,10 @@ IA_ERRORCODE impeghd_obj_md_low_delay_dec(ia_oam_dec_state_struct *ptr_oam_dec_s
 {
   WORD32 i;
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
-  WORD32 intra_obj_md_present = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS);
+  WORD32 intra_obj_md_present;
+
+  impeghd_obj_md_copy_last(ptr_oam_dec_state);
+  intra_obj_md_present = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS);
 
   if (!intra_obj_md_present)
   {
diff --git a/decoder/impeghd_oam_dec_struct_def.h b/decoder/impeghd_oam_dec_struct_def.h
index a5f082b..a5a9e93 100644
--- a/decoder/impeghd_oam_dec_struct_def.h
+++ b/decoder/impeghd_oam_dec_struct_def.h
@@ -73,6 +73,7 @@ typedef struct
   WORD32 sub_frame_obj_md_present[MAX_OAM_FRAMES];
   WORD32 num_objects;
   WORD32 sub_frame_number;
+  WORD32 last_sub_frame_number; /* sub-frame that holds the latest metadata, 0: none yet */
   WORD32 intra_frame_period;
   WORD32 sample[MAX_OAM_FRAMES * MAX_NUM_OAM_OBJS];
   WORD32 azimuth[MAX_OAM_FRAMES * MAX_NUM_OAM_OBJS];
-- 
2.43.0


From 84141d78c01f73ddbbc3e5bb0de7a070393020b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 038/101] fix: kept exclusion sectors forget whether they are
 predefined

---
 decoder/impeghd_oam_dec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoder/impeghd_oam_dec.c b/decoder/impeghd_oam_dec.c
index f3e03fc..5e2e6ae 100644
--- a/decoder/impeghd_oam_dec.c
+++ b/decoder/impeghd_oam_dec.c
@@ -272,6 +272,8 @@ IA_ERRORCODE impeghd_enh_obj_md_frame(ia_enh_obj_md_frame_str *p_enh_oj_md_frame
             p_enh_oj_md_frame->exclude_sector_min_az[obj][j];
         p_enh_oj_md_frame->prev_exclude_sector_index[obj][j] =
             p_enh_oj_md_frame->exclude_sector_index[obj][j];
+        p_enh_oj_md_frame->prev_use_predefined_sector[obj][j] =
+            p_enh_oj_md_frame->use_predefined_sector[obj][j];
       }
       p_enh_oj_md_frame->prev_num_exclusion_sectors[obj] =
           p_enh_oj_md_frame->num_exclusion_sectors[obj];
-- 
2.43.0


From 998b70fd20a56398bad10726aa5bbe6974d246c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 039/101] fix: metadata of objects in effect when sub-frames
 carry none

---
 decoder/ia_core_coder_decode_main.c | 23 ++++++-----------------
 decoder/impeghd_oam_dec.h           |  2 ++
 decoder/impeghd_oam_dec_ld.c        | 25 +++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index ab5d35d..e834872 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1395,23 +1395,9 @@ impeghd_obj_md_dec_ren_process(ia_dec_data_struct *pstr_dec_data, FLOAT32 *ptr_o
   else
   {
     WORD32 num_iter = (ccfl / p_obj_md_cfg->frame_length);
-    pstr_obj_md_dec_state->sub_frame_number = 0;
     for (i = 0; i < num_iter; i++)
     {
-      if (pstr_obj_md_dec_state->sub_frame_obj_md_present[i])
-      {
-        pstr_obj_md_dec_state->sub_frame_number++;
-        if (pstr_obj_md_dec_state->sub_frame_number > num_iter)
-        {
-          pstr_obj_md_dec_state->sub_frame_number =
-              pstr_obj_md_dec_state->sub_frame_number % num_iter;
-        }
-      }
-      else if (i == 0)
-      {
-        pstr_obj_md_dec_state->sub_frame_number = num_iter;
-      }
-
+      pstr_obj_md_dec_state->sub_frame_number = i + 1;
       impeghd_obj_renderer_dec(pstr_obj_ren_dec_state,
                                ptr_in_buf + i * (p_obj_md_cfg->frame_length),
                                ptr_out_buf + i * (p_obj_md_cfg->frame_length), ccfl);
@@ -2041,20 +2027,23 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
           {
             WORD32 sub_frm;
             WORD32 num_sub_frms = (ccfl / p_obj_md_cfg->frame_length);
-            pstr_obj_md_dec_state->sub_frame_number = 0;
             for (sub_frm = 0; sub_frm < num_sub_frms; sub_frm++)
             {
               pstr_obj_md_dec_state->sub_frame_obj_md_present[sub_frm] =
                   ia_core_coder_read_bits_buf(&bit_buf_str, OAM_FLAG_BITS);
+              pstr_obj_md_dec_state->sub_frame_number = sub_frm + 1;
               if (pstr_obj_md_dec_state->sub_frame_obj_md_present[sub_frm])
               {
-                pstr_obj_md_dec_state->sub_frame_number++;
                 err_code = impeghd_obj_md_dec(pstr_obj_md_dec_state, &bit_buf_str);
                 if (err_code != IA_MPEGH_DEC_NO_ERROR)
                 {
                   return err_code;
                 }
               }
+              else
+              {
+                impeghd_obj_md_hold(pstr_obj_md_dec_state);
+              }
             }
           }
           else
diff --git a/decoder/impeghd_oam_dec.h b/decoder/impeghd_oam_dec.h
index 3b5490f..bd230cc 100644
--- a/decoder/impeghd_oam_dec.h
+++ b/decoder/impeghd_oam_dec.h
@@ -45,6 +45,8 @@ IA_ERRORCODE impeghd_obj_md_cfg(ia_oam_dec_config_struct *p_obj_md_cfg,
 IA_ERRORCODE impeghd_obj_md_dec(ia_oam_dec_state_struct *ptr_oam_dec_state,
                                 ia_bit_buf_struct *ptr_bit_buf);
 
+VOID impeghd_obj_md_hold(ia_oam_dec_state_struct *ptr_oam_dec_state);
+
 VOID impeghd_descale_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state);
 
 IA_ERRORCODE impeghd_enh_obj_md_config(ia_enh_oam_config_struct *p_enh_obj_md_cfg,
diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 109f298..f6e28ee 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -715,6 +715,31 @@ static VOID impeghd_obj_md_copy_last(ia_oam_dec_state_struct *ptr_oam_dec_state)
   ptr_oam_dec_state->last_sub_frame_number = ptr_oam_dec_state->sub_frame_number;
 }
 
+/**
+ *  impeghd_obj_md_hold
+ *
+ *  \brief The current sub-frame carries no object metadata: the latest values stay in effect.
+ *
+ *  \param [in,out] ptr_oam_dec_state Object metadata decoder state structure.
+ *
+ */
+VOID impeghd_obj_md_hold(ia_oam_dec_state_struct *ptr_oam_dec_state)
+{
+  WORD32 num_objects = ptr_oam_dec_state->num_objects;
+  WORD32 start = (ptr_oam_dec_state->sub_frame_number - 1) * num_objects;
+  WORD32 i;
+
+  for (i = start; i < start + num_objects; i++)
+  {
+    ptr_oam_dec_state->has_obj_md[i] = 0;
+  }
+  if (ptr_oam_dec_state->last_sub_frame_number > 0)
+  {
+    impeghd_obj_md_copy_last(ptr_oam_dec_state);
+    impeghd_obj_md_descale_limit(ptr_oam_dec_state);
+  }
+}
+
 /**
  *  impeghd_obj_md_low_delay_dec
  *
-- 
2.43.0


From 747e757a664119c8306e805e721c2fc70ac1b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 040/101] fix: absent object metadata element repeats the
 previous payload

---
 decoder/ia_core_coder_decode_main.c | 27 ++++++++++++++++++++++-----
 decoder/ia_core_coder_process.c     |  7 +++++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index e834872..90ff3c3 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1990,12 +1990,15 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
         bit_buf_str.xmpeghd_jmp_buf = pstr_dec_data->dec_bit_buf.xmpeghd_jmp_buf;
         pstr_dec_data->str_enh_obj_md_frame.p_enh_obj_md_cfg =
             &pstr_audio_specific_cfg->str_usac_config.enh_obj_md_cfg;
-        err_code = impeghd_enh_obj_md_frame(&pstr_dec_data->str_enh_obj_md_frame, &bit_buf_str,
-                                            pstr_obj_md_dec_state->num_objects,
-                                            pstr_dec_data->str_usac_data.usac_independency_flg);
-        if (err_code != IA_MPEGH_DEC_NO_ERROR)
+        if (bit_buf_size > 0)
         {
-          return err_code;
+          err_code = impeghd_enh_obj_md_frame(&pstr_dec_data->str_enh_obj_md_frame, &bit_buf_str,
+                                              pstr_obj_md_dec_state->num_objects,
+                                              pstr_dec_data->str_usac_data.usac_independency_flg);
+          if (err_code != IA_MPEGH_DEC_NO_ERROR)
+          {
+            return err_code;
+          }
         }
         pstr_dec_data->str_enh_obj_md_frame.oam_has_been_decoded = 1;
         break;
@@ -2056,6 +2059,20 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
             }
           }
         }
+        else
+        {
+          ia_oam_dec_state_struct *pstr_obj_md_dec_state =
+              &pstr_dec_data->str_obj_ren_dec_state.str_obj_md_dec_state;
+          WORD32 frame_length = pstr_dec_data->str_frame_data.str_audio_specific_config
+                                    .str_usac_config.obj_md_cfg.frame_length;
+          WORD32 num_sub_frms = (frame_length < ccfl) ? (ccfl / frame_length) : 1;
+          WORD32 sub_frm;
+          for (sub_frm = 1; sub_frm <= num_sub_frms; sub_frm++)
+          {
+            pstr_obj_md_dec_state->sub_frame_number = sub_frm;
+            impeghd_obj_md_hold(pstr_obj_md_dec_state);
+          }
+        }
         break;
       }
       }
diff --git a/decoder/ia_core_coder_process.c b/decoder/ia_core_coder_process.c
index 567b074..91713d4 100644
--- a/decoder/ia_core_coder_process.c
+++ b/decoder/ia_core_coder_process.c
@@ -285,6 +285,13 @@ ia_core_coder_read_ext_element(UWORD32 usac_ext_ele_default_length,
   WORD32 i;
   usac_ext_element_present = ia_core_coder_read_bits_buf(it_bit_buff, 1);
 
+  if (pstr_usac_dec_config->ia_ext_ele_payload_type[elem_idx] == ID_MPEGH_EXT_ELE_OAM ||
+      pstr_usac_dec_config->ia_ext_ele_payload_type[elem_idx] ==
+          ID_MPEGH_EXT_ELE_ENHANCED_OBJ_METADATA)
+  {
+    pstr_usac_dec_config->usac_ext_gain_payload_len[elem_idx] = 0;
+  }
+
   if (usac_ext_element_present)
   {
     usac_ext_element_use_dft_length = ia_core_coder_read_bits_buf(it_bit_buff, 1);
-- 
2.43.0


From a5d0812f278be08f9f35b76800cf873e1af1bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 041/101] fix: geometry of loudspeakers given one by one read
 through an uninitialised pointer

---
 decoder/ia_core_coder_init_config.c | 40 +++++++++++------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 1a6fd8c..c8738be 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1954,12 +1954,11 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
                                           WORD32 *num_lfes)
 {
   UWORD32 i;
-  ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-  WORD32 in_num_channels, in_num_lfes;
+  const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry;
   if (speaker_config_3d->spk_layout_type == 0)
   {
-    impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx, ptr_geometry,
-                                          num_channels, num_lfes);
+    return impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx,
+                                                 ptr_geometry, num_channels, num_lfes);
   }
   else if (speaker_config_3d->spk_layout_type < 3)
   {
@@ -1982,20 +1981,16 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
         }
         else
         {
-          const WORD32 **in_channel_names;
-          impeghd_cicpidx_2_ls_geometry(
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx,
-              (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i], &in_num_channels,
-              &in_num_lfes, (const WORD32 **)&in_channel_names);
           ptr_geometry[i].cicp_loudspeaker_idx =
               speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-          ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+          ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[ptr_geometry[i].cicp_loudspeaker_idx];
+          ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
           ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         }
-        if (speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_lfe != 0)
+        if (ptr_geometry[i].lfe != 0)
         {
           (*num_lfes)++;
           (*num_channels)--;
@@ -2009,18 +2004,13 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
       *num_channels = speaker_config_3d->num_speakers;
       for (i = 0; i < speaker_config_3d->num_speakers; i++)
       {
-        const WORD32 **in_channel_names;
-        impeghd_cicpidx_2_ls_geometry(speaker_config_3d->cicp_spk_idx[i],
-                                      (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i],
-                                      &in_num_channels, &in_num_lfes,
-                                      (const WORD32 **)&in_channel_names);
-        ptr_geometry[i].cicp_loudspeaker_idx =
-            speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-        ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+        ptr_geometry[i].cicp_loudspeaker_idx = speaker_config_3d->cicp_spk_idx[i];
+        ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[ptr_geometry[i].cicp_loudspeaker_idx];
+        ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
         ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         if ((speaker_config_3d->cicp_spk_idx[i] == 3) ||
             (speaker_config_3d->cicp_spk_idx[i] == 26))
         {
-- 
2.43.0


From d902ee0f2b0b42c3ebb0b600e8a375f78ace00b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 042/101] fix: loudspeaker and layout indices without a
 geometry accepted in side data

---
 decoder/ia_core_coder_init_config.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c8738be..5ec20ef 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1779,6 +1779,7 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
                                        ia_interface_speaker_config_3d *spk_config_3d)
 {
   UWORD32 i;
+  IA_ERRORCODE err = IA_MPEGH_DEC_NO_ERROR;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   spk_config_3d->spk_layout_type = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 2);
   if (spk_config_3d->spk_layout_type == 0)
@@ -1799,7 +1800,7 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     {
     case 2:
     {
-      IA_ERRORCODE err =
+      err =
           impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
                                   spk_config_3d->num_speakers);
       if (err)
@@ -1813,16 +1814,22 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
       for (i = 0; i < spk_config_3d->num_speakers; i++)
       {
         spk_config_3d->cicp_spk_idx[i] = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 7);
+        if (spk_config_3d->cicp_spk_idx[i] >= CICP_MAX_CH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX;
+        }
       }
       break;
     }
     }
   }
-  impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
-                               &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
-
+  err = impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
+                                     &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  if (err)
+  {
+    return err;
+  }
   spk_config_3d->num_speakers = spk_config_3d->num_ch + spk_config_3d->num_lfes;
-
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
-- 
2.43.0


From 79fda1016220712c2cc8bb60f17848f72aed99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 043/101] fix: local set-up with bad loudspeaker data accepted,
 its count unbounded

---
 decoder/impeghd_ele_interaction_intrfc.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index d376745..8798c6d 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -105,8 +105,17 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
 {
   UWORD32 ld_spk;
   UWORD32 num_loudspk = 0, has_loud_spk_dist = 0, has_loud_spk_calibration_gain = 0;
+  IA_ERRORCODE err_code;
   num_loudspk = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
-  impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
+  if (num_loudspk > MAX_NUM_CHANNELS)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+  }
+  err_code = impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
+  if (err_code)
+  {
+    return err_code;
+  }
   has_loud_spk_dist = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   has_loud_spk_calibration_gain = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   pstr_local_setup_data->use_tracking_mode = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
@@ -566,7 +575,11 @@ IA_ERRORCODE impeghd_3da_local_setup_information(ia_bit_buf_struct *ptr_bit_buf,
     }
     break;
   case 0:
-    impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    err_code = impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err_code;
+    }
     impeghd_loud_spk_inv_quant(pstr_local_setup_data);
     break;
   }
-- 
2.43.0


From db762c9c3cc094ca5c77633f98e9b14defca8a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 044/101] fix: widths of the loudspeaker distance and
 calibration gain in the local set-up

---
 decoder/impeghd_ele_interaction_intrfc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index 8798c6d..9bea539 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -144,7 +144,7 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
     }
     if (has_loud_spk_dist)
     {
-      pstr_local_setup_data->loud_spk_dist[ld_spk] = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
+      pstr_local_setup_data->loud_spk_dist[ld_spk] = ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
 
       /*loudspeakerDistance shall not be 0*/
       if (pstr_local_setup_data->loud_spk_dist[ld_spk] == 0)
@@ -155,7 +155,7 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
     if (has_loud_spk_calibration_gain)
     {
       pstr_local_setup_data->loud_spk_calibration_gain[ld_spk] =
-          (FLOAT32)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
+          (FLOAT32)ia_core_coder_read_bits_buf(ptr_bit_buf, 7);
     }
   }
   pstr_local_setup_data->ext_dist_compensation = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
-- 
2.43.0


From 7b7000b930550c4863d3639ce1d5d6891fe9cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 045/101] fix: zoom area and wire ids of the interaction data
 cut to 8 bits

---
 decoder/impeghd_ele_interaction_intrfc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index 9bea539..85ecc80 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -341,7 +341,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
     else
     {
       ptr_ele_intrctn->route_to_wire_id[grp] =
-          (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
+          ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
     }
     if (ptr_ele_intrctn->ei_on_off[grp] == 1)
     {
@@ -462,10 +462,10 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
 static IA_ERRORCODE impeghd_lcl_zoom_area_size(ia_bit_buf_struct *ptr_bit_buf,
                                                ia_ele_intrctn *ptr_ele_intrctn)
 {
-  ptr_ele_intrctn->zoom_az_center = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
-  ptr_ele_intrctn->zoom_az = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
-  ptr_ele_intrctn->zoom_el_center = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 9);
-  ptr_ele_intrctn->zoom_el = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_az_center = ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_az = ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_el_center = ia_core_coder_read_bits_buf(ptr_bit_buf, 9);
+  ptr_ele_intrctn->zoom_el = ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
-- 
2.43.0


From 664e187279e803b757a030c0692c6dfa5e1584e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 046/101] fix: interaction data naming a group that does not
 exist accepted

---
 decoder/impeghd_ele_interaction_intrfc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index 85ecc80..7a5a3fe 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -319,6 +319,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
     ptr_ele_intrctn->ei_grp_id[grp] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 7);
     if (str_mae_asi->asi_present)
     {
+      valid_id = 0;
       for (WORD32 grp1 = 0; grp1 < str_mae_asi->num_groups; grp1++)
       {
         if (str_mae_asi->group_definition[grp1].group_id == ptr_ele_intrctn->ei_grp_id[grp])
@@ -401,6 +402,7 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
                                                  ia_ele_intrctn *ptr_ele_intrctn,
                                                  ia_mae_audio_scene_info *str_mae_asi)
 {
+  IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
   WORD32 valid_id = 0;
   ptr_ele_intrctn->ei_intrctn_mode = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
 
@@ -442,7 +444,11 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
     }
   }
 
-  impeghd_ei_grp_intrctvty_status(ptr_bit_buf, ptr_ele_intrctn, str_mae_asi);
+  err_code = impeghd_ei_grp_intrctvty_status(ptr_bit_buf, ptr_ele_intrctn, str_mae_asi);
+  if (err_code)
+  {
+    return err_code;
+  }
   ptr_ele_intrctn->ei_data_present = 1;
   return IA_MPEGH_DEC_NO_ERROR;
 }
-- 
2.43.0


From a2f455a4de79da66b7a969640d6c74dab2bf5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 047/101] fix: preset of the interaction data looked for among
 as many presets as there are groups

---
 decoder/impeghd_ele_interaction_intrfc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index 7a5a3fe..b5807d8 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -427,7 +427,7 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
     ptr_ele_intrctn->ei_group_preset_id = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 5);
     if (str_mae_asi->asi_present)
     {
-      for (WORD32 grp = 0; grp < str_mae_asi->num_groups; grp++)
+      for (WORD32 grp = 0; grp < str_mae_asi->num_group_presets; grp++)
       {
         if (str_mae_asi->group_presets_definition[grp].group_id ==
             ptr_ele_intrctn->ei_group_preset_id)
-- 
2.43.0


From 8c78b1e174874ec5dac31635945649643c893480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 048/101] fix: lengths of time-domain binaural data unbounded

---
 decoder/impeghd_binaural.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/impeghd_binaural.c b/decoder/impeghd_binaural.c
index 17b4d5a..7abd901 100644
--- a/decoder/impeghd_binaural.c
+++ b/decoder/impeghd_binaural.c
@@ -174,6 +174,11 @@ impeghd_binaural_read_td_data(ia_bit_buf_struct *ptr_bit_buf,
   pstr_binaural_td_data->len_direct = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
   pstr_binaural_td_data->num_diffuse_block = ia_core_coder_read_bits_buf(ptr_bit_buf, 8);
   pstr_binaural_td_data->num_channel = pstr_binaural_rep->brir_pairs;
+  if ((pstr_binaural_td_data->len_direct > MAX_LENGTH_DIRECT_FILTER) ||
+      (pstr_binaural_td_data->num_diffuse_block > MAX_NUM_DIFFUSE_BLOCKS))
+  {
+    return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_TAPS;
+  }
 
   if (pstr_binaural_rep->brir_pairs > MAX_NUM_BRIR_PAIRS)
   {
-- 
2.43.0


From 5237252168a7e6293db6e08008141140aaf58731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 049/101] fix: long names in binaural data not skipped

---
 decoder/impeghd_binaural.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_binaural.c b/decoder/impeghd_binaural.c
index 7abd901..2166669 100644
--- a/decoder/impeghd_binaural.c
+++ b/decoder/impeghd_binaural.c
@@ -257,13 +257,13 @@ static IA_ERRORCODE impeghd_parse_brir_info(VOID *buf_handle,
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
   WORD32 hoa_order_binaural = 0, brir_pairs = 0;
   UWORD32 fill_bits, rem;
-  WORD8 filename_length = 0, i = 0, brir_sampling_freq_index = 0;
+  WORD32 filename_length = 0, i = 0, brir_sampling_freq_index = 0;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   ia_binaural_representation_str *ptr_binaural_rep = &binaural_ren_info->binaural_rep;
 
   ia_core_coder_read_bits_buf_32(ia_bit_buf);
   ia_core_coder_read_bits_buf(ia_bit_buf, 8);
-  filename_length = (WORD8)ia_core_coder_read_bits_buf(ia_bit_buf, 8);
+  filename_length = ia_core_coder_read_bits_buf(ia_bit_buf, 8);
 
   for (i = 0; i < filename_length; i++)
   {
-- 
2.43.0


From a5ddd258fb8aed8d0e26839f84fb9400a5c994ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 050/101] fix: third low-frequency loudspeaker counted as a
 full-band one

---
 decoder/ia_core_coder_init_config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 5ec20ef..642bd6b 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -2018,8 +2018,7 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
         ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
         ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
         ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
-        if ((speaker_config_3d->cicp_spk_idx[i] == 3) ||
-            (speaker_config_3d->cicp_spk_idx[i] == 26))
+        if (ptr_geometry[i].lfe != 0)
         {
           (*num_lfes)++;
           (*num_channels)--;
-- 
2.43.0


From a9cf63e78abef73d40aefaff89fe1b16b1616914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:32 +0000
Subject: [PATCH 051/101] fix: number of loudness information blocks unbounded

---
 decoder/impd_drc_static_payload.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index c5cbce5..0825b17 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -483,6 +483,10 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
   WORD32 cnt;
 
   pstr_loudness_info_set->loudness_info_count = ia_core_coder_read_bits_buf(pstr_it_bit_buff, 6);
+  if (LOUDNESS_INFO_COUNT_MAX < pstr_loudness_info_set->loudness_info_count)
+  {
+    return IA_MPEGD_DRC_INIT_NONFATAL_UNEXPECTED_ERROR;
+  }
 
   for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_count; cnt++)
   {
@@ -519,6 +523,10 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
   {
     pstr_loudness_info_set->loudness_info_album_count =
         ia_core_coder_read_bits_buf(pstr_it_bit_buff, 6);
+    if (LOUDNESS_INFO_COUNT_MAX < pstr_loudness_info_set->loudness_info_album_count)
+    {
+      return IA_MPEGD_DRC_INIT_NONFATAL_UNEXPECTED_ERROR;
+    }
 
     for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_album_count; cnt++)
     {
-- 
2.43.0


From a6efb3e7a6bb98fd0730cd571fbf34fe570da5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:32 +0000
Subject: [PATCH 052/101] fix: album loudness information changes the type of
 the programme loudness information

---
 decoder/impd_drc_static_payload.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index 0825b17..3b77165 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -530,7 +530,7 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
 
     for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_album_count; cnt++)
     {
-      pstr_loudness_info_set->loudness_info[cnt].loudness_info_type = 0;
+      pstr_loudness_info_set->str_loudness_info_album[cnt].loudness_info_type = 0;
       err_code = impd_drc_parse_loudness_info(
           &(pstr_loudness_info_set->str_loudness_info_album[cnt]), pstr_it_bit_buff);
       if (err_code)
-- 
2.43.0


From 067d82840d33c50b35c8f7033c6dde5540d7e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 053/101] fix: number of DRC gain sets unbounded

---
 decoder/impd_drc_static_payload.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index 3b77165..53df39f 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -725,7 +725,10 @@ impd_drc_parse_coeff(ia_drc_uni_drc_coeffs_struct *pstr_p_loc_drc_coefficients_u
 
     pstr_p_loc_drc_coefficients_uni_drc->gain_set_count =
         (WORD8)ia_core_coder_read_bits_buf(pstr_it_bit_buff, 6);
-
+    if (GAIN_SET_COUNT_MAX < pstr_p_loc_drc_coefficients_uni_drc->gain_set_count)
+    {
+      return IA_MPEGD_DRC_INIT_NONFATAL_UNEXPECTED_ERROR;
+    }
     for (cnt = 0; cnt < pstr_p_loc_drc_coefficients_uni_drc->gain_set_count; cnt++)
     {
       err_code = impd_drc_parse_gain_set_params(
-- 
2.43.0


From f4e2511f61fe58e7cc6778bdb4129eb1a23cbcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 054/101] fix: a second ducking sequence accepted after the
 first gain set

---
 decoder/impd_drc_static_payload.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index 53df39f..a18173c 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -1265,7 +1265,7 @@ impd_drc_update_ch_group_info_duck_other(ia_drc_instructions_struct *pstr_drc_in
 
     if (idx >= 0)
     {
-      if ((idx != *ducking_seq) && (0 < *ducking_seq))
+      if ((idx != *ducking_seq) && (0 <= *ducking_seq))
       {
         return IA_MPEGD_DRC_INIT_NONFATAL_UNSUPPORTED_DUCKING_SEQUENCE;
       }
-- 
2.43.0


From f3930c58111ea69534e11dbb330b0aae1de1b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 055/101] fix: first sub-band of a DRC band cut to 8 bits

---
 decoder/impd_drc_static_payload.c | 2 +-
 decoder/impd_drc_struct.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index a18173c..bfc4cd0 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -660,7 +660,7 @@ impd_drc_parse_gain_set_params(ia_drc_gain_set_params_struct *pstr_gain_set_para
       for (cnt = 1; cnt < pstr_gain_set_params->band_count; cnt++)
       {
         pstr_gain_set_params->gain_params[cnt].start_subband_index =
-            (WORD8)ia_core_coder_read_bits_buf(pstr_it_bit_buff, 10);
+            (WORD16)ia_core_coder_read_bits_buf(pstr_it_bit_buff, 10);
       }
     }
     else
diff --git a/decoder/impd_drc_struct.h b/decoder/impd_drc_struct.h
index 3ac68dd..4675dc5 100644
--- a/decoder/impd_drc_struct.h
+++ b/decoder/impd_drc_struct.h
@@ -145,7 +145,7 @@ typedef struct
   WORD8 gain_seq_idx;
   WORD8 drc_characteristic;
   WORD8 crossover_freq_idx;
-  WORD8 start_subband_index;
+  WORD16 start_subband_index;
 } ia_drc_gain_params_struct;
 
 typedef struct
-- 
2.43.0


From 5ebbfeeab2b4db2be33a9ea7cdb3020d9e6336fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 056/101] fix: DRC off sets written behind the DRC instructions

---
 decoder/impd_drc_static_payload.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index bfc4cd0..3292f53 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -1657,8 +1657,8 @@ impd_drc_parse_config(ia_drc_config *pstr_drc_config,
       return (err_code);
   }
 
-  if (DRC_INSTRUCTIONS_COUNT_MAX <= (pstr_drc_config->drc_instructions_uni_drc_count +
-                                     pstr_drc_config->drc_dwnmix_instructions_count))
+  /* two sets for DRC off are added: for the base layout and for a downmix */
+  if (DRC_INSTRUCTIONS_COUNT_MAX < (pstr_drc_config->drc_instructions_uni_drc_count + 2))
   {
     return (IA_MPEGD_DRC_INIT_NONFATAL_DRC_INSTR_MAX_EXCEEDED);
   }
-- 
2.43.0


From b70617ae3c0305813a18b23035cfdca306209a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 057/101] fix: HOA order to be transmitted above the HOA order

---
 decoder/impeghd_hoa_config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_hoa_config.c b/decoder/impeghd_hoa_config.c
index d4fb296..90f732b 100644
--- a/decoder/impeghd_hoa_config.c
+++ b/decoder/impeghd_hoa_config.c
@@ -207,6 +207,10 @@ IA_ERRORCODE impeghd_fill_config(ia_bit_buf_struct *ptr_bit_buf,
     ptr_config_data->diff_order =
         ia_core_coder_read_bits_buf(ptr_bit_buf, ptr_config_data->diff_order_bits);
 
+    if (ptr_config_data->diff_order > ptr_config_data->order - ptr_config_data->min_amb_order)
+    {
+      return IA_MPEGH_HOA_INIT_FATAL_INVALID_DIFF_ORDER;
+    }
     ptr_config_data->max_order_to_be_transmitted =
         ptr_config_data->diff_order + ptr_config_data->min_amb_order;
   }
-- 
2.43.0


From b9981fe6e437947777df15b1197fcaf108c9ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 058/101] fix: range of ambient HOA coefficients in dependent
 frames

---
 decoder/impeghd_hoa_dec_struct.h | 2 +-
 decoder/impeghd_hoa_frame.c      | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_dec_struct.h b/decoder/impeghd_hoa_dec_struct.h
index b7a206e..b20491d 100644
--- a/decoder/impeghd_hoa_dec_struct.h
+++ b/decoder/impeghd_hoa_dec_struct.h
@@ -42,7 +42,7 @@ typedef struct
   UWORD8 additional_info[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 non_transitional_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
-  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS];
+  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
   UWORD32 new_vec_channels[HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 additional_value[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index db2a618..413a599 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -177,6 +177,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
           ptr_frame_data->amb_coeff_transition_state[i] = 1;
           WORD32 coded_amb_coeff_idx =
               ia_core_coder_read_bits_buf(ptr_bit_buf, pstr_hoa_config->amb_asign_m_bits);
+          if (coded_amb_coeff_idx >= pstr_hoa_config->max_num_add_active_amb_coeffs)
+          {
+            return IA_MPEGH_HOA_INIT_FATAL_INVALID_AMB_COEF_IDX;
+          }
           ptr_frame_data->amb_coeff_idx[i] =
               coded_amb_coeff_idx + 1 + pstr_hoa_config->min_coeffs_for_amb;
         }
-- 
2.43.0


From e5051b9725138adc11b518e3ed99af00bc6e4c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 059/101] fix: gain correction of ambient HOA channels
 unbounded

---
 decoder/impeghd_hoa_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 413a599..0e12c9b 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -348,6 +348,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
     {
       coded_gain++;
     } while (!(ia_core_coder_read_bits_buf(ptr_bit_buf, 1)));
+    if (coded_gain > HOA_MAX_CODED_GAIN)
+    {
+      return IA_MPEGH_HOA_EXE_FATAL_INVALID_HOA_CODED_GAIN;
+    }
     ptr_frame_data->coded_gain_correction_exp[i] = coded_gain;
     ptr_frame_data->gain_correction_exception[i] = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   }
-- 
2.43.0


From 4cecda43fb3e0cd25d07aa4f44d176bd6c412f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 060/101] fix: HOA vectors stored by signal but used by channel

---
 decoder/impeghd_hoa_frame.c           | 3 ++-
 decoder/impeghd_hoa_spatial_decoder.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 0e12c9b..bfa1456 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -364,7 +364,8 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
   for (i = 0; i < ptr_frame_data->num_of_vec_sigs; i++)
   {
     IA_ERRORCODE err = impeghd_hoa_frame_v_vector_data(
-        ptr_bit_buf, ptr_frame_data, ptr_frame_data->vec_sig_channel_ids[i] - 1, i);
+        ptr_bit_buf, ptr_frame_data, ptr_frame_data->vec_sig_channel_ids[i] - 1,
+        ptr_frame_data->vec_sig_channel_ids[i] - 1);
     if (err)
     {
       return err;
diff --git a/decoder/impeghd_hoa_spatial_decoder.c b/decoder/impeghd_hoa_spatial_decoder.c
index 5219e69..dc10659 100644
--- a/decoder/impeghd_hoa_spatial_decoder.c
+++ b/decoder/impeghd_hoa_spatial_decoder.c
@@ -363,7 +363,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
       {
         return IA_MPEGH_HOA_INIT_NONFATAL_INVALID_BIT_SIZE;
       }
-      new_nominators_ptr[vec_ch].index = ch + 1;
+      new_nominators_ptr[ch].index = ch + 1;
       FLOAT32 tmp_vec_long[MAXIMUM_NUM_HOA_COEFF];
       ia_core_coder_memset(tmp_vec_long, MAXIMUM_NUM_HOA_COEFF);
       pFLOAT32 tmp_vec = frame_param->vectors[vec_ch].sig_id;
-- 
2.43.0


From 068197b8426d355715a5238753941553129aab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 061/101] fix: code book indices shared by all HOA vectors

---
 decoder/impeghd_hoa_dec_struct.h      |  2 +-
 decoder/impeghd_hoa_frame.c           | 14 +++++++-------
 decoder/impeghd_hoa_spatial_decoder.c |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/decoder/impeghd_hoa_dec_struct.h b/decoder/impeghd_hoa_dec_struct.h
index b20491d..daef7d9 100644
--- a/decoder/impeghd_hoa_dec_struct.h
+++ b/decoder/impeghd_hoa_dec_struct.h
@@ -49,7 +49,7 @@ typedef struct
   UWORD32 element_bitmask[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
   UWORD16 decoded_huffmann_word[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
 
-  UWORD32 vvec_idx[128];
+  UWORD32 vvec_idx[MAX_HOA_CHANNELS][128];
   UWORD8 sgn_val[MAX_HOA_CHANNELS][128];
   WORD32 sgn_val_size[128];
   WORD32 prev_sgn_val_size[128];
diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index bfa1456..23a2da7 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -520,14 +520,14 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
       {
         bs_vvec_idx = ia_core_coder_read_bits_buf(ptr_bit_buf, n_bit_idx);
         ptr_frame_data->sgn_val[idx][j] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
-        ptr_frame_data->vvec_idx[j] = bs_vvec_idx + 1;
+        ptr_frame_data->vvec_idx[idx][j] = bs_vvec_idx + 1;
       }
     }
     else
     {
       bs_vvec_idx = ia_core_coder_read_bits_buf(ptr_bit_buf, n_bit_idx);
       ptr_frame_data->sgn_val[idx][0] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
-      ptr_frame_data->vvec_idx[0] = (UWORD32)bs_vvec_idx + 1;
+      ptr_frame_data->vvec_idx[idx][0] = (UWORD32)bs_vvec_idx + 1;
     }
     for (j = 0; j < (WORD32)ptr_frame_data->num_vvec_indices[sig_ch_idx]; j++)
     {
@@ -535,20 +535,20 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
       switch (ptr_frame_data->codebk_idx[j])
       {
       case 0:
-        if (ptr_frame_data->vvec_idx[j] > 900)
+        if (ptr_frame_data->vvec_idx[idx][j] > 900)
         {
           return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
         }
         break;
       case 1:
       case 2:
-        if (ptr_frame_data->vvec_idx[j] > 34)
+        if (ptr_frame_data->vvec_idx[idx][j] > 34)
         {
           return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
         }
         break;
       case 3:
-        if (ptr_frame_data->vvec_idx[j] > 64)
+        if (ptr_frame_data->vvec_idx[idx][j] > 64)
         {
           return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
         }
@@ -556,7 +556,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
       case 7:
         if (ptr_frame_data->ptr_config_data->order == 4)
         {
-          if (ptr_frame_data->vvec_idx[j] > 32)
+          if (ptr_frame_data->vvec_idx[idx][j] > 32)
           {
             return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
           }
@@ -567,7 +567,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
           max = ((ptr_frame_data->ptr_config_data->order + 1) *
                  (ptr_frame_data->ptr_config_data->order + 1)) -
                 1;
-          if (ptr_frame_data->vvec_idx[j] > (max + 1))
+          if (ptr_frame_data->vvec_idx[idx][j] > (max + 1))
           {
             return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
           }
diff --git a/decoder/impeghd_hoa_spatial_decoder.c b/decoder/impeghd_hoa_spatial_decoder.c
index dc10659..4309671 100644
--- a/decoder/impeghd_hoa_spatial_decoder.c
+++ b/decoder/impeghd_hoa_spatial_decoder.c
@@ -378,7 +378,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
         curr_vq_vec_ptr_size = sizeof(pstr_spatial_dec->transpose_mod_mtx_grid_pts);
         FLOAT32 inv_norm_coeff = impeghd_hoa_pow_2(14) / (FLOAT32)(pstr_hoa_config->order + 1);
         FLOAT32 weight_value;
-        WORD32 v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[0] - (WORD32)1);
+        WORD32 v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[ch][0] - (WORD32)1);
 
         switch (ia_hoa_frame_t->codebk_idx[ch])
         {
@@ -432,7 +432,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
           FLOAT32 norm_value = 1.0f;
           for (UWORD32 vec_idx = 0; vec_idx < ia_hoa_frame_t->num_vvec_indices[ch]; ++vec_idx)
           {
-            v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[vec_idx] - 1) * (WORD32)mat_offset;
+            v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[ch][vec_idx] - 1) * (WORD32)mat_offset;
 
             if (vec_idx >= 8)
             {
-- 
2.43.0


From a825d55ee9b5cf656e9ffaf35f3504b77e0d7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 062/101] fix: HOA vector indices checked against the code book
 of another channel

---
 decoder/impeghd_hoa_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 23a2da7..335009e 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -532,7 +532,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (j = 0; j < (WORD32)ptr_frame_data->num_vvec_indices[sig_ch_idx]; j++)
     {
       /*ISO/IEC 23008-9 section 5.19.6*/
-      switch (ptr_frame_data->codebk_idx[j])
+      switch (ptr_frame_data->codebk_idx[sig_ch_idx])
       {
       case 0:
         if (ptr_frame_data->vvec_idx[idx][j] > 900)
-- 
2.43.0


From dcdffb6912541f3862e6d82427520f0bf851cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 063/101] fix: HOA prediction of an earlier frame used when
 there are no directional signals

---
 decoder/impeghd_hoa_frame.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 335009e..adab58c 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -144,6 +144,7 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
                                ia_hoa_frame_struct *ptr_frame_data)
 {
   ia_hoa_config_struct *pstr_hoa_config = ptr_frame_data->ptr_config_data;
+  ptr_frame_data->ps_prediction_active = 0;
   ptr_frame_data->num_of_vec_sigs = 0;
   ptr_frame_data->num_of_dir_sigs = 0;
   UWORD32 i, coded_gain;
-- 
2.43.0


From 40afda71c2c4bd443e54c19d9163753efe9f02cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 064/101] fix: HOA prediction from directional signals that do
 not exist

---
 decoder/impeghd_hoa_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index adab58c..93c97d7 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -426,6 +426,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
         {
           ptr_frame_data->pred_dir_sig_ids[i] =
               ia_core_coder_read_bits_buf(ptr_bit_buf, pred_ids_bits);
+          if (ptr_frame_data->pred_dir_sig_ids[i] > ptr_frame_data->num_of_dir_sigs)
+          {
+            return IA_MPEGH_HOA_EXE_FATAL_SPATIAL_PROCESS_FAILED;
+          }
           if (ptr_frame_data->pred_dir_sig_ids[i] > 0)
           {
             ptr_frame_data->pred_dir_sig_ids[i] =
-- 
2.43.0


From cbc573bd32f25c275214fc34c80bf16d06d4d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 065/101] fix: HOA prediction gains lost when an earlier signal
 is not predicted from

---
 decoder/impeghd_hoa_frame.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 93c97d7..70798fb 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -439,12 +439,9 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
         }
         for (i = 0; i < (UWORD32)ptr_frame_data->num_of_gains; i++)
         {
-          if (ptr_frame_data->pred_dir_sig_ids[i] > 0)
-          {
-            WORD32 bs_pred_gains =
-                ia_core_coder_read_bits_buf(ptr_bit_buf, pstr_hoa_config->num_bits_per_sf);
-            ptr_frame_data->pred_gains[i] = bs_pred_gains;
-          }
+          WORD32 bs_pred_gains =
+              ia_core_coder_read_bits_buf(ptr_bit_buf, pstr_hoa_config->num_bits_per_sf);
+          ptr_frame_data->pred_gains[i] = bs_pred_gains;
         }
       }
     }
-- 
2.43.0


From 4ca0a7c2f10db153edee55bb10df6736eed052c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 066/101] fix: DRC candidates with a peak near the lowest are
 taken from the wrong list

---
 decoder/impd_drc_selection_process_drcset_selection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impd_drc_selection_process_drcset_selection.c b/decoder/impd_drc_selection_process_drcset_selection.c
index 6a12922..74c9fc6 100644
--- a/decoder/impd_drc_selection_process_drcset_selection.c
+++ b/decoder/impd_drc_selection_process_drcset_selection.c
@@ -1208,7 +1208,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
       {
         for (k = 0; k < *selection_candidate_count; k++)
         {
-          if (selection_candidate_info_step_2[k].output_peak_level <
+          if (selection_candidate_info[k].output_peak_level <
               (FLOAT32)output_peak_level_min + 1.0f)
           {
             memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
-- 
2.43.0


From f12448847d587f7f768abde3538904069b7a8df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 067/101] fix: group and preset filter of the DRC candidates
 undoes the peak filter

---
 ...d_drc_selection_process_drcset_selection.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/decoder/impd_drc_selection_process_drcset_selection.c b/decoder/impd_drc_selection_process_drcset_selection.c
index 74c9fc6..36ec04f 100644
--- a/decoder/impd_drc_selection_process_drcset_selection.c
+++ b/decoder/impd_drc_selection_process_drcset_selection.c
@@ -1231,8 +1231,9 @@ IA_ERRORCODE impd_drc_set_pre_selection(
     omit_preselection_based_on_requested_group_id = 0;
     for (k = 0; k < selection_candidate_step_2_count; k++)
     {
-      str_drc_instruction_str = &(
-          pstr_drc_config->str_drc_instruction_str[selection_candidate_info[k].drc_instrns_idx]);
+      str_drc_instruction_str =
+          &(pstr_drc_config
+                ->str_drc_instruction_str[selection_candidate_info_step_2[k].drc_instrns_idx]);
       if (str_drc_instruction_str->drc_instructions_type == 3)
       {
 
@@ -1241,7 +1242,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
           if (str_drc_instruction_str->mae_group_preset_id ==
               pstr_drc_sel_proc_params_struct->group_preset_id_requested[i])
           {
-            memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
+            memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info_step_2[k],
                    sizeof(ia_drc_selection_candidate_info_struct));
             omit_preselection_based_on_requested_group_id = 1;
             n++;
@@ -1251,7 +1252,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
       else if (str_drc_instruction_str->drc_instructions_type == 0 ||
                str_drc_instruction_str->drc_instructions_type == 2)
       {
-        memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
+        memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info_step_2[k],
                sizeof(ia_drc_selection_candidate_info_struct));
         n++;
       }
@@ -1264,10 +1265,10 @@ IA_ERRORCODE impd_drc_set_pre_selection(
       {
         str_drc_instruction_str =
             &(pstr_drc_config
-                  ->str_drc_instruction_str[selection_candidate_info[k].drc_instrns_idx]);
+                  ->str_drc_instruction_str[selection_candidate_info_step_2[k].drc_instrns_idx]);
         if (str_drc_instruction_str->drc_instructions_type == 0)
         {
-          memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
+          memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info_step_2[k],
                  sizeof(ia_drc_selection_candidate_info_struct));
           n++;
         }
@@ -1278,7 +1279,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
             if (str_drc_instruction_str->mae_group_id ==
                 pstr_drc_sel_proc_params_struct->group_id_requested[i])
             {
-              memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
+              memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info_step_2[k],
                      sizeof(ia_drc_selection_candidate_info_struct));
               n++;
             }
@@ -1294,11 +1295,11 @@ IA_ERRORCODE impd_drc_set_pre_selection(
       {
         str_drc_instruction_str =
             &(pstr_drc_config
-                  ->str_drc_instruction_str[selection_candidate_info[k].drc_instrns_idx]);
+                  ->str_drc_instruction_str[selection_candidate_info_step_2[k].drc_instrns_idx]);
         if (str_drc_instruction_str->drc_instructions_type == 0 ||
             str_drc_instruction_str->drc_instructions_type == 3)
         {
-          memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
+          memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info_step_2[k],
                  sizeof(ia_drc_selection_candidate_info_struct));
           n++;
         }
-- 
2.43.0


From b3bc6d86a76de66ff23ea28e9f7569e66216bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 068/101] fix: loudness gain of the last DRC candidate used
 instead of the selected one's

---
 decoder/impd_drc_selection_process.c                  | 1 +
 decoder/impd_drc_selection_process_drcset_selection.c | 4 ----
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/decoder/impd_drc_selection_process.c b/decoder/impd_drc_selection_process.c
index e9bef38..c9a5477 100644
--- a/decoder/impd_drc_selection_process.c
+++ b/decoder/impd_drc_selection_process.c
@@ -343,6 +343,7 @@ static IA_ERRORCODE impd_select_drc_set(ia_drc_sel_pro_struct *pstr_drc_uni_sel_
   {
     pstr_drc_uni_sel_proc->uni_drc_sel_proc_output.loud_norm_gain_db =
         selection_candidate_info[0].loud_norm_db_gain_adjust;
+    pstr_drc_config->loudness_gain_db = selection_candidate_info[0].loud_norm_db_gain_adjust;
     pstr_drc_uni_sel_proc->uni_drc_sel_proc_output.output_peak_level_db =
         selection_candidate_info[0].output_peak_level;
     pstr_drc_uni_sel_proc->uni_drc_sel_proc_output.output_loudness =
diff --git a/decoder/impd_drc_selection_process_drcset_selection.c b/decoder/impd_drc_selection_process_drcset_selection.c
index 36ec04f..ec2330d 100644
--- a/decoder/impd_drc_selection_process_drcset_selection.c
+++ b/decoder/impd_drc_selection_process_drcset_selection.c
@@ -903,8 +903,6 @@ IA_ERRORCODE impd_drc_set_pre_selection(
                 selection_candidate_info[k].loud_norm_db_gain_adjust =
                     ia_min_flt(selection_candidate_info[k].loud_norm_db_gain_adjust,
                                pstr_drc_sel_proc_params_struct->loudness_norm_gain_db_max);
-                pstr_drc_config->loudness_gain_db =
-                    selection_candidate_info[k].loud_norm_db_gain_adjust;
 
                 selection_candidate_info[k].output_peak_level =
                     signal_peak_level[p] + selection_candidate_info[k].loud_norm_db_gain_adjust;
@@ -1033,8 +1031,6 @@ IA_ERRORCODE impd_drc_set_pre_selection(
                     ia_min_flt(selection_candidate_info[k].loud_norm_db_gain_adjust,
                                pstr_drc_sel_proc_params_struct->loudness_norm_gain_db_max);
 
-                pstr_drc_config->loudness_gain_db =
-                    selection_candidate_info[k].loud_norm_db_gain_adjust;
 
                 if (loudness[l] == UNDEFINED_LOUDNESS_VALUE)
                 {
-- 
2.43.0


From 5e4fdb820a451bccebf9266539e8fcf318ad5f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 069/101] fix: loudness lookup overwrites the id of the no-DRC
 set

---
 decoder/impd_drc_loudness_control.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/decoder/impd_drc_loudness_control.c b/decoder/impd_drc_loudness_control.c
index fdfb09d..6d0109b 100644
--- a/decoder/impd_drc_loudness_control.c
+++ b/decoder/impd_drc_loudness_control.c
@@ -860,18 +860,15 @@ static IA_ERRORCODE impd_drc_check_loudness_payload(
     ia_drc_sel_proc_params_struct *pstr_drc_sel_proc_params_struct)
 {
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
-  if (0 > pstr_drc_instruction->drc_set_id)
-  {
-    pstr_drc_instruction->drc_set_id = ID_FOR_NO_DRC;
-  }
+  WORD32 drc_set_id = ia_max_int(pstr_drc_instruction->drc_set_id, ID_FOR_NO_DRC);
   err_code = impd_drc_check_loudness_info(
       loudness_info_matching, info_cnt, loudness_info_cnt, pstr_ia_loudness_info, req_dwnmix_id,
-      pstr_drc_instruction->drc_set_id, pstr_drc_instruction, pstr_drc_sel_proc_params_struct);
+      drc_set_id, pstr_drc_instruction, pstr_drc_sel_proc_params_struct);
   if (err_code || *info_cnt)
     goto match_end;
   err_code = impd_drc_check_loudness_info(loudness_info_matching, info_cnt, loudness_info_cnt,
                                           pstr_ia_loudness_info, ID_FOR_ANY_DOWNMIX,
-                                          pstr_drc_instruction->drc_set_id, pstr_drc_instruction,
+                                          drc_set_id, pstr_drc_instruction,
                                           pstr_drc_sel_proc_params_struct);
   if (err_code || *info_cnt)
     goto match_end;
@@ -897,7 +894,7 @@ static IA_ERRORCODE impd_drc_check_loudness_payload(
     goto match_end;
   err_code = impd_drc_check_loudness_info(loudness_info_matching, info_cnt, loudness_info_cnt,
                                           pstr_ia_loudness_info, ID_FOR_BASE_LAYOUT,
-                                          pstr_drc_instruction->drc_set_id, pstr_drc_instruction,
+                                          drc_set_id, pstr_drc_instruction,
                                           pstr_drc_sel_proc_params_struct);
   if (err_code || *info_cnt)
     goto match_end;
-- 
2.43.0


From 049f8e799dcbf154b26ca05879747d26f13e5ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 070/101] fix: peak of the base layout's limiter never used

---
 decoder/impd_drc_loudness_control.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impd_drc_loudness_control.c b/decoder/impd_drc_loudness_control.c
index 6d0109b..f34fa51 100644
--- a/decoder/impd_drc_loudness_control.c
+++ b/decoder/impd_drc_loudness_control.c
@@ -396,7 +396,7 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
               (ID_FOR_BASE_LAYOUT == drc_instructions_drc_temp->downmix_id[0]) &&
               (drc_instructions_drc_temp->limiter_peak_target_present))
           {
-            eq_set_id[peak_cnt] = -1;
+            eq_set_id[peak_cnt] = 0;
             sig_pk_level[peak_cnt] =
                 drc_instructions_drc_temp->limiter_peak_target + signal_peak_level_temp;
             explicit_peak_info_present[peak_cnt] = 0;
-- 
2.43.0


From 988791ef636d035a25fbfede9ca4b327a1a432db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 071/101] fix: peak level of another group or preset used where
 a DRC set has none

---
 decoder/impd_drc_loudness_control.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoder/impd_drc_loudness_control.c b/decoder/impd_drc_loudness_control.c
index f34fa51..b8b3d05 100644
--- a/decoder/impd_drc_loudness_control.c
+++ b/decoder/impd_drc_loudness_control.c
@@ -410,6 +410,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
   (void)found_match;
   if (peak_cnt <= 0)
   {
+    sig_pk_level[0] = 0;
+    explicit_peak_info_present[0] = 0;
     *peak_info_count = pre_lim_cnt;
   }
   else
-- 
2.43.0


From d147901f215336fc1ac69ca2a42e4b11228af776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 072/101] fix: overflows with more than 16 matching pieces of
 loudness information

---
 decoder/impd_drc_loudness_control.c                   | 4 +++-
 decoder/impd_drc_selection_process_drcset_selection.c | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/decoder/impd_drc_loudness_control.c b/decoder/impd_drc_loudness_control.c
index b8b3d05..d9a51e3 100644
--- a/decoder/impd_drc_loudness_control.c
+++ b/decoder/impd_drc_loudness_control.c
@@ -1179,12 +1179,14 @@ IA_ERRORCODE impd_drc_init_loudness_control(
   if (1 == pstr_drc_sel_proc_params_struct->loudness_normalization_on)
   {
     WORD32 cnt1;
-    ia_drc_loudness_info_struct *pstr_ia_loudness_info[16];
+    ia_drc_loudness_info_struct *pstr_ia_loudness_info[LOUDNESS_INFO_COUNT_MAX];
     err_code = impd_drc_find_overall_loudness_info(
         pstr_ia_loudness_info, &info_cnt, &overall_loudness_info_flag,
         pstr_drc_sel_proc_params_struct, pstr_loudness_info, req_dwnmix_id, pstr_drc_instruction);
     if (err_code)
       return (err_code);
+    if (info_cnt > MAX_LOUDNESS_INFO_COUNT)
+      return IA_MPEGD_DRC_INIT_NONFATAL_UNEXPECTED_ERROR;
 
     if (1 == overall_loudness_info_flag)
     {
diff --git a/decoder/impd_drc_selection_process_drcset_selection.c b/decoder/impd_drc_selection_process_drcset_selection.c
index ec2330d..d58f377 100644
--- a/decoder/impd_drc_selection_process_drcset_selection.c
+++ b/decoder/impd_drc_selection_process_drcset_selection.c
@@ -816,8 +816,8 @@ IA_ERRORCODE impd_drc_set_pre_selection(
   WORD32 peak_info_count;
   WORD32 loudness_drc_set_id_requested;
   WORD32 eq_set_id_loudness[16];
-  WORD32 eq_set_id_Peak[16];
-  WORD32 explicit_peak_information_present[16];
+  WORD32 eq_set_id_Peak[LOUDNESS_INFO_COUNT_MAX];
+  WORD32 explicit_peak_information_present[LOUDNESS_INFO_COUNT_MAX];
   WORD32 num_compression_eq_id[16];
   WORD32 downmix_id_match = 0;
   WORD32 num_compression_eq_count = 0;
@@ -827,7 +827,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
   FLOAT32 adjustment;
   FLOAT32 loud_norm_gain_db[16];
   FLOAT32 loudness[16];
-  FLOAT32 signal_peak_level[16];
+  FLOAT32 signal_peak_level[LOUDNESS_INFO_COUNT_MAX];
   FLOAT32 output_peak_level_min = 1000.0f;
   FLOAT32 output_peak_level_max = pstr_drc_sel_proc_params_struct->output_peak_level_max;
   ia_drc_uni_drc_coeffs_struct *str_p_loc_drc_coefficients_uni_drc = NULL;
-- 
2.43.0


From d3277d2a3a049ce212f81c9bfc61824734d5d07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 073/101] fix: DRC candidates lost when one lists the requested
 downmix twice

---
 decoder/impd_drc_selection_process_drcset_selection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impd_drc_selection_process_drcset_selection.c b/decoder/impd_drc_selection_process_drcset_selection.c
index d58f377..dc26c4a 100644
--- a/decoder/impd_drc_selection_process_drcset_selection.c
+++ b/decoder/impd_drc_selection_process_drcset_selection.c
@@ -1544,6 +1544,7 @@ impd_drc_set_final_selection(ia_drc_config *pstr_drc_config,
           memcpy(&selection_candidate_info_step_2[k], &selection_candidate_info_step_2[i],
                  sizeof(ia_drc_selection_candidate_info_struct));
           k++;
+          break;
         }
       }
     }
-- 
2.43.0


From adc7674c686c73b2bd3701f49b2988650a4b6786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 074/101] fix: crash when the DRC set in use is in several
 bands and its gains are at another location

---
 decoder/impd_drc_init.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/decoder/impd_drc_init.c b/decoder/impd_drc_init.c
index c09daa6..e341dbc 100644
--- a/decoder/impd_drc_init.c
+++ b/decoder/impd_drc_init.c
@@ -337,6 +337,7 @@ VOID impd_drc_update_effect_type_request(WORD8 *num_drc_eff_type_req, WORD8 *drc
  *
  *  \param [out] ppstr_drc_coefficients  Pointer to DRC coefficients array
  *  \param [out] drc_coefficients_selected  Pointer to DRC coefficients selected
+ *  \param [in] drc_location  DRC location of the selected DRC set
  *  \param [out] pstr_drc_config  Pointer to DRC config structure
  *
  *  \return IA_ERRORCODE Error
@@ -344,14 +345,15 @@ VOID impd_drc_update_effect_type_request(WORD8 *num_drc_eff_type_req, WORD8 *drc
  */
 static IA_ERRORCODE
 impd_drc_select_coefficients(ia_drc_uni_drc_coeffs_struct **ppstr_drc_coefficients,
-                             WORD32 *drc_coefficients_selected, ia_drc_config *pstr_drc_config)
+                             WORD32 *drc_coefficients_selected, WORD32 drc_location,
+                             ia_drc_config *pstr_drc_config)
 {
   WORD32 cnt;
   WORD32 coeff0 = -1;
 
   for (cnt = 0; cnt < pstr_drc_config->drc_coefficients_drc_count; cnt++)
   {
-    if (pstr_drc_config->str_p_loc_drc_coefficients_uni_drc[cnt].drc_location == 1)
+    if (pstr_drc_config->str_p_loc_drc_coefficients_uni_drc[cnt].drc_location == drc_location)
     {
       if (pstr_drc_config->str_p_loc_drc_coefficients_uni_drc[cnt].version == 0)
       {
@@ -561,6 +563,7 @@ IA_ERRORCODE impd_drc_init_selected_drc_set(ia_drc_params_struct *pstr_ia_drc_pa
   else
   {
     err = impd_drc_select_coefficients(&drc_coefficients_uni_drc, &drc_coefficients_selected,
+                                       pstr_drc_instructions_uni_drc->drc_location,
                                        pstr_drc_config);
     if (err)
       return err;
@@ -577,6 +580,10 @@ IA_ERRORCODE impd_drc_init_selected_drc_set(ia_drc_params_struct *pstr_ia_drc_pa
 
   if (*selected_drc_is_multiband == 1)
   {
+    if (drc_coefficients_uni_drc == NULL)
+    {
+      return IA_MPEGD_DRC_INIT_FATAL_UNEXPECTED_ERROR;
+    }
     pstr_ia_drc_params->multiband_sel_drc_idx = pstr_ia_drc_params->drc_set_counter;
     pstr_ia_drc_params->sub_band_domain_mode = SUBBAND_DOMAIN_MODE_STFT256;
     pstr_ia_drc_params->gain_delay_samples = DELAY_SAMPLES;
-- 
2.43.0


From 3de38c975020f5648567e3598f15453da5e094b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 075/101] fix: a ducking set listed for several downmixes
 ducked the wrong channels

---
 decoder/impd_drc_init.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/decoder/impd_drc_init.c b/decoder/impd_drc_init.c
index e341dbc..9568c50 100644
--- a/decoder/impd_drc_init.c
+++ b/decoder/impd_drc_init.c
@@ -389,8 +389,11 @@ static VOID
 impd_drc_set_channel_group_info(ia_drc_instructions_struct *pstr_drc_instructions_uni_drc)
 {
   WORD32 ch, grp;
-  if ((pstr_drc_instructions_uni_drc->downmix_id[0] == ID_FOR_ANY_DOWNMIX) ||
-      (pstr_drc_instructions_uni_drc->dwnmix_id_count > 1))
+  /* a ducking set describes every channel, whatever downmixes it is listed for */
+  if (((pstr_drc_instructions_uni_drc->drc_set_effect &
+        (IA_DRC_EFFECT_BIT_DUCK_OTHER | IA_DRC_EFFECT_BIT_DUCK_SELF)) == 0) &&
+      ((pstr_drc_instructions_uni_drc->downmix_id[0] == ID_FOR_ANY_DOWNMIX) ||
+       (pstr_drc_instructions_uni_drc->dwnmix_id_count > 1)))
   {
     WORD32 idx = pstr_drc_instructions_uni_drc->gain_set_index[0];
     for (ch = 0; ch < pstr_drc_instructions_uni_drc->audio_num_chan; ch++)
-- 
2.43.0


From d0b0ca7d070acb3a791c13a7369d7f7bee0bbeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 076/101] fix: the preset chosen was looked for among as many
 presets as there are groups

---
 decoder/ia_core_coder_decode_main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 90ff3c3..09f3829 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -968,7 +968,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
   {
     WORD32 pr_grp_idx = -1;
     WORD32 grp_idx = -1;
-    for (grp = 0; grp < num_decoded_groups; grp++)
+    for (grp = 0; grp < ptr_mae_asi->num_group_presets; grp++)
     {
       if (ptr_mae_asi->group_presets_definition[grp].group_id == preset_id)
       {
@@ -3015,7 +3015,7 @@ IA_ERRORCODE impeghd_uni_drc_dec_asi_init(ia_audio_specific_config_struct *pstr_
       return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUPS_PRESETS;
     }
 
-    for (grp = 0; grp < pstr_mae_asi->num_groups; grp++)
+    for (grp = 0; grp < pstr_mae_asi->num_group_presets; grp++)
     {
       if (pstr_mae_asi->group_presets_definition[grp].group_id == preset_id)
       {
-- 
2.43.0


From b1853bfe078d2ce022cc41311718fe1a27ff19e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 077/101] fix: a group the preset does not mention took the
 state of the group before it

---
 decoder/ia_core_coder_decode_main.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 09f3829..7218771 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -987,6 +987,8 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
       WORD32 member_id = 0;
       WORD32 num_members = ptr_mae_asi->group_definition[grp].group_num_members;
       WORD32 has_conjuct_mbrs;
+      WORD32 on_off = ptr_mae_asi->group_definition[grp].default_on_off;
+      grp_idx = -1;
       for (cond = 0; cond < ptr_mae_asi->group_presets_definition[pr_grp_idx].num_conditions;
            cond++)
       {
@@ -996,12 +998,12 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
           break;
         }
       }
-      if (grp_idx == -1)
+      /* A group the preset does not mention keeps its default state */
+      if (grp_idx != -1)
       {
-        /* Invalid Group Id */
-        return IA_MPEGH_DEC_EXE_FATAL_INVALID_GRP_ID;
+        on_off = ptr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx];
       }
-      if (0 == ptr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx])
+      if (0 == on_off)
       {
         has_conjuct_mbrs = ptr_mae_asi->group_definition[grp].has_conjunct_members;
       }
@@ -1025,7 +1027,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
         {
           return IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
         }
-        if (0 != ptr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx])
+        if (0 != on_off)
         {
           ia_core_coder_mem_cpy(audio_in_buff[member_id], audio_out_buff[member_id], ccfl);
         }
@@ -3031,6 +3033,7 @@ IA_ERRORCODE impeghd_uni_drc_dec_asi_init(ia_audio_specific_config_struct *pstr_
     for (grp = 0; grp < pstr_mae_asi->num_groups; grp++)
     {
       WORD32 grp_id = pstr_mae_asi->group_definition[grp].group_id;
+      grp_idx = -1;
       for (cond = 0; cond < pstr_mae_asi->group_presets_definition[pr_grp_idx].num_conditions;
            cond++)
       {
@@ -3040,11 +3043,12 @@ IA_ERRORCODE impeghd_uni_drc_dec_asi_init(ia_audio_specific_config_struct *pstr_
           break;
         }
       }
-      if (grp_idx == -1)
+      /* A group the preset does not mention keeps its default state */
+      on_off_arr[grp] = pstr_mae_asi->group_definition[grp].default_on_off;
+      if (grp_idx != -1)
       {
-        return IA_MPEGH_DEC_EXE_FATAL_INVALID_GRP_ID;
+        on_off_arr[grp] = pstr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx];
       }
-      on_off_arr[grp] = pstr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx];
     }
   }
   else
-- 
2.43.0


From 5a45c332073d3c430b5c27237d1b67d1bbf79f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 078/101] fix: members of a group under a preset were those of
 another group's form

---
 decoder/ia_core_coder_decode_main.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 7218771..3025ee4 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -986,7 +986,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
       WORD32 grp_id = ptr_mae_asi->group_definition[grp].group_id;
       WORD32 member_id = 0;
       WORD32 num_members = ptr_mae_asi->group_definition[grp].group_num_members;
-      WORD32 has_conjuct_mbrs;
+      WORD32 has_conjuct_mbrs = ptr_mae_asi->group_definition[grp].has_conjunct_members;
       WORD32 on_off = ptr_mae_asi->group_definition[grp].default_on_off;
       grp_idx = -1;
       for (cond = 0; cond < ptr_mae_asi->group_presets_definition[pr_grp_idx].num_conditions;
@@ -1003,14 +1003,6 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
       {
         on_off = ptr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx];
       }
-      if (0 == on_off)
-      {
-        has_conjuct_mbrs = ptr_mae_asi->group_definition[grp].has_conjunct_members;
-      }
-      else
-      {
-        has_conjuct_mbrs = ptr_mae_asi->group_definition[cond].has_conjunct_members;
-      }
 
       for (mbr = 0; mbr < num_members; mbr++)
       {
-- 
2.43.0


From 9507d0b69ce2d68f633e76f792fc594381b589e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 079/101] fix: objects of an audio scene were never switched,
 and their groups an error

---
 decoder/ia_core_coder_decode_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 3025ee4..5d2238e 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2111,7 +2111,7 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
   {
     err_code = impeghd_mdp_dec_process(
         &pstr_dec_data->str_frame_data.str_audio_specific_config, pstr_dec_data,
-        pstr_dec_data->str_frame_data.str_audio_specific_config.channel_configuration,
+        (WORD32)(ia_signals_3da->num_ch + ia_signals_3da->num_audio_obj),
         (FLOAT32 *)(mpegh_dec_handle->mpeghd_scratch_mem_v), handle->mpeghd_config.i_preset_id);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
-- 
2.43.0


From 4fd4aeff161d95bc35693bcecfaae2d16f1a3d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 080/101] fix: downmix matrices coded with a template were
 never decoded

---
 decoder/impeghd_dmx_mtx.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index a6472e2..c51e69f 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -158,10 +158,11 @@ static FLOAT32 impeghd_decode_gain(ia_bit_buf_struct *ptr_bit_buf, ia_dmx_mtx_ga
  *  \return Error if any
  *
  */
-static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out, WORD32 *tmplt)
+static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out,
+                                            const WORD32 **tmplt)
 {
   WORD32 idx;
-  tmplt = NULL;
+  *tmplt = NULL;
 
   if (cicp_in == -1 || cicp_out == -1)
   {
@@ -178,7 +179,7 @@ static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out, WOR
     {
       continue;
     }
-    tmplt = (WORD32 *)ia_comp_tmplt_data[idx];
+    *tmplt = ia_comp_tmplt_data[idx];
     return IA_MPEGH_DEC_NO_ERROR;
   }
 
@@ -600,7 +601,7 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
   WORD32 num_in_ch = params->num_in_ch;
   WORD32 num_out_ch = params->num_out_ch;
 
-  WORD32 *comp_tmplt = NULL;
+  const WORD32 *comp_tmplt = NULL;
 
   ia_dmx_mtx_scr_t *pscr = (ia_dmx_mtx_scr_t *)ptr_scratch;
   ptr_scratch += sizeof(*pscr);
@@ -764,7 +765,7 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
       {
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_CICP_IDX;
       }
-      impeghd_find_comp_tmplt(params->cicp_in_idx, params->cicp_out_idx, comp_tmplt);
+      impeghd_find_comp_tmplt(params->cicp_in_idx, params->cicp_out_idx, &comp_tmplt);
       if (comp_tmplt == NULL)
       {
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_NO_COMP_TMPLT;
-- 
2.43.0


From 6d97d4aa52bb9bf3103975e6a1424c25624e4434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 081/101] fix: downmix matrices with more equalizers than
 inputs were checked against memory never written

---
 decoder/impeghd_dmx_mtx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index c51e69f..5f095bb 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -963,9 +963,9 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
       return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_NUM_EQS;
     }
 
-    for (eq = 0; eq < (WORD32)pscr->eq_conf.num_eq; eq++)
+    for (ch = 0; ch < num_in_ch; ch++)
     {
-      if (pscr->eq_conf.eq_map[eq] > (WORD32)pscr->eq_conf.num_eq)
+      if (pscr->eq_conf.eq_map[ch] > (WORD32)pscr->eq_conf.num_eq)
       {
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_EQ_CONF;
       }
-- 
2.43.0


From f6ac28e50d4d35c022b6e617cd785532cf7ae244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 082/101] fix: downmix matrix gains beyond their table were
 read, and tables of 278 gains written beyond their end

---
 decoder/impeghd_dmx_mtx.c      | 10 ++++++++++
 decoder/impeghd_dmx_mtx_data.h |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index 5f095bb..ad51121 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -136,6 +136,11 @@ static FLOAT32 impeghd_decode_gain(ia_bit_buf_struct *ptr_bit_buf, ia_dmx_mtx_ga
 
     gain_idx = (head << coder->gain_lg_param) +
                ia_core_coder_read_bits_buf(ptr_bit_buf, coder->gain_lg_param);
+    if (gain_idx >= coder->gain_tab_size)
+    {
+      coder->err_code = IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_GAIN_TABLE_SIZE;
+      return IA_DMX_MTX_GAIN_ZERO;
+    }
     gain = coder->gain_tab[gain_idx];
   }
 
@@ -815,6 +820,7 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
   pscr->gain_coder.gain_lg_param = -1;
   pscr->gain_coder.history_cnt = 0;
   pscr->gain_coder.gain_tab_size = 0;
+  pscr->gain_coder.err_code = IA_MPEGH_DEC_NO_ERROR;
 
   if (0 == raw_code_non_zeros)
   {
@@ -937,6 +943,10 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
   {
     return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_PRECISION_LVL;
   }
+  if (pscr->gain_coder.err_code != IA_MPEGH_DEC_NO_ERROR)
+  {
+    return pscr->gain_coder.err_code;
+  }
 
   for (i = 0; i < num_in_ch; i++)
   {
diff --git a/decoder/impeghd_dmx_mtx_data.h b/decoder/impeghd_dmx_mtx_data.h
index bad56df..0c8f442 100644
--- a/decoder/impeghd_dmx_mtx_data.h
+++ b/decoder/impeghd_dmx_mtx_data.h
@@ -36,7 +36,7 @@
 #define _FORMAT_DMXT_MAT_DATA_H_
 
 #define IA_DMX_MTX_HISTORY_CNT_MAX (512)
-#define IA_DMX_MTX_GAIN_TABLE_SIZE_MAX (274)
+#define IA_DMX_MTX_GAIN_TABLE_SIZE_MAX (278)
 #define IA_DMX_MTX_GAIN_ZERO (-256.0f)
 #define IA_DMX_MAX_NUM_BANDS (100)
 #define IA_MAX_NUM_EQ (12)
@@ -58,6 +58,7 @@ typedef struct
   WORD32 history_cnt;
   FLOAT32 gain_tab[IA_DMX_MTX_GAIN_TABLE_SIZE_MAX];
   WORD32 gain_tab_size;
+  IA_ERRORCODE err_code;
 } ia_dmx_mtx_gain_coder_t;
 
 typedef struct
-- 
2.43.0


From 96703706f60fc8dac88138105fcf7f51254bcba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 083/101] fix: runs of zeros beyond the end of a downmix matrix
 were written past it

---
 decoder/impeghd_dmx_mtx.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index ad51121..3c441dc 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -295,7 +295,7 @@ static IA_ERRORCODE impeghd_convert_to_compact_config(WORD32 num_conf,
  *
  *
  */
-static VOID impeghd_decode_flat_compact_mtx(ia_bit_buf_struct *ptr_bit_buf, WORD32 *mtx,
+static IA_ERRORCODE impeghd_decode_flat_compact_mtx(ia_bit_buf_struct *ptr_bit_buf, WORD32 *mtx,
                                             WORD32 cnt)
 {
   WORD32 n_bits = (cnt >= 256) ? 4 : 3;
@@ -317,6 +317,10 @@ static VOID impeghd_decode_flat_compact_mtx(ia_bit_buf_struct *ptr_bit_buf, WORD
       head++;
     }
     val = (head << lpg_param) + ia_core_coder_read_bits_buf(ptr_bit_buf, lpg_param);
+    if (val > cnt - mtx_idx)
+    {
+      return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_NUM_CONFS;
+    }
     memset(&mtx[mtx_idx], 0, val * sizeof(mtx[0]));
     mtx_idx += val;
 
@@ -326,6 +330,7 @@ static VOID impeghd_decode_flat_compact_mtx(ia_bit_buf_struct *ptr_bit_buf, WORD
       mtx_idx++;
     }
   } while (mtx_idx < cnt);
+  return IA_MPEGH_DEC_NO_ERROR;
 }
 
 /**
@@ -777,7 +782,11 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
       }
     }
 
-    impeghd_decode_flat_compact_mtx(ptr_bit_buf, pscr->flat_comp_mtx, total_cnt);
+    err_code = impeghd_decode_flat_compact_mtx(ptr_bit_buf, pscr->flat_comp_mtx, total_cnt);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err_code;
+    }
 
     cnt = 0;
     for (i = 0; i < num_in_compact; i++)
-- 
2.43.0


From 7e71c5b1d9bc6446e5ad633b26c894f425c676b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 084/101] fix: binaural responses for fewer channels than are
 rendered were used

---
 decoder/impeghd_binaural_renderer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index ba54120..55f38af 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -376,9 +376,14 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
         for (j = 0; j < wav_param->num_speaker_expected; j++)
         {
           ind = -1;
+          if (j >= MAX_NUM_BRIR_PAIRS)
+          {
+            ptr_td_binaural_renderer_param = NULL;
+            break;
+          }
           impeghd_br_find_geometry_in_speaker_config_3d(
               &geometry_expected[j], &(ptr_binaural_rep->setup_spk_config_3d), &ind);
-          if (ind != -1)
+          if (ind != -1 && ind < ptr_binaural_rep->td_binaural_ren_param.num_channel)
           {
             ptr_td_binaural_renderer_param = &ptr_binaural_rep->td_binaural_ren_param;
             binaural_handle->channel_map[j] = ind;
@@ -394,7 +399,8 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
           break;
         }
       }
-      else
+      else if (wav_param->num_speaker_expected <=
+               ptr_binaural_rep->td_binaural_ren_param.num_channel)
       {
         ptr_td_binaural_renderer_param = &ptr_binaural_rep->td_binaural_ren_param;
         for (j = 0; j < wav_param->num_speaker_expected; j++)
-- 
2.43.0


From e762eb4424a4b8c23c38e3541604b1901ce9e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 085/101] fix: binaural filters shorter than 2048 taps moved
 blocks of negative length

---
 decoder/impeghd_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 31e3818..d43eb04 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -847,8 +847,9 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
       return err_code;
     }
 
+    /* a block never holds more than it processes */
     pstr_dec_data->binaural_handle.str_binaural.memory_index +=
-        2048; // TODO: Replace 2048, with variable
+        ia_min_int(2048, pstr_dec_data->binaural_handle.str_binaural.processed_samples);
   }
 
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
-- 
2.43.0


From bfae5def153b12e0579061b69470d1caf1542e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 086/101] fix: errors of the core decoder were replaced by
 those of the binaural renderer

---
 decoder/impeghd_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index d43eb04..665d675 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -819,7 +819,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   p_obj_mpegh_dec->mpeghd_config.resamp_freq =
       (pstr_input_config->enable_resamp == 1) ? pstr_input_config->out_samp_freq : 0;
   err_code = ia_core_coder_dec_init(p_obj_mpegh_dec);
-  if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
+  if (err_code == IA_MPEGH_DEC_NO_ERROR && p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
   {
     ia_binaural_in_stream_cfg_str wav_info;
     ia_dec_data_struct *pstr_dec_data =
-- 
2.43.0


From 43972103ef4e187e325d19b3cf8e72fef65bbb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 087/101] fix: binaural rendering was not set up again after a
 new configuration

---
 decoder/impeghd_api.c | 83 ++++++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 25 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 665d675..1035cae 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -613,6 +613,58 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
   return err_code;
 }
 
+/**
+ *  impeghd_binaural_setup
+ *
+ *  \brief Set up binaural rendering, where it is asked for, for the configuration decoded last
+ *
+ *  \param [in,out] p_obj_mpegh_dec Pointer to decoder handle structure
+ *
+ *  \return IA_ERRORCODE Error code if any
+ *
+ */
+static IA_ERRORCODE impeghd_binaural_setup(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
+{
+  IA_ERRORCODE err_code;
+  ia_binaural_in_stream_cfg_str wav_info;
+  ia_dec_data_struct *pstr_dec_data =
+      (ia_dec_data_struct *)p_obj_mpegh_dec->p_state_mpeghd->pstr_dec_data;
+  ia_audio_specific_config_struct *pstr_audio_specific_config =
+      (ia_audio_specific_config_struct *)
+          p_obj_mpegh_dec->p_state_mpeghd->ia_audio_specific_config;
+  ia_binaural_renderer *pstr_binaural_rendering = &pstr_dec_data->str_binaural_rendering;
+
+  if (!p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
+  {
+    return IA_MPEGH_DEC_NO_ERROR;
+  }
+  wav_info.fs_input = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
+  wav_info.num_speaker_expected = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
+  wav_info.num_channel_is_input = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
+  if (p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0)
+  {
+    wav_info.cicp_spk_idx = pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx;
+  }
+  else
+  {
+    wav_info.cicp_spk_idx = p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx;
+  }
+
+  pstr_binaural_rendering->ptr_scratch = p_obj_mpegh_dec->p_state_mpeghd->mpeghd_scratch_mem_v;
+  err_code = impeghd_binaural_renderer_init(pstr_binaural_rendering, &wav_info,
+                                            &pstr_dec_data->binaural_handle);
+  if (err_code != IA_MPEGH_DEC_NO_ERROR)
+  {
+    p_obj_mpegh_dec->p_state_mpeghd->ui_init_done = 0;
+    return err_code;
+  }
+
+  /* a block never holds more than it processes */
+  pstr_dec_data->binaural_handle.str_binaural.memory_index +=
+      ia_min_int(2048, pstr_dec_data->binaural_handle.str_binaural.processed_samples);
+  return IA_MPEGH_DEC_NO_ERROR;
+}
+
 /**
  *  ia_mpegh_dec_init
  *
@@ -819,37 +871,14 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   p_obj_mpegh_dec->mpeghd_config.resamp_freq =
       (pstr_input_config->enable_resamp == 1) ? pstr_input_config->out_samp_freq : 0;
   err_code = ia_core_coder_dec_init(p_obj_mpegh_dec);
-  if (err_code == IA_MPEGH_DEC_NO_ERROR && p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
+  if (err_code == IA_MPEGH_DEC_NO_ERROR)
   {
-    ia_binaural_in_stream_cfg_str wav_info;
-    ia_dec_data_struct *pstr_dec_data =
-        (ia_dec_data_struct *)p_obj_mpegh_dec->p_state_mpeghd->pstr_dec_data;
-    ia_binaural_renderer *pstr_binaural_rendering = &pstr_dec_data->str_binaural_rendering;
-    wav_info.fs_input = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-    wav_info.num_speaker_expected = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
-    wav_info.num_channel_is_input = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
-    if (p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0)
-    {
-      wav_info.cicp_spk_idx = pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx;
-    }
-    else
-    {
-      wav_info.cicp_spk_idx = p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx;
-    }
-
-    pstr_binaural_rendering->ptr_scratch =
-        p_obj_mpegh_dec->p_state_mpeghd->mpeghd_scratch_mem_v;
-    err_code = impeghd_binaural_renderer_init(pstr_binaural_rendering, &wav_info,
-                                              &pstr_dec_data->binaural_handle);
+    err_code = impeghd_binaural_setup(p_obj_mpegh_dec);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
       pstr_output_config->i_bytes_consumed = 1;
       return err_code;
     }
-
-    /* a block never holds more than it processes */
-    pstr_dec_data->binaural_handle.str_binaural.memory_index +=
-        ia_min_int(2048, pstr_dec_data->binaural_handle.str_binaural.processed_samples);
   }
 
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
@@ -1207,6 +1236,10 @@ ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_obj_mpegh_dec->p_state_mpeghd->ui_init_done = 0;
 
   err = ia_core_coder_dec_init(p_obj_mpegh_dec);
+  if (err == IA_MPEGH_DEC_NO_ERROR && p_obj_mpegh_dec->p_state_mpeghd->ui_init_done)
+  {
+    err = impeghd_binaural_setup(p_obj_mpegh_dec);
+  }
   p_obj_mpegh_dec->p_state_mpeghd->flush = 1;
   return err;
 }
-- 
2.43.0


From 62433b3c28b691cc4d35f99b36b3bba48a01e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 088/101] fix: positions of loudspeakers the rendered layout
 does not have were read

---
 decoder/impeghd_obj_ren_dec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 883bc65..c5c40e6 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -1115,7 +1115,9 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
   }
   if (pstr_local_setup->enable_ele_int == 1)
   {
-    for (UWORD32 k = 0; k < pstr_local_setup->num_spk; k++)
+    for (UWORD32 k = 0; k < pstr_local_setup->num_spk &&
+                        (WORD32)k < ptr_obj_ren_dec_state->num_cicp_speakers;
+         k++)
     {
       pstr_local_setup->ptr_cicp_ls_geo[k].ls_elevation =
           ptr_obj_ren_dec_state->ptr_cicp_ls_geo[k]->ls_elevation;
-- 
2.43.0


From 73f4b242ffb43badc0076de64f49261750e68ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 089/101] fix: number of loudspeakers was read for layout
 indices outside the table

---
 decoder/impeghd_obj_ren_dec.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index c5c40e6..63f5310 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -1088,12 +1088,10 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
     if (pstr_local_setup->enable_ele_int == 0)
     {
       cicp_idx = ptr_obj_ren_dec_state->cicp_out_idx;
-      ptr_obj_ren_dec_state->num_cicp_speakers = impgehd_cicp_get_num_ls[cicp_idx];
     }
     else
     {
       cicp_idx = pstr_local_setup->spk_config.cicp_spk_layout_idx;
-      ptr_obj_ren_dec_state->num_cicp_speakers = impgehd_cicp_get_num_ls[cicp_idx];
     }
     if (cicp_idx <= 0 || cicp_idx == 8 || cicp_idx > NUM_LS_CFGS)
     {
@@ -1101,6 +1099,7 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
     }
     else
     {
+      ptr_obj_ren_dec_state->num_cicp_speakers = impgehd_cicp_get_num_ls[cicp_idx];
       in_channel_names = ia_cicp_idx_ls_set_map_tbl[cicp_idx];
       in_num_channels = impgehd_cicp_get_num_ls[cicp_idx];
       in_num_lfes = 0;
-- 
2.43.0


From 40099f8bc329f9a3d9e5f537f94b763f1c3fd49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 090/101] fix: switch groups naming groups the scene does not
 have were applied to memory outside the tables

---
 decoder/impeghd_metadata_preprocessor.c | 32 +++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 040aa1e..cb83bfe 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -2687,6 +2687,12 @@ static IA_ERRORCODE impehgd_apply_switch_group_off(ia_audio_specific_config_stru
       }
     }
 
+    if (grp_index == -1)
+    {
+      /* the scene does not have this group */
+      continue;
+    }
+
     if (group_id2 != group_id)
     {
       if (on_off_status_modified[grp_index] == 1)
@@ -2742,7 +2748,7 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
     {
       idx = impeghd_md_proc_grp_idx(pstr_asc,
                                     pstr_mae_asi->switch_group_definition[i].member_id[k]);
-      if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
+      if (idx > -1 && pstr_interact_cfg->on_off_status_modified[idx] == 1)
       {
         num_non_zero++;
       }
@@ -2759,7 +2765,10 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
       if (sw_grp_allow_on_off != 1)
       {
         idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
-        pstr_interact_cfg->on_off_status_modified[idx] = 1;
+        if (idx > -1)
+        {
+          pstr_interact_cfg->on_off_status_modified[idx] = 1;
+        }
       }
       else
       {
@@ -2774,12 +2783,18 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
         if (default_id != member_id)
         {
           idx = impeghd_md_proc_grp_idx(pstr_asc, member_id);
-          pstr_interact_cfg->on_off_status_modified[idx] = 0;
+          if (idx > -1)
+          {
+            pstr_interact_cfg->on_off_status_modified[idx] = 0;
+          }
         }
         else
         {
           idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
-          pstr_interact_cfg->on_off_status_modified[idx] = 1;
+          if (idx > -1)
+          {
+            pstr_interact_cfg->on_off_status_modified[idx] = 1;
+          }
         }
       }
     }
@@ -3099,7 +3114,7 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
               {
                 idx = impeghd_md_proc_grp_idx(
                     pstr_asc, pstr_mae_asi->switch_group_definition[i].member_id[k]);
-                if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
+                if (idx > -1 && pstr_interact_cfg->on_off_status_modified[idx] == 1)
                 {
                   pstr_interact_cfg->on_off_status_modified[idx] = 0;
                 }
@@ -3131,7 +3146,7 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
             {
               idx = impeghd_md_proc_grp_idx(
                   pstr_asc, pstr_mae_asi->switch_group_definition[i].member_id[k]);
-              if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
+              if (idx > -1 && pstr_interact_cfg->on_off_status_modified[idx] == 1)
               {
                 num_non_zero++;
               }
@@ -3139,7 +3154,10 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
             if (num_non_zero == 0)
             {
               idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
-              pstr_interact_cfg->on_off_status_modified[idx] = 1;
+              if (idx > -1)
+              {
+                pstr_interact_cfg->on_off_status_modified[idx] = 1;
+              }
             }
             else if (num_non_zero > 1)
             {
-- 
2.43.0


From a2ecf21d0cf101246b6360fbf3bf327af49819e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 091/101] fix: gains of groups whose members are not decoded
 were applied to memory outside the signals

---
 decoder/impeghd_metadata_preprocessor.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index cb83bfe..8da5427 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -3814,6 +3814,11 @@ static IA_ERRORCODE impeghd_md_apply_gain_interactivity(
 
           member_id = pstr_mae_asi->group_definition[i].start_id + k;
         }
+        if (member_id < 0 || member_id >= MAX_NUM_CHANNELS)
+        {
+          /* not one of the decoded signals */
+          continue;
+        }
 
         memset(&pstr_dec_data->str_usac_data.time_sample_vector[member_id][0], 0,
                sizeof(pstr_dec_data->str_usac_data.time_sample_vector[member_id][j]) *
@@ -3846,6 +3851,11 @@ static IA_ERRORCODE impeghd_md_apply_gain_interactivity(
               {
                 member_id = pstr_mae_asi->group_definition[i].start_id + k;
               }
+              if (member_id < 0 || member_id >= MAX_NUM_CHANNELS)
+              {
+                /* not one of the decoded signals */
+                continue;
+              }
 
               /* interpolate between lastGain and currentGain over the interval of 1 frame */
 
-- 
2.43.0


From 2670abd0495cc51397e4757ddfe92fc123833c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 092/101] fix: switch group conditions of presets looked at
 members of other switch groups

---
 decoder/impeghd_metadata_preprocessor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 8da5427..9ffa162 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -3113,7 +3113,7 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
               for (j = 0; j < pstr_mae_asi->switch_group_definition[k].group_num_members; j++)
               {
                 idx = impeghd_md_proc_grp_idx(
-                    pstr_asc, pstr_mae_asi->switch_group_definition[i].member_id[k]);
+                    pstr_asc, pstr_mae_asi->switch_group_definition[k].member_id[j]);
                 if (idx > -1 && pstr_interact_cfg->on_off_status_modified[idx] == 1)
                 {
                   pstr_interact_cfg->on_off_status_modified[idx] = 0;
@@ -3145,7 +3145,7 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
             for (j = 0; j < pstr_mae_asi->switch_group_definition[k].group_num_members; j++)
             {
               idx = impeghd_md_proc_grp_idx(
-                  pstr_asc, pstr_mae_asi->switch_group_definition[i].member_id[k]);
+                  pstr_asc, pstr_mae_asi->switch_group_definition[k].member_id[j]);
               if (idx > -1 && pstr_interact_cfg->on_off_status_modified[idx] == 1)
               {
                 num_non_zero++;
-- 
2.43.0


From 859f99d102d17173e7bef5d136a61c0e332e105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 093/101] fix: binaural rendering took two of the loudspeakers'
 signals from the second frame on

---
 decoder/ia_core_coder_decode_main.c | 12 ++++++++++++
 decoder/ia_core_coder_struct_def.h  |  1 +
 decoder/impeghd_api.c               |  4 ++--
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 5d2238e..ca6c61e 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1655,6 +1655,7 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
   WORD32 suitable_tracks = 1, delay, grp, channel, ele_idx, num_signals, drc_effect_type,
          num_elements;
   WORD32 ch_cnt = 0, sig_grp = 0, target_loudness, loudness_norm_flag, mct_cnt = 0;
+  WORD32 num_rendered = 0;
 
   ia_mpegh_dec_api_struct *handle = (ia_mpegh_dec_api_struct *)temp_handle;
   ia_mpegh_dec_state_struct *mpegh_dec_handle = handle->p_state_mpeghd;
@@ -1833,6 +1834,7 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
     {
       return err;
     }
+    num_rendered = *num_channel_out;
   }
 
   if (pstr_asc->str_usac_config.signals_3d.domain_switcher_enable == 1)
@@ -1924,6 +1926,11 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
   if (*num_channel_out > MAX_NUM_CHANNELS)
     return IA_MPEGH_DEC_INIT_FATAL_STREAM_CHAN_GT_MAX;
 
+  /* the signals rendered, before any binaural rendering of them */
+  mpegh_dec_handle->num_of_rendered_ch =
+      pstr_asc->str_usac_config.signals_3d.format_converter_enable == 1 ? num_rendered
+                                                                       : *num_channel_out;
+
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
@@ -2763,6 +2770,11 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
 
       num_samples_out = pstr_dec_data->str_usac_data.output_samples;
 
+      if (handle->mpeghd_config.ui_binaural_flag)
+      {
+        /* the number of signals the binaural renderer put out the last time */
+        *num_channel_out = mpegh_dec_handle->num_of_rendered_ch;
+      }
       err_code = ia_core_coder_dec_ext_ele_proc(temp_handle, num_channel_out);
       if (err_code != IA_MPEGH_DEC_NO_ERROR)
       {
diff --git a/decoder/ia_core_coder_struct_def.h b/decoder/ia_core_coder_struct_def.h
index f448573..3fc3e17 100644
--- a/decoder/ia_core_coder_struct_def.h
+++ b/decoder/ia_core_coder_struct_def.h
@@ -142,6 +142,7 @@ typedef struct ia_mpegh_dec_state_struct
 
   WORD32 i_bytes_consumed;
   WORD32 num_of_output_ch;
+  WORD32 num_of_rendered_ch;
   VOID *ia_audio_specific_config;
 
   UWORD16 *huffman_code_book_scl;
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 1035cae..8512e87 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -639,8 +639,8 @@ static IA_ERRORCODE impeghd_binaural_setup(ia_mpegh_dec_api_struct *p_obj_mpegh_
     return IA_MPEGH_DEC_NO_ERROR;
   }
   wav_info.fs_input = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-  wav_info.num_speaker_expected = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
-  wav_info.num_channel_is_input = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
+  wav_info.num_speaker_expected = p_obj_mpegh_dec->p_state_mpeghd->num_of_rendered_ch;
+  wav_info.num_channel_is_input = p_obj_mpegh_dec->p_state_mpeghd->num_of_rendered_ch;
   if (p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0)
   {
     wav_info.cicp_spk_idx = pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx;
-- 
2.43.0


From 19c17ada5a23d27211f42725087ddfe3bc8a866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:35 +0000
Subject: [PATCH 094/101] fix: loudness normalisation of binaural output took a
 frame of samples whatever was put out

---
 decoder/ia_core_coder_decode_main.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index ca6c61e..518eac8 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1477,6 +1477,7 @@ VOID impegh_dec_peak_limiter(ia_mpegh_dec_config_struct *ptr_config,
  *  \param [in]     pstr_mpegh_dec     Pointer to mpegh state structure
  *  \param [in]     gain_db_loudness_normalization Gain value to be applied in dB
  *  \param [in,out] ptr_num_out_chnl   Pointer to number of output channels info
+ *  \param [in]     num_samples        Number of samples to be put out for each channel
  *
  *  \return IA_ERRORCODE Processing error code if any.
  *
@@ -1484,7 +1485,7 @@ VOID impegh_dec_peak_limiter(ia_mpegh_dec_config_struct *ptr_config,
 IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
                                       ia_mpegh_dec_state_struct *pstr_mpegh_dec,
                                       FLOAT32 gain_db_loudness_normalization,
-                                      WORD32 *ptr_num_out_chnl)
+                                      WORD32 *ptr_num_out_chnl, WORD32 num_samples)
 {
   ia_output_scratch *pstr_output_scratch;
   pstr_output_scratch = (ia_output_scratch *)pstr_mpegh_dec->mpeghd_scratch_mem_v;
@@ -1511,7 +1512,8 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
       FLOAT32 *ptr_gain_buff = ptr_config->ui_binaural_flag
                                    ? pstr_dec_data->ptr_binaural_output[i]
                                    : ptr_audio_buff[i];
-      for (j = 0; j < frame_length; j++)
+      WORD32 gain_length = ptr_config->ui_binaural_flag ? num_samples : frame_length;
+      for (j = 0; j < gain_length; j++)
       {
         ptr_gain_buff[j] = ia_mul_flt(ptr_gain_buff[j], gain);
       }
@@ -2894,7 +2896,7 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
         FLOAT32 loudness_gain_db = pstr_asc->str_usac_config.uni_drc_cfg.loudness_gain_db;
 
         err_code = impegh_dec_ln_pl_process(pstr_dec_data, mpegh_dec_handle, loudness_gain_db,
-                                            num_channel_out);
+                                            num_channel_out, num_samples_out);
       }
       if (err_code != IA_MPEGH_DEC_NO_ERROR)
       {
-- 
2.43.0


From cca70e4c71cb0ac4c122f609a0f9f6985f1fc21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 095/101] fix: binaural responses of two diffuse blocks wrote
 beyond the signals kept for them

---
 decoder/impeghd_binaural_renderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_binaural_renderer.h b/decoder/impeghd_binaural_renderer.h
index affddd1..39b5aba 100644
--- a/decoder/impeghd_binaural_renderer.h
+++ b/decoder/impeghd_binaural_renderer.h
@@ -71,7 +71,7 @@ typedef struct
   FLOAT32 input_mem_buf[MAX_NUM_BRIR_CHANNELS][BINAURAL_FFT_MAXLEN];
   FLOAT32 output_mem_buf[BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
   FLOAT32 taps_diffuse[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
-  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_FFT_MAXLEN];
+  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS + 1][BINAURAL_FFT_MAXLEN];
   FLOAT32 diffuse_weight[MAX_NUM_BRIR_CHANNELS];
 } ia_binaural_ren_pers_mem_str;
 
-- 
2.43.0


From 1debd26dacd661e7f71ffceca1dad1f851cd824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 096/101] fix: taps of binaural responses given before were
 used beyond the end of shorter ones

---
 decoder/impeghd_binaural_renderer.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index 55f38af..197673f 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -263,11 +263,11 @@ impeghd_binaural_struct_set(ia_binaural_ren_pers_mem_str *ptr_binaural, WORD8 *p
     {
       memmove(ptr_binaural->taps_direct[out][inp],
               ptr_td_binaural_renderer_param->ptr_taps_direct[out][inp],
-              ptr_binaural->filter_size *
+              ptr_binaural->direct_size *
                   sizeof(ptr_td_binaural_renderer_param->ptr_taps_direct[out][inp][0]));
-      memset(&ptr_binaural->taps_direct[out][inp][ptr_binaural->filter_size], 0,
-             (ptr_binaural->fft_size - ptr_binaural->filter_size) *
-                 sizeof(ptr_binaural->taps_direct[out][inp][ptr_binaural->filter_size]));
+      memset(&ptr_binaural->taps_direct[out][inp][ptr_binaural->direct_size], 0,
+             (ptr_binaural->fft_size - ptr_binaural->direct_size) *
+                 sizeof(ptr_binaural->taps_direct[out][inp][ptr_binaural->direct_size]));
       ia_core_coder_memset(ptr_xi, ptr_binaural->fft_size);
       impeghd_cplx_ifft_8k(ptr_binaural->taps_direct[out][inp], ptr_xi, fft_ifft_scratch,
                            ptr_binaural->ifft_len);
@@ -286,9 +286,9 @@ impeghd_binaural_struct_set(ia_binaural_ren_pers_mem_str *ptr_binaural, WORD8 *p
               ptr_td_binaural_renderer_param->ptr_taps_diffuse[block][out],
               sizeof(ptr_td_binaural_renderer_param->ptr_taps_diffuse[block][out][0]) *
                   ptr_binaural->diffuse_size);
-      memset(&ptr_binaural->taps_diffuse[block][out][ptr_binaural->filter_size], 0,
-             sizeof(ptr_binaural->taps_diffuse[block][out][ptr_binaural->filter_size]) *
-                 (ptr_binaural->fft_size - ptr_binaural->filter_size));
+      memset(&ptr_binaural->taps_diffuse[block][out][ptr_binaural->diffuse_size], 0,
+             sizeof(ptr_binaural->taps_diffuse[block][out][ptr_binaural->diffuse_size]) *
+                 (ptr_binaural->fft_size - ptr_binaural->diffuse_size));
       ia_core_coder_memset(ptr_xi, ptr_binaural->fft_size);
       impeghd_cplx_ifft_8k(ptr_binaural->taps_diffuse[block][out], ptr_xi, fft_ifft_scratch,
                            ptr_binaural->ifft_len);
-- 
2.43.0


From 0d1972cfdd20009e90e484ba2d5331ad1e60cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 097/101] fix: inverse transforms of 4096 points took values of
 other ones for theirs

---
 decoder/impeghd_ifft.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoder/impeghd_ifft.c b/decoder/impeghd_ifft.c
index 0ab3723..1037dc6 100644
--- a/decoder/impeghd_ifft.c
+++ b/decoder/impeghd_ifft.c
@@ -1220,12 +1220,12 @@ VOID impeghd_cplx_ifft_4(FLOAT32 *x_r, FLOAT32 *x_i)
   // 4 Point FFT
   x_0 = x_r[0];
   x_1 = x_i[0];
-  x_2 = x_r[2];
-  x_3 = x_i[2];
-  x_4 = x_r[4];
-  x_5 = x_i[4];
-  x_6 = x_r[6];
-  x_7 = x_i[6];
+  x_2 = x_r[1];
+  x_3 = x_i[1];
+  x_4 = x_r[2];
+  x_5 = x_i[2];
+  x_6 = x_r[3];
+  x_7 = x_i[3];
 
   xh0_0 = ia_add_flt(x_0, x_4);
   xh1_0 = ia_add_flt(x_1, x_5);
-- 
2.43.0


From fcb8eb4e938034659561d68ce17e87d9d0390f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 098/101] fix: inverse transforms of 8192 points exchanged real
 and imaginary parts

---
 decoder/impeghd_ifft.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/decoder/impeghd_ifft.c b/decoder/impeghd_ifft.c
index 1037dc6..0556699 100644
--- a/decoder/impeghd_ifft.c
+++ b/decoder/impeghd_ifft.c
@@ -1182,16 +1182,16 @@ VOID impeghd_cplx_ifft_8(FLOAT32 *x_r, FLOAT32 *x_i)
   x_i[0] = ia_add_flt(n01, x_1);
   x_r[1] = ia_add_flt(n10, x_2);
   x_i[1] = ia_add_flt(n11, x_3);
-  x_r[2] = ia_sub_flt(n21, x_4);
-  x_i[2] = ia_add_flt(n20, x_5);
+  x_r[2] = ia_sub_flt(n20, x_5);
+  x_i[2] = ia_add_flt(n21, x_4);
   x_r[3] = ia_add_flt(n30, x_6);
   x_i[3] = ia_add_flt(n31, x_7);
   x_r[4] = ia_sub_flt(n00, x_0);
   x_i[4] = ia_sub_flt(n01, x_1);
   x_r[5] = ia_sub_flt(n10, x_2);
   x_i[5] = ia_sub_flt(n11, x_3);
-  x_r[6] = ia_add_flt(n21, x_4);
-  x_i[6] = ia_sub_flt(n20, x_5);
+  x_r[6] = ia_add_flt(n20, x_5);
+  x_i[6] = ia_sub_flt(n21, x_4);
   x_r[7] = ia_sub_flt(n30, x_6);
   x_i[7] = ia_sub_flt(n31, x_7);
 
-- 
2.43.0


From 8bad3a0d5f46954b8a1ba5b7a1abb8f920facc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 099/101] fix: inverse transforms of 16384 points left out
 their second stage

---
 decoder/impeghd_ifft.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/decoder/impeghd_ifft.c b/decoder/impeghd_ifft.c
index 0556699..af8602e 100644
--- a/decoder/impeghd_ifft.c
+++ b/decoder/impeghd_ifft.c
@@ -1288,8 +1288,8 @@ VOID impeghd_cplx_ifft_8k(FLOAT32 *ptr_in_buf_real, FLOAT32 *ptr_in_buf_imag,
     case 2:
       fac = 8;
       break;
-    case 1:
-      fac = 16;
+    default:
+      fac = 1;
       break;
     }
 
@@ -1322,7 +1322,16 @@ VOID impeghd_cplx_ifft_8k(FLOAT32 *ptr_in_buf_real, FLOAT32 *ptr_in_buf_imag,
         ptr_fft_interim_buf[(2 * i + 1) * dim2 + j] = temp_imag;
       }
     }
-    if (fft_len == 8192)
+    if (fft_len == 16384)
+    {
+      for (i = 0; i < dim1; i++)
+      {
+        ptr_data_r = &ptr_fft_interim_buf[(2 * i + 0) * dim2];
+        ptr_data_i = &ptr_fft_interim_buf[(2 * i + 1) * dim2];
+        impeghd_rad2_cplx_ifft(ptr_data_r, ptr_data_i, dim2, ptr_scratch_buf);
+      }
+    }
+    else if (fft_len == 8192)
     {
       for (i = 0; i < dim1; i++)
       {
-- 
2.43.0


From 1815b80204d8a161df168daa0a4fc98959a72d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 100/101] fix: transforms of two points, for binaural responses
 of one tap, were not defined

---
 decoder/impeghd_fft.c  | 9 +++++++++
 decoder/impeghd_ifft.c | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/decoder/impeghd_fft.c b/decoder/impeghd_fft.c
index c902fbd..f47de5e 100644
--- a/decoder/impeghd_fft.c
+++ b/decoder/impeghd_fft.c
@@ -1518,6 +1518,15 @@ VOID impeghd_cplx_fft_16k(FLOAT32 *ptr_in_buf_real, FLOAT32 *ptr_in_buf_imag,
       }
     }
   }
+  else if (fft_len == 2)
+  {
+    FLOAT32 x0_r = ptr_in_buf_real[0];
+    FLOAT32 x0_i = ptr_in_buf_imag[0];
+    ptr_in_buf_real[0] = x0_r + ptr_in_buf_real[1];
+    ptr_in_buf_imag[0] = x0_i + ptr_in_buf_imag[1];
+    ptr_in_buf_real[1] = x0_r - ptr_in_buf_real[1];
+    ptr_in_buf_imag[1] = x0_i - ptr_in_buf_imag[1];
+  }
   else
   {
     impeghd_rad2_cplx_fft(ptr_in_buf_real, ptr_in_buf_imag, fft_len, ptr_scratch_buf);
diff --git a/decoder/impeghd_ifft.c b/decoder/impeghd_ifft.c
index af8602e..d06ac9d 100644
--- a/decoder/impeghd_ifft.c
+++ b/decoder/impeghd_ifft.c
@@ -1377,6 +1377,15 @@ VOID impeghd_cplx_ifft_8k(FLOAT32 *ptr_in_buf_real, FLOAT32 *ptr_in_buf_imag,
       }
     }
   }
+  else if (fft_len == 2)
+  {
+    FLOAT32 x0_r = ptr_in_buf_real[0];
+    FLOAT32 x0_i = ptr_in_buf_imag[0];
+    ptr_in_buf_real[0] = x0_r + ptr_in_buf_real[1];
+    ptr_in_buf_imag[0] = x0_i + ptr_in_buf_imag[1];
+    ptr_in_buf_real[1] = x0_r - ptr_in_buf_real[1];
+    ptr_in_buf_imag[1] = x0_i - ptr_in_buf_imag[1];
+  }
   else
   {
     impeghd_rad2_cplx_ifft(ptr_in_buf_real, ptr_in_buf_imag, fft_len, ptr_scratch_buf);
-- 
2.43.0


From a43b06a851bc58c6e3473d477084886cbeea6349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 101/101] fix: scene displacement data that ends early returned
 into a call that had ended

---
 decoder/impeghd_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 8512e87..5337005 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1078,8 +1078,8 @@ IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOI
                                         pstr_input_config->sd_info_size);
       ptr_scene_disp_data->sd_buf_init_done = 1;
       ptr_scene_disp_data->min_bits_needed = BITS_FOR_PSDI_DATA;
-      ptr_scene_disp_data->sd_buf.xmpeghd_jmp_buf = &sd_jmp_buf;
     }
+    ptr_scene_disp_data->sd_buf.xmpeghd_jmp_buf = &sd_jmp_buf;
     if (ptr_scene_disp_data->sd_buf.cnt_bits >= ptr_scene_disp_data->min_bits_needed)
     {
       err_code = impeghd_scene_displacement_data(ptr_scene_disp_data);
-- 
2.43.0

