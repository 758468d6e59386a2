From 4af024a2b6cae72359f7bafa97d886ea4432e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 01/66] fix: report invalid creation parameters and keep their
 defaults

ia_mpegh_dec_create() overwrote the result of the parameter validation with
the result of the memory allocation, so the documented non-fatal codes were
never returned; the first invalid parameter also dropped all later ones,
an invalid target loudness left 0 instead of the default, and negative layout
and preset indices were taken as valid.
---
 decoder/impeghd_api.c | 58 ++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 6414ca8..3f630f2 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -256,33 +256,42 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
     p_obj_mpegh_dec->mpeghd_config.ui_mhas_flag = ptr_input_config->ui_mhas_flag;
   }
 
-  if ((ptr_input_config->ui_cicp_layout_idx != IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL) &&
+  if ((ptr_input_config->ui_cicp_layout_idx > IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL) &&
       (ptr_input_config->ui_cicp_layout_idx < NUM_LS_CFGS))
   {
     p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx = ptr_input_config->ui_cicp_layout_idx;
   }
   else if (ptr_input_config->ui_cicp_layout_idx != IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL)
   {
-    return IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_CICP_INDEX;
+    err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_CICP_INDEX;
   }
 
-  if ((ptr_input_config->i_preset_id != IMPEGHD_CONFIG_PARAM_PRESET_ID_DFLT_VAL) &&
+  if ((ptr_input_config->i_preset_id > IMPEGHD_CONFIG_PARAM_PRESET_ID_DFLT_VAL) &&
       (ptr_input_config->i_preset_id < IMPEGHD_CONFIG_PARAM_PRESET_ID_MAX_VAL))
   {
     p_obj_mpegh_dec->mpeghd_config.i_preset_id = ptr_input_config->i_preset_id;
   }
   else if (ptr_input_config->i_preset_id != IMPEGHD_CONFIG_PARAM_PRESET_ID_DFLT_VAL)
   {
-    return IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PRESET_ID;
+    if (err_code == IA_MPEGH_DEC_NO_ERROR)
+    {
+      err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PRESET_ID;
+    }
   }
 
   if ((ptr_input_config->ui_pcm_wd_sz != 16) && (ptr_input_config->ui_pcm_wd_sz != 24) &&
       (ptr_input_config->ui_pcm_wd_sz != 32))
   {
-    p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz = 16;
-    return (IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PCM_WDSZ);
+    p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz = IMPEGHD_CONFIG_PARAM_PCM_WD_SZ_DFLT_VAL;
+    if (err_code == IA_MPEGH_DEC_NO_ERROR)
+    {
+      err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PCM_WDSZ;
+    }
+  }
+  else
+  {
+    p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz = ptr_input_config->ui_pcm_wd_sz;
   }
-  p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz = ptr_input_config->ui_pcm_wd_sz;
 
   if (ptr_input_config->enable_resamp)
   {
@@ -293,11 +302,16 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
   {
     if ((ptr_input_config->ui_effect > 8) || (ptr_input_config->ui_effect < 0))
     {
-      p_obj_mpegh_dec->mpeghd_config.ui_effect_type = 0;
-      p_obj_mpegh_dec->mpeghd_config.drc_apply = 1;
-      return (IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_EFFECT_TYPE);
+      p_obj_mpegh_dec->mpeghd_config.ui_effect_type = IMPEGHD_CONFIG_PARAM_EFFECT_TYPE_DFLT_VAL;
+      if (err_code == IA_MPEGH_DEC_NO_ERROR)
+      {
+        err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_EFFECT_TYPE;
+      }
+    }
+    else
+    {
+      p_obj_mpegh_dec->mpeghd_config.ui_effect_type = ptr_input_config->ui_effect;
     }
-    p_obj_mpegh_dec->mpeghd_config.ui_effect_type = ptr_input_config->ui_effect;
   }
 
   if (ptr_input_config->ui_target_loudness[0] == 1)
@@ -311,12 +325,21 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
     if (((ptr_input_config->ui_target_loudness[1]) > 0) ||
         ((ptr_input_config->ui_target_loudness[1]) < -63))
     {
-      p_obj_mpegh_dec->mpeghd_config.ui_target_loudness = 0;
+      p_obj_mpegh_dec->mpeghd_config.ui_target_loudness =
+          IMPEGHD_CONFIG_PARAM_TGT_LOUDNESS_DFLT_VAL;
+      p_obj_mpegh_dec->mpeghd_config.ui_loud_norm_flag =
+          IMPEGHD_CONFIG_PARAM_LOUD_NORM_FLG_DFLT_VAL;
       p_obj_mpegh_dec->mpeghd_config.drc_apply = 0;
-      return (IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_TARGET_LOUDNESS);
+      if (err_code == IA_MPEGH_DEC_NO_ERROR)
+      {
+        err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_TARGET_LOUDNESS;
+      }
+    }
+    else
+    {
+      p_obj_mpegh_dec->mpeghd_config.ui_target_loudness = ptr_input_config->ui_target_loudness[1];
+      p_obj_mpegh_dec->mpeghd_config.ui_target_loudness_set = 1;
     }
-    p_obj_mpegh_dec->mpeghd_config.ui_target_loudness = ptr_input_config->ui_target_loudness[1];
-    p_obj_mpegh_dec->mpeghd_config.ui_target_loudness_set = 1;
   }
   return err_code;
 }
@@ -501,6 +524,7 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
   pVOID pv_value;
   WORD32 ui_api_size;
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
+  IA_ERRORCODE config_err_code;
   ia_input_config *pstr_input_config = (ia_input_config *)pv_input;
   ia_output_config *pstr_output_config = (ia_output_config *)pv_output;
   ia_mpegh_dec_api_struct *p_obj_mpegh_dech;
@@ -538,7 +562,7 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
         (ia_mpegh_dec_block_tables_struct *)&ia_core_coder_mpeghd_block_tables;
   }
 
-  err_code = impeghd_set_config_params(p_obj_mpegh_dech, pstr_input_config);
+  config_err_code = impeghd_set_config_params(p_obj_mpegh_dech, pstr_input_config);
 
   pstr_output_config->ui_proc_mem_tabs_size =
       (sizeof(ia_mem_info_struct) + sizeof(pVOID *)) * (NUM_MEMTABS);
@@ -577,7 +601,7 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
   }
   impeghd_update_output_config(p_obj_mpegh_dech, pstr_output_config);
 
-  return err_code;
+  return config_err_code;
 }
 
 /**
-- 
2.43.0


From 357e296673f8cead6475af16f091badfceb6069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 02/66] fix: wait for the whole packet before starting to
 decode it

A frame or configuration packet whose end had not been delivered yet was decoded as far as it
went: the call failed with a fatal code or left the decoder state half advanced, so that sending
the data again, as IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES asks for, lost frames.
---
 decoder/ia_core_coder_decode_main.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 137f834..653079c 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2437,6 +2437,15 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
       {
         return err_code;
       }
+      /* Do not start on a packet that has not been delivered completely: nothing of the decoder
+         state may change before the application sends this data again */
+      if ((MHAS_PAC_TYP_MPEGH3DAFRAME == pac_info.packet_type ||
+           MHAS_PAC_TYP_MPEGH3DACFG == pac_info.packet_type) &&
+          pstr_dec_data->dec_bit_buf.cnt_bits < (pac_info.packet_length << 3))
+      {
+        longjmp(*(pstr_dec_data->dec_bit_buf.xmpeghd_jmp_buf),
+                IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES);
+      }
     }
     if (pstr_asc->str_mae_asi.earcon_info.earcon_present &&
         pstr_asc->str_mae_asi.earcon_info.earcon_cicp_spk_idx[0] > 0)
-- 
2.43.0


From 7433c2fe592e0211d969e12fda5dc307cea445f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 03/66] fix: wait for the whole configuration packet before
 starting to parse it

---
 decoder/ia_core_coder_headerdecode.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index c34b318..beeb844 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -183,6 +183,13 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
         p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
         return IA_MPEGH_DEC_INIT_FATAL_3DACONFIG_DATA_NOT_FOUND;
       }
+      /* Do not start on a configuration that has not been delivered completely: nothing of the
+         decoder state may change before the application sends this data again */
+      if (handle_bit_buff->cnt_bits < (info.packet_length << 3))
+      {
+        longjmp(*(handle_bit_buff->xmpeghd_jmp_buf),
+                IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES);
+      }
     }
     {
       bit_offset = handle_bit_buff->cnt_bits;
-- 
2.43.0


From 90321c8d6245c0ed60886e41afd83531ac7207f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 04/66] fix: clear the object renderer's downmix matrix before
 building it

---
 decoder/impeghd_obj_ren_dec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 3e9d85d..f94ab20 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -868,6 +868,7 @@ VOID impeghd_remap_imag_spks(ia_obj_ren_dec_state_struct *ptr_obj_ren_dec_state)
   WORD32 total_spks = num_real_spks + num_imag_spks;
   FLOAT32 scratch_mtx[CICP_MAX_NUM_LS][CICP_MAX_NUM_LS];
   memset(scratch_mtx, 0, sizeof(scratch_mtx));
+  memset(ptr_obj_ren_dec_state->downmix_mtx, 0, sizeof(ptr_obj_ren_dec_state->downmix_mtx));
   for (i = (num_real_spks); i > 0; i--)
   {
     ptr_obj_ren_dec_state->downmix_mtx[i - 1][i - 1] = 1.0f;
-- 
2.43.0


From faec17f3f844627abbcd259e132aa83a0f9966f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 05/66] fix: saturate 32-bit samples at the top of the range
 instead of wrapping

---
 decoder/ia_core_coder_cnst.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_cnst.h b/decoder/ia_core_coder_cnst.h
index 5a9af68..a25cfe8 100644
--- a/decoder/ia_core_coder_cnst.h
+++ b/decoder/ia_core_coder_cnst.h
@@ -49,7 +49,7 @@
 /* Below values will be used for writing */
 /* 32-bit PCM data                       */
 #define MIN_FLT_VAL_32 (-2147483647.0f)
-#define MAX_FLT_VAL_32 (2147483647.0f)
+#define MAX_FLT_VAL_32 (2147483520.0f) /* largest float below 2^31 */
 #define MUL_FAC_PCM_32 (65536)
 
 #define ESC_VAL_BITS_2 3      // 0000 0011
-- 
2.43.0


From f12f10b5a905b7e16adbdad19181ca448d382ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:57 +0000
Subject: [PATCH 06/66] fix: mirror the left half of stop windows by the
 symmetry of the frame before

windowing_long3 treated transform kernel 2 (previous symmetry odd, current
even) like the kernels whose previous symmetry is even, which flipped the sign
of the second half of the frame.
---
 decoder/ia_core_coder_basic_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_basic_ops.c b/decoder/ia_core_coder_basic_ops.c
index d9e3bd4..e50bca4 100644
--- a/decoder/ia_core_coder_basic_ops.c
+++ b/decoder/ia_core_coder_basic_ops.c
@@ -243,7 +243,7 @@ VOID ia_core_coder_windowing_long3(FLOAT32 *ptr_src1, const FLOAT32 *ptr_win_fwd
       ptr_win_fwd++;
       ptr_win_rev--;
     }
-    if (transform_kernel_type != 3)
+    if (transform_kernel_type != 2 && transform_kernel_type != 3)
     {
       for (i = pstr_drc_offset->n_long / 2;
            i < pstr_drc_offset->n_flat_ls + pstr_drc_offset->n_trans_ls; i++)
-- 
2.43.0


From 4524e89435944fa58dafb732aebc138ccf79b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:57 +0000
Subject: [PATCH 07/66] fix: read shared TNS data with the window information
 of its own channel pair

With common_tns the filters were read as for channel 0 of the stream, so a
pair behind another channel lost its place in the bit stream as soon as the
two had different window lengths.
---
 decoder/ia_core_coder_ext_ch_ele.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_ext_ch_ele.c b/decoder/ia_core_coder_ext_ch_ele.c
index 5eec955..3d709e8 100644
--- a/decoder/ia_core_coder_ext_ch_ele.c
+++ b/decoder/ia_core_coder_ext_ch_ele.c
@@ -1358,8 +1358,8 @@ ia_core_coder_data(WORD32 id, ia_usac_data_struct *usac_data, WORD32 elem_idx, W
       }
       else
       {
-        err = ia_core_coder_read_tns_u(usac_data->pstr_sfb_info[0], &usac_data->pstr_tns[left][0],
-                                       it_bit_buff);
+        err = ia_core_coder_read_tns_u(usac_data->pstr_sfb_info[left],
+                                       &usac_data->pstr_tns[left][0], it_bit_buff);
         if (err != IA_MPEGH_DEC_NO_ERROR)
         {
           return err;
-- 
2.43.0


From 5ea015b7f410e64fe192e2c160b225d59c83ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:57 +0000
Subject: [PATCH 08/66] fix: accept TNS filters that reach down to the first
 band

A filter whose length takes it to the bottom of the spectrum (or nominally
below it) starts at band 0; such frames were rejected as fatal errors.
---
 decoder/ia_core_coder_spectrum_dec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_spectrum_dec.c b/decoder/ia_core_coder_spectrum_dec.c
index 327048a..a3b4e4a 100644
--- a/decoder/ia_core_coder_spectrum_dec.c
+++ b/decoder/ia_core_coder_spectrum_dec.c
@@ -290,9 +290,9 @@ IA_ERRORCODE ia_core_coder_read_tns_u(ia_sfb_info_struct *ptr_sfb_info,
       pstr_tns_filt->stop_band = top;
       top = pstr_tns_filt->start_band =
           top - ia_core_coder_read_bits_buf(it_bit_buff, start_band_bits);
-      if (top <= 0)
+      if (top < 0)
       {
-        return IA_MPEGH_DEC_EXE_FATAL_INVALID_START_BAND;
+        top = pstr_tns_filt->start_band = 0;
       }
       pstr_tns_filt->order = ia_core_coder_read_bits_buf(it_bit_buff, order_bits);
 
-- 
2.43.0


From b68c6c4906d7c65801b02aff31d20eadc1e92a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 09/66] fix: skip to the end of a loudness packet after parsing
 it

---
 decoder/impeghd_mhas_parse.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 3a26f06..63f8bf7 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -1363,8 +1363,19 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
     case MHAS_PAC_TYP_LOUDNESS:
     {
       ia_drc_payload_struct str_drc_payload;
+      WORD32 cnt_bits = pstr_bit_buf->cnt_bits;
       err_code = impd_drc_mpegh3da_parse_loudness_info_set(&str_drc_payload.str_loud_info,
                                                            pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
+      cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
+      if (cnt_bits < (pkt_len << 3))
+      {
+        WORD32 skip_bits = (pkt_len << 3) - cnt_bits;
+        ia_core_coder_skip_bits_buf(pstr_bit_buf, skip_bits);
+      }
     }
     break;
     default:
-- 
2.43.0


From 33a4f671b7e8e0423429703e55b19392e9845a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 10/66] fix: read bit fields of up to 32 bits at any bit
 position

---
 decoder/ia_core_coder_bitbuffer.c | 33 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/decoder/ia_core_coder_bitbuffer.c b/decoder/ia_core_coder_bitbuffer.c
index 6e95ce5..bd4ebd8 100644
--- a/decoder/ia_core_coder_bitbuffer.c
+++ b/decoder/ia_core_coder_bitbuffer.c
@@ -101,7 +101,7 @@ WORD32 ia_core_coder_skip_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
  */
 WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of_bits)
 {
-  UWORD32 return_val;
+  UWORD64 return_val;
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
 
@@ -116,14 +116,14 @@ WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
             IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES);
   }
   bit_position -= num_of_bits;
-  return_val = (UWORD32)*ptr_read_next;
+  return_val = (UWORD64)*ptr_read_next;
 
   while (bit_position < -1)
   {
     ptr_read_next++;
     return_val <<= 8;
 
-    return_val |= (UWORD32)*ptr_read_next;
+    return_val |= (UWORD64)*ptr_read_next;
     bit_position += 8;
   }
 
@@ -134,9 +134,9 @@ WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
     bit_position += 8;
   }
 
-  return_val = return_val << ((31 - num_of_bits) - bit_position) >> (32 - num_of_bits);
+  return_val = return_val << ((63 - num_of_bits) - bit_position) >> (64 - num_of_bits);
 
-  return return_val;
+  return (WORD32)return_val;
 }
 
 /**
@@ -154,7 +154,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
 {
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
-  UWORD32 return_val;
+  UWORD64 return_val;
 
   if (num_of_bits == 0)
   {
@@ -168,7 +168,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
   }
 
   pstr_bit_buff->cnt_bits -= num_of_bits;
-  return_val = (UWORD32)*ptr_read_next;
+  return_val = (UWORD64)*ptr_read_next;
 
   bit_position -= num_of_bits;
   while (bit_position < -1)
@@ -178,7 +178,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
     bit_position += 8;
     return_val <<= 8;
 
-    return_val |= (UWORD32)*ptr_read_next;
+    return_val |= (UWORD64)*ptr_read_next;
   }
 
   if (bit_position == -1)
@@ -189,9 +189,9 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
   }
   pstr_bit_buff->bit_pos = (WORD16)bit_position;
   pstr_bit_buff->ptr_read_next = ptr_read_next;
-  return_val = return_val << ((31 - num_of_bits) - bit_position) >> (32 - num_of_bits);
+  return_val = return_val << ((63 - num_of_bits) - bit_position) >> (64 - num_of_bits);
 
-  return return_val;
+  return (WORD32)return_val;
 }
 /**
 *  ia_core_coder_read_bits_buf_32
@@ -206,7 +206,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
 UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *pstr_bit_buff)
 {
   WORD32 num_of_bits = 32;
-  UWORD32 return_val;
+  UWORD64 return_val;
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
 
@@ -217,7 +217,7 @@ UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *pstr_bit_buff)
   }
 
   pstr_bit_buff->cnt_bits -= num_of_bits;
-  return_val = (UWORD32)*ptr_read_next;
+  return_val = (UWORD64)*ptr_read_next;
 
   bit_position -= num_of_bits;
   while (bit_position < -1)
@@ -227,19 +227,22 @@ UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *pstr_bit_buff)
 
     return_val <<= 8;
 
-    return_val |= (UWORD32)*ptr_read_next;
+    return_val |= (UWORD64)*ptr_read_next;
   }
 
   if (bit_position == -1)
   {
-    bit_position += 8;
     ptr_read_next++;
+    return_val <<= 8;
+    bit_position += 8;
   }
 
   pstr_bit_buff->ptr_read_next = ptr_read_next;
   pstr_bit_buff->bit_pos = (WORD16)bit_position;
 
-  return return_val;
+  return_val >>= (bit_position + 1);
+
+  return (UWORD32)return_val;
 }
 
 /**
-- 
2.43.0


From 97ad9b3bfeb1649e5319b20719aac3a9124b599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 11/66] fix: skip the LFEs of the target when rendered gains
 fill the downmix matrix

---
 decoder/ia_core_coder_decode_main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 653079c..9f8d7b1 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -715,9 +715,14 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
         {
           return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INIT_FAIL;
         }
+        WORD32 spk_idx = 0;
         for (out_chn = 0; out_chn < num_out_chn; out_chn++)
         {
-          pstr_fc_params->downmix_mat[chn][out_chn] = pstr_obj_renderer->final_gains[out_chn];
+          /* the renderer's gains do not count the LFEs */
+          pstr_fc_params->downmix_mat[chn][out_chn] =
+              ptr_cicp_out_geometry[out_chn]->lfe_flag
+                  ? 0
+                  : pstr_obj_renderer->final_gains[spk_idx++];
         }
       }
 
-- 
2.43.0


From 6cd3ad1ca7d08b7c51c50dfd5584161dced726aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:23 +0000
Subject: [PATCH 12/66] fix: rendering the top speaker to all speakers of a
 layer: take the layer, not a range of channel numbers

---
 decoder/impeghd_format_conv_init.c | 45 ++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/decoder/impeghd_format_conv_init.c b/decoder/impeghd_format_conv_init.c
index 64ad1be..70ea47c 100644
--- a/decoder/impeghd_format_conv_init.c
+++ b/decoder/impeghd_format_conv_init.c
@@ -213,6 +213,22 @@ static FLOAT32 impeghd_fc_filter_peak(const FLOAT32 *params, FLOAT32 freq)
   // 10.3.4.6.4 Derivation of equalizer gains GEQ in spec ISO/IEC 23008-3
   return ia_mul_flt((FLOAT32)ia_sqrt_flt(gain), (FLOAT32)pow(10.0f, gain_in / 20.0f));
 }
+/**
+ *  impeghd_fc_is_layer_spk
+ *
+ *  \brief Check whether a channel is a loudspeaker of one layer, LFEs excluded
+ *
+ *  \param [in] ch         Channel
+ *  \param [in] elevation  Elevation of the layer
+ *
+ *  \return WORD32     1 if it is one
+ */
+static WORD32 impeghd_fc_is_layer_spk(const WORD32 ch, const WORD32 elevation)
+{
+  return ch != CH_EMPTY && !ia_cicp_ls_geo_tbls[ch].lfe_flag &&
+         ia_cicp_ls_geo_tbls[ch].ls_elevation == elevation;
+}
+
 /**
  *  impeghd_fc_find_channel
  *
@@ -496,7 +512,8 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
   WORD32 idx, idx2;
   WORD32 input_channel_id, output_channel_idx;
   UWORD32 out_chn_num = params->num_out_ch, i;
-  WORD32 num_chanl, chnl_u;
+  WORD32 num_chanl;
+  UWORD32 chnl_u;
   WORD32 *ptr_dst_params = (params->data_state)->in_out_dst;
   WORD32 *ptr_src_params = (params->data_state)->in_out_src;
   WORD32 *ptr_proc_params = (params->data_state)->in_out_proc;
@@ -689,23 +706,22 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
           if (ia_dmx_rules_fc[k][4] == RULE_TOP2ALLM) // Not Entering IF statement
           {
             num_chanl = 0;
-            for (chnl_u = CH_M_000; chnl_u <= CH_M_180; chnl_u++)
+            for (chnl_u = 0; chnl_u < out_chn_num; chnl_u++)
             {
-              if (impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format) != -1)
+              if (impeghd_fc_is_layer_spk(ptr_out_ch_format[chnl_u], 0))
                 num_chanl++;
             }
-            if (num_chanl > 0) // Max value can be 9
+            if (num_chanl > 0)
             {
               gain = 1.0f / (FLOAT32)ia_sqrt_flt(num_chanl);
-              for (chnl_u = CH_M_000; chnl_u <= CH_M_180; chnl_u++)
+              for (chnl_u = 0; chnl_u < out_chn_num; chnl_u++)
               {
                 ptr_io_src[channel] = i;
-                ptr_io_dst[channel] =
-                    impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format);
+                ptr_io_dst[channel] = chnl_u;
                 ptr_io_gain[channel] =
                     ia_mul_flt(ia_mul_flt(0.01f, (FLOAT32)ia_dmx_rules_fc[k][3]), gain);
                 ptr_io_proc[channel] = ia_dmx_rules_fc[k][7];
-                if (ptr_io_dst[channel] != -1)
+                if (impeghd_fc_is_layer_spk(ptr_out_ch_format[chnl_u], 0))
                   channel++;
               }
               break;
@@ -716,23 +732,22 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
           if (ia_dmx_rules_fc[k][4] == RULE_TOP2ALLU) // Not entering the IF statement
           {
             num_chanl = 0;
-            for (chnl_u = CH_U_000; chnl_u <= CH_U_180; chnl_u++)
+            for (chnl_u = 0; chnl_u < out_chn_num; chnl_u++)
             {
-              if (impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format) != -1)
+              if (impeghd_fc_is_layer_spk(ptr_out_ch_format[chnl_u], 35))
                 num_chanl++;
             }
-            if (num_chanl > 0) // Max value can be 9
+            if (num_chanl > 0)
             {
               gain = 1.0f / (FLOAT32)ia_sqrt_flt(num_chanl);
-              for (chnl_u = CH_U_000; chnl_u <= CH_U_180; chnl_u++)
+              for (chnl_u = 0; chnl_u < out_chn_num; chnl_u++)
               {
                 ptr_io_src[channel] = i;
-                ptr_io_dst[channel] =
-                    impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format);
+                ptr_io_dst[channel] = chnl_u;
                 ptr_io_gain[channel] =
                     ia_mul_flt(ia_mul_flt(0.01f, (FLOAT32)ia_dmx_rules_fc[k][3]), gain);
                 ptr_io_proc[channel] = ia_dmx_rules_fc[k][7];
-                if (ptr_io_dst[channel] != -1)
+                if (impeghd_fc_is_layer_spk(ptr_out_ch_format[chnl_u], 35))
                   channel++;
               }
               break;
-- 
2.43.0


From e33f3941a3dc0f52fad575d7e4bf4e3a63de3a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 13/66] fix: the resampler's phases go backwards along with its
 coefficients

---
 decoder/impeghd_resampler.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_resampler.c b/decoder/impeghd_resampler.c
index a024d67..77e8b59 100644
--- a/decoder/impeghd_resampler.c
+++ b/decoder/impeghd_resampler.c
@@ -119,11 +119,12 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
     ptr_delay = &pstr_resampler->delay_samples_upsamp[idx1];
     ia_core_coder_memset(poly_filt_outputs, RESAMPLE_MAX_RATIO);
 
+    /* oldest sample first: the coefficients are met in reverse order, and so are the phases */
     for (idx2 = 0; (idx1 + idx2) < (RESAMPLE_DELAY / fac_up); idx2++)
     {
       for (idx3 = 0; idx3 < fac_up; idx3++)
       {
-        poly_filt_outputs[idx3] += ia_mul_flt(*ptr_delay, *ptr_filt_coef);
+        poly_filt_outputs[fac_up - 1 - idx3] += ia_mul_flt(*ptr_delay, *ptr_filt_coef);
         ptr_filt_coef++;
       }
       ptr_delay++;
@@ -134,7 +135,7 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
     {
       for (idx3 = 0; idx3 < fac_up; idx3++)
       {
-        poly_filt_outputs[idx3] += ia_mul_flt(*ptr_temp, *ptr_filt_coef);
+        poly_filt_outputs[fac_up - 1 - idx3] += ia_mul_flt(*ptr_temp, *ptr_filt_coef);
         ptr_filt_coef++;
       }
       ptr_temp++;
-- 
2.43.0


From 6c7c62452783be4d7039a39929214452e44c65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 14/66] fix: count the channels of a multichannel element from
 zero for every configuration

---
 decoder/impeghd_multichannel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impeghd_multichannel.c b/decoder/impeghd_multichannel.c
index 0735761..65e84be 100644
--- a/decoder/impeghd_multichannel.c
+++ b/decoder/impeghd_multichannel.c
@@ -281,6 +281,7 @@ IA_ERRORCODE impeghd_mc_init(ia_usac_decoder_config_struct *pstr_usac_dec_config
 
   it_bit_buff.xmpeghd_jmp_buf = xmpeghd_jmp_buf;
   ptr_mc_data->use_tool = 1;
+  ptr_mc_data->num_ch_to_apply = 0;
   ptr_mc_data->start_channel = start_ch;
   ptr_mc_data->start_element = start_element;
 
-- 
2.43.0


From 8dd5dee9bf36e02a770d3b763e5f4dd8e804a674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 15/66] fix: take the output rate from the configuration in
 use, and play at the stream's own rate when the requested one cannot be
 reached

---
 decoder/ia_core_coder_create.h      |  2 ++
 decoder/ia_core_coder_decode_main.c | 25 +++++++++++-----
 decoder/ia_core_coder_struct_def.h  |  1 +
 decoder/impeghd_api.c               | 46 +++++++----------------------
 4 files changed, 31 insertions(+), 43 deletions(-)

diff --git a/decoder/ia_core_coder_create.h b/decoder/ia_core_coder_create.h
index b063cae..180122e 100644
--- a/decoder/ia_core_coder_create.h
+++ b/decoder/ia_core_coder_create.h
@@ -64,6 +64,8 @@ typedef struct
 WORD32 ia_core_coder_frm_data_init(ia_audio_specific_config_struct *pstr_audio_conf,
                                    ia_dec_data_struct *pstr_dec_data);
 
+IA_ERRORCODE impeghd_resampler_get_sampling_ratio(ia_mpegh_dec_config_struct *ptr_config);
+
 IA_ERRORCODE ia_core_coder_decode_create(ia_mpegh_dec_api_struct *dec_handle,
                                          ia_dec_data_struct *pstr_dec_data,
                                          WORD32 tracks_for_decoder);
diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 9f8d7b1..7551c05 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1890,16 +1890,25 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
   }
 
   {
+    ia_mpegh_dec_config_struct *ptr_config = handle->p_state_mpeghd->p_config;
     WORD32 samp_freq = pstr_asc->str_usac_config.usac_sampling_frequency;
-    if ((pstr_asc->str_usac_config.usac_sampling_frequency !=
-         handle->p_state_mpeghd->p_config->out_samp_freq) &&
-        handle->p_state_mpeghd->p_config->resample_output)
+    /* the rate of this configuration decides, which may not be that of the one before */
+    ptr_config->stream_samp_freq = samp_freq;
+    ptr_config->out_samp_freq = samp_freq;
+    ptr_config->resample_output = 0;
+    if (ptr_config->requested_samp_freq != 0 &&
+        ptr_config->requested_samp_freq != ptr_config->out_samp_freq)
     {
-      samp_freq = handle->p_state_mpeghd->p_config->out_samp_freq;
-    }
-    else
-    {
-      handle->p_state_mpeghd->p_config->resample_output = 0;
+      ptr_config->out_samp_freq = ptr_config->requested_samp_freq;
+      if (impeghd_resampler_get_sampling_ratio(ptr_config) == IA_MPEGH_DEC_NO_ERROR)
+      {
+        samp_freq = ptr_config->out_samp_freq;
+      }
+      else
+      {
+        ptr_config->out_samp_freq = samp_freq;
+        ptr_config->resample_output = 0;
+      }
     }
     err_code = impeghd_peak_limiter_init(&pstr_dec_data->str_peak_limiter, *num_channel_out,
                                          samp_freq, &pstr_dec_data->str_peak_limiter.buffer[0]);
diff --git a/decoder/ia_core_coder_struct_def.h b/decoder/ia_core_coder_struct_def.h
index cca5e5f..add0c95 100644
--- a/decoder/ia_core_coder_struct_def.h
+++ b/decoder/ia_core_coder_struct_def.h
@@ -87,6 +87,7 @@ typedef struct
   WORD32 ui_binaural_flag;
   WORD32 stream_samp_freq;
   UWORD32 out_samp_freq;
+  UWORD32 requested_samp_freq;
   WORD32 resample_output;
   WORD32 output_framelength;
   WORD32 fac_up;
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 3f630f2..0b62103 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -201,6 +201,8 @@ IA_ERRORCODE impeghd_resampler_get_sampling_ratio(ia_mpegh_dec_config_struct *pt
     ptr_config->fac_down = 1;
     ptr_config->fac_up = 3;
     break;
+  default:
+    return IA_MPEGH_DEC_INIT_NONFATAL_INVALID_RESAMPLE_RATIO;
   }
   ptr_config->output_framelength =
       (AUDIO_CODEC_FRAME_SIZE_MAX * ptr_config->fac_up) / ptr_config->fac_down;
@@ -231,6 +233,7 @@ static VOID impeghd_set_default_config(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_obj_mpegh_dec->mpeghd_config.fac_down = 1;
   p_obj_mpegh_dec->mpeghd_config.fac_up = 1;
   p_obj_mpegh_dec->mpeghd_config.out_samp_freq = IMPEGHD_CONFIG_PARAM_OUT_FS_DFLT_VAL;
+  p_obj_mpegh_dec->mpeghd_config.requested_samp_freq = 0;
   p_obj_mpegh_dec->mpeghd_config.stream_samp_freq = IMPEGHD_CONFIG_PARAM_OUT_FS_DFLT_VAL;
   p_obj_mpegh_dec->mpeghd_config.ui_max_channels = IMPEGHD_CONFIG_PARAM_MAX_CHANS_DFLT_VAL;
   p_obj_mpegh_dec->mpeghd_config.ui_n_channels = 2;
@@ -297,6 +300,7 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
   {
     p_obj_mpegh_dec->mpeghd_config.resample_output = 1;
     p_obj_mpegh_dec->mpeghd_config.out_samp_freq = ptr_input_config->out_samp_freq;
+    p_obj_mpegh_dec->mpeghd_config.requested_samp_freq = ptr_input_config->out_samp_freq;
   }
   if (ptr_input_config->ui_effect != IMPEGHD_CONFIG_PARAM_EFFECT_TYPE_DFLT_VAL)
   {
@@ -807,26 +811,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   }
 
   err_code = ia_core_coder_dec_init(p_obj_mpegh_dec);
-  if (pstr_input_config->enable_resamp == 1)
+  if (pstr_input_config->enable_resamp == 1 &&
+      p_obj_mpegh_dec->p_state_mpeghd->ui_init_done == 1 &&
+      p_obj_mpegh_dec->mpeghd_config.ui_samp_freq != pstr_input_config->out_samp_freq &&
+      p_obj_mpegh_dec->mpeghd_config.resample_output == 0)
   {
-    IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
-    if (p_obj_mpegh_dec->mpeghd_config.ui_samp_freq != pstr_input_config->out_samp_freq)
-    {
-      p_obj_mpegh_dec->mpeghd_config.out_samp_freq = pstr_input_config->out_samp_freq;
-      p_obj_mpegh_dec->mpeghd_config.stream_samp_freq =
-          p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-      err_code = impeghd_resampler_get_sampling_ratio(&p_obj_mpegh_dec->mpeghd_config);
-      if (err_code)
-      {
-        pstr_input_config->enable_resamp = 0;
-      }
-    }
-  }
-  else
-  {
-    p_obj_mpegh_dec->mpeghd_config.out_samp_freq = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-    p_obj_mpegh_dec->mpeghd_config.stream_samp_freq =
-        p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
+    pstr_input_config->enable_resamp = 0;
   }
   if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
   {
@@ -868,14 +858,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   pstr_output_config->ui_init_done =
       (p_obj_mpegh_dec->p_state_mpeghd->ui_init_done == 1) && (err_code == 0) ? 1 : 0;
 
-  if (pstr_input_config->enable_resamp)
-  {
-    pstr_output_config->i_samp_freq = p_obj_mpegh_dec->mpeghd_config.out_samp_freq;
-  }
-  else
-  {
-    pstr_output_config->i_samp_freq = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-  }
+  pstr_output_config->i_samp_freq = p_obj_mpegh_dec->mpeghd_config.out_samp_freq;
   pstr_output_config->i_num_chan = p_obj_mpegh_dec->mpeghd_config.ui_n_channels;
   pstr_output_config->i_pcm_wd_sz = p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz;
   pstr_output_config->i_drc_effect = p_obj_mpegh_dec->mpeghd_config.ui_effect_type;
@@ -1115,14 +1098,7 @@ IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOI
   {
     pstr_output_config->num_out_bytes = p_obj_mpegh_dec->p_state_mpeghd->ui_out_bytes;
   }
-  if (pstr_input_config->enable_resamp)
-  {
-    pstr_output_config->i_samp_freq = p_obj_mpegh_dec->mpeghd_config.out_samp_freq;
-  }
-  else
-  {
-    pstr_output_config->i_samp_freq = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-  }
+  pstr_output_config->i_samp_freq = p_obj_mpegh_dec->mpeghd_config.out_samp_freq;
   if (pstr_input_config->extrn_rend_flag == 1)
   {
     pstr_output_config->ch_md_payload_length =
-- 
2.43.0


From 81ab30e50ea7780b4de7beb677907108c3a043dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 16/66] fix: leave the decoder as it is when the configuration
 in use is repeated

---
 decoder/ia_core_coder_decode_main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 7551c05..3d4c754 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2547,6 +2547,13 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
                    pac_info.packet_length);
             mpegh_dec_handle->prev_cfg_len = pac_info.packet_length;
           }
+          else if (mpegh_dec_handle->decode_create_done && mpegh_dec_handle->frame_counter != 0)
+          {
+            /* The configuration in use once more: reading it again would undo what has been set
+               up from it */
+            mpegh_dec_handle->flush = 0;
+            return IA_MPEGH_DEC_NO_ERROR;
+          }
           pstr_dec_data->dec_bit_buf.bit_pos = bit_pos;
           pstr_dec_data->dec_bit_buf.cnt_bits = cnt_bits;
           pstr_dec_data->dec_bit_buf.ptr_read_next = ptr_read_next;
-- 
2.43.0


From cfd7da2c9ba7aacb3e8fa5b827c762683dcc2fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 17/66] fix: report object metadata as present per object and
 in intra-coded frames

---
 decoder/impeghd_oam_dec_ld.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 29e074b..5c3f410 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -742,7 +742,7 @@ IA_ERRORCODE impeghd_obj_md_low_delay_dec(ia_oam_dec_state_struct *ptr_oam_dec_s
     for (i = obj_start_idx; i < obj_end_idx; i++)
     {
       WORD32 obj_md_present = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS);
-      ptr_oam_dec_state->has_obj_md[obj_start_idx] = obj_md_present;
+      ptr_oam_dec_state->has_obj_md[i] = obj_md_present;
       if (obj_md_present)
       {
         err_code = impeghd_single_dyn_obj_md(ptr_oam_dec_state, ptr_bit_buf, flag_absolute, i);
@@ -756,6 +756,11 @@ IA_ERRORCODE impeghd_obj_md_low_delay_dec(ia_oam_dec_state_struct *ptr_oam_dec_s
   else
   {
     err_code = impeghd_ic_obj_md_ld_dec(ptr_oam_dec_state, ptr_bit_buf);
+    for (i = (ptr_oam_dec_state->sub_frame_number - 1) * ptr_oam_dec_state->num_objects;
+         i < ptr_oam_dec_state->sub_frame_number * ptr_oam_dec_state->num_objects; i++)
+    {
+      ptr_oam_dec_state->has_obj_md[i] = 1;
+    }
   }
 
   if (err_code)
-- 
2.43.0


From ee369c5ddc324261de475eb7807763fe5c0bf6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 18/66] fix: read the spread depth of absolute object metadata
 with its four bits

---
 decoder/impeghd_oam_dec_ld.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 5c3f410..58e0ea5 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -447,7 +447,7 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
         ptr_oam_dec_state->spread_height[obj_idx] =
             ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
         ptr_oam_dec_state->spread_depth[obj_idx] =
-            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
+            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_DEPTH_BITS);
       }
       else
       {
-- 
2.43.0


From 1b5fb8ea7b7ef552a17852f8c3d5d02f98212ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 19/66] fix: keep parameters transmitted as fixed through
 dynamic object metadata

---
 decoder/impeghd_oam_dec_ld.c | 38 +++++-------------------------------
 1 file changed, 5 insertions(+), 33 deletions(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 58e0ea5..cbfd62b 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -379,12 +379,6 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
         }
       }
     }
-    else
-    {
-      ptr_oam_dec_state->spread_width[obj_idx] = 0;
-      ptr_oam_dec_state->spread_height[obj_idx] = 0;
-      ptr_oam_dec_state->spread_depth[obj_idx] = 0;
-    }
     if (ptr_oam_dec_state->p_obj_md_cfg->dyn_obj_priority_present)
     {
       if (ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS))
@@ -397,48 +391,26 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
   }
   else
   {
-    if (ptr_oam_dec_state->azimuth_fixed)
-    {
-      ptr_oam_dec_state->azimuth[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->azimuth_fixed)
     {
       ptr_oam_dec_state->azimuth[obj_idx] =
           impeghd_oam_read_sign_param(ptr_bit_buf, OAM_AZIMUTH_BITS);
     }
-    if (ptr_oam_dec_state->elevation_fixed)
-    {
-      ptr_oam_dec_state->elevation[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->elevation_fixed)
     {
       ptr_oam_dec_state->elevation[obj_idx] =
           impeghd_oam_read_sign_param(ptr_bit_buf, OAM_ELEVATION_BITS);
     }
-    if (ptr_oam_dec_state->radius_fixed)
-    {
-      ptr_oam_dec_state->radius[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->radius_fixed)
     {
       ptr_oam_dec_state->radius[obj_idx] =
           ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_RADIUS_BITS);
     }
-    if (ptr_oam_dec_state->gain_fixed)
-    {
-      ptr_oam_dec_state->gain[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->gain_fixed)
     {
       ptr_oam_dec_state->gain[obj_idx] = impeghd_oam_read_sign_param(ptr_bit_buf, OAM_GAIN_BITS);
     }
-    if (ptr_oam_dec_state->spread_fixed)
-    {
-      ptr_oam_dec_state->spread_width[obj_idx] = 0;
-      ptr_oam_dec_state->spread_height[obj_idx] = 0;
-      ptr_oam_dec_state->spread_depth[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->spread_fixed)
     {
       if (!ptr_oam_dec_state->p_obj_md_cfg->uniform_spread_present)
       {
-- 
2.43.0


From f363f1087afa47b4edef2ecf135902a4964c43e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 20/66] fix: read the dynamic object priority unless it is
 fixed

---
 decoder/impeghd_oam_dec_ld.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index cbfd62b..fb47c8e 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -379,7 +379,8 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
         }
       }
     }
-    if (ptr_oam_dec_state->p_obj_md_cfg->dyn_obj_priority_present)
+    if (ptr_oam_dec_state->p_obj_md_cfg->dyn_obj_priority_present &&
+        !ptr_oam_dec_state->dynamic_obj_priority_fixed)
     {
       if (ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS))
       {
@@ -431,11 +432,6 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
     {
       if (!ptr_oam_dec_state->dynamic_obj_priority_fixed)
       {
-        ptr_oam_dec_state->dyn_obj_priority[obj_idx] = 0;
-      }
-      else
-      {
-        ptr_oam_dec_state->dyn_obj_priority[obj_idx] = 0;
         ptr_oam_dec_state->dyn_obj_priority[obj_idx] =
             ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_DYN_OBJ_PRI_BITS);
       }
-- 
2.43.0


From 687c1895e75782f9e0a3c77fa215ee5c48a0ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 21/66] fix: store a fixed uniform spread with the objects of
 its sub-frame

---
 decoder/impeghd_oam_dec_ld.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index fb47c8e..22bac40 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -598,7 +598,7 @@ static IA_ERRORCODE impeghd_ic_obj_md_ld_dec(ia_oam_dec_state_struct *ptr_oam_de
       if (ptr_oam_dec_state->p_obj_md_cfg->uniform_spread_present)
       {
         param_val = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_WIDTH_BITS);
-        for (i = 0; i < num_objects; i++)
+        for (i = obj_idx_start; i < obj_idx_end; i++)
         {
           ptr_oam_dec_state->spread_width[i] = param_val;
         }
-- 
2.43.0


From 7fa04a273f0a3f78a3c9a0f747dd623df5b79415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 22/66] fix: limit the object metadata of every sub-frame

---
 decoder/impeghd_oam_dec_ld.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 22bac40..674d497 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -70,13 +70,14 @@
  */
 static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state)
 {
-  WORD32 n, num_elements;
+  WORD32 n, first, last;
   FLOAT32 minval, maxval;
-  num_elements = ptr_oam_dec_state->num_objects;
+  last = ptr_oam_dec_state->sub_frame_number * ptr_oam_dec_state->num_objects;
+  first = last - ptr_oam_dec_state->num_objects;
   /* radius */
   maxval = 16.f;
   minval = 0.5f;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < last; n++)
   {
     ptr_oam_dec_state->radius_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->radius_descaled[n], minval), maxval);
@@ -84,7 +85,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* elevation */
   maxval = 90;
   minval = -90;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < last; n++)
   {
     ptr_oam_dec_state->elevation_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->elevation_descaled[n], minval), maxval);
@@ -92,7 +93,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* azimuth */
   maxval = 180;
   minval = -180;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < last; n++)
   {
     ptr_oam_dec_state->azimuth_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->azimuth_descaled[n], minval), maxval);
@@ -100,7 +101,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* gain */
   maxval = 5.957f;
   minval = 0.004f;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < last; n++)
   {
     ptr_oam_dec_state->gain_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->gain_descaled[n], minval), maxval);
@@ -108,7 +109,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* spread */
   maxval = 180;
   minval = 0;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < last; n++)
   {
     ptr_oam_dec_state->spread_width_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->spread_width_descaled[n], minval), maxval);
@@ -118,7 +119,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread depth */
     maxval = 15.5f;
     minval = 0.0f;
-    for (n = 0; n < num_elements; n++)
+    for (n = first; n < last; n++)
     {
       ptr_oam_dec_state->spread_depth_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_depth_descaled[n], minval), maxval);
@@ -126,7 +127,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread height */
     maxval = 90;
     minval = 0;
-    for (n = 0; n < num_elements; n++)
+    for (n = first; n < last; n++)
     {
       ptr_oam_dec_state->spread_height_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_height_descaled[n], minval), maxval);
@@ -135,7 +136,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* dynamic object priority */
   maxval = 7.0f;
   minval = 0.0f;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < last; n++)
   {
     ptr_oam_dec_state->dyn_obj_priority_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->dyn_obj_priority_descaled[n], minval), maxval);
-- 
2.43.0


From 7182ae70444477f8f02cde5fe5a63202d0aa98ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 23/66] fix: keep object metadata in force over sub-frames that
 transmit none

---
 decoder/ia_core_coder_decode_main.c | 20 +++---------------
 decoder/impeghd_oam_dec.h           |  2 ++
 decoder/impeghd_oam_dec_ld.c        | 32 +++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 3d4c754..03c33b7 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1392,23 +1392,9 @@ impeghd_obj_md_dec_ren_process(ia_dec_data_struct *pstr_dec_data, FLOAT32 *ptr_o
   else
   {
     WORD32 num_iter = (ccfl / p_obj_md_cfg->frame_length);
-    pstr_obj_md_dec_state->sub_frame_number = 0;
     for (i = 0; i < num_iter; i++)
     {
-      if (pstr_obj_md_dec_state->sub_frame_obj_md_present[i])
-      {
-        pstr_obj_md_dec_state->sub_frame_number++;
-        if (pstr_obj_md_dec_state->sub_frame_number > num_iter)
-        {
-          pstr_obj_md_dec_state->sub_frame_number =
-              pstr_obj_md_dec_state->sub_frame_number % num_iter;
-        }
-      }
-      else if (i == 0)
-      {
-        pstr_obj_md_dec_state->sub_frame_number = num_iter;
-      }
-
+      pstr_obj_md_dec_state->sub_frame_number = i + 1;
       impeghd_obj_renderer_dec(pstr_obj_ren_dec_state,
                                ptr_in_buf + i * (p_obj_md_cfg->frame_length),
                                ptr_out_buf + i * (p_obj_md_cfg->frame_length), ccfl);
@@ -2043,14 +2029,14 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
           {
             WORD32 sub_frm;
             WORD32 num_sub_frms = (ccfl / p_obj_md_cfg->frame_length);
-            pstr_obj_md_dec_state->sub_frame_number = 0;
             for (sub_frm = 0; sub_frm < num_sub_frms; sub_frm++)
             {
+              pstr_obj_md_dec_state->sub_frame_number = sub_frm + 1;
+              impeghd_obj_md_hold(pstr_obj_md_dec_state, sub_frm ? sub_frm : num_sub_frms);
               pstr_obj_md_dec_state->sub_frame_obj_md_present[sub_frm] =
                   ia_core_coder_read_bits_buf(&bit_buf_str, OAM_FLAG_BITS);
               if (pstr_obj_md_dec_state->sub_frame_obj_md_present[sub_frm])
               {
-                pstr_obj_md_dec_state->sub_frame_number++;
                 err_code = impeghd_obj_md_dec(pstr_obj_md_dec_state, &bit_buf_str);
                 if (err_code != IA_MPEGH_DEC_NO_ERROR)
                 {
diff --git a/decoder/impeghd_oam_dec.h b/decoder/impeghd_oam_dec.h
index 3b5490f..7902bfb 100644
--- a/decoder/impeghd_oam_dec.h
+++ b/decoder/impeghd_oam_dec.h
@@ -45,6 +45,8 @@ IA_ERRORCODE impeghd_obj_md_cfg(ia_oam_dec_config_struct *p_obj_md_cfg,
 IA_ERRORCODE impeghd_obj_md_dec(ia_oam_dec_state_struct *ptr_oam_dec_state,
                                 ia_bit_buf_struct *ptr_bit_buf);
 
+VOID impeghd_obj_md_hold(ia_oam_dec_state_struct *ptr_oam_dec_state, WORD32 prev_sub_frame);
+
 VOID impeghd_descale_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state);
 
 IA_ERRORCODE impeghd_enh_obj_md_config(ia_enh_oam_config_struct *p_enh_obj_md_cfg,
diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 674d497..e4d1fb6 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -684,6 +684,38 @@ VOID impeghd_descale_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state)
   return;
 }
 
+/**
+ *  impeghd_obj_md_hold
+ *
+ *  \brief Carries the object metadata of a sub-frame over to the current one
+ *
+ *  \param [in,out] ptr_oam_dec_state Object metadata decoder state structure.
+ *  \param [in]     prev_sub_frame    Number of the preceding sub-frame, from 1.
+ *
+ *
+ *
+ */
+VOID impeghd_obj_md_hold(ia_oam_dec_state_struct *ptr_oam_dec_state, WORD32 prev_sub_frame)
+{
+  WORD32 i;
+  WORD32 num_objects = ptr_oam_dec_state->num_objects;
+  WORD32 cur = (ptr_oam_dec_state->sub_frame_number - 1) * num_objects;
+  WORD32 prev = (prev_sub_frame - 1) * num_objects;
+  for (i = 0; i < num_objects; i++)
+  {
+    ptr_oam_dec_state->has_obj_md[cur + i] = 0;
+    ptr_oam_dec_state->azimuth[cur + i] = ptr_oam_dec_state->azimuth[prev + i];
+    ptr_oam_dec_state->elevation[cur + i] = ptr_oam_dec_state->elevation[prev + i];
+    ptr_oam_dec_state->radius[cur + i] = ptr_oam_dec_state->radius[prev + i];
+    ptr_oam_dec_state->gain[cur + i] = ptr_oam_dec_state->gain[prev + i];
+    ptr_oam_dec_state->spread_width[cur + i] = ptr_oam_dec_state->spread_width[prev + i];
+    ptr_oam_dec_state->spread_height[cur + i] = ptr_oam_dec_state->spread_height[prev + i];
+    ptr_oam_dec_state->spread_depth[cur + i] = ptr_oam_dec_state->spread_depth[prev + i];
+    ptr_oam_dec_state->dyn_obj_priority[cur + i] = ptr_oam_dec_state->dyn_obj_priority[prev + i];
+  }
+  impeghd_obj_md_descale_limit(ptr_oam_dec_state);
+}
+
 /**
  *  impeghd_obj_md_low_delay_dec
  *
-- 
2.43.0


From 7fc3e821e5c73c5625d7d886933ee9e4b04032fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 24/66] fix: mix objects that accompany channels behind the
 format converter

---
 decoder/ia_core_coder_decode_main.c | 74 +++++++++++++++++++++++++----
 decoder/ia_core_coder_main.h        |  2 +
 2 files changed, 67 insertions(+), 9 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 03c33b7..078506e 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1832,6 +1832,8 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
     {
       return err;
     }
+    memset(pstr_dec_data->str_usac_data.fc_mix_buf, 0,
+           sizeof(pstr_dec_data->str_usac_data.fc_mix_buf));
   }
 
   if (pstr_asc->str_usac_config.signals_3d.domain_switcher_enable == 1)
@@ -1935,6 +1937,65 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
+/**
+ *  impeghd_mix_rendered_signals
+ *
+ *  \brief Adds rendered signals to the channels of the output layout. Those are
+ *         only there behind the format converter, when it is used.
+ *
+ *  \param [in,out] pstr_dec_data   Pointer to decoder data structure.
+ *  \param [in]     ptr_rendered    Rendered signals.
+ *  \param [in]     num_channels    Number of channels.
+ *  \param [in]     num_samples     Number of samples.
+ *  \param [in]     fc_enable       Format converter enable flag.
+ *
+ *
+ *
+ */
+static VOID impeghd_mix_rendered_signals(ia_dec_data_struct *pstr_dec_data,
+                                         const FLOAT32 *ptr_rendered, WORD32 num_channels,
+                                         WORD32 num_samples, WORD32 fc_enable)
+{
+  WORD32 ch, s;
+  for (ch = 0; ch < num_channels; ch++)
+  {
+    FLOAT32 *ptr_dst = fc_enable ? &pstr_dec_data->str_usac_data.fc_mix_buf[ch][FC_DELAY]
+                                 : &pstr_dec_data->str_usac_data.time_sample_vector[ch][0];
+    for (s = 0; s < num_samples; s++)
+    {
+      ptr_dst[s] = ia_add_flt(ptr_dst[s], ptr_rendered[ch * num_samples + s]);
+    }
+  }
+}
+
+/**
+ *  impeghd_mix_behind_converter
+ *
+ *  \brief Adds the signals rendered beside channels to the format converter's output
+ *
+ *  \param [in,out] ptr_usac_data   Pointer to USAC data structure.
+ *  \param [in]     num_channels    Number of channels.
+ *
+ *
+ *
+ */
+static VOID impeghd_mix_behind_converter(ia_usac_data_struct *ptr_usac_data, WORD32 num_channels)
+{
+  WORD32 ch, s;
+  WORD32 num_samples = ptr_usac_data->output_samples;
+  for (ch = 0; ch < num_channels; ch++)
+  {
+    FLOAT32 *ptr_mix = &ptr_usac_data->fc_mix_buf[ch][0];
+    for (s = 0; s < num_samples; s++)
+    {
+      ptr_usac_data->time_sample_vector[ch][s] =
+          ia_add_flt(ptr_usac_data->time_sample_vector[ch][s], ptr_mix[s]);
+    }
+    memmove(ptr_mix, ptr_mix + num_samples, FC_DELAY * sizeof(*ptr_mix));
+    memset(ptr_mix + FC_DELAY, 0, num_samples * sizeof(*ptr_mix));
+  }
+}
+
 /**
  *  ia_core_coder_dec_ext_ele_proc
  *
@@ -2184,15 +2245,9 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
         }
         if (pstr_usac_config->signals_3d.num_ch != 0)
         {
-          for (channel = 0; channel < *num_channel_out; channel++)
-          {
-            for (s = 0; s < num_samples_out; s++)
-            {
-              pstr_dec_data->str_usac_data.time_sample_vector[channel][s] =
-                  ia_add_flt(pstr_dec_data->str_usac_data.time_sample_vector[channel][s],
-                             ptr_out_buf[channel * num_samples_out + s]);
-            }
-          }
+          impeghd_mix_rendered_signals(pstr_dec_data, ptr_out_buf, *num_channel_out,
+                                       num_samples_out,
+                                       pstr_usac_config->signals_3d.format_converter_enable);
           ch_offset += pstr_usac_config->signals_3d.num_audio_obj;
         }
         else if (pstr_usac_config->signals_3d.num_hoa_transport_ch != 0)
@@ -2778,6 +2833,7 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
         pstr_fc_scratch = (ia_format_converter_scratch *)ptr_fc_scratch;
         err_code = impeghd_format_converter_process(handle, num_channel_out,
                                                     &pstr_fc_scratch->scratch_fc[0]);
+        impeghd_mix_behind_converter(&pstr_dec_data->str_usac_data, *num_channel_out);
       }
       if ((pstr_dec_data->str_drc_payload.num_sets[1] > 0 ||
            pstr_dec_data->str_drc_payload.num_sets[2] > 0))
diff --git a/decoder/ia_core_coder_main.h b/decoder/ia_core_coder_main.h
index ae9dd77..d0ac38c 100644
--- a/decoder/ia_core_coder_main.h
+++ b/decoder/ia_core_coder_main.h
@@ -122,6 +122,8 @@ typedef struct ia_usac_data_main_struct
 {
   FLOAT32 time_sample_hoa_vect[MAX_NUM_CHANNELS][1024];
   FLOAT32 time_sample_vector[MAX_NUM_CHANNELS][1024];
+  /* rendered signals to be mixed in behind the format converter, after its delay */
+  FLOAT32 fc_mix_buf[MAX_NUM_CHANNELS][1024 + 256];
   FLOAT32 *time_sample_stft[MAX_NUM_CHANNELS];
   FLOAT32 overlap_data_ptr[MAX_NUM_CHANNELS][1024 + 256];
   WORD32 window_shape[MAX_NUM_CHANNELS];
-- 
2.43.0


From 29f0983912b9ee6493c3cab5e349d73422c79d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 25/66] fix: never report more bytes consumed than were offered

---
 decoder/impeghd_api.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 0b62103..d5d475d 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -854,6 +854,11 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   {
     pstr_output_config->i_bytes_consumed = 1;
   }
+  /* A damaged packet length may reach beyond the data offered */
+  if (pstr_output_config->i_bytes_consumed > (WORD32)pstr_input_config->num_inp_bytes)
+  {
+    pstr_output_config->i_bytes_consumed = pstr_input_config->num_inp_bytes;
+  }
 
   pstr_output_config->ui_init_done =
       (p_obj_mpegh_dec->p_state_mpeghd->ui_init_done == 1) && (err_code == 0) ? 1 : 0;
@@ -1062,6 +1067,11 @@ IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOI
     pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
   }
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
+  /* A damaged packet length may reach beyond the data offered */
+  if (pstr_output_config->i_bytes_consumed > (WORD32)pstr_input_config->num_inp_bytes)
+  {
+    pstr_output_config->i_bytes_consumed = pstr_input_config->num_inp_bytes;
+  }
 
   ptr_audio_specific_config = ((ia_audio_specific_config_struct *)
                                    p_obj_mpegh_dec->p_state_mpeghd->ia_audio_specific_config);
-- 
2.43.0


From 2f18bf63035194cf4dfb38a00ba238b1332066e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 26/66] fix: make room for every configuration that can be
 delivered

---
 decoder/ia_core_coder_config.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_config.h b/decoder/ia_core_coder_config.h
index 20492bd..8da5f3a 100644
--- a/decoder/ia_core_coder_config.h
+++ b/decoder/ia_core_coder_config.h
@@ -36,6 +36,7 @@
 #define IA_CORE_CODER_CONFIG_H
 
 #include <impeghd_type_def.h>
+#include "ia_core_coder_definitions.h"
 
 #define MAX_ELEMENTS_USAC (50)
 #ifdef LC_LEVEL_4
@@ -276,7 +277,7 @@ typedef struct
 #define DOWNMIX_COEFF_COUNT_MAX (32 * 32)
 #define MAX_AUDIO_PREROLLS 1
 #define MAX_EXT_ELE_PAYLOAD (1536)
-#define MAX_CFG_DATA_LENGTH (768)
+#define MAX_CFG_DATA_LENGTH (IN_BUF_SIZE) /* nothing longer can be delivered */
 #define MEASUREMENT_COUNT_MAX 16
 #define MAX_INTERP_BUF_STRUCT_SIZE                                                               \
   (2 * sizeof(ia_drc_node_struct) +                                                              \
-- 
2.43.0


From 5794a35c512b68ab3978dfb6d5c7c8c5df874796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 27/66] fix: keep as many loudness information blocks as can be
 transmitted

---
 decoder/impd_drc_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impd_drc_common.h b/decoder/impd_drc_common.h
index 7ddda87..b50f2bb 100644
--- a/decoder/impd_drc_common.h
+++ b/decoder/impd_drc_common.h
@@ -70,7 +70,7 @@ extern "C" {
 #define INV_LOG10_2 3.32192809f
 
 #define LOCATION_SELECTED 0x1
-#define LOUDNESS_INFO_COUNT_MAX (DOWNMIX_INSTRUCTION_COUNT_MAX + 20)
+#define LOUDNESS_INFO_COUNT_MAX (63) /* transmitted with 6 bits */
 
 #define MAX_BS_BUF_SIZE 768
 #ifdef LC_LEVEL_4
-- 
2.43.0


From 50f7428137362a00ab4356be94ed7c058d4c5d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 28/66] fix: refuse one earcon more than there is room for

---
 decoder/impeghd_mhas_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 63f8bf7..88457b9 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -897,7 +897,7 @@ IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *pstr_earcon_info,
                                       ia_bit_buf_struct *pstr_bit_buf)
 {
   WORD32 num_earcons = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
-  if (num_earcons > MAX_NUM_EARCONS)
+  if (num_earcons + 1 > MAX_NUM_EARCONS)
   {
     return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_EARCONS;
   }
-- 
2.43.0


From 2e85d0fd0f179afbacaa4b37bb42d412745850ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 29/66] fix: refuse more multichannel elements than there is
 room for

---
 decoder/ia_core_coder_process.c | 2 +-
 decoder/impeghd_multichannel.c  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_process.c b/decoder/ia_core_coder_process.c
index 567b074..b090bec 100644
--- a/decoder/ia_core_coder_process.c
+++ b/decoder/ia_core_coder_process.c
@@ -923,12 +923,12 @@ IA_ERRORCODE ia_core_coder_usac_process(ia_dec_data_struct *pstr_dec_data, VOID
       {
         return err;
       }
-      mct_cnt++;
       for (i = 0; i < MAX_NUM_CHANNELS; i++)
       {
         pstr_usac_dec_config->ia_mcdata[mct_cnt].prev_out_spec[i] =
             &pstr_usac_data->mct_prev_out_spec[i][0];
       }
+      mct_cnt++;
     }
   }
   for (sig_group = 0; sig_group < mct_cnt; sig_group++)
diff --git a/decoder/impeghd_multichannel.c b/decoder/impeghd_multichannel.c
index 65e84be..f90787b 100644
--- a/decoder/impeghd_multichannel.c
+++ b/decoder/impeghd_multichannel.c
@@ -273,7 +273,13 @@ IA_ERRORCODE impeghd_mc_init(ia_usac_decoder_config_struct *pstr_usac_dec_config
   WORD32 chan;
   UWORD8 *ptr_bitbuf, bitbuf_len;
   ia_bit_buf_struct it_bit_buff;
-  ia_multichannel_data *ptr_mc_data = &pstr_usac_dec_config->ia_mcdata[mct_cnt];
+  ia_multichannel_data *ptr_mc_data;
+
+  if (mct_cnt >= MAX_NUM_SIGNALGROUPS)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SIGNALGROUPS_EXCEEDED;
+  }
+  ptr_mc_data = &pstr_usac_dec_config->ia_mcdata[mct_cnt];
 
   ptr_bitbuf = pstr_usac_dec_config->usac_ext_ele_payload_buf[start_element];
   bitbuf_len = (UWORD8)pstr_usac_dec_config->usac_ext_ele_payload_len[start_element];
-- 
2.43.0


From e77a65438dcc7cb62abeab667fe2e7759565ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 30/66] fix: refuse external samples there is no room for

---
 decoder/ia_core_coder_decode_main.c |  2 +-
 decoder/impeghd_error_codes.h       |  1 +
 decoder/impeghd_mhas_parse.c        | 27 ++++++++++++++++++++-------
 decoder/impeghd_mhas_parse.h        |  1 +
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 078506e..5c2f00d 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1315,7 +1315,7 @@ static IA_ERRORCODE impeghd_earcon_obj_md_dec_ren_process(ia_dec_data_struct *ps
   ia_oam_dec_state_struct *pstr_obj_md_dec_state = &pstr_obj_ren_dec_state->str_obj_md_dec_state;
 
   num_objects = pstr_obj_md_dec_state->num_objects;
-  ccfl = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+  ccfl = pstr_pcm_data_config->pcm_frame_size;
   ptr_in_buf = &pstr_pcm_data_config->pcm_sample[0][0];
 
   ia_core_coder_memset(ptr_out_buf, (ccfl * pstr_obj_ren_dec_state->num_cicp_speakers));
diff --git a/decoder/impeghd_error_codes.h b/decoder/impeghd_error_codes.h
index 452aff0..6be2d72 100644
--- a/decoder/impeghd_error_codes.h
+++ b/decoder/impeghd_error_codes.h
@@ -154,6 +154,7 @@
 #define IA_MPEGH_DEC_INIT_FATAL_INVALID_ASI_PARAM 0xFFFF9039
 #define IA_MPEGH_DEC_INIT_FATAL_INVALID_CONFIG_FOR_NUM_CH 0xFFFF903A
 #define IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_SIG_GROUP_TYPE 0xFFFF903B
+#define IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_PCM_FRAME_SIZE 0xFFFF903C
 
 // DRC
 #define IA_MPEGD_DRC_INIT_FATAL_CH_GROUP_COUNT_EXCEEDED 0xFFFF9100
diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 88457b9..bb21806 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -747,7 +747,9 @@ IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *pstr_pcm_data_config,
                                       ia_bit_buf_struct *pstr_bit_buf)
 {
 
-  WORD32 cnt, idx, pcm_fix_frame_size;
+  WORD32 cnt, idx, pcm_frame_size;
+
+  pstr_pcm_data_config->pcm_frame_size = 0;
   pstr_pcm_data_config->bsnum_pcm_signals_in_frame = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
 
   if (pstr_pcm_data_config->bsnum_pcm_signals_in_frame > (MAX_NUM_CHANNELS - 1))
@@ -777,20 +779,26 @@ IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *pstr_pcm_data_config,
     return IA_MPEGH_DEC_NO_ERROR;
     break;
   case 5:
-    pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_fix_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    pcm_frame_size = pstr_pcm_data_config->pcm_fix_frame_size;
     break;
   case 6:
-    pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_var_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    pcm_frame_size = pstr_pcm_data_config->pcm_var_frame_size;
+    break;
+  case 7:
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_PCM_FRAME_SIZE;
     break;
   default:
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    pcm_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
     break;
   }
+  if (pcm_frame_size > MAX_NUM_PCM_SAMPLES)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_PCM_FRAME_SIZE;
+  }
+  pstr_pcm_data_config->pcm_frame_size = pcm_frame_size;
 
   WORD32 pcm_sample, temp, temp_num;
-  for (cnt = 0; cnt < pcm_fix_frame_size; cnt++)
+  for (cnt = 0; cnt < pcm_frame_size; cnt++)
   {
     for (idx = 0; idx < pstr_pcm_data_config->bsnum_pcm_signals_in_frame + 1; idx++)
     {
@@ -846,6 +854,11 @@ IA_ERRORCODE impeghd_pcm_data_config(ia_pcm_data_config *pstr_pcm_data_config,
                                      ia_bit_buf_struct *pstr_bit_buf)
 {
   pstr_pcm_data_config->bs_num_pcm_signals = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
+  if (pstr_pcm_data_config->bs_num_pcm_signals > (MAX_NUM_CHANNELS - 1))
+  {
+    pstr_pcm_data_config->bs_num_pcm_signals = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_PCM_SIG;
+  }
   pstr_pcm_data_config->pcm_align_audio_flag = ia_core_coder_read_bits_buf(pstr_bit_buf, 1);
   pstr_pcm_data_config->pcm_sampling_rate_idx = ia_core_coder_read_bits_buf(pstr_bit_buf, 5);
   pstr_pcm_data_config->pcm_sampling_rate =
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index e3e4006..b50a61f 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -298,6 +298,7 @@ typedef struct
   WORD32 pcm_bits_per_sample;
   WORD32 pcm_config_present;
   WORD32 pcm_fix_frame_size;
+  WORD32 pcm_frame_size;
   WORD32 pcm_frame_size_idx;
   WORD32 pcm_has_attenuation_gain;
   WORD32 pcm_packet_type_present;
-- 
2.43.0


From 874b64610cb1101fd0787faaac7864847f383637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 31/66] fix: keep the type of loudness information blocks when
 album loudness is present

---
 decoder/impd_drc_static_payload.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index c5cbce5..e8434ad 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -522,7 +522,7 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
 
     for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_album_count; cnt++)
     {
-      pstr_loudness_info_set->loudness_info[cnt].loudness_info_type = 0;
+      pstr_loudness_info_set->str_loudness_info_album[cnt].loudness_info_type = 0;
       err_code = impd_drc_parse_loudness_info(
           &(pstr_loudness_info_set->str_loudness_info_album[cnt]), pstr_it_bit_buff);
       if (err_code)
-- 
2.43.0


From aaadc080b18e38850459fc317de1622834495212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 32/66] fix: bound the number of matching loudness information
 blocks

---
 decoder/impd_drc_loudness_control.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder/impd_drc_loudness_control.c b/decoder/impd_drc_loudness_control.c
index fdfb09d..d7a996d 100644
--- a/decoder/impd_drc_loudness_control.c
+++ b/decoder/impd_drc_loudness_control.c
@@ -707,6 +707,7 @@ IA_ERRORCODE impd_drc_check_loudness_info(
           {
             loud_info_type2_match[l] = cnt;
             l++;
+            break;
           }
         }
         break;
@@ -721,6 +722,7 @@ IA_ERRORCODE impd_drc_check_loudness_info(
             loud_info_type3_match_num_members[cnt2] =
                 pstr_drc_sel_proc_params_struct->num_members_group_preset_ids_requested[cnt1];
             cnt2++;
+            break;
           }
         }
         break;
@@ -1180,12 +1182,14 @@ IA_ERRORCODE impd_drc_init_loudness_control(
   if (1 == pstr_drc_sel_proc_params_struct->loudness_normalization_on)
   {
     WORD32 cnt1;
-    ia_drc_loudness_info_struct *pstr_ia_loudness_info[16];
+    ia_drc_loudness_info_struct *pstr_ia_loudness_info[LOUDNESS_INFO_COUNT_MAX];
     err_code = impd_drc_find_overall_loudness_info(
         pstr_ia_loudness_info, &info_cnt, &overall_loudness_info_flag,
         pstr_drc_sel_proc_params_struct, pstr_loudness_info, req_dwnmix_id, pstr_drc_instruction);
     if (err_code)
       return (err_code);
+    if (info_cnt > MAX_LOUDNESS_INFO_COUNT)
+      return IA_MPEGD_DRC_INIT_NONFATAL_UNEXPECTED_ERROR;
 
     if (1 == overall_loudness_info_flag)
     {
-- 
2.43.0


From 00e1641dde4f931ca598772b43a7c53b550de19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 33/66] fix: apply the loudness gain of the selected gain set

---
 decoder/impd_drc_selection_process.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impd_drc_selection_process.c b/decoder/impd_drc_selection_process.c
index e9bef38..c9a5477 100644
--- a/decoder/impd_drc_selection_process.c
+++ b/decoder/impd_drc_selection_process.c
@@ -343,6 +343,7 @@ static IA_ERRORCODE impd_select_drc_set(ia_drc_sel_pro_struct *pstr_drc_uni_sel_
   {
     pstr_drc_uni_sel_proc->uni_drc_sel_proc_output.loud_norm_gain_db =
         selection_candidate_info[0].loud_norm_db_gain_adjust;
+    pstr_drc_config->loudness_gain_db = selection_candidate_info[0].loud_norm_db_gain_adjust;
     pstr_drc_uni_sel_proc->uni_drc_sel_proc_output.output_peak_level_db =
         selection_candidate_info[0].output_peak_level;
     pstr_drc_uni_sel_proc->uni_drc_sel_proc_output.output_loudness =
-- 
2.43.0


From 77f61afdce7e04f371c1b2c66e366986025e0b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 34/66] fix: apply the loudness gain before resampling

---
 decoder/ia_core_coder_decode_main.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 5c2f00d..710523f 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1504,6 +1504,18 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
   {
     ptr_audio_buff[i] = &pstr_dec_data->str_usac_data.time_sample_vector[i][0];
   }
+  if (gain_db_loudness_normalization != 0.0f)
+  {
+
+    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
+    for (i = 0; i < *ptr_num_out_chnl; i++)
+    {
+      for (j = 0; j < frame_length; j++)
+      {
+        ptr_audio_buff[i][j] = ia_mul_flt(ptr_audio_buff[i][j], gain);
+      }
+    }
+  }
   if (ptr_config->resample_output)
   {
     FLOAT32 *ptr_resamp_scratch =
@@ -1521,18 +1533,6 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
     pstr_mpegh_dec->ui_out_bytes =
         frame_length * (*ptr_num_out_chnl) * (ptr_config->ui_pcm_wdsz >> 3);
   }
-  if (gain_db_loudness_normalization != 0.0f)
-  {
-
-    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
-    for (i = 0; i < *ptr_num_out_chnl; i++)
-    {
-      for (j = 0; j < frame_length; j++)
-      {
-        ptr_audio_buff[i][j] = ia_mul_flt(ptr_audio_buff[i][j], gain);
-      }
-    }
-  }
   if (peak_lim_flag)
   {
     impegh_dec_peak_limiter(ptr_config, pstr_dec_data, ptr_num_out_chnl, ptr_out_buf,
-- 
2.43.0


From c4e4d58a811df5b420a7f8aab34a4c5bf5f6a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 35/66] fix: stereo filling of multichannel pairs gave up at an
 even number of scale factor bands

---
 decoder/impeghd_multichannel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_multichannel.c b/decoder/impeghd_multichannel.c
index f90787b..92498da 100644
--- a/decoder/impeghd_multichannel.c
+++ b/decoder/impeghd_multichannel.c
@@ -753,7 +753,7 @@ IA_ERRORCODE impeghd_mc_get_prev_dmx(ia_multichannel_data *ptr_mc_data, FLOAT32
       start_line = (sfb < 0) ? 0 : ptr_sfb_offset[sfb];
       if (sfb + 1 >= total_sfb)
       {
-        return IA_MPEGH_DEC_EXE_FATAL_SFB_EXCEEDED_MAX;
+        break;
       }
       stop_line = (sfb + 2 < total_sfb) ? ptr_sfb_offset[sfb + 2] : ptr_sfb_offset[sfb + 1];
       prev_spec1_start = (ptr_prev_spec1) ? &ptr_prev_spec1[start_line] : NULL;
-- 
2.43.0


From 889356fe764969a08a80d50381f3a44de325c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 36/66] fix: previous spectra of multichannel coding were
 shared between signal groups

---
 decoder/ia_core_coder_process.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/decoder/ia_core_coder_process.c b/decoder/ia_core_coder_process.c
index b090bec..63f10e7 100644
--- a/decoder/ia_core_coder_process.c
+++ b/decoder/ia_core_coder_process.c
@@ -1085,9 +1085,8 @@ IA_ERRORCODE ia_core_coder_usac_process(ia_dec_data_struct *pstr_dec_data, VOID
       const ia_sfb_info *sfb_info_element = pstr_usac_dec_config->ia_sfb_info[chIdx];
       if (pstr_usac_dec_config->ia_sfb_info[chIdx] == NULL)
         return IA_MPEGH_DEC_EXE_FATAL_NULL_PTR_SFB_INFO;
-      mct->prev_out_spec[ch] = &pstr_usac_data->mct_prev_out_spec[ch][0];
-      impeghd_mc_save_prev(mct, pstr_usac_data->coef[chIdx], ch, sfb_info_element->max_win_len,
-                           sfb_info_element->bins_per_sbk, 0);
+      impeghd_mc_save_prev(mct, pstr_usac_data->coef[chIdx], ch + mct->start_channel,
+                           sfb_info_element->max_win_len, sfb_info_element->bins_per_sbk, 0);
     }
   }
 
-- 
2.43.0


From d872e29cef892dff56cf91b638a5735ccbef6816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 37/66] fix: signal group information read one group too many
 and did not end at its declared length

---
 decoder/ia_core_coder_init_config.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c32dbc1..eca038c 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -693,7 +693,7 @@ static VOID impeghd_sig_group_info(ia_bit_buf_struct *it_bit_buff, ia_signals_3d
 {
   WORD32 grp;
 
-  for (grp = 0; grp <= (WORD32)ptr_signal_3d->num_sig_group; grp++)
+  for (grp = 0; grp < (WORD32)ptr_signal_3d->num_sig_group; grp++)
   {
     ptr_signal_3d->group_priority[grp] = ia_core_coder_read_bits_buf(it_bit_buff, 3);
     ptr_signal_3d->fixed_position[grp] = ia_core_coder_read_bits_buf(it_bit_buff, 1);
@@ -1027,8 +1027,15 @@ static IA_ERRORCODE ia_core_coder_config_extension(
     }
     case ID_CONFIG_EXT_SIG_GROUP_INFO:
     {
+      cnt_bits = it_bit_buff->cnt_bits;
       impeghd_sig_group_info(it_bit_buff, ptr_signal_3d);
       ptr_signal_3d->signal_grp_info_present = 1;
+      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
+      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
+      {
+        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
+        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
+      }
       break;
     }
     case ID_CONFIG_EXT_FILL:
-- 
2.43.0


From 1288af1d2dc5c7e05dbc7b03789c8b1998a432ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 38/66] fix: the compatible profile set did not end at its
 declared length

---
 decoder/ia_core_coder_init_config.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index eca038c..6e86d7a 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -932,7 +932,14 @@ static IA_ERRORCODE ia_core_coder_config_extension(
     case ID_CONFIG_EXT_COMPATIBLE_PROFILELVL_SET:
     {
       pstr_usac_decoder_config->compat_profile_cfg_present = 1;
+      cnt_bits = it_bit_buff->cnt_bits;
       impeghd_compatible_profile_level_set(it_bit_buff, &pstr_usac_decoder_config->str_compatible_profile_config);
+      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
+      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
+      {
+        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
+        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
+      }
       break;
     }
     case ID_CONFIG_EXT_HOA_MATRIX:
-- 
2.43.0


From 9c33c66fba6b8410a29ab8d1b226497c0272530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 39/66] fix: streams of other frame lengths were decoded as
 frames of 1024 samples

---
 decoder/ia_core_coder_config.h      | 3 ++-
 decoder/ia_core_coder_init_config.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_config.h b/decoder/ia_core_coder_config.h
index 8da5f3a..145e3c1 100644
--- a/decoder/ia_core_coder_config.h
+++ b/decoder/ia_core_coder_config.h
@@ -87,7 +87,8 @@
 #define OUT_FRAMELENGTH_2048 2048
 #define OUT_FRAMELENGTH_4096 4096
 
-#define MAX_CORE_SBR_FRAME_LEN_IDX (4)
+/* 1024 samples and no SBR, the only frame length that is decoded */
+#define CORE_SBR_FRAME_LEN_IDX_1024 (1)
 
 #define ID_EXT_ELE_FILL 0
 #define ID_EXT_ELE_MPEGS 1
diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 6e86d7a..67160ec 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1300,7 +1300,7 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
 
   pstr_usac_conf->core_sbr_framelength_index = ia_core_coder_read_bits_buf(it_bit_buff, 3);
 
-  if (pstr_usac_conf->core_sbr_framelength_index > MAX_CORE_SBR_FRAME_LEN_IDX)
+  if (pstr_usac_conf->core_sbr_framelength_index != CORE_SBR_FRAME_LEN_IDX_1024)
     return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CORECODER_FRAMELENGTH_IDX;
 
   ia_core_coder_skip_bits_buf(it_bit_buff, 1); // dummy read cfg_reserved
-- 
2.43.0


From d9714ddb5c02f303713b035d1345aa22fe789b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 40/66] fix: inverse FFT of 4096 points and more

The 4-point stage read elements 0, 2, 4 and 6 of its four, bins 2 and 6 of the
8-point stage were mixed up, and 16384 points lacked their last stage, so that
binaural responses longer than 1024 samples were not what was rendered.
---
 decoder/impeghd_ifft.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/decoder/impeghd_ifft.c b/decoder/impeghd_ifft.c
index 0ab3723..a051769 100644
--- a/decoder/impeghd_ifft.c
+++ b/decoder/impeghd_ifft.c
@@ -1182,16 +1182,16 @@ VOID impeghd_cplx_ifft_8(FLOAT32 *x_r, FLOAT32 *x_i)
   x_i[0] = ia_add_flt(n01, x_1);
   x_r[1] = ia_add_flt(n10, x_2);
   x_i[1] = ia_add_flt(n11, x_3);
-  x_r[2] = ia_sub_flt(n21, x_4);
-  x_i[2] = ia_add_flt(n20, x_5);
+  x_r[2] = ia_sub_flt(n20, x_5);
+  x_i[2] = ia_add_flt(n21, x_4);
   x_r[3] = ia_add_flt(n30, x_6);
   x_i[3] = ia_add_flt(n31, x_7);
   x_r[4] = ia_sub_flt(n00, x_0);
   x_i[4] = ia_sub_flt(n01, x_1);
   x_r[5] = ia_sub_flt(n10, x_2);
   x_i[5] = ia_sub_flt(n11, x_3);
-  x_r[6] = ia_add_flt(n21, x_4);
-  x_i[6] = ia_sub_flt(n20, x_5);
+  x_r[6] = ia_add_flt(n20, x_5);
+  x_i[6] = ia_sub_flt(n21, x_4);
   x_r[7] = ia_sub_flt(n30, x_6);
   x_i[7] = ia_sub_flt(n31, x_7);
 
@@ -1220,12 +1220,12 @@ VOID impeghd_cplx_ifft_4(FLOAT32 *x_r, FLOAT32 *x_i)
   // 4 Point FFT
   x_0 = x_r[0];
   x_1 = x_i[0];
-  x_2 = x_r[2];
-  x_3 = x_i[2];
-  x_4 = x_r[4];
-  x_5 = x_i[4];
-  x_6 = x_r[6];
-  x_7 = x_i[6];
+  x_2 = x_r[1];
+  x_3 = x_i[1];
+  x_4 = x_r[2];
+  x_5 = x_i[2];
+  x_6 = x_r[3];
+  x_7 = x_i[3];
 
   xh0_0 = ia_add_flt(x_0, x_4);
   xh1_0 = ia_add_flt(x_1, x_5);
@@ -1251,7 +1251,7 @@ VOID impeghd_cplx_ifft_4(FLOAT32 *x_r, FLOAT32 *x_i)
 /**
  *  impeghd_cplx_ifft_8k
  *
- *  \brief Generic radix-2 complex IFFT for sizes greater than 1024 upto 8192
+ *  \brief Generic radix-2 complex IFFT for sizes greater than 1024 upto 16384
  *
  *  \param [in,out] ptr_in_buf_real Pointer to real part data buffer
  *  \param [in,out] ptr_in_buf_imag Pointer to imaginary part data buffer
@@ -1322,7 +1322,16 @@ VOID impeghd_cplx_ifft_8k(FLOAT32 *ptr_in_buf_real, FLOAT32 *ptr_in_buf_imag,
         ptr_fft_interim_buf[(2 * i + 1) * dim2 + j] = temp_imag;
       }
     }
-    if (fft_len == 8192)
+    if (fft_len == 16384)
+    {
+      for (i = 0; i < dim1; i++)
+      {
+        ptr_data_r = &ptr_fft_interim_buf[(2 * i + 0) * dim2];
+        ptr_data_i = &ptr_fft_interim_buf[(2 * i + 1) * dim2];
+        impeghd_rad2_cplx_ifft(ptr_data_r, ptr_data_i, dim2, ptr_scratch_buf);
+      }
+    }
+    else if (fft_len == 8192)
     {
       for (i = 0; i < dim1; i++)
       {
-- 
2.43.0


From 030dc923d0932fbae62201314756872ed22a96e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 41/66] fix: room for the diffuse blocks of binaural responses

Two diffuse blocks need three blocks of history, and the lengths read from the
response data were used without comparing them with the size of the arrays.
---
 decoder/impeghd_binaural.c          | 5 +++++
 decoder/impeghd_binaural_renderer.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_binaural.c b/decoder/impeghd_binaural.c
index 17b4d5a..a7ddf30 100644
--- a/decoder/impeghd_binaural.c
+++ b/decoder/impeghd_binaural.c
@@ -179,6 +179,11 @@ impeghd_binaural_read_td_data(ia_bit_buf_struct *ptr_bit_buf,
   {
     return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_CHANNELS;
   }
+  if ((pstr_binaural_td_data->len_direct > MAX_LENGTH_DIRECT_FILTER) ||
+      (pstr_binaural_td_data->num_diffuse_block > MAX_NUM_DIFFUSE_BLOCKS))
+  {
+    return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_FILTER_LENGTH;
+  }
 
   for (pair = 0; pair < pstr_binaural_rep->brir_pairs; pair++)
   {
diff --git a/decoder/impeghd_binaural_renderer.h b/decoder/impeghd_binaural_renderer.h
index affddd1..39b5aba 100644
--- a/decoder/impeghd_binaural_renderer.h
+++ b/decoder/impeghd_binaural_renderer.h
@@ -71,7 +71,7 @@ typedef struct
   FLOAT32 input_mem_buf[MAX_NUM_BRIR_CHANNELS][BINAURAL_FFT_MAXLEN];
   FLOAT32 output_mem_buf[BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
   FLOAT32 taps_diffuse[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
-  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_FFT_MAXLEN];
+  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS + 1][BINAURAL_FFT_MAXLEN];
   FLOAT32 diffuse_weight[MAX_NUM_BRIR_CHANNELS];
 } ia_binaural_ren_pers_mem_str;
 
-- 
2.43.0


From a452c120092aba77c4bf0181ac829788e2f2e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 42/66] fix: binaural block lengths below the delay

With blocks of less than 2048 samples the zeros put in front of the signal gave
a negative length to copy.
---
 decoder/impeghd_binaural_renderer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index ba54120..1be00ec 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -568,7 +568,8 @@ WORD32 impeghd_binaural_struct_process_ld_ola(FLOAT32 **ptr_src, FLOAT32 **ptr_d
           (WORD32)(n_in_samps > ptr_binaural->processed_samples ? ptr_binaural->processed_samples
                                                                 : n_in_samps);
 
-      len = len - ptr_binaural->memory_index;
+      /* Zeros put in front may fill more than one block */
+      len = ia_max_int(len - ptr_binaural->memory_index, 0);
 
       for (inp = 0; inp < ptr_binaural->num_input; inp++)
       {
@@ -669,7 +670,8 @@ WORD32 impeghd_binaural_struct_process_ld_ola(FLOAT32 **ptr_src, FLOAT32 **ptr_d
       n_in_samps = n_in_samps - ptr_binaural->processed_samples;
       samples_len = samples_len - len;
       idx = idx + len;
-      ptr_binaural->memory_index = 0;
+      ptr_binaural->memory_index =
+          ia_max_int(ptr_binaural->memory_index - ptr_binaural->processed_samples, 0);
     }
 
     for (inp = 0; inp < ptr_binaural->num_input; inp++)
-- 
2.43.0


From 9975bf20f4e84c8ade74c811ff8f2bab5e020f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 43/66] fix: binaural responses of a single sample

The FFT does not work for two points.
---
 decoder/impeghd_binaural_renderer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index 1be00ec..0f31d90 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -193,7 +193,7 @@ static IA_ERRORCODE impeghd_binaural_struct_init(WORD32 direct_len, WORD32 diffu
 {
   WORD32 len, n;
   WORD32 fft_min_size;
-  n = 1;
+  n = 2; /* the FFT has at least 4 points */
   if (diffuse_len > BINAURAL_DIF_MAXLEN || direct_len > BINAURAL_DIR_MAXLEN)
   {
     return IA_MPEGH_BINAURAL_INIT_FATAL_UNSUPPORTED_BLOCK_LENGTH;
-- 
2.43.0


From 8393b53502fd7c667923ca1ff8ffb046be80c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 44/66] fix: binaural rendering of more than the first frame of
 other than two loudspeakers

The number of ears replaced the number of loudspeakers, which the next frame
took for the number of channels to render and convolve.
---
 decoder/ia_core_coder_decode_main.c | 6 ++++--
 decoder/impeghd_api.c               | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 710523f..5ef6fa0 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2894,6 +2894,8 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
         }
       }
 
+      /* the loudspeaker channels stay num_channel_out, whatever is made of them */
+      WORD32 num_channel_pcm = *num_channel_out;
       if (handle->mpeghd_config.ui_binaural_flag)
       {
         for (sig = 0; sig < BINAURAL_TEST_LGR_SIGNAL; sig++)
@@ -2925,7 +2927,7 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
             pstr_dec_data->ptr_binaural_output[grp] = ptr_samples;
           }
         }
-        *num_channel_out = BINAURAL_NB_OUTPUT;
+        num_channel_pcm = BINAURAL_NB_OUTPUT;
         num_samples_out = num_samples_processed;
       }
       if (preroll_units <= 0 || !mpegh_dec_handle->p_config->discard_au_preroll)
@@ -2964,7 +2966,7 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
 
       ia_core_coder_samples_sat((WORD8 *)outbuffer + tot_out_bytes, num_samples_out, pcmsize,
                                 &pstr_dec_data->ptr_binaural_output[0], out_ch_map,
-                                &mpegh_dec_handle->delay_in_samples, out_bytes, *num_channel_out);
+                                &mpegh_dec_handle->delay_in_samples, out_bytes, num_channel_pcm);
       {
         WORD32 payload_buffer_offeset = 0;
         WORD32 copy_bytes =
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index d5d475d..92b2df2 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -864,7 +864,9 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
       (p_obj_mpegh_dec->p_state_mpeghd->ui_init_done == 1) && (err_code == 0) ? 1 : 0;
 
   pstr_output_config->i_samp_freq = p_obj_mpegh_dec->mpeghd_config.out_samp_freq;
-  pstr_output_config->i_num_chan = p_obj_mpegh_dec->mpeghd_config.ui_n_channels;
+  pstr_output_config->i_num_chan = p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag
+                                       ? BINAURAL_NB_OUTPUT
+                                       : p_obj_mpegh_dec->mpeghd_config.ui_n_channels;
   pstr_output_config->i_pcm_wd_sz = p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz;
   pstr_output_config->i_drc_effect = p_obj_mpegh_dec->mpeghd_config.ui_effect_type;
   pstr_output_config->i_target_loudness = p_obj_mpegh_dec->mpeghd_config.ui_target_loudness;
@@ -1119,7 +1121,9 @@ IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOI
         p_obj_mpegh_dec->mpeghd_config.hoa_md_payload_length;
     pstr_output_config->pcm_payload_length = p_obj_mpegh_dec->mpeghd_config.pcm_data_length;
   }
-  pstr_output_config->i_num_chan = p_obj_mpegh_dec->mpeghd_config.ui_n_channels;
+  pstr_output_config->i_num_chan = p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag
+                                       ? BINAURAL_NB_OUTPUT
+                                       : p_obj_mpegh_dec->mpeghd_config.ui_n_channels;
   if (p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0)
   {
     pstr_output_config->cicp_index = ptr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx;
-- 
2.43.0


From 911d60f5504e0afd1f4c0dc03235fbb91791b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 45/66] fix: binaural rendering of a layout other than the
 coded one

As many loudspeakers were looked up in the responses as channels are coded,
not as many as are played to: channels were convolved with the response of
another loudspeaker, or responses for all loudspeakers refused.
---
 decoder/impeghd_binaural_renderer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index 0f31d90..17bd899 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -364,6 +364,8 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
     {
       return error;
     }
+    /* as many as are played to, which is not always as many as are coded */
+    wav_param->num_speaker_expected = num_ch_expected + num_lfe_expected;
   }
   for (i = 0; i < binaural_info_handle->num_binaural_representation; i++)
   {
-- 
2.43.0


From 71f21544fbf10042079648933c553fce2b4ccc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 46/66] fix: binaural responses with a file name of 128 letters
 or more

---
 decoder/impeghd_binaural.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_binaural.c b/decoder/impeghd_binaural.c
index a7ddf30..12ffe8b 100644
--- a/decoder/impeghd_binaural.c
+++ b/decoder/impeghd_binaural.c
@@ -257,13 +257,14 @@ static IA_ERRORCODE impeghd_parse_brir_info(VOID *buf_handle,
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
   WORD32 hoa_order_binaural = 0, brir_pairs = 0;
   UWORD32 fill_bits, rem;
-  WORD8 filename_length = 0, i = 0, brir_sampling_freq_index = 0;
+  WORD8 brir_sampling_freq_index = 0;
+  WORD32 filename_length = 0, i = 0;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   ia_binaural_representation_str *ptr_binaural_rep = &binaural_ren_info->binaural_rep;
 
   ia_core_coder_read_bits_buf_32(ia_bit_buf);
   ia_core_coder_read_bits_buf(ia_bit_buf, 8);
-  filename_length = (WORD8)ia_core_coder_read_bits_buf(ia_bit_buf, 8);
+  filename_length = ia_core_coder_read_bits_buf(ia_bit_buf, 8);
 
   for (i = 0; i < filename_length; i++)
   {
-- 
2.43.0


From 9187f38065e0cd757ee30a5b74d2db008e514755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 47/66] fix: rate reported for binaural output when another is
 asked for

---
 decoder/ia_core_coder_decode_main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 5ef6fa0..5ee88dc 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1884,7 +1884,8 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
     ptr_config->stream_samp_freq = samp_freq;
     ptr_config->out_samp_freq = samp_freq;
     ptr_config->resample_output = 0;
-    if (ptr_config->requested_samp_freq != 0 &&
+    /* binaural output is not resampled */
+    if (ptr_config->requested_samp_freq != 0 && ptr_config->ui_binaural_flag == 0 &&
         ptr_config->requested_samp_freq != ptr_config->out_samp_freq)
     {
       ptr_config->out_samp_freq = ptr_config->requested_samp_freq;
-- 
2.43.0


From 3dd74fb4e69cb0e7db93892606fe59400c5eadab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 48/66] fix: loudness normalisation of binaural output

The gain was applied to the loudspeaker signals after they had been rendered.
---
 decoder/ia_core_coder_decode_main.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 5ee88dc..95dd42d 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2897,6 +2897,7 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
 
       /* the loudspeaker channels stay num_channel_out, whatever is made of them */
       WORD32 num_channel_pcm = *num_channel_out;
+      FLOAT32 loudness_gain_db = pstr_asc->str_usac_config.uni_drc_cfg.loudness_gain_db;
       if (handle->mpeghd_config.ui_binaural_flag)
       {
         for (sig = 0; sig < BINAURAL_TEST_LGR_SIGNAL; sig++)
@@ -2917,13 +2918,15 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
             pstr_dec_data->str_binaural_rendering.ptr_scratch);
         if (num_samples_processed > 0)
         {
+          FLOAT32 scale =
+              ia_mul_flt((FLOAT32)pow(10.0, loudness_gain_db / 20.0), 32768.0f);
           for (grp = 0; grp < BINAURAL_NB_OUTPUT; grp++)
           {
             FLOAT32 *ptr_samples =
                 pstr_dec_data->binaural_handle.ptr_binaural_signal_out_renderer[grp];
             for (s = 0; s < num_samples_processed; s++)
             {
-              ptr_samples[s] = ia_mul_flt(ptr_samples[s], 32768.0f);
+              ptr_samples[s] = ia_mul_flt(ptr_samples[s], scale);
             }
             pstr_dec_data->ptr_binaural_output[grp] = ptr_samples;
           }
@@ -2933,8 +2936,6 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
       }
       if (preroll_units <= 0 || !mpegh_dec_handle->p_config->discard_au_preroll)
       {
-        FLOAT32 loudness_gain_db = pstr_asc->str_usac_config.uni_drc_cfg.loudness_gain_db;
-
         err_code = impegh_dec_ln_pl_process(pstr_dec_data, mpegh_dec_handle, loudness_gain_db,
                                             num_channel_out);
       }
-- 
2.43.0


From 80d411f61b192ed0b29187538382bff7f6a6b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 49/66] fix: binaural rendering beyond a second configuration

The renderer was cleared, with its responses, and not started again: the next
frame wrote through null pointers.
---
 decoder/impeghd_api.c | 71 +++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 92b2df2..4d3675e 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -608,6 +608,49 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
   return config_err_code;
 }
 
+/**
+ *  impeghd_start_binaural_renderer
+ *
+ *  \brief Starts the binaural renderer for the loudspeakers and the rate configured
+ *
+ *  \param [in,out] p_obj_mpegh_dec Pointer to decoder handle structure
+ *
+ *  \return IA_ERRORCODE            Processing error if any
+ *
+ */
+static IA_ERRORCODE impeghd_start_binaural_renderer(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
+{
+  IA_ERRORCODE err_code;
+  ia_binaural_in_stream_cfg_str wav_info;
+  ia_dec_data_struct *pstr_dec_data =
+      (ia_dec_data_struct *)p_obj_mpegh_dec->p_state_mpeghd->pstr_dec_data;
+  ia_audio_specific_config_struct *pstr_audio_specific_config =
+      (ia_audio_specific_config_struct *)
+          p_obj_mpegh_dec->p_state_mpeghd->ia_audio_specific_config;
+  ia_binaural_renderer *pstr_binaural_rendering = &pstr_dec_data->str_binaural_rendering;
+  wav_info.fs_input = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
+  wav_info.num_speaker_expected = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
+  wav_info.num_channel_is_input = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
+  if (p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0)
+  {
+    wav_info.cicp_spk_idx = pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx;
+  }
+  else
+  {
+    wav_info.cicp_spk_idx = p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx;
+  }
+
+  pstr_binaural_rendering->ptr_scratch = p_obj_mpegh_dec->p_state_mpeghd->mpeghd_scratch_mem_v;
+  err_code = impeghd_binaural_renderer_init(pstr_binaural_rendering, &wav_info,
+                                            &pstr_dec_data->binaural_handle);
+  if (err_code == IA_MPEGH_DEC_NO_ERROR)
+  {
+    pstr_dec_data->binaural_handle.str_binaural.memory_index +=
+        2048; // TODO: Replace 2048, with variable
+  }
+  return err_code;
+}
+
 /**
  *  ia_mpegh_dec_init
  *
@@ -820,33 +863,11 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   }
   if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
   {
-    ia_binaural_in_stream_cfg_str wav_info;
-    ia_dec_data_struct *pstr_dec_data =
-        (ia_dec_data_struct *)p_obj_mpegh_dec->p_state_mpeghd->pstr_dec_data;
-    ia_binaural_renderer *pstr_binaural_rendering = &pstr_dec_data->str_binaural_rendering;
-    wav_info.fs_input = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-    wav_info.num_speaker_expected = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
-    wav_info.num_channel_is_input = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
-    if (p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0)
-    {
-      wav_info.cicp_spk_idx = pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx;
-    }
-    else
-    {
-      wav_info.cicp_spk_idx = p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx;
-    }
-
-    pstr_binaural_rendering->ptr_scratch =
-        p_obj_mpegh_dec->p_state_mpeghd->mpeghd_scratch_mem_v;
-    err_code = impeghd_binaural_renderer_init(pstr_binaural_rendering, &wav_info,
-                                              &pstr_dec_data->binaural_handle);
+    err_code = impeghd_start_binaural_renderer(p_obj_mpegh_dec);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
       return err_code;
     }
-
-    pstr_dec_data->binaural_handle.str_binaural.memory_index +=
-        2048; // TODO: Replace 2048, with variable
   }
 
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
@@ -1195,6 +1216,10 @@ ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_obj_mpegh_dec->p_state_mpeghd->decode_create_done = 0;
 
   err = ia_core_coder_dec_init(p_obj_mpegh_dec);
+  if (err == IA_MPEGH_DEC_NO_ERROR && p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
+  {
+    err = impeghd_start_binaural_renderer(p_obj_mpegh_dec);
+  }
   p_obj_mpegh_dec->p_state_mpeghd->flush = 1;
   return err;
 }
-- 
2.43.0


From 0b8ec51104e09bfdfe2d67a0b032c66909d7dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 50/66] fix: HOA gain correction by more than six octaves runs
 in the right direction

For exponents above six the window was raised to the positive power, so the
gain fell where it has to rise (all other exponents, the exception form and the
stored gain use the inverse window).
---
 decoder/impeghd_hoa_inverse_dyn_correction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_inverse_dyn_correction.c b/decoder/impeghd_hoa_inverse_dyn_correction.c
index 2b03691..aa87019 100644
--- a/decoder/impeghd_hoa_inverse_dyn_correction.c
+++ b/decoder/impeghd_hoa_inverse_dyn_correction.c
@@ -117,7 +117,7 @@ IA_ERRORCODE impeghd_hoa_inv_dyn_correction_process(FLOAT32 *ptr_inp,
           for (i = 0; i < frame_sz; i++)
           {
             tmp = ia_mul_flt(reci_last_gain, ptr_inp[i]);
-            ptr_out[i] = ia_mul_flt((FLOAT32)(pow(d_win_func[i], exp)), tmp);
+            ptr_out[i] = ia_mul_flt((FLOAT32)(pow(d_win_func[i], -exp)), tmp);
           }
           last_gain = ia_mul_flt(last_gain, (FLOAT32)(pow(d_win_func[frame_sz - 1], exp)));
         }
-- 
2.43.0


From d0db0dd745d9cc67bea597fc14cd734fb35677e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 51/66] fix: room for the last coefficient in the list of
 fading-in HOA channels

Coefficient numbers run to 49; the array has 49 entries counted from 0, so
number 49 landed in new_vec_channels[0].
---
 decoder/impeghd_hoa_dec_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_dec_struct.h b/decoder/impeghd_hoa_dec_struct.h
index b7a206e..b20491d 100644
--- a/decoder/impeghd_hoa_dec_struct.h
+++ b/decoder/impeghd_hoa_dec_struct.h
@@ -42,7 +42,7 @@ typedef struct
   UWORD8 additional_info[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 non_transitional_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
-  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS];
+  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
   UWORD32 new_vec_channels[HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 additional_value[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
-- 
2.43.0


From cce126bddd32f328daf4f60e9c800ff611307235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 52/66] fix: HOA vector data is kept per transport channel

Signs, eight-bit words and the list of sent elements were stored by the ordinal
of the vector signal and read by its channel, so a vector behind a directional
or ambient channel took other data; the codebook entries had one array for all
vectors, and the previous vectors were stored under one index and copied under
another.
---
 decoder/impeghd_hoa_dec_struct.h      |  2 +-
 decoder/impeghd_hoa_frame.c           | 40 ++++++++++++++-------------
 decoder/impeghd_hoa_spatial_decoder.c | 11 ++++----
 3 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/decoder/impeghd_hoa_dec_struct.h b/decoder/impeghd_hoa_dec_struct.h
index b20491d..daef7d9 100644
--- a/decoder/impeghd_hoa_dec_struct.h
+++ b/decoder/impeghd_hoa_dec_struct.h
@@ -49,7 +49,7 @@ typedef struct
   UWORD32 element_bitmask[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
   UWORD16 decoded_huffmann_word[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
 
-  UWORD32 vvec_idx[128];
+  UWORD32 vvec_idx[MAX_HOA_CHANNELS][128];
   UWORD8 sgn_val[MAX_HOA_CHANNELS][128];
   WORD32 sgn_val_size[128];
   WORD32 prev_sgn_val_size[128];
diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 96b117d..2ad3413 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -477,7 +477,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (j = ptr_frame_data->sgn_val_size[idx];
          j < (WORD32)ptr_frame_data->num_vvec_indices[sig_ch_idx]; j++)
     {
-      ptr_frame_data->sgn_val[idx][j] = 0;
+      ptr_frame_data->sgn_val[sig_ch_idx][j] = 0;
     }
     ptr_frame_data->sgn_val_size[idx] = ptr_frame_data->num_vvec_indices[sig_ch_idx];
     switch (ptr_frame_data->codebk_idx[sig_ch_idx])
@@ -506,36 +506,38 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
       for (j = 0; j < (WORD32)ptr_frame_data->num_vvec_indices[sig_ch_idx]; j++)
       {
         bs_vvec_idx = ia_core_coder_read_bits_buf(ptr_bit_buf, n_bit_idx);
-        ptr_frame_data->sgn_val[idx][j] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
-        ptr_frame_data->vvec_idx[j] = bs_vvec_idx + 1;
+        ptr_frame_data->sgn_val[sig_ch_idx][j] =
+            (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
+        ptr_frame_data->vvec_idx[sig_ch_idx][j] = bs_vvec_idx + 1;
       }
     }
     else
     {
       bs_vvec_idx = ia_core_coder_read_bits_buf(ptr_bit_buf, n_bit_idx);
-      ptr_frame_data->sgn_val[idx][0] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
-      ptr_frame_data->vvec_idx[0] = (UWORD32)bs_vvec_idx + 1;
+      ptr_frame_data->sgn_val[sig_ch_idx][0] =
+          (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
+      ptr_frame_data->vvec_idx[sig_ch_idx][0] = (UWORD32)bs_vvec_idx + 1;
     }
     for (j = 0; j < (WORD32)ptr_frame_data->num_vvec_indices[sig_ch_idx]; j++)
     {
       /*ISO/IEC 23008-9 section 5.19.6*/
-      switch (ptr_frame_data->codebk_idx[j])
+      switch (ptr_frame_data->codebk_idx[sig_ch_idx])
       {
       case 0:
-        if (ptr_frame_data->vvec_idx[j] > 900)
+        if (ptr_frame_data->vvec_idx[sig_ch_idx][j] > 900)
         {
           return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
         }
         break;
       case 1:
       case 2:
-        if (ptr_frame_data->vvec_idx[j] > 34)
+        if (ptr_frame_data->vvec_idx[sig_ch_idx][j] > 34)
         {
           return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
         }
         break;
       case 3:
-        if (ptr_frame_data->vvec_idx[j] > 64)
+        if (ptr_frame_data->vvec_idx[sig_ch_idx][j] > 64)
         {
           return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
         }
@@ -543,7 +545,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
       case 7:
         if (ptr_frame_data->ptr_config_data->order == 4)
         {
-          if (ptr_frame_data->vvec_idx[j] > 32)
+          if (ptr_frame_data->vvec_idx[sig_ch_idx][j] > 32)
           {
             return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
           }
@@ -554,7 +556,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
           max = ((ptr_frame_data->ptr_config_data->order + 1) *
                  (ptr_frame_data->ptr_config_data->order + 1)) -
                 1;
-          if (ptr_frame_data->vvec_idx[j] > (max + 1))
+          if (ptr_frame_data->vvec_idx[sig_ch_idx][j] > (max + 1))
           {
             return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
           }
@@ -568,14 +570,14 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (vec_len = 0; vec_len < ptr_frame_data->v_vec_length_used; vec_len++, hoa_coeff_idx++)
     {
       if (!(ptr_frame_data->non_transitional_add_hoa_channels[hoa_coeff_idx] == 0) ||
-          ((ptr_frame_data->new_vec_channels[idx] == 1) &&
+          ((ptr_frame_data->new_vec_channels[sig_ch_idx] == 1) &&
            (ptr_frame_data->fade_in_add_hoa_channels[hoa_coeff_idx] == 1)))
       {
-        ptr_frame_data->additional_info[idx][vec_len] = 0;
+        ptr_frame_data->additional_info[sig_ch_idx][vec_len] = 0;
       }
       else
       {
-        ptr_frame_data->additional_info[idx][vec_len] = 1;
+        ptr_frame_data->additional_info[sig_ch_idx][vec_len] = 1;
       }
     }
   }
@@ -585,7 +587,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (vec_len = 0; vec_len < ptr_frame_data->v_vec_length_used; vec_len++, hoa_coeff_idx++)
     {
       if (!(ptr_frame_data->non_transitional_add_hoa_channels[hoa_coeff_idx] == 0) ||
-          ((ptr_frame_data->new_vec_channels[idx] == 1) &&
+          ((ptr_frame_data->new_vec_channels[sig_ch_idx] == 1) &&
            (ptr_frame_data->fade_in_add_hoa_channels[hoa_coeff_idx] == 1)))
       {
         vec_val = 128;
@@ -594,7 +596,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
       {
         vec_val = ia_core_coder_read_bits_buf(ptr_bit_buf, 8);
       }
-      ptr_frame_data->c_8bit_quantizer_word[idx][vec_len] = vec_val;
+      ptr_frame_data->c_8bit_quantizer_word[sig_ch_idx][vec_len] = vec_val;
     }
   }
   else if (ptr_frame_data->n_bits_q[sig_ch_idx] >= 6)
@@ -605,13 +607,13 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (vec_len = ptr_frame_data->sgn_val_size[idx]; vec_len < ptr_frame_data->v_vec_length_used;
          vec_len++)
     {
-      ptr_frame_data->sgn_val[idx][vec_len] = 1;
+      ptr_frame_data->sgn_val[sig_ch_idx][vec_len] = 1;
     }
 
     for (vec_len = 0; vec_len < ptr_frame_data->v_vec_length_used; vec_len++, hoa_coeff_idx++)
     {
       if (!(ptr_frame_data->non_transitional_add_hoa_channels[hoa_coeff_idx] == 0) ||
-          ((ptr_frame_data->new_vec_channels[idx] == 1) &&
+          ((ptr_frame_data->new_vec_channels[sig_ch_idx] == 1) &&
            (ptr_frame_data->fade_in_add_hoa_channels[hoa_coeff_idx] == 1)))
       {
         ptr_frame_data->element_bitmask[sig_ch_idx][vec_len] = 0;
@@ -635,7 +637,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
         if (cid > 0)
         {
           ptr_frame_data->additional_value[sig_ch_idx][vec_len] = 0;
-          ptr_frame_data->sgn_val[idx][vec_len] =
+          ptr_frame_data->sgn_val[sig_ch_idx][vec_len] =
               (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
           if (cid > 1)
           {
diff --git a/decoder/impeghd_hoa_spatial_decoder.c b/decoder/impeghd_hoa_spatial_decoder.c
index 5219e69..d86ef78 100644
--- a/decoder/impeghd_hoa_spatial_decoder.c
+++ b/decoder/impeghd_hoa_spatial_decoder.c
@@ -378,7 +378,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
         curr_vq_vec_ptr_size = sizeof(pstr_spatial_dec->transpose_mod_mtx_grid_pts);
         FLOAT32 inv_norm_coeff = impeghd_hoa_pow_2(14) / (FLOAT32)(pstr_hoa_config->order + 1);
         FLOAT32 weight_value;
-        WORD32 v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[0] - (WORD32)1);
+        WORD32 v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[ch][0] - (WORD32)1);
 
         switch (ia_hoa_frame_t->codebk_idx[ch])
         {
@@ -432,7 +432,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
           FLOAT32 norm_value = 1.0f;
           for (UWORD32 vec_idx = 0; vec_idx < ia_hoa_frame_t->num_vvec_indices[ch]; ++vec_idx)
           {
-            v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[vec_idx] - 1) * (WORD32)mat_offset;
+            v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[ch][vec_idx] - 1) * (WORD32)mat_offset;
 
             if (vec_idx >= 8)
             {
@@ -495,7 +495,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
         }
         for (UWORD32 elem_idx = 0; elem_idx < pstr_spatial_dec->num_vec_elems; ++elem_idx)
         {
-          new_nominators_ptr[ch].sig_id[elem_idx] = (FLOAT32)(
+          new_nominators_ptr[vec_ch].sig_id[elem_idx] = (FLOAT32)(
               2.0f *
               ia_floor_flt(ia_add_flt(ia_mul_flt(inv_norm_coeff, tmp_vec[elem_idx]), 0.5f)));
         }
@@ -521,7 +521,8 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
           {
             return IA_MPEGH_HOA_INIT_NONFATAL_INVALID_QUANT;
           }
-          new_nominators_ptr[ch].sig_id[elem_idx] = tmp_vec[elem_idx] * (UWORD32)(HOA_TWO_POW_15);
+          new_nominators_ptr[vec_ch].sig_id[elem_idx] =
+              tmp_vec[elem_idx] * (UWORD32)(HOA_TWO_POW_15);
           tmp_vec[elem_idx] =
               ia_mul_flt((FLOAT32)(pstr_hoa_config->order + 1), tmp_vec[elem_idx]);
         }
@@ -556,7 +557,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
                                      pstr_spatial_dec->old_nominators[find_idx].sig_id[elem_idx]);
             }
           }
-          new_nominators_ptr[ch].sig_id[elem_idx] = nominator;
+          new_nominators_ptr[vec_ch].sig_id[elem_idx] = nominator;
           tmp_vec[elem_idx] = nominator / HOA_TWO_POW_15;
           tmp_vec[elem_idx] =
               ia_mul_flt((FLOAT32)(pstr_hoa_config->order + 1), tmp_vec[elem_idx]);
-- 
2.43.0


From 05149f471597b016041716968ce8448801fd2600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 53/66] fix: no HOA spatial prediction in a frame without
 directional signals

The prediction side information is only sent when there are directional
signals; the active flag of an earlier frame stayed in force otherwise.
---
 decoder/impeghd_hoa_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 2ad3413..43f5c0a 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -369,6 +369,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
   }
   if (pstr_hoa_config->is_single_layer == 1)
   {
+    if (ptr_frame_data->num_of_dir_sigs == 0)
+    {
+      ptr_frame_data->ps_prediction_active = 0;
+    }
     if (ptr_frame_data->num_of_dir_sigs > 0)
     {
       WORD32 pred_ids_bits, loop;
-- 
2.43.0


From 7801e56fdba793e51fc565b6f0cd5a74f2d94996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 54/66] fix: HOA vectors of earlier frames do not choose the
 fade-out

The search for a vector of the current frame ran over entries left by
frames with more vector based signals.
---
 decoder/impeghd_hoa_vector_based_predom_sound_syn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_hoa_vector_based_predom_sound_syn.c b/decoder/impeghd_hoa_vector_based_predom_sound_syn.c
index 020d24c..b8a204f 100644
--- a/decoder/impeghd_hoa_vector_based_predom_sound_syn.c
+++ b/decoder/impeghd_hoa_vector_based_predom_sound_syn.c
@@ -111,12 +111,12 @@ impeghd_hoa_vector_based_predom_sound_syn_process(ia_spatial_dec_str *dec_handle
     {
       intrpl_samples = pstr_hoa_config->frame_length;
       curr_interp_win = &(sound_syn_handle->fade_out_win_for_dir_sigs[0]);
-      for (map_it = 0; map_it < HOA_MAXIMUM_VECTOR_SIG_INDICES; map_it++)
+      for (map_it = 0; map_it < frame_param->num_vec_predom_sounds; map_it++)
       {
         if (vectors[map_it].index == vec_sig_idx)
           break;
       }
-      if (map_it != HOA_MAXIMUM_VECTOR_SIG_INDICES)
+      if (map_it != frame_param->num_vec_predom_sounds)
       {
         intrpl_samples = pstr_hoa_config->spat_interpolation_time;
         curr_interp_win = &(sound_syn_handle->fade_out_win_for_vec_sigs[0]);
-- 
2.43.0


From 92cf26a7c0e96e173f4ae18750323e3b0dbb2886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 55/66] fix: HOA signals changing between directional and
 vector coding are cross-faded

The set of predominant signals held the vector based ones in place of the
directional ones, and the windows were chosen by comparing search results
with the size of the array.
---
 decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c | 15 ++++++++-------
 decoder/impeghd_hoa_pre_dom_sound_syn.c           |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c b/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
index a1f0a68..568efa2 100644
--- a/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
+++ b/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
@@ -182,15 +182,15 @@ IA_ERRORCODE impeghd_hoa_compute_hoa_repr_of_dir_sigs(ia_spatial_dec_str *dec_ha
       }
       ptr_curr_fade_out_win = &(dec_handle->ones_long_vec[0]);
 
-      if (HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED == dir_idx)
+      if (frame_param->num_dir_predom_sounds == dir_idx)
       {
-        for (dir_idx = 0; dir_idx < HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED; dir_idx++)
+        for (dir_idx = 0; dir_idx < MAX_HOA_CHANNELS; dir_idx++)
         {
           if (ptr_set_of_sig_indices[dir_idx] == curr_dir_idx)
             break;
         }
 
-        if (dir_idx != HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED)
+        if (dir_idx != MAX_HOA_CHANNELS)
         {
           ptr_curr_fade_out_win = &(fade_out_win_for_vec_sigs[0]);
         }
@@ -241,14 +241,14 @@ IA_ERRORCODE impeghd_hoa_compute_hoa_repr_of_dir_sigs(ia_spatial_dec_str *dec_ha
           break;
       }
 
-      if (HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED == dir_idx)
+      if (syn_handle->num_prev_dir_predom_sounds == dir_idx)
       {
         for (dir_idx = 0; dir_idx < syn_handle->num_prev_ps_indices; dir_idx++)
         {
           if (curr_dir_idx == syn_handle->set_of_old_ps_sig_indices[dir_idx])
             break;
         }
-        if (dir_idx != HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED)
+        if (dir_idx != syn_handle->num_prev_ps_indices)
         {
           curr_fade_in_win = &(fade_in_win_for_dir_sigs[0]);
         }
@@ -278,9 +278,10 @@ IA_ERRORCODE impeghd_hoa_compute_hoa_repr_of_dir_sigs(ia_spatial_dec_str *dec_ha
     }
   }
 
-  syn_handle->num_prev_ps_indices = frame_param->num_vec_predom_sounds;
+  syn_handle->num_prev_ps_indices =
+      frame_param->num_dir_predom_sounds + frame_param->num_vec_predom_sounds;
   memcpy(&syn_handle->set_of_old_ps_sig_indices[0], ptr_set_of_sig_indices,
-         sizeof(*ptr_set_of_sig_indices) * frame_param->num_vec_predom_sounds);
+         sizeof(*ptr_set_of_sig_indices) * syn_handle->num_prev_ps_indices);
 
   syn_handle->num_prev_dir_predom_sounds = frame_param->num_dir_predom_sounds;
   memcpy(&syn_handle->last_active_dir_and_grid_dir_indices[0], ptr_active_dir_and_grid_indices,
diff --git a/decoder/impeghd_hoa_pre_dom_sound_syn.c b/decoder/impeghd_hoa_pre_dom_sound_syn.c
index 6bdcc03..737be8c 100644
--- a/decoder/impeghd_hoa_pre_dom_sound_syn.c
+++ b/decoder/impeghd_hoa_pre_dom_sound_syn.c
@@ -88,7 +88,7 @@ IA_ERRORCODE impeghd_hoa_pre_dom_sound_syn_process(ia_spatial_dec_str *dec_handl
 
   for (num_sounds = 0; num_sounds < frame_param->num_vec_predom_sounds; num_sounds++)
   {
-    sig_indices_set[num_sounds] = vectors[num_sounds].index;
+    sig_indices_set[frame_param->num_dir_predom_sounds + num_sounds] = vectors[num_sounds].index;
   }
 
   err_code = impeghd_hoa_vector_based_predom_sound_syn_process(dec_handle, sig_indices_set,
-- 
2.43.0


From ba18497a090f46dde43130a8d1345f7995dccee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 56/66] fix: HOA rendering leaves out the first singular value
 below the threshold

One direction of the null space was kept, which made the matrices of order
2 for layouts 7, 11, 12 and 16 lopsided.
---
 decoder/impeghd_hoa_render_mtrx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_render_mtrx.c b/decoder/impeghd_hoa_render_mtrx.c
index aa0bfe5..71adb0e 100644
--- a/decoder/impeghd_hoa_render_mtrx.c
+++ b/decoder/impeghd_hoa_render_mtrx.c
@@ -228,9 +228,9 @@ static IA_ERRORCODE impeghd_hoa_ren_mtrx_init(pVOID handle, pVOID speaker_pos, W
   thresh = 1e-3f * (svd->w_s[0]);
   for (cnt = 1; cnt < num_s; cnt++)
   {
-    is_col[cnt] = 1.0;
     if (svd->w_s[cnt] < thresh)
       break;
+    is_col[cnt] = 1.0;
   }
   impeghd_hoa_ren_simple_mtrx_diag_mult(&(svd->v), is_col, num_s);
   impeghd_hoa_ren_simple_mtrx_transpose(&(svd->u), (buf + scratch_idx));
-- 
2.43.0


From 7ca7dda2ad4004672a77e8e8e5b02d4559303017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 57/66] fix: HOA decoding leaves the rendered objects alone

Without channels the HOA output lies behind the objects in the scratch
memory, where HOA decoding keeps its coefficient signals.
---
 decoder/impeghd_hoa_decoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_hoa_decoder.c b/decoder/impeghd_hoa_decoder.c
index f48ad8d..19e6779 100644
--- a/decoder/impeghd_hoa_decoder.c
+++ b/decoder/impeghd_hoa_decoder.c
@@ -151,8 +151,8 @@ IA_ERRORCODE impeghd_hoa_dec_decode(impeghd_hoa_dec_struct *dec_handle, pFLOAT32
   }
 
   /* Memory for ptr_out_buf is same as scratch, so keeping aside the space required for
-   * ptr_out_buf */
-  scratch_idx += sizeof(FLOAT32) * (*num_out_ch) * (frame_length);
+   * ptr_out_buf and for the rendered objects, one of them behind the other */
+  scratch_idx += 2 * sizeof(FLOAT32) * (*num_out_ch) * (frame_length);
 
   rem = (ptr_bit_buf->size - ptr_bit_buf->cnt_bits);
   if (rem % 8)
-- 
2.43.0


From 134a647a62d771f3a8911bc69dd43e83dba8ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 58/66] fix: HOA beside channels is heard

The rendered HOA signals were never added to those of the channels; what
was added, when there were objects too, was the objects a second time.
---
 decoder/ia_core_coder_decode_main.c | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 95dd42d..3f5b69b 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2327,18 +2327,9 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
         }
         if (pstr_usac_config->signals_3d.num_ch != 0)
         {
-          if (ptr_out_buf != NULL)
-          {
-            for (channel = 0; channel < *num_channel_out; channel++)
-            {
-              for (s = 0; s < num_samples_out; s++)
-              {
-                pstr_dec_data->str_usac_data.time_sample_vector[channel][s] =
-                ia_add_flt(pstr_dec_data->str_usac_data.time_sample_vector[channel][s],
-                  ptr_out_buf[channel * num_samples_out + s]);
-              }
-            }
-          }
+          impeghd_mix_rendered_signals(pstr_dec_data, ptr_out_buf_hoa, *num_channel_out,
+                                       num_samples_out,
+                                       pstr_usac_config->signals_3d.format_converter_enable);
           ch_offset += pstr_usac_config->signals_3d.num_hoa_transport_ch;
         }
         else if (pstr_usac_config->signals_3d.num_audio_obj != 0)
-- 
2.43.0


From 338871387c5b7205b3061ce26ca5a9070679145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 59/66] fix: external renderer is told the layout of the
 channels

---
 decoder/ia_core_coder_decode_main.c |  1 +
 decoder/impeghd_ext_rend_intrfc.c   | 11 ++++++++---
 decoder/impeghd_ext_rend_intrfc.h   |  1 +
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 3f5b69b..90078ed 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2129,6 +2129,7 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
     impeghd_create_write_bit_buffer(&str_bit_buf, mpegh_dec_handle->p_config->ptr_ch_md_bit_buf,
                                     768, 1);
     impeghd_write_ch_meta_data_for_ext_ren(&str_bit_buf, pstr_usac_config, ia_signals_3da,
+                                           &pstr_asc->ref_spk_layout,
                                            mpegh_dec_handle->p_config->ui_cicp_layout_idx);
     mpegh_dec_handle->p_config->ch_md_payload_length = (str_bit_buf.cnt_bits + 7) >> 3;
   }
diff --git a/decoder/impeghd_ext_rend_intrfc.c b/decoder/impeghd_ext_rend_intrfc.c
index 1494fc1..fef6031 100644
--- a/decoder/impeghd_ext_rend_intrfc.c
+++ b/decoder/impeghd_ext_rend_intrfc.c
@@ -205,7 +205,6 @@ static IA_ERRORCODE impeghd_write_speaker_config_3d(ia_write_bit_buf_struct *pst
     impeghd_write_bits_buf(pstr_bit_buf, pstr_spk_config_3d->cicp_spk_layout_idx, 6);
     break;
   case 1:
-    pstr_spk_config_3d->cicp_spk_layout_idx = (WORD16)-1;
     impeghd_write_escape_value(pstr_bit_buf, pstr_spk_config_3d->num_speakers - 1, 5, 8, 16);
     for (spk = 0; spk < pstr_spk_config_3d->num_speakers; spk++)
     {
@@ -213,7 +212,6 @@ static IA_ERRORCODE impeghd_write_speaker_config_3d(ia_write_bit_buf_struct *pst
     }
     break;
   case 2:
-    pstr_spk_config_3d->cicp_spk_layout_idx = (WORD16)-1;
     impeghd_write_escape_value(pstr_bit_buf, pstr_spk_config_3d->num_speakers - 1, 5, 8, 16);
     impeghd_write_flexispk_config(pstr_bit_buf, &(pstr_spk_config_3d->str_flex_spk),
                                   pstr_spk_config_3d->num_speakers);
@@ -435,6 +433,7 @@ VOID impeghd_write_downmix_cfg(ia_write_bit_buf_struct *pstr_bit_buf,
 * structure
 *  \param [in]  pstr_usac_config			Pointer to usac config struct
 *  \param [in]  pstr_3d_signals			Pointer to 3d signals struct
+*  \param [in]  pstr_ref_layout			Pointer to reference layout
 *  \param [in]  ui_cicp_idx				cicp index
 *
 *  \return IA_ERRORCODE              Error code
@@ -443,6 +442,7 @@ VOID impeghd_write_downmix_cfg(ia_write_bit_buf_struct *pstr_bit_buf,
 IA_ERRORCODE impeghd_write_ch_meta_data_for_ext_ren(ia_write_bit_buf_struct *pstr_bit_buf,
                                                     ia_usac_config_struct *pstr_usac_config,
                                                     ia_signals_3d *pstr_3d_signals,
+                                                    ia_speaker_config_3d *pstr_ref_layout,
                                                     WORD32 ui_cicp_idx)
 {
   WORD32 audio_truncation_gca = 0;
@@ -468,7 +468,12 @@ IA_ERRORCODE impeghd_write_ch_meta_data_for_ext_ren(ia_write_bit_buf_struct *pst
   for (WORD32 grp = 0; grp < pstr_3d_signals->num_ch_based_groups; grp++)
   {
     impeghd_write_bits_buf(pstr_bit_buf, pstr_3d_signals->num_sig[idx_ch_grp], 16);
-    impeghd_write_speaker_config_3d(pstr_bit_buf, &pstr_3d_signals->audio_ch_layout[idx_ch_grp]);
+
+    /* a group that does not differ has the reference layout */
+    impeghd_write_speaker_config_3d(pstr_bit_buf,
+                                    pstr_3d_signals->differs_from_ref_layout[idx_ch_grp]
+                                        ? &pstr_3d_signals->audio_ch_layout[grp]
+                                        : pstr_ref_layout);
     while (pstr_3d_signals->group_type[idx_ch_grp] != 0)
     {
       idx_ch_grp++;
diff --git a/decoder/impeghd_ext_rend_intrfc.h b/decoder/impeghd_ext_rend_intrfc.h
index 2b8a0fd..0af8d5d 100644
--- a/decoder/impeghd_ext_rend_intrfc.h
+++ b/decoder/impeghd_ext_rend_intrfc.h
@@ -43,6 +43,7 @@ IA_ERRORCODE impeghd_write_oam_meta_data_for_ext_ren(
 IA_ERRORCODE impeghd_write_ch_meta_data_for_ext_ren(ia_write_bit_buf_struct *pstr_bit_buf,
                                                     ia_usac_config_struct *pstr_usac_cfg,
                                                     ia_signals_3d *pstr_signals_3d,
+                                                    ia_speaker_config_3d *pstr_ref_layout,
                                                     WORD32 ui_cicp_idx);
 
 IA_ERRORCODE impeghd_write_hoa_meta_data_for_ext_ren(ia_write_bit_buf_struct *pstr_bit_buf,
-- 
2.43.0


From 2908c55ff3d3d3bb398c604eaf72eea3d6752f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 60/66] fix: external renderer is told the priority of the
 object group

---
 decoder/impeghd_ext_rend_intrfc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_ext_rend_intrfc.c b/decoder/impeghd_ext_rend_intrfc.c
index fef6031..6e7f4a5 100644
--- a/decoder/impeghd_ext_rend_intrfc.c
+++ b/decoder/impeghd_ext_rend_intrfc.c
@@ -617,8 +617,8 @@ IA_ERRORCODE impeghd_write_oam_meta_data_for_ext_ren(
     }
 
     /* Signal group related data */
-    impeghd_write_bits_buf(pstr_bit_buf, pstr_3d_signals->fixed_position[obj], 1);
-    impeghd_write_bits_buf(pstr_bit_buf, pstr_3d_signals->group_priority[obj], 3);
+    impeghd_write_bits_buf(pstr_bit_buf, pstr_3d_signals->fixed_position[grp], 1);
+    impeghd_write_bits_buf(pstr_bit_buf, pstr_3d_signals->group_priority[grp], 3);
 
     /* Enhanced Object Metadata */
     impeghd_write_bits_buf(pstr_bit_buf, (WORD32)pstr_enh_oam_frm->diffuseness[obj], 7);
-- 
2.43.0


From bc046279634a03aec261af6069b722d3d2016e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 61/66] fix: external renderer is told where objects and scene
 start

---
 decoder/impeghd_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 4d3675e..d1fa352 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1141,6 +1141,8 @@ IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOI
     pstr_output_config->hoa_md_payload_length =
         p_obj_mpegh_dec->mpeghd_config.hoa_md_payload_length;
     pstr_output_config->pcm_payload_length = p_obj_mpegh_dec->mpeghd_config.pcm_data_length;
+    pstr_output_config->oam_sample_offset = p_obj_mpegh_dec->mpeghd_config.obj_offset;
+    pstr_output_config->hoa_sample_offset = p_obj_mpegh_dec->mpeghd_config.hoa_offset;
   }
   pstr_output_config->i_num_chan = p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag
                                        ? BINAURAL_NB_OUTPUT
-- 
2.43.0


From af76bbd4cf7a2ba94b806ca364b277ceb2889cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 62/66] fix: external renderer is told the first signal of the
 scene

---
 decoder/ia_core_coder_decode_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 90078ed..aa57c55 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2318,6 +2318,7 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
             return IA_MPEGH_HOA_INIT_FATAL_RENDER_MATRIX_INIT_FAILED;
           }
         }
+        mpegh_dec_handle->p_config->hoa_offset = ch_offset;
         pstr_dec_data->str_hoa_frame_data.ptr_config_data = &pstr_usac_dec_cfg->str_hoa_config;
         err_code = impeghd_hoa_dec_main_process(
             pstr_usac_dec_cfg, pstr_dec_data, ele, ptr_out_buf_hoa, num_channel_out, ch_offset,
@@ -2365,7 +2366,6 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
         if (mpegh_dec_handle->p_config->extrn_rend_flag)
         {
           ia_write_bit_buf_struct str_bit_buf;
-          mpegh_dec_handle->p_config->hoa_offset = ch_offset;
           impeghd_create_write_bit_buffer(&str_bit_buf,
                                           mpegh_dec_handle->p_config->ptr_hoa_md_bit_buf, 768, 1);
           impeghd_write_hoa_meta_data_for_ext_ren(&str_bit_buf, pstr_usac_config, ia_signals_3da,
-- 
2.43.0


From 89b822611eea24e19b5e9a172dbfb4d449c00c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:14 +0000
Subject: [PATCH 63/66] fix: linear prediction decoder keeps a pointer into
 scratch memory beyond its call

---
 decoder/ia_core_coder_lpc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoder/ia_core_coder_lpc.c b/decoder/ia_core_coder_lpc.c
index 8958041..b05d4ba 100644
--- a/decoder/ia_core_coder_lpc.c
+++ b/decoder/ia_core_coder_lpc.c
@@ -1062,6 +1062,8 @@ IA_ERRORCODE ia_core_coder_lpd_dec(ia_usac_data_struct *usac_data, ia_usac_lpd_d
     ia_core_coder_lpd_dec_preemph_res(usac_data, st, pstr_td_frame_data, td_config,
                                       short_fac_flag, tmp_scratch, synth_fb, synth);
   }
+  /* it lies in the scratch memory of this call */
+  st->overlap_buf = NULL;
 
   if (first_lpd_flag && pmode[0] > 0 && td_config->full_band_lpd && st != NULL)
   {
-- 
2.43.0


From 7eb286f97060400c44c7b0dd42d2761bd38b9871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 64/66] fix: find the template of a downmix matrix

---
 decoder/impeghd_dmx_mtx.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index a6472e2..c51e69f 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -158,10 +158,11 @@ static FLOAT32 impeghd_decode_gain(ia_bit_buf_struct *ptr_bit_buf, ia_dmx_mtx_ga
  *  \return Error if any
  *
  */
-static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out, WORD32 *tmplt)
+static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out,
+                                            const WORD32 **tmplt)
 {
   WORD32 idx;
-  tmplt = NULL;
+  *tmplt = NULL;
 
   if (cicp_in == -1 || cicp_out == -1)
   {
@@ -178,7 +179,7 @@ static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out, WOR
     {
       continue;
     }
-    tmplt = (WORD32 *)ia_comp_tmplt_data[idx];
+    *tmplt = ia_comp_tmplt_data[idx];
     return IA_MPEGH_DEC_NO_ERROR;
   }
 
@@ -600,7 +601,7 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
   WORD32 num_in_ch = params->num_in_ch;
   WORD32 num_out_ch = params->num_out_ch;
 
-  WORD32 *comp_tmplt = NULL;
+  const WORD32 *comp_tmplt = NULL;
 
   ia_dmx_mtx_scr_t *pscr = (ia_dmx_mtx_scr_t *)ptr_scratch;
   ptr_scratch += sizeof(*pscr);
@@ -764,7 +765,7 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
       {
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_CICP_IDX;
       }
-      impeghd_find_comp_tmplt(params->cicp_in_idx, params->cicp_out_idx, comp_tmplt);
+      impeghd_find_comp_tmplt(params->cicp_in_idx, params->cicp_out_idx, &comp_tmplt);
       if (comp_tmplt == NULL)
       {
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_NO_COMP_TMPLT;
-- 
2.43.0


From b762a414b8460083b64e15e75573ae9a1702feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 65/66] fix: room for the longest list of downmix gains

---
 decoder/impeghd_dmx_mtx_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_dmx_mtx_data.h b/decoder/impeghd_dmx_mtx_data.h
index bad56df..21568d5 100644
--- a/decoder/impeghd_dmx_mtx_data.h
+++ b/decoder/impeghd_dmx_mtx_data.h
@@ -36,7 +36,7 @@
 #define _FORMAT_DMXT_MAT_DATA_H_
 
 #define IA_DMX_MTX_HISTORY_CNT_MAX (512)
-#define IA_DMX_MTX_GAIN_TABLE_SIZE_MAX (274)
+#define IA_DMX_MTX_GAIN_TABLE_SIZE_MAX (278)
 #define IA_DMX_MTX_GAIN_ZERO (-256.0f)
 #define IA_DMX_MAX_NUM_BANDS (100)
 #define IA_MAX_NUM_EQ (12)
-- 
2.43.0


From 766e13c7b874f69ebe41a9253b0f0ea470d86f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 66/66] fix: room for the longest downmix matrix

---
 decoder/ia_core_coder_config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_config.h b/decoder/ia_core_coder_config.h
index 145e3c1..de6809b 100644
--- a/decoder/ia_core_coder_config.h
+++ b/decoder/ia_core_coder_config.h
@@ -469,7 +469,7 @@ typedef struct
 
 #define ASCPARSER_MAX_DMX_MATRICES_PER_ID (8)
 #define ASCPARSER_MAX_DMX_MAX_GROUPS_ASSIGNED (16)
-#define ASCPARSER_MAX_DMX_MATRIX_SIZE (256)   /* bytes */
+#define ASCPARSER_MAX_DMX_MATRIX_SIZE (576)   /* bytes */
 #define ASCPARSER_MAX_DMX_MATRIX_ELEMENTS (6) /* Max number of downmix matrices one can embed */
 
 typedef struct
-- 
2.43.0

