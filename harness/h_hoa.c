/* Higher order ambisonics.
 * cfg NTR CFG        hoa NTR CFG FRAME,FRAME...        mtx NUM_COEFFS CICP DATA */
#include "h_common.h"
#include <math.h>
#include "impd_drc_common.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impd_drc_struct.h"
#include "ia_core_coder_cnst.h"
#include "impeghd_hoa_common_values.h"
#include "impeghd_hoa_matrix_struct.h"
#include "impeghd_hoa_matrix.h"
#include "ia_core_coder_config.h"
#include "impeghd_hoa_config.h"
#include "impeghd_hoa_dec_struct.h"
#include "impeghd_hoa_frame.h"
#include "impeghd_hoa_rom.h"
#include "impeghd_cicp_defines.h"
#include "impeghd_cicp_struct_def.h"
#include "impeghd_cicp_2_geometry.h"
#include "impeghd_cicp_2_geometry_rom.h"
static ia_hoa_config_struct C;
static ia_hoa_frame_struct F;
#define VVEC(K, J) (((UWORD32 *)F.vvec_idx)[(sizeof F.vvec_idx > 128 * sizeof(UWORD32) ? (K) * 128 : 0) + (J)])
static void cfg_fields(void) {
  union { float f; unsigned char b[4]; } u; int i;
  V(C.order); V(C.is_screen_relative); V(C.uses_nfc); u.f = C.nfc_ref_distance;
  if (C.uses_nfc) for (i = 0; i < 4; i++) V(u.b[i]);
  V(C.min_amb_order); V(C.is_single_layer); V(C.coded_spat_interpolation_time); V(C.spat_interpolation_method); V(C.coded_v_vec_length);
  V(C.max_gain_corr_amp_exp); V(C.frame_length_indicator); V(C.max_order_to_be_transmitted); V(C.num_v_vec_vq_elements_bits);
  V(C.pred_dir_sigs - 1); V(C.num_bits_per_sf - 1); V(C.num_coeffs); V(C.min_coeffs_for_amb); V(C.num_addnl_coders); V(C.max_num_add_active_amb_coeffs);
}
static void frame_fields(void) {
  UWORD32 i, k; int j, n;
#define GAIN(I) { if (F.hoa_independency_flag) V(F.gain_corr_prev_amp_exp[I]); V(F.coded_gain_correction_exp[I]); V(F.gain_correction_exception[I]); }
  V(F.hoa_independency_flag);
  for (i = 0; i < C.num_addnl_coders; i++) {
    V(F.channel_type[i]);
    if (F.channel_type[i] == 0) V(F.active_dirs_ids[i]);
    if (F.channel_type[i] == 2) { V(F.amb_coeff_transition_state[i]); V(F.amb_coeff_idx[i]); }
    if (F.channel_type[i] == 1) {
      if (C.coded_v_vec_length == 1) V(F.new_vec_channels[i]);
      V(F.n_bits_q[i]);
      if (F.n_bits_q[i] == 4) { V(F.codebk_idx[i]); V(F.num_vvec_indices[i]); }
      else if (F.n_bits_q[i] >= 6) { V(F.p_flag[i]); V(F.cb_flag[i]); }
    }
    GAIN(i)
  }
  for (; i < C.num_transport_ch; i++) GAIN(i)
  for (k = 0; k < F.num_of_vec_sigs; k++) {
    i = F.vec_sig_channel_ids[k] - 1;
    if (F.n_bits_q[i] == 4) {
      if (F.num_vvec_indices[i] != 1) V(F.weight_idx[i]);
      for (j = 0; j < (int)F.num_vvec_indices[i]; j++) { V(VVEC(i, j)); V(F.sgn_val[i][j]); }
      for (j = 0; j < F.v_vec_length_used; j++) V(F.additional_info[i][j]);
    } else if (F.n_bits_q[i] == 5) for (j = 0; j < F.v_vec_length_used; j++) V(F.c_8bit_quantizer_word[i][j]);
    else if (F.n_bits_q[i] >= 6) for (j = 0; j < F.v_vec_length_used; j++) {
      V(F.element_bitmask[i][j]);
      if (F.element_bitmask[i][j]) { V(F.decoded_huffmann_word[i][j]); if (F.decoded_huffmann_word[i][j]) { V(F.sgn_val[i][j]); V(F.additional_value[i][j]); } }
    }
  }
  V(F.ps_prediction_active);
  if (F.ps_prediction_active) {
    V(F.kind_of_coded_pred_ids); V(F.num_active_pred);
    for (i = 0; i < C.num_coeffs; i++) V(F.active_pred[i]);
    n = F.num_active_pred * C.pred_dir_sigs;
    for (j = 0; j < n; j++) V(F.pred_dir_sig_ids[j]);
    for (j = 0; j < F.num_of_gains; j++) V(F.pred_gains[j]);
  }
}
static void matrix_fields(int nco, int cicp, const FLOAT32 *m, ia_hoa_matrix_struct *s, int present, int index) {
  int n = impgehd_cicp_get_num_ls[cicp], i, j, o; const WORD32 *spk = ia_cicp_idx_ls_set_map_tbl[cicp]; double base = 0; int have = 0, lfe = 0;
  V(present); if (!present) return;
  V(index);
  V(s->precision_level); V(s->is_normalized); V(s->gain_limit_per_hoa_order);
  for (i = 0; i * i < nco; i++) { V(s->max_gain[i]); V(s->min_gain[i]); }
  V(s->is_full_matrix); if (!s->is_full_matrix) V(s->first_sparse_order);
  for (j = 0; j < n; j++) lfe |= ia_cicp_ls_geo_tbls[spk[j]].lfe_flag;
  if (lfe) V(s->has_lfe_rendering);
  V(s->zeroth_order_always_positive); V(s->is_all_value_symmetric);
  if (!s->is_all_value_symmetric) {
    V(s->is_any_value_symmetric);
    if (s->is_any_value_symmetric) V(s->is_any_sign_symmetric);
    else { V(s->is_all_sign_symmetric); if (!s->is_all_sign_symmetric) V(s->is_any_sign_symmetric); }
  }
  V(s->has_vertical_coef);
  for (o = 0, i = 0; i < nco; i++) for (j = 0; j < n; j++) {
    double v, g; int l = ia_cicp_ls_geo_tbls[spk[j]].lfe_flag;
    while ((o + 1) * (o + 1) <= i) o++;
    v = m[i * n + j] * sqrt(2. * o + 1);
    if (v == 0 || v != v) { V(0); V(0); continue; }
    g = 20 * log10(fabs(v)) * 8;
    if (s->is_normalized && !l && !have) { have = 1; base = g; }
    V(v < 0 ? -1 : 1); V(lrint(s->is_normalized && !l ? g - base : g));
  }
}
static void run(char *kind, char *args) {
  ia_bit_buf_struct b; volatile int e = 0; volatile IA_ERRORCODE err = 0; int len; unsigned char *p; char *t; volatile int pos = 0;
  int ntr = atoi(strtok(args, " \n"));
  memset(&C, 0, sizeof C); memset(&F, 0, sizeof F);
  if (!strcmp(kind, "mtx")) {
    int cicp = atoi(strtok(0, " \n")); WORD32 present = 0, index = 0; static FLOAT32 m[64 * 24];
    p = H_unhex((t = strtok(0, " \n")) ? t : "", &len); H_bits(&b, p, len); memset(m, 0, sizeof m);
    if ((e = setjmp(H_jmp)) == 0) err = impeghd_hoa_matrix(&b, ntr, cicp, &present, &index, m, &C.str_hoa_matrix);
    fprintf(H_out, ",\"jmp\":%d,\"code\":\"%08X\",\"pos\":%d,\"o\":[", e != 0, (unsigned)err, ia_core_coder_no_bits_read(&b)); H_n = 0;
    if (!e && !err) {
      /* the number and ids of all matrices, and the length and layout of the last, come first */
      V(C.str_hoa_matrix.num_of_hoa_rendering_matrices);
      matrix_fields(ntr, cicp, m, &C.str_hoa_matrix, present, index);
    }
    fprintf(H_out, "]"); free(p); return;
  }
  p = H_unhex((t = strtok(0, " \n")) ? t : "", &len); H_bits(&b, p, len);
  C.num_transport_ch = ntr; C.core_coder_frame_length = 1024;
  if ((e = setjmp(H_jmp)) == 0) err = impeghd_fill_config(&b, &C);
  free(p); pos = ia_core_coder_no_bits_read(&b);
  H_n = 0;
  if (!strcmp(kind, "cfg")) {
    fprintf(H_out, ",\"jmp\":%d,\"code\":\"%08X\",\"pos\":%d,\"o\":[", e != 0, (unsigned)err, pos);
    if (!e && !err) cfg_fields();
    fprintf(H_out, "]"); return;
  }
  fprintf(H_out, ",\"o\":[");
  F.ptr_config_data = &C;
  if (!e && !err) for (t = strtok(0, " ,\n"); t; t = strtok(0, " ,\n")) {
    p = H_unhex(t, &len); H_bits(&b, p, len);
    if ((e = setjmp(H_jmp)) == 0) err = impeghd_hoa_frame(&b, &F);
    free(p); pos = ia_core_coder_no_bits_read(&b);
    if (e || err) break;
    frame_fields();
  }
  fprintf(H_out, "],\"jmp\":%d,\"code\":\"%08X\",\"pos\":%d", e != 0, (unsigned)err, pos);
}
