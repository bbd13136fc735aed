/* MHAS packet walk, audio scene information, earcon and PCM signalling parsers.
 * mhas HEX PREV | asi HEX PREV | econ HEX PREV | pcmc HEX PREV | pcmd HEX BITS IDX SIZE ATT
 * PREV: bytes parsed by the same parser into the same structure beforehand ("-": none): what an earlier packet left. */
#include "h_common.h"
#include "ia_core_coder_cnst.h"
#include "impeghd_mhas_parse.h"
IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *, ia_bit_buf_struct *);
IA_ERRORCODE impeghd_pcm_data_config(ia_pcm_data_config *, ia_bit_buf_struct *);
IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *, ia_bit_buf_struct *);
#include "h_scene.h"
static void econ(ia_earcon_info *e, int n) {
  int i, k, l;
  V(n);
  for (i = 0; i <= n; i++) {
    V(e->earcon_is_independent[i]); V(e->earcon_id[i]); V(e->earcon_type[i]); V(e->earcon_active[i]); V(e->earcon_pos_type[i]);
    if (e->earcon_pos_type[i] == 0) V(e->earcon_cicp_spk_idx[i]);
    else { V(e->earcon_azimuth[i]); V(e->earcon_elevation[i]); V(e->earcon_distance[i]); }
    if (e->earcon_gain[i] != -5) V(e->earcon_gain[i]);
    V(e->earcon_num_languages[i]);
    for (k = 0; k < e->earcon_num_languages[i]; k++) { m24(e->earcon_languages[i][k]); V(e->earcon_text_data_length[i][k]);
      for (l = 0; l < e->earcon_text_data_length[i][k]; l++) V(e->earcon_text_data[i][k][l]); }
  }
}
static void pcmc(ia_pcm_data_config *c) {
  int i;
  V(c->bs_num_pcm_signals); V(c->pcm_align_audio_flag); V(c->pcm_sampling_rate_idx); HI16(c->pcm_sampling_rate); V(c->pcm_bits_per_sample_idx);
  if (c->pcm_bits_per_sample_idx > 2) return;
  V(c->pcm_bits_per_sample); V(c->pcm_frame_size_idx); if (c->pcm_frame_size_idx == 5) V(c->pcm_fix_frame_size);
  for (i = 0; i <= c->bs_num_pcm_signals; i++) V(c->pcm_signal_id[i]);
  V(c->bs_pcm_loudness_value); V(c->pcm_has_attenuation_gain); if (c->pcm_has_attenuation_gain == 1) V(c->bs_pcm_attenuation_gain);
}
static void pcmd(ia_pcm_data_config *c) {
  int i, k; double d;
  V(c->bsnum_pcm_signals_in_frame);
  for (i = 0; i <= c->bsnum_pcm_signals_in_frame; i++) V(c->pcm_signal_id[i]);
  if (c->pcm_has_attenuation_gain == 2) V(c->bs_pcm_attenuation_gain);
  if (c->pcm_frame_size_idx == 0) { V(0); return; }
  if (c->pcm_frame_size_idx == 6) V(c->pcm_var_frame_size);
  V(c->pcm_frame_size);
  for (k = 0; k < c->pcm_frame_size; k++) for (i = 0; i <= c->bsnum_pcm_signals_in_frame; i++) {
    d = c->pcm_sample[i][k];
    if (c->pcm_bits_per_sample == 16) V((long)d); else if (c->pcm_bits_per_sample == 24) V((long)(d * 256)); else { long q = (long)d; if (q > d) q--; V(q); }
  }
}
static void run(char *kind, char *args) {
  static char hex[1 << 20], prev[1 << 20]; int n, n2, a[4] = {0, 0, 0, 0}, i; unsigned char *p, *q = 0;
  ia_bit_buf_struct b; volatile int e; volatile IA_ERRORCODE err = 0; static ia_mae_audio_scene_info s; ia_mhas_pac_info pi;
  int ismd = !strcmp(kind, "pcmd"); int round;
  if (ismd) sscanf(args, "%s %d %d %d %d", hex, a, a + 1, a + 2, a + 3); else sscanf(args, "%s %s", hex, prev);
  p = H_unhex(hex, &n);
  memset(&s, 0, sizeof s); memset(&pi, 0, sizeof pi);
  for (round = ismd || prev[0] == '-'; round < 2; round++) {
    if (round == 0) { q = H_unhex(prev, &n2); H_bits(&b, q, n2); } else H_bits(&b, p, n);
    if (round == 1) {
      if (!strcmp(kind, "mhas")) { s.ei_present = s.asi_present = 0; s.earcon_info.earcon_present = 0; s.pcm_data_config.pcm_packet_type_present = 0; }
      if (!strcmp(kind, "econ")) for (i = 0; i < MAX_NUM_EARCONS; i++) s.earcon_info.earcon_gain[i] = -5;
    }
    if (ismd) { s.pcm_data_config.pcm_bits_per_sample = a[0]; s.pcm_data_config.pcm_frame_size_idx = a[1]; s.pcm_data_config.pcm_fix_frame_size = a[2]; s.pcm_data_config.pcm_has_attenuation_gain = a[3]; }
    err = 0;
    if ((e = setjmp(H_jmp)) == 0) {
      if (!strcmp(kind, "mhas")) err = impeghd_mhas_parse(&pi, &s, &b);
      else if (!strcmp(kind, "asi")) err = impeghd_mae_asi_parse(&s, &b);
      else if (!strcmp(kind, "econ")) err = impeghd_econ_config_info(&s.earcon_info, &b);
      else if (!strcmp(kind, "pcmc")) err = impeghd_pcm_data_config(&s.pcm_data_config, &b);
      else err = impeghd_pcm_data_payload(&s.pcm_data_config, &b);
    }
  }
  fprintf(H_out, ",\"jmp\":%d,\"code\":\"%08X\",\"pos\":%d,\"o\":[", e != 0, (unsigned)err, ia_core_coder_no_bits_read(&b));
  H_n = 0;
  if (!e && !err) {
    if (!strcmp(kind, "mhas")) { V(pi.packet_type); HI16(pi.packet_lbl); HI16(pi.packet_length); V(s.asi_present); V(s.earcon_info.earcon_present); }
    else if (!strcmp(kind, "asi")) scene(&s);
    else if (!strcmp(kind, "econ")) econ(&s.earcon_info, p[0] >> 1);
    else if (!strcmp(kind, "pcmc")) pcmc(&s.pcm_data_config);
    else pcmd(&s.pcm_data_config);
  }
  fprintf(H_out, "]");
  free(p); free(q);
}
