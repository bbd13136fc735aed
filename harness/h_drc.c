/* Dynamic range control data.  drc HEX PREV DM FS FRAME | loud HEX PREV | gain HEX PREV DM FS FRAME CFG;
 * PREV: data parsed before into the same structures; DM: - or downmix ids and their channels, id.channels,... */
#include "h_common.h"
#include <math.h>
#include "impd_drc_common.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impd_drc_struct.h"
#include "impd_drc_filter_bank.h"
#include "impd_drc_parser.h"
#include "impd_drc_init.h"
static ia_drc_config cfg; static ia_drc_loudness_info_set_struct loud; static ia_drc_bits_dec_struct bs; static ia_drc_gain_struct gains;
static long q(double x, int k) { return lrint(x * k); }
static void prepare(char *dm, int fs, int frame) {
  char *t;
  memset(&cfg, 0, sizeof cfg); memset(&bs, 0, sizeof bs);
  impd_drc_init_bitstream_config(&cfg);
  impd_drc_init_bitstream_dec(&bs, fs, frame, 0, -1, 0);
  if (dm[0] != '-')
    for (t = strtok(dm, ","); t; t = strtok(0, ",")) { int a, b; ia_drc_downmix_instructions_struct *d = &cfg.mpegh3da_dwnmix_instructions[cfg.ia_mpegh3da_dwnmix_instructions_count++];
      sscanf(t, "%d.%d", &a, &b); d->downmix_id = a; d->target_channel_count = b; }
}
static void info(ia_drc_loudness_info_struct *l, int programme) {
  int i;
  if (programme) { V(l->loudness_info_type); if (l->loudness_info_type == 0 || l->loudness_info_type != 3) V(l->mae_group_id); if (l->loudness_info_type == 0 || l->loudness_info_type == 3) V(l->mae_group_preset_id); }
  V(l->drc_set_id); V(l->downmix_id);
  V(l->sample_peak_level_present); if (l->sample_peak_level_present) V(q(l->sample_peak_level, 32));
  V(l->true_peak_level_present);
  if (l->true_peak_level_present) { V(q(l->true_peak_level, 32)); V(l->true_peak_level_measurement_system); V(l->true_peak_level_reliability); }
  V(l->measurement_count);
  for (i = 0; i < l->measurement_count; i++) { ia_drc_loudness_measure_struct *m = &l->loudness_measure[i]; V(m->method_def); V(q(m->method_value, 4)); V(m->measurement_system); V(m->reliability); }
}
static void instruction(ia_drc_instructions_struct *d) {
  int i, j, n = cfg.channel_layout.base_channel_count, duck = (d->drc_set_effect & 0xC00) != 0, single = !duck && (d->downmix_id[0] == 127 || d->dwnmix_id_count > 1);
  V(d->drc_instructions_type);
  if (d->drc_instructions_type != 3) V(d->mae_group_id);
  if (d->drc_instructions_type != 2) V(d->mae_group_preset_id);
  V(d->drc_set_id); V(d->drc_location); V(d->downmix_id[0]); V(d->dwnmix_id_count - 1);
  for (i = 1; i < d->dwnmix_id_count; i++) V(d->downmix_id[i]);
  V(d->drc_set_effect);
  if (!duck) { V(d->limiter_peak_target_present); if (d->limiter_peak_target_present) V(-q(d->limiter_peak_target, 8)); }
  V(d->drc_set_target_loudness_present); V(d->drc_set_target_loudness_value_upper);
  if (d->drc_set_target_loudness_present) V(d->drc_set_target_loudness_value_lower_present);
  V(d->drc_set_target_loudness_value_lower);
  V(d->depends_on_drc_set_present); V(d->depends_on_drc_set_present ? d->depends_on_drc_set : d->no_independent_use);
  if (single) n = 1;
  else if (!duck && d->downmix_id[0] != 0)
    for (i = 0; i < cfg.ia_mpegh3da_dwnmix_instructions_count; i++) if (cfg.mpegh3da_dwnmix_instructions[i].downmix_id == d->downmix_id[0]) { n = cfg.mpegh3da_dwnmix_instructions[i].target_channel_count; break; }
  for (i = 0; i < n; i++) V(d->gain_set_index[i]);
  if (!single) for (i = 0; i < n; i++) V(d->channel_group_of_ch[i]);
  V(d->num_drc_ch_groups);
  for (i = 0; i < d->num_drc_ch_groups; i++) {
    V(d->gain_set_index_for_channel_group[i]);
    if (duck) { V(d->str_ducking_modifiers_for_channel_group[i].ducking_scaling_flag); V(q(d->str_ducking_modifiers_for_channel_group[i].ducking_scaling, 8)); }
    else for (j = 0; j < d->band_count_of_ch_group[i]; j++) { ia_drc_gain_modifiers_struct *m = &d->str_gain_modifiers_of_ch_group[i];
      V(m->gain_scaling_flag[j]); V(q(m->attn_scale_factor[j], 8)); V(q(m->amplfn_scale_factor[j], 8)); V(m->gain_offset_flag[j]); V(q(m->gain_offset[j], 4)); }
  }
  for (i = 0; i < d->num_drc_ch_groups; i++) { V(d->band_count_of_ch_group[i]); V(d->gain_interpolation_type_for_channel_group[i]); V(d->time_delta_min_for_channel_group[i]); V(d->time_alignment_for_channel_group[i]); }
  V(d->gain_element_count);
}
static void config(void) {
  int i, j, k;
  V(cfg.drc_coefficients_drc_count); V(cfg.drc_instructions_uni_drc_count); V(cfg.channel_layout.base_channel_count);
  for (i = 0; i < cfg.drc_coefficients_drc_count; i++) { ia_drc_uni_drc_coeffs_struct *c = &cfg.str_p_loc_drc_coefficients_uni_drc[i];
    V(c->drc_location); V(c->gain_set_count);
    for (j = 0; j < c->gain_set_count; j++) { ia_drc_gain_set_params_struct *g = &c->gain_set_params[j];
      V(g->gain_coding_profile); V(g->full_frame); V(g->time_alignment); V(g->band_count);
      if (g->gain_coding_profile == 3) continue;
      if (g->band_count > 1) V(g->drc_band_type);
      for (k = 0; k < g->band_count; k++) { V(g->gain_params[k].gain_seq_idx); V(g->gain_params[k].drc_characteristic); }
      for (k = 1; k < g->band_count; k++) V(g->drc_band_type ? g->gain_params[k].crossover_freq_idx : g->gain_params[k].start_subband_index);
    } }
  for (i = 0; i < cfg.drc_instructions_uni_drc_count; i++) instruction(&cfg.str_drc_instruction_str[i]);
  V(cfg.drc_config_ext_present);
  if (cfg.drc_config_ext_present) { V(cfg.str_drc_config_ext.drc_config_ext_type[0]); if (cfg.str_drc_config_ext.drc_config_ext_type[0]) V(cfg.str_drc_config_ext.ext_bit_size[0]); }
  V(cfg.drc_instructions_count_plus);
}
static void payload(void) {
  int i, j, k;
  for (i = 0; i < cfg.str_p_loc_drc_coefficients_uni_drc[0].gain_set_count; i++) { ia_drc_gain_sequence_struct *g = &gains.drc_gain_sequence[i];
    V(g->band_count);
    for (j = 0; j < g->band_count; j++) { V(g->str_spline_nodes[j].no_of_nodes);
      for (k = 0; k < g->str_spline_nodes[j].no_of_nodes; k++) { ia_drc_node_struct *n = &g->str_spline_nodes[j].str_node[k]; V(n->time); V(q(n->loc_gain_db, 8)); V(q(n->slope, 10000)); } } }
  V(gains.uni_drc_gain_ext_flag);
  if (gains.uni_drc_gain_ext_flag) { V(gains.uni_drc_gain_ext.uni_drc_gain_ext_type[0]); if (gains.uni_drc_gain_ext.uni_drc_gain_ext_type[0]) V(gains.uni_drc_gain_ext.ext_bit_size[0]); }
}
static IA_ERRORCODE parse(char *kind, ia_bit_buf_struct *b) {
  if (!strcmp(kind, "drc")) return impd_drc_parse_config(&cfg, &loud, b, &bs.ia_drc_params_struct);
  if (!strcmp(kind, "loud")) return impd_drc_mpegh3da_parse_loudness_info_set(&loud, b);
  return impd_drc_read_uni_drc_gain(&gains, &cfg, b, &bs);
}
static void run(char *kind, char *args) {
  static char hex[1 << 20], prev[1 << 20], ch[1 << 20], dm[4096], d2[4096]; int n, n2, fs, frame, round; unsigned char *p, *c = 0, *r = 0;
  static ia_bit_buf_struct b; volatile int e = 0; volatile IA_ERRORCODE err = 0;
  sscanf(args, "%s %s %s %d %d %s", hex, prev, dm, &fs, &frame, ch);
  memset(&loud, 0, sizeof loud); memset(&gains, 0, sizeof gains);
  strcpy(d2, dm); prepare(d2, fs, frame);
  if (!strcmp(kind, "gain")) { c = H_unhex(ch, &n2); H_bits(&b, c, n2);
    if ((e = setjmp(H_jmp)) == 0) err = impd_drc_parse_config(&cfg, &loud, &b, &bs.ia_drc_params_struct);
    if (e || err) { fprintf(H_out, ",\"jmp\":%d,\"code\":\"%08X\",\"pos\":0,\"o\":[]", e != 0, (unsigned)err); return; } }
  p = H_unhex(hex, &n);
  for (round = prev[0] == '-'; round < 2; round++) {
    if (round == 0) { r = H_unhex(prev, &n2); H_bits(&b, r, n2); }
    else { H_bits(&b, p, n); if (!strcmp(kind, "drc")) { strcpy(d2, dm); prepare(d2, fs, frame); } }
    err = 0;
    if ((e = setjmp(H_jmp)) == 0) err = parse(kind, &b);
  }
  fprintf(H_out, ",\"jmp\":%d,\"code\":\"%08X\",\"pos\":%d,\"o\":[", e != 0, (unsigned)err, e ? 0 : ia_core_coder_no_bits_read(&b));
  H_n = 0;
  if (!e && !err) {
    int i;
    if (!strcmp(kind, "drc")) config(); else if (!strcmp(kind, "gain")) payload();
    else { V(loud.loudness_info_count); for (i = 0; i < loud.loudness_info_count; i++) info(&loud.loudness_info[i], 1);
      V(loud.loudness_info_album_present);
      if (loud.loudness_info_album_present) { V(loud.loudness_info_album_count); for (i = 0; i < loud.loudness_info_album_count; i++) info(&loud.str_loudness_info_album[i], 0); }
      V(loud.loudness_info_set_ext_present);
      if (loud.loudness_info_set_ext_present) { V(loud.str_loudness_info_set_ext.loudness_info_set_ext_type[0]); if (loud.str_loudness_info_set_ext.loudness_info_set_ext_type[0]) V(loud.str_loudness_info_set_ext.ext_bit_size[0]); } }
  }
  fprintf(H_out, "]");
  free(p); free(c); free(r);
}
