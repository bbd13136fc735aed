/* Choice of DRC sets and of the loudness gain.  sel CONFIG LOUDNESS DM on,eff,ln,tl,req,max,dev,gmax,meth,sys,pref GROUPS PRESETS
 * levels in 1/32 dB; GROUPS: - or id,id,...; PRESETS: - or id.members,... */
#include "h_common.h"
#include <math.h>
#include "impd_drc_common.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impd_drc_interface.h"
#include "impd_drc_struct.h"
#include "impd_drc_filter_bank.h"
#include "impd_drc_parser.h"
#include "impd_drc_init.h"
#include "impd_drc_selection_process.h"
#include "impd_drc_host_params.h"
static ia_drc_config cfg, cfg2; static ia_drc_loudness_info_set_struct loud; static ia_drc_bits_dec_struct bs;
static ia_drc_sel_proc_params_struct par; static ia_drc_sel_pro_struct sel; static ia_drc_interface_struct itf; static ia_drc_sel_proc_output_struct out;
static const int lists[7] = {0x432160, 0x543261, 0x543162, 0x542163, 0x531264, 0x432165, 0x543216};
static long q(double x, int k) { return lrint(x * k); }
static IA_ERRORCODE once(int *p, char *gr, char *pr, int first) {
  IA_ERRORCODE err; char *t, b1[256], b2[256]; int i, a, b;
  if (first) {
    memset(&par, 0, sizeof par); memset(&sel, 0, sizeof sel); memset(&itf, 0, sizeof itf); memset(&out, 0, sizeof out);
    impd_drc_set_def_params_sel_process(&par);
    if (p[0]) {
      par.dynamic_range_control_on = 1; par.num_drc_feature_requests = 1; par.drc_feature_req_type[0] = MATCH_EFFECT_TYPE;
      par.requested_num_drc_effects[0] = 6; par.desired_num_drc_effects_of_requested[0] = 1;
      for (i = 0; i < 6; i++) par.requested_drc_effect_type[0][i] = (lists[p[1]] >> (4 * i)) & 15;
    }
    par.loudness_normalization_on = p[2]; if (p[2]) par.target_loudness = p[3] / 32.0f;
    par.output_peak_level_max = p[5] / 32.0f; par.loudness_deviation_max = p[6]; par.loudness_norm_gain_db_max = p[7] / 32.0f;
    par.loudness_measurement_method = p[8]; par.loudness_measurement_system = p[9]; par.group_preset_id_requested_preference = p[10];
    strcpy(b1, gr); strcpy(b2, pr);
    if (gr[0] != '-') for (t = strtok(b1, ","); t; t = strtok(0, ",")) par.group_id_requested[par.num_group_ids_requested++] = atoi(t);
    if (pr[0] != '-') for (t = strtok(b2, ","); t; t = strtok(0, ",")) { sscanf(t, "%d.%d", &a, &b);
      par.num_members_group_preset_ids_requested[par.num_group_preset_ids_requested] = b; par.group_preset_id_requested[par.num_group_preset_ids_requested++] = a; }
    sel.first_frame = 1;
    err = impd_drc_uni_selction_proc_init(&sel, &par, &itf, 0);
    if (err) return err;
    if (p[4] > 0) { sel.str_uni_drc_sel_proc_params.requested_dwnmix_id[0] = p[4]; sel.str_uni_drc_sel_proc_params.num_downmix_id_requests = 1; sel.str_uni_drc_sel_proc_params.target_config_request_type = 0; }
  } else sel.sel_proc_request_flag = 1;
  err = impd_drc_uni_sel_proc_process(&sel, &cfg, &loud, &out);
  return err;
}
static void show(void) {
  int i;
  V(out.num_sel_drc_sets);
  for (i = 0; i < out.num_sel_drc_sets; i++) { V(out.sel_drc_set_ids[i]); V(out.sel_downmix_ids[i]); }
  V(out.active_downmix_id); V(q(out.loud_norm_gain_db, 32)); V(q(out.output_peak_level_db, 32)); V(q(out.output_loudness, 32)); V(q(cfg.loudness_gain_db, 32));
  V(out.base_channel_count); V(out.target_channel_count); V(out.group_id_loudness_count);
  for (i = 0; i < out.group_id_loudness_count; i++) { V(out.group_id[i]); V(q(out.group_id_loudness[i], 32)); }
}
static void run(char *kind, char *args) {
  static char hex[1 << 16], lx[1 << 16], dm[256], ps[256], gr[256], pr[256]; int n, i, p[16]; unsigned char *c, *l; char *t;
  static ia_bit_buf_struct b; volatile int e = 0, same = 1; volatile IA_ERRORCODE err = 0;
  sscanf(args, "%s %s %s %s %s %s", hex, lx, dm, ps, gr, pr);
  for (t = strtok(ps, ","), i = 0; t; t = strtok(0, ",")) p[i++] = atoi(t);
  memset(&cfg, 0, sizeof cfg); memset(&bs, 0, sizeof bs); memset(&loud, 0, sizeof loud);
  impd_drc_init_bitstream_config(&cfg); impd_drc_init_bitstream_dec(&bs, 48000, 1024, 0, -1, 0);
  if (dm[0] != '-')
    for (t = strtok(dm, ","); t; t = strtok(0, ",")) { int x, y; ia_drc_downmix_instructions_struct *d = &cfg.mpegh3da_dwnmix_instructions[cfg.ia_mpegh3da_dwnmix_instructions_count++];
      sscanf(t, "%d.%d", &x, &y); d->downmix_id = x; d->target_channel_count = y; }
  c = H_unhex(hex, &n); H_bits(&b, c, n);
  if ((e = setjmp(H_jmp)) == 0) err = impd_drc_parse_config(&cfg, &loud, &b, &bs.ia_drc_params_struct);
  if (!e && !err) { l = H_unhex(lx, &n); H_bits(&b, l, n); if ((e = setjmp(H_jmp)) == 0) err = impd_drc_mpegh3da_parse_loudness_info_set(&loud, &b); free(l); }
  free(c);
  H_n = 0;
  if (!e && !err) {
    cfg2 = cfg;
    err = once(p, gr, pr, 1);
    if (!err) {
      static ia_drc_sel_proc_output_struct o1; float g = cfg.loudness_gain_db;
      o1 = out;
      if (once(p, gr, pr, 0) || memcmp(&o1, &out, sizeof out) || cfg.loudness_gain_db != g) same = 0;      /* asked again */
      cfg = cfg2; if (once(p, gr, pr, 1) || memcmp(&o1, &out, sizeof out)) same = 0;                       /* and from the start */
    }
  }
  fprintf(H_out, ",\"jmp\":%d,\"code\":\"%08X\",\"pos\":0,\"o\":[", e != 0, (unsigned)err);
  if (!e && !err) { show(); if (!same) V(-99999); }
  fprintf(H_out, "]");
}
