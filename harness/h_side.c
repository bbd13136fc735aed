/* Side interfaces.  KIND HEX PREV SCENE WIRES, KIND ei, lsi, brir or sd; PREV: data parsed before into the same structures;
 * SCENE: - or id.pos.gain,id.pos.gain/preset,preset */
#include "h_common.h"
#include <math.h>
#include "impd_drc_common.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impd_drc_struct.h"
#include "impeghd_intrinsics_flt.h"
#include "impeghd_hoa_common_values.h"
#include "impeghd_hoa_common_functions.h"
#include "impeghd_hoa_matrix_struct.h"
#include "impeghd_hoa_matrix.h"
#include "ia_core_coder_cnst.h"
#include "ia_core_coder_config.h"
#include "impeghd_binaural.h"
#include "impeghd_mhas_parse.h"
#include "impeghd_ele_interaction_intrfc.h"

static void flex(ia_flex_spk_data_str *f, int n) {
  int i;
  V(f->angular_precision);
  for (i = 0; i < n; i++) {
    ia_flex_spk_cfg_str *d = &f->str_flex_spk_descr[i];
    if (d->is_cicp_spk_idx) { V(1); V(d->cicp_spk_idx); continue; }
    V(0); V(d->el_class); if (d->el_class == 3) V((WORD16)d->el_angle_idx);
    V(labs((long)(WORD16)d->az_angle_idx)); V(d->az_direction); V(d->is_lfe);
  }
}
static void spk(ia_interface_speaker_config_3d *s) {
  int i, n = s->num_ch + s->num_lfes;
  V(s->spk_layout_type);
  if (s->spk_layout_type == 0) V(s->cicp_spk_layout_idx); else V(n);
  if (s->spk_layout_type == 1) for (i = 0; i < n; i++) V(s->cicp_spk_idx[i]);
  if (s->spk_layout_type == 2) flex(&s->str_flex_spk_data, n);
  else { V(s->num_ch); V(s->num_lfes); for (i = 0; i < n; i++) { V(s->geometry[i].az); V(s->geometry[i].el); V(s->geometry[i].lfe); } }
}
static void word(FLOAT32 x) { unsigned u; memcpy(&u, &x, 4); HI16(u); }
static void brir(ia_binaural_renderer *r, int fir) {
  ia_binaural_representation_str *b = &r->binaural_rep; int i, j, n = b->brir_pairs;
  V(r->num_binaural_representation);
  if (!r->num_binaural_representation) return;
  HI16(b->brir_sampling_frequency); V(b->is_hoa_data);
  if (!b->is_hoa_data) spk(&b->setup_spk_config_3d);
  V(n);
  if (fir) {
    ia_binaural_fir_data_str *f = &b->ia_binaural_fir_data_str;
    V(0); V(f->n_taps);
    for (i = 0; i < n; i++) for (j = 0; j < f->n_taps; j++) { word(f->taps[0][i][j]); word(f->taps[1][i][j]); }
    HI16(f->all_cut_freq);
    if (!f->all_cut_freq) for (i = 0; i < n; i++) { word(f->cut_freq[0][i]); word(f->cut_freq[1][i]); }
  } else {
    ia_td_binaural_ren_param_str *t = &b->td_binaural_ren_param;
    V(2); V(t->begin_delay); V(t->len_direct); V(t->num_diffuse_block);
    for (i = 0; i < n; i++) { word(t->ptr_direct_fc[0][i]); word(t->ptr_direct_fc[1][i]); }
    for (i = 0; i < t->num_diffuse_block; i++) { word(t->ptr_diffuse_fc[0][i]); word(t->ptr_diffuse_fc[1][i]); }
    for (i = 0; i < n; i++) word(t->ptr_inv_diffuse_weight[i]);
    for (i = 0; i < n; i++) for (j = 0; j < t->len_direct; j++) { word(t->ptr_taps_direct[0][i][j]); word(t->ptr_taps_direct[1][i][j]); }
    for (i = 0; i < t->num_diffuse_block; i++) for (j = 0; j < t->len_direct; j++) { word(t->ptr_taps_diffuse[i][0][j]); word(t->ptr_taps_diffuse[i][1][j]); }
  }
}
/* format the last representation had in the data: the decoder overwrites it once it has designed its filters */
extern IA_ERRORCODE __real_impeghd_compute_filter_params(ia_td_binaural_ren_param_str *, ia_binaural_fir_data_str *, WORD32, VOID *);
static int H_fir;
IA_ERRORCODE __wrap_impeghd_compute_filter_params(ia_td_binaural_ren_param_str *t, ia_binaural_fir_data_str *f, WORD32 n, VOID *s) {
  (void)t; (void)f; (void)n; (void)s; H_fir = 1; return 0;
}
static ia_local_setup_struct ls; static ia_ele_intrctn ei; static ia_mae_audio_scene_info asi; static ia_scene_disp_data sd;
static ia_binaural_renderer *br; static void *scratch; static ia_signals_3d sig;
static IA_ERRORCODE parse(char *kind, ia_bit_buf_struct *b) {
  H_fir = 0;
  if (!strcmp(kind, "ei")) return impeghd_ele_interaction(b, &ei, &asi);
  if (!strcmp(kind, "lsi")) return impeghd_3da_local_setup_information(b, &ls, sig);
  if (!strcmp(kind, "brir")) return impeghd_read_brir_info(br, b);
  sd.sd_buf = *b; { IA_ERRORCODE e = impeghd_scene_displacement_data(&sd); *b = sd.sd_buf; return e; }
}
static void run(char *kind, char *args) {
  static char hex[1 << 20], prev[1 << 20], sc[4096]; int n, n2, wires = 0, round, i, k; unsigned char *p, *q = 0; char *t, *u;
  static ia_bit_buf_struct b; volatile int e = 0; volatile IA_ERRORCODE err = 0;
  sscanf(args, "%s %s %s %d", hex, prev, sc, &wires);
  if (!br) { br = calloc(1, sizeof *br); scratch = calloc(1, sizeof(ia_binaural_scratch) + (1 << 22)); }
  memset(&ls, 0, sizeof ls); memset(&ei, 0, sizeof ei); memset(&asi, 0, sizeof asi); memset(&sd, 0, sizeof sd);
  memset(&br->binaural_rep, 0, sizeof br->binaural_rep); br->ptr_scratch = scratch; ls.pstr_binaural_renderer = br;
  sig.num_audio_obj = wires / 2; sig.num_ch = wires - wires / 2;
  if (sc[0] != '-') {
    asi.asi_present = 1; u = strchr(sc, '/'); *u++ = 0;
    for (t = strtok(sc, ","); t; t = strtok(0, ",")) { ia_mae_group_def *g = &asi.group_definition[asi.num_groups++]; int x, y, z;
      sscanf(t, "%d.%d.%d", &x, &y, &z); g->group_id = x; g->allow_pos_interact = y; g->allow_gain_interact = z; }
    for (t = strtok(u, ","); t; t = strtok(0, ",")) asi.group_presets_definition[asi.num_group_presets++].group_id = atoi(t);
  }
  p = H_unhex(hex, &n);
  for (round = prev[0] == '-'; round < 2; round++) {
    if (round == 0) { q = H_unhex(prev, &n2); H_bits(&b, q, n2); } else H_bits(&b, p, n);
    err = 0;
    if ((e = setjmp(H_jmp)) == 0) err = parse(kind, &b);
  }
  fprintf(H_out, ",\"jmp\":%d,\"code\":\"%08X\",\"pos\":%d,\"o\":[", e != 0, (unsigned)err, e ? 0 : ia_core_coder_no_bits_read(&b));
  H_n = 0;
  if (!e && !err) {
    if (!strcmp(kind, "sd")) { V(sd.sd_yaw); V(sd.sd_pitch); V(sd.sd_roll); V(sd.sd_azimuth); V(sd.sd_elevation); V(sd.sd_radius); }
    else if (!strcmp(kind, "brir")) brir(br, H_fir);
    else if (!strcmp(kind, "ei")) {
      V(ei.ei_intrctn_sign_data_len);
      if (ei.ei_intrctn_sign_data_len) { V(ei.ei_intrctn_sign_data_type); for (i = 0; i < ei.ei_intrctn_sign_data_len; i++) V(ei.ei_intrctn_sign_data[i]); }
      V(ei.ei_intrctn_mode); V(ei.ei_num_groups); if (ei.ei_intrctn_mode) V(ei.ei_group_preset_id);
      for (i = 0; i < ei.ei_num_groups; i++) {
        V(ei.ei_grp_id[i]); V(ei.ei_on_off[i]); V(ei.ei_route_to_wire[i]); if (ei.ei_route_to_wire[i]) V(ei.route_to_wire_id[i]);
        else if (ei.route_to_wire_id[i] != -1) V(-99);
        if (!ei.ei_on_off[i]) continue;
        V(ei.ei_change_pos[i]); if (ei.ei_change_pos[i]) { V(ei.ei_az_offset[i]); V(ei.ei_el_offset[i]); V(ei.ei_dist_fact[i]); }
        V(ei.ei_change_gain[i]); if (ei.ei_change_gain[i]) V(ei.ei_gain[i]);
      }
      V(ei.has_zoom_area_sz); if (ei.has_zoom_area_sz) { V(ei.zoom_az_center); V(ei.zoom_az); V(ei.zoom_el_center); V(ei.zoom_el); }
    } else {
      V(ls.ren_type);
      if (ls.ren_type) brir(br, H_fir);
      else {
        V(ls.num_spk); spk(&ls.spk_config); V(ls.use_tracking_mode);
        for (k = 0; k < (int)ls.num_spk; k++) {
          if (ls.spk_config.spk_layout_type <= 1) { V(ls.has_knwn_pos[k]); if (ls.has_knwn_pos[k]) { V(lrintf(ls.loud_spk_azimuth[k])); V(ls.loud_spk_elevation[k]); } }
          if (ls.ptr_spk_dist) V(ls.ptr_spk_dist[k]);
          if (ls.ptr_spk_gain) V(lrintf(2 * ls.ptr_spk_gain[k]));
        }
        V(ls.ext_dist_compensation);
      }
      for (k = 0; k < wires; k++) V(ls.wire_id[k]);
      V(ls.has_local_screen_size_info);
      if (ls.has_local_screen_size_info) { V(ls.lcl_scrn_sz_az); V(ls.lcl_scrn_sz_left_az); V(ls.lcl_scrn_sz_right_az); V(ls.has_lcl_scrn_elevation_info);
        if (ls.has_lcl_scrn_elevation_info) { V(ls.lcl_scrn_sz_top_el); V(ls.lcl_scrn_sz_bottom_el); } }
    }
  }
  fprintf(H_out, "]");
  free(p); free(q);
}
