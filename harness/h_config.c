/* mpegh3daConfig.
 * cfg HEX PREV OPT : OPT is the loudspeaker layout the caller asked for; PREV a configuration parsed before into the same
 * state ("-": none). */
#include "h_common.h"
#include <math.h>
#include <impeghd_type_def.h>
#include "impd_drc_common.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impd_drc_struct.h"
#include "impeghd_3d_vec_struct_def.h"
#include "impeghd_cicp_defines.h"
#include "impeghd_cicp_struct_def.h"
#include "impeghd_cicp_2_geometry.h"
#include "impeghd_intrinsics_flt.h"
#include "ia_core_coder_bitbuffer.h"
#include "ia_core_coder_defines.h"
#include <ia_core_coder_interface.h>
#include <ia_core_coder_info.h>
#include "ia_core_coder_rom.h"
#include "ia_core_coder_dec.h"
#include "ia_core_coder_channelinfo.h"
#include "ia_core_coder_channel.h"
#include "ia_core_coder_cnst.h"
#include <ia_core_coder_constants.h>
#include "impeghd_memory_standards.h"
#include "impeghd_config_params.h"
#include "impeghd_error_codes.h"
#include "impeghd_mhas_parse.h"
#include "impeghd_hoa_common_values.h"
#include "impeghd_hoa_matrix_struct.h"
#include "impeghd_hoa_matrix.h"
#include "ia_core_coder_config.h"
#include "ia_core_coder_struct.h"
#include "ia_core_coder_struct_def.h"
IA_ERRORCODE impegh_3daudio_config_dec(ia_mpegh_dec_state_struct *, WORD32 *, struct ia_bit_buf_struct *);

#include "h_scene.h"
static void flex(ia_flex_spk_data_str *f, int n) {
  int i;
  V(f->angular_precision);
  for (i = 0; i < n; i++) {
    ia_flex_spk_cfg_str *d = &f->str_flex_spk_descr[i];
    if (d->is_cicp_spk_idx) { V(1); V(d->cicp_spk_idx); continue; }
    V(0); V(d->el_class); if (d->el_class == 3) V((WORD16)d->el_angle_idx);
    V(labs((long)(WORD16)d->az_angle_idx)); V(d->az_direction); V(d->is_lfe);
  }
}
static void spk(ia_speaker_config_3d *s) {
  int i;
  V(s->spk_layout_type);
  if (s->spk_layout_type == 0) { V(s->cicp_spk_layout_idx); return; }
  V(s->num_speakers);
  if (s->spk_layout_type == 1) for (i = 0; i < s->num_speakers; i++) V(s->cicp_spk_idx[i]);
  if (s->spk_layout_type == 2) flex(&s->str_flex_spk, s->num_speakers);
}
#define LIST(stmts) { FILE *o = H_out; char *mem = 0; size_t sz = 0; int n0 = H_n, n; H_out = open_memstream(&mem, &sz); H_n = 0; stmts; n = H_n; fclose(H_out); H_out = o; H_n = n0; V(n); if (n) { fprintf(H_out, ",%s", mem); H_n += n; } free(mem); }
extern FILE *open_memstream(char **, size_t *);

static void dump(ia_audio_specific_config_struct *a) {
  ia_usac_config_struct *u = &a->str_usac_config; ia_usac_decoder_config_struct *d = &u->str_usac_dec_config; ia_signals_3d *s = &u->signals_3d;
  int i, j, k, lay = 0, nobj = s->num_audio_obj, hasoam = 0, hasenh = 0, hasprod = 0, hashoa = 0;
  V(u->usac_sampling_frequency_index); V(u->usac_sampling_frequency); V(u->core_sbr_framelength_index); V(u->receiver_delay_compensation);
  spk(&a->ref_spk_layout);
  V(s->num_sig_group);
  for (i = 0; i < (int)s->num_sig_group; i++) {
    V(s->group_type[i]); V(s->num_sig[i]);
    if (s->group_type[i] == 0) { V(s->differs_from_ref_layout[i]); if (s->differs_from_ref_layout[i]) spk(&s->audio_ch_layout[lay]); lay++; }
  }
  V(d->num_elements); V(d->ele_length_present);
  for (i = 0; i < (int)d->num_elements; i++) {
    int t = d->usac_element_type[i]; ia_usac_dec_element_config_struct *e = &d->str_usac_element_config[i];
    ia_usac_igf_init_config_struct *g = &e->str_usac_ele_igf_init_config;
    V(t);
    if (t == 0 || t == 1) {
      V(e->full_band_lpd); V(e->noise_filling); V(e->enhanced_noise_filling);
      if (e->enhanced_noise_filling) { V(g->igf_use_enf); V(g->igf_use_high_resolution); V(g->igf_use_whitening); V(g->igf_after_tns_synth); M(g->igf_start_index, 5); V(g->igf_stop_index);
        if (t == 1) V(g->igf_independent_tilling); }
      if (t == 1) V(e->lpd_stereo_index);
    } else if (t == 3) {
      int ty = d->ia_ext_ele_payload_type[i], len = d->usac_ext_ele_payload_len[i];
      V(ty); V(len); V(e->usac_ext_eleme_def_len); V(e->usac_ext_elem_pld_frag);
      if (ty == 4 || ty == 9) for (k = 0; k < len; k++) V(d->usac_ext_ele_payload_buf[i][k]);
      if (ty == 5) hasoam = 1;
      if (ty == 13) hasenh = 1;
      if (ty == 14) hasprod = 1;
      if (ty == 7) hashoa = 1;
    }
  }
  V(d->num_config_extensions > 0);
  if (d->num_config_extensions) V(d->num_config_extensions);
  V(d->mpegh_profile_lvl); V(s->format_converter_enable); V(s->num_ch); V(nobj); V(s->num_hoa_transport_ch);
  V(s->num_ch_based_groups); V(s->num_obj_based_groups); V(s->num_hoa_based_groups); V(d->preroll_flag);
  LIST(if (hasoam) { ia_oam_dec_config_struct *o = &u->obj_md_cfg; V(o->ld_md_coding_present); V(o->frame_length); V(!!o->screen_rel_objs_present);
    if (o->screen_rel_objs_present) for (k = 0; k < nobj; k++) V(o->is_screen_rel_obj[k]); V(o->dyn_obj_priority_present); V(o->uniform_spread_present); })
  LIST(if (hasenh) { ia_enh_oam_config_struct *o = &u->enh_obj_md_cfg; int c = 0; V(o->has_diffuseness); if (o->has_diffuseness) V(o->has_common_group_diffuseness);
    V(o->has_excluded_sectors); if (o->has_excluded_sectors) { c = o->has_common_group_excluded_sectors; V(c); if (c) V(o->use_only_predefined_sectors[0]); }
    V(o->has_closest_speaker_condition); if (o->has_closest_speaker_condition) M(o->closest_spk_thr_angle, 7);
    for (k = 0; k < nobj; k++) { V(o->has_divergence[k]); if (o->has_divergence[k]) M(o->divergence_az_range[k], 6); if (!c) V(o->use_only_predefined_sectors[k]); }
    V(o->num_obj_with_divergence); })
  LIST(if (hasprod) { ia_prod_meta_data_struct *o = &u->str_prod_metat_data; V(o->has_reference_distance); V(o->bs_reference_distance);
    for (k = 0; k < s->num_obj_based_groups; k++) V(o->has_object_distance[k]); for (k = 0; k < s->num_ch_based_groups; k++) V(o->direct_head_phone[k]); })
  LIST(if (hashoa) { ia_hoa_config_struct *h = &d->str_hoa_config; unsigned char *q = (unsigned char *)&h->nfc_ref_distance; V(h->order); V(h->is_screen_relative); V(h->uses_nfc);
    if (h->uses_nfc) for (k = 0; k < 4; k++) V(q[k]);
    V(h->min_amb_order); V(h->is_single_layer); V(h->coded_spat_interpolation_time); V(h->spat_interpolation_method); V(h->coded_v_vec_length); V(h->max_gain_corr_amp_exp);
    V(h->frame_length_indicator); V(h->max_order_to_be_transmitted); V(h->num_v_vec_vq_elements_bits); V(h->pred_dir_sigs - 1); V(h->num_bits_per_sf - 1);
    V(h->num_coeffs); V(h->min_coeffs_for_amb); V(h->num_addnl_coders); V(h->max_num_add_active_amb_coeffs); })
  LIST(if (d->downmix_ext_config_present) { ia_usac_ext_cfg_dmx_cfg *x = &d->dmx_cfg; int ty = x->dmx_config_type; V(ty);
    if (ty != 1) { V(x->passive_dmx_flag); V(x->immersive_downmix_flag); }
    if (ty) { V(x->downmix_id_count); for (i = 0; i < (int)x->downmix_id_count; i++) { ia_usac_ext_cfg_dmx_mtx *m = &x->dmx_matrix[i];
      M(m->dmx_id, 7); V(m->dmx_type); V(m->cicp_spk_layout_idx);
      if (m->dmx_type == 1) { V(m->downmix_mtx_count); for (j = 0; j < m->downmix_mtx_count; j++) { V(m->num_assigned_group_ids[j]);
        for (k = 0; k < m->num_assigned_group_ids[j]; k++) V(m->signal_group_id[j][k]);
        V(m->dmx_matrix_len_bits[j]); for (k = 0; k < (m->dmx_matrix_len_bits[j] + 7) / 8; k++) M(m->downmix_matrix[j][k], 8); } } } }
    V(x->dmx_id); })
  LIST(if (s->signal_grp_info_present) for (i = 0; i < (int)s->num_sig_group; i++) { V(s->group_priority[i]); V(s->fixed_position[i]); })
  LIST(if (d->compat_profile_cfg_present) { ia_struct_compatible_profile_config *x = &d->str_compatible_profile_config; V(x->bsnum_compatible_sets); V(x->reserved);
    for (k = 0; k <= (int)x->bsnum_compatible_sets; k++) V(x->compatible_set_indication[k]); })
  LIST(if (d->loudness_ext_config_present) { int x = d->loudness_ext_config_idx; V(x); V(d->usac_cfg_ext_info_len[x]); for (k = 0; k < d->usac_cfg_ext_info_len[x]; k++) V(d->usac_cfg_ext_info_buf[x][k]); })
  LIST(if (a->str_mae_asi.asi_present) scene(&a->str_mae_asi);)
  LIST(for (k = 0; k < (int)d->num_config_extensions; k++) V(d->usac_cfg_ext_info_type[k]);)
}
static void run(char *kind, char *args) {
  static char hex[1 << 20], prev[1 << 20]; int n, n2, opt = 0, round; unsigned char *p, *q = 0; WORD32 used = 0;
  static ia_mpegh_dec_state_struct *st; static ia_audio_specific_config_struct *a; static ia_mpegh_dec_config_struct *pc;
  ia_bit_buf_struct b; volatile int e = 0; volatile IA_ERRORCODE err = 0;
  if (!st) { st = calloc(1, sizeof *st); a = calloc(1, sizeof *a); pc = calloc(1, sizeof *pc); }
  sscanf(args, "%s %s %d", hex, prev, &opt);
  memset(st, 0, sizeof *st); memset(a, 0, sizeof *a); memset(pc, 0, sizeof *pc);
  st->ia_audio_specific_config = a; st->p_config = pc; pc->ui_cicp_layout_idx = opt; st->xmpeghd_jmp_buf = &H_jmp;
  p = H_unhex(hex, &n);
  for (round = prev[0] == '-'; round < 2; round++) {
    if (round == 0) { q = H_unhex(prev, &n2); H_bits(&b, q, n2); } else { H_bits(&b, p, n); a->str_mae_asi.asi_present = 0; }
    err = 0;
    if ((e = setjmp(H_jmp)) == 0) err = impegh_3daudio_config_dec(st, &used, &b);
  }
  fprintf(H_out, ",\"jmp\":%d,\"code\":\"%08X\",\"pos\":%d,\"o\":[", e != 0, (unsigned)err, ia_core_coder_no_bits_read(&b));
  H_n = 0;
  if (!e && !err) dump(a);
  fprintf(H_out, "]");
  free(p); free(q); (void)kind;
}
