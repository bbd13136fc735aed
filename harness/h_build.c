/* Builds access units for a configuration by letting the decoder pull random bits: the frame buffer is random, the header
 * fields of every core element and the extension elements are written where the decoder is about to read, and the position
 * where the decoder ends is the length of the access unit.  Candidates are tried in a forked child; the parent repeats the
 * first acceptable one, so that the state carries on.
 *
 * h_build CONFIGHEX NFRAMES SEED OPTS [PAYLOADS]
 *   OPTS: key=val,...   (cicp, effect, tl, preset)     PAYLOADS: file with lines "frame element hex|-"
 * prints one line per access unit: hex out_bytes peak tries; then "end REASON".
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <setjmp.h>
#define offsetof __builtin_offsetof
#define _UNISTD_H 1
extern int fork(void); extern void _exit(int); extern unsigned alarm(unsigned);
#include <sys/wait.h>
#include <math.h>
#include <stdio.h>
#include <string.h>
#include <impeghd_type_def.h>
#include "ia_core_coder_cnst.h"
#include "ia_core_coder_defines.h"
#include "impd_drc_common.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impd_drc_init.h"
#include "impd_drc_struct.h"
#include "impeghd_intrinsics_flt.h"
#include "ia_core_coder_acelp_info.h"
#include "ia_core_coder_bitbuffer.h"
#include "ia_core_coder_channel.h"
#include "ia_core_coder_channelinfo.h"
#include "ia_core_coder_defines.h"
#include "ia_core_coder_definitions.h"
#include "ia_core_coder_interface.h"
#include "ia_core_coder_info.h"
#include "impeghd_memory_standards.h"
#include "ia_core_coder_rom.h"
#include "ia_core_coder_dec.h"
#include "ia_core_coder_tns_usac.h"
#include "impeghd_hoa_common_values.h"
#include "impeghd_hoa_matrix_struct.h"
#include "impeghd_hoa_matrix.h"
#include "ia_core_coder_config.h"
#include "ia_core_coder_struct_def.h"
#include "ia_core_coder_headerdecode.h"
#include "impeghd_config_params.h"
#include "impeghd_error_codes.h"
#include "impeghd_mhas_parse.h"
#include "impeghd_multichannel.h"
#include "impeghd_tbe_dec.h"
#include "ia_core_coder_igf_data_struct.h"
#include "ia_core_coder_stereo_lpd.h"
#include "impeghd_binaural.h"
#include "impeghd_binaural_renderer.h"
#include "impeghd_cicp_2_geometry.h"
#include "impeghd_cicp_defines.h"
#include "impeghd_cicp_struct_def.h"
#include "impeghd_ele_interaction_intrfc.h"
#include "impeghd_format_conv_defines.h"
#include "impeghd_format_conv_rom.h"
#include "impeghd_format_conv_data.h"
#include "impeghd_dmx_mtx_data.h"
#include "impeghd_hoa_common_values.h"
#include "impeghd_hoa_data_types.h"
#include "impeghd_hoa_dec_struct.h"
#include "impeghd_hoa_frame_params.h"
#include "impeghd_hoa_matrix_struct.h"
#include "impeghd_hoa_nfc_filtering.h"
#include "impeghd_hoa_space_positions.h"
#include "impeghd_hoa_simple_mtrx.h"
#include "impeghd_hoa_render_mtrx.h"
#include "impeghd_hoa_renderer.h"
#include "impeghd_hoa_spatial_decoder_struct.h"
#include "impeghd_hoa_spatial_decoder.h"
#include "impeghd_hoa_decoder.h"
#include "impeghd_3d_vec_struct_def.h"
#include "impeghd_cicp_defines.h"
#include "impeghd_cicp_struct_def.h"
#include "impeghd_oam_dec_defines.h"
#include "impeghd_oam_dec_struct_def.h"
#include "impeghd_oam_dec.h"
#include "impeghd_obj_ren_dec_defines.h"
#include "impeghd_obj_ren_dec_struct_def.h"
#include "impeghd_obj_ren_dec.h"
#include "impeghd_uni_drc_struct.h"
#include "ia_core_coder_main.h"
#include "ia_core_coder_arith_dec.h"
#include "ia_core_coder_struct.h"
#include "impeghd_peak_limiter_struct_def.h"
#include "impeghd_binaural.h"
#include "impeghd_binaural_renderer.h"
#include "impeghd_resampler.h"
#include "ia_core_coder_create.h"
#include "ia_core_coder_dec_main.h"
#include "impd_drc_host_params.h"
#include "impeghd_cicp_2_geometry_rom.h"
#include "impeghd_metadata_preprocessor.h"
#include "impeghd_ext_rend_intrfc.h"
#include "impeghd_ext_rend_intrfc_util.h"
#include "impeghd_api.h"
#define NB 9000
static unsigned long long rs; static unsigned rnd(void) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(rs >> 33); }
static long endbit; static int frame; static unsigned char *base; static int indep = -1;
typedef struct { int f, e, n; unsigned char *d; } pl; static pl P[4096]; static int nP;
static ia_usac_decoder_config_struct *dc;
static void wr(long *p, unsigned v, int n) { while (n--) { unsigned char *q = base + (*p >> 3); int s = 7 - (*p & 7); *q = (*q & ~(1 << s)) | (((v >> n) & 1) << s); (*p)++; } }
static long posof(ia_bit_buf_struct *b) { return b->size - b->cnt_bits; }
/* extension elements from element e on */
static void exts(int e, long p) {
  for (; e < (int)dc->num_elements && dc->usac_element_type[e] == 3; e++) {
    int i, n = -1; unsigned char *d = 0; static unsigned char r[4000];
    ia_usac_dec_element_config_struct *c = &dc->str_usac_element_config[e];
    for (i = 0; i < nP; i++) if (P[i].f == frame && P[i].e == e) { n = P[i].n; d = P[i].d; }
    if (!d) { int t = dc->ia_ext_ele_payload_type[e]; if (rnd() % 4 || frame == 0) { n = t == 3 ? 0 : rnd() % 3 ? rnd() % 20 : rnd() % 120; } for (i = 0; i < n; i++) r[i] = rnd() >> 7; d = r;
      if (n > 0 && t == 5) r[0] |= 0x80; if (frame == 0 && t == 5 && n < 20) n = 40; }
    if (n < 0) { wr(&p, 0, 1); continue; }
    wr(&p, 1, 1);
    if (n == (int)c->usac_ext_eleme_def_len) wr(&p, 1, 1);
    else { wr(&p, 0, 1); if (n < 255) wr(&p, n, 8); else { wr(&p, 255, 8); wr(&p, n - 253, 16); } }
    if (n && c->usac_ext_elem_pld_frag) wr(&p, 3, 2);
    for (i = 0; i < n; i++) wr(&p, d[i], 8);
  }
}
IA_ERRORCODE __real_ia_core_coder_usac_process(ia_dec_data_struct *d, VOID *h);
IA_ERRORCODE __wrap_ia_core_coder_usac_process(ia_dec_data_struct *d, VOID *h) {
  long p = 0; IA_ERRORCODE e;
  ia_bit_buf_struct *b = &d->dec_bit_buf;
  dc = &d->str_frame_data.str_audio_specific_config.str_usac_config.str_usac_dec_config;
  base = b->ptr_bit_buf_base;
  wr(&p, indep >= 0 ? indep : frame == 0 ? 1 : rnd() % 4 == 0, 1);
  exts(0, p);
  e = __real_ia_core_coder_usac_process(d, h);
  endbit = posof(b);
  return e;
}
IA_ERRORCODE __real_ia_core_coder_data(WORD32 id, ia_usac_data_struct *u, WORD32 elem, WORD32 off, ia_bit_buf_struct *b, WORD32 nr, ia_usac_decoder_config_struct *c, void *t);
IA_ERRORCODE __wrap_ia_core_coder_data(WORD32 id, ia_usac_data_struct *u, WORD32 elem, WORD32 off, ia_bit_buf_struct *b, WORD32 nr, ia_usac_decoder_config_struct *c, void *t) {
  long p = posof(b); IA_ERRORCODE e; int lpd = 0;
  int nf = u->noise_filling_config[elem];
  if (id == 0) { lpd = rnd() % 8 == 0; wr(&p, lpd, 1); if (!lpd) wr(&p, rnd() % 4 == 0, 1); }
  if (id == 1) { unsigned cw = rnd() % 3 != 0; wr(&p, 0, 2); wr(&p, rnd() % 4 == 0, 1); wr(&p, cw, 1);
    if (cw) { unsigned w = rnd() % 5 ? 0 : rnd() % 4; wr(&p, w, 2); wr(&p, rnd() % 2, 1); if (w != 2) wr(&p, 4 + rnd() % 24, 6); else { wr(&p, rnd() % 8, 4); wr(&p, rnd(), 7); } wr(&p, rnd() % 4 != 0, 1); } }
  if ((id == 0 && !lpd) || id == 2) {
    wr(&p, 70 + rnd() % 70, 8); if (nf) { wr(&p, rnd() % 8, 3); wr(&p, rnd() % 32, 5); }
    { unsigned w = rnd() % 5 ? 0 : rnd() % 4; if (id == 2) w = 0; wr(&p, w, 2); wr(&p, rnd() % 2, 1); if (w != 2) wr(&p, 3 + rnd() % 28, 6); else { wr(&p, rnd() % 10, 4); wr(&p, rnd(), 7); } } }
  e = __real_ia_core_coder_data(id, u, elem, off, b, nr, c, t);
  exts(elem + 1, posof(b));
  return e;
}
static pVOID my_malloc(UWORD32 s, UWORD32 a) { (void)a; return calloc(s + a + 4096, 1); }
static VOID my_free(pVOID p) { (void)p; }
static ia_mpeghd_api_struct api;
static int unhex(const char *h, unsigned char *o) { int n = 0; unsigned v; for (; h[0] && h[1] && sscanf(h, "%2x", &v) == 1; h += 2) o[n++] = v; return n; }
static int attempt(unsigned long long seed, int *outb, int *peak, int *rms) {
  ia_output_config *o = &api.output_config; unsigned char *ib = o->mem_info_table[IA_MEMTYPE_INPUT].mem_ptr; short *ob = o->mem_info_table[IA_MEMTYPE_OUTPUT].mem_ptr; int i, e; double s = 0;
  rs = seed * 0x9E3779B97F4A7C15ULL + 12345; for (i = 0; i < 8; i++) rnd();
  for (i = 0; i < NB; i++) ib[i] = rnd() >> 5;
  api.input_config.num_inp_bytes = NB; endbit = 0; o->num_out_bytes = 0;
  e = ia_mpegh_dec_execute(o->pv_ia_process_api_obj, &api.input_config, o);
  *outb = o->num_out_bytes; *peak = 0;
  for (i = 0; i < *outb / 2; i++) { int v = abs(ob[i]); if (v > *peak) *peak = v; s += (double)v * v; }
  *rms = *outb ? (int)sqrt(s / (*outb / 2)) : 0;
  return e;
}
int main(int argc, char **argv) {
  static unsigned char cfg[2000]; int n = unhex(argv[1], cfg), nf = atoi(argv[2]), i, t; unsigned long long seed = atoll(argv[3]); char *s;
  ia_input_config *c = &api.input_config; ia_output_config *o = &api.output_config; const char *why = "done";
  c->ui_mhas_flag = 0; c->ui_raw_flag = 1; c->ui_pcm_wd_sz = 16; c->i_preset_id = -1;
  for (s = strtok(argv[4], ","); s; s = strtok(0, ",")) { char *v = strchr(s, '='); if (!v) continue; *v++ = 0;
    if (!strcmp(s, "cicp")) c->ui_cicp_layout_idx = atoi(v); if (!strcmp(s, "effect")) c->ui_effect = atoi(v); if (!strcmp(s, "indep")) indep = atoi(v);
    if (!strcmp(s, "tl")) { c->ui_target_loudness[0] = 1; c->ui_target_loudness[1] = atoi(v); } if (!strcmp(s, "preset")) c->i_preset_id = atoi(v); }
  if (argc > 5) { FILE *f = fopen(argv[5], "r"); static char l[20000], h[20000]; while (fgets(l, sizeof l, f)) { pl *p = &P[nP++]; sscanf(l, "%d %d %s", &p->f, &p->e, h); p->d = malloc(10000); p->n = h[0] == '-' ? -1 : unhex(h, p->d); } fclose(f); }
  o->malloc_mpegh = my_malloc; o->free_mpegh = my_free;
  if ((t = ia_mpegh_dec_create(c, o))) { printf("end create %08x\n", (unsigned)t); return 0; }
  memcpy(o->mem_info_table[IA_MEMTYPE_INPUT].mem_ptr, cfg, n); c->num_inp_bytes = n;
  t = ia_mpegh_dec_init(o->pv_ia_process_api_obj, c, o);
  if (t || !o->ui_init_done) { printf("end init %08x\n", (unsigned)t); return 0; }
  printf("init ch=%d fs=%d\n", o->i_num_chan, o->i_samp_freq); fflush(stdout);
  for (frame = 0; frame < nf; frame++) {
    int ok = 0, ob, pk, rm, st, lasterr = 0, crash = 0, k, hist[3] = {0};
    for (k = 0; k < 500 && !ok; k++) {
      unsigned long long sd = seed * 1000003 + frame * 1009 + k; pid_t p = fork();
      if (!p) { int pf[1]; (void)pf; alarm(5); i = attempt(sd, &ob, &pk, &rm); if (i) { hist[0]++; _exit(1); } 
        if (endbit > 8 * (NB - 64) || endbit == 0) _exit(2); if (k < 300 && (pk > 31000 || (rm < 20 && frame > 1 && k < 150))) _exit(3); _exit(0); }
      waitpid(p, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { ok = 1; seed = seed; lasterr = attempt(sd, &ob, &pk, &rm); }
      else if (WIFSIGNALED(st)) { crash++; fprintf(stderr, "crash sig %d config %s frame %d seed %llu\n", WTERMSIG(st), argv[1], frame, sd); }
    }
    if (!ok || lasterr) { why = "stuck"; break; }
    { unsigned char *ib = o->mem_info_table[IA_MEMTYPE_INPUT].mem_ptr; int L = (endbit + 7) / 8; for (i = 0; i < L; i++) printf("%02x", ib[i]); printf(" %d %d %d %d %d\n", ob, pk, rm, k, crash); fflush(stdout); }
  }
  if (dc) { ia_signals_3d *g = &((ia_usac_config_struct *)((char *)dc - offsetof(ia_usac_config_struct, str_usac_dec_config)))->signals_3d; ia_usac_config_struct *u = (void *)((char *)dc - offsetof(ia_usac_config_struct, str_usac_dec_config));
    printf("feat sf%d", (int)u->usac_sampling_frequency); for (i = 0; i < (int)dc->num_elements; i++) { t = dc->usac_element_type[i]; if (t == 3) printf(" ext%d", dc->ia_ext_ele_payload_type[i]);
      else { ia_usac_dec_element_config_struct *e = &dc->str_usac_element_config[i]; printf(" el%d", t); if (t < 2) printf(" el%d.fb%d.nf%d.enf%d", t, e->full_band_lpd, e->noise_filling, e->enhanced_noise_filling); if (t == 1) printf(" lpdst%d", e->lpd_stereo_index);
        if (t < 2 && e->enhanced_noise_filling) printf(" igf%d%d%d%d", e->str_usac_ele_igf_init_config.igf_use_enf, e->str_usac_ele_igf_init_config.igf_use_high_resolution, e->str_usac_ele_igf_init_config.igf_use_whitening, e->str_usac_ele_igf_init_config.igf_after_tns_synth); } }
    for (i = 0; i < (int)g->num_sig_group; i++) printf(" grp%d", g->group_type[i]);
    for (i = 0; i < (int)dc->num_config_extensions; i++) printf(" cfgx%d", dc->usac_cfg_ext_info_type[i]);
    printf(" fc%d nel%d lay%d prof%d rdc%d\n", g->format_converter_enable, (int)dc->num_elements > 3 ? 4 : (int)dc->num_elements, ((ia_audio_specific_config_struct *)((char *)u - offsetof(ia_audio_specific_config_struct, str_usac_config)))->ref_spk_layout.spk_layout_type, dc->mpegh_profile_lvl, u->receiver_delay_compensation); }
  printf("end %s\n", why); return 0;
}
