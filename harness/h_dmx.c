/* Downmix matrices.   mtx IN OUT L.L.L... DATA    IN: index of the stream's layout or 0, L: its loudspeakers, OUT: output layout */
#include "h_common.h"
#include <math.h>
#include "ia_core_coder_cnst.h"
#include "impeghd_hoa_common_values.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impeghd_hoa_matrix_struct.h"
#include "impeghd_hoa_matrix.h"
#include "impd_drc_common.h"
#include "impd_drc_struct.h"
#include "ia_core_coder_config.h"
#include "impeghd_cicp_defines.h"
#include "impeghd_cicp_struct_def.h"
#include "impeghd_cicp_2_geometry_rom.h"
#include "impeghd_format_conv_defines.h"
#include "impeghd_format_conv_rom.h"
#include "impeghd_format_conv_data.h"
#include "impeghd_dmx_mtx_data.h"
static ia_format_conv_param F;
static struct { ia_dmx_mtx_scr_t s; char more[1 << 17]; } S;
static ia_dmx_mtx_params P;
static ia_speaker_config_3d K;
static long n20(double v) { return lrint(20 * v); }
static double curve(ia_eq_params *q, double f) {
  double v = pow(10, q->global_gain / 20); unsigned i;
  for (i = 0; i < q->num_pk_filt; i++) {
    ia_eq_pk_filt *k = &q->pk_filt[i];
    double g = pow(10, fabs(k->gain) / 10), c = (double)k->freq * k->freq, a = f * f, Q = (double)k->q_fac * k->q_fac;
    double d = a * a + (1 / Q - 2) * a * c + c * c, n = a * a + (g / Q - 2) * a * c + c * c;
    v *= sqrt(k->gain < 0 ? d / n : n / d);
  }
  return v;
}
static void run(char *kind, char *args) {
  ia_bit_buf_struct b; volatile int e = 0; volatile IA_ERRORCODE err = 0; int len, i, j, k, n = 0; unsigned char *p; char *t, *l; unsigned u;
  int ci = atoi(strtok(args, " \n")), co = atoi(strtok(0, " \n"));
  l = strtok(0, " \n"); t = strtok(0, " \n");
  memset(&F, 0, sizeof F); memset(&S, 0x5c, sizeof S); memset(&P, 0, sizeof P); memset(&K, 0, sizeof K);
  K.spk_layout_type = ci ? 0 : 1; K.cicp_spk_layout_idx = ci;
  for (;; l++) { K.cicp_spk_idx[n++] = strtol(l, &l, 10); if (*l != '.') break; }
  K.num_speakers = n;
  P.num_in_ch = n; P.num_out_ch = impgehd_cicp_get_num_ls[co]; P.cicp_out_idx = co; P.cicp_in_idx = ci; P.samp_freq = 48000; P.spk_layout = &K;
  p = H_unhex(t ? t : "", &len); H_bits(&b, p, len);
  if ((e = setjmp(H_jmp)) == 0) err = impeghd_decode_downmix_matrix(&F, &P, &b, (pWORD8)&S);
  fprintf(H_out, ",\"jmp\":%d,\"code\":\"%08X\",\"pos\":%d,\"o\":[", e != 0, (unsigned)err, ia_core_coder_no_bits_read(&b)); H_n = 0;
  if (!e && !err) {
    int eq = len ? p[0] >> 7 : 0, no = P.num_out_ch, in_c = 0, out_c = 0;
    V(eq);
    if (eq) {
      V(S.s.eq_conf.num_eq);
      for (u = 0; u < S.s.eq_conf.num_eq; u++) {
        ia_eq_params *q = &S.s.eq_conf.eq_params[u]; unsigned f;
        V(q->num_pk_filt);
        for (f = 0; f < q->num_pk_filt; f++) { V(lrint(q->pk_filt[f].freq)); V(n20(q->pk_filt[f].q_fac)); V(n20(q->pk_filt[f].gain)); }
        V(n20(q->global_gain));
      }
      for (i = 0; i < n; i++) V(S.s.eq_conf.eq_map[i]);
    }
    V(S.s.gain_coder.precision_level); V(S.s.gain_coder.max_gain); V(S.s.gain_coder.min_gain);
    for (i = 0; i < n; i++) in_c += S.s.inp_spk_conf[i].pair_type != DMX_SPK_NONE;
    for (i = 0; i < no; i++) out_c += S.s.out_spk_conf[i].pair_type != DMX_SPK_NONE;
    for (i = 0; i < out_c; i++) V(S.s.is_seperable[i]);
    for (i = 0; i < out_c; i++) V(S.s.is_symmetric[i]);
    for (i = 0; i < in_c; i++) for (j = 0; j < out_c; j++) V(S.s.comp_dmx_mtx[i][j]);
    for (i = 0; i < n; i++) for (j = 0; j < no; j++) V(P.dmx_mtx[i * no + j] == 0 ? -99999 : lrint(160 * log10(P.dmx_mtx[i * no + j])));
    /* what each input's gains in the frequency bands add to the matrix: off by more than a thousandth anywhere? */
    for (i = 0; i < n; i++) {
      int bad = 0, m = eq ? S.s.eq_conf.eq_map[i] : 0;
      for (j = 0; j < no; j++) for (k = 0; k < FC_BANDS; k++) {
        double want = P.dmx_mtx[i * no + j], got = F.downmix_mat_freq[k][i][j]; int erb = 0;
        while (erb < IA_DMX_NUM_ERB_BANDS - 1 && ia_erb_freq_idx_256_58[erb] <= k) erb++;
        if (m) want *= curve(&S.s.eq_conf.eq_params[m - 1], ia_nrm_stft_erb_58[erb] * 24000.);
        if (!(fabs(got - want) <= 1e-3 * fabs(want) + 1e-9)) bad = 1;
      }
      V(bad);
    }
  }
  fprintf(H_out, "]"); free(p);
}
