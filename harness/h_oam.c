/* Object metadata frames.
 * oam N UNI PRI FLEN SLOT:HEX ...          enh N DIF CDIF CES ONLY DIV IND:HEX ...   (ONLY, DIV: strings of 0 and 1) */
#include "h_common.h"
#include <math.h>
#include "impd_drc_common.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impd_drc_struct.h"
#include "impeghd_intrinsics_flt.h"
#include "ia_core_coder_cnst.h"
#include "impeghd_hoa_common_values.h"
#include "impeghd_hoa_matrix_struct.h"
#include "impeghd_hoa_matrix.h"
#include "ia_core_coder_config.h"
#include "impeghd_oam_dec_defines.h"
#include "impeghd_oam_dec_struct_def.h"
#include "impeghd_oam_dec.h"
static void Q(double x, double scale) { V(lrint(x * scale)); }
static void head(int e, IA_ERRORCODE err, ia_bit_buf_struct *b, int first) {
  fprintf(H_out, "%s{\"jmp\":%d,\"code\":\"%08X\",\"pos\":%d,\"o\":[", first ? "" : ",", e != 0, (unsigned)err, ia_core_coder_no_bits_read(b));
  H_n = 0;
}
static void run(char *kind, char *args) {
  static ia_oam_dec_state_struct o; static ia_oam_dec_config_struct oc;
  static ia_enh_obj_md_frame_str m; static ia_enh_oam_config_struct mc;
  char *t = strtok(args, " \n"); int n = atoi(t), first = 1, i, k; int oam = !strcmp(kind, "oam");
  int a1 = atoi(strtok(0, " \n")), a2 = atoi(strtok(0, " \n")), a3 = atoi(strtok(0, " \n"));
  memset(&o, 0, sizeof o); memset(&oc, 0, sizeof oc); memset(&m, 0, sizeof m); memset(&mc, 0, sizeof mc);
  if (oam) { o.p_obj_md_cfg = &oc; o.num_objects = n; oc.uniform_spread_present = a1; oc.dyn_obj_priority_present = a2; oc.frame_length = a3; oc.cc_frame_length = 1024; oc.ld_md_coding_present = 1; }
  else {
    char *only = strtok(0, " \n"), *div = strtok(0, " \n");
    m.p_enh_obj_md_cfg = &mc; mc.has_diffuseness = a1; mc.has_common_group_diffuseness = a2; mc.has_excluded_sectors = 1; mc.has_common_group_excluded_sectors = a3;
    for (i = 0; i < n; i++) { mc.use_only_predefined_sectors[i] = only[i] == '1'; mc.has_divergence[i] = div[i] == '1'; }
  }
  fprintf(H_out, ",\"res\":[");
  while ((t = strtok(0, " \n"))) {
    static ia_bit_buf_struct b; volatile int e = 0; volatile IA_ERRORCODE err = 0; int len, slot = atoi(t); unsigned char *p = H_unhex(strchr(t, ':') + 1, &len);
    H_bits(&b, p, len);
    if (oam) {
      o.sub_frame_number = slot;
      if ((e = setjmp(H_jmp)) == 0) err = impeghd_obj_md_dec(&o, &b);
      head(e, err, &b, first);
      if (!e && !err) for (i = (slot - 1) * n; i < slot * n; i++) {
        V(o.azimuth[i]); V(o.elevation[i]); V(o.radius[i]); V(o.gain[i]); V(o.spread_width[i]);
        if (!a1) { V(o.spread_height[i]); V(o.spread_depth[i]); }
        if (a2) V(o.dyn_obj_priority[i]);
        Q(o.azimuth_descaled[i], 2); Q(o.elevation_descaled[i], 1); Q(o.radius_descaled[i], 10000); Q(o.gain_descaled[i], 3393); Q(o.spread_width_descaled[i], 2);
        if (!a1) { Q(o.spread_height_descaled[i], 1); Q(o.spread_depth_descaled[i], 10000); }
        if (a2) Q(o.dyn_obj_priority_descaled[i], 1);
      }
    } else {
      if ((e = setjmp(H_jmp)) == 0) err = impeghd_enh_obj_md_frame(&m, &b, n, slot);
      head(e, err, &b, first);
#define SECTORS(I) { V(m.num_exclusion_sectors[I]); for (k = 0; k < m.num_exclusion_sectors[I]; k++) { \
      if (mc.use_only_predefined_sectors[I]) { V(2); V(m.exclude_sector_index[I][k]); } \
      else if (m.use_predefined_sector[I][k]) { V(1); V(m.exclude_sector_index[I][k]); } \
      else { V(0); Q(m.exclude_sector_min_az[I][k], 1); Q(m.exclude_sector_max_az[I][k], 1); Q(m.exclude_sector_min_ele[I][k], 1); Q(m.exclude_sector_max_ele[I][k], 1); } } }
      if (!e && !err) {
        if (a3) SECTORS(0)
        if (a1 && a2) Q(m.diffuseness[0], 127);
        for (i = 0; i < n; i++) {
          V(m.closest_spkr_playout[i]); if (mc.has_divergence[i]) Q(m.divergence[i], 127);
          if (a1 && !a2) Q(m.diffuseness[i], 127);
          if (!a3) SECTORS(i)
        }
      }
    }
    fprintf(H_out, "]}"); first = 0; free(p);
    if (e || err) break;
  }
  fprintf(H_out, "]");
}
