/* bit reader / writer: one record per operation sequence.
 * ops HEX op,op,...      op: rN read, sN show, kN skip, w (32-bit read), eA.B.C escape value
 * wr  SIZE op,op,...     op: bV.N write, eV.A.B.C escape write; the buffer is printed, then read back        */
#include "h_common.h"
VOID ia_core_coder_read_escape_value(ia_bit_buf_struct *, UWORD32 *, UWORD32, UWORD32, UWORD32);
static void run(char *kind, char *args) {
  static char hex[1 << 20], ops[1 << 20]; int n; unsigned char *p; ia_bit_buf_struct b; char *t; volatile int k = 0;
  sscanf(args, "%s %s", hex, ops);
  if (!strcmp(kind, "ops")) {
    p = H_unhex(hex, &n);
    H_bits(&b, p, n);
    fprintf(H_out, ",\"ev\":[");
    for (t = strtok(ops, ","); t; t = strtok(NULL, ",")) {
      volatile unsigned v = 0; int a = 0, bb = 0, c = 0; volatile int e = 0; int before = b.cnt_bits;
      fprintf(H_out, "%s", k++ ? "," : "");
      if ((e = setjmp(H_jmp)) == 0) switch (t[0]) {
        case 'r': v = (unsigned)ia_core_coder_read_bits_buf(&b, atoi(t + 1)); break;
        case 's': v = (unsigned)ia_core_coder_show_bits_buf(&b, atoi(t + 1)); break;
        case 'k': ia_core_coder_skip_bits_buf(&b, atoi(t + 1)); break;
        case 'w': v = ia_core_coder_read_bits_buf_32(&b); break;
        case 'e': { UWORD32 x = 0; sscanf(t + 1, "%d.%d.%d", &a, &bb, &c); ia_core_coder_read_escape_value(&b, &x, a, bb, c); v = x; } break;
      }
      fprintf(H_out, "[%u,%u,%d,%d]", (v >> 16) & 0xffff, v & 0xffff, ia_core_coder_no_bits_read(&b), e != 0);
      (void)before;
    }
    fprintf(H_out, "]");
    free(p);
  } else {
    int size = atoi(hex), i; ia_write_bit_buf_struct w; memset(&w, 0, sizeof w);
    p = malloc(size + 64); memset(p, 0x5a, size + 64);
    impeghd_create_write_bit_buffer(&w, p, size, 1);
    fprintf(H_out, ",\"ret\":[");
    for (t = strtok(ops, ","); t; t = strtok(NULL, ",")) {
      unsigned v; int a = 0, bb = 0, c = 0, r;
      if (t[0] == 'b') { sscanf(t + 1, "%u.%d", &v, &a); r = impeghd_write_bits_buf(&w, v, a); }
      else { sscanf(t + 1, "%u.%d.%d.%d", &v, &a, &bb, &c); r = impeghd_write_escape_value(&w, v, a, bb, c); }
      fprintf(H_out, "%s%d", k++ ? "," : "", r);
    }
    fprintf(H_out, "],\"cnt\":%d,\"buf\":[", w.cnt_bits);
    for (i = 0; i < size; i++) fprintf(H_out, "%s%d", i ? "," : "", p[i]);
    for (i = size, k = 0; i < size + 64; i++) k |= p[i] != 0x5a;
    fprintf(H_out, "],\"over\":%d", k);
    free(p);
  }
}
