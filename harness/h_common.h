/* Common part of the module harnesses: reads one command per line, writes one ndjson record per command.
 * Line:  ID KIND PARAMS... HEX        (the harness's run() handles KIND)                                        */
#ifndef H_COMMON_H
#define H_COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
extern int ftruncate(int, long); extern unsigned alarm(unsigned);
#include <impeghd_type_def.h>
#include "impeghd_error_codes.h"
#include "ia_core_coder_bitbuffer.h"

static FILE *H_out;
static int H_n;                       /* values written in the current list */
static sigjmp_buf H_crash;
static jmp_buf H_jmp;
static void H_sig(int s) { siglongjmp(H_crash, s); }
static void V(long v) { fprintf(H_out, "%s%ld", H_n++ ? "," : "", v); }
/* coded field of n bits: representation-independent (masked to the coded width) */
static void M(long v, int n) { V(n >= 31 ? (v & 0x7fffffff) : (v & ((1L << n) - 1))); }
static void HI16(unsigned v) { V((v >> 16) & 0xffff); V(v & 0xffff); }
/* micro-units of a float, split so that TLC's 32-bit integers hold them; q = units per 1.0 */
static unsigned char *H_unhex(const char *h, int *n) {
  size_t l = strlen(h), i; unsigned char *p;
  while (l && (h[l - 1] == '\n' || h[l - 1] == ' ')) l--;
  if (l == 1 && h[0] == '-') l = 0;
  l /= 2;
  p = (unsigned char *)malloc(l + 4096); memset(p, 0, l + 4096);
  for (i = 0; i < l; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); p[i] = (unsigned char)v; }
  *n = (int)l; return p;
}
static void H_bits(ia_bit_buf_struct *b, unsigned char *p, int n) {
  memset(b, 0, sizeof *b);
  ia_core_coder_create_init_bit_buf(b, p, n);
  b->xmpeghd_jmp_buf = &H_jmp;
}
static void run(char *kind, char *args);     /* prints  "key":value,...  of the record */
static char H_line[1 << 22];
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r"); int s; long start = argc > 3 ? atol(argv[3]) : 0, i = 0;
  if (!f) return 98;
  H_out = fopen(argv[2], start ? "a" : "w");
  signal(SIGSEGV, H_sig); signal(SIGBUS, H_sig); signal(SIGFPE, H_sig); signal(SIGABRT, H_sig);
  while (fgets(H_line, sizeof H_line, f)) {
    char id[64], kind[64]; int off = 0; long mark;
    if (i++ < start) continue;
    if (sscanf(H_line, "%63s %63s %n", id, kind, &off) < 2) continue;
    mark = ftell(H_out);
    fprintf(H_out, "{\"id\":\"%s\",\"k\":\"%s\"", id, kind); fflush(H_out);
    s = sigsetjmp(H_crash, 1);
    if (s == 0) { alarm(20); run(kind, H_line + off); alarm(0); fprintf(H_out, "}\n"); fflush(H_out); }
    else { /* crashed: rewrite the record; state may be damaged, so stop; the driver resumes in a new process */
      fflush(H_out); fseek(H_out, mark, SEEK_SET); if (ftruncate(fileno(H_out), mark)) {}
      fprintf(H_out, "{\"id\":\"%s\",\"k\":\"%s\",\"crash\":%d}\n", id, kind, s); fclose(H_out); return 77; }
  }
  fclose(H_out); return 0;
}
#endif
