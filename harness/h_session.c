/* Session harness: drives the public decoder API from a script and records one ndjson event per call.
 *
 *   stream NAME PATH              load a byte stream
 *   create K key=val ...          K: instance number 0..15
 *   set K key=val ...             change input configuration / harness options of an instance
 *   step K [MAXBYTES]             one init (until init is done) or execute call on at most MAXBYTES of the rest
 *   init K [MAXBYTES] | exec K [MAXBYTES]    force the call
 *   run K [MAXCALLS] [MAXBYTES]   step until the stream is exhausted (test-bench policy)
 *   frame K N                     step with exactly N bytes available next (raw/AU-wise transport)
 *   seek K POS                    move the read position
 *   patch K OFF HEX               overwrite bytes of the instance's private copy of the stream
 *   delete K
 *   pcm K PATH                    append PCM of the instance to PATH
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned long long uint64_t; typedef unsigned int uint32_t; typedef unsigned long uintptr_t;
#include <impeghd_type_def.h>
#include "impeghd_memory_standards.h"
#include "impeghd_api.h"
#include "impeghd_error_codes.h"

#define NINST 16
#define NBLK 64
#define CANARY 256
typedef struct { unsigned char *raw; unsigned char *ptr; unsigned size, align; int freed; } blk;
typedef struct {
  int used, created, created_ok, deleted;
  ia_mpeghd_api_struct *api;
  unsigned char *data; long len, pos;
  int fill, failat, off, pad; 
  blk b[NBLK]; int nb; int nreq; int badfree; int nfree;
  FILE *pcm;
  int init_done;
  unsigned char *bufs[16];
  long calls;
} inst;
static inst I[NINST];
static inst *cur;
static FILE *out;
typedef struct { char name[64]; unsigned char *d; long n; } strm;
static strm S[256]; static int nS;

static uint64_t fnv(const void *p, size_t n) {
  const unsigned char *c = p; uint64_t h = 1469598103934665603ULL;
  while (n--) { h ^= *c++; h *= 1099511628211ULL; }
  return h;
}
static pVOID my_malloc(UWORD32 size, UWORD32 align) {
  inst *k = cur;
  int idx = k->nreq++;
  if (k->failat == idx || k->nb >= NBLK) return NULL;
  blk *b = &k->b[k->nb++];
  size_t n = (size_t)size + align + 2 * CANARY + 64 + k->off;
  b->raw = malloc(n);
  memset(b->raw, 0xC5, n);
  b->ptr = (unsigned char *)(((uintptr_t)b->raw + CANARY + 15) & ~(uintptr_t)15) + k->off;
  b->size = size; b->align = align; b->freed = 0;
  if (k->fill >= 0) memset(b->ptr, k->fill, (size_t)size + align);
  else { uint32_t s = 0x9E3779B9u * (uint32_t)(-k->fill) + (uint32_t)idx; size_t i;
    for (i = 0; i < (size_t)size + align; i++) { s = s * 1664525u + 1013904223u; b->ptr[i] = s >> 24; } }
  return b->ptr;
}
static VOID my_free(pVOID p) {
  inst *k = cur; int i;
  for (i = 0; i < k->nb; i++)
    if (k->b[i].ptr == p) { if (k->b[i].freed) k->badfree++; else { k->b[i].freed = 1; k->nfree++; } return; }
  k->badfree++;
}
static int canary_bad(inst *k) {
  int i, bad = 0; 
  for (i = 0; i < k->nb; i++) {
    blk *b = &k->b[i]; unsigned char *p;
    for (p = b->raw; p < b->ptr; p++) if (*p != 0xC5) bad = 1;
    for (p = b->ptr + b->size + b->align; p < b->ptr + b->size + b->align + CANARY; p++) if (*p != 0xC5) bad = 1;
  }
  return bad;
}
static int live(inst *k) { int i, n = 0; for (i = 0; i < k->nb; i++) n += !k->b[i].freed; return n; }
static unsigned char *unhex(const char *h, int *n) {   /* or @FILE */
  if (*h == '@') {
    FILE *f = fopen(h + 1, "rb"); unsigned char *p; long z; fseek(f, 0, SEEK_END); z = ftell(f); rewind(f);
    p = calloc(z + 64, 1); *n = (int)fread(p, 1, z, f); fclose(f); return p;
  }
  size_t l = strlen(h) / 2, i; unsigned char *p = calloc(l + 64, 1);
  for (i = 0; i < l; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); p[i] = v; }
  *n = (int)l; return p;
}
static void setopt(inst *k, const char *key, const char *v) {
  ia_input_config *c = &k->api->input_config; int n;
  int iv = (int)strtol(v, 0, 0);
  if (!strcmp(key, "pcm")) c->ui_pcm_wd_sz = iv;
  else if (!strcmp(key, "mhas")) c->ui_mhas_flag = iv;
  else if (!strcmp(key, "raw")) c->ui_raw_flag = iv;
  else if (!strcmp(key, "cicp")) c->ui_cicp_layout_idx = iv;
  else if (!strcmp(key, "preset")) c->i_preset_id = iv;
  else if (!strcmp(key, "effect")) c->ui_effect = iv;
  else if (!strcmp(key, "tl")) { c->ui_target_loudness[0] = 1; c->ui_target_loudness[1] = iv; }
  else if (!strcmp(key, "ofs")) { c->enable_resamp = 1; c->out_samp_freq = iv; }
  else if (!strcmp(key, "ext")) { c->extrn_rend_flag = iv; if (iv) {
      c->ptr_ext_ren_ch_data_buf = calloc(768 + 4096, 1); c->ptr_ext_ren_oam_data_buf = calloc(768 + 4096, 1);
      c->ptr_ext_ren_hoa_data_buf = calloc(768 + 4096, 1); c->ptr_ext_ren_pcm_buf = calloc(1024 * 32 + 4096, 4); } }
  else if (!strcmp(key, "ei")) { c->ptr_ei_buf = unhex(v, &n); c->ei_info_size = n; c->ei_info_flag = 1; }
  else if (!strcmp(key, "lsi")) { c->ptr_ls_buf = unhex(v, &n); c->lsi_info_size = n; c->lsi_info_flag = 1; }
  else if (!strcmp(key, "sd")) { c->ptr_sd_buf = unhex(v, &n); c->sd_info_size = n; c->sd_info_flag = 1; }
  else if (!strcmp(key, "brir")) { c->ptr_brir_buf = unhex(v, &n); c->binaural_data_len = n; c->binaural_flag = 1; }
  else if (!strcmp(key, "maeg")) { c->ptr_maeg_buf = unhex(v, &n); c->maeg_len = n; c->maeg_flag = 1; }
  else if (!strcmp(key, "maes")) { c->ptr_maes_buf = unhex(v, &n); c->maes_len = n; c->maes_flag = 1; }
  else if (!strcmp(key, "maep")) { c->ptr_maep_buf = unhex(v, &n); c->maep_len = n; c->maep_flag = 1; }
  else if (!strcmp(key, "maei")) { c->ptr_maei_buf = unhex(v, &n); c->maei_len = n; c->maei_flag = 1; }
  else if (!strcmp(key, "fill")) k->fill = iv;
  else if (!strcmp(key, "failat")) k->failat = iv;
  else if (!strcmp(key, "off")) k->off = iv;
  else if (!strcmp(key, "pad")) k->pad = iv;
  else if (!strcmp(key, "stream")) { int i; for (i = 0; i < nS; i++) if (!strcmp(S[i].name, v)) {
      k->data = malloc(S[i].n + 16); memcpy(k->data, S[i].d, S[i].n); k->len = S[i].n; k->pos = 0; return; }
      fprintf(stderr, "no stream %s\n", v); exit(99); }
  else { fprintf(stderr, "bad key %s\n", key); exit(99); }
}
static void opts(inst *k, char *s) {
  char *t; for (t = strtok(s, " \n"); t; t = strtok(NULL, " \n")) {
    char *e = strchr(t, '='); if (!e) { fprintf(stderr, "bad opt %s\n", t); exit(99); } *e = 0; setopt(k, t, e + 1); }
}
static void do_create(int n, char *o) {
  inst *k = &I[n]; IA_ERRORCODE e; int i;
  FILE *pcm = k->pcm;
  memset(k, 0, sizeof(*k)); k->used = 1; k->failat = -1; k->pad = 0; k->pcm = pcm;
  k->api = calloc(1, sizeof(*k->api));
  ia_input_config *c = &k->api->input_config;
  c->ui_mhas_flag = 1; c->ui_pcm_wd_sz = 16; c->ui_cicp_layout_idx = 0; c->ui_effect = 0; c->i_preset_id = -1;
  k->api->output_config.malloc_mpegh = my_malloc; k->api->output_config.free_mpegh = my_free;
  opts(k, o);
  cur = k;
  e = ia_mpegh_dec_create(&k->api->input_config, &k->api->output_config);
  k->created = 1; k->created_ok = (e == 0);
  fprintf(out, "{\"e\":\"create\",\"k\":%d,\"err\":\"%08x\",\"nreq\":%d,\"nalloc\":%d,\"live\":%d,\"canary\":%d,\"fail\":%d,"
          "\"pcm\":%d,\"inbuf\":%d,\"sizes\":[", n, (unsigned)e, k->nreq, k->nb, live(k), canary_bad(k), k->failat,
          k->api->output_config.i_pcm_wd_sz, (int)k->api->output_config.ui_inp_buf_size);
  for (i = 0; i < k->nb; i++) fprintf(out, "%s%u", i ? "," : "", k->b[i].size);
  fprintf(out, "]}\n"); fflush(out);
}
static int do_call(int n, int mode /*0 auto 1 init 2 exec*/, long maxb) {
  inst *k = &I[n]; ia_input_config *c = &k->api->input_config; ia_output_config *o = &k->api->output_config;
  unsigned char *ib = o->mem_info_table[IA_MEMTYPE_INPUT].mem_ptr, *ob = o->mem_info_table[IA_MEMTYPE_OUTPUT].mem_ptr;
  long av = k->len - k->pos; int i; IA_ERRORCODE e; int isinit; int nreq0, nfree0;
  if (maxb >= 0 && av > maxb) av = maxb;
  if (av > (long)o->ui_inp_buf_size) av = o->ui_inp_buf_size;
  if (av < 0) av = 0;
  if (k->pad >= 0) memset(ib, k->pad, o->ui_inp_buf_size);
  memcpy(ib, k->data + k->pos, av);
  c->num_inp_bytes = (int)av;
  isinit = mode ? mode == 1 : !k->init_done;
  cur = k; nreq0 = k->nreq; nfree0 = k->nfree;
  o->num_out_bytes = isinit ? 0 : o->num_out_bytes;
  fprintf(out, "{\"e\":\"%s\",\"k\":%d,\"pos\":%ld,\"avail\":%ld", isinit ? "init" : "exec", n, k->pos, av); fflush(out);
  if (isinit) e = ia_mpegh_dec_init(o->pv_ia_process_api_obj, c, o);
  else e = ia_mpegh_dec_execute(o->pv_ia_process_api_obj, c, o);
  k->calls++;
  int ob_n = isinit ? 0 : o->num_out_bytes;
  long osz = o->mem_info_table[IA_MEMTYPE_OUTPUT].ui_size;
  int same = !memcmp(ib, k->data + k->pos, av);
  fprintf(out, ",\"err\":\"%08x\",\"cons\":%d,\"done\":%d,\"out\":%d,\"osz\":%ld,\"ch\":%d,\"fs\":%d,\"pcm\":%d,\"npre\":%d,"
          "\"eff\":%d,\"tl\":%d,\"ln\":%d,\"cicp\":%d,\"nspk\":%d,\"layout\":%d,\"bin\":%d,\"mem\":%d,\"canary\":%d,\"inp_ok\":%d",
          (unsigned)e, o->i_bytes_consumed, (int)o->ui_init_done, ob_n, osz, o->i_num_chan, o->i_samp_freq, o->i_pcm_wd_sz,
          o->num_preroll, o->i_drc_effect, o->i_target_loudness, o->i_loud_norm, o->cicp_index, o->num_speakers,
          o->spk_layout, o->is_binaural_rendering, (k->nreq - nreq0) + (k->nfree - nfree0), canary_bad(k), same);
  if (ob_n < 0 || ob_n > osz) { fprintf(out, ",\"dig\":\"bad\""); }
  else {
    fprintf(out, ",\"dig\":\"%016llx\"", (unsigned long long)fnv(ob, ob_n));
    if (k->pcm && ob_n) fwrite(ob, 1, ob_n, k->pcm);
  }
  if (c->extrn_rend_flag) {
    fprintf(out, ",\"xo\":%d,\"xh\":%d,\"xc\":%d,\"xol\":%d,\"xhl\":%d,\"xcl\":%d,\"xpl\":%d", o->oam_data_present, o->hoa_data_present,
      o->ch_data_present, o->oam_md_payload_length, o->hoa_md_payload_length, o->ch_md_payload_length, o->pcm_payload_length);
    fprintf(out, ",\"xobuf\":\""); if (o->oam_data_present) for (i = 0; i < o->oam_md_payload_length && i < 768; i++) fprintf(out, "%02x", c->ptr_ext_ren_oam_data_buf[i]);
    fprintf(out, "\",\"xcbuf\":\""); if (o->ch_data_present) for (i = 0; i < o->ch_md_payload_length && i < 768; i++) fprintf(out, "%02x", c->ptr_ext_ren_ch_data_buf[i]);
    fprintf(out, "\",\"xhbuf\":\""); if (o->hoa_data_present) for (i = 0; i < o->hoa_md_payload_length && i < 768; i++) fprintf(out, "%02x", c->ptr_ext_ren_hoa_data_buf[i]);
    fprintf(out, "\",\"xpdig\":\"%016llx\"", (unsigned long long)fnv(c->ptr_ext_ren_pcm_buf, (o->pcm_payload_length > 0 && o->pcm_payload_length <= 1024*32*4) ? o->pcm_payload_length : 0));
  }
  if (o->ui_init_done && isinit) {
    fprintf(out, ",\"az\":["); for (i = 0; i < o->num_speakers && i < 24; i++) fprintf(out, "%s%d", i ? "," : "", o->azimuth[i]);
    fprintf(out, "],\"el\":["); for (i = 0; i < o->num_speakers && i < 24; i++) fprintf(out, "%s%d", i ? "," : "", o->elevation[i]);
    fprintf(out, "],\"lfe\":["); for (i = 0; i < o->num_speakers && i < 24; i++) fprintf(out, "%s%d", i ? "," : "", o->is_lfe[i]);
    fprintf(out, "]");
  }
  fprintf(out, "}\n"); fflush(out);
  if (isinit && o->ui_init_done) k->init_done = 1;
  { long adv = o->i_bytes_consumed; if (adv < 0) adv = 0; if (adv > av) adv = av; k->pos += adv; }
  return (int)e;
}
static void do_delete(int n) {
  inst *k = &I[n]; IA_ERRORCODE e; cur = k;
  e = ia_mpegh_dec_delete(&k->api->output_config);
  fprintf(out, "{\"e\":\"delete\",\"k\":%d,\"err\":\"%08x\",\"nalloc\":%d,\"live\":%d,\"nfree\":%d,\"badfree\":%d,\"canary\":%d}\n",
          n, (unsigned)e, k->nb, live(k), k->nfree, k->badfree, canary_bad(k)); fflush(out);
  { int i; for (i = 0; i < k->nb; i++) free(k->b[i].raw); k->nb = 0; }
  k->deleted = 1; if (k->pcm) fclose(k->pcm), k->pcm = NULL;
}
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r"); static char line[1 << 22]; 
  if (!f) return 98;
  out = argc > 2 ? fopen(argv[2], "w") : stdout;
  while (fgets(line, sizeof line, f)) {
    char cmd[32] = {0}; int k = 0, off = 0; long a = -1, b = -1;
    if (line[0] == '#' || line[0] == '\n') continue;
    sscanf(line, "%31s%n", cmd, &off);
    if (!strcmp(cmd, "stream")) { char nm[64], p[1024]; FILE *g; strm *s = &S[nS++];
      sscanf(line + off, "%63s %1023s", nm, p); strcpy(s->name, nm); g = fopen(p, "rb"); if (!g) { perror(p); return 97; }
      fseek(g, 0, SEEK_END); s->n = ftell(g); rewind(g); s->d = malloc(s->n + 1); if (fread(s->d, 1, s->n, g) != (size_t)s->n) return 96; fclose(g); continue; }
    { int o2 = 0; sscanf(line + off, "%d%n", &k, &o2); off += o2; }
    if (!strcmp(cmd, "create")) do_create(k, line + off);
    else if (!strcmp(cmd, "set")) opts(&I[k], line + off);
    else if (!strcmp(cmd, "step")) { sscanf(line + off, "%ld", &a); do_call(k, 0, a); }
    else if (!strcmp(cmd, "init")) { sscanf(line + off, "%ld", &a); do_call(k, 1, a); }
    else if (!strcmp(cmd, "exec")) { sscanf(line + off, "%ld", &a); do_call(k, 2, a); }
    else if (!strcmp(cmd, "run")) { long c = 0; int z = 0; sscanf(line + off, "%ld %ld", &a, &b);
      while (I[k].pos < I[k].len && (a < 0 || c < a)) { int e; long before = I[k].pos; e = do_call(k, 0, b); c++;
        if (I[k].pos == before) { if (++z > 3) break; } else z = 0;
        if (e == IA_MPEGH_DEC_INIT_NONFATAL_INSUFFICIENT_EI_BYTES || e == IA_MPEGH_DEC_INIT_NONFATAL_INSUFFICIENT_LSI_BYTES ||
            e == IA_MPEGH_DEC_INIT_NONFATAL_INSUFFICIENT_BRIR_BYTES || e == IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_SD_BYTES ||
            e == IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_HOA_BYTES || e == IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_METADATA_BYTES) break; } }
    else if (!strcmp(cmd, "seek")) { sscanf(line + off, "%ld", &a); I[k].pos = a; }
    else if (!strcmp(cmd, "patch")) { char hx[8192]; int m; unsigned char *p; sscanf(line + off, "%ld %8191s", &a, hx); p = unhex(hx, &m);
      memcpy(I[k].data + a, p, m); free(p); }
    else if (!strcmp(cmd, "delete")) do_delete(k);
    else if (!strcmp(cmd, "pcm")) { char p[1024]; sscanf(line + off, "%1023s", p); I[k].pcm = fopen(p, "wb"); }
    else { fprintf(stderr, "bad cmd %s\n", cmd); return 95; }
  }
  fprintf(out, "{\"e\":\"end\"}\n"); fclose(out);
  return 0;
}
