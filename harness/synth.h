/* Stream synthesiser: writes MPEG-H 3D audio configurations and frames bit by bit (from the standard's syntax and
 * gold.h's normative tables, not from the tree under test), so that a check can enumerate streams. */
#ifndef VF_SYNTH_H
#define VF_SYNTH_H
#include "gold.h"
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

/* ---- bits ---- */
typedef struct
{
  uint8_t *d;
  long nbits, cap; /* cap in bytes */
} bw_t;
static void bw_init(bw_t *b)
{
  b->cap = 4096;
  b->d = (uint8_t *)calloc(1, b->cap);
  b->nbits = 0;
}
static void bw_free(bw_t *b)
{
  free(b->d);
  b->d = 0;
}
static void bw_reset(bw_t *b)
{
  memset(b->d, 0, (b->nbits + 7) / 8);
  b->nbits = 0;
}
static void bw_bit(bw_t *b, int v)
{
  if (b->nbits / 8 + 8 > b->cap)
  {
    b->d = (uint8_t *)realloc(b->d, b->cap * 2);
    memset(b->d + b->cap, 0, b->cap);
    b->cap *= 2;
  }
  if (v)
    b->d[b->nbits >> 3] |= 0x80 >> (b->nbits & 7);
  b->nbits++;
}
/* Every field written is counted; one of them can be given another value and be followed by bits of no meaning. */
static struct
{
  long n, at; /* fields so far; the field to change (from 1), 0: none */
  int how, junk, was;
} bw_mut;
static uint32_t bw_other(uint32_t v, int n)
{
  uint32_t top = n < 32 ? (1u << n) - 1 : 0xffffffffu;
  switch (bw_mut.how)
  {
  case 0: return top;
  case 1: return 0;
  case 2: return top - 1;
  case 3: return (v + 1) & top;
  case 4: return top / 2 + 1;
  default: return (v - 1) & top;
  }
}
static void bw_put(bw_t *b, uint32_t v, int n)
{
  int here = ++bw_mut.n == bw_mut.at;
  if (here)
  {
    uint32_t w = bw_other(v, n);
    bw_mut.was = n < 1 || w == v || (bw_mut.how > 1 && (w == (n < 32 ? (1u << n) - 1 : 0xffffffffu) || !w)); /* nothing new */
    v = w;
  }
  while (n-- > 0)
    bw_bit(b, (v >> n) & 1);
  if (here && bw_mut.junk)
    for (uint32_t r = 12345, i = 0; i < 400; i++)
    {
      r = r * 1103515245u + 12345;
      bw_bit(b, bw_mut.junk == 1 ? r >> 16 & 1 : bw_mut.junk == 2);
    }
}
static void bw_append(bw_t *b, const bw_t *s)
{
  for (long i = 0; i < s->nbits; i++)
    bw_bit(b, (s->d[i >> 3] >> (7 - (i & 7))) & 1);
}
static void bw_bytes(bw_t *b, const void *p, long n)
{
  const uint8_t *c = (const uint8_t *)p;
  for (; n > 0; n--, c++)
    for (int i = 7; i >= 0; i--)
      bw_bit(b, *c >> i & 1);
}
static void bw_align(bw_t *b)
{
  while (b->nbits & 7)
    bw_bit(b, 0);
}
static long bw_len(const bw_t *b) { return (b->nbits + 7) / 8; }
/* escapedValue(); level 0: shortest form, which is the only legal one for a given value. */
static void bw_esc(bw_t *b, uint32_t v, int n1, int n2, int n3)
{
  uint32_t e1 = (1u << n1) - 1, e2 = (1u << n2) - 1;
  if (v < e1)
  {
    bw_put(b, v, n1);
    return;
  }
  bw_put(b, e1, n1);
  v -= e1;
  if (n3 == 0 || v < e2)
  {
    bw_put(b, v, n2);
    return;
  }
  bw_put(b, e2, n2);
  bw_put(b, v - e2, n3);
}

/* ---- MHAS ---- */
enum
{
  MH_FILL = 0, MH_CFG = 1, MH_FRAME = 2, MH_ASI = 3, MH_SYNC = 6, MH_SYNCGAP = 7, MH_MARKER = 8, MH_CRC16 = 9,
  MH_CRC32 = 10, MH_DESC = 11, MH_USERINT = 12, MH_LOUD = 13, MH_BUFINFO = 14, MH_GCRC16 = 15, MH_GCRC32 = 16,
  MH_TRUNC = 17, MH_GEN = 18, MH_EARCON = 19, MH_PCMCFG = 20, MH_PCMDATA = 21, MH_LOUDNESS = 22
};
static void mhas_packet(bw_t *o, uint32_t type, uint32_t label, const uint8_t *p, long n)
{
  bw_esc(o, type, 3, 8, 8);
  bw_esc(o, label, 2, 8, 32);
  bw_esc(o, (uint32_t)n, 11, 24, 24);
  bw_align(o);
  bw_bytes(o, p, n);
}
static void mhas_sync(bw_t *o)
{
  uint8_t a5 = 0xA5;
  mhas_packet(o, MH_SYNC, 0, &a5, 1);
}

/* ---- configuration ---- */
enum { EL_SCE = 0, EL_CPE = 1, EL_LFE = 2, EL_EXT = 3 };
enum { SIG_CH = 0, SIG_OBJ = 1, SIG_SAOC = 2, SIG_HOA = 3 };
enum
{
  EXT_FILL = 0, EXT_MPEGS = 1, EXT_SAOC = 2, EXT_PREROLL = 3, EXT_DRC = 4, EXT_OAM = 5, EXT_SAOC3D = 6, EXT_HOA = 7,
  EXT_FMTCONV = 8, EXT_MCT = 9, EXT_TCC = 10, EXT_HOA_ENH = 11, EXT_HREP = 12, EXT_ENHOAM = 13, EXT_PRODMETA = 14
};
#define SY_MAXEL 64
#define SY_MAXGRP 32
typedef struct
{
  int type;
  int fb_lpd, nf, enf, tw, qce;
  int igf_enf, igf_high, igf_white, igf_after, igf_start, igf_stop, igf_indep; /* when enf */
  int shift1, lpd_stereo;                                                      /* CPE */
  int ext_type, ext_deflen, ext_frag;                                          /* EXT */
  const uint8_t *ext_cfg;
  int ext_cfg_len;
} sy_el;
typedef struct
{
  int profile, fs_idx, fs_hz, fs_as, flen_idx, rdc, reserved; /* fs_as: whose tables an explicit rate uses */
  int layout_type, cicp, nspk, spk[32];
  int ngrp;
  struct
  {
    int type, nsig, differs, cicp;
    /* explicit layouts when differs==2: list of CICP speaker indices */
  } grp[SY_MAXGRP];
  int nel, el_len_present;
  sy_el el[SY_MAXEL];
  int has_ext;
  bw_t cfgext; /* when has_ext: complete config extension bits */
} sy_cfg;

static int sy_fsi(const sy_cfg *c) { return c->fs_idx < 3 || c->fs_idx > 8 ? c->fs_as ? c->fs_as : 3 : c->fs_idx; }
static void sy_cfg_default(sy_cfg *c, int cicp)
{
  memset(c, 0, sizeof(*c));
  c->profile = 0x0D;
  c->fs_idx = 3;
  c->flen_idx = 1;
  c->cicp = cicp;
}
static int sy_add_group(sy_cfg *c, int type, int nsig)
{
  c->grp[c->ngrp].type = type;
  c->grp[c->ngrp].nsig = nsig;
  return c->ngrp++;
}
static sy_el *sy_add_el(sy_cfg *c, int type)
{
  sy_el *e = &c->el[c->nel++];
  memset(e, 0, sizeof(*e));
  e->type = type;
  return e;
}
static int sy_ntransport(const sy_cfg *c)
{
  int n = 0;
  for (int i = 0; i < c->ngrp; i++)
    n += c->grp[i].nsig;
  return n;
}
static void sy_write_cfg(const sy_cfg *c, bw_t *b)
{
  bw_put(b, c->profile, 8);
  bw_put(b, c->fs_idx, 5);
  if (c->fs_idx == 31)
    bw_put(b, c->fs_hz, 24);
  bw_put(b, c->flen_idx, 3);
  bw_put(b, c->reserved, 1);
  bw_put(b, c->rdc, 1);
  bw_put(b, c->layout_type, 2);
  if (c->layout_type == 0)
    bw_put(b, c->cicp, 6);
  else
  {
    bw_esc(b, c->nspk - 1, 5, 8, 16);
    for (int i = 0; i < c->nspk; i++)
      bw_put(b, c->spk[i], 7);
  }
  bw_put(b, c->ngrp - 1, 5);
  for (int i = 0; i < c->ngrp; i++)
  {
    bw_put(b, c->grp[i].type, 3);
    bw_esc(b, c->grp[i].nsig - 1, 5, 8, 16);
    if (c->grp[i].type == SIG_CH)
    {
      bw_put(b, c->grp[i].differs, 1);
      if (c->grp[i].differs)
      {
        bw_put(b, 0, 2);
        bw_put(b, c->grp[i].cicp, 6);
      }
    }
    if (c->grp[i].type == SIG_SAOC)
      bw_put(b, 0, 1);
  }
  bw_esc(b, c->nel - 1, 4, 8, 16);
  bw_put(b, c->el_len_present, 1);
  for (int i = 0; i < c->nel; i++)
  {
    const sy_el *e = &c->el[i];
    bw_put(b, e->type, 2);
    if (e->type == EL_SCE || e->type == EL_CPE)
    {
      bw_put(b, e->tw, 1);
      bw_put(b, e->fb_lpd, 1);
      bw_put(b, e->nf, 1);
      bw_put(b, e->enf, 1);
      if (e->enf)
      {
        bw_put(b, e->igf_enf, 1);
        bw_put(b, e->igf_high, 1);
        bw_put(b, e->igf_white, 1);
        bw_put(b, e->igf_after, 1);
        bw_put(b, e->igf_start, 5);
        bw_put(b, e->igf_stop, 4);
        if (e->type == EL_CPE)
          bw_put(b, e->igf_indep, 1);
      }
      if (e->type == EL_CPE)
      {
        bw_put(b, e->qce, 2);
        bw_put(b, e->shift1 ? 1 : 0, 1);
        if (e->shift1)
        {
          int nb = 1, n = sy_ntransport(c);
          while ((1 << nb) < n)
            nb++;
          bw_put(b, e->shift1 - 1, nb);
        }
        bw_put(b, e->lpd_stereo, 1);
      }
    }
    else if (e->type == EL_EXT)
    {
      bw_esc(b, e->ext_type, 4, 8, 16);
      bw_esc(b, e->ext_cfg_len, 4, 8, 16);
      bw_put(b, e->ext_deflen ? 1 : 0, 1);
      if (e->ext_deflen)
        bw_esc(b, e->ext_deflen - 1, 8, 16, 0);
      bw_put(b, e->ext_frag, 1);
      bw_bytes(b, e->ext_cfg, e->ext_cfg_len);
    }
  }
  bw_put(b, c->has_ext, 1);
  if (c->has_ext)
    bw_append(b, &c->cfgext);
  bw_align(b);
}

/* ---- arithmetic coder of spectral data ---- */
typedef struct
{
  int8_t c[520], cp[520];
  int prev_n;
} ac_ctx;
typedef struct
{
  uint32_t low, high;
  long follow;
  bw_t *o;
} ac_enc;
static void ac_bit(ac_enc *e, int v)
{
  bw_bit(e->o, v);
  while (e->follow > 0)
  {
    bw_bit(e->o, !v);
    e->follow--;
  }
}
static void ac_sym(ac_enc *e, int s, const uint16_t *cf)
{
  uint32_t range = e->high - e->low + 1;
  if (s)
    e->high = e->low + ((range * cf[s - 1]) >> 14) - 1;
  e->low += (range * cf[s]) >> 14;
  for (;;)
  {
    if (e->high < 32768)
      ac_bit(e, 0);
    else if (e->low >= 32768)
    {
      ac_bit(e, 1);
      e->low -= 32768;
      e->high -= 32768;
    }
    else if (e->low >= 16384 && e->high < 49152)
    {
      e->follow++;
      e->low -= 16384;
      e->high -= 16384;
    }
    else
      break;
    e->high += e->high + 1;
    e->low += e->low;
  }
}
static int ac_pk(uint32_t c)
{
  int lo = -1, hi = 741;
  while (hi - lo > 1)
  {
    int i = lo + ((hi - lo) >> 1);
    if (c > gold_hash[i])
      lo = i;
    else if (c < gold_hash[i])
      hi = i;
    else
      return gold_hash1[i];
  }
  return gold_lookup[hi];
}
static void ac_map(ac_ctx *x, int n, int reset)
{
  if (reset)
  {
    memset(x->c, 0, sizeof(x->c));
    memset(x->cp, 0, sizeof(x->cp));
  }
  else if (x->prev_n != n)
  {
    int8_t c[520], cp[520];
    memcpy(c, x->c, sizeof(c));
    memcpy(cp, x->cp, sizeof(cp));
    for (int i = 0; i < n / 2; i++)
    {
      int k = (int)((long)i * x->prev_n / n);
      x->c[2 + i] = c[2 + k];
      x->cp[2 + i] = cp[2 + k];
    }
    x->c[n / 2 + 3] = c[x->prev_n / 2 + 3];
    x->cp[n / 2 + 2] = cp[x->prev_n / 2 + 2];
  }
  x->prev_n = n;
}
/* one transform's spectrum: nq coefficients coded, in a transform of n lines */
static void ac_spec(ac_ctx *x, bw_t *o, const int *q, int nq, int n, int use_stop)
{
  int8_t *cp = x->cp + 2, *cc = x->c + 2;
  ac_enc e = {0, 65535, 0, o};
  int np = nq / 2, last = np;
  uint32_t c;
  for (int i = 0; i < n / 2; i++)
  {
    cp[i] = cc[i];
    cc[i] = 1;
  }
  c = (uint32_t)cp[0] << 12;
  if (use_stop)
    while (last > 0 && !q[2 * last - 1] && !q[2 * last - 2])
      last--;
  for (int i = 0; i < np; i++)
  {
    c = (c >> 4) + ((uint32_t)cp[i + 1] << 12);
    c = (c & 0xFFF0) + cc[i - 1];
    uint32_t s = c;
    if (i > 3 && cc[i - 1] + cc[i - 2] + cc[i - 3] < 5)
      s += 0x10000;
    if (i >= last)
    {
      ac_sym(&e, 16, gold_cf_m[ac_pk(s)]);
      ac_sym(&e, 0, gold_cf_m[ac_pk(s + (1u << 17))]);
      break;
    }
    int a = abs(q[2 * i]), b = abs(q[2 * i + 1]), lev = 0, m = a > b ? a : b;
    while ((m >> lev) > 3)
      lev++;
    for (int l = 0; l < lev; l++)
      ac_sym(&e, 16, gold_cf_m[ac_pk(s + ((uint32_t)(l > 7 ? 7 : l) << 17))]);
    int sym = (a >> lev) + 4 * (b >> lev);
    ac_sym(&e, sym, gold_cf_m[ac_pk(s + ((uint32_t)(lev > 7 ? 7 : lev) << 17))]);
    for (int l = lev - 1; l >= 0; l--)
    {
      int ha = a >> (l + 1), hb = b >> (l + 1);
      int idx = ha == 0 ? 1 : (hb == 0 ? 0 : 2);
      ac_sym(&e, ((a >> l) & 1) | (((b >> l) & 1) << 1), gold_cf_r[idx]);
    }
    cc[i] = a + b + 1 > 15 ? 15 : a + b + 1;
  }
  e.follow++;
  if (e.low < 16384)
    ac_bit(&e, 0);
  else
    ac_bit(&e, 1);
  for (int i = 0; i < nq; i++)
    if (q[i])
      bw_bit(o, q[i] > 0);
}

/* ---- one FD-coded channel of one frame ---- */
enum { W_LONG = 0, W_START = 1, W_SHORT = 2, W_STOP = 3 };
typedef struct
{
  int nfilt;
  int coef_res; /* 0: 3 bits, 1: 4 bits */
  struct
  {
    int length, order, dir, compress;
    int coef[16];
  } f[3];
} sy_tns;
typedef struct
{
  int win, shape, max_sfb, grouping;
  int gg;
  int sf[8][52]; /* absolute scale factors per group; sf[0][0] is the global gain */
  int q[1024];
  int noise_level, noise_offset;
  int ltpf, lag, ltpf_gain;
  int fdp, fdp_idx;
  int al_prev, al_curr;
  int arith_reset, use_stop;
  int tns;
  sy_tns t[8];
} fd_ch;
static void fd_default(fd_ch *f)
{
  memset(f, 0, sizeof(*f));
  f->gg = 100;
  for (int g = 0; g < 8; g++)
    for (int b = 0; b < 52; b++)
      f->sf[g][b] = 100;
  f->max_sfb = 49;
  f->arith_reset = 1;
}
static int fd_gain(fd_ch *f, int gg)
{
  f->gg = gg;
  for (int g = 0; g < 8; g++)
    for (int b = 0; b < 52; b++)
      f->sf[g][b] = gg;
  return gg;
}
/* group lengths of an eight-short frame from its grouping bits; number of groups */
static int fd_groups(int grouping, int *len)
{
  int n = 0;
  len[0] = 1;
  for (int i = 1; i < 8; i++)
    if (grouping & (0x40 >> (i - 1)))
      len[n]++;
    else
      len[++n] = 1;
  return n + 1;
}
static void fd_write_ics(const fd_ch *f, bw_t *b)
{
  bw_put(b, f->win, 2);
  bw_put(b, f->shape, 1);
  if (f->win == W_SHORT)
  {
    bw_put(b, f->max_sfb, 4);
    bw_put(b, f->grouping, 7);
  }
  else
    bw_put(b, f->max_sfb, 6);
}
static void fd_write_tns(const fd_ch *f, bw_t *b)
{
  int nw = f->win == W_SHORT ? 8 : 1;
  for (int w = 0; w < nw; w++)
  {
    const sy_tns *t = &f->t[w];
    bw_put(b, t->nfilt, nw == 8 ? 1 : 2);
    if (!t->nfilt)
      continue;
    bw_put(b, t->coef_res, 1);
    for (int i = 0; i < t->nfilt; i++)
    {
      bw_put(b, t->f[i].length, nw == 8 ? 4 : 6);
      bw_put(b, t->f[i].order, nw == 8 ? 3 : 4);
      if (t->f[i].order)
      {
        bw_put(b, t->f[i].dir, 1);
        bw_put(b, t->f[i].compress, 1);
        int nb = 3 + t->coef_res - t->f[i].compress;
        for (int k = 0; k < t->f[i].order; k++)
          bw_put(b, (uint32_t)t->f[i].coef[k] & ((1u << nb) - 1), nb);
      }
    }
  }
}
/* tns_data: 0 none, 1 in this stream.  ics: write ics_info here.  ltpf: flag in this stream. */
static void fd_write_stream(const fd_ch *f, bw_t *b, ac_ctx *x, int fsi, int indep, int nf, int ics, int ltpf_here,
                            int tns_here)
{
  const int16_t *sfb = f->win == W_SHORT ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
  int nw = f->win == W_SHORT ? 8 : 1, n = 1024 / nw, len[8] = {1};
  int ng = f->win == W_SHORT ? fd_groups(f->grouping, len) : 1;
  bw_put(b, f->gg, 8);
  if (nf)
    bw_put(b, (f->noise_level << 5) | f->noise_offset, 8);
  if (ics)
    fd_write_ics(f, b);
  if (ltpf_here)
  {
    bw_put(b, f->ltpf, 1);
    if (f->ltpf)
    {
      bw_put(b, f->lag, 9);
      bw_put(b, f->ltpf_gain, 2);
    }
  }
  if (nw == 1 && !indep)
  {
    bw_put(b, f->fdp, 1);
    if (f->fdp)
      bw_put(b, f->fdp_idx, 8);
  }
  if (indep)
    bw_put(b, f->al_prev, 1);
  bw_put(b, f->al_curr, 1);
  int last = f->gg;
  for (int g = 0; g < ng; g++)
    for (int s = 0; s < f->max_sfb; s++)
    {
      if (g == 0 && s == 0)
        continue;
      int d = f->sf[g][s] - last;
      last = f->sf[g][s];
      bw_put(b, gold_scf[d + 60].c, gold_scf[d + 60].n);
    }
  if (tns_here)
    fd_write_tns(f, b);
  if (!indep)
    bw_put(b, f->arith_reset, 1);
  ac_map(x, n, indep || f->arith_reset);
  if (f->max_sfb == 0)
  {
    for (int i = 0; i < n / 2; i++)
      x->c[i + 2] = 1;
  }
  else
    for (int w = 0; w < nw; w++)
      ac_spec(x, b, f->q + w * n, sfb[f->max_sfb - 1], n, f->use_stop);
  bw_put(b, 0, 1); /* fac_data_present */
}
static void fd_write_sce(const fd_ch *f, bw_t *b, ac_ctx *x, int fsi, int indep, int nf)
{
  bw_put(b, 0, 1); /* core_mode */
  bw_put(b, f->tns, 1);
  fd_write_stream(f, b, x, fsi, indep, nf, 1, 1, f->tns);
}
static void fd_write_lfe(const fd_ch *f, bw_t *b, ac_ctx *x, int fsi, int indep)
{
  fd_write_stream(f, b, x, fsi, indep, 0, 1, 1, 0);
}
/* An extension payload of one frame: absent, default length or explicit length. */
static void ext_write(bw_t *b, const sy_el *e, const uint8_t *p, int n, int use_default, int frag)
{
  bw_put(b, n >= 0 ? 1 : 0, 1);
  if (n < 0)
    return;
  bw_put(b, use_default, 1);
  if (!use_default)
  {
    if (n < 255)
      bw_put(b, n, 8);
    else
    {
      bw_put(b, 255, 8);
      bw_put(b, n - 253, 16);
    }
  }
  if (n > 0 && e->ext_frag)
    bw_put(b, frag, 2);
  bw_bytes(b, p, n);
}

/* ---- channel pair element ---- */
typedef struct
{
  int common_window, max_sfb_r_own; /* common window: code the right channel's max_sfb on its own */
  int ms;                           /* ms_mask_present 0..3 */
  uint8_t used[8][52];              /* ms: 1 per group and band; 3: prediction used */
  int pred_all, pred_dir, complex_coef, use_prev, delta_time;
  int are[8][52], aim[8][52]; /* prediction coefficients, steps of 0.1 */
  int common_ltpf;
  int tns_on_lr, common_tns; /* either channel's tns flag set makes TNS active */
} sy_cpe;
typedef struct
{
  int pre[52], pim[52]; /* previous prediction coefficients, for delta coding in time */
} sy_cpe_state;
static void fd_write_alpha(bw_t *b, int d) { bw_put(b, gold_scf[60 - d].c, gold_scf[60 - d].n); }
static void fd_write_cpe(const sy_cpe *p, sy_cpe_state *st, const fd_ch *l, const fd_ch *r, bw_t *b, ac_ctx *xl,
                         ac_ctx *xr, int fsi, int indep, int nf)
{
  int tns = l->tns || r->tns, len[8] = {1};
  bw_put(b, 0, 2); /* core modes */
  bw_put(b, tns, 1);
  bw_put(b, p->common_window, 1);
  if (!p->common_window || indep)
    memset(st, 0, sizeof(*st));
  if (p->common_window)
  {
    int sh = l->win == W_SHORT, ng = sh ? fd_groups(l->grouping, len) : 1;
    fd_write_ics(l, b);
    bw_put(b, !p->max_sfb_r_own, 1);
    if (p->max_sfb_r_own)
      bw_put(b, r->max_sfb, sh ? 4 : 6);
    int ste = l->max_sfb > r->max_sfb ? l->max_sfb : r->max_sfb;
    bw_put(b, p->ms, 2);
    if (p->ms == 1)
      for (int g = 0; g < ng; g++)
        for (int s = 0; s < ste; s++)
          bw_put(b, p->used[g][s], 1);
    if (p->ms == 3)
    {
      bw_put(b, p->pred_all, 1);
      if (!p->pred_all)
        for (int g = 0; g < ng; g++)
          for (int s = 0; s < ste; s += 2)
            bw_put(b, p->used[g][s], 1);
      bw_put(b, p->pred_dir, 1);
      bw_put(b, p->complex_coef, 1);
      if (p->complex_coef && !indep)
        bw_put(b, p->use_prev, 1);
      if (!indep)
        bw_put(b, p->delta_time, 1);
      int dt = !indep && p->delta_time;
      for (int g = 0; g < ng; g++)
      {
        int lr = 0, li = 0;
        for (int s = 0; s < ste; s += 2)
        {
          int u = p->pred_all || p->used[g][s], ar = u ? p->are[g][s] : 0, ai = u && p->complex_coef ? p->aim[g][s] : 0;
          if (dt)
          {
            lr = st->pre[s];
            li = st->pim[s];
          }
          if (u)
          {
            fd_write_alpha(b, ar - lr);
            if (p->complex_coef)
              fd_write_alpha(b, ai - li);
          }
          lr = ar;
          li = ai;
          st->pre[s] = ar;
          st->pim[s] = ai;
        }
        for (int s = ste; s < 52; s++) /* nothing kept of bands beyond */
          st->pre[s] = st->pim[s] = 0;
      }
    }
    else
      memset(st, 0, sizeof(*st));
  }
  bw_put(b, p->common_ltpf, 1);
  if (p->common_ltpf)
  {
    bw_put(b, l->ltpf, 1);
    if (l->ltpf)
    {
      bw_put(b, l->lag, 9);
      bw_put(b, l->ltpf_gain, 2);
    }
  }
  if (tns)
  {
    if (p->common_window)
      bw_put(b, p->common_tns, 1);
    bw_put(b, p->tns_on_lr, 1);
    if (p->common_window && p->common_tns)
      fd_write_tns(l, b);
    else
    {
      bw_put(b, l->tns && r->tns, 1);
      if (!(l->tns && r->tns))
        bw_put(b, r->tns, 1);
    }
  }
  int own = !(p->common_window && p->common_tns);
  static fd_ch rc;
  if (p->common_window)
  {
    rc = *r;
    rc.win = l->win;
    rc.shape = l->shape;
    rc.grouping = l->grouping;
    if (!p->max_sfb_r_own)
      rc.max_sfb = l->max_sfb;
    r = &rc;
  }
  fd_write_stream(l, b, xl, fsi, indep, nf, !p->common_window, !p->common_ltpf, own && l->tns);
  fd_write_stream(r, b, xr, fsi, indep, nf, !p->common_window, !p->common_ltpf, own && r->tns);
}

/* ---- multichannel coding: pairs of channels combined one after another ---- */
#define SY_BOX 16
typedef struct
{
  int on, type, stereo_filling, keep, np; /* type 0: prediction, 1: rotation */
  int nch;                                /* channels it applies to, map[] their numbers */
  int map[32];
  int pair[SY_BOX][2], fill[SY_BOX], mask_flag[SY_BOX], bandwise[SY_BOX], pred_dir[SY_BOX], dt[SY_BOX], nband[SY_BOX];
  uint8_t mask[SY_BOX][64]; /* [window * nband + band] */
  int coef[SY_BOX][64];
} sy_mct;
typedef struct
{
  int fb[SY_BOX], sfb[SY_BOX][64], was_long[SY_BOX];
} sy_mct_state;
static void mct_coef(bw_t *b, int type, int v, int last)
{
  if (!type)
  {
    int i = 60 - (v - last);
    bw_put(b, gold_scf[i].c, gold_scf[i].n);
  }
  else
  {
    int i = ((v - last) % 65 + 65) % 65;
    bw_put(b, gold_angle[i].c, gold_angle[i].n);
  }
}
static void mct_write(const sy_mct *m, sy_mct_state *st, const fd_ch *ch, bw_t *b, int indep)
{
  int def = m->type ? 48 : 0, keep = !indep && m->keep, nb = 1, mx = m->nch * (m->nch - 1) / 2 - 1;
  while (mx >>= 1)
    nb++;
  bw_put(b, m->stereo_filling, 1);
  bw_put(b, m->type, 1);
  if (!indep)
    bw_put(b, keep, 1);
  for (int i = 0; i < SY_BOX; i++)
    if (indep || i >= m->np)
    {
      st->fb[i] = def;
      for (int k = 0; k < 64; k++)
        st->sfb[i][k] = def;
    }
  if (!keep)
    bw_esc(b, m->np, 5, 8, 16);
  for (int i = 0; i < m->np; i++)
  {
    int lo = m->pair[i][0], hi = m->pair[i][1], sh = ch[m->map[lo]].win == W_SHORT, nw = sh ? 8 : 1, any = 0;
    if (m->stereo_filling)
      bw_put(b, m->fill[i], 1);
    if (!keep)
      bw_put(b, hi * (hi - 1) / 2 + lo, nb);
    if (st->was_long[i] == sh)
    {
      st->fb[i] = def;
      for (int k = 0; k < 64; k++)
        st->sfb[i][k] = def;
    }
    st->was_long[i] = !sh;
    bw_put(b, m->mask_flag[i], 1);
    bw_put(b, m->bandwise[i], 1);
    any = m->mask_flag[i] || m->bandwise[i];
    int n = any ? m->nband[i] : 64 / nw;
    if (any)
    {
      bw_put(b, sh, 1);
      bw_put(b, n, 5);
    }
    if (m->mask_flag[i])
      for (int k = 0; k < n * nw; k++)
        bw_put(b, m->mask[i][k], 1);
    if (!m->type)
      bw_put(b, m->pred_dir[i], 1);
    int dt = !indep && m->dt[i];
    if (!indep)
      bw_put(b, dt, 1);
    if (!m->bandwise[i])
    {
      mct_coef(b, m->type, m->coef[i][0], dt ? st->fb[i] : def);
      st->fb[i] = m->coef[i][0];
      for (int k = 0; k < n * nw; k++)
        st->sfb[i][k % n] = !m->mask_flag[i] || m->mask[i][k] ? m->coef[i][0] : def;
    }
    else
    {
      int last = def;
      for (int k = 0; k < n * nw; k++)
      {
        if (dt)
          last = st->sfb[i][k % n];
        else if (k % n == 0)
          last = def;
        if (!m->mask_flag[i] || m->mask[i][k])
        {
          mct_coef(b, m->type, m->coef[i][k], last);
          last = st->sfb[i][k % n] = m->coef[i][k];
        }
        else
          st->sfb[i][k % n] = def;
      }
      st->fb[i] = def;
    }
    for (int k = n; k < 64; k++)
      st->sfb[i][k] = def;
  }
}

/* ---- a whole stream: one configuration, frames of every element ---- */
typedef struct
{
  sy_cfg cfg;
  int nch;        /* transport channels */
  fd_ch ch[32];
  ac_ctx ac[32];
  sy_cpe cpe[SY_MAXEL];
  sy_cpe_state cst[SY_MAXEL];
  struct
  {
    int present, use_default, n;
    uint8_t d[8192];
  } ext[SY_MAXEL]; /* by element */
  sy_mct mct;      /* in the element of type EXT_MCT */
  sy_mct_state mst;
  sy_mct mct2;     /* in the second such element: another signal group */
  sy_mct_state mst2;
  bw_t o;
  uint32_t label;
  int raw; /* frames without packets: au_off[] holds the byte offset of each access unit */
  long au_off[4096];
  int nau;
} sb_t;
static sb_t *sb_new(void)
{
  sb_t *s = (sb_t *)calloc(1, sizeof(*s));
  bw_init(&s->o);
  s->label = 1;
  return s;
}
static void sb_del(sb_t *s)
{
  bw_free(&s->o);
  free(s);
}
/* after the configuration is complete: default contents of every channel */
static void sb_channels(sb_t *s)
{
  s->nch = 0;
  for (int i = 0; i < s->cfg.nel; i++)
    s->nch += s->cfg.el[i].type == EL_CPE ? 2 : s->cfg.el[i].type == EL_EXT ? 0 : 1;
  for (int i = 0; i < s->nch; i++)
    fd_default(&s->ch[i]);
  int c = 0;
  for (int i = 0; i < s->cfg.nel; i++)
  {
    if (s->cfg.el[i].type == EL_LFE)
      s->ch[c].max_sfb = 5;
    c += s->cfg.el[i].type == EL_CPE ? 2 : s->cfg.el[i].type == EL_EXT ? 0 : 1;
  }
}
static void sb_config(sb_t *s)
{
  bw_t c;
  bw_init(&c);
  sy_write_cfg(&s->cfg, &c);
  mhas_packet(&s->o, MH_CFG, s->label, c.d, bw_len(&c));
  bw_free(&c);
}
/* bits of one access unit from the current channel descriptions */
static void sb_au(sb_t *s, bw_t *b, int indep)
{
  int c = 0, nmct = 0, fsi = sy_fsi(&s->cfg);
  bw_put(b, indep, 1);
  for (int i = 0; i < s->cfg.nel; i++)
  {
    sy_el *e = &s->cfg.el[i];
    if (e->type != EL_EXT)
    {
      bw_t x, *o = b;
      if (s->cfg.el_len_present)
      {
        bw_init(&x);
        o = &x;
      }
      if (e->type == EL_SCE)
        fd_write_sce(&s->ch[c], o, &s->ac[c], fsi, indep, e->nf);
      else if (e->type == EL_LFE)
        fd_write_lfe(&s->ch[c], o, &s->ac[c], fsi, indep);
      else
        fd_write_cpe(&s->cpe[i], &s->cst[i], &s->ch[c], &s->ch[c + 1], o, &s->ac[c], &s->ac[c + 1], fsi, indep, e->nf);
      c += e->type == EL_CPE ? 2 : 1;
      if (o == &x)
      {
        bw_put(b, x.nbits, 16);
        bw_append(b, &x);
        bw_free(&x);
      }
    }
    else if (e->ext_type == EXT_MCT && (nmct ? s->mct2.on : s->mct.on))
    {
      bw_t x;
      bw_init(&x);
      mct_write(nmct ? &s->mct2 : &s->mct, nmct ? &s->mst2 : &s->mst, s->ch, &x, indep);
      nmct++;
      bw_align(&x);
      ext_write(b, e, x.d, bw_len(&x), 0, 3);
      bw_free(&x);
    }
    else
      ext_write(b, e, s->ext[i].d, s->ext[i].present ? s->ext[i].n : -1, s->ext[i].use_default, 3);
  }
  bw_align(b);
}
static void sb_frame(sb_t *s, int indep)
{
  bw_t b;
  bw_init(&b);
  sb_au(s, &b, indep);
  if (s->nau < 4095)
    s->au_off[s->nau++] = bw_len(&s->o);
  if (s->raw)
    bw_bytes(&s->o, b.d, bw_len(&b));
  else
    mhas_packet(&s->o, MH_FRAME, s->label, b.d, bw_len(&b));
  s->au_off[s->nau] = bw_len(&s->o);
  bw_free(&b);
}
/* the finished stream, padded; the caller frees d */
static uint8_t *sb_take(sb_t *s, long *n)
{
  *n = bw_len(&s->o);
  uint8_t *d = (uint8_t *)calloc(1, *n + 64);
  memcpy(d, s->o.d, *n);
  return d;
}
#endif
