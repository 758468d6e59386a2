/* Encoder side of the loudness and dynamic range metadata, and a model of what they mean. */
#ifndef VF_DRC_H
#define VF_DRC_H
#include "synth.h"
#include <math.h>

/* ---- loudness information ---- */
typedef struct
{
  int method, value, system, reliab;
} ld_meas;
typedef struct
{
  int type, id, drc_set, dmx, sample_peak, true_peak; /* peaks: -1 absent */
  int n;
  ld_meas m[15];
} ld_info;
static int ld_bits(int method) { return method == 8 ? 2 : method == 7 ? 5 : 8; }
static void ld_put_info(bw_t *b, const ld_info *l, int album)
{
  if (!album)
  {
    bw_put(b, l->type, 2);
    if (l->type == 1 || l->type == 2)
      bw_put(b, l->id, 7);
    else if (l->type == 3)
      bw_put(b, l->id, 5);
  }
  bw_put(b, l->drc_set, 6);
  bw_put(b, l->dmx, 7);
  bw_put(b, l->sample_peak >= 0, 1);
  if (l->sample_peak >= 0)
    bw_put(b, l->sample_peak, 12);
  bw_put(b, l->true_peak >= 0, 1);
  if (l->true_peak >= 0)
  {
    bw_put(b, l->true_peak, 12);
    bw_put(b, 2, 4);
    bw_put(b, 3, 2);
  }
  bw_put(b, l->n, 4);
  for (int i = 0; i < l->n; i++)
  {
    bw_put(b, l->m[i].method, 4);
    bw_put(b, l->m[i].value, ld_bits(l->m[i].method));
    bw_put(b, l->m[i].system, 4);
    bw_put(b, l->m[i].reliab, 2);
  }
}
static void ld_set(bw_t *b, const ld_info *l, int n, const ld_info *al, int nal, int ext)
{
  bw_put(b, n, 6);
  for (int i = 0; i < n; i++)
    ld_put_info(b, &l[i], 0);
  bw_put(b, nal >= 0, 1);
  if (nal >= 0)
  {
    bw_put(b, nal, 6);
    for (int i = 0; i < nal; i++)
      ld_put_info(b, &al[i], 1);
  }
  bw_put(b, ext > 0, 1);
  for (int i = 0; i < ext; i++)
  {
    bw_put(b, 1 + i % 15, 4);
    bw_put(b, 1, 4);
    bw_put(b, 7 + i, 5);
    for (int k = 0; k < 8 + i; k++)
      bw_put(b, k * 5 + i, 1);
  }
  if (ext > 0)
    bw_put(b, 0, 4);
}

/* ---- gain sets ---- */
enum { GP_REGULAR = 0, GP_FADING = 1, GP_CLIPPING = 2, GP_CONSTANT = 3 };
typedef struct
{
  int prof, full, align;
  int tm;            /* time resolution in samples, 0: the default one */
  int nb, xover[4];  /* bands (0: one) and the crossover frequencies between them */
} dr_gs;
typedef struct
{
  int set_id, effect, dmx, peak; /* peak: -1 absent */
  int nch, gs[32];               /* 0 none, else 1 + gain set */
  int repeat;                    /* use the repeat coding for runs */
  int scal[32], off[32];         /* by channel group in order of appearance; -1 absent */
  int dsc[32];                   /* ducking (effect bits 10, 11): scaling by channel, -1 absent */
  int tl_up, tl_lo;              /* target loudness range, -1 absent */
  int no_indep;
} dr_in;
typedef struct
{
  int nch, ngs, ni;
  dr_gs gs[24];
  dr_in in[16];
  int ext; /* config extension present */
} dr_cfg;
static void dr_in_init(dr_in *d, int set_id, int effect, int nch)
{
  memset(d, 0, sizeof(*d));
  d->set_id = set_id;
  d->effect = effect;
  d->nch = nch;
  d->peak = d->tl_up = d->tl_lo = -1;
  for (int i = 0; i < 32; i++)
    d->scal[i] = d->off[i] = d->dsc[i] = -1;
}
static int dr_groups(const dr_in *d, int *grp_gs, int *of_ch)
{
  int n = 0;
  for (int c = 0; c < d->nch; c++)
  {
    int g = -1;
    if (d->gs[c])
    {
      for (g = 0; g < n && grp_gs[g] != d->gs[c] - 1; g++)
        ;
      if (g == n)
        grp_gs[n++] = d->gs[c] - 1;
    }
    of_ch[c] = g;
  }
  return n;
}
static void dr_put_cfg(bw_t *b, const dr_cfg *c)
{
  bw_put(b, c->ngs >= 0 ? 1 : 0, 3);
  bw_put(b, c->ni, 6);
  bw_put(b, c->nch, 7);
  if (c->ngs >= 0)
  {
    bw_put(b, 1, 4); /* location */
    bw_put(b, 0, 1);
    bw_put(b, c->ngs, 6);
    for (int i = 0; i < c->ngs; i++)
    {
      bw_put(b, c->gs[i].prof, 2);
      bw_put(b, 1, 1); /* linear interpolation */
      bw_put(b, c->gs[i].full, 1);
      bw_put(b, c->gs[i].align, 1);
      bw_put(b, c->gs[i].tm > 0, 1);
      if (c->gs[i].tm > 0)
        bw_put(b, c->gs[i].tm - 1, 11);
      if (c->gs[i].prof != GP_CONSTANT)
      {
        int nb = c->gs[i].nb > 1 ? c->gs[i].nb : 1;
        bw_put(b, nb, 4);
        if (nb > 1)
          bw_put(b, 1, 1);
        for (int k = 0; k < nb; k++)
          bw_put(b, 0, 7);
        for (int k = 1; k < nb; k++)
          bw_put(b, c->gs[i].xover[k - 1], 4);
      }
    }
  }
  for (int i = 0; i < c->ni; i++)
  {
    const dr_in *d = &c->in[i];
    int gg[32], oc[32], ng = dr_groups(d, gg, oc), duck = (d->effect & 0xC00) != 0;
    bw_put(b, 0, 1);
    bw_put(b, d->set_id, 6);
    bw_put(b, 1, 4);
    bw_put(b, d->dmx, 7);
    bw_put(b, 0, 1);
    bw_put(b, d->effect, 16);
    if (!duck)
      bw_put(b, d->peak >= 0, 1);
    if (!duck && d->peak >= 0)
      bw_put(b, d->peak, 8);
    bw_put(b, d->tl_up >= 0, 1);
    if (d->tl_up >= 0)
    {
      bw_put(b, d->tl_up, 6);
      bw_put(b, d->tl_lo >= 0, 1);
      if (d->tl_lo >= 0)
        bw_put(b, d->tl_lo, 6);
    }
    bw_put(b, 0, 1);
    bw_put(b, d->no_indep, 1);
    for (int ch = 0; ch < d->nch;)
    {
      int run = 1;
      while (d->repeat && ch + run < d->nch && d->gs[ch + run] == d->gs[ch] && (!duck || d->dsc[ch + run] == d->dsc[ch]) && run < 33)
        run++;
      bw_put(b, d->gs[ch], 6);
      if (duck)
        bw_put(b, d->dsc[ch] >= 0, 1);
      if (duck && d->dsc[ch] >= 0)
        bw_put(b, d->dsc[ch], 4);
      bw_put(b, run > 1, 1);
      if (run > 1)
        bw_put(b, run - 2, 5);
      ch += run;
    }
    for (int g = 0; g < ng && !duck; g++)
    {
      bw_put(b, d->scal[g] >= 0, 1);
      if (d->scal[g] >= 0)
        bw_put(b, d->scal[g], 8);
      bw_put(b, d->off[g] >= 0, 1);
      if (d->off[g] >= 0)
        bw_put(b, d->off[g], 6);
    }
  }
  bw_put(b, c->ext > 0, 1);
  for (int i = 0; i < c->ext; i++)
  {
    bw_put(b, 3 + i, 4);
    bw_put(b, 2, 4);
    bw_put(b, 9 + i, 6);
    for (int k = 0; k < 10 + i; k++)
      bw_put(b, k, 1);
  }
  if (c->ext > 0)
    bw_put(b, 0, 4);
  bw_put(b, 0, 1);
}

/* ---- gains of a frame ---- */
typedef struct
{
  int mode;      /* 0: one gain for the frame, 1: nodes */
  int n;         /* nodes */
  int t[64];     /* node positions in steps of the time resolution, 1.. */
  int g[64];     /* gains in 1/8 dB */
  int frame_end; /* the last node is the end of the frame (full_frame implies it) */
} dr_fr;
typedef struct
{
  int size, code, val; /* value in 1/8 dB */
} dr_code;
static const dr_code dr_d01[] = {{2, 3, -1}, {2, 2, 1}, {3, 1, -2}, {3, 2, 0}, {4, 0, -16}, {5, 2, -4}, {5, 15, -3}, {5, 14, 8},
  {6, 25, -5}, {6, 24, 2}, {6, 6, 3}, {7, 15, -8}, {7, 0x34, -7}, {7, 0x36, -6}, {7, 0x37, 4}, {8, 0x1D, 5}, {9, 0x39, -15},
  {9, 0xD5, -9}, {9, 0xD7, 6}, {9, 0xD4, 7}, {10, 0x70, -12}, {10, 0x1AC, -11}, {10, 0x1AD, -10}, {11, 0xE2, -14}, {11, 0xE3, -13}};
static const dr_code dr_d2[] = {{3, 7, -1}, {4, 12, -5}, {4, 9, -4}, {4, 5, -3}, {4, 3, -2}, {4, 1, 0}, {4, 11, 1}, {5, 0x11, -7},
  {5, 14, -6}, {5, 5, 2}, {5, 4, 3}, {5, 8, 4}, {5, 0, 5}, {5, 13, 6}, {5, 15, 7}, {5, 16, 8}, {5, 0x1B, 9}, {6, 0x2B, -10},
  {6, 0x28, -9}, {6, 2, -8}, {6, 0x12, 10}, {6, 0x18, 11}, {6, 0x29, 12}, {7, 0x6A, -32}, {7, 0x54, -14}, {7, 0x68, -13},
  {7, 0x26, -12}, {7, 6, -11}, {7, 0x32, 13}, {8, 0xD2, -18}, {8, 0xAB, -17}, {8, 0xAA, -16}, {8, 0x4F, -15}, {8, 0x4E, 14},
  {8, 0xD7, 15}, {8, 14, 16}, {9, 0x1AD, -29}, {9, 0x1AC, -27}, {9, 0x1A6, -26}, {9, 0xCD, -25}, {9, 0xCE, -22}, {9, 0x1A7, -21},
  {9, 0x1F, -20}, {9, 0xCC, -19}, {10, 0x3C, -28}, {10, 0x19E, -24}, {10, 0x19F, -23}, {11, 0x7A, -31}, {11, 0x7B, -30}};
static const dr_code *dr_tab(int prof, int *n)
{
  *n = prof == GP_CLIPPING ? (int)(sizeof(dr_d2) / sizeof(*dr_d2)) : (int)(sizeof(dr_d01) / sizeof(*dr_d01));
  return prof == GP_CLIPPING ? dr_d2 : dr_d01;
}
static int dr_tmin(int fs)
{
  int lb = (int)(0.5 + 0.0005 * fs), d = 1;
  while (d <= lb)
    d <<= 1;
  return d;
}
static void dr_put_time(bw_t *b, int d, int nmax)
{
  int v = 1;
  while ((1 << v) < 2 * nmax)
    v++;
  if (d == 1)
    bw_put(b, 0, 2);
  else if (d < 6)
    bw_put(b, 4 + d - 2, 4);
  else if (d < 14)
    bw_put(b, 16 + d - 6, 5);
  else
    bw_put(b, (3 << v) + d - 14, 2 + v);
}
/* 0 if it cannot be coded */
static int dr_put_gain0(bw_t *b, int prof, int g)
{
  if (prof == GP_REGULAR)
  {
    if (abs(g) > 255)
      return 0;
    bw_put(b, g < 0, 1);
    bw_put(b, abs(g), 8);
    return 1;
  }
  int nb = prof == GP_FADING ? 10 : 8;
  if (g > 0 || -g > 1 << nb)
    return 0;
  bw_put(b, g < 0, 1);
  if (g < 0)
    bw_put(b, -g - 1, nb);
  return 1;
}
static int dr_put_seq(bw_t *b, const dr_gs *s, const dr_fr *f, int tmin)
{
  int ok = 1;
  if (s->tm)
    tmin = s->tm;
  if (s->prof == GP_CONSTANT)
    return 1;
  bw_put(b, f->mode, 1);
  if (!f->mode)
    return dr_put_gain0(b, s->prof, f->g[0]);
  for (int i = 0; i < f->n; i++)
    bw_put(b, i == f->n - 1, 1);
  int fe = s->full || f->frame_end;
  if (!s->full)
    bw_put(b, fe, 1);
  for (int i = 0, p = 0; i < f->n - fe; i++)
  {
    dr_put_time(b, f->t[i] - p, 1024 / tmin);
    p = f->t[i];
  }
  ok = dr_put_gain0(b, s->prof, f->g[0]);
  for (int i = 1; i < f->n; i++)
  {
    int n, k;
    const dr_code *t = dr_tab(s->prof, &n);
    for (k = 0; k < n && t[k].val != f->g[i] - f->g[i - 1]; k++)
      ;
    if (k == n)
      return 0;
    bw_put(b, t[k].code, t[k].size);
  }
  return ok;
}

/* ---- the gain curve: nodes on a time line, straight lines between the linear gains ---- */
typedef struct
{
  int n;
  long t[4096];
  double g[4096]; /* dB */
} dr_curve;
static void dr_curve_init(dr_curve *c, int tmin, int align)
{
  c->n = 1;
  c->t[0] = -1024;
  (void)tmin;
  (void)align;
  c->g[0] = 0;
}
static void dr_curve_frame(dr_curve *c, const dr_gs *s, const dr_fr *f, long frame, int tmin)
{
  if (s->tm)
    tmin = s->tm;
  long off = s->align ? -tmin + (tmin - 1) / 2 : -1, base = frame * 1024;
  if (s->prof == GP_CONSTANT)
  {
    c->t[c->n] = base + 1023;
    c->g[c->n++] = 0;
    return;
  }
  if (!f->mode)
  {
    c->t[c->n] = base + 1024 + off;
    c->g[c->n++] = f->g[0] / 8.0;
    return;
  }
  int fe = s->full || f->frame_end;
  /* with the frame end flag the last gain is at the end of the frame, unless nodes lie beyond it: then the
   * first node beyond takes the next gain and the end of the frame takes its place */
  long t[64];
  int n = 0, placed = 0;
  for (int i = 0; i < f->n - fe; i++)
  {
    long p = off + (long)f->t[i] * tmin;
    if (fe && p > 1024 + off && !placed)
    {
      t[n++] = 1024 + off;
      placed = 1;
    }
    t[n++] = p;
  }
  if (fe && !placed)
    t[n++] = 1024 + off;
  for (int i = 0; i < f->n; i++)
  {
    c->t[c->n] = base + t[i];
    c->g[c->n++] = f->g[i] / 8.0;
  }
}
static double dr_lin(const dr_in *d, int grp, double g, double ln_db)
{
  double r = 1;
  if (d->scal[grp] >= 0)
    r = (g >= 0 ? d->scal[grp] & 15 : d->scal[grp] >> 4) * 0.125;
  double v = pow(2.0, r * g / 6);
  if (d->off[grp] >= 0)
    v *= pow(2.0, (1 + (d->off[grp] & 31)) * (d->off[grp] & 32 ? -0.25 : 0.25) / 6);
  if (d->effect == 0x100 && d->peak >= 0)
  {
    double h = d->peak * 0.125 - ln_db;
    v *= pow(2.0, (h > 0 ? h : 0) / 6);
    if (v > 1)
      v = 1;
  }
  return v;
}
static double dr_at(const dr_curve *c, const dr_in *d, int grp, double ln_db, long t)
{
  int i;
  if (t < c->t[0])
    return 1;
  for (i = 1; i < c->n && c->t[i] < t; i++)
    ;
  if (i == c->n)
    return dr_lin(d, grp, c->g[c->n - 1], ln_db);
  double a = dr_lin(d, grp, c->g[i - 1], ln_db), b = dr_lin(d, grp, c->g[i], ln_db);
  return a + (b - a) * (double)(t - c->t[i - 1]) / (double)(c->t[i] - c->t[i - 1]);
}
/* what a ducking set does to a channel */
static double dr_duck(const dr_curve *cv, const dr_in *d, int c, long t)
{
  int g = d->gs[c] - 1;
  if (d->effect & 0x400)
  {
    if (g >= 0)
      return 1;
    for (int k = 0; k < d->nch; k++)
      if (d->gs[k])
        g = d->gs[k] - 1;
  }
  if (g < 0)
    return 1;
  double r = d->dsc[c] < 0 ? 1 : 1 + (d->dsc[c] >> 3 ? -0.125 : 0.125) * (1 + (d->dsc[c] & 7));
  const dr_curve *q = &cv[g];
  int i;
  if (t < q->t[0])
    return 1;
  for (i = 1; i < q->n && q->t[i] < t; i++)
    ;
  if (i == q->n)
    return pow(2, r * q->g[q->n - 1] / 6);
  double a = pow(2, r * q->g[i - 1] / 6), b = pow(2, r * q->g[i] / 6);
  return a + (b - a) * (double)(t - q->t[i - 1]) / (double)(q->t[i] - q->t[i - 1]);
}
#endif
