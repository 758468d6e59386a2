/* Scene-based audio: configuration, side information per frame and streams, written from the standard's syntax. */
#ifndef VF_HOA_H
#define VF_HOA_H
#include "synth.h"
#include <math.h>
#define HO_T 16
enum { HT_DIR = 0, HT_VEC = 1, HT_AMB = 2, HT_NONE = 3 };
static int ho_clog2(int v) /* bits that tell v values apart */
{
  int b = 0;
  while ((1 << b) < v)
    b++;
  return b;
}
typedef struct
{
  int order, screen, nfc, min_amb /* -1: no ambience base */, single_layer, itime, imethod, vlen, max_exp, max_order, vqbits, preddirs /* 1..4 */,
      sfbits /* 1..16 */;
  float dist;
  int ntr; /* transport channels */
} ho_cfg;
static int ho_n(const ho_cfg *c) { return (c->order + 1) * (c->order + 1); }
static int ho_min(const ho_cfg *c) { return (c->min_amb + 1) * (c->min_amb + 1); }
static int ho_addl(const ho_cfg *c) { int a = c->ntr - ho_min(c); return a > 0 ? a : 0; }
static void ho_default(ho_cfg *c, int order, int ntr, int min_amb)
{
  memset(c, 0, sizeof *c);
  c->order = order;
  c->ntr = ntr;
  c->min_amb = min_amb;
  c->single_layer = 1;
  c->max_order = order;
  c->max_exp = 3;
  c->vqbits = ho_clog2(ho_clog2(ho_n(c) + 1)) ? 3 : 0;
  int lim = (1 << ho_clog2(ho_clog2(ho_n(c) + 1))) - 1;
  if (c->vqbits > lim)
    c->vqbits = lim;
  c->preddirs = 1;
  c->sfbits = 8;
}
static void ho_put_cfg(bw_t *b, const ho_cfg *c)
{
  bw_put(b, c->order, 3);
  bw_put(b, c->screen, 1);
  bw_put(b, c->nfc, 1);
  if (c->nfc)
  {
    uint8_t v[4];
    memcpy(v, &c->dist, 4);
    for (int i = 0; i < 4; i++)
      bw_put(b, v[i], 8);
  }
  bw_put(b, c->min_amb + 1, 3);
  if (c->min_amb + 1 == 7)
    bw_put(b, 0, 5);
  bw_put(b, c->single_layer, 1);
  bw_put(b, c->itime, 3);
  bw_put(b, c->imethod, 1);
  bw_put(b, c->vlen, 2);
  bw_put(b, c->max_exp, 3);
  bw_put(b, 0, 2);
  if (c->min_amb < c->order)
    bw_put(b, c->max_order - c->min_amb, ho_clog2(c->order - c->min_amb + 1));
  bw_put(b, c->vqbits, ho_clog2(ho_clog2(ho_n(c) + 1)));
  if (c->min_amb == 1)
    bw_put(b, 0, 1);
  bw_put(b, c->preddirs - 1, 2);
  bw_put(b, c->sfbits - 1, 4);
  bw_put(b, 0, 2);
  bw_put(b, 0, 2);
}
typedef struct
{
  int type;
  int dir;                                   /* 0 off, 1..900 */
  int amb, state;                            /* coefficient number from 1; 0 steady, 1 appearing, 2 disappearing */
  int newvec, rep /* coding as in the frame before */, nbits, v[49]; /* 5: eight bits per element */
  int cb, nvq, widx, vidx[128], sgn[128];    /* 4: vector quantized */
  int cbflag, pflag, hv[49];                 /* >= 6: signed values in units of 2^-(nbits-1) (before scaling), prediction */
  int g0;                                    /* gain of the frame before, log2 (independent frames) */
  int ge, gx;                                /* coded gain correction 1.. (1: none), exception */
} ho_ch;
typedef struct
{
  int indep;
  ho_ch ch[HO_T];
  int pred;                                  /* spatial prediction */
  int pkind, pact[49], pid[49][4], pgain[49][4]; /* per virtual direction: signals (ordinal among directional signals, 0 none) */
} ho_fr;
static void ho_fr0(ho_fr *f)
{
  memset(f, 0, sizeof *f);
  f->indep = 1;
  for (int i = 0; i < HO_T; i++)
    f->ch[i].ge = 1, f->ch[i].type = HT_NONE, f->ch[i].nbits = 5, f->ch[i].nvq = 1;
}
static void ho_put_gain(bw_t *b, const ho_cfg *c, const ho_fr *f, const ho_ch *h)
{
  int base = ho_clog2((int)(1.5 * ho_n(c)));
  if (f->indep)
    bw_put(b, h->g0 + base, ho_clog2(base + c->max_exp + 1));
  for (int i = 1; i < h->ge; i++)
    bw_put(b, 0, 1);
  bw_put(b, 1, 1);
  bw_put(b, h->gx, 1);
}
/* which elements of the vectors are sent (vector signal number sig of channel i), coded vector length 1 only leaves some out */
static int ho_first(const ho_cfg *c) { return c->vlen ? ho_min(c) : 0; }
static int ho_sent(const ho_cfg *c, const ho_fr *f, int i, int coef /* from 0 */)
{
  if (coef < ho_first(c))
    return 0;
  if (c->vlen != 1)
    return 1;
  for (int k = 0; k < ho_addl(c); k++)
    if (f->ch[k].type == HT_AMB && f->ch[k].amb == coef + 1)
    {
      if (f->ch[k].state == 0)
        return 0;
      if (f->ch[k].state == 1 && f->ch[i].newvec)
        return 0;
    }
  return 1;
}
static void (*ho_huff)(bw_t *b, const ho_cfg *c, const ho_ch *h, int coef); /* writes one element, set by whoever needs it */
static void ho_put_frame(bw_t *b, const ho_cfg *c, const ho_fr *f)
{
  int na = ho_addl(c), nd = 0, dirs[HO_T];
  bw_put(b, f->indep, 1);
  for (int i = 0; i < na; i++)
  {
    const ho_ch *h = &f->ch[i];
    bw_put(b, h->type, 2);
    if (h->type == HT_DIR)
    {
      bw_put(b, h->dir, 10);
      dirs[nd++] = i;
    }
    else if (h->type == HT_VEC)
    {
      if (f->indep)
      {
        if (c->vlen == 1)
          bw_put(b, h->newvec, 1);
        bw_put(b, h->nbits, 4);
      }
      else
        bw_put(b, h->rep ? 0 : h->nbits, h->rep ? 2 : 4);
      if (!f->indep && h->rep)
        ;
      else if (h->nbits == 4)
      {
        bw_put(b, h->cb, 3);
        bw_put(b, h->nvq - 1, c->vqbits);
      }
      else if (h->nbits >= 6)
      {
        if (!f->indep)
          bw_put(b, h->pflag, 1);
        bw_put(b, h->cbflag, 1);
      }
    }
    else if (h->type == HT_AMB)
    {
      int mb = ho_clog2((c->max_order + 1) * (c->max_order + 1) - ho_min(c));
      if (f->indep)
      {
        bw_put(b, h->state, 2);
        bw_put(b, h->amb - 1 - ho_min(c), mb);
      }
      else
      {
        bw_put(b, h->state != 0, 1);
        if (h->state == 1)
          bw_put(b, h->amb - 1 - ho_min(c), mb);
      }
    }
    ho_put_gain(b, c, f, h);
  }
  for (int i = na; i < c->ntr; i++)
    ho_put_gain(b, c, f, &f->ch[i]);
  for (int i = 0; i < na; i++)
  {
    const ho_ch *h = &f->ch[i];
    if (h->type != HT_VEC)
      continue;
    if (h->nbits == 4)
    {
      int nb = h->cb == 0 ? 10 : h->cb <= 3 ? 6 : ho_clog2(ho_n(c));
      if (h->nvq > 1)
        bw_put(b, h->widx, 8);
      for (int j = 0; j < h->nvq; j++)
      {
        bw_put(b, h->vidx[j], nb);
        bw_put(b, h->sgn[j], 1);
      }
    }
    else
      for (int k = 0; k < ho_n(c); k++)
        if (ho_sent(c, f, i, k))
        {
          if (h->nbits == 5)
            bw_put(b, h->v[k], 8);
          else
            ho_huff(b, c, h, k);
        }
  }
  if (c->single_layer && nd)
  {
    bw_put(b, f->pred, 1);
    if (f->pred)
    {
      int n = ho_n(c), idb = ho_clog2(n), lim = 1;
      while (lim * idb + ho_clog2(lim) < n)
        lim++;
      int mx = lim - 1 > 1 ? lim - 1 : 1, cnt = 0;
      for (int k = 0; k < n; k++)
        cnt += f->pact[k];
      bw_put(b, f->pkind, 1);
      if (!f->pkind)
        for (int k = 0; k < n; k++)
          bw_put(b, f->pact[k], 1);
      else
      {
        bw_put(b, cnt - 1, ho_clog2(mx));
        for (int k = 0; k < n; k++)
          if (f->pact[k])
            bw_put(b, k, idb);
      }
      for (int k = 0; k < n; k++)
        if (f->pact[k])
          for (int j = 0; j < c->preddirs; j++)
            bw_put(b, f->pid[k][j], ho_clog2(nd + 1));
      for (int k = 0; k < n; k++)
        if (f->pact[k])
          for (int j = 0; j < c->preddirs; j++)
            if (f->pid[k][j])
              bw_put(b, f->pgain[k][j], c->sfbits);
    }
  }
}
static int ho_ext; /* element number of the side information */
static void ho_add(sb_t *s, const ho_cfg *c)
{
  static bw_t cfg;
  if (!cfg.d)
    bw_init(&cfg);
  bw_reset(&cfg);
  ho_put_cfg(&cfg, c);
  bw_align(&cfg);
  sy_add_group(&s->cfg, SIG_HOA, c->ntr);
  for (int i = 0; i < c->ntr; i++)
    sy_add_el(&s->cfg, EL_SCE);
  ho_ext = s->cfg.nel;
  sy_el *e = sy_add_el(&s->cfg, EL_EXT);
  e->ext_type = EXT_HOA;
  e->ext_cfg = cfg.d;
  e->ext_cfg_len = bw_len(&cfg);
}
static void ho_md(sb_t *s, int el, const ho_cfg *c, const ho_fr *f)
{
  static bw_t b;
  if (!b.d)
    bw_init(&b);
  bw_reset(&b);
  ho_put_frame(&b, c, f);
  bw_align(&b);
  s->ext[el].present = 1;
  s->ext[el].use_default = 0;
  s->ext[el].n = bw_len(&b);
  memcpy(s->ext[el].d, b.d, bw_len(&b));
}
#endif
