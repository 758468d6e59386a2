/* Library of synthesised streams used by the differential checks.  Each is a fixed, fully determined stream exercising
 * one part of the decoder. */
#ifndef VF_STREAMS_H
#define VF_STREAMS_H
#include "dec.h"
#include "synth.h"
#include "objects.h"
#include "drc.h"

/* deterministic content: a few lines per channel, changing from frame to frame */
static uint32_t sx_rng;
static uint32_t sx_next(void)
{
  sx_rng = sx_rng * 1664525u + 1013904223u;
  return sx_rng >> 8;
}
static void sx_fill(fd_ch *f, int fsi, int seed, int dens)
{
  const int16_t *sfb = f->win == W_SHORT ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
  int nw = f->win == W_SHORT ? 8 : 1, n = 1024 / nw, nq = f->max_sfb ? sfb[f->max_sfb - 1] : 0;
  sx_rng = 0x1234567u * (uint32_t)(seed + 1);
  memset(f->q, 0, sizeof(f->q));
  for (int w = 0; w < nw; w++)
    for (int i = 0; i < nq; i++)
    {
      uint32_t r = sx_next();
      if ((int)(r % 100) < dens)
        f->q[w * n + i] = (int)((r >> 8) % 15) - 7;
    }
}
/* channel elements of a CICP layout, in the order the layout lists its speakers: LFE flags decide, pairs are joined */
static int sx_cicp_nch(int cicp)
{
  static const int n[21] = {0, 1, 2, 3, 4, 5, 6, 8, 0, 3, 4, 7, 8, 24, 8, 12, 10, 12, 14, 12, 14};
  return cicp <= 20 ? n[cicp] : 0;
}
static void sx_layout(sb_t *s, int cicp, const char *els)
{
  int n = 0;
  sy_cfg_default(&s->cfg, cicp);
  for (const char *p = els; *p; p++)
    if (*p == 'S' || *p == 'L')
      n++;
    else if (*p == 'P')
      n += 2;
  sy_add_group(&s->cfg, SIG_CH, n);
  static uint8_t mask[4];
  memset(mask, 0, sizeof(mask));
  for (const char *p = els, *q = els; *p; p++)
  {
    sy_el *e = sy_add_el(&s->cfg, *p == 'S' ? EL_SCE : *p == 'L' ? EL_LFE : *p == 'M' || *p == 'X' ? EL_EXT : EL_CPE);
    if (*p != 'M')
      continue;
    /* multichannel coding of every channel that is no LFE */
    e->ext_type = EXT_MCT;
    e->ext_cfg = mask;
    e->ext_cfg_len = (n + 7) / 8;
    s->mct.on = 1;
    for (int c = 0; *q; q++)
      for (int k = 0; k < (*q == 'P' ? 2 : *q == 'M' || *q == 'X' ? 0 : 1); k++, c++)
        if (*q != 'L')
        {
          mask[c >> 3] |= 0x80 >> (c & 7);
          s->mct.map[s->mct.nch++] = c;
        }
  }
}
enum
{
  ST_MONO, ST_WINDOWS, ST_STEREO, ST_51, ST_441, ST_LTPF, ST_71, ST_714,
  ST_MCT, ST_32K, ST_24K, ST_22K, ST_16K, ST_OBJ, ST_CHOBJ, ST_DRC,
  ST_NBASE
};
static const char *st_name[] = {"mono", "windows", "stereo", "5.1", "44.1k", "ltpf", "7.1", "7.1.4", "mct", "32k", "24k", "22.05k", "16k", "objects", "5.1+objects", "drc",
                                "lpd", "lpd full band", "lpd pair", "lpd stereo", "gap filling", "gap filling pair", "gap filling whitened", "scene 1", "scene 2"};
/* Builds the stream with nf frames into a blob (to be freed by the caller). */
static int st_nonoise; /* leave noise filling out: its random sequence has no defined start */
/* metadata of a frame: everything at independent frames, then differences, absolute values, or none at all */
static void st_objects(sb_t *s, om_state *om, int f, int indep)
{
  static bw_t b;
  if (!b.d)
    bw_init(&b);
  bw_reset(&b);
  int ns = om->pri ? 4 : 1;
  for (int k = 0; k < ns; k++)
  {
    om_t v[OM_MAX];
    static const int modes[2][OM_N] = {{0}, {0, 0, 2, 1, 0, 0, 0, 0}};
    int kind = !k && indep ? 0 : (f + k) % 4, dif;
    for (int i = 0; i < om->nobj; i++)
    {
      int z = f * ns + k + 5 * i;
      const om_t n = {{(z * 5) % 240 - 120, (z * 3) % 50 - 20, i && !indep ? om->cur[i].v[OM_RAD] : 3, 32 - z % 9, z % 30, z % 20, z % 8, 4 + z % 3}};
      v[i] = n;
      for (int p = 0; p < OM_N; p++)
        if (kind && om->fixed[p >= OM_SW && p <= OM_SD ? OM_SW : p])
          v[i].v[p] = om->cur[i].v[p];
      if (om->uniform)
        v[i].v[OM_SH] = v[i].v[OM_SD] = om->cur[i].v[OM_SH];
    }
    if (ns > 1)
      bw_put(&b, kind != 3, 1);
    else if (kind == 3)
      kind = 1;
    if (!kind)
      om_intra(om, v, modes[f >> 2 & 1], &b);
    for (dif = 0; dif < 7 && !om_diff_fits(om, v, 1u, dif); dif++)
      ;
    if (kind == 1)
      om_diff(om, v, 1u, dif, 0, &b);
    if (kind == 2)
      om_abs(om, v, 2u | (unsigned)f >> 1, &b);
  }
  ob_md(s, ob_ext, &b);
}
/* loudness data and two gain sets, one of them of two bands, chosen by the requested effect */
static dr_cfg st_dr;
static void st_drc_cfg(sb_t *s)
{
  static bw_t cb, lb;
  if (!cb.d)
    bw_init(&cb), bw_init(&lb);
  bw_reset(&cb);
  bw_reset(&lb);
  dr_cfg *c = &st_dr;
  memset(c, 0, sizeof(*c));
  c->nch = c->ngs = c->ni = 2;
  c->gs[0].prof = GP_REGULAR;
  c->gs[0].nb = 2;
  c->gs[0].xover[0] = 6;
  c->gs[1].prof = GP_CLIPPING;
  c->ext = 1;
  for (int i = 0; i < 2; i++)
    dr_in_init(&c->in[i], i + 1, 1 << i, 2);
  c->in[0].gs[0] = 2, c->in[0].gs[1] = 1;
  c->in[1].gs[0] = c->in[1].gs[1] = 2;
  c->in[1].scal[0] = 0x54, c->in[1].off[0] = 5;
  dr_put_cfg(&cb, c);
  bw_align(&cb);
  ld_info li[3];
  memset(li, 0, sizeof(li));
  for (int i = 0; i < 3; i++)
  {
    li[i].drc_set = i;
    li[i].sample_peak = i ? -1 : 100;
    li[i].true_peak = i < 2 ? -1 : 90;
    li[i].n = i + 1;
    for (int k = 0; k <= i; k++)
      li[i].m[k] = (ld_meas){1 + k, 140 + i * 8, 2, 3};
  }
  ld_set(&lb, li, 3, li + 1, 1, 1);
  bw_align(&lb);
  sy_el *e = sy_add_el(&s->cfg, EL_EXT);
  e->ext_type = EXT_DRC;
  e->ext_cfg = cb.d;
  e->ext_cfg_len = bw_len(&cb);
  s->cfg.has_ext = 1;
  bw_init(&s->cfg.cfgext);
  bw_esc(&s->cfg.cfgext, 0, 2, 4, 8);
  bw_esc(&s->cfg.cfgext, 2, 4, 8, 16);
  bw_esc(&s->cfg.cfgext, bw_len(&lb), 4, 8, 16);
  bw_bytes(&s->cfg.cfgext, lb.d, bw_len(&lb));
}
static void st_drc_frame(sb_t *s, int f)
{
  static bw_t b;
  if (!b.d)
    bw_init(&b);
  bw_reset(&b);
  for (int k = 0; k < 3; k++)
  {
    dr_fr r;
    memset(&r, 0, sizeof(r));
    r.mode = (f + k) % 3 > 0;
    r.n = r.mode ? 1 + (f * 5 + k) % 6 : 1;
    r.frame_end = (f >> k) & 1;
    for (int i = 0; i < r.n; i++)
    {
      r.t[i] = i ? r.t[i - 1] + 1 + (f + i) % 5 : 1 + f % 3;
      r.g[i] = i ? r.g[i - 1] + (i & 1 ? -5 : 3) : k < 2 ? (f % 5) * 8 - 20 : -8 * (f % 4) - 8;
    }
    dr_put_seq(&b, &st_dr.gs[k / 2], &r, 32);
  }
  bw_put(&b, 0, 1);
  bw_align(&b);
  int el = s->cfg.nel - 1;
  s->ext[el].present = 1;
  s->ext[el].n = bw_len(&b);
  memcpy(s->ext[el].d, b.d, s->ext[el].n);
}
static long st_fields; /* fields of the configuration */
/* ---- recorded access units: tools without an encoder of our own (linear prediction domain, gap filling) ---- */
enum
{
  JK_LPD,
  JK_LPDFB,
  JK_LPDCPE,
  JK_LPDST,
  JK_IGF,
  JK_IGFCPE,
  JK_IGFENF,
  JK_HOA,
  JK_HOA2,
  JK_N
};
#define JK_F 12
static void jk_cfg(sb_t *s, int k)
{
  int cpe = k == JK_LPDCPE || k == JK_LPDST || k == JK_IGFCPE || k == JK_IGFENF;
  sx_layout(s, cpe ? 2 : 1, cpe ? "P" : "S");
  sy_el *e = &s->cfg.el[0];
  e->nf = k != JK_IGF;
  e->fb_lpd = k == JK_LPDFB || k == JK_LPDST;
  e->lpd_stereo = k == JK_LPDST;
  if (k == JK_LPD || k == JK_LPDCPE)
    s->cfg.fs_idx = 6;
  if (k >= JK_IGF)
  {
    e->enf = 1;
    e->igf_enf = k == JK_IGFENF;
    e->igf_high = k != JK_IGFCPE;
    e->igf_white = k != JK_IGF;
    e->igf_after = k == JK_IGFENF;
    e->igf_start = 5;
    e->igf_stop = 12;
    e->igf_indep = k == JK_IGFENF;
  }
}
/* the chosen start of a unit, the rest is drawn at random */
static void jk_head(int k, int f, bw_t *b, uint32_t r)
{
  static const int mode[JK_F] = {0, 1, 1, 0, 1, 1, 1, 0, 0, 1, 0, 1};
  int cpe = k == JK_LPDCPE || k == JK_LPDST || k == JK_IGFCPE || k == JK_IGFENF, m = k < JK_IGF && mode[f];
  bw_put(b, f % 4 == 0, 1);
  bw_put(b, m, 1);
  if (cpe)
    bw_put(b, k == JK_LPDCPE ? (m ^ (f % 5 == 2)) : m, 1);
  if (m || (cpe && k == JK_LPDCPE && f % 5 == 2))
    return;
  bw_put(b, r & 1, 1); /* noise shaping */
  if (!cpe)
    bw_put(b, 110 + (r >> 4) % 40, 8);
}
static const struct
{
  int k, f, n;
  const char *d;
} jk_units[] = {
#ifdef JK_MAKE
    {0, 0, 0, 0}
#else
#include "junk.h"
#endif
};
/* the recorded streams follow the others: ids ST_NBASE to ST_ALL - 1 */
#define ST_JK ST_NBASE
#define ST_ALL (ST_NBASE + JK_N)
static blob st_junk(int k, int nf)
{
  sb_t *s = sb_new();
  jk_cfg(s, k);
  mhas_sync(&s->o);
  if (k < JK_HOA)
    sb_config(s);
  for (int f = -1; f < nf; f++)
    for (unsigned i = 0; i < sizeof(jk_units) / sizeof(jk_units[0]); i++)
      if (jk_units[i].k == k && jk_units[i].f == f)
      {
        if (f >= 0)
          s->au_off[s->nau++] = bw_len(&s->o);
        mhas_packet(&s->o, f < 0 ? MH_CFG : MH_FRAME, s->label, (const uint8_t *)jk_units[i].d, jk_units[i].n);
        s->au_off[s->nau] = bw_len(&s->o);
      }
  blob b;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  return b;
}

static blob st_build(int id, int nf)
{
  bw_mut.n = 0;
  if (id >= ST_NBASE)
    return st_junk(id - ST_NBASE, nf);
  sb_t *s = sb_new();
  int gain = 150;
  om_state om;
  memset(&om, 0, sizeof(om));
  switch (id)
  {
  case ST_MONO: sx_layout(s, 1, "S"); break;
  case ST_WINDOWS: sx_layout(s, 1, "S"); s->cfg.el[0].nf = !st_nonoise; break;
  case ST_STEREO: sx_layout(s, 2, "P"); s->cfg.el[0].nf = !st_nonoise; break;
  case ST_51: sx_layout(s, 6, "PSLP"); break;
  case ST_441: sx_layout(s, 2, "P"); s->cfg.fs_idx = 4; break;
  case ST_LTPF: sx_layout(s, 1, "S"); break;
  case ST_71: sx_layout(s, 12, "PSLPP"); break;
  case ST_MCT: sx_layout(s, 6, "MPSLP"); break;
  case ST_32K: sx_layout(s, 2, "P"); s->cfg.fs_idx = 5; break;
  case ST_24K: sx_layout(s, 6, "PSLP"); s->cfg.fs_idx = 6; break;
  case ST_22K: sx_layout(s, 2, "P"); s->cfg.fs_idx = 7; break;
  case ST_16K: sx_layout(s, 1, "S"); s->cfg.fs_idx = 8; break;
  case ST_OBJ: ob_layout(s, 6, om.nobj = 3, 256, 0, 1); om.pri = 1; break;
  case ST_CHOBJ:
    sx_layout(s, 6, "PSLP");
    s->cfg.rdc = 1;
    ob_add(s, om.nobj = 2, 0, 1, 0);
    om.uniform = 1;
    break;
  case ST_DRC: sx_layout(s, 2, "P"); st_drc_cfg(s); break;
  case ST_714: sx_layout(s, 19, "PSLPPPP"); break;
  }
  mhas_sync(&s->o);
  sb_config(s);
  st_fields = bw_mut.n;
  sb_channels(s);
  for (int f = 0; f < nf; f++)
  {
    static const int seq[] = {W_LONG, W_START, W_SHORT, W_STOP, W_LONG, W_START, W_SHORT, W_SHORT, W_START, W_STOP};
    int indep = f % 4 == 0, c = 0;
    for (int e = 0; e < s->cfg.nel; e++)
    {
      int n = s->cfg.el[e].type == EL_CPE ? 2 : s->cfg.el[e].type == EL_EXT ? 0 : 1;
      for (int k = 0; k < n; k++, c++)
      {
        fd_ch *x = &s->ch[c];
        int lfe = s->cfg.el[e].type == EL_LFE;
        fd_gain(x, gain);
        x->win = W_LONG;
        x->max_sfb = lfe ? 5 : 30;
        if ((id == ST_WINDOWS || id == ST_STEREO) && !lfe)
        {
          x->win = seq[f % 10];
          x->shape = (f / 3) & 1;
          x->grouping = 0x55 ^ (f & 0x7f);
          x->noise_level = f & 7;
          x->noise_offset = (f * 5) & 31;
        }
        if (x->win == W_SHORT)
          x->max_sfb = 12;
        x->arith_reset = f % 3 == 0;
        x->use_stop = f & 1;
        if (id == ST_LTPF)
        {
          x->ltpf = f % 3 != 0;
          x->lag = 100 + 31 * (f % 7);
          x->ltpf_gain = f & 3;
          x->fdp = !indep && f % 2;
          x->fdp_idx = 40 + 8 * f;
        }
        sx_fill(x, s->cfg.fs_idx, f * 40 + c, lfe ? 60 : 12);
        x->tns = 0;
        if (id == ST_STEREO && f % 3 == 1 && x->win != W_SHORT)
        {
          x->tns = 1;
          memset(x->t, 0, sizeof(x->t));
          x->t[0].nfilt = 1;
          x->t[0].coef_res = 1;
          x->t[0].f[0].length = 20;
          x->t[0].f[0].order = 3;
          x->t[0].f[0].dir = k;
          x->t[0].f[0].coef[0] = 3;
          x->t[0].f[0].coef[1] = -2;
          x->t[0].f[0].coef[2] = 1;
        }
      }
      if (s->cfg.el[e].type == EL_CPE)
      {
        sy_cpe *p = &s->cpe[e];
        memset(p, 0, sizeof(*p));
        p->common_window = 1;
        p->ms = (f + e) % 4;
        p->tns_on_lr = f & 1;
        if (p->ms == 1)
          for (int g = 0; g < 8; g++)
            for (int b = 0; b < 52; b++)
              p->used[g][b] = (b + g + f) % 3 == 0;
        if (p->ms == 3)
        {
          p->pred_all = 1;
          p->complex_coef = f & 1;
          p->use_prev = (f >> 1) & 1;
          p->pred_dir = (f >> 2) & 1;
          for (int g = 0; g < 8; g++)
            for (int b = 0; b < 52; b += 2)
            {
              p->are[g][b] = (b + f) % 7 - 3;
              p->aim[g][b] = (b + g) % 5 - 2;
            }
        }
      }
    }
    if (id == ST_MCT)
    {
      sy_mct *t = &s->mct;
      t->np = 1 + f % 3;
      t->type = f >> 2 & 1;
      for (int i = 0; i < t->np; i++)
      {
        t->pair[i][0] = (f + i) % 2;
        t->pair[i][1] = 2 + (f / 2 + i) % 3;
        t->bandwise[i] = i & 1;
        t->nband[i] = 15;
        t->dt[i] = f % 4 == 2;
        for (int k = 0; k < 64; k++)
          t->coef[i][k] = t->type ? 20 + (f + i + k) % 24 : (f + i + k) % 9 - 4;
      }
    }
    if (om.nobj)
      st_objects(s, &om, f, indep);
    if (id == ST_DRC)
      st_drc_frame(s, f);
    sb_frame(s, indep);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  return b;
}

static int st_count(void) { return ST_NBASE; }
static const char *st_title(int id) { return st_name[id]; }

/* ---- decoder settings under which the streams are decoded ---- */
typedef struct
{
  const char *name;
  int cicp, wd, resamp, tgt;
} dconf;
static const dconf dconfs[] = {
    {"default", 0, 16, 0, 0},   {"cicp2/24", 2, 24, 0, 0}, {"cicp6/32", 6, 32, 0, 0}, {"cicp1", 1, 16, 0, 0},
    {"32000Hz", 0, 16, 32000, 0}, {"44100Hz", 0, 16, 44100, 0}, {"cicp19", 19, 16, 0, 0}, {"48000Hz", 0, 24, 48000, 0},
    {"-24LKFS", 0, 16, 0, 96},   {"-20LKFS/cicp6", 6, 24, 0, 80},
};
#define NDCONF ((int)(sizeof(dconfs) / sizeof(dconfs[0])))
/* the converter between layouts has no equaliser for 16 kHz: such streams play in their own layout only */
static int dconf_ok(int id, int c) { return id != ST_16K || !dconfs[c].cicp; }
static void dconf_apply(dec_t *d, const dconf *c)
{
  d->in.ui_cicp_layout_idx = c->cicp;
  d->in.ui_pcm_wd_sz = c->wd;
  if (c->tgt)
  {
    d->in.ui_target_loudness[0] = 1;
    d->in.ui_target_loudness[1] = c->tgt;
    d->in.ui_effect = 1 + (c->tgt == 80);
  }
  if (c->resamp)
  {
    d->in.enable_resamp = 1;
    d->in.out_samp_freq = c->resamp;
  }
}
#endif
