/* P25: joint stereo.  Every flag, coefficient and mode of channel pairs, against the model. */
#include "vf.h"
#include "model.h"
#include "objects.h"

static uint32_t rng;
static uint32_t rnd(void)
{
  rng = rng * 1664525u + 1013904223u;
  return rng >> 8;
}
static int nbands(const fd_ch *f, int fsi) { return f->win == W_SHORT ? gold_nsfb_s[fsi] : gold_nsfb_l[fsi]; }
static int nlines(const fd_ch *f, int fsi)
{
  return !f->max_sfb ? 0 : f->win == W_SHORT ? gold_sfb_s[fsi][f->max_sfb - 1] : gold_sfb_l[fsi][f->max_sfb - 1];
}
/* random spectrum over the coded bands, every line distinct enough to show a swap */
static void fill(fd_ch *f, int fsi)
{
  int sh = f->win == W_SHORT, n = nlines(f, fsi);
  memset(f->q, 0, sizeof(f->q));
  for (int w = 0; w < (sh ? 8 : 1); w++)
    for (int i = 0; i < n; i++)
      f->q[w * 128 + i] = (int)(rnd() % 11) - 5;
}
/* a pair with common window and full bandwidth; window by position in a legal cycle */
static void pair_frame(mt_t *m, int el, int c, int win, int fsi)
{
  sy_cpe *p = &m->s->cpe[el];
  fd_ch *l = &m->s->ch[c], *r = l + 1;
  memset(p, 0, sizeof(*p));
  for (int k = 0; k < 2; k++)
  {
    l[k].win = win;
    l[k].shape = l->shape;
    l[k].max_sfb = nbands(&l[k], fsi);
    l[k].grouping = l->grouping;
    fd_gain(&l[k], 130);
  }
  (void)r;
  p->common_window = 1;
}
static const int cycle[] = {W_LONG, W_START, W_SHORT, W_SHORT, W_STOP};
#define NB(x) (sizeof(x) / sizeof(*(x)))

/* all channels in one window type, random spectra */
static void mct_frame(mt_t *m, int win, int fsi, int gain)
{
  int nch = m->s->nch;
  for (int c = 0; c < nch; c++)
  {
    fd_ch *f = &m->s->ch[c];
    int lfe = 0, k = 0;
    for (int i = 0; i < m->s->cfg.nel; i++)
    {
      int t = m->s->cfg.el[i].type;
      lfe |= t == EL_LFE && k == c;
      k += t == EL_CPE ? 2 : t == EL_EXT ? 0 : 1;
    }
    f->win = lfe ? W_LONG : win;
    f->max_sfb = lfe ? 3 : nbands(f, fsi);
    f->arith_reset = rnd() & 1;
    fd_gain(f, gain);
    fill(f, fsi);
  }
}
static void mct(void)
{
  /* every angle and every coefficient, whole bandwidth and in each band */
  for (int type = 0; type < 2; type++)
    for (int v0 = type ? 0 : -60; v0 <= (type ? 64 : 60); v0 += 8)
      for (int bw = 0; bw < 2; bw++)
        if (vf_case("%s from %d, %s", type ? "angles" : "coefficients", v0, bw ? "by band" : "whole"))
        {
          mt_t m = mt_new("MSS", 2, 3 + (v0 & 31) / 8 % 4);
          int fsi = m.s->cfg.fs_idx, fr = 0;
          sy_mct *t = &m.s->mct;
          mt_begin(&m);
          rng = v0;
          t->type = type;
          t->np = 1;
          t->pair[0][1] = 1;
          for (int v = v0; v < v0 + 8 && v <= (type ? 64 : 60); v++)
            for (int b = 0; b < (bw ? (gold_nsfb_l[fsi] + 1) / 2 : 6); b++, fr++)
            {
              mct_frame(&m, W_LONG, fsi, v > 25 || v < -25 ? 118 : 126);
              t->bandwise[0] = bw;
              t->nband[0] = (gold_nsfb_l[fsi] + 1) / 2;
              t->pred_dir[0] = b & 1;
              t->dt[0] = b >> 1 & 1;
              if (!bw)
                t->coef[0][0] = v;
              else
                for (int k = 0; k < 64; k++)
                  t->coef[0][k] = k == b ? v : type ? 40 : 0;
              mt_frame(&m, fr % 11 == 0);
            }
          mt_check(&m, "mct-value");
          vf_nontriv++;
          mt_free(&m);
        }
  /* every pair of channels, over layouts with and without LFE and pairs of their own */
  static const struct { const char *els; int cicp; } lay[] = {{"MSSS", 3}, {"MPSP", 5}, {"MSPPL", 6}, {"MPSLP", 6}, {"MPPPLS", 12}, {"MSPPPPPL", 19}};
  for (int l = 0; l < 6; l++)
    for (int sh = 0; sh < 2; sh++)
      if (vf_case("pairs of %s%s", lay[l].els, sh ? ", short" : ""))
      {
        mt_t m = mt_new(lay[l].els, lay[l].cicp, 4);
        sy_mct *t = &m.s->mct;
        mt_begin(&m);
        rng = l;
        t->np = 0;
        mct_frame(&m, sh ? W_START : W_LONG, 4, 120);
        mt_frame(&m, 1);
        for (int rep = 0; rep < 2; rep++)
          for (int hi = 1; hi < t->nch; hi++)
            for (int lo = 0; lo < hi; lo++)
              for (int ty = 0; ty < 2; ty++)
              {
                mct_frame(&m, sh ? W_SHORT : W_LONG, 4, 120);
                if (sh)
                  for (int c = 0; c < m.s->nch; c++)
                    m.s->ch[c].grouping = rnd() & 127;
                t->np = 1 + rep;
                t->type = ty;
                t->pair[0][0] = lo;
                t->pair[0][1] = hi;
                t->pair[1][0] = 0;
                t->pair[1][1] = 1 + rnd() % (t->nch - 1);
                for (int i = 0; i < 2; i++)
                {
                  t->mask_flag[i] = rnd() & 1;
                  t->bandwise[i] = rnd() & 1;
                  t->nband[i] = sh ? 1 + rnd() % 7 : 1 + rnd() % 25;
                  t->pred_dir[i] = rnd() & 1;
                  t->dt[i] = 0;
                  for (int k = 0; k < 64; k++)
                  {
                    t->mask[i][k] = rnd() & 1;
                    t->coef[i][k] = ty ? (int)(rnd() % 65) : (int)(rnd() % 41) - 20;
                  }
                }
                mt_frame(&m, 0);
              }
        mt_check(&m, "mct-pair");
        vf_nontriv++;
        mt_free(&m);
      }
  /* masks: each band alone, all but one, band counts, at every sampling rate */
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int sh = 0; sh < 2; sh++)
      if (vf_case("masks at fs %d%s", gold_fs[fsi], sh ? ", short" : ""))
      {
        mt_t m = mt_new("MSS", 2, fsi);
        sy_mct *t = &m.s->mct;
        int ns = sh ? gold_nsfb_s[fsi] : gold_nsfb_l[fsi], nbd = (ns + 1) / 2;
        mt_begin(&m);
        rng = fsi;
        t->np = 0;
        mct_frame(&m, sh ? W_START : W_LONG, fsi, 126);
        mt_frame(&m, 1);
        t->pair[0][1] = 1;
        t->np = 1;
        t->type = 1;
        for (int nb = 1; nb <= nbd; nb++)
          for (int b = 0; b < (sh ? 8 * nb : nb); b++)
            for (int k = 0; k < 2; k++)
            {
              mct_frame(&m, sh ? W_SHORT : W_LONG, fsi, 126);
              t->mask_flag[0] = 1;
              t->bandwise[0] = b & 1;
              t->nband[0] = nb;
              t->dt[0] = b ? rnd() & 1 : 0;
              for (int i = 0; i < 64; i++)
              {
                t->mask[0][i] = (i == b) ^ k;
                t->coef[0][i] = rnd() % 65;
              }
              mt_frame(&m, 0);
            }
        mt_check(&m, "mct-mask");
        vf_nontriv++;
        mt_free(&m);
      }
  /* trees of many pairs, kept or sent anew, coefficients relative to the frame before, transform lengths changing */
  for (int h = 0; h < (vf_thorough ? 512 : 64); h++)
    if (vf_case("trees, history %d", h))
    {
      mt_t m = mt_new(h & 1 ? "MSSSSS" : "MPSLP", h & 1 ? 5 : 6, 4);
      sy_mct *t = &m.s->mct;
      int last_type = -1;
      mt_begin(&m);
      rng = h * 31 + 7;
      for (int fr = 0; fr < 60; fr++)
      {
        int indep = fr == 0 || (rnd() & 15) == 0, win = h & 2 ? cycle[fr % 5] : W_LONG, sh = win == W_SHORT;
        mct_frame(&m, win, 4, 112);
        for (int c = 0; c < m.s->nch; c++)
        {
          m.s->ch[c].grouping = rnd() & 127;
          m.s->ch[c].shape = rnd() & 1;
        }
        for (int e = 0; e < m.s->cfg.nel; e++)
          if (m.s->cfg.el[e].type == EL_CPE)
          {
            memset(&m.s->cpe[e], 0, sizeof(sy_cpe));
            m.s->cpe[e].common_window = rnd() & 1;
            m.s->cpe[e].ms = rnd() % 3;
            for (int i = 0; i < 8 * 52; i++)
              m.s->cpe[e].used[0][i] = rnd() & 1;
          }
        t->keep = !indep && (rnd() & 1);
        t->type = h & 4 ? h >> 3 & 1 : rnd() & 1;
        if (!t->keep || indep)
        {
          t->np = h & 16 ? rnd() % 17 : rnd() % 4;
          for (int i = 0; i < t->np; i++)
          {
            t->pair[i][1] = 1 + rnd() % (t->nch - 1);
            t->pair[i][0] = rnd() % t->pair[i][1];
          }
        }
        for (int i = 0; i < SY_BOX; i++)
        {
          t->mask_flag[i] = rnd() & 1;
          t->bandwise[i] = rnd() & 1;
          t->nband[i] = sh ? 1 + rnd() % 7 : 1 + rnd() % 25;
          t->pred_dir[i] = rnd() & 1;
          t->dt[i] = last_type == t->type ? rnd() & 1 : 0;
          for (int k = 0; k < 64; k++)
          {
            t->mask[i][k] = rnd() & 1;
            t->coef[i][k] = t->type ? (int)(rnd() % 65) : (int)(rnd() % 13) - 6;
          }
        }
        last_type = t->type;
        mt_frame(&m, indep);
      }
      mt_check(&m, "mct-tree");
      vf_nontriv++;
      mt_free(&m);
    }
}

/* empty bands of a pair's second channel filled from the pair's previous frame */
static void mct_filling(void)
{
  static const struct { const char *els; int cicp; } lay[] = {{"MSS", 2}, {"MSSS", 3}, {"MSPPL", 6}};
  for (int l = 0; l < 3; l++)
    for (int fsi = 3; fsi <= 8; fsi++)
      for (int mode = 0; mode < 8; mode++) /* type, mask, by band */
        for (int wk = 0; wk < 3; wk++)
          if ((vf_thorough || (fsi + mode + wk + l) % 3 == 0 || (l < 2 && fsi < 5)) &&
              vf_case("filling in %s at %d Hz, %s%s%s, %s", lay[l].els, gold_fs[fsi], mode & 1 ? "angles" : "coefficients", mode & 2 ? " with a mask" : "",
                      mode & 4 ? " by band" : "", wk == 2 ? "short windows" : wk ? "window changes" : "long windows"))
          {
            mt_t m = mt_new(lay[l].els, lay[l].cicp, fsi);
            sy_mct *t = &m.s->mct;
            m.rel = 6e-5; /* the fill is scaled up by as much as 100 */
            for (int e = 0; e < m.s->cfg.nel; e++)
              if (m.s->cfg.el[e].type == EL_SCE || m.s->cfg.el[e].type == EL_CPE)
                m.s->cfg.el[e].nf = 1;
            mt_begin(&m);
            rng = l * 7 + fsi * 64 + mode * 3 + wk;
            for (int fr = 0; fr < (vf_thorough ? 96 : 40); fr++)
            {
              int win = wk == 0 ? W_LONG : wk == 1 ? cycle[fr % 5] : fr == 0 ? W_START : W_SHORT, sh = win == W_SHORT;
              mct_frame(&m, win, fsi, 112);
              unsigned grp = rnd() & 127;
              for (int c = 0; c < m.s->nch; c++)
              {
                fd_ch *f = &m.s->ch[c];
                const int16_t *tb = sh ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
                if (f->max_sfb <= 3 && !sh)
                  continue;
                f->grouping = grp;
                f->noise_level = fr % 3 ? 0 : rnd() & 7;
                f->noise_offset = rnd() & 31;
                for (int b = 0; b < f->max_sfb; b++)
                {
                  int z = fr % 4 == 0 ? (int)(rnd() & 1) : fr % 4 == 1 ? b % 3 == 1 : fr % 4 == 2 ? b != fr % 10 : 1;
                  for (int w = 0; c == t->map[t->nch - 1] && z && w < (sh ? 8 : 1); w++)
                    for (int i = b ? tb[b - 1] : 0; i < tb[b]; i++)
                      f->q[w * 128 + i] = 0;
                }
              }
              for (int e = 0; e < m.s->cfg.nel; e++)
                if (m.s->cfg.el[e].type == EL_CPE)
                {
                  memset(&m.s->cpe[e], 0, sizeof(sy_cpe));
                  m.s->cpe[e].common_window = wk == 0 && fr >> 2 & 1;
                }
              t->stereo_filling = fr % 7 != 3;
              t->keep = 0;
              t->type = mode & 1;
              t->np = t->nch > 2 ? 1 + rnd() % 3 : 1;
              for (int i = 0; i < t->np; i++)
              {
                t->fill[i] = t->nch > 2 ? (int)(rnd() & 1) : 1;
                t->pair[i][1] = 1 + rnd() % (t->nch - 1);
                t->pair[i][0] = rnd() % t->pair[i][1];
                t->mask_flag[i] = mode >> 1 & 1;
                /* which window's angle stands for the frame before is not defined: the one angle all readings share */
                t->bandwise[i] = mode >> 2 & 1;
                t->nband[i] = sh ? 1 + rnd() % 7 : 1 + rnd() % 25;
                t->pred_dir[i] = rnd() & 1;
                t->dt[i] = 0;
                for (int k = 0; k < 64; k++)
                {
                  t->mask[i][k] = sh ? 1 : rnd() & 1;
                  t->coef[i][k] = t->type ? (sh ? 48 : (int)(rnd() % 65)) : (int)(rnd() % 13) - 6;
                }
              }
              mt_frame(&m, fr == 0 || fr % 13 == 9);
            }
            mt_check(&m, "mct-filling");
            vf_nontriv++;
            mt_free(&m);
          }
}
/* Multichannel coding of two signal groups, channels and objects placed at the loudspeakers: each group keeps its own
 * pairs, previous angles and previous spectra.  The output is the sum of the two. */
static void two_groups(void)
{
  for (int fsi = 3; fsi <= 7; fsi++)
    for (int mode = 0; mode < 8; mode++)
      for (int fill2 = 0; fill2 < 4; fill2++)
        if ((vf_thorough || (fsi + mode + fill2) % 2 == 0) &&
            vf_case("two groups at %d Hz, %s%s, filling in %s", gold_fs[fsi], mode & 1 ? "angles" : "coefficients", mode & 2 ? " by band" : "",
                    ((const char *[]){"neither", "the channels", "the objects", "both"})[fill2]))
        {
          mt_t m = mt_new("MSS", 2, fsi);
          sb_t *s = m.s;
          static uint8_t mask2 = 0xc0;
          bw_t cfg, md;
          bw_init(&cfg);
          bw_init(&md);
          s->cfg.rdc = 1;
          om_cfg(&cfg, 0, 0, 0);
          bw_align(&cfg);
          sy_add_group(&s->cfg, SIG_OBJ, 2);
          sy_el *e = sy_add_el(&s->cfg, EL_EXT);
          e->ext_type = EXT_MCT;
          e->ext_cfg = &mask2;
          e->ext_cfg_len = 1;
          s->mct2.on = 1;
          s->mct2.nch = 2;
          s->mct2.map[0] = 2;
          s->mct2.map[1] = 3;
          sy_add_el(&s->cfg, EL_SCE);
          sy_add_el(&s->cfg, EL_SCE);
          int ex = s->cfg.nel;
          e = sy_add_el(&s->cfg, EL_EXT);
          e->ext_type = EXT_OAM;
          e->ext_cfg = cfg.d;
          e->ext_cfg_len = bw_len(&cfg);
          for (int i = 0; i < s->cfg.nel; i++)
            if (s->cfg.el[i].type == EL_SCE)
              s->cfg.el[i].nf = 1;
          mt_begin(&m);
          om_state om;
          memset(&om, 0, sizeof(om));
          om.nobj = 2;
          om_t v[2] = {{{20, 0, 3, 32}}, {{-20, 0, 3, 32}}};
          bw_reset(&md);
          om_intra(&om, v, (const int[OM_N]){0}, &md);
          ob_md(s, ex, &md);
          rng = fsi * 64 + mode * 8 + fill2;
          for (int fr = 0; fr < (vf_thorough ? 60 : 24); fr++)
          {
            mct_frame(&m, mode & 4 ? cycle[fr % 5] : W_LONG, fsi, 132);
            for (int g = 0; g < 2; g++)
            {
              sy_mct *t = g ? &s->mct2 : &s->mct;
              fd_ch *f = &s->ch[2 * g + 1];
              int sh = f->win == W_SHORT;
              const int16_t *tb = sh ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
              t->stereo_filling = fill2 >> g & 1 && !sh;
              t->fill[0] = 1;
              for (int b = 0; b < f->max_sfb && t->stereo_filling; b++)
                for (int i = b ? tb[b - 1] : 0; i < tb[b] && (b + fr) % 3; i++)
                  f->q[i] = 0;
              t->type = mode & 1;
              t->np = 1;
              t->pair[0][0] = 0;
              t->pair[0][1] = 1;
              t->bandwise[0] = mode >> 1 & 1;
              t->nband[0] = sh ? 1 + rnd() % 7 : 1 + rnd() % 25;
              t->pred_dir[0] = rnd() & 1;
              t->dt[0] = fr % 6 ? rnd() & 1 : 0;
              for (int k = 0; k < 64; k++)
              {
                t->mask[0][k] = 1;
                t->coef[0][k] = t->type ? (sh ? 48 : (int)(rnd() % 65)) : (int)(rnd() % 13) - 6;
              }
            }
            mt_frame(&m, fr % 6 == 0);
          }
          dec_t d;
          blob b;
          b.d = sb_take(s, &b.n);
          dec_defaults(&d);
          d.in.ui_pcm_wd_sz = 32;
          d.in.ui_cicp_layout_idx = 2;
          int err = dec_all(&d, b, 0);
          long n = d.npcm / 8;
          const int32_t *p = (const int32_t *)d.pcm;
          double mx = 0, worst = 0;
          if (err || d.out.i_num_chan != 2 || n < m.r.n - 1024)
            vf_fail("mct-groups", "decoding answered %x, %d channels, %ld samples of %ld", err, d.out.i_num_chan, n, m.r.n);
          for (long t = 2048; t < n; t++)
            for (int k = 0; k < 2; k++)
            {
              const double *x = m.r.pcm + 4 * t;
              double y = p[2 * t + k] / 65536.0, z = x[k] + x[k + 2], f = fabs(y - z);
              mx = fmax(mx, fabs(z));
              worst = fmax(worst, f);
            }
          if (worst > 3e-5 * mx)
            vf_fail("mct-groups", "off by %g at a peak of %g", worst, mx);
          dec_close(&d);
          dec_free(&d);
          free(b.d);
          bw_free(&cfg);
          bw_free(&md);
          vf_nontriv++;
          mt_free(&m);
        }
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  two_groups();
  mct_filling();
  /* mid/side: each band alone, each band but one, prefixes, all by the short form, at every sampling rate */
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int kind = 0; kind < 4; kind++)
      if (vf_case("mid/side %s, fs %d", ((const char *[]){"one band", "all bands but one", "bands up to", "random bands"})[kind], gold_fs[fsi]))
      {
        mt_t m = mt_new("P", 2, fsi);
        mt_begin(&m);
        rng = kind;
        for (int b = 0; b < gold_nsfb_l[fsi]; b++)
        {
          pair_frame(&m, 0, 0, W_LONG, fsi);
          sy_cpe *p = &m.s->cpe[0];
          p->ms = 1;
          for (int k = 0; k < 52; k++)
            p->used[0][k] = kind == 0 ? k == b : kind == 1 ? k != b : kind == 2 ? k < b : rnd() & 1;
          fill(&m.s->ch[0], fsi);
          fill(&m.s->ch[1], fsi);
          mt_frame(&m, b % 8 == 0);
          pair_frame(&m, 0, 0, W_LONG, fsi);
          p->ms = b & 1 ? 2 : 0;
          fill(&m.s->ch[0], fsi);
          fill(&m.s->ch[1], fsi);
          mt_frame(&m, 0);
        }
        mt_check(&m, "mid-side");
        vf_nontriv++;
        mt_free(&m);
      }
  /* short frames: every grouping, each (group, band) alone in turn */
  for (int g0 = 0; g0 < 128; g0 += 4)
    if (vf_case("mid/side short, groupings %d..", g0))
    {
      mt_t m = mt_new("P", 2, 3 + (g0 >> 2) % 6);
      int fsi = m.s->cfg.fs_idx, len[8];
      mt_begin(&m);
      rng = g0;
      pair_frame(&m, 0, 0, W_START, fsi);
      mt_frame(&m, 1);
      for (int gr = g0; gr < g0 + 4; gr++)
        for (int g = 0; g < fd_groups(gr, len); g++)
          for (int b = 0; b < gold_nsfb_s[fsi]; b += vf_thorough ? 1 : 3)
          {
            m.s->ch[0].grouping = gr;
            pair_frame(&m, 0, 0, W_SHORT, fsi);
            sy_cpe *p = &m.s->cpe[0];
            p->ms = 1;
            p->used[g][b] = 1;
            if (rnd() & 1)
              for (int i = 0; i < 8 * 52; i++)
                p->used[0][i] ^= 1;
            fill(&m.s->ch[0], fsi);
            fill(&m.s->ch[1], fsi);
            mt_frame(&m, 0);
          }
      mt_check(&m, "mid-side-short");
      vf_nontriv++;
      mt_free(&m);
    }
  /* different bandwidths of the two channels: every pair, all modes */
  for (int a = 0; a < 50; a += 1)
    for (int md = 1; md < 4; md++)
      if (vf_case("bandwidths %d and any, mode %d", a, md))
      {
        mt_t m = mt_new("P", 2, 3);
        mt_begin(&m);
        rng = a * 4 + md;
        for (int b = 0; b < 50; b++)
          for (int k = 0; k < 2; k++)
          {
            int w = k ? W_LONG : W_LONG;
            pair_frame(&m, 0, 0, w, 3);
            sy_cpe *p = &m.s->cpe[0];
            p->max_sfb_r_own = 1;
            m.s->ch[0].max_sfb = a;
            m.s->ch[1].max_sfb = b;
            p->ms = md;
            for (int i = 0; i < 52; i++)
            {
              p->used[0][i & ~1] = p->used[0][i | 1] = rnd() & 1;
              if (md == 1)
                p->used[0][i] = rnd() & 1;
              p->are[0][i] = (int)(rnd() % 21) - 10;
              p->aim[0][i] = (int)(rnd() % 21) - 10;
            }
            p->complex_coef = rnd() & 1;
            p->use_prev = rnd() & 1;
            p->pred_dir = rnd() & 1;
            p->delta_time = rnd() & 1;
            fill(&m.s->ch[0], 3);
            fill(&m.s->ch[1], 3);
            mt_frame(&m, k == 0 && b == 0);
          }
        mt_check(&m, "bandwidths");
        vf_nontriv++;
        mt_free(&m);
      }
  /* every prediction coefficient in every band pair */
  for (int v = -30; v <= 30; v++)
    for (int im = 0; im < 2; im++)
      if (vf_case("%s prediction coefficient %d", im ? "imaginary" : "real", v))
      {
        mt_t m = mt_new("P", 2, 3 + (v + 60) % 6);
        int fsi = m.s->cfg.fs_idx;
        mt_begin(&m);
        rng = v;
        for (int b = 0; b < gold_nsfb_l[fsi]; b += 2)
          for (int q = 0; q < 8; q++)
          {
            pair_frame(&m, 0, 0, W_LONG, fsi);
            sy_cpe *p = &m.s->cpe[0];
            p->ms = 3;
            p->pred_dir = q & 1;
            p->complex_coef = im | (q >> 1 & 1);
            p->use_prev = q >> 2;
            p->delta_time = q >> 1 & 1;
            p->used[0][b] = p->used[0][b | 1] = 1;
            (im ? p->aim : p->are)[0][b] = v;
            fill(&m.s->ch[0], fsi);
            fill(&m.s->ch[1], fsi);
            mt_frame(&m, b == 0 && q == 0);
          }
        mt_check(&m, "coefficient");
        vf_nontriv++;
        mt_free(&m);
      }
  /* coefficient differences: every step between neighbouring bands and between frames */
  for (int d = -60; d <= 60; d += vf_thorough ? 1 : 4)
    if (vf_case("coefficient difference %d", d))
    {
      mt_t m = mt_new("P", 2, 3);
      mt_begin(&m);
      rng = d + 100;
      for (int fr = 0; fr < 48; fr++)
      {
        pair_frame(&m, 0, 0, W_LONG, 3);
        sy_cpe *p = &m.s->cpe[0];
        p->ms = 3;
        p->complex_coef = fr >> 1 & 1;
        p->delta_time = fr >> 2 & 1;
        p->pred_all = fr % 3 == 0;
        int lo = d / 2 - d, hi = d / 2;
        for (int b = 0; b < 49; b++)
        {
          p->used[0][b & ~1] = p->used[0][b | 1] = (rnd() & 3) != 0;
          p->are[0][b] = ((b >> 1) + fr) & 1 ? lo : hi;
          p->aim[0][b] = ((b >> 1) + (fr >> 1)) & 1 ? lo : hi;
        }
        for (int b = 0; b < 48; b += 2)
          p->used[0][b + 1] = p->used[0][b];
        for (int c = 0; c < 2; c++)
        {
          fd_gain(&m.s->ch[c], 124);
          fill(&m.s->ch[c], 3);
        }
        mt_frame(&m, fr == 0 || fr == 17);
      }
      mt_check(&m, "difference");
      vf_nontriv++;
      mt_free(&m);
    }
  /* the estimate of the imaginary part: every window type after every other, every shape before and after, with and
     without the previous frame, both directions */
  for (int seq = 0; seq < 16; seq++)
    for (int sp = 0; sp < 4; sp++)
      if (vf_case("complex prediction, windows %d, shapes %d", seq, sp))
      {
        static const int8_t seqs[4][6] = {{W_LONG, W_LONG, W_START, W_SHORT, W_STOP, W_LONG},
                                          {W_START, W_SHORT, W_SHORT, W_SHORT, W_START, W_SHORT},
                                          {W_START, W_SHORT, W_STOP, W_START, W_SHORT, W_STOP},
                                          {W_LONG, W_START, W_START, W_STOP, W_START, W_STOP}};
        static const int8_t legal3[6] = {W_LONG, W_START, W_SHORT, W_START, W_START, W_STOP};
        mt_t m = mt_new("P", 2, 4);
        mt_begin(&m);
        rng = seq * 4 + sp;
        int was_short = 0;
        for (int rep = 0; rep < 8; rep++)
          for (int k = 0; k < 6; k++)
          {
            int win = (seq & 3) == 3 ? legal3[k] : seqs[seq & 3][k];
            m.s->ch[0].shape = sp == 0 ? 0 : sp == 1 ? 1 : sp == 2 ? k & 1 : rnd() & 1;
            m.s->ch[0].grouping = rnd() & 127;
            pair_frame(&m, 0, 0, win, 4);
            sy_cpe *p = &m.s->cpe[0];
            p->ms = rep == 5 && k & 1 ? 1 : 3;
            p->pred_all = rep & 1;
            p->pred_dir = seq >> 3;
            p->complex_coef = 1;
            p->use_prev = (seq >> 2 & 1) && (win == W_SHORT) == was_short;
            was_short = win == W_SHORT;
            p->delta_time = rep == 4;
            for (int g = 0; g < 8; g++)
              for (int b = 0; b < 52; b += 2)
              {
                p->used[g][b] = p->used[g][b + 1] = (rnd() & 3) != 0;
                p->are[g][b] = rep ? (int)(rnd() % 15) - 7 : 0;
                p->aim[g][b] = (int)(rnd() % 31) - 15;
              }
            fill(&m.s->ch[0], 4);
            fill(&m.s->ch[1], 4);
            mt_frame(&m, rep == 0 && k == 0);
          }
        mt_check(&m, "mdst");
        vf_nontriv++;
        mt_free(&m);
      }
  /* mixed histories: pairs that share a window and pairs that do not, prediction after mid/side, resets, kernels */
  for (int h = 0; h < (vf_thorough ? 1024 : 64); h++)
    if (vf_case("mixed modes, history %d", h))
    {
      mt_t m = mt_new(h & 1 ? "PSPL" : "P", h & 1 ? 6 : 2, 4);
      mt_begin(&m);
      rng = h * 77 + 1;
      int np = h & 1 ? 2 : 1;
      if (h & 1)
      {
        fd_gain(&m.s->ch[2], 130);
        m.s->ch[2].max_sfb = 40;
        fill(&m.s->ch[2], 4);
        fd_gain(&m.s->ch[5], 130);
        m.s->ch[5].max_sfb = 3;
        fill(&m.s->ch[5], 4);
      }
      for (int fr = 0; fr < 60; fr++)
      {
        int indep = fr == 0 || (rnd() & 15) == 0;
        for (int q = 0; q < np; q++)
        {
          int el = q * 2, c = q * 3, md = h >> 1 & 1 ? fr / 4 % 4 : (fr * 7 + q) % 5;
          int win = cycle[(fr + q * 2) % 5];
          m.s->ch[c].shape = rnd() & 1;
          m.s->ch[c].grouping = rnd() & 127;
          pair_frame(&m, el, c, win, 4);
          sy_cpe *p = &m.s->cpe[el];
          if (md == 4)
          {
            p->common_window = 0;
            m.s->ch[c + 1].shape = rnd() & 1;
            m.s->ch[c + 1].grouping = rnd() & 127;
          }
          else
            p->ms = md;
          p->pred_all = rnd() & 1;
          p->pred_dir = rnd() & 1;
          p->complex_coef = rnd() & 1;
          /* the previous transform counts only when it has the same length */
          p->use_prev = (rnd() & 1) && fr && (cycle[(fr + 4 + q * 2) % 5] == W_SHORT) == (win == W_SHORT);
          p->delta_time = rnd() & 1;
          for (int g = 0; g < 8; g++)
            for (int b = 0; b < 52; b++)
            {
              p->used[g][b] = rnd() & 1;
              if (md == 3)
                p->used[g][b] = p->used[g][b & ~1];
              p->are[g][b] = (int)(rnd() % 15) - 7;
              p->aim[g][b] = (int)(rnd() % 15) - 7;
            }
          for (int k = 0; k < 2; k++)
          {
            m.s->ch[c + k].arith_reset = rnd() & 1;
            fill(&m.s->ch[c + k], 4);
          }
        }
        mt_frame(&m, indep);
      }
      mt_check(&m, "mixed");
      vf_nontriv++;
      mt_free(&m);
    }
  mct();
  return vf_finish();
}
