/* P26: temporal noise shaping, long-term postfilter, frequency-domain prediction, noise and stereo filling; every code
   of every field against the model. */
#include "vf.h"
#include "model.h"

static uint32_t rng;
static uint32_t rnd(void)
{
  rng = rng * 1664525u + 1013904223u;
  return rng >> 8;
}
static const int cycle[] = {W_LONG, W_START, W_SHORT, W_SHORT, W_STOP};
#define NB(x) (sizeof(x) / sizeof(*(x)))
static int nbands(int win, int fsi) { return win == W_SHORT ? gold_nsfb_s[fsi] : gold_nsfb_l[fsi]; }
static int nlines(const fd_ch *f, int fsi)
{
  return !f->max_sfb ? 0 : f->win == W_SHORT ? gold_sfb_s[fsi][f->max_sfb - 1] : gold_sfb_l[fsi][f->max_sfb - 1];
}
static void fill(fd_ch *f, int fsi, int amp)
{
  int sh = f->win == W_SHORT, n = nlines(f, fsi);
  memset(f->q, 0, sizeof(f->q));
  for (int w = 0; w < (sh ? 8 : 1); w++)
    for (int i = 0; i < n; i++)
      f->q[w * 128 + i] = (int)(rnd() % (2 * amp + 1)) - amp;
}
static void frame_of(fd_ch *f, int win, int fsi, int gain, int amp)
{
  f->win = win;
  f->max_sfb = nbands(win, fsi);
  f->tns = f->ltpf = f->fdp = 0;
  fd_gain(f, gain);
  fill(f, fsi, amp);
}

/* ---- temporal noise shaping ---- */
static void tns_one(mt_t *m, int win, int fsi, int max_sfb, int nfilt, int w0, const int *len, const int *ord, int dir,
                    int comp, int res, const int (*coef)[16])
{
  fd_ch *f = &m->s->ch[0];
  frame_of(f, win, fsi, 110, 4);
  f->max_sfb = max_sfb;
  fill(f, fsi, 4);
  f->tns = 1;
  memset(f->t, 0, sizeof(f->t));
  for (int w = 0; w < (win == W_SHORT ? 8 : 1); w++)
    if (w0 < 0 || w == w0)
    {
      f->t[w].nfilt = nfilt;
      f->t[w].coef_res = res;
      for (int i = 0; i < nfilt; i++)
      {
        f->t[w].f[i].length = len[i];
        f->t[w].f[i].order = ord[i];
        f->t[w].f[i].dir = (dir >> i) & 1;
        f->t[w].f[i].compress = (comp >> i) & 1;
        for (int k = 0; k < ord[i]; k++)
        {
          int nb = 3 + res - f->t[w].f[i].compress, lim = 1 << (nb - 1), v = coef[i][k];
          f->t[w].f[i].coef[k] = v >= lim ? lim - 1 : v < -lim ? -lim : v;
        }
      }
    }
  mt_frame(m, 0);
}
/* the next window types on the way to the one asked for */
static void go(mt_t *m, int *cur, int to, int fsi)
{
  fd_ch *f = &m->s->ch[0];
  if (to == W_SHORT)
  {
    if (*cur != W_SHORT)
    {
      frame_of(f, W_START, fsi, 100, 1);
      mt_frame(m, 0);
    }
  }
  else if (*cur == W_SHORT)
  {
    frame_of(f, W_STOP, fsi, 100, 1);
    mt_frame(m, 0);
  }
  *cur = to;
}
static void tns(void)
{
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int sh = 0; sh < 2; sh++)
    {
      int maxord = sh ? 7 : 15, win = sh ? W_SHORT : W_LONG, cur = W_LONG;
      /* every order, every coefficient alone at every place */
      for (int ord = 1; ord <= maxord; ord++)
        for (int rc = 0; rc < 4; rc++)
          if (vf_case("TNS rate %d %s order %d resolution %d compress %d", fsi, sh ? "short" : "long", ord, rc & 1, rc >> 1))
          {
            mt_t m = mt_new("S", 1, fsi);
            mt_begin(&m);
            m.rel = 3e-5;
            rng = ord * 4 + rc;
            int lim = 1 << (2 + (rc & 1) - (rc >> 1)), n = 0;
            cur = W_LONG;
            frame_of(&m.s->ch[0], W_LONG, fsi, 100, 1);
            mt_frame(&m, 1);
            go(&m, &cur, win, fsi);
            for (int k = 0; k < ord; k++)
              for (int v = -lim; v < lim; v++)
                for (int dir = 0; dir < 2; dir++)
                {
                  int coef[1][16] = {{0}}, len = sh ? 10 : 30;
                  coef[0][k] = v;
                  tns_one(&m, win, fsi, nbands(win, fsi), 1, sh && !vf_thorough ? n % 9 - 1 : -1, &len, &ord, dir, rc >> 1 ? 7 : 0, rc & 1,
                          (const int(*)[16])coef);
                  n++;
                }
            vf_nontriv++;
            mt_check(&m, "tns-coefficient");
            mt_free(&m);
          }
      /* every pair of coefficients of order two, and patterns of every order */
      for (int res = 0; res < 2; res++)
        if (vf_case("TNS rate %d %s coefficient pairs resolution %d", fsi, sh ? "short" : "long", res))
        {
          mt_t m = mt_new("S", 1, fsi);
          mt_begin(&m);
          m.rel = 5e-4;
          rng = 7;
          cur = W_LONG;
          frame_of(&m.s->ch[0], W_LONG, fsi, 100, 1);
          mt_frame(&m, 1);
          go(&m, &cur, win, fsi);
          int lim = 4 << res;
          for (int a = -lim; a < lim; a++)
            for (int b = -lim; b < lim; b++)
            {
              if (abs(a) + abs(b) > 2 * lim - 4)
                continue; /* ill conditioned: two poles at the unit circle */
              int coef[1][16] = {{a, b}}, len = sh ? 9 : 25, ord = 2;
              tns_one(&m, win, fsi, nbands(win, fsi), 1, -1, &len, &ord, (a ^ b) & 1, 0, res, (const int(*)[16])coef);
            }
          for (int ord = 1; ord <= maxord; ord++)
            for (int amp = 1; amp <= 1 + res; amp++)
            {
              int coef[1][16] = {{0}}, len = sh ? 9 : 25;
              for (int k = 0; k < ord; k++)
                coef[0][k] = (int)(rnd() % (2 * amp + 1)) - amp;
              tns_one(&m, win, fsi, nbands(win, fsi), 1, -1, &len, &ord, ord & 1, 0, res, (const int(*)[16])coef);
            }
          vf_nontriv++;
          mt_check(&m, "tns-pair");
          mt_free(&m);
        }
      /* every length at every bandwidth, one filter */
      for (int ms = 0; ms <= nbands(win, fsi); ms++)
        if (vf_case("TNS rate %d %s bandwidth %d all lengths", fsi, sh ? "short" : "long", ms))
        {
          mt_t m = mt_new("S", 1, fsi);
          mt_begin(&m);
          m.rel = 3e-5;
          rng = ms;
          cur = W_LONG;
          frame_of(&m.s->ch[0], W_LONG, fsi, 100, 1);
          mt_frame(&m, 1);
          go(&m, &cur, win, fsi);
          for (int len = 0; len < (sh ? 16 : 64); len++)
            for (int dir = 0; dir < 2; dir++)
            {
              int coef[1][16] = {{3, -2, 1}}, ord = 3;
              tns_one(&m, win, fsi, ms, 1, -1, &len, &ord, dir, 0, 1, (const int(*)[16])coef);
            }
          vf_nontriv++;
          mt_check(&m, "tns-length");
          mt_free(&m);
        }
      /* two and three filters: every pair of lengths */
      if (!sh)
        for (int l0 = 0; l0 < 64; l0 += vf_thorough ? 1 : 3)
          if (vf_case("TNS rate %d filters of lengths %d and any", fsi, l0))
          {
            mt_t m = mt_new("S", 1, fsi);
            mt_begin(&m);
            m.rel = 3e-5;
            rng = l0;
            frame_of(&m.s->ch[0], W_LONG, fsi, 100, 1);
            mt_frame(&m, 1);
            for (int l1 = 0; l1 < 64; l1++)
              for (int nf = 2; nf <= 3; nf++)
              {
                int coef[3][16] = {{3, -2, 1}, {-2, 1}, {2, 0, 0, -1}}, ord[3] = {3, 2, 4}, len[3] = {l0, l1, 5 + l1 % 11};
                if (l1 % 5 == 4)
                  ord[0] = 0;
                if (l1 % 7 == 6)
                  ord[1] = 0;
                tns_one(&m, win, fsi, nbands(win, fsi) - l1 % 3, nf, -1, len, ord, l1 & 7, (l1 >> 1) & 7, l1 & 1, (const int(*)[16])coef);
              }
            vf_nontriv++;
            mt_check(&m, "tns-filters");
            mt_free(&m);
          }
    }
}
/* in channel pairs: which channels have it, order with respect to the joint stereo, shared filters */
static void tns_pair(void)
{
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int who = 0; who < 4; who++) /* left, right, both, shared */
      for (int ms = 0; ms < 4; ms++)  /* nothing, flags, all, prediction */
        for (int lr = 0; lr < 2; lr++)
          for (int el = 0; el < 2; el++)
            if (vf_case("TNS pair rate %d who %d joint %d tns on left/right %d%s", fsi, who, ms, lr, el ? " behind a single channel" : ""))
            {
              mt_t m = mt_new(el ? "SP" : "P", el ? 3 : 2, fsi);
              int c = el;
              sy_cpe *p = &m.s->cpe[el];
              fd_ch *l = &m.s->ch[c], *r = l + 1;
              mt_begin(&m);
              m.rel = 3e-5;
            rng = who * 64 + ms * 8 + lr;
              for (int fr = 0; fr < 40; fr++)
              {
                int win = cycle[fr % 5];
                memset(p, 0, sizeof(*p));
                p->common_window = ms || who == 3 || (fr & 1);
                if (el)
                {
                  /* another window sequence in the channel before, so that nothing of it can be taken for the pair's */
                  int w1 = cycle[(fr + 3) % 5];
                  frame_of(&m.s->ch[0], fr == 0 ? W_LONG : fr < 3 ? W_LONG : w1, fsi, 105, 3);
                }
                for (int k = 0; k < 2; k++)
                {
                  fd_ch *f = l + k;
                  frame_of(f, win, fsi, 110, 4);
                  f->tns = who == 0 ? !k : who == 1 ? k : 1;
                  memset(f->t, 0, sizeof(f->t));
                  for (int w = 0; w < (win == W_SHORT ? 8 : 1); w++)
                  {
                    f->t[w].nfilt = win == W_SHORT ? rnd() & 1 : 1 + rnd() % 3;
                    f->t[w].coef_res = rnd() & 1;
                    for (int i = 0; i < f->t[w].nfilt; i++)
                    {
                      f->t[w].f[i].length = win == W_SHORT ? 1 + rnd() % 12 : 1 + rnd() % 12;
                      f->t[w].f[i].order = 1 + rnd() % (win == W_SHORT ? 7 : 15);
                      f->t[w].f[i].dir = rnd() & 1;
                      for (int q = 0; q < f->t[w].f[i].order; q++)
                        f->t[w].f[i].coef[q] = (int)(rnd() % 3) - 1;
                    }
                  }
                }
                if (fr % 3 == 2 && p->common_window)
                {
                  p->max_sfb_r_own = 1;
                  r->max_sfb = l->max_sfb - 1 - fr % 5;
                  fill(r, fsi, 4);
                }
                p->common_tns = who == 3;
                p->tns_on_lr = lr;
                if (p->common_window)
                {
                  p->ms = ms;
                  int nb = nbands(win, fsi);
                  if (ms == 1)
                    for (int g = 0; g < 8; g++)
                      for (int b = 0; b < nb; b++)
                        p->used[g][b] = rnd() & 1;
                  if (ms == 3)
                  {
                    for (int g = 0; g < 8; g++)
                      for (int b = 0; b < nb; b++)
                      {
                        p->used[g][b] = 1;
                        p->are[g][b & ~1] = p->are[g][b | 1] = (int)(rnd() % 21) - 10;
                      }
                    p->pred_all = 1;
                  }
                }
                mt_frame(&m, fr == 0);
              }
              vf_nontriv++;
              mt_check(&m, "tns-pair");
              mt_free(&m);
            }
}

/* ---- long-term postfilter ---- */
/* lags beyond the longest of the sampling rate do not occur */
static int max_lag(int fsi)
{
  int pmin = (int)(34.0 * (gold_fs[fsi] / 2) / 12800 + 0.5) * 2, pmax = 54 + 6 * pmin, fr2 = 324 - pmin, x = (fr2 - pmin) * 2;
  int last = pmax < 320 ? x + pmax - fr2 : x + 320 - fr2 + (pmax - 320) / 2;
  return last > 511 ? 511 : last;
}
static void ltpf_frame(mt_t *m, int win, int fsi, int on, int lag, int gain, int spec)
{
  fd_ch *f = &m->s->ch[0];
  frame_of(f, win, fsi, 118, spec);
  f->ltpf = on;
  f->lag = lag;
  f->ltpf_gain = gain;
  mt_frame(m, 0);
}
static void ltpf(void)
{
  for (int fsi = 3; fsi <= 8; fsi++)
  {
    /* every lag and gain: switched on, kept, switched off */
    for (int lag0 = 0; lag0 < 512; lag0 += 16)
      if (vf_case("postfilter rate %d lags from %d", fsi, lag0))
      {
        mt_t m = mt_new("S", 1, fsi);
        mt_begin(&m);
        rng = lag0;
        frame_of(&m.s->ch[0], W_LONG, fsi, 118, 3);
        mt_frame(&m, 1);
        int n = 0;
        for (int lag = lag0; lag < lag0 + 16 && lag <= max_lag(fsi); lag++)
          for (int g = 0; g < 4; g++)
          {
            ltpf_frame(&m, cycle[n++ % 5], fsi, 0, 0, 0, 3);
            ltpf_frame(&m, cycle[n++ % 5], fsi, 1, lag, g, 3);
            ltpf_frame(&m, cycle[n++ % 5], fsi, 1, lag, g, 3);
          }
        ltpf_frame(&m, cycle[n++ % 5], fsi, 0, 0, 0, 3);
        ltpf_frame(&m, cycle[n++ % 5], fsi, 0, 0, 0, 3);
        vf_nontriv++;
        mt_check(&m, "postfilter");
        mt_free(&m);
      }
    /* from one filter to another */
    for (int a = 0; a < 512; a += vf_thorough ? 32 : 64)
      if (vf_case("postfilter rate %d from lag %d to others", fsi, a))
      {
        mt_t m = mt_new("S", 1, fsi);
        mt_begin(&m);
        m.rel = 2e-4;
        rng = a;
        frame_of(&m.s->ch[0], W_LONG, fsi, 118, 3);
        mt_frame(&m, 1);
        for (int b = 1; b <= max_lag(fsi); b += 51)
          for (int g = 0; g < 16; g++)
          {
            ltpf_frame(&m, W_LONG, fsi, 1, a, g & 3, 3);
            ltpf_frame(&m, W_LONG, fsi, 1, b, g >> 2, 3);
          }
        for (int g = 0; g < 16; g++)
        {
          ltpf_frame(&m, W_LONG, fsi, 1, a, g & 3, 3);
          ltpf_frame(&m, W_LONG, fsi, 1, a, g >> 2, 3);
        }
        vf_nontriv++;
        mt_check(&m, "postfilter-change");
        mt_free(&m);
      }
  }
  /* pairs: one channel, both, the same for both */
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int who = 0; who < 4; who++)
      for (int cw = 0; cw < 2; cw++)
        if (vf_case("postfilter pair rate %d who %d common window %d", fsi, who, cw))
        {
          mt_t m = mt_new("P", 2, fsi);
          mt_begin(&m);
          rng = who;
          sy_cpe *p = &m.s->cpe[0];
          for (int fr = 0; fr < 48; fr++)
          {
            memset(p, 0, sizeof(*p));
            p->common_window = cw;
            p->common_ltpf = cw && who == 3;
            for (int k = 0; k < 2; k++)
            {
              fd_ch *f = &m.s->ch[k];
              frame_of(f, cycle[fr % 5], fsi, 115, 3);
              f->ltpf = fr % 4 != 3 && (who == 0 ? !k : who == 1 ? k : 1);
              f->lag = (fr / 4 * 37 + k * 100) % (max_lag(fsi) + 1);
              f->ltpf_gain = (fr / 4 + k) & 3;
            }
            mt_frame(&m, fr == 0);
          }
          vf_nontriv++;
          mt_check(&m, "postfilter-pair");
          mt_free(&m);
        }
}

/* ---- frequency-domain prediction ---- */
static void fdp(void)
{
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int i0 = 0; i0 < 256; i0 += 8)
      for (int amp = 1; amp <= 3; amp++)
        if (vf_case("prediction rate %d spacings from %d amplitudes %d", fsi, i0, amp))
        {
          mt_t m = mt_new("S", 1, fsi);
          mt_begin(&m);
          rng = i0;
          fd_ch *f = &m.s->ch[0];
          frame_of(f, W_LONG, fsi, 130, 8);
          mt_frame(&m, 1);
          for (int idx = i0; idx < i0 + 8; idx++)
            for (int fr = 0; fr < 6; fr++)
            {
              frame_of(f, W_LONG, fsi, amp == 3 ? 118 + 2 * fr : 124 + fr, amp == 1 ? 2 : amp == 2 ? 12 : 200);
              for (int b = 1; b < f->max_sfb; b++)
                f->sf[0][b] = f->gg + (b * 7 + fr) % 9 - (amp == 3 ? 8 : 4);
              f->fdp = fr != 2;
              f->fdp_idx = idx;
              if (fr == 5 && idx % 4 == 1)
              {
                f->max_sfb = 3 + idx % 20;
                fill(f, fsi, 2);
              }
              mt_frame(&m, fr == 5 && idx % 8 == 5);
            }
          vf_nontriv++;
          mt_check(&m, "prediction");
          mt_free(&m);
        }
  for (int fsi = 3; fsi <= 8; fsi++)
    if (vf_case("prediction rate %d through window changes and bandwidths", fsi))
    {
      mt_t m = mt_new("SP", 3, fsi);
      mt_begin(&m);
      rng = fsi;
      for (int fr = 0; fr < 200; fr++)
      {
        for (int k = 0; k < 3; k++)
        {
          fd_ch *f = &m.s->ch[k];
          frame_of(f, fr % 11 < 4 ? W_LONG : fr % 11 == 4 ? W_START : fr % 11 < 6 ? W_SHORT : fr % 11 == 6 ? W_STOP : W_LONG, fsi, 122 + fr % 9, 6);
          f->fdp = (fr >> k) & 1;
          f->fdp_idx = (fr * 29 + k * 100) & 255;
          if (fr % 5 == 3)
          {
            f->max_sfb = fr % nbands(f->win, fsi);
            fill(f, fsi, 6);
          }
        }
        memset(&m.s->cpe[1], 0, sizeof(sy_cpe));
        mt_frame(&m, fr % 50 == 0);
      }
      vf_nontriv++;
      mt_check(&m, "prediction");
      mt_free(&m);
    }
}

/* ---- noise filling ---- */
static void holes(fd_ch *f, int fsi, int pat)
{
  int sh = f->win == W_SHORT;
  const int16_t *t = sh ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
  for (int w = 0; w < (sh ? 8 : 1); w++)
    for (int b = 0; b < f->max_sfb; b++)
      if (pat == 0 || (pat == 1 && (b + w) & 1) || (pat == 2 && b % 3))
        for (int i = b ? t[b - 1] : 0; i < t[b]; i++)
          f->q[w * 128 + i] = 0;
}
static void noise(void)
{
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int lev = 0; lev < 8; lev++)
      for (int pair = 0; pair < 3; pair++)
        if (vf_case("noise rate %d level %d %s", fsi, lev, pair == 0 ? "single" : pair == 1 ? "pair" : "pair with common window"))
        {
          mt_t m = mt_new(pair ? "P" : "S", pair ? 2 : 1, fsi);
          m.s->cfg.el[0].nf = 1;
          mt_begin(&m);
          rng = lev;
          for (int n = 0; n < 32 * 15; n++)
          {
            int off = n & 31, win = cycle[n % 5];
            memset(&m.s->cpe[0], 0, sizeof(sy_cpe));
            for (int k = 0; k <= (pair > 0); k++)
            {
              fd_ch *f = &m.s->ch[k];
              frame_of(f, win, fsi, 112, 2);
              f->grouping = pair == 2 ? (n * 37) & 127 : (n * 37 + k) & 127;
              if (n % 7 == 6)
              {
                f->max_sfb = n % nbands(win, fsi);
                fill(f, fsi, 2);
              }
              holes(f, fsi, (n / 5 + k) % 4);
              for (int b = 1; b < f->max_sfb; b++)
                f->sf[0][b] = f->gg + (b * 5 + n) % 7 - 3;
              f->noise_level = lev;
              f->noise_offset = off;
              if (pair == 2 && k == 1 && lev == 0 && (off || win == W_SHORT))
                f->noise_offset = 0;
            }
            if (pair == 2)
            {
              m.s->cpe[0].common_window = 1;
              m.s->ch[1].grouping = m.s->ch[0].grouping;
              m.s->cpe[0].ms = n % 3;
              for (int g = 0; g < 8; g++)
                for (int b = 0; b < 52; b++)
                  m.s->cpe[0].used[g][b] = (b + n) & 1;
            }
            mt_frame(&m, n == 0 || n % 40 == 39);
          }
          vf_nontriv++;
          mt_check(&m, "noise");
          mt_free(&m);
        }
  /* stereo filling: the right channel's empty bands from the downmix of the frame before */
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int off0 = 1; off0 < 32; off0 += 4)
      for (int ms = 0; ms < 3; ms++)
        if (vf_case("stereo filling rate %d offsets from %d joint %d", fsi, off0, ms))
        {
          mt_t m = mt_new("P", 2, fsi);
          m.s->cfg.el[0].nf = 1;
          mt_begin(&m);
          rng = off0;
          for (int n = 0; n < 64; n++)
          {
            sy_cpe *p = &m.s->cpe[0];
            memset(p, 0, sizeof(*p));
            p->common_window = 1;
            p->ms = ms;
            for (int g = 0; g < 8; g++)
              for (int b = 0; b < 52; b++)
                p->used[g][b] = (b + n) & 1;
            for (int k = 0; k < 2; k++)
            {
              fd_ch *f = &m.s->ch[k];
              frame_of(f, W_LONG, fsi, 112, 3);
              holes(f, fsi, k ? n / 3 % 4 : 3);
              f->noise_offset = off0 + n % 4 > 31 ? 31 : off0 + n % 4;
            }
            m.s->ch[0].noise_offset = 0;
            mt_frame(&m, n % 16 == 0);
          }
          vf_nontriv++;
          mt_check(&m, "stereo-filling");
          mt_free(&m);
        }
}

int main(int argc, char **argv)
{
  vf_init(argc, argv);
  tns();
  tns_pair();
  ltpf();
  fdp();
  noise();
  return vf_finish();
}
