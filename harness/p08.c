/* P08: conversion between layouts.  Enumerated: every pair of source and target layout; every channel alone (wide-band),
 * then mixtures with coherent, inverted and jumping channels.  The channel played alone determines one real gain per bin
 * and output; the same gains, through an executable model of the converter, have to predict the mixtures sample by
 * sample.  The gains themselves have to respect what a converter may do to a speaker. */
#include "vf.h"
#include "streams.h"
#include "fcmodel.h"

#include "layouts.h"
static int mirror(int cicp, int c)
{
  const spk *s = &lay[cicp][c];
  return find(cicp, -s->az, s->el, s->lfe);
}
enum { SOLO = 5, ON = 3, GAIN = 128 }; /* three frames, their fading out, one of silence */
static int mixframes(void) { return vf_thorough ? 40 : 16; }
/* every channel alone, then mixtures */
static blob mk(int src, int fsi)
{
  sb_t *s = sb_new();
  int n = sx_cicp_nch(src), nf = 1 + n * SOLO + mixframes();
  char els[32] = {0};
  memset(els, 'S', n);
  sx_layout(s, src, els);
  s->cfg.fs_idx = fsi;
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < nf; f++)
  {
    for (int c = 0; c < n; c++)
    {
      fd_ch *x = &s->ch[c];
      int on, seed, lev = 0, inv = 0, g = f - 1;
      x->win = W_LONG;
      x->max_sfb = gold_nsfb_l[fsi];
      x->arith_reset = 1;
      if (f == 0)
        on = 0, seed = 0;
      else if (g < n * SOLO)
      {
        on = g / SOLO == c && g % SOLO < ON;
        seed = 100 + g % SOLO;
      }
      else
      {
        g -= n * SOLO;
        on = 1;
        seed = 1000 + g * 32 + c;
        switch ((g >> 1) & 7)
        {
        case 0: break;                                             /* independent */
        case 1: seed = 1000 + g * 32; break;                       /* all the same */
        case 2: seed = 1000 + g * 32 + c / 2, inv = c & 1; break;  /* inverted pairs */
        case 3: on = c % 2 == g % 2; break;                        /* alternating */
        case 4: lev = (c * 7 + g) % 3 * 12; break;                 /* levels apart */
        case 5: seed = 1000 + g * 32 + c % 3, inv = c % 3 == 1; break;
        case 6: on = c == g % n || c == (g + 1) % n; seed = 1000 + g; break;
        default: lev = g & 1 ? 20 : 0; break;                      /* jumps */
        }
      }
      sx_fill(x, fsi, seed, on ? 60 : 0);
      fd_gain(x, GAIN + lev);
      if (inv)
        for (int i = 0; i < 1024; i++)
          x->q[i] = -x->q[i];
    }
    sb_frame(s, 1);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  return b;
}
static int decode(dec_t *d, blob b, int cicp)
{
  dec_defaults(d);
  d->in.ui_pcm_wd_sz = 32;
  d->in.ui_cicp_layout_idx = cicp;
  int e = dec_all(d, b, 0);
  dec_close(d);
  return e;
}
/* least squares over the bins of one channel's part, the same for all channels */
enum { T0 = 256, TN = SOLO * 1024 - 256 };
static double *Bas, *Chol;
static void basis(const double *x /* T: samples of one solo part, silence before */)
{
  int hops = SOLO * 4;
  Bas = malloc(sizeof(double) * TN * FM_BINS);
  Chol = calloc(FM_BINS * FM_BINS, sizeof(double));
  for (int k = 0; k < FM_BINS; k++)
  {
    double prev[FM_H] = {0}, ov[FM_H] = {0}, re[FM_N], im[FM_N], yr[FM_N], yi[FM_N];
    for (int h = 0; h <= hops; h++)
    {
      for (int i = 0; i < FM_H; i++)
      {
        double v = h < hops ? x[h * FM_H + i] : 0;
        re[i] = prev[i] * fm_win[i];
        re[FM_H + i] = v * fm_win[FM_H + i];
        prev[i] = v;
      }
      /* one bin of the transform */
      double a = 0, b = 0;
      for (int i = 0; i < FM_N; i++)
      {
        a += re[i] * fm_cs[k * i % FM_N];
        b -= re[i] * fm_sn[k * i % FM_N];
      }
      double w = k == 0 || k == 256 ? 1 : 2;
      for (int i = 0; i < FM_N; i++)
        yr[i] = w * (a * fm_cs[k * i % FM_N] - b * fm_sn[k * i % FM_N]) / FM_N;
      (void)im;
      (void)yi;
      if (h)
        for (int i = 0; i < FM_H; i++)
        {
          long t = (h - 1) * FM_H + i;
          if (t < TN)
            Bas[t * FM_BINS + k] = yr[i] * fm_win[i] + ov[i] * fm_win[FM_H + i];
        }
      for (int i = 0; i < FM_H; i++)
        ov[i] = yr[FM_H + i];
    }
  }
  for (int t = 0; t < TN; t++)
  {
    const double *r = Bas + (long)t * FM_BINS;
    for (int i = 0; i < FM_BINS; i++)
      for (int j = 0; j <= i; j++)
        Chol[i * FM_BINS + j] += r[i] * r[j];
  }
  for (int i = 0; i < FM_BINS; i++)
  {
    for (int j = 0; j <= i; j++)
    {
      double v = Chol[i * FM_BINS + j];
      for (int k = 0; k < j; k++)
        v -= Chol[i * FM_BINS + k] * Chol[j * FM_BINS + k];
      Chol[i * FM_BINS + j] = i == j ? sqrt(fmax(v, 1e-30)) : v / Chol[j * FM_BINS + j];
    }
  }
}
/* returns the relative misfit */
static double solve(const double *y, double *m)
{
  double e = 0, t2 = 0;
  memset(m, 0, FM_BINS * sizeof(double));
  for (int t = 0; t < TN; t++)
    for (int k = 0; k < FM_BINS; k++)
      m[k] += Bas[(long)t * FM_BINS + k] * y[t];
  for (int i = 0; i < FM_BINS; i++)
  {
    for (int k = 0; k < i; k++)
      m[i] -= Chol[i * FM_BINS + k] * m[k];
    m[i] /= Chol[i * FM_BINS + i];
  }
  for (int i = FM_BINS - 1; i >= 0; i--)
  {
    for (int k = i + 1; k < FM_BINS; k++)
      m[i] -= Chol[k * FM_BINS + i] * m[k];
    m[i] /= Chol[i * FM_BINS + i];
  }
  for (int t = 0; t < TN; t++)
  {
    double v = -y[t];
    for (int k = 0; k < FM_BINS; k++)
      v += Bas[(long)t * FM_BINS + k] * m[k];
    e += v * v;
    t2 += y[t] * y[t];
  }
  return sqrt(e / (t2 + 1e-9));
}
static dec_t A;      /* the source as it is */
static int a_src = -1, bas_fsi = -1;
static double *xs;   /* [ch][t] */
static long xn;
static int source(int src, int fsi, blob *b)
{
  *b = mk(src, fsi);
  if (a_src == src * 32 + fsi)
    return 1;
  if (a_src >= 0)
    dec_free(&A), free(xs);
  a_src = -1;
  int n = sx_cicp_nch(src), e = decode(&A, *b, 0);
  if (e || A.out.i_num_chan != n)
  {
    vf_fail("source", "the source does not decode: %x, %d channels", e, A.out.i_num_chan);
    return 0;
  }
  a_src = src * 32 + fsi;
  xn = A.npcm / 4 / n;
  xs = malloc(sizeof(double) * xn * n);
  for (long t = 0; t < xn; t++)
    for (int c = 0; c < n; c++)
      xs[c * xn + t] = ((int32_t *)A.pcm)[t * n + c] / 65536.0;
  if (bas_fsi != fsi)
    free(Bas), free(Chol), basis(xs + 1024);
  bas_fsi = fsi;
  return 1;
}
static void pair(int src, int tgt, int fsi)
{
  blob b;
  dec_t D;
  int ns = sx_cicp_nch(src), nt = tgt == 13 ? 24 : sx_cicp_nch(tgt);
  if (!source(src, fsi, &b))
    return;
  int e = decode(&D, b, tgt);
  free(b.d);
  if (e || D.out.i_num_chan != nt)
  {
    vf_fail("refused", "layout %d into %d: code %x, %d channels", src, tgt, e, D.out.i_num_chan);
    dec_free(&D);
    return;
  }
  long n = D.npcm / 4 / nt;
  double *y = malloc(sizeof(double) * nt * n), *M = calloc((long)FM_BINS * ns * nt, sizeof(double));
  for (long t = 0; t < n; t++)
    for (int o = 0; o < nt; o++)
      y[o * n + t] = ((int32_t *)D.pcm)[t * nt + o] / 65536.0;
  /* what is reported about the speakers */
  spk rep[32];
  int nlfe = 0;
  if (D.out.num_speakers != nt)
    vf_fail("report", "%d speakers reported for %d channels", D.out.num_speakers, nt);
  for (int o = 0; o < nt; o++)
  {
    rep[o].az = D.out.azimuth[o], rep[o].el = D.out.elevation[o], rep[o].lfe = D.out.is_lfe[o];
    nlfe += rep[o].lfe;
    if (tgt != 13 && (rep[o].lfe != lay[tgt][o].lfe || rep[o].el != lay[tgt][o].el || rep[o].az != lay[tgt][o].az))
      vf_fail("report", "speaker %d of layout %d is reported at %d/%d%s", o, tgt, rep[o].az, rep[o].el, rep[o].lfe ? " LFE" : "");
  }
  int bad = 0;
  double g[FM_BINS];
  double lo = 9, hi = 0;
  for (int c = 0; c < ns && !bad; c++)
  {
    double tot[FM_BINS] = {0};
    const spk *s = &lay[src][c];
    for (int o = 0; o < nt && !bad; o++)
    {
      const double *p = y + o * n + 1024 + (long)c * SOLO * 1024;
      double en = 0;
      for (int t = 0; t < TN; t++)
        en += p[t] * p[t];
      vf_trans += TN;
      if (en < 1e-3 * TN)
        continue;
      double mis = solve(p, g);
      if (getenv("P08_RANGE")) fprintf(stderr, "mis %g rms %g\n", mis, sqrt(en / TN));
      if (mis > 2e-4)
      {
        vf_fail("not-linear", "channel %d alone in output %d is no fixed real gain per bin: misfit %g", c, o, mis);
        bad = 1;
      }
      for (int k = 0; k < FM_BINS; k++)
      {
        M[((long)k * ns + c) * nt + o] = g[k];
        tot[k] += g[k] * g[k];
        if (g[k] < -2e-3)
        {
          vf_fail("negative", "channel %d reaches output %d with gain %g in bin %d", c, o, g[k], k);
          bad = 1;
          break;
        }
      }
      if (rep[o].lfe != s->lfe && !bad)
      {
        if (rep[o].lfe)
          vf_fail("into-lfe", "channel %d (%d/%d) feeds the LFE output %d with gain %g", c, s->az, s->el, o, g[10]), bad = 1;
      }
    }
    if (bad)
      break;
    /* a speaker in both layouts */
    int o1 = -1;
    for (int o = 0; o < nt; o++)
      if (rep[o].lfe == s->lfe && rep[o].el == s->el && (rep[o].az == s->az || (s->el == 90 && !s->lfe) || (abs(s->az) == 180 && abs(rep[o].az) == 180)))
        o1 = o;
    if (o1 >= 0)
    {
      for (int o = 0; o < nt && !bad; o++)
        for (int k = 0; k < FM_BINS && !bad; k++)
        {
          double m = M[((long)k * ns + c) * nt + o];
          if (fabs(m - (o == o1)) > 3e-3)
          {
            vf_fail("own-speaker", "channel %d (%d/%d%s) has its speaker in the target, output %d, but reaches output %d with gain %g in bin %d", c, s->az, s->el, s->lfe ? " LFE" : "", o1, o, m, k);
            bad = 1;
          }
        }
    }
    else if (!s->lfe)
    {
      double mean = 0;
      for (int k = 0; k < FM_BINS; k++)
      {
        mean += tot[k] / FM_BINS;
        lo = fmin(lo, tot[k]);
        hi = fmax(hi, tot[k]);
      }
      if (mean < 0.15 || mean > 2.05)
      {
        vf_fail("lost", "channel %d (%d/%d) keeps %g of its energy", c, s->az, s->el, mean);
        bad = 1;
      }
    }
    else if (nlfe && tot[5] < 0.2)
    {
      vf_fail("lfe-lost", "LFE channel %d reaches no output though there are %d LFE", c, nlfe);
      bad = 1;
    }
  }
  /* mirror images */
  for (int c = 0; c < ns && !bad && tgt != 13; c++)
    for (int o = 0; o < nt && !bad; o++)
    {
      int c2 = mirror(src, c), o2 = mirror(tgt, o);
      if (c2 < 0 || o2 < 0 || lay[src][c].lfe || lay[tgt][o].lfe)
        continue;
      for (int k = 0; k < FM_BINS && !bad; k++)
        if (fabs(M[((long)k * ns + c) * nt + o] - M[((long)k * ns + c2) * nt + o2]) > 3e-3)
        {
          vf_fail("mirror", "channel %d to output %d: gain %g in bin %d, its mirror image %d to %d: %g", c, o, M[((long)k * ns + c) * nt + o], k, c2, o2, M[((long)k * ns + c2) * nt + o2]);
          bad = 1;
        }
    }
  vf_count("gains", (long)ns * nt);
  if (getenv("P08_RANGE"))
    fprintf(stderr, "%d->%d power %.3f..%.3f\n", src, tgt, lo, hi);
  /* mixtures */
  if (!bad)
  {
    /* tidy the estimate: bins of one band share a gain */
    fm_t f;
    fm_new(&f, ns, nt, M, 1);
    double *xi = malloc(sizeof(double) * ns * FM_H), *yo = malloc(sizeof(double) * nt * FM_H);
    double worst = 0, prev = 1;
    for (long h = 0; h * FM_H + FM_H <= n && (h + 1) * FM_H <= xn && !bad; h++)
    {
      double sc = prev;
      prev = 1;
      for (int c = 0; c < ns; c++)
      {
        double top = 0;
        for (int i = 0; i < FM_H; i++)
        {
          xi[c * FM_H + i] = xs[c * xn + h * FM_H + i];
          top = fmax(top, fabs(xi[c * FM_H + i]));
        }
        prev += top;
      }
      sc = fmax(sc, prev);
      fm_block(&f, xi, yo);
      if (!h)
        continue;
      vf_trans += nt * FM_H;
      for (int o = 0; o < nt && !bad; o++)
        for (int i = 0; i < FM_H && !bad; i++)
        {
          double v = y[o * n + (h - 1) * FM_H + i], w = yo[o * FM_H + i];
          worst = fmax(worst, fabs(v - w) / sc);
          if (fabs(v - w) > 3e-4 * sc + 0.01)
          {
            vf_fail("mixture", "sample %ld (frame %ld) of output %d is %.4f, the gains of the single channels give %.4f", (h - 1) * FM_H + i, (h - 1) / 4, o, v, w);
            bad = 1;
          }
        }
    }
    if (getenv("P08_RANGE"))
      fprintf(stderr, "%d->%d worst %.2e\n", src, tgt, worst);
    fm_free(&f);
    free(xi);
    free(yo);
  }
  vf_nontriv++;
  vf_outcome(vf_hash(D.pcm, D.npcm, src * 100 + tgt));
  free(y);
  free(M);
  dec_free(&D);
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  fm_init();
  for (int fsi = 3; fsi <= (vf_thorough ? 4 : 3); fsi++)
  for (int src = 1; src <= 20; src++)
    for (int tgt = 1; tgt <= 19; tgt++)
    {
      if (!sx_cicp_nch(src) || src == 13 || !sx_cicp_nch(tgt))
        continue;
      if (vf_case("layout %d into layout %d, %s kHz", src, tgt, fsi == 3 ? "48" : "44.1"))
        pair(src, tgt, fsi);
    }
  return vf_finish();
}
