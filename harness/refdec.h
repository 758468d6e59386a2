/* Reference decoder: the frequency-domain core decoder written down directly from the standard's formulas, in double
 * precision and with the direct form of every transform, working on the element descriptions of synth.h instead of on
 * bits.  It is the model the checks explore; comparing its output with that of the decoder on every explored stream is
 * what binds it to the code. */
#ifndef VF_REFDEC_H
#define VF_REFDEC_H
#include "synth.h"
#include <complex.h>
#include <math.h>

typedef struct
{
  double ovl[1024];
  int right, shape; /* right slope of the frame before (1: short), its shape */
  int started;
  double save[1024]; /* spectrum of the frame before, after joint stereo and TNS */
  int16_t p1[172], p2[172];
  int al;
  uint32_t seed;
  int lt_gain_on, lt_lag, lt_gain; /* postfilter of the frame before */
  double lin[2048], lout[2048];    /* history of its input and output */
  double fsf[8][64];               /* factors of the bands without content in the range of noise filling, else 0 */
  double mprev[1024];              /* spectrum of the frame before, behind multichannel coding */
  int mwin;                        /* and whether it was short */
  double mag;                      /* largest intermediate of the current frame: the scale of rounding errors */
} rd_ch;
static void rd_ch_init(rd_ch *c, int cpe_right)
{
  memset(c, 0, sizeof(*c));
  c->seed = cpe_right ? 0x10932 : 0x3039;
}

/* ---- transforms ---- */
/* y[n] = sum c[k] cos/sin(pi/N (n + n0)(k + k0)), n < 2N, in O(N log N) with one complex FFT of 2N points */
static void rd_fft(double complex *x, int n)
{
  static double complex *tw[13];
  int lg = 0;
  while ((1 << lg) < n)
    lg++;
  if (!tw[lg])
  {
    tw[lg] = (double complex *)malloc(sizeof(double complex) * n);
    for (int i = 0; i < n; i++)
      tw[lg][i] = cexp(I * 2 * M_PI * i / n);
  }
  for (int i = 1, j = 0; i < n; i++)
  {
    int bit = n >> 1;
    for (; j & bit; bit >>= 1)
      j ^= bit;
    j ^= bit;
    if (i < j)
    {
      double complex t = x[i];
      x[i] = x[j];
      x[j] = t;
    }
  }
  for (int len = 2; len <= n; len <<= 1)
    for (int i = 0; i < n; i += len)
      for (int k = 0; k < len / 2; k++)
      {
        double complex u = x[i + k], v = x[i + k + len / 2] * tw[lg][k * (n / len)];
        x[i + k] = u + v;
        x[i + k + len / 2] = u - v;
      }
}
static void rd_kernel(const double *c, int N, double k0, int sine, double *y)
{
  double complex x[2048];
  double n0 = 0.5 + N / 2.0;
  for (int k = 0; k < N; k++)
    x[k] = c[k] ? c[k] * cexp(I * M_PI * n0 * (k + k0) / N) : 0;
  for (int k = N; k < 2 * N; k++)
    x[k] = 0;
  rd_fft(x, 2 * N);
  for (int n = 0; n < 2 * N; n++)
  {
    double complex v = x[n] * cexp(I * M_PI * n * k0 / N);
    y[n] = sine ? cimag(v) : creal(v);
  }
}
/* inverse transform of N lines, kernel = 2 * previous symmetry + current symmetry; 2N samples */
static void rd_imdct(const double *c, int N, int kernel, double *y)
{
  static const double k0[4] = {0.5, 1, 0, 0.5};
  rd_kernel(c, N, k0[kernel], kernel & 1, y);
  for (int n = 0; n < 2 * N; n++)
    y[n] /= N;
}
/* rising half of a window of length n: sine or Kaiser-Bessel derived */
static double rd_bessel(double x)
{
  double s = 1, t = 1;
  for (int k = 1; k < 60; k++)
  {
    t *= (x / 2 / k) * (x / 2 / k);
    s += t;
  }
  return s;
}
static const double *rd_win(int n, int kbd)
{
  static double *w[2][2];
  int l = n == 1024;
  if (!w[l][kbd])
  {
    double *p = (double *)malloc(n * sizeof(double));
    if (!kbd)
      for (int i = 0; i < n; i++)
        p[i] = sin(M_PI / (2 * n) * (i + 0.5));
    else
    {
      double a = (l ? 4 : 6) * M_PI, sum = 0, acc = 0;
      for (int i = 0; i <= n; i++)
        sum += rd_bessel(a * sqrt(1 - pow((i - n / 2.0) / (n / 2.0), 2)));
      for (int i = 0; i < n; i++)
      {
        acc += rd_bessel(a * sqrt(1 - pow((i - n / 2.0) / (n / 2.0), 2)));
        p[i] = sqrt(acc / sum);
      }
    }
    w[l][kbd] = p;
  }
  return w[l][kbd];
}
/* window type of a frame given the right slope before it: start after a short slope is stop-start */
static void rd_synth(rd_ch *s, const double *spec, int win, int shape, int al_prev, int al_curr, double *out)
{
  if (!s->started)
  {
    s->shape = shape;
    s->started = 1;
  }
  int kernel = 2 * al_prev + al_curr, left_short = win == W_SHORT || win == W_STOP || (win == W_START && s->right);
  int right_short = win == W_SHORT || win == W_START;
  double y[2048], o[2048];
  if (win != W_SHORT)
  {
    rd_imdct(spec, 1024, kernel, y);
    const double *wl = rd_win(left_short ? 128 : 1024, s->shape), *wr = rd_win(right_short ? 128 : 1024, shape);
    for (int i = 0; i < 1024; i++)
    {
      double l = left_short ? (i < 448 ? 0 : i < 576 ? wl[i - 448] : 1) : wl[i];
      double r = right_short ? (i < 448 ? 1 : i < 576 ? wr[127 - (i - 448)] : 0) : wr[1023 - i];
      o[i] = y[i] * l;
      o[1024 + i] = y[1024 + i] * r;
    }
  }
  else
  {
    memset(o, 0, sizeof(o));
    for (int w = 0; w < 8; w++)
    {
      const double *wl = rd_win(128, w ? shape : s->shape), *wr = rd_win(128, shape);
      /* the symmetry at the boundaries inside the frame is that of the current frame */
      rd_imdct(spec + 128 * w, 128, w ? 3 * al_curr : kernel, y);
      for (int i = 0; i < 256; i++)
        s->mag = fmax(s->mag, fabs(y[i]));
      for (int i = 0; i < 128; i++)
      {
        o[448 + 128 * w + i] += y[i] * wl[i];
        o[448 + 128 * w + 128 + i] += y[128 + i] * wr[127 - i];
      }
    }
  }
  for (int i = 0; i < 1024; i++)
  {
    s->mag = fmax(s->mag, fmax(fabs(s->ovl[i]), fabs(y[i])));
    out[i] = s->ovl[i] + o[i];
    s->ovl[i] = o[1024 + i];
  }
  s->right = right_short;
  s->shape = shape;
}

/* ---- spectrum of one channel: dequantisation, noise filling, frequency-domain prediction ---- */
static int rd_rand(uint32_t *seed)
{
  *seed = *seed * 69069u + 5;
  return *seed & 0x10000 ? -1 : 1;
}
typedef struct
{
  int fsi, indep, nf, common_window, ch; /* ch: 1 for the right channel of a pair */
  const double *dmx_prev;                /* downmix of the frame before, for stereo filling */
} rd_ctx;
static void rd_spec(rd_ch *s, const fd_ch *f, const rd_ctx *x, double *c)
{
  const int16_t *tbl = f->win == W_SHORT ? gold_sfb_s[x->fsi] : gold_sfb_l[x->fsi];
  int sh = f->win == W_SHORT, n = sh ? 128 : 1024, len[8] = {1}, ng = sh ? fd_groups(f->grouping, len) : 1;
  int nb = x->nf ? (f->noise_level << 5) | f->noise_offset : 0, sf_fill = 0, w0 = 0;
  if (nb > 0 && nb < 32)
  {
    if (x->common_window && x->ch)
    {
      sf_fill = 1;
      nb <<= 3;
    }
    else if (f->win == W_START)
      nb <<= 3;
  }
  double lev = gold_pow143[nb >> 5];
  int start = sh ? 20 : 160;
  memset(c, 0, 1024 * sizeof(double));
  memset(s->fsf, 0, sizeof(s->fsf));
  for (int g = 0; g < ng; g++)
  {
    for (int b = 0; b < f->max_sfb; b++)
    {
      int lo = b ? tbl[b - 1] : 0, hi = tbl[b], zero = 1;
      int fac = (g == 0 && b == 0 ? f->gg : f->sf[g][b]) - 100;
      for (int w = w0; w < w0 + len[g]; w++)
        for (int i = lo; i < hi; i++)
          zero &= f->q[w * n + i] == 0;
      if (x->nf && zero)
        fac += (nb & 31) - 16;
      int fill = x->nf && lo >= start;
      for (int w = w0; w < w0 + len[g]; w++)
        for (int i = lo; i < hi; i++)
        {
          int q = f->q[w * n + i], a = abs(q) > 8191 ? 8191 : abs(q);
          if (q)
            c[w * n + i] = (q < 0 ? -1 : 1) * pow(a, 4.0 / 3);
          else if (fill)
            c[w * n + i] = lev * rd_rand(&s->seed);
        }
      if (sf_fill && zero && fill && x->dmx_prev)
      {
        double ed = 0, ec = 0, wd = 0;
        for (int w = w0; w < w0 + len[g]; w++)
          for (int i = lo; i < hi; i++)
          {
            ed += x->dmx_prev[w * n + i] * x->dmx_prev[w * n + i];
            c[w * n + i] *= 4;
            ec += c[w * n + i] * c[w * n + i];
            wd++;
          }
        if (ec < wd)
        {
          double k = ed > 0 ? sqrt((wd - ec) / ed) : 10;
          if (k > 10)
            k = 10;
          ec = 0;
          for (int w = w0; w < w0 + len[g]; w++)
            for (int i = lo; i < hi; i++)
            {
              c[w * n + i] += x->dmx_prev[w * n + i] * k;
              ec += c[w * n + i] * c[w * n + i];
            }
        }
        if (ec > 0 && ec != wd)
        {
          double k = fmin(10, sqrt(wd / (ec + 1e-8)));
          for (int w = w0; w < w0 + len[g]; w++)
            for (int i = lo; i < hi; i++)
              c[w * n + i] *= k;
        }
      }
      double gain = pow(2, 0.25 * fac);
      s->fsf[g][b] = zero && lo >= start && !sf_fill ? gain : 0;
      for (int w = w0; w < w0 + len[g]; w++)
        for (int i = lo; i < hi; i++)
          c[w * n + i] *= gain;
    }
    w0 += len[g];
  }
  /* frequency-domain prediction */
  if (x->indep)
  {
    memset(s->p1, 0, sizeof(s->p1));
    memset(s->p2, 0, sizeof(s->p2));
  }
  int bw = gold_fs[x->fsi] >= 44100 ? 132 : 160, ms = 0, spacing = 0, end = 0;
  if (!sh && f->max_sfb > 0)
  {
    ms = f->max_sfb;
    if (bw < tbl[ms - 1])
    {
      ms = 1;
      while (tbl[ms - 1] < bw)
        ms++;
      if (f->fdp && !x->indep)
        spacing = (894 * 512 + (298 - f->fdp_idx)) / (2 * (298 - f->fdp_idx));
    }
  }
  int s1 = 0, s2 = 0, hi = -128, ci = 256, est[200];
  for (int b = 0; b < ms; b++)
  {
    int lo = b ? tbl[b - 1] : 0, sc = (b ? f->sf[0][b] : f->gg) - 121;
    sc = sc < 0 ? 0 : sc > 62 ? 65536 : gold_fdp_scf[sc];
    for (int i = lo; i < tbl[b]; i++)
    {
      est[i] = 0;
      if (spacing)
      {
        if (abs(i * 256 - hi) < 384)
        {
          long r = (long)s1 * s->p1[i] + (long)s2 * s->p2[i];
          est[i] = (int)((labs(r) + 16384) >> 15) * (r < 0 ? -1 : 1);
          c[i] += 512.0 * est[i];
        }
        if (i * 256 == ci)
        {
          hi += spacing;
          int k = hi & 255;
          if (k > 128)
            k = 256 - k;
          s2 = gold_fdp_s2[k];
          s1 = gold_fdp_s1[k];
          if (((hi >> 8) & 1) == 0)
            s1 = -s1;
          ci = 256 + ((hi + 128) >> 8) * 256;
        }
      }
      int q = f->q[i], a = abs(q) > 181 ? 181 : abs(q);
      long v = (512 + (long)gold_fdp_exp[a] * sc) >> 10;
      if (q < 0)
        v = -v;
      v += est[i];
      s->p2[i] = s->p1[i];
      s->p1[i] = v > 31775 ? 31775 : v < -31775 ? -31775 : (int16_t)v;
      end = i + 1;
    }
  }
  for (int i = end < bw ? end : bw; i < 172; i++)
    s->p1[i] = s->p2[i] = 0;
}

/* ---- temporal noise shaping ---- */
static void rd_tns(const fd_ch *f, const sy_tns *t, int max_sfb, int fsi, double *c)
{
  int sh = f->win == W_SHORT, nw = sh ? 8 : 1, n = 1024 / nw, nsfb = sh ? gold_nsfb_s[fsi] : gold_nsfb_l[fsi];
  const int16_t *tbl = sh ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
  for (int w = 0; w < nw; w++)
  {
    int top = nsfb;
    for (int i = 0; i < t[w].nfilt; i++)
    {
      int lo = top - t[w].f[i].length;
      if (lo < 0)
        lo = 0;
      int a = top, b = lo, m = gold_tnsmax[fsi][sh];
      top = lo;
      if (m > max_sfb)
        m = max_sfb;
      if (a > m)
        a = m;
      if (b > m)
        b = m;
      int o = t[w].f[i].order, i0 = b ? tbl[b - 1] : 0, i1 = a ? tbl[a - 1] : 0;
      if (!o || i1 <= i0)
        continue;
      double lpc[17] = {1}, tmp[17], st[17] = {0};
      int res = 3 + t[w].coef_res;
      for (int k = 0; k < o; k++)
      {
        int v = t[w].f[i].coef[k];
        double q = ((1 << (res - 1)) + (v >= 0 ? -0.5 : 0.5)) / (M_PI / 2), r = sin(v / q);
        for (int j = 1; j <= k; j++)
          tmp[j] = lpc[j] + r * lpc[k + 1 - j];
        for (int j = 1; j <= k; j++)
          lpc[j] = tmp[j];
        lpc[k + 1] = r;
      }
      for (int k = 0; k < i1 - i0; k++)
      {
        double *p = c + w * n + (t[w].f[i].dir ? i1 - 1 - k : i0 + k), y = *p;
        for (int j = 1; j <= o; j++)
          y -= lpc[j] * st[j];
        for (int j = o; j > 1; j--)
          st[j] = st[j - 1];
        st[1] = y;
        *p = y;
      }
    }
  }
}

/* ---- long-term postfilter: one frame in place ---- */
#define RD_LH 1024
static double rd_ltpf_one(const rd_ch *s, const double *in, int n, int lag_idx, int gain, int fsi)
{
  int fs = gold_fs[fsi], pmin = (int)(34.0 * (fs / 2) / 12800 + 0.5) * 2, fr1 = 320, fr2 = 324 - pmin, pi, fr;
  int x = (fr2 - pmin) * 2;
  if (lag_idx < x)
  {
    pi = pmin + lag_idx / 2;
    fr = lag_idx & 1;
  }
  else if (lag_idx < x + fr1 - fr2)
  {
    pi = fr2 + lag_idx - x;
    fr = 0;
  }
  else
  {
    pi = (lag_idx - x - (fr1 - fr2)) * 2 + fr1;
    fr = 0;
  }
  double g = (gain + 1) / 16.0, y = in[n];
  for (int k = 0; k < 8; k++)
    y += g * s->lout[RD_LH + n - pi + k - 4] * gold_ltpf1[fr][k];
  for (int k = 0; k < 7; k++)
    y -= 0.95 * g * (n - k >= 0 ? in[n - k] : s->lin[RD_LH + n - k]) * gold_ltpf2[gain][k];
  return y;
}
static void rd_lev(const double *past, double *a) /* order 24 from 256 samples */
{
  double r[25], tmp[25], e;
  for (int k = 0; k <= 24; k++)
  {
    r[k] = 0;
    for (int i = k; i < 256; i++)
      r[k] += past[i] * past[i - k];
  }
  if (r[0] < 100)
    r[0] = 100;
  r[0] *= 1.0001;
  memset(a, 0, 25 * sizeof(double));
  a[0] = 1;
  e = r[0];
  for (int i = 1; i <= 24; i++)
  {
    double acc = r[i];
    for (int j = 1; j < i; j++)
      acc += a[j] * r[i - j];
    double k = -acc / e;
    for (int j = 1; j < i; j++)
      tmp[j] = a[j] + k * a[i - j];
    for (int j = 1; j < i; j++)
      a[j] = tmp[j];
    a[i] = k;
    e *= 1 - k * k;
    if (e <= 1e-9)
      break;
  }
}
static void rd_ltpf(rd_ch *s, const fd_ch *f, int fsi, double *x)
{
  double in[1024], *o = s->lout + RD_LH;
  int pon = s->lt_gain_on, con = f->ltpf;
  memcpy(in, x, sizeof(in));
  for (int n = 0; n < 512; n++)
    o[n] = pon ? rd_ltpf_one(s, in, n, s->lt_lag, s->lt_gain, fsi) : in[n];
  int same = (!pon && !con) || (pon && con && s->lt_lag == f->lag && s->lt_gain == f->ltpf_gain);
  if (same)
    for (int n = 512; n < 640; n++)
      o[n] = con ? rd_ltpf_one(s, in, n, f->lag, f->ltpf_gain, fsi) : in[n];
  else if (!pon)
    for (int n = 512; n < 640; n++)
    {
      double a = (n - 512) / 128.0;
      o[n] = in[n] + a * (rd_ltpf_one(s, in, n, f->lag, f->ltpf_gain, fsi) - in[n]);
    }
  else if (!con)
    for (int n = 512; n < 640; n++)
    {
      double a = 1 - (n - 512) / 128.0;
      o[n] = in[n] + a * (rd_ltpf_one(s, in, n, s->lt_lag, s->lt_gain, fsi) - in[n]);
    }
  else
  { /* from one filter to another: remove the zero-input response of the difference */
    double a[25], buf[24 + 128];
    rd_lev(o + 512 - 256, a);
    memset(buf, 0, sizeof(buf));
    /* difference between the old output and what the new filter gives, over the last 24 samples */
    for (int k = 0; k < 24; k++)
      buf[k] = o[512 - 24 + k] - rd_ltpf_one(s, in, 512 - 24 + k, f->lag, f->ltpf_gain, fsi);
    for (int n = 0; n < 128; n++)
    {
      double y = 0;
      for (int k = 1; k <= 24; k++)
        y -= a[k] * buf[24 + n - k];
      buf[24 + n] = y;
    }
    for (int n = 0; n < 128; n++)
      o[512 + n] = rd_ltpf_one(s, in, 512 + n, f->lag, f->ltpf_gain, fsi) +
                   buf[24 + n] * (n < 64 ? 1 : 1 - (n - 64) / 64.0);
  }
  for (int n = 640; n < 1024; n++)
    o[n] = con ? rd_ltpf_one(s, in, n, f->lag, f->ltpf_gain, fsi) : in[n];
  memcpy(x, o, 1024 * sizeof(double));
  memcpy(s->lout, s->lout + 1024, RD_LH * sizeof(double));
  memcpy(s->lin, in, 1024 * sizeof(double));
  s->lt_gain_on = con;
  s->lt_lag = f->lag;
  s->lt_gain = f->ltpf_gain;
}

/* ---- joint stereo ---- */
static void rd_filter(const double *in, int n, const double *fc, double *out, int even)
{
  for (int i = 0; i < n; i++)
  {
    double s = 0;
    for (int k = -3; k <= 3; k++)
    {
      int j = i + k;
      if (j < 0)
        j = -1 - j;
      if (j >= n)
        j = 2 * n - 1 - j;
      s += fc[3 - k] * in[j];
    }
    out[i] += (i & 1) ? s : even * s;
  }
}
static void rd_stereo(const sy_cpe *p, const fd_ch *l, int ste, int fsi, int indep, int prev_shape, int prev_right,
                      const double *dmx_prev, double *L, double *R)
{
  int sh = l->win == W_SHORT, n = sh ? 128 : 1024, len[8] = {1}, ng = sh ? fd_groups(l->grouping, len) : 1, w0 = 0;
  const int16_t *tbl = sh ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
  int nsfb = sh ? gold_nsfb_s[fsi] : gold_nsfb_l[fsi];
  double f = p->pred_dir ? -1 : 1, dr[1024], di[1024];
  if (p->ms == 0)
    return;
  memset(di, 0, sizeof(di));
  if (p->ms == 3)
  {
    w0 = 0;
    memset(dr, 0, sizeof(dr));
    for (int g = 0; g < ng; w0 += len[g], g++)
      for (int w = w0; w < w0 + len[g]; w++)
        for (int b = 0; b < nsfb; b++)
          for (int i = b ? tbl[b - 1] : 0; i < tbl[b]; i++)
          {
            int u = b < ste && (p->pred_all || p->used[g][b & ~1]);
            dr[w * n + i] = u ? L[w * n + i] : 0.5 * (L[w * n + i] + f * R[w * n + i]);
          }
    if (p->complex_coef)
    {
      int kind = l->win == W_START ? (prev_right ? 3 : 1) : l->win == W_STOP ? 2 : 0;
      const double *cf = gold_mdst_cur[kind][prev_shape][l->shape], *pf = gold_mdst_prev[kind >= 2][prev_shape];
      const double *pr = p->use_prev && !indep ? dmx_prev : 0;
      for (int w = 0; w < (sh ? 8 : 1); w++)
      {
        rd_filter(dr + w * n, n, cf, di + w * n, 1);
        if (pr)
          rd_filter(pr, n, pf, di + w * n, -1);
        pr = dr + w * n;
      }
    }
  }
  w0 = 0;
  for (int g = 0; g < ng; w0 += len[g], g++)
    for (int w = w0; w < w0 + len[g]; w++)
      for (int b = 0; b < ste; b++)
        for (int i = b ? tbl[b - 1] : 0; i < tbl[b]; i++)
        {
          double *a = L + w * n + i, *c = R + w * n + i, x = *a, y = *c;
          if (p->ms == 2 || (p->ms == 1 && p->used[g][b]))
          {
            *a = x + y;
            *c = x - y;
          }
          else if (p->ms == 3 && (p->pred_all || p->used[g][b & ~1]))
          {
            double mix = y - 0.1 * p->are[g][b & ~1] * x -
                         (p->complex_coef ? 0.1 * p->aim[g][b & ~1] * di[w * n + i] : 0);
            *a = x + mix;
            *c = f * (x - mix);
          }
        }
}

/* ---- multichannel coding ---- */
/* empty bands of the second channel are filled from the downmix of the pair's previous frame */
static void rd_mct_fill(rd_ch *rc, const sy_mct *m, int i, const fd_ch *ch, int fsi, int indep, double spec[][1024])
{
  static double dmx[1024];
  int a = m->map[m->pair[i][0]], b = m->map[m->pair[i][1]], sh = ch[a].win == W_SHORT, n = sh ? 128 : 1024;
  const int16_t *tbl = sh ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
  int any = m->mask_flag[i] || m->bandwise[i], nsfb = sh ? gold_nsfb_s[fsi] : gold_nsfb_l[fsi];
  int ua = !indep && rc[a].mwin == sh, ub = !indep && rc[b].mwin == (ch[b].win == W_SHORT);
  for (int k = 0; k < 1024; k++)
  {
    double p = ua ? rc[a].mprev[k] : 0, q = ub ? rc[b].mprev[k] : 0;
    if (!m->type)
      dmx[k] = ua && ub ? 0.5 * (m->pred_dir[i] ? p - q : p + q) : 0;
    else
    {
      int sfb = 0, c = m->coef[i][0];
      while (sfb < nsfb && k % n >= tbl[sfb])
        sfb++;
      if (any && (sfb / 2 >= m->nband[i] || (m->mask_flag[i] && !m->mask[i][sfb / 2])))
        c = 32;
      else if (m->bandwise[i])
        c = m->coef[i][sfb / 2];
      dmx[k] = p * cos((c - 32) * M_PI / 64) + q * sin((c - 32) * M_PI / 64);
    }
  }
  int len[8] = {1}, ng = sh ? fd_groups(ch[b].grouping, len) : 1;
  for (int g = 0, w0 = 0; g < ng; w0 += len[g++])
    for (int sfb = 1; sfb < nsfb; sfb++)
    {
      double sf = rc[b].fsf[g][sfb], ed = 1e-8, ec = 0, want = 0, k;
      if (sf <= 1e-8)
        continue;
      for (int w = w0; w < w0 + len[g]; w++)
        for (int l = tbl[sfb - 1]; l < tbl[sfb]; l++, want++)
        {
          double *c = &spec[b][w * n + l];
          *c *= 4 / sf;
          ec += *c * *c;
          ed += dmx[w * n + l] * dmx[w * n + l];
        }
      if (ec < want)
      {
        k = fmin(10, sqrt((want - ec) / ed));
        ec = 0;
        for (int w = w0; w < w0 + len[g]; w++)
          for (int l = tbl[sfb - 1]; l < tbl[sfb]; l++)
          {
            double *c = &spec[b][w * n + l];
            *c += dmx[w * n + l] * k;
            ec += *c * *c;
          }
        k = ec > 0 ? fmin(10, sqrt(want / (ec + 1e-8))) : 1;
        for (int w = w0; w < w0 + len[g]; w++)
          for (int l = tbl[sfb - 1]; l < tbl[sfb]; l++)
            spec[b][w * n + l] *= k;
      }
      for (int w = w0; w < w0 + len[g]; w++)
        for (int l = tbl[sfb - 1]; l < tbl[sfb]; l++)
          spec[b][w * n + l] *= sf;
    }
  memset(rc[b].fsf, 0, sizeof(rc[b].fsf));
}
static void rd_mct(rd_ch *rc, const sy_mct *m, const fd_ch *ch, int fsi, int indep, double spec[][1024])
{
  for (int i = 0; i < m->np; i++)
  {
    if (m->stereo_filling && m->fill[i])
      rd_mct_fill(rc, m, i, ch, fsi, indep, spec);
    int a = m->map[m->pair[i][0]], b = m->map[m->pair[i][1]], sh = ch[a].win == W_SHORT, n = sh ? 128 : 1024;
    int any = m->mask_flag[i] || m->bandwise[i], nsfb = sh ? gold_nsfb_s[fsi] : gold_nsfb_l[fsi];
    const int16_t *tbl = sh ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
    for (int w = 0; w < (sh ? 8 : 1); w++)
      for (int k = 0; k < n; k++)
      {
        int sfb = 0;
        while (sfb < nsfb && k >= tbl[sfb])
          sfb++;
        int band = w * m->nband[i] + sfb / 2, c = m->coef[i][m->bandwise[i] ? band : 0];
        if (any && (sfb / 2 >= m->nband[i] || (m->mask_flag[i] && !m->mask[i][band])))
          continue;
        double *x = &spec[a][w * n + k], *y = &spec[b][w * n + k], d = *x, r = *y;
        if (m->type)
        {
          double t = (c - 32) * M_PI / 64;
          *x = d * cos(t) - r * sin(t);
          *y = d * sin(t) + r * cos(t);
        }
        else
        {
          r += c * 0.1 * d;
          *x = d + r;
          *y = m->pred_dir[i] ? r - d : d - r;
        }
      }
  }
}

/* ---- elements: spectra, then everything after multichannel coding ---- */
static void rd_sce_spec(rd_ch *s, const fd_ch *f, int fsi, int indep, int nf, int lfe, double *c)
{
  rd_ctx x = {fsi, indep, lfe ? 0 : nf, 0, 0, 0};
  rd_spec(s, f, &x, c);
}
static void rd_sce(rd_ch *s, const fd_ch *f, int fsi, int indep, int lfe, double *c, double *out)
{
  if (f->tns && !lfe)
    rd_tns(f, f->t, f->max_sfb, fsi, c);
  rd_synth(s, c, f->win, f->shape, indep ? f->al_prev : s->al, f->al_curr, out);
  s->al = f->al_curr;
  rd_ltpf(s, f, fsi, out);
}
/* the right channel with what it shares with the left one */
static fd_ch *rd_right(const sy_cpe *p, const fd_ch *l, const fd_ch *r0)
{
  fd_ch *r = (fd_ch *)malloc(sizeof(fd_ch));
  *r = *r0;
  if (p->common_window)
  {
    r->win = l->win;
    r->shape = l->shape;
    r->grouping = l->grouping;
    if (!p->max_sfb_r_own)
      r->max_sfb = l->max_sfb;
  }
  if (p->common_ltpf)
  {
    r->ltpf = l->ltpf;
    r->lag = l->lag;
    r->ltpf_gain = l->ltpf_gain;
  }
  return r;
}
static void rd_dmx(const rd_ch *sl, const rd_ch *sr, const sy_cpe *p, int indep, double *dmx)
{
  double f = p->common_window && p->ms == 3 && p->pred_dir ? -1 : 1;
  for (int i = 0; i < 1024; i++)
    dmx[i] = indep ? 0 : 0.5 * (sl->save[i] + f * sr->save[i]);
}
static void rd_cpe_spec(rd_ch *sl, rd_ch *sr, const sy_cpe *p, const fd_ch *l, const fd_ch *r0, int fsi, int indep,
                        int nf, double *L, double *R)
{
  static double dmx[1024];
  fd_ch *r = rd_right(p, l, r0);
  rd_dmx(sl, sr, p, indep, dmx);
  rd_ctx x = {fsi, indep, nf, p->common_window, 0, dmx};
  rd_spec(sl, l, &x, L);
  x.ch = 1;
  rd_spec(sr, r, &x, R);
  free(r);
}
static void rd_cpe(rd_ch *sl, rd_ch *sr, const sy_cpe *p, const fd_ch *l, const fd_ch *r0, int fsi, int indep,
                   double *L, double *R, double *ol, double *or_)
{
  static double dmx[1024];
  fd_ch *r = rd_right(p, l, r0);
  int cw = p->common_window, ste = l->max_sfb > r->max_sfb ? l->max_sfb : r->max_sfb;
  rd_dmx(sl, sr, p, indep, dmx);
  int tns = l->tns || r->tns, common_tns = cw && p->common_tns;
  for (int k = 0; k < 2; k++)
    if (k != p->tns_on_lr || !tns)
    {
      if (cw && (k == 0 || tns))
        rd_stereo(p, l, ste, fsi, indep, sl->started ? sl->shape : l->shape, sl->right, dmx, L, R);
    }
    else
    {
      if (common_tns || l->tns)
        rd_tns(l, l->t, l->max_sfb, fsi, L);
      if (common_tns || r->tns)
        rd_tns(r, common_tns ? l->t : r->t, r->max_sfb, fsi, R);
    }
  /* spectra kept for the next frame: the last transform, nothing when the channels' transforms differ */
  int zero = (l->win == W_SHORT) != (r->win == W_SHORT), off = l->win == W_SHORT ? 896 : 0;
  memset(sl->save, 0, sizeof(sl->save));
  memset(sr->save, 0, sizeof(sr->save));
  if (!zero)
    for (int i = 0; i < (off ? 128 : 1024); i++)
    {
      sl->save[i] = L[off + i];
      sr->save[i] = R[off + i];
    }
  rd_synth(sl, L, l->win, l->shape, indep ? l->al_prev : sl->al, l->al_curr, ol);
  rd_synth(sr, R, r->win, r->shape, indep ? r->al_prev : sr->al, r->al_curr, or_);
  sl->al = l->al_curr;
  sr->al = r->al_curr;
  rd_ltpf(sl, l, fsi, ol);
  rd_ltpf(sr, r, fsi, or_);
  free(r);
}

/* ---- a whole stream: frames are decoded by the model as the synthesiser writes them ---- */
typedef struct
{
  rd_ch ch[32];
  int nch;
  double *pcm; /* interleaved */
  double *mag; /* per frame and channel */
  long n, cap;
} rd_t;
static void rd_start(rd_t *r, const sb_t *s)
{
  int c = 0;
  memset(r, 0, sizeof(*r));
  for (int i = 0; i < s->cfg.nel; i++)
    if (s->cfg.el[i].type == EL_CPE)
    {
      rd_ch_init(&r->ch[c], 0);
      rd_ch_init(&r->ch[c + 1], 1);
      c += 2;
    }
    else if (s->cfg.el[i].type != EL_EXT)
      rd_ch_init(&r->ch[c++], 0);
  r->nch = c;
}
static void rd_frame(rd_t *r, const sb_t *s, int indep)
{
  static double o[32][1024], spec[32][1024];
  int c = 0, fsi = sy_fsi(&s->cfg);
  for (int k = 0; k < r->nch; k++)
    r->ch[k].mag = 0;
  for (int i = 0; i < s->cfg.nel; i++)
  {
    const sy_el *e = &s->cfg.el[i];
    if (e->type == EL_CPE)
    {
      rd_cpe_spec(&r->ch[c], &r->ch[c + 1], &s->cpe[i], &s->ch[c], &s->ch[c + 1], fsi, indep, e->nf, spec[c],
                  spec[c + 1]);
      c += 2;
    }
    else if (e->type != EL_EXT)
    {
      rd_sce_spec(&r->ch[c], &s->ch[c], fsi, indep, e->nf, e->type == EL_LFE, spec[c]);
      c++;
    }
  }
  for (int g = 0; g < 2; g++)
  {
    const sy_mct *t = g ? &s->mct2 : &s->mct;
    if (!t->on)
      continue;
    rd_mct(r->ch, t, s->ch, fsi, indep, spec);
    for (int k = 0; k < t->nch; k++)
    {
      rd_ch *q = &r->ch[t->map[k]];
      memcpy(q->mprev, spec[t->map[k]], sizeof(q->mprev));
      q->mwin = s->ch[t->map[k]].win == W_SHORT;
    }
  }
  c = 0;
  for (int i = 0; i < s->cfg.nel; i++)
  {
    const sy_el *e = &s->cfg.el[i];
    if (e->type == EL_CPE)
    {
      rd_cpe(&r->ch[c], &r->ch[c + 1], &s->cpe[i], &s->ch[c], &s->ch[c + 1], fsi, indep, spec[c], spec[c + 1], o[c],
             o[c + 1]);
      c += 2;
    }
    else if (e->type != EL_EXT)
    {
      rd_sce(&r->ch[c], &s->ch[c], fsi, indep, e->type == EL_LFE, spec[c], o[c]);
      c++;
    }
  }
  if (r->n + 1024 > r->cap)
  {
    r->cap = r->cap * 2 + 65536;
    r->pcm = (double *)realloc(r->pcm, r->cap * r->nch * sizeof(double));
    r->mag = (double *)realloc(r->mag, (r->cap / 1024 + 1) * r->nch * sizeof(double));
  }
  for (int k = 0; k < r->nch; k++)
    r->mag[r->n / 1024 * r->nch + k] = r->ch[k].mag;
  for (int t = 0; t < 1024; t++)
    for (int k = 0; k < r->nch; k++)
      r->pcm[(r->n + t) * r->nch + k] = o[k][t];
  r->n += 1024;
}
/* synthesise one frame and decode it by the model */
static void rs_frame(sb_t *s, rd_t *r, int indep)
{
  sb_frame(s, indep);
  rd_frame(r, s, indep);
}
#endif
