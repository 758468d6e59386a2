/* P10: the peak limiter.  White box: every signal of a few samples over an alphabet around the threshold, every way of
 * cutting it into frames, one to three channels.  Whole decoder: every sequence of frame levels, every set of loud
 * channels; the signal before the limiter is known exactly from the same frames at 44.1 kHz, where none is in the path,
 * at a gain too low to saturate.  Oracle: the limiter's definition in double precision, and the bound itself. */
#include "vf.h"
#include "streams.h"
#include <math.h>

#define THR 0.89125094 /* -1 dB */
typedef struct
{
  int A, nch, n;        /* look-ahead, channels, samples taken */
  double *peak;         /* of every sample */
  double cor, sm, at, re;
  double *g;
} lim_t;
static void lim_new(lim_t *l, int A, double fs, int nch, long n)
{
  memset(l, 0, sizeof(*l));
  l->A = A;
  l->nch = nch;
  l->peak = calloc(n + 1, sizeof(double));
  l->g = calloc(n + 1, sizeof(double));
  l->cor = l->sm = 1;
  l->at = pow(0.1, 1.0 / (A + 1));
  l->re = pow(0.1, 1.0 / (50.0 * fs / 1000 + 1));
}
static void lim_free(lim_t *l)
{
  free(l->peak);
  free(l->g);
}
/* gain for the sample that leaves the delay line when x enters */
static double lim_step(lim_t *l, const double *x)
{
  double p = 0, m = 0, g;
  for (int c = 0; c < l->nch; c++)
    p = fmax(p, fabs(x[c]));
  l->peak[l->n] = p;
  for (int k = l->n; k >= 0 && k >= l->n - l->A; k--)
    m = fmax(m, l->peak[k]);
  g = m > THR * 32768 ? THR * 32768 / m : 1;
  if (g < l->sm * (1 - 1e-7))
    l->cor = fmin(l->cor, (g - 0.1 * l->sm) / 0.9);
  else
    l->cor = g;
  if (l->cor >= l->sm)
    l->sm = l->cor + l->re * (l->sm - l->cor);
  else
    l->sm = fmax(g, l->cor + l->at * (l->sm - l->cor));
  return l->g[l->n++] = l->sm;
}

#ifndef P10_DEC
#include "ia_core_coder_cnst.h"
#include "impeghd_peak_limiter_struct_def.h"
extern IA_ERRORCODE impeghd_peak_limiter_init(ia_peak_limiter_struct *, UWORD32, UWORD32, FLOAT32 *);
extern VOID impeghd_peak_limiter_process(ia_peak_limiter_struct *, FLOAT32 *, UWORD32);
static ia_peak_limiter_struct L;
static void micro(void)
{
  static const double al[] = {0, 0.5, 1.0, 1.5, 8, -2};
  int n = vf_thorough ? 8 : 7;
  for (int fs = 200; fs <= 1000; fs += 200)
    for (int nch = 1; nch <= 3; nch++)
      for (int first = 0; first < 36; first++)
      {
        if (!vf_case("every signal of %d samples beginning %d,%d at %d Hz, %d channels", n, first / 6, first % 6, fs, nch))
          continue;
        int A = 5 * fs / 1000, tot = 1;
        vf_nontriv++;
        for (int i = 2; i < n; i++)
          tot *= 6;
        int bad = 0;
        for (int k = 0; k < tot && !bad; k++)
        {
          double x[16][3];
          float in[3 * 16], out[3 * 16];
          int dig[16] = {first / 6, first % 6}, t = k;
          for (int i = 2; i < n; i++, t /= 6)
            dig[i] = t % 6;
          int len = n + A;
          for (int i = 0; i < len; i++)
            for (int c = 0; c < nch; c++)
            {
              double v = i >= n ? 0.25 : al[dig[i]];
              if (c != k % nch)
                v *= 0.3;
              x[i][c] = (double)(float)(v * THR * 32768);
              in[i * nch + c] = (float)x[i][c];
            }
          lim_t m;
          lim_new(&m, A, fs, nch, 32);
          memset(&L, 0, sizeof(L));
          impeghd_peak_limiter_init(&L, nch, fs, L.buffer);
          memcpy(out, in, sizeof(in));
          /* cut into frames: all ways for the short signals by rotating through the cut masks */
          int mask = (k * 2654435761u) >> 16 & ((1 << len) - 1), from = 0;
          for (int i = 0; i < len; i++)
            if (i == len - 1 || mask >> i & 1)
            {
              impeghd_peak_limiter_process(&L, out + from * nch, i + 1 - from);
              from = i + 1;
            }
          for (int i = 0; i < len && !bad; i++)
          {
            double g = lim_step(&m, x[i]);
            vf_trans++;
            for (int c = 0; c < nch; c++)
            {
              double y = i < A ? 0 : g * x[i - A][c], T = (double)(0.89125094f * 32768.0f);
              y = fmin(T, fmax(-T, y));
              if (fabs(out[i * nch + c]) > T)
              {
                vf_fail("above-threshold", "signal %d: sample %d comes out at %g, the threshold is %g", k, i, out[i * nch + c], T);
                bad = 1;
              }
              else if (fabs(out[i * nch + c] - y) > 1e-4 * fabs(y) + 1e-3)
              {
                vf_fail("gain", "signal %d: sample %d of channel %d comes out at %.9g instead of %.9g", k, i, c, out[i * nch + c], y);
                bad = 1;
              }
            }
          }
          lim_free(&m);
        }
        vf_outcome(first * 100 + fs);
      }
}
/* all cuts of one signal into frames */
static void cuts(void)
{
  for (int sig = 0; sig < 8; sig++)
  {
    if (!vf_case("signal %d cut into frames in every way", sig))
      continue;
    vf_nontriv++;
    int n = 14, nch = 2;
    float ref[32], in[32], out[32];
    for (int i = 0; i < n * nch; i++)
      in[i] = (float)(29205 * ((i * (sig + 3)) % 7 == 0 ? 3.0 : (i % 5) * 0.3) * (i & 1 ? -1 : 1));
    for (int mask = 0; mask < 1 << (n - 1); mask++)
    {
      memset(&L, 0, sizeof(L));
      impeghd_peak_limiter_init(&L, nch, 600, L.buffer);
      memcpy(out, in, sizeof(in));
      int from = 0;
      for (int i = 0; i < n; i++)
        if (i == n - 1 || mask >> i & 1)
        {
          impeghd_peak_limiter_process(&L, out + from * nch, i + 1 - from);
          from = i + 1;
        }
      if (!mask)
        memcpy(ref, out, sizeof(out));
      else if (memcmp(ref, out, n * nch * sizeof(float)))
      {
        vf_fail("frames-matter", "cut mask %x changes the output", mask);
        break;
      }
      vf_trans++;
    }
  }
}
#else
static blob mk(int lay, int fsi, const int *lev, const uint8_t *sh, int nf, int mask, int drop)
{
  static const char *els[] = {"S", "P", "PSLP", "PSLPPPP"};
  static const int cicp[] = {1, 2, 6, 19};
  static const int off[] = {-400, 0, 12, 20, 40}; /* quarter powers: silent, soft, near the threshold, above, far above */
  sb_t *s = sb_new();
  sx_layout(s, cicp[lay], els[lay]);
  s->cfg.fs_idx = fsi;
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < nf; f++)
  {
    for (int c = 0; c < s->nch; c++)
    {
      fd_ch *x = &s->ch[c];
      int lfe = lay >= 2 && c == 3, l = lev[f];
      if (!(mask >> c & 1) && l > 1)
        l = 1;
      fd_gain(x, 158 + (l ? off[l] : 0) - drop * 4);
      x->win = W_LONG;
      x->max_sfb = lfe ? 5 : 30;
      x->arith_reset = 1;
      sx_fill(x, 3, f * 40 + c, lfe ? 60 : 20);
      if (!l)
        memset(x->q, 0, sizeof(x->q));
      (void)sh;
    }
    sb_frame(s, 1);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  return b;
}
static void run(dec_t *d, blob b, int cicp)
{
  dec_defaults(d);
  d->in.ui_cicp_layout_idx = cicp;
  d->in.ui_pcm_wd_sz = 32;
  int e = dec_all(d, b, 0);
  if (e)
    vf_fail("code", "decoding answers %x", e);
  dec_close(d);
  free(b.d);
}
/* the layout converter's smallest level it still treats proportionally is far below what is compared here */
static void whole(int lay, const int *lev, int nf, int mask, int cicp)
{
  dec_t a, b;
  enum { DROP = 10 };
  /* with a converter in the path: the same rate, far below the threshold, ends 240 samples early as well */
  int lost = cicp ? 240 : 0;
  run(&a, mk(lay, cicp ? 3 : 4, lev, 0, nf, mask, DROP), cicp);
  run(&b, mk(lay, 3, lev, 0, nf, mask, 0), cicp);
  int nch = b.out.i_num_chan;
  long n = a.npcm / 4 / nch, m = b.npcm / 4 / nch;
  const int32_t *p = (const int32_t *)a.pcm, *q = (const int32_t *)b.pcm;
  if (a.out.i_num_chan != nch || m != n - 240 + lost)
  {
    vf_fail("length", "%ld samples, %ld go in", m, n);
    goto out;
  }
  lim_t l;
  lim_new(&l, 240, 48000, nch, n);
  double x[32], pk = 0, red = 1;
  for (long t = 0; t < n; t++)
  {
    for (int c = 0; c < nch; c++)
      x[c] = p[t * nch + c] / 65536.0 * (1 << DROP), pk = fmax(pk, fabs(x[c]));
    red = fmin(red, lim_step(&l, x));
  }
  vf_nontriv += red < 1;
  vf_trans += m;
  int touched = 0;
  double rel = cicp ? 2e-3 : 2e-4;
  for (long t = 0; t < m - lost; t++)
    for (int c = 0; c < nch; c++)
    {
      double in = p[t * nch + c] / 65536.0 * (1 << DROP), g = l.g[t + 240], y = g * in, v = q[t * nch + c] / 65536.0;
      double T = THR * 32768;
      y = fmin(T, fmax(-T, y));
      if (fabs(v) > T + 0.01)
      {
        vf_fail("above-threshold", "sample %ld of channel %d comes out at %.3f, the threshold is %.3f", t, c, v, T);
        goto done;
      }
      if (fabs(v - y) > rel * fabs(y) + (cicp ? 0.5 : 0.05))
      {
        vf_fail("gain", "sample %ld of channel %d is %.4f, %.4f went in, the gain is %.6f", t, c, v, in, g);
        goto done;
      }
      touched |= g < 1;
    }
done:
  vf_outcome(vf_hash(q, m * nch * 4, lay));
  vf_count("limited", touched);
  lim_free(&l);
out:
  dec_free(&a);
  dec_free(&b);
}
#endif
int main(int argc, char **argv)
{
  vf_init(argc, argv);
#ifndef P10_DEC
  cuts();
  micro();
#else
  int nf = vf_thorough ? 5 : 3, tot = vf_thorough ? 3125 : 125;
  for (int lay = 0; lay < 4; lay++)
    for (int k = 0; k < tot; k++)
    {
      int lev[8], t = k;
      for (int i = 0; i < nf; i++, t /= 5)
        lev[i] = t % 5;
      lev[nf] = lev[nf + 1] = 1;
      static const int nch[] = {1, 2, 6, 12};
      /* every single loud channel and all of them */
      int nm = lay == 0 ? 1 : nch[lay] + 1;
      for (int m = 0; m < nm; m++)
      {
        if (!vf_thorough && lay >= 2 && (k + m) % (lay == 2 ? 2 : 5) && m < nch[lay])
          continue;
        int mask = m == nm - 1 ? (1 << nch[lay]) - 1 : 1 << m;
        if (!vf_case("layout %d, frame levels %d%d%d%d, loud channels %x", lay, lev[0], lev[1], lev[2], lev[3], mask))
          continue;
        whole(lay, lev, nf + 2, mask, 0);
      }
      static const int tg[4][3] = {{2, 6, 19}, {1, 6, 12}, {2, 1, 19}, {2, 6, 1}};
      for (int c = 0; c < 3; c++)
        if (lev[0] < 2 && (vf_thorough || (k / 5 + c) % 2 == 0)) /* the converter swallows its first block */
          if (vf_case("layout %d into CICP %d, frame levels %d%d%d%d", lay, tg[lay][c], lev[0], lev[1], lev[2], lev[3]))
            whole(lay, lev, nf + 2, 0xffff, tg[lay][c]);
    }
#endif
  return vf_finish();
}
