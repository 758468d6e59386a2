/* Executable model of the layout converter: short-time transform of 512 samples every 256 with sine windows, a real gain
 * per bin from every input to every output, and an equaliser per ERB band and output that restores the energy lost or
 * gained by summation, smoothed over blocks and limited. */
#ifndef VF_FCMODEL_H
#define VF_FCMODEL_H
#include <math.h>
#include <stdlib.h>
#include <string.h>
#define FM_N 512
#define FM_H 256
#define FM_BINS 257
#define FM_MAXCH 24
static const int fm_erb[58] = {1,  2,  3,  4,  5,  6,  7,   8,   9,   10,  11,  12,  13,  14,  15,  16,  17,  18, 19, 20,
                               21, 22, 23, 24, 25, 26, 27,  28,  29,  30,  31,  32,  33,  36,  39,  43,  47,  51, 55, 60,
                               65, 70, 77, 84, 91, 98, 106, 115, 125, 136, 148, 160, 174, 189, 205, 222, 241, 257};
static double fm_cs[FM_N], fm_sn[FM_N], fm_win[FM_N];
static int fm_band[FM_BINS];
static void fm_init(void)
{
  for (int i = 0; i < FM_N; i++)
  {
    fm_cs[i] = cos(2 * M_PI * i / FM_N);
    fm_sn[i] = sin(2 * M_PI * i / FM_N);
    fm_win[i] = sin(M_PI * (i + 0.5) / FM_N);
  }
  for (int k = 0, b = 0; k < FM_BINS; k++)
  {
    while (k >= fm_erb[b])
      b++;
    fm_band[k] = b;
  }
}
/* in place, radix 2; sign -1 forward, +1 inverse (unscaled) */
static void fm_fft(double *re, double *im, int sign)
{
  for (int i = 1, j = 0; i < FM_N; i++)
  {
    int bit = FM_N >> 1;
    for (; j & bit; bit >>= 1)
      j ^= bit;
    j ^= bit;
    if (i < j)
    {
      double t = re[i];
      re[i] = re[j], re[j] = t;
      t = im[i];
      im[i] = im[j], im[j] = t;
    }
  }
  for (int len = 2; len <= FM_N; len <<= 1)
    for (int i = 0; i < FM_N; i += len)
      for (int j = 0; j < len / 2; j++)
      {
        int w = j * (FM_N / len);
        double c = fm_cs[w], s = sign * fm_sn[w];
        double *ar = re + i + j, *ai = im + i + j, *br = ar + len / 2, *bi = ai + len / 2;
        double tr = *br * c - *bi * s, ti = *br * s + *bi * c;
        *br = *ar - tr, *bi = *ai - ti;
        *ar += tr, *ai += ti;
      }
}
typedef struct
{
  int nin, nout, active; /* active: with the energy equaliser */
  const double *M;       /* [bin][in][out] */
  double *xprev, *ov, *te, *re;
} fm_t;
static void fm_new(fm_t *f, int nin, int nout, const double *M, int active)
{
  f->nin = nin;
  f->nout = nout;
  f->M = M;
  f->active = active;
  f->xprev = calloc(nin * FM_H, sizeof(double));
  f->ov = calloc(nout * FM_H, sizeof(double));
  f->te = calloc(nout * 58, sizeof(double));
  f->re = calloc(nout * 58, sizeof(double));
}
static void fm_free(fm_t *f)
{
  free(f->xprev);
  free(f->ov);
  free(f->te);
  free(f->re);
}
/* one block: x[nin][256] in, y[nout][256] out (which is the block before, converted) */
static void fm_block(fm_t *f, const double *x, double *y)
{
  static double X[FM_MAXCH][2][FM_BINS], Y[2][FM_N];
  double re[FM_N], im[FM_N];
  for (int c = 0; c < f->nin; c++)
  {
    int any = 0;
    for (int i = 0; i < FM_H; i++)
    {
      re[i] = f->xprev[c * FM_H + i] * fm_win[i];
      re[FM_H + i] = x[c * FM_H + i] * fm_win[FM_H + i];
      any |= re[i] != 0 || re[FM_H + i] != 0;
    }
    memcpy(f->xprev + c * FM_H, x + c * FM_H, FM_H * sizeof(double));
    memset(im, 0, sizeof(im));
    if (any)
      fm_fft(re, im, -1);
    memcpy(X[c][0], re, sizeof(X[c][0]));
    memcpy(X[c][1], im, sizeof(X[c][1]));
    X[c][1][0] = X[c][1][256] = 0;
  }
  for (int o = 0; o < f->nout; o++)
  {
    double te[58] = {0}, rl[58] = {0};
    memset(Y, 0, sizeof(Y));
    for (int k = 0; k < FM_BINS; k++)
    {
      double t = 0;
      for (int c = 0; c < f->nin; c++)
      {
        double m = f->M[(k * f->nin + c) * f->nout + o];
        if (m == 0)
          continue;
        double a = m * X[c][0][k], b = m * X[c][1][k];
        Y[0][k] += a;
        Y[1][k] += b;
        t += a * a + b * b;
      }
      te[fm_band[k]] += t;
      rl[fm_band[k]] += Y[0][k] * Y[0][k] + Y[1][k] * Y[1][k];
    }
    double eq[58];
    for (int b = 0; b < 58; b++)
    {
      double *T = &f->te[o * 58 + b], *R = &f->re[o * 58 + b];
      *T = 0.0435 * te[b] + (1 - 0.0435) * *T;
      *R = 0.0435 * rl[b] + (1 - 0.0435) * *R;
      eq[b] = sqrt(*T / (1e-35 + *R));
      eq[b] = eq[b] > 2.51188643 ? 2.51188643 : eq[b] < 0.316227766 ? 0.316227766 : eq[b];
      if (!f->active)
        eq[b] = 1;
    }
    for (int k = 0; k < FM_BINS; k++)
    {
      Y[0][k] *= eq[fm_band[k]];
      Y[1][k] *= eq[fm_band[k]];
    }
    for (int k = 1; k < 256; k++)
    {
      Y[0][FM_N - k] = Y[0][k];
      Y[1][FM_N - k] = -Y[1][k];
    }
    fm_fft(Y[0], Y[1], 1);
    for (int i = 0; i < FM_H; i++)
    {
      y[o * FM_H + i] = Y[0][i] / FM_N * fm_win[i] + f->ov[o * FM_H + i] * fm_win[FM_H + i];
      f->ov[o * FM_H + i] = Y[0][FM_H + i] / FM_N;
    }
  }
}
#endif
