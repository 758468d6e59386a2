/* Binaural room responses as the interface takes them, and convolution in double precision. */
#ifndef VF_BRIR_H
#define VF_BRIR_H
#include "synth.h"
#include <math.h>
#define BR_PAIRS 21
#define BR_LEN 16384
typedef struct
{
  int fs, fs_idx;     /* index -1: the rate itself */
  int name;           /* letters of the file name */
  int hoa, order;
  int cicp, pairs;
  int fmt;            /* 0: responses, 2: direct and diffuse parts */
  int begin, len, nblk;
  double fc;          /* of all parts */
  float w[BR_PAIRS];  /* inverse diffuse weights */
  float h[2][BR_PAIRS][BR_LEN];
  float d[3][2][8192];
} brir;
static void br_f(bw_t *b, float f)
{
  uint32_t u;
  memcpy(&u, &f, 4);
  bw_put(b, u, 32);
}
static void br_rep(const brir *r, bw_t *b);
/* a file with n representations */
static void br_file(const brir *r, int n, bw_t *b)
{
  bw_put(b, 0x42524952, 32);
  bw_put(b, 1, 8);
  bw_put(b, r->name, 8);
  for (int i = 0; i < r->name; i++)
    bw_put(b, 'a' + i % 26, 8);
  bw_put(b, 0, 1);
  bw_put(b, n, 4);
  for (int i = 0; i < n; i++)
    br_rep(r + i, b);
}
static void br_write(const brir *r, bw_t *b)
{
  br_file(r, 1, b);
}
static void br_rep(const brir *r, bw_t *b)
{
  if (r->fs_idx >= 0)
    bw_put(b, r->fs_idx, 5);
  else
  {
    bw_put(b, 31, 5);
    bw_put(b, r->fs, 24);
  }
  bw_put(b, r->hoa, 1);
  if (r->hoa)
    bw_esc(b, r->order, 3, 5, 0);
  else
  {
    bw_put(b, 0, 2);
    bw_put(b, r->cicp, 6);
    bw_esc(b, r->pairs - 1, 5, 8, 0);
  }
  bw_put(b, r->fmt, 2);
  bw_align(b);
  if (r->fmt == 0)
  {
    bw_put(b, r->len, 24);
    for (int p = 0; p < r->pairs; p++)
      for (int t = 0; t < r->len; t++)
        for (int e = 0; e < 2; e++)
          br_f(b, r->h[e][p][t]);
    bw_put(b, 20000, 32);
    return;
  }
  bw_put(b, r->begin, 16);
  bw_put(b, r->len, 16);
  bw_put(b, r->nblk, 8);
  for (int p = 0; p < 2 * r->pairs; p++)
    br_f(b, (float)r->fc);
  for (int p = 0; p < 2 * r->nblk; p++)
    br_f(b, (float)r->fc);
  for (int p = 0; p < r->pairs; p++)
    br_f(b, r->w[p]);
  for (int p = 0; p < r->pairs; p++)
    for (int t = 0; t < r->len; t++)
      for (int e = 0; e < 2; e++)
        br_f(b, r->h[e][p][t]);
  for (int k = 0; k < r->nblk; k++)
    for (int t = 0; t < r->len; t++)
      for (int e = 0; e < 2; e++)
        br_f(b, r->d[k][e][t]);
}
/* ---- y += h * x, in double ---- */
static void br_fft(double *re, double *im, int n, int sgn)
{
  for (int i = 1, j = 0; i < n; i++)
  {
    int bit = n >> 1;
    for (; j & bit; bit >>= 1)
      j ^= bit;
    j ^= bit;
    if (i < j)
    {
      double t = re[i];
      re[i] = re[j], re[j] = t;
      t = im[i], im[i] = im[j], im[j] = t;
    }
  }
  static double c[65536], s[65536];
  static int cn;
  if (cn != n)
  {
    for (int i = 0; i < n / 2; i++)
      c[i] = cos(2 * M_PI * i / n), s[i] = sin(2 * M_PI * i / n);
    cn = n;
  }
  for (int len = 2; len <= n; len <<= 1)
    for (int i = 0; i < n; i += len)
      for (int k = 0; k < len / 2; k++)
      {
        double wr = c[k * (n / len)], wi = sgn * s[k * (n / len)];
        double *ar = re + i + k, *ai = im + i + k, *br = ar + len / 2, *bi = ai + len / 2;
        double xr = *br * wr - *bi * wi, xi = *br * wi + *bi * wr;
        *br = *ar - xr, *bi = *ai - xi;
        *ar += xr, *ai += xi;
      }
}
/* spectrum of x (n samples) in a transform of size N */
static void br_spec(const double *x, long n, int N, double *re, double *im)
{
  memset(re, 0, N * sizeof(double));
  memset(im, 0, N * sizeof(double));
  memcpy(re, x, (n > N ? N : n) * sizeof(double));
  br_fft(re, im, N, -1);
}
#endif
