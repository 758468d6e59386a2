/* Transmitted downmix matrices: writer of the configuration extension and what each written matrix means. */
#ifndef VF_DMX_H
#define VF_DMX_H
#include "layouts.h"
#include "fcmodel.h"
#define DX_ZERO (-1e9)
typedef struct
{
  int sep, sym;      /* 0: told per output, 1: all */
  unsigned sepm, symm; /* the flags told per output */
  int mixlfe, raw_c, tmpl, full, raw_g;
  int prec, maxg, ming; /* ming <= -1 */
  int lg_c, lg_g;
  int dens; /* of 8: how many cells are filled */
  int zero; /* of 8: how many gains are minus infinity */
  unsigned seed;
  int top; /* gains at most (steps) */
  /* equaliser */
  int neq, eqprec, eqext;
  struct
  {
    int nf, p10[4], ld2[4], q[4], qx[4], g[4], sg;
  } eq[12];
  int map[24];
} dx_t;
typedef struct
{
  int a, b; /* the speaker, its mirror image or -1 */
  int type; /* 0 centre, 1 pair, 2 single */
  int lfe;
} dx_c;
static int dx_compact(const spk *s, int n, dx_c *o)
{
  int used[32] = {0}, m = 0;
  for (int i = 0; i < n; i++)
  {
    if (used[i])
      continue;
    used[i] = 1;
    o[m].a = i, o[m].b = -1, o[m].lfe = s[i].lfe;
    if (s[i].az == 0 || abs(s[i].az) == 180)
    {
      o[m++].type = 0;
      continue;
    }
    o[m].type = 2;
    for (int j = i + 1; j < n; j++)
      if (!used[j] && s[j].lfe == s[i].lfe && s[j].el == s[i].el && s[j].az == -s[i].az)
      {
        used[j] = 1;
        o[m].type = 1;
        o[m].a = s[i].az > 0 ? i : j;
        o[m].b = s[i].az > 0 ? j : i;
        break;
      }
    m++;
  }
  return m;
}
static void dx_range(bw_t *b, int v, int n)
{
  int k = 0;
  while (n >> (k + 1))
    k++;
  int u = (1 << (k + 1)) - n;
  if (v < u)
    bw_put(b, v, k);
  else
    bw_put(b, v + u, k + 1);
}
/* gains in steps of 1 / 2^prec dB; DX_ZERO */
static void dx_gain(bw_t *b, const dx_t *d, int steps, int zero)
{
  int sc = 1 << d->prec, n = ((d->maxg - d->ming) << d->prec) + 2;
  if (d->raw_g)
  {
    dx_range(b, zero ? n - 1 : d->maxg * sc - steps, n);
    return;
  }
  /* position in the list: multiples of 3 dB, other integers, then finer and finer; each downwards from 0, then upwards */
  int idx = 0, found = 0;
  for (int pass = 0; pass < 2 + d->prec && !found; pass++)
  {
    int step = pass < 2 ? sc : sc >> (pass - 1);
    for (int up = 0; up < 2 && !found; up++)
      for (int s = up ? step : 0; up ? s <= d->maxg * sc : s >= d->ming * sc; s += up ? step : -step)
      {
        int in = pass == 0 ? s % (3 * sc) == 0 : pass == 1 ? s % (3 * sc) != 0 : s % (2 * step) != 0;
        if (!in)
          continue;
        if (!zero && s == steps)
        {
          found = 1;
          break;
        }
        idx++;
      }
  }
  int head = idx >> d->lg_g, max = (n - 1) >> d->lg_g;
  for (int i = 0; i < head; i++)
    bw_put(b, 0, 1);
  if (head < max)
    bw_put(b, 1, 1);
  bw_put(b, idx & ((1 << d->lg_g) - 1), d->lg_g);
}
static unsigned dx_rnd(unsigned *s)
{
  *s = *s * 1664525u + 1013904223u;
  return *s >> 10;
}
static int dx_pick(const dx_t *d, unsigned *s, int *zero)
{
  int sc = 1 << d->prec, r = dx_rnd(s);
  *zero = (r & 7) < d->zero;
  int hi = d->maxg * sc < d->top * sc ? d->maxg * sc : d->top * sc, lo = d->ming * sc;
  if (r >> 3 & 1 && lo < -12 * sc)
    lo = -12 * sc;
  if ((r >> 4 & 31) == 0)
    return d->ming * sc;
  if ((r >> 4 & 31) == 1)
    return hi;
  return lo + (int)(dx_rnd(s) % (unsigned)(hi - lo + 1));
}
static const int dx_tin[8] = {7, 12, 14}, dx_nt = 3;
/* what the standard's templates for 7.1 front, 7.1 and 5.2.1 into 5.1 hold */
static const int dx_tm[3][20] = {{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 1, 0, 0, 1},
                                 {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 1},
                                 {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 1, 0, 0, 0}};
static int dx_has_tmpl(int src, int tgt) { return tgt == 6 && (src == 7 || src == 12 || src == 14); }
/* writes one matrix; M[in * nout + out] linear gains */
static void dx_write(bw_t *b, const dx_t *d, int src, int tgt, int ns, int nt, double *M)
{
  dx_c I[32], O[32];
  int ni = dx_compact(lay[src], ns, I), no = dx_compact(lay[tgt], nt, O), sep[32], sym[32], cell[32][32];
  unsigned s = d->seed * 2654435761u + 12345;
  bw_put(b, d->neq > 0, 1);
  if (d->neq)
  {
    static const int np[4] = {0, 1, 2, 3};
    int sp = d->eqprec + 1 > 3 ? 3 : np[d->eqprec] + 1;
    bw_esc(b, d->neq - 1, 3, 5, 0);
    bw_put(b, d->eqprec, 2);
    bw_put(b, d->eqext, 1);
    for (int e = 0; e < d->neq; e++)
    {
      bw_esc(b, d->eq[e].nf - 1, 2, 4, 0);
      int lp = 0, ll = 10, top = 99;
      for (int f = 0; f < d->eq[e].nf; f++)
      {
        dx_range(b, d->eq[e].p10[f] - lp, 4 - lp);
        if (d->eq[e].p10[f] > lp)
          ll = 10;
        if (d->eq[e].p10[f] == 3)
          top = 24;
        dx_range(b, d->eq[e].ld2[f] - ll, 1 + top - ll);
        lp = d->eq[e].p10[f], ll = d->eq[e].ld2[f];
        bw_put(b, d->eq[e].q[f], 5);
        if (d->eq[e].q[f] > 19)
          bw_put(b, d->eq[e].qx[f], 3);
        bw_put(b, d->eq[e].g[f], 4 + d->eqext + d->eqprec);
      }
      bw_put(b, d->eq[e].sg, 4 + d->eqext + sp);
    }
    for (int c = 0; c < ns; c++)
    {
      bw_put(b, d->map[c] > 0, 1);
      if (d->map[c])
        dx_range(b, d->map[c] - 1, d->neq);
    }
  }
  bw_put(b, d->prec, 2);
  bw_esc(b, d->maxg, 3, 4, 0);
  bw_esc(b, -d->ming - 1, 4, 5, 0);
  bw_put(b, d->sep, 1);
  for (int j = 0; j < no; j++)
  {
    sep[j] = O[j].type == 1 && (d->sep || d->sepm >> j & 1);
    if (!d->sep && O[j].type == 1)
      bw_put(b, sep[j], 1);
  }
  bw_put(b, d->sym, 1);
  for (int j = 0; j < no; j++)
  {
    sym[j] = d->sym || d->symm >> j & 1;
    if (!d->sym)
      bw_put(b, sym[j], 1);
  }
  bw_put(b, d->mixlfe, 1);
  for (int i = 0; i < ni; i++)
    for (int j = 0; j < no; j++)
      cell[i][j] = (int)(dx_rnd(&s) & 7) < d->dens && !(d->mixlfe && I[i].lfe != O[j].lfe);
  bw_put(b, d->raw_c, 1);
  if (d->raw_c)
  {
    for (int i = 0; i < ni; i++)
      for (int j = 0; j < no; j++)
        if (!d->mixlfe || I[i].lfe == O[j].lfe)
          bw_put(b, cell[i][j], 1);
  }
  else
  {
    static int flat[1024];
    int cnt = 0, t = 0;
    bw_put(b, d->tmpl, 1);
    while (t < 2 && dx_tin[t] != src)
      t++;
    for (int i = 0; i < ni; i++)
      for (int j = 0; j < no; j++)
        if (!d->mixlfe || (!I[i].lfe && !O[j].lfe))
          flat[cnt++] = cell[i][j] ^ (d->tmpl ? dx_tm[t][i * no + j] : 0);
    bw_put(b, d->lg_c, cnt >= 256 ? 4 : 3);
    int max = cnt >> d->lg_c, k = 0;
    do
    {
      int run = 0;
      while (k + run < cnt && !flat[k + run])
        run++;
      int h = run >> d->lg_c;
      for (int q = 0; q < h; q++)
        bw_put(b, 1, 1);
      if (h < max)
        bw_put(b, 0, 1);
      bw_put(b, run & ((1 << d->lg_c) - 1), d->lg_c);
      k += run + 1;
    } while (k < cnt);
    if (d->mixlfe)
      for (int i = 0; i < ni; i++)
        for (int j = 0; j < no; j++)
          if (I[i].lfe && O[j].lfe)
            bw_put(b, cell[i][j], 1);
  }
  bw_put(b, d->full, 1);
  bw_put(b, d->raw_g, 1);
  if (!d->raw_g)
    bw_put(b, d->lg_g, 3);
  for (int i = 0; i < ns * nt; i++)
    M[i] = 0;
  for (int i = 0; i < ni; i++)
    for (int j = 0; j < no; j++)
    {
      double g[4] = {0};
      if (!cell[i][j])
        continue;
      /* which of the four gains (a-a, a-b', b-a, b-b) are told, and what the others repeat */
      int two_in = I[i].b >= 0, two_out = O[j].b >= 0, told[4] = {1, 0, 0, 0}, from[4] = {0, 0, 0, 0};
      if (!two_in && two_out)
      {
        told[1] = !(sym[j] && !(I[i].type == 2 && d->full));
      }
      else if (two_in && !two_out)
        told[2] = !sym[j];
      else if (two_in && two_out)
      {
        told[1] = !sep[j];
        told[3] = !sym[j];
        told[2] = !sep[j] && !sym[j];
        from[1] = from[2] = sep[j] ? -1 : 1;
        if (!sep[j] && sym[j])
          from[2] = 1;
        from[3] = 0;
      }
      for (int k = 0; k < 4; k++)
      {
        if (told[k])
        {
          int z, v = dx_pick(d, &s, &z);
          dx_gain(b, d, v, z);
          g[k] = z ? 0 : pow(10, v / (double)(1 << d->prec) / 20);
        }
        else
          g[k] = from[k] < 0 ? 0 : g[from[k]];
      }
      M[I[i].a * nt + O[j].a] = g[0];
      if (two_out)
        M[I[i].a * nt + O[j].b] = g[1];
      if (two_in)
        M[I[i].b * nt + O[j].a] = g[2];
      if (two_in && two_out)
        M[I[i].b * nt + O[j].b] = g[3];
    }
}
static const double dx_eqmin[2][4] = {{-8, -8, -8, -6.4}, {-16, -16, -16, -12.8}}, dx_eqstep[4] = {1, 0.5, 0.25, 0.1};
/* what equaliser e does at frequency hz */
static double dx_eqgain(const dx_t *d, int e, double hz)
{
  int sp = d->eqprec + 1 > 3 ? 3 : d->eqprec + 1;
  double v = pow(10, (dx_eqmin[d->eqext][sp] + dx_eqstep[sp] * d->eq[e].sg) / 20);
  for (int f = 0; f < d->eq[e].nf; f++)
  {
    double f0 = d->eq[e].ld2[f] * pow(10, d->eq[e].p10[f]);
    double q = d->eq[e].q[f] <= 19 ? 0.05 * (d->eq[e].q[f] + 1) : 1 + 0.1 * ((d->eq[e].q[f] - 20) * 8 + d->eq[e].qx[f] + 1);
    double g = dx_eqmin[d->eqext][d->eqprec] + dx_eqstep[d->eqprec] * d->eq[e].g[f];
    double G = pow(10, fabs(g) / 10), a = hz * hz * hz * hz + f0 * f0 * f0 * f0, x = f0 * f0 * hz * hz;
    double n = a + (G / (q * q) - 2) * x, p = a + (1 / (q * q) - 2) * x;
    v *= sqrt(g < 0 ? p / n : n / p);
  }
  return v;
}
/* the gains per bin, as the converter's model wants them; centre frequencies of its bands: the mean of their first and last
 * bin, over 257 bins counted to half the sampling rate */
static void dx_bins(const dx_t *d, int ns, int nt, double fs, const double *M, double *B)
{
  for (int k = 0; k < FM_BINS; k++)
  {
    int bd = fm_band[k], lo = bd ? fm_erb[bd - 1] : 0, hi = fm_erb[bd] - 1;
    double hz = (lo + hi) / 2.0 / 257 * fs / 2;
    for (int c = 0; c < ns; c++)
    {
      double e = d->neq && d->map[c] ? dx_eqgain(d, d->map[c] - 1, hz) : 1;
      for (int o = 0; o < nt; o++)
        B[((long)k * ns + c) * nt + o] = M[c * nt + o] * e;
    }
  }
}
/* config extension: n entries */
typedef struct
{
  int id, type, cicp, nm;
  struct
  {
    int ng, len; /* bits */
    bw_t b;
  } m[3];
} dx_e;
static void dx_ext(bw_t *b, int kind, int passive, int immersive, const dx_e *e, int n)
{
  bw_put(b, kind, 2);
  if (kind != 1)
  {
    bw_put(b, passive, 1);
    if (!passive)
      bw_put(b, 0, 3);
    bw_put(b, immersive, 1);
  }
  if (kind == 0)
    return;
  bw_put(b, n, 5);
  for (int i = 0; i < n; i++)
  {
    bw_put(b, e[i].id, 7);
    bw_put(b, e[i].type, 2);
    bw_put(b, e[i].cicp, 6);
    if (e[i].type != 1)
      continue;
    bw_esc(b, e[i].nm - 1, 1, 3, 0);
    for (int k = 0; k < e[i].nm; k++)
    {
      bw_esc(b, e[i].m[k].ng - 1, 1, 4, 4);
      for (int g = 0; g < e[i].m[k].ng; g++)
        bw_put(b, g, 5);
      long l = e[i].m[k].b.nbits;
      bw_esc(b, l, 8, 8, 12);
      for (long t = 0; t < l; t++)
        bw_put(b, e[i].m[k].b.d[t >> 3] >> (7 - (t & 7)) & 1, 1);
    }
  }
}
#endif
