/* P30: a transmitted downmix matrix maps the channels as it is written.  Enumerated: source and target layouts, the ways
 * a matrix may be written (separable / symmetric outputs told together or one by one, LFE to LFE only, the filled cells as
 * bits, as run lengths or as differences from a template, gains as numbers or positions in a list, precisions and ranges,
 * unequal treatment of single inputs, equalisers), and its place in the extension.  Oracle: the meaning of the matrix,
 * through the executable model of the converter, sample by sample. */
#include "vf.h"
#include "streams.h"
#include "fcmodel.h"
#include "dmx.h"

enum { NF = 7 };
static blob mk(int src, int fsi, const bw_t *ext, int before)
{
  sb_t *s = sb_new();
  int n = sx_cicp_nch(src);
  char els[32] = {0};
  memset(els, 'S', n);
  sx_layout(s, src, els);
  s->cfg.fs_idx = fsi;
  if (ext)
  {
    s->cfg.has_ext = 1;
    bw_init(&s->cfg.cfgext);
    bw_esc(&s->cfg.cfgext, before, 2, 4, 8);
    for (int i = 0; i < before; i++)
    {
      bw_esc(&s->cfg.cfgext, 0, 4, 8, 16);
      bw_esc(&s->cfg.cfgext, 3 + i, 4, 8, 16);
      for (int k = 0; k < 3 + i; k++)
        bw_put(&s->cfg.cfgext, 0xA5, 8);
    }
    bw_esc(&s->cfg.cfgext, 1, 4, 8, 16);
    bw_esc(&s->cfg.cfgext, bw_len(ext), 4, 8, 16);
    bw_bytes(&s->cfg.cfgext, ext->d, bw_len(ext));
  }
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < NF; f++)
  {
    for (int c = 0; c < n; c++)
    {
      fd_ch *x = &s->ch[c];
      int on = f > 0, seed = 1000 + f * 32 + c, inv = 0, lev = 0;
      x->win = W_LONG;
      x->max_sfb = gold_nsfb_l[fsi];
      x->arith_reset = 1;
      if (f == 3)
        seed = 1000 + f * 32 + c / 2, inv = c & 1;
      if (f == 4)
        lev = (c * 7 + f) % 3 * 6;
      sx_fill(x, fsi, seed, on ? 50 : 0);
      fd_gain(x, 128 + lev);
      if (inv)
        for (int i = 0; i < 1024; i++)
          x->q[i] = -x->q[i];
    }
    sb_frame(s, 1);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  return b;
}
static double *xs;
static long xn;
static int a_src = -1;
static int source(int src, int fsi)
{
  if (a_src == src * 32 + fsi)
    return 1;
  dec_t d;
  blob b = mk(src, fsi, 0, 0);
  dec_defaults(&d);
  d.in.ui_pcm_wd_sz = 32;
  int n = sx_cicp_nch(src), e = dec_all(&d, b, 0);
  dec_close(&d);
  free(b.d);
  if (e || d.out.i_num_chan != n)
  {
    vf_fail("source", "the source does not decode: %x, %d channels", e, d.out.i_num_chan);
    return 0;
  }
  free(xs);
  xn = d.npcm / 4 / n;
  xs = malloc(sizeof(double) * xn * n);
  for (long t = 0; t < xn; t++)
    for (int c = 0; c < n; c++)
      xs[c * xn + t] = ((int32_t *)d.pcm)[t * n + c] / 65536.0;
  a_src = src * 32 + fsi;
  dec_free(&d);
  return 1;
}
static double fsof(int fsi) { return fsi == 3 ? 48000 : fsi == 4 ? 44100 : fsi == 5 ? 32000 : 24000; }
/* decodes src with the extension into tgt and compares with the matrix */
static void check(int src, int tgt, int fsi, const bw_t *ext, int before, const dx_t *dm, const double *M)
{
  int ns = sx_cicp_nch(src), nt = sx_cicp_nch(tgt), bad = 0;
  if (!source(src, fsi))
    return;
  static double *B;
  if (!B)
    B = malloc(sizeof(double) * FM_BINS * 24 * 24);
  dx_bins(dm, ns, nt, fsof(fsi), M, B);
  blob b = mk(src, fsi, ext, before);
  dec_t D;
  dec_defaults(&D);
  D.in.ui_pcm_wd_sz = 32;
  D.in.ui_cicp_layout_idx = tgt;
  int e = dec_all(&D, b, 0);
  dec_close(&D);
  if (e || D.out.i_num_chan != nt)
  {
    vf_fail("refused", "layout %d into %d with a matrix: code %x, %d channels", src, tgt, e, D.out.i_num_chan);
    dec_free(&D);
    free(b.d);
    return;
  }
  long n = D.npcm / 4 / nt;
  const int32_t *p = (int32_t *)D.pcm;
  fm_t f;
  fm_new(&f, ns, nt, B, 1);
  static double xi[24 * FM_H], yo[24 * FM_H];
  double prev = 1, gm = 1, worst = 0, peak = 0;
  for (long i = 0; i < (long)FM_BINS * ns * nt; i++)
    gm = fmax(gm, fabs(B[i]));
  long cmp = 0;
  for (long h = 0; h * FM_H + FM_H <= n && (h + 1) * FM_H <= xn && !bad; h++)
  {
    double sc = prev;
    prev = 1;
    for (int c = 0; c < ns; c++)
    {
      double top = 0;
      for (int i = 0; i < FM_H; i++)
      {
        xi[c * FM_H + i] = xs[c * xn + h * FM_H + i];
        top = fmax(top, fabs(xi[c * FM_H + i]));
      }
      prev += top * gm;
    }
    sc = fmax(sc, prev);
    fm_block(&f, xi, yo);
    if (!h)
      continue;
    for (int o = 0; o < nt && !bad; o++)
      for (int i = 0; i < FM_H && !bad; i++)
      {
        double v = p[((h - 1) * FM_H + i) * nt + o] / 65536.0, w = yo[o * FM_H + i];
        worst = fmax(worst, fabs(v - w) / sc);
        peak = fmax(peak, fabs(w));
        cmp++;
        if (fabs(v - w) > 3e-4 * sc + 0.01)
        {
          vf_fail("matrix", "sample %ld of output %d is %.4f, the transmitted matrix gives %.4f", (h - 1) * FM_H + i, o, v, w);
          bad = 1;
        }
      }
  }
  fm_free(&f);
  if (getenv("P30_RANGE"))
    fprintf(stderr, "worst %.2e peak %.0f cmp %ld\n", worst, peak, cmp);
  if (!bad && (cmp < 3 * 1024 * nt || peak > 28000))
    vf_fail("size", "%ld samples compared, peak %.0f", cmp, peak);
  vf_trans += cmp;
  vf_nontriv++;
  vf_outcome(vf_hash(D.pcm, D.npcm, src * 100 + tgt));
  dec_free(&D);
  free(b.d);
}
static void many(int src, int tgt, int fsi, const dx_t *dm, int behind)
{
  dx_e e = {.id = 1, .type = 1, .cicp = tgt, .nm = 1 + behind};
  static double M[24 * 24], M2[24 * 24];
  bw_t x;
  e.m[0].ng = 1;
  bw_init(&e.m[0].b);
  dx_write(&e.m[0].b, dm, src, tgt, sx_cicp_nch(src), sx_cicp_nch(tgt), M);
  if (e.m[0].b.nbits > 255 + 255 + 4095)
  { /* longer than its length can tell: shorter heads */
    dx_t d2 = *dm;
    d2.lg_g++;
    bw_free(&e.m[0].b);
    many(src, tgt, fsi, &d2, behind);
    return;
  }
  for (int i = 1; i <= behind; i++)
  { /* for other groups */
    dx_t d2 = *dm;
    d2.seed += i, d2.dens = 1, d2.neq = 0;
    e.m[i].ng = 1;
    bw_init(&e.m[i].b);
    dx_write(&e.m[i].b, &d2, src, tgt, sx_cicp_nch(src), sx_cicp_nch(tgt), M2);
  }
  bw_init(&x);
  dx_ext(&x, 2, 0, 0, &e, 1);
  if (getenv("P30_RANGE"))
    fprintf(stderr, "%ld bits, prec %d range %d..%d lists %d equalisers %d\n", e.m[0].b.nbits, dm->prec, dm->ming, dm->maxg, !dm->raw_g, dm->neq);
  check(src, tgt, fsi, &x, 0, dm, M);
  bw_free(&x);
  for (int i = 0; i <= behind; i++)
    bw_free(&e.m[i].b);
}
static void one(int src, int tgt, int fsi, const dx_t *dm) { many(src, tgt, fsi, dm, 0); }
/* extensions that follow each other: one entry of each kind; -1 none at all */
static int exts(bw_t *x, int kind, int src, int tgt)
{
  static dx_e e[2];
  static double M[24 * 24];
  dx_t way(int, int, int);
  int n = kind == 4 || kind == 6 ? 2 : kind == 1 ? 0 : 1;
  memset(e, 0, sizeof(e));
  if (kind < 0)
    return 0;
  for (int i = 0; i < n; i++)
  {
    int mine = kind == 2 || kind == 3 || kind == 4 ? i == n - 1 : kind == 5 ? 0 : i == 0;
    int to = mine ? tgt : tgt == 5 ? 2 : 5;
    dx_t d = way(kind * 9 + 33, src, to);
    e[i].id = i + 1, e[i].type = kind != 3 || !mine, e[i].cicp = to, e[i].nm = 1, e[i].m[0].ng = 1;
    d.raw_g = 1;
    d.tmpl = 0;
    bw_init(&e[i].m[0].b);
    dx_write(&e[i].m[0].b, &d, src, to, sx_cicp_nch(src), sx_cicp_nch(to), M);
  }
  bw_init(x);
  dx_ext(x, kind == 0 ? 0 : 2, 0, 0, e, n);
  return 1;
}
static void after(int sa, int ka, int sb, int kb, int tgt)
{
  bw_t xa, xb;
  int ha = exts(&xa, ka, sa, tgt), hb = exts(&xb, kb, sb, tgt), nt = sx_cicp_nch(tgt);
  blob a = mk(sa, 3, ha ? &xa : 0, 0), b = mk(sb, 3, hb ? &xb : 0, 0), ab;
  ab.n = a.n + b.n;
  ab.d = malloc(ab.n);
  memcpy(ab.d, a.d, a.n);
  memcpy(ab.d + a.n, b.d, b.n);
  dec_t D[2];
  int e[2];
  for (int i = 0; i < 2; i++)
  {
    dec_defaults(&D[i]);
    D[i].in.ui_pcm_wd_sz = 32;
    D[i].in.ui_cicp_layout_idx = tgt;
    e[i] = dec_all(&D[i], i ? ab : b, 0);
    dec_close(&D[i]);
  }
  long n0 = D[0].npcm, n1 = D[1].npcm;
  if (getenv("P30_RANGE"))
    fprintf(stderr, "codes %x %x frames %g %g\n", e[0], e[1], n0 / 4096.0 / nt, n1 / 4096.0 / nt);
  if (e[0] || e[1] || n1 <= n0 || D[1].out.i_num_chan != nt)
    vf_fail("after", "alone: code %x, %ld bytes; behind another: %x, %ld bytes", e[0], n0, e[1], n1);
  else
  {
    long w = 4L * nt, skip = n0 / w > 4096 ? 2048 * w : 0;
    if (memcmp(D[0].pcm + skip, D[1].pcm + n1 - n0 + skip, n0 - skip))
      vf_fail("after", "a configuration behind another one (extension %d after %d) is converted differently than alone", kb, ka);
    vf_trans += n0 / w;
    vf_nontriv++;
  }
  vf_outcome(vf_hash(D[1].pcm, n1, ka * 10 + kb));
  for (int i = 0; i < 2; i++)
    dec_free(&D[i]);
  if (ha)
    bw_free(&xa);
  if (hb)
    bw_free(&xb);
  free(a.d), free(b.d), free(ab.d);
}
/* the k-th way to write a matrix */
dx_t way(int k, int src, int tgt)
{
  dx_t d = {0};
  static const int rng[6][2] = {{0, -1}, {3, -20}, {6, -47}, {22, -47}, {7, -15}, {1, -16}};
  unsigned r = k * 747796405u + 2891336453u;
  d.seed = k * 131 + src * 17 + tgt;
  d.sep = k & 1;
  d.sym = k >> 1 & 1;
  d.mixlfe = k >> 2 & 1;
  d.raw_c = k >> 3 & 1;
  d.raw_g = k >> 4 & 1;
  d.full = k >> 5 & 1;
  d.tmpl = !d.raw_c && (k >> 6 & 1) && dx_has_tmpl(src, tgt);
  d.sepm = dx_rnd(&r), d.symm = dx_rnd(&r);
  d.prec = dx_rnd(&r) % 3;
  int q = dx_rnd(&r) % 6;
  d.maxg = rng[q][0], d.ming = rng[q][1];
  d.lg_c = dx_rnd(&r) % 8;
  d.lg_g = dx_rnd(&r) % 8;
  d.dens = 2 + dx_rnd(&r) % 6;
  d.zero = dx_rnd(&r) % 2;
  d.top = 6;
  return d;
}
static void eqs(dx_t *d, int v, int ns)
{
  unsigned r = v * 9781 + 7;
  d->neq = v >= 1000 ? v - 1000 : 1 + v % 4;
  d->eqprec = v / 4 % 4;
  d->eqext = v / 16 & 1;
  for (int e = 0; e < d->neq; e++)
  {
    d->eq[e].nf = 1 + (v + e) % 4;
    int lp = 0, ll = 10, top = 99;
    for (int f = 0; f < d->eq[e].nf; f++)
    {
      int p = lp + (int)(dx_rnd(&r) % 3);
      p = p > 3 ? 3 : p;
      if (p > lp)
        ll = 10;
      if (p == 3)
        top = 24;
      d->eq[e].p10[f] = lp = p;
      d->eq[e].ld2[f] = ll = ll + (int)(dx_rnd(&r) % (unsigned)(top - ll + 1));
      d->eq[e].q[f] = dx_rnd(&r) & 31;
      d->eq[e].qx[f] = dx_rnd(&r) & 7;
      int n = 4 + d->eqext + d->eqprec, mid = 1 << (n - 1);
      d->eq[e].g[f] = mid / 2 + (int)(dx_rnd(&r) % (unsigned)mid);
    }
    int n = 4 + d->eqext + (d->eqprec + 1 > 3 ? 3 : d->eqprec + 1);
    d->eq[e].sg = (1 << (n - 2)) + (int)(dx_rnd(&r) % (unsigned)(1 << (n - 2)));
  }
  for (int c = 0; c < ns; c++)
    d->map[c] = (int)(dx_rnd(&r) % (unsigned)(d->neq + 1));
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  fm_init();
  /* every pair of layouts */
  for (int src = 1; src <= 20; src++)
    for (int tgt = 1; tgt <= 19; tgt++)
    {
      if (!sx_cicp_nch(src) || src == 13 || tgt == 13 || !sx_cicp_nch(tgt) || src == tgt)
        continue;
      for (int v = 0; v < (vf_thorough ? 12 : 3); v++)
      {
        int k = src * 7 + tgt * 5 + v * 53;
        if (vf_case("layout %d into %d, way %d", src, tgt, k & 127))
        {
          dx_t d = way(k, src, tgt);
          one(src, tgt, 3, &d);
        }
      }
    }
  /* every way for a few pairs */
  static const int pr[5][2] = {{6, 2}, {12, 6}, {7, 6}, {14, 6}, {15, 14}};
  for (int i = 0; i < 5; i++)
    for (int k = 0; k < (vf_thorough ? 512 : 128); k++)
      if (vf_case("layout %d into %d, way %d", pr[i][0], pr[i][1], k))
      {
        dx_t d = way(k, pr[i][0], pr[i][1]);
        one(pr[i][0], pr[i][1], 3, &d);
      }
  /* ranges, precisions and the gain lists */
  static const int tp[6] = {0, 6, 7, 21, 22, 3}, bt[7] = {-1, -2, -14, -15, -16, -46, -47};
  for (int a = 0; a < 6; a++)
    for (int c = 0; c < 7; c++)
      for (int pc = 0; pc < 3; pc++)
        for (int m = 0; m < (vf_thorough ? 9 : 4); m++)
          if (vf_case("gains %d to %d dB, precision %d, %s %d", bt[c], tp[a], pc, m ? "list" : "numbers", m))
          {
            dx_t d = way(0, 6, 2);
            d.seed = a * 77 + c * 7 + pc + m * 1000;
            d.raw_g = !m;
            d.lg_g = m ? (vf_thorough ? m - 1 : m * 2) : 0;
            d.prec = pc, d.maxg = tp[a], d.ming = bt[c], d.dens = 7;
            one(6, 2, 3, &d);
          }
  /* equalisers */
  static const int eq[5][2] = {{6, 2}, {12, 6}, {15, 6}, {19, 10}, {5, 19}};
  for (int v = 0; v < (vf_thorough ? 128 : 32); v++)
    for (int i = 0; i < 5; i++)
      for (int fsi = 3; fsi <= (vf_thorough ? 5 : 3); fsi++)
        if (vf_case("equalisers %d, layout %d into %d, %g Hz", v, eq[i][0], eq[i][1], fsof(fsi)))
        {
          dx_t d = way(v * 5 + 3, eq[i][0], eq[i][1]);
          eqs(&d, v, sx_cicp_nch(eq[i][0]));
          d.top = 0;
          one(eq[i][0], eq[i][1], fsi, &d);
        }
  /* more equalisers than channels */
  for (int v = 1; v <= 12; v++)
    for (int src = 1; src <= 3; src++)
      if (vf_case("%d equalisers for %d channels", v, src))
      {
        dx_t d = way(v, src, 6);
        eqs(&d, 1000 + v, src);
        d.top = 0;
        one(src, 6, 3, &d);
      }
  /* matrices of every length */
  for (int lg = 0; lg < 8; lg++)
    for (int v = 0; v < 6; v++)
      if (vf_case("long matrix %d, lists with %d bits%s", v % 3, lg, v < 3 ? "" : ", another one behind it"))
      {
        static const int st[3][2] = {{12, 19}, {6, 12}, {19, 16}};
        dx_t d = way(0, st[v % 3][0], st[v % 3][1]);
        d.raw_g = 0, d.prec = 2, d.maxg = 22, d.ming = -47, d.lg_g = lg, d.dens = 8, d.zero = 0;
        many(st[v % 3][0], st[v % 3][1], 3, &d, v / 3);
      }
  /* the list at its longest, with equalisers */
  for (int v = 0; v < 4; v++)
    if (vf_case("the longest list of gains, with %d equalisers", v + 1))
    {
      dx_t d = way(v, 6, 2);
      eqs(&d, v, 6);
      d.raw_g = 0, d.prec = 2, d.maxg = 22, d.ming = -47, d.top = 0;
      one(6, 2, 3, &d);
    }
  /* its place in the extension */
  for (int v = 0; v < 48; v++)
    if (vf_case("matrix among others %d", v))
    {
      static dx_e e[4];
      static double M[24 * 24], M2[24 * 24];
      dx_t d = way(v * 3 + 1, 6, 2), o = way(v * 3 + 2, 6, 10);
      int n = 0, want = v % 3, kind = 1 + (v / 3 & 1);
      memset(e, 0, sizeof(e));
      for (n = 0; n < 1 + want + (v / 6 & 1); n++)
      {
        e[n].id = n + 1;
        e[n].nm = 1;
        e[n].m[0].ng = 1 + (v / 12 & 1) * 5 * (n == want);
        bw_init(&e[n].m[0].b);
        e[n].cicp = n == want ? 2 : n == 0 ? 10 : 5;
        e[n].type = n == want || n == 0;
        if (n == want)
          dx_write(&e[n].m[0].b, &d, 6, 2, 6, 2, M);
        else
          dx_write(&e[n].m[0].b, &o, 6, 10, 6, 4, M2);
        if (n == want && v / 24)
        { /* a second one for the same layout: for other groups */
          e[n].nm = 2;
          e[n].m[1].ng = 1;
          bw_init(&e[n].m[1].b);
          dx_write(&e[n].m[1].b, &o, 6, 2, 6, 2, M2);
        }
      }
      bw_t x;
      bw_init(&x);
      dx_ext(&x, kind, v / 12 & 1, v / 24 & 1, e, n);
      check(6, 2, 3, &x, v % 4, &d, M);
      bw_free(&x);
    }
  /* configurations behind each other */
  for (int ka = -1; ka < 7; ka++)
    for (int kb = -1; kb < 7; kb++)
      for (int v = 0; v < 4; v++)
        if ((ka != kb || v) && vf_case("extension %d in layout %d, then %d in %d", ka, v & 1 ? 12 : 6, kb, v & 2 ? 5 : 6))
          after(v & 1 ? 12 : 6, ka, v & 2 ? 5 : 6, kb, 2);
  return vf_finish();
}
